//! Content models as regular expressions over one-letter element names: the reference for which lists of
//! children a schema allows.
use crate::vp::*;
pub enum R {
    L(u8),
    Seq(Vec<R>),
    Alt(Vec<R>),
    Opt(Box<R>),
    Star(Box<R>),
    Plus(Box<R>),
    /// members in any order, each at most once; true: required
    All(Vec<(u8, bool)>),
}
pub use R::*;
pub fn l(c: char) -> R {
    L(c as u8)
}
pub fn opt(r: R) -> R {
    Opt(Box::new(r))
}
pub fn star(r: R) -> R {
    Star(Box::new(r))
}
pub fn plus(r: R) -> R {
    Plus(Box::new(r))
}
/// Positions (as a bit set) a match that starts at one of the positions `from` can end at.
fn ends(r: &R, w: &[u8], from: u32) -> u32 {
    match r {
        L(c) => {
            let mut out = 0;
            for i in 0..w.len() {
                out |= (((from >> i) & 1) & (w[i] == *c) as u32) << (i + 1);
            }
            out
        }
        Seq(rs) => rs.iter().fold(from, |f, r| ends(r, w, f)),
        Alt(rs) => rs.iter().fold(0, |o, r| o | ends(r, w, from)),
        Opt(r) => from | ends(r, w, from),
        Star(r) => {
            let (mut all, mut cur) = (from, from);
            for _ in 0..=w.len() {
                cur = ends(r, w, cur);
                all |= cur;
            }
            all
        }
        Plus(r) => {
            let one = ends(r, w, from);
            let (mut all, mut cur) = (one, one);
            for _ in 0..w.len() {
                cur = ends(r, w, cur);
                all |= cur;
            }
            all
        }
        All(ms) => {
            // only used at the start of a content model
            let mut out = 0;
            for k in 0..=w.len() {
                let mut ok = 1u32;
                for i in 0..k {
                    let mut known = 0u32;
                    for (c, _) in ms {
                        known |= (w[i] == *c) as u32;
                    }
                    ok &= known;
                    for j in 0..i {
                        ok &= (w[i] != w[j]) as u32;
                    }
                }
                for (c, req) in ms {
                    if *req {
                        let mut has = 0u32;
                        for i in 0..k {
                            has |= (w[i] == *c) as u32;
                        }
                        ok &= has;
                    }
                }
                out |= ok << k;
            }
            out
        }
    }
}
/// (the whole list is allowed, some proper or improper prefix of it is allowed)
pub fn allowed(r: &R, w: &[u8]) -> (bool, bool) {
    let e = ends(r, w, 1);
    ((e >> w.len()) & 1 == 1, e != 0)
}
/// A list of up to `n` children with symbolic names and texts; returns names, document, texts.
pub fn children(root: &str, n: usize) -> (Vec<u8>, String, Vec<u8>) {
    let k = choose(n + 1);
    let (mut names, mut texts) = (vec![], vec![]);
    let mut x = format!("<{root}>");
    for _ in 0..k {
        let c = range(b'a', b'z');
        let t = range(b'A', b'Z');
        for b in [b'<', c, b'>', t, b'<', b'/', c, b'>'] {
            x.push(b as char);
        }
        names.push(c);
        texts.push(t);
    }
    x.push_str("</");
    x.push_str(root);
    x.push('>');
    (names, x, texts)
}
pub fn accepts(
    root: &'static str,
    r: R,
    n: usize,
    // decodes, and encodes again
    run: impl Fn(&str) -> Option<Vec<u8>>,
) {
    let (names, x, texts) = children(root, n);
    note(&x);
    let got = run(&x);
    let (valid, prefix) = allowed(&r, &names);
    match got {
        None => {
            check(!valid, "a document the content model allows is rejected");
            cover("rejected");
        }
        Some(out) => {
            check(prefix, "a document that lacks something required is accepted");
            if valid {
                let doc = String::from_utf8(out).unwrap_or_default();
                note(&doc);
                same_children(&doc, root, &names, &texts);
                cover("accepted");
            } else {
                cover("accepted up to trailing elements");
            }
        }
    }
}
/// the encoded document has exactly these children, in this order
fn same_children(doc: &str, root: &str, names: &[u8], texts: &[u8]) {
    let Ok(d) = roxmltree::Document::parse(doc) else { return check(false, "output is not well-formed") };
    let n = d.root_element();
    check(n.tag_name().name() == root, "output has another root element");
    let kids: Vec<_> = n.children().filter(|c| c.is_element()).collect();
    check(kids.len() == names.len(), "decoding and encoding loses or adds elements");
    for (i, k) in kids.iter().enumerate() {
        let (kn, kt) = (k.tag_name().name().as_bytes(), k.text().unwrap_or("").as_bytes());
        check(kn.len() == 1 && kn[0] == names[i], "decoding and encoding renames or moves elements");
        check(kt.len() == 1 && kt[0] == texts[i], "decoding and encoding changes or moves text");
    }
}
/// as above, but for xs:all, where the order of the output is free
pub fn accepts_any_order(root: &'static str, r: R, n: usize, run: impl Fn(&str) -> Option<Vec<u8>>) {
    let (names, x, texts) = children(root, n);
    note(&x);
    let got = run(&x);
    let (valid, prefix) = allowed(&r, &names);
    match got {
        None => {
            check(!valid, "a document the content model allows is rejected");
            cover("rejected");
        }
        Some(out) => {
            if valid {
                let doc = String::from_utf8(out).unwrap_or_default();
                note(&doc);
                let Ok(d) = roxmltree::Document::parse(&doc) else { return check(false, "output is not well-formed") };
                let kids: Vec<_> = d.root_element().children().filter(|c| c.is_element()).collect();
                check(kids.len() == names.len(), "decoding and encoding loses or adds elements");
                for k in kids {
                    let (kn, kt) = (k.tag_name().name().as_bytes(), k.text().unwrap_or("").as_bytes());
                    let mut found = false;
                    for i in 0..names.len() {
                        if kn.len() == 1 && kn[0] == names[i] {
                            found = kt.len() == 1 && kt[0] == texts[i];
                        }
                    }
                    check(found, "decoding and encoding changes an element");
                }
                cover("accepted");
            } else {
                // a required member must be there, in whatever place
                if let All(ms) = &r {
                    for (c, req) in ms {
                        if *req {
                            check(names.iter().any(|n| n == c), "a document that lacks something required is accepted");
                        }
                    }
                }
                let _ = prefix;
                cover("accepted with additional elements");
            }
        }
    }
}
