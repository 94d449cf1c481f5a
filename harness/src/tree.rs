use crate::vp::*;

/// What kind of content a text or attribute value carries; decides which corruptions make it invalid.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// any text is valid
    Str,
    Int,
    Bool,
    Num,
    /// one of a closed set of tokens
    Enum,
    /// exactly this value
    Fixed,
}

#[derive(Clone)]
pub struct At {
    pub name: &'static str,
    pub val: String,
    pub kind: K,
    pub req: bool,
}

#[derive(Clone)]
pub struct El {
    pub ns: &'static str,
    pub name: &'static str,
    pub attrs: Vec<At>,
    pub kids: Vec<El>,
    pub text: Option<(String, K)>,
    /// a document without this element is invalid
    pub req: bool,
}

pub fn el(name: &'static str) -> El {
    El { ns: "", name, attrs: vec![], kids: vec![], text: None, req: true }
}
pub fn leaf(name: &'static str, t: &T) -> El {
    let mut e = el(name);
    e.text = Some((t.x.clone(), t.k));
    e
}
impl El {
    pub fn c(mut self, e: El) -> El {
        self.kids.push(e);
        self
    }
    pub fn cs(mut self, es: Vec<El>) -> El {
        self.kids.extend(es);
        self
    }
    pub fn co(mut self, e: Option<El>) -> El {
        if let Some(e) = e {
            self.kids.push(e.opt());
        }
        self
    }
    pub fn a(mut self, name: &'static str, t: &T) -> El {
        self.attrs.push(At { name, val: t.x.clone(), kind: t.k, req: true });
        self
    }
    pub fn ao(mut self, name: &'static str, t: &Option<T>) -> El {
        if let Some(t) = t {
            self.attrs.push(At { name, val: t.x.clone(), kind: t.k, req: false });
        }
        self
    }
    pub fn t(mut self, t: &T) -> El {
        self.text = Some((t.x.clone(), t.k));
        self
    }
    /// the element may be left out
    pub fn opt(mut self) -> El {
        self.req = false;
        self
    }
    /// set the namespace of this element and all descendants that have none
    pub fn ns(mut self, ns: &'static str) -> El {
        self.set_ns(ns);
        self
    }
    /// set the namespace of this element only
    pub fn ns1(mut self, ns: &'static str) -> El {
        self.ns = ns;
        self
    }
    fn set_ns(&mut self, ns: &'static str) {
        if self.ns.is_empty() {
            self.ns = ns;
        }
        for k in &mut self.kids {
            k.set_ns(ns);
        }
    }
}

// ---------------------------------------------------------------- symbolic leaf values

/// A literal: its text in the document, in the form the library writes, and its kind.
#[derive(Clone)]
pub struct T {
    pub x: String,
    pub k: K,
}
pub fn tx(x: impl Into<String>, k: K) -> T {
    T { x: x.into(), k }
}
/// one symbolic lower-case letter
pub fn txt() -> T {
    let mut s = String::new();
    s.push(range(b'a', b'z') as char);
    tx(s, K::Str)
}
pub fn s(t: &T) -> String {
    t.x.clone()
}
/// a symbolic one-digit integer
pub fn digit() -> (T, u8) {
    let d = range(b'0', b'9');
    let mut s = String::new();
    s.push(d as char);
    (tx(s, K::Int), d - b'0')
}
pub fn boolean() -> (T, bool) {
    let b = flip();
    (tx(if b { "true" } else { "false" }, K::Bool), b)
}
pub fn fixed(v: &str) -> T {
    tx(v, K::Fixed)
}
pub fn en<V: Clone>(xs: &[(&str, V)]) -> (T, V) {
    let i = choose(xs.len());
    (tx(xs[i].0, K::Enum), xs[i].1.clone())
}
pub fn maybe<X>(f: impl FnOnce() -> X) -> Option<X> {
    if flip() {
        Some(f())
    } else {
        None
    }
}
/// lo..=hi repetitions
pub fn many<X>(lo: usize, hi: usize, mut f: impl FnMut() -> X) -> Vec<X> {
    let n = lo + choose(hi - lo + 1);
    (0..n).map(|_| f()).collect()
}

// ---------------------------------------------------------------- writing documents

/// Presentation of a document: none of it carries meaning in XML.
#[derive(Clone, Copy, Default)]
pub struct Style {
    /// namespaces: 0 = default-namespace declarations, 1 = prefixes declared at the root, 2 = prefixes
    /// declared where used
    pub ns: u8,
    /// white space between elements
    pub ws: bool,
    /// comments and processing instructions between elements
    pub noise: bool,
    /// comments / PIs inside text content
    pub text_noise: bool,
    /// single quotes, attributes reversed
    pub quotes: bool,
    /// text as CDATA
    pub cdata: bool,
    /// characters of text as numeric references
    pub refs: bool,
    /// XML declaration
    pub decl: bool,
    /// empty elements as start + end tag
    pub long_empty: bool,
}

fn esc(o: &mut String, t: &str, attr: Option<char>) {
    for c in t.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '>' => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            '\n' | '\t' if attr.is_some() => o.push_str(if c == '\n' { "&#10;" } else { "&#9;" }),
            '"' if attr == Some('"') => o.push_str("&quot;"),
            '\'' if attr == Some('\'') => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
}

fn collect_ns<'a>(e: &El, v: &mut Vec<&'a str>)
where
    El: 'a,
{
    if !e.ns.is_empty() && !v.iter().any(|x| *x == e.ns) {
        v.push(e.ns);
    }
    for k in &e.kids {
        collect_ns(k, v);
    }
}

pub fn write(e: &El, st: Style) -> String {
    let mut o = String::new();
    if st.decl {
        o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if st.noise {
        o.push_str("<!-- head --><?pi x?>\n");
    }
    let mut nss: Vec<&str> = vec![];
    collect_ns(e, &mut nss);
    write_el(e, st, &nss, "", true, &mut o);
    if st.noise {
        o.push_str("<!-- tail -->\n");
    }
    o
}

fn write_el(e: &El, st: Style, nss: &[&str], def: &str, root: bool, o: &mut String) {
    let q = if st.quotes { '\'' } else { '"' };
    let mut tag = String::new();
    let mut decl = String::new();
    let mut def = def;
    let mut put = |name: &str, uri: &str| {
        decl.push(' ');
        decl.push_str(name);
        decl.push('=');
        decl.push(q);
        decl.push_str(uri);
        decl.push(q);
    };
    if st.ns == 0 {
        if e.ns != def {
            put("xmlns", e.ns);
            def = e.ns;
        }
    } else {
        if root && st.ns == 1 {
            for (i, u) in nss.iter().enumerate() {
                put(PFX[i], u);
            }
        }
        if !e.ns.is_empty() {
            let i = nss.iter().position(|u| *u == e.ns).unwrap();
            if st.ns == 2 {
                put(PFX[i], e.ns);
            }
            tag.push_str(&PFX[i][6..]);
            tag.push(':');
        }
    }
    tag.push_str(e.name);
    o.push('<');
    o.push_str(&tag);
    let n = e.attrs.len();
    if !st.quotes {
        o.push_str(&decl);
    }
    for i in 0..n {
        let a = &e.attrs[if st.quotes { n - 1 - i } else { i }];
        o.push(' ');
        o.push_str(a.name);
        o.push('=');
        o.push(q);
        esc(o, &a.val, Some(q));
        o.push(q);
    }
    if st.quotes {
        o.push_str(&decl);
    }
    let empty = e.kids.is_empty() && e.text.as_ref().map(|t| t.0.is_empty()).unwrap_or(true);
    if empty && !st.long_empty {
        o.push_str("/>");
        return;
    }
    o.push('>');
    if let Some((t, _)) = &e.text {
        if !t.is_empty() {
            if st.text_noise {
                o.push_str("<!--n-->");
                // split in the middle (all texts are ASCII where this style is used)
                let m = t.len() / 2;
                esc(o, &t[..m], None);
                o.push_str("<!--n--><?p q?>");
                esc(o, &t[m..], None);
                o.push_str("<!--n-->");
            } else if st.cdata {
                o.push_str("<![CDATA[");
                o.push_str(t);
                o.push_str("]]>");
            } else if st.refs {
                for c in t.chars() {
                    o.push_str(&format!("&#{};", c as u32));
                }
            } else {
                esc(o, t, None);
            }
        }
    }
    for k in &e.kids {
        if st.ws {
            o.push_str("\n  ");
        }
        if st.noise {
            o.push_str("<!-- c --><?pi y?>");
        }
        write_el(k, st, nss, def, false, o);
    }
    if !e.kids.is_empty() {
        if st.noise {
            o.push_str("<!-- e -->");
        }
        if st.ws {
            o.push('\n');
        }
    }
    o.push_str("</");
    o.push_str(&tag);
    o.push('>');
}
static PFX: [&str; 6] = ["xmlns:p", "xmlns:q", "xmlns:r", "xmlns:s", "xmlns:u", "xmlns:v"];

pub fn plain(e: &El) -> String {
    write(e, Style { ns: 1, ..Default::default() })
}

// ---------------------------------------------------------------- reading documents

/// Does `xml` denote exactly the tree `e`?  Comments, prefixes, attribute order and white space between
/// elements are not significant; everything else is.
pub fn denotes(xml: &str, e: &El) -> Result<(), &'static str> {
    let d = match roxmltree::Document::parse(xml) {
        Ok(d) => d,
        Err(_) => return Err("output is not well-formed XML"),
    };
    same(d.root_element(), e)
}

fn same(n: roxmltree::Node, e: &El) -> Result<(), &'static str> {
    if n.tag_name().name() != e.name {
        return Err("output has an element where another is expected");
    }
    if n.tag_name().namespace().unwrap_or("") != e.ns {
        return Err("output has an element in the wrong namespace");
    }
    if n.attributes().len() != e.attrs.len() {
        return Err("output has missing or additional attributes");
    }
    for a in &e.attrs {
        match n.attribute(a.name) {
            Some(v) if v == a.val => {}
            Some(_) => return Err("output has a wrong attribute value"),
            None => return Err("output lacks an attribute"),
        }
    }
    let kids: Vec<_> = n.children().filter(|c| c.is_element()).collect();
    if kids.len() != e.kids.len() {
        return Err("output has missing or additional elements");
    }
    let mut text = String::new();
    for c in n.children().filter(|c| c.is_text()) {
        text.push_str(c.text().unwrap_or(""));
    }
    match &e.text {
        Some((t, _)) if e.kids.is_empty() => {
            if text != *t {
                return Err("output has wrong text content");
            }
        }
        _ => {
            if !text.bytes().all(|b| matches!(b, b' ' | b'\n' | b'\t' | b'\r')) {
                return Err("output has text where only elements are expected");
            }
        }
    }
    for (k, ek) in kids.iter().zip(&e.kids) {
        same(*k, ek)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- breaking documents

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F {
    Drop,
    Rename,
    WrongNs,
    Text,
    DropAttr(usize),
    RenameAttr(usize),
    Attr(usize),
}

fn sites(e: &El, path: &mut Vec<usize>, root: bool, out: &mut Vec<(Vec<usize>, F)>) {
    if e.req || root {
        if !root {
            out.push((path.clone(), F::Drop));
        }
        out.push((path.clone(), F::Rename));
        out.push((path.clone(), F::WrongNs));
    }
    if let Some((_, k)) = &e.text {
        if *k != K::Str {
            out.push((path.clone(), F::Text));
        }
    }
    for (i, a) in e.attrs.iter().enumerate() {
        if a.req {
            out.push((path.clone(), F::DropAttr(i)));
            out.push((path.clone(), F::RenameAttr(i)));
        }
        if a.kind != K::Str {
            out.push((path.clone(), F::Attr(i)));
        }
    }
    for (i, k) in e.kids.iter().enumerate() {
        path.push(i);
        sites(k, path, false, out);
        path.pop();
    }
}

/// A value outside the lexical space of the kind, as symbolic as it can be.
fn corrupt(v: &str, k: K) -> String {
    let c = range(b'f', b'z') as char;
    match k {
        K::Str => unreachable!(),
        K::Int | K::Num => match choose(3) {
            0 => format!("{c}"),
            1 => format!("{v}{c}"),
            _ => String::new(),
        },
        K::Bool => match choose(3) {
            0 => format!("{c}"),
            1 => format!("{v}{c}"),
            _ => String::new(),
        },
        K::Enum | K::Fixed => match choose(3) {
            0 => format!("{v}{c}"),
            1 => format!("{c}{v}"),
            _ => {
                let mut s = v.to_string();
                s.pop();
                s.push('~');
                s
            }
        },
    }
}

/// Makes the document invalid in one way, chosen symbolically among all that apply. Returns what it did.
pub fn break_one(e: &mut El) -> Option<F> {
    break_one_at(e).map(|b| b.1)
}
pub fn break_one_at(e: &mut El) -> Option<(Vec<usize>, F)> {
    let mut s = vec![];
    sites(e, &mut vec![], true, &mut s);
    if s.is_empty() {
        return None;
    }
    let (path, f) = s[choose(s.len())].clone();
    let (last, head) = match path.split_last() {
        Some((l, h)) => (Some(*l), h),
        None => (None, &path[..]),
    };
    let mut p = e;
    for i in head {
        p = &mut p.kids[*i];
    }
    if f == F::Drop {
        p.kids.remove(last.unwrap());
        return Some((path, f));
    }
    if let Some(l) = last {
        p = &mut p.kids[l];
    }
    match f {
        F::Drop => {}
        F::Rename => p.name = "zzz",
        F::WrongNs => p.ns = if p.ns == "urn:zzz" { "urn:zz" } else { "urn:zzz" },
        F::Text => {
            let (t, k) = p.text.clone().unwrap();
            p.text = Some((corrupt(&t, k), k));
        }
        F::DropAttr(i) => {
            p.attrs.remove(i);
        }
        F::RenameAttr(i) => p.attrs[i].name = "zzz",
        F::Attr(i) => {
            let a = &mut p.attrs[i];
            a.val = corrupt(&a.val, a.kind);
        }
    }
    Some((path, f))
}
