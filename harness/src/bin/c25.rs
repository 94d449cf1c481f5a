//! Documentation: what xs:documentation says appears, collapsed, on what it documents.
use vph::schema::*;
use vph::xs::*;
use vph::*;

const BODY: &str = "element@name=a1@type=xs:string element@name=a2@type=T
    complexType@name=T(sequence(element@name=b1@type=xs:int@minOccurs=0 element@name=b2(complexType(attribute@name=at@type=xs:int)) element@ref=a1
        choice@minOccurs=0(element@name=c1@type=xs:string element@name=c2@type=S@maxOccurs=unbounded) sequence@minOccurs=0(element@name=e1@type=E element@name=e2@type=xs:string@fixed=v)) attribute@name=au@type=E@use=required)
    simpleType@name=S(restriction@base=xs:int) simpleType@name=E(restriction@base=xs:string(enumeration@value=q))
    element@name=f(complexType(all(element@name=g@type=xs:string element@name=g2@type=S@minOccurs=0)))
    element@name=h(simpleType(restriction@base=xs:int)) element@name=i(simpleType(restriction@base=xs:string(enumeration@value=q)))
    complexType@name=P(simpleContent(extension@base=xs:int(attribute@name=z@type=xs:boolean)))
    complexType@name=Q(complexContent(extension@base=T(sequence(element@name=k@type=xs:int@maxOccurs=unbounded) attribute@name=y(simpleType(restriction@base=xs:int)))))
    complexType@name=R(choice(element@name=m@type=xs:int element@name=n@type=T)) element@name=u(complexType(choice(element@name=o@type=xs:int element@name=p(complexType(sequence)))))";
/// What can be documented: the path to it in the schema (names; # stands for the inline type), where its
/// documentation has to appear (an item, or a field or variant with this ending), and where it may appear as well.
const PLACES: &[(&str, &str, &str)] = &[
    ("a1", "A1", ""), ("a2", "A2", ""), ("T", "T", ""), ("T/b1", "T.b_1", ""), ("T/b2", "T.b_2", "b2"), ("T/b2/#", "*b2*", ""), ("T/b2/#/at", ".at", ""), ("T/c1", ".C1", ""), ("T/c2", ".C2", ""), ("T/e1", ".e_1", ""), ("T/e2", ".e_2", ""), ("T/au", "T.au", ""),
    ("S", "S", ""), ("E", "E", ""), ("f", "F", ""), ("f/#", "F", ""), ("f/#/g", "F.g", ""), ("f/#/g2", "F.g_2", ""), ("h", "H", ""), ("h/#", "H", ""), ("i", "I", ""), ("i/#", "I", ""), ("P", "P", ""), ("P/z", "P.z", ""), ("Q", "Q", ""), ("Q/k", ".k", ""), ("Q/y", "Q.y", ""), ("R", "R", ""),
    ("R/m", ".M", ""), ("R/n", ".N", ""), ("u", "U", ""), ("u/#/o", ".O", ""), ("u/#/p", ".P", "P"),
];
fn find<'a>(e: &'a mut N, path: &str) -> &'a mut N {
    let (head, rest) = path.split_once('/').unwrap_or((path, ""));
    let e = if head == "#" { e.kids.iter_mut().find(|k| k.name.ends_with("Type")).unwrap() } else { named(e, head).unwrap() };
    if rest.is_empty() { e } else { find(e, rest) }
}
fn named<'a>(e: &'a mut N, name: &str) -> Option<&'a mut N> {
    for k in &mut e.kids {
        if k.get("name") == Some(name) {
            return Some(k);
        }
        // groups have no names
        if k.get("name").is_none() && k.get("ref").is_none() {
            if let Some(x) = named(k, name) {
                return Some(x);
            }
        }
    }
    None
}
fn document(s: &mut N, place: usize, text: &str) {
    let mut d = n("xs:documentation");
    d.text = text.to_string();
    let mut a = n("xs:annotation");
    a.kids.push(d);
    find(s, PLACES[place].0).kids.insert(0, a);
}
fn fits(path: &str, pattern: &str) -> bool {
    match pattern.strip_prefix('*') {
        Some(p) => !path.contains('.') && path.contains(p.trim_end_matches('*')),
        None if pattern.starts_with('.') => path.ends_with(pattern),
        None => path == pattern,
    }
}
fn may(path: &str, pattern: &str) -> bool {
    !pattern.is_empty() && !path.contains('.') && path.to_lowercase().contains(&pattern.to_lowercase())
}
/// by the book: white space of XML collapsed
fn collapsed(s: &str) -> String {
    let mut o = String::new();
    for w in s.split([' ', '\t', '\n', '\r']) {
        if !w.is_empty() {
            if !o.is_empty() {
                o.push(' ');
            }
            o.push_str(w);
        }
    }
    o
}
/// `texts`: place, text as written in the schema, text meant
fn documented(texts: &[(usize, &str, &str)]) {
    let mut s = schema(terse(BODY));
    for (p, x, _) in texts {
        document(&mut s, *p, x);
    }
    let x = s.xml();
    note(&x);
    let ts = match compile(&x) {
        Ok(ts) => ts,
        Err(e) => {
            note(&e.to_string());
            return check(false, "the schema is rejected");
        }
    };
    let found = docs_of(ts);
    let want: Vec<_> = texts.iter().map(|(p, _, t)| (*p, collapsed(t))).collect();
    for (at, text) in &found {
        let text = text.trim();
        check(text.is_empty() || want.iter().any(|(p, t)| t == text && (fits(at, PLACES[*p].1) || may(at, PLACES[*p].2))), "documentation that belongs elsewhere, or is changed");
    }
    for (p, t) in &want {
        check(t.is_empty() || found.iter().any(|(at, text)| text.trim() == t && fits(at, PLACES[*p].1)), "documentation is missing");
    }
    cover("carried over");
}
/// a symbolic text
fn text(n: usize) -> String {
    let k = 1 + choose(n);
    let b = bytes(k);
    for c in &b {
        assume(matches!(*c, b'\t' | b'\n' | b'\r') || (b' '..=b'~').contains(c) && !matches!(*c, b'<' | b'&' | b'>'));
    }
    String::from_utf8(b).unwrap_or_default()
}
fn one(places: &[usize], n: usize) {
    let p = places[choose(places.len())];
    let t = text(n);
    documented(&[(p, &t, &t)]);
}
/// the spellings XML has, and text that is special to Rust
const TEXTS: &[(&str, &str)] = &[
    ("plain", "plain"), ("", ""), ("  ", ""), ("\n  a\n  b\n", "a b"), ("a<!-- c -->b", "ab"), ("a<?p i?> b", "a b"), ("<![CDATA[a <b>]]>", "a <b>"), ("a &lt; b &amp; c", "a < b & c"), ("&#97;&#x20;b", "a b"), ("say \"x\"", "say \"x\""), ("a \\n b \\", "a \\n b \\"), ("*/ // ///", "*/ // ///"),
    ("{} #[x] {{", "{} #[x] {{"), ("caf\u{e9} \u{65e5}\u{672c} \u{1f600}", "caf\u{e9} \u{65e5}\u{672c} \u{1f600}"), ("a\u{301}", "a\u{301}"), ("r#\"x\"#", "r#\"x\"#"), ("line one\r\nline two\r\n\r\nline four", "line one line two line four"), ("a very long line that goes on and on and on and on and on and on and on and on and on and on and on and on", "a very long line that goes on and on and on and on and on and on and on and on and on and on and on and on"), ("TODO: x", "TODO: x"), ("- a\n- b\n\n# c", "- a - b # c"), ("'", "'"),
];
fn spelled() {
    let (x, t) = TEXTS[choose(TEXTS.len())];
    documented(&[(choose(PLACES.len()), x, t)]);
}
/// two texts at once: each where it belongs
fn two(step: usize) {
    let i = choose(PLACES.len());
    let j = (i + 1 + step * choose((PLACES.len() - 1) / step)) % PLACES.len();
    // documentation of an element and of its inline type compete for the same item
    let (a, b) = (PLACES[i].0, PLACES[j].0);
    assume(i != j && a.strip_suffix("/#") != Some(b) && b.strip_suffix("/#") != Some(a));
    documented(&[(i, " one ", "one"), (j, "two\n2", "two 2")]);
}
/// all at once
fn all() {
    let ts: Vec<_> = (0..PLACES.len()).filter(|i| !PLACES[*i].0.ends_with('#')).map(|i| (i, format!(" text  {i} "))).collect();
    let ts: Vec<_> = ts.iter().map(|(i, t)| (*i, t.as_str(), t.as_str())).collect();
    documented(&ts);
}
const SOME: &[usize] = &[0, 2, 3, 6, 7, 12, 13];
harness! {
    one => super::one(SOME, 2); spelled => super::spelled(); two => super::two(4); all => super::all();
    x_one => super::one(&(0..PLACES.len()).collect::<Vec<_>>(), 3); x_one_4 => super::one(&[0, 3], 4); x_two => super::two(1);
}
