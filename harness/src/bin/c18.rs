//! Names: every XML name becomes a usable Rust identifier, and documents keep the original name.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/name.rs"]
mod g_name;
use corpus::*;
use proc_macro2::{TokenStream, TokenTree};
use vph::schema::*;
use vph::*;

const WORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct",
    "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try",
    "union", "auto", "default", "raw", "macro_rules", "SELF", "Type", "Crate", "_self", "self_", "as_", "-fn", "fn.", "i32", "str", "usize", "u8",
];
const ODD: &[&str] = &[
    "_", "__", "_1", "_-", "_.", "a.b", "a-b", "a_b", "aB", "AB", "ABc", "aBC", "a1", "a1b", "a-1", "a.1", "A1B2", "X-Y-Z", "x..y", "x--y", "é", "É", "ß", "日本", "aé", "éa", "_é", "a·b", "ﬁ", "ǆ", "İ", "nº", "Ⅷ", "a\u{300}", "Straße", "naïve-Name",
    "имя", "Имя.Файла", "x\u{203f}y", "\u{10000}", "a\u{b7}",
];
/// a symbolic ASCII XML name of 1 to n characters
fn name(n: usize) -> String {
    let k = 1 + choose(n);
    let mut v = bytes(k);
    for (i, c) in v.iter_mut().enumerate() {
        let c = *c;
        let start = c.is_ascii_alphabetic() as u32 | (c == b'_') as u32;
        let cont = start | c.is_ascii_digit() as u32 | (c == b'-') as u32 | (c == b'.') as u32;
        assume(if i == 0 { start == 1 } else { cont == 1 });
    }
    String::from_utf8(v).unwrap()
}
/// how often the name stands in a string of the generated code, on its own or after a prefix
fn strings(ts: TokenStream, name: &str) -> usize {
    let mut n = 0;
    for t in ts {
        match t {
            TokenTree::Group(g) => n += strings(g.stream(), name),
            TokenTree::Literal(l) => {
                if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                    let s = s.value();
                    if s == name || s.ends_with(name) && s[..s.len() - name.len()].ends_with(':') {
                        n += 1;
                    }
                }
            }
            _ => {}
        }
    }
    n
}
/// Compiles; the result must be Rust, contain the type `ty` if given, and mention the name.
fn go(body: &str, name: &str, uses: usize, members: usize) {
    let s = xsd(body);
    note(&s);
    let ts = match compile(&s) {
        Ok(ts) => ts,
        Err(e) => {
            note(&e.to_string());
            return check(false, "a schema is rejected because of a name");
        }
    };
    check(strings(ts.clone(), name) >= uses, "the generated code does not use the original name");
    match syn::parse2::<syn::File>(ts) {
        Err(_) => check(false, "the generated code is not Rust"),
        Ok(f) => {
            let mut n = 0;
            for i in &f.items {
                match i {
                    syn::Item::Struct(s) => n += s.fields.len(),
                    syn::Item::Enum(s) => n += s.variants.len(),
                    _ => {}
                }
            }
            check(n >= members, "generated types lack fields");
        }
    }
    cover("compiled");
}
fn place(p: usize, n: &str) {
    match p {
        // a top level element
        0 => go(&format!("<xs:element name=\"{n}\" type=\"xs:int\"/>"), n, 2, 1),
        // a child
        1 => go(&format!("<xs:element name=\"rrr\"><xs:complexType><xs:sequence><xs:element name=\"{n}\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element>"), n, 2, 1),
        // an attribute
        2 => go(&format!("<xs:complexType name=\"Rrr\"><xs:attribute name=\"{n}\" type=\"xs:int\"/></xs:complexType>"), n, 2, 1),
        // an enumeration value
        3 => go(&format!("<xs:simpleType name=\"Rrr\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"{n}\"/><xs:enumeration value=\"{n}zz\"/></xs:restriction></xs:simpleType>"), n, 2, 2),
        // an alternative of a choice
        4 => go(&format!("<xs:complexType name=\"Rrr\"><xs:choice><xs:element name=\"{n}\" type=\"xs:int\"/><xs:element name=\"qqq\" type=\"xs:int\"/></xs:choice></xs:complexType>"), n, 2, 2),
        // a type and its use
        5 => go(&format!("<xs:complexType name=\"{n}\"><xs:attribute name=\"qqq\" type=\"xs:int\"/></xs:complexType><xs:element name=\"rrr\" type=\"{n}\"/>"), n, 2, 2),
        // an element with a type of its own
        _ => go(&format!("<xs:element name=\"rrr\"><xs:complexType><xs:sequence><xs:element name=\"{n}\"><xs:complexType><xs:attribute name=\"qqq\" type=\"xs:int\"/></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element>"), n, 2, 2),
    }
}
const PLACES: usize = 7;
fn listed(l: &[&str]) {
    let p = choose(PLACES);
    place(p, pick(l));
}
/// names of up to n characters that stand for all kinds of characters (names that the compiler hashes)
fn kinds(n: usize) -> String {
    let k = 1 + choose(n);
    let mut s = String::new();
    for i in 0..k {
        s.push_str(pick(if i == 0 { &["a", "Z", "_", "\u{e9}"] } else { &["a", "Z", "_", "\u{e9}", "7", "-", ".", "\u{b7}"] }));
    }
    s
}
#[xsd::all(schema = "schemas/odd.xsd")]
pub mod odd_m {}
mod oddly {
    use super::corpus::*;
    use super::*;
    use super::odd_m::OddRootX;
    docs!(OddRootX);
    fn doc() -> El {
        let one = el("fn").ao("Self", &maybe(txt)).opt();
        let many = if flip() { vec![one.clone(), el("fn").opt()] } else { vec![El { req: true, ..one }] };
        let jp = maybe(|| el("日本").c(leaf("Type", &txt())).opt());
        el("odd-Root.x")
            .a("n·o", &txt())
            .ao("x.y-Z", &maybe(txt))
            .ao("impl", &maybe(|| tx(pick(&["m²", "m³", "as", "Self", "+", "1"]), K::Str)))
            .c(leaf("_", &txt()))
            .co(maybe(|| leaf("_1", &txt()).opt()))
            .co(maybe(|| leaf("a.b", &txt()).opt()))
            .c(leaf("Straße", &txt()))
            .co(jp)
            .cs(many)
            .c(leaf(["Super", "x-Y.z", "m·-"][choose(3)], &txt()))
    }
    /// a document with such names decodes, and encodes to the same document
    pub fn trip() {
        let e = doc();
        let x = plain(&e);
        note(&x);
        match OddRootX::dec(&x) {
            Ok(v) => { encodes(&v, &e); }
            Err(err) => { note(&err.to_string()); check(false, "from_xml rejects a valid document") }
        }
        cover("kept");
    }
}
harness! {
    trip => super::oddly::trip();
    words => listed(WORDS);
    odd => listed(ODD);
    child => super::place(1, &name(4)); attribute => super::place(2, &name(4)); alternative => super::place(4, &name(4));
    kinds_el => super::place(0, &kinds(3)); kinds_value => super::place(3, &kinds(3)); kinds_type => super::place(5, &kinds(3)); kinds_inline => super::place(6, &kinds(3));
    element => super::place(0, &name(1)); value => super::place(3, &name(1)); type_ => super::place(5, &name(1)); inline => super::place(6, &name(1));
    x_child => super::place(1, &name(6)); x_attribute => super::place(2, &name(6)); x_alternative => super::place(4, &name(6)); x_kinds => super::place(1 + choose(6), &kinds(4));
    tg_name => crate::gridfns::trips(crate::g_name::CASES, 2); x_tg_name => crate::gridfns::trips(crate::g_name::CASES, 4);
}
