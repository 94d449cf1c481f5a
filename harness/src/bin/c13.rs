//! Compiling a schema never panics: arbitrary bytes, damaged schemas, and schemas that make no sense.
use vph::schema::*;
use vph::xs::*;
use vph::*;

/// any outcome but a panic (or running on) is fine; what is generated has to be Rust
fn feed(x: &[u8], path: &str) {
    feed_(x, path, true)
}
fn feed_(x: &[u8], path: &str, parse: bool) {
    let Ok(x) = std::str::from_utf8(x) else { return cover("not UTF-8") };
    note(x);
    match xsd_internal::xsd::schema::Schema::parse(x, path).and_then(|s| s.generate_all()) {
        Ok(ts) => {
            check(!parse || syn::parse2::<syn::File>(ts).is_ok(), "the generated code is not Rust");
            cover("compiled")
        }
        Err(e) => {
            check(!e.to_string().is_empty(), "an error without a message");
            cover("rejected")
        }
    }
}
const MAIN: &str = "/nonexistent/main.xsd";
fn arbitrary(n: usize) {
    let k = choose(n + 1);
    feed(&bytes(k), MAIN);
}
fn inside(before: &str, n: usize, after: &str) {
    let k = choose(n + 1);
    let mut x = format!("{HEAD}{before}").into_bytes();
    x.extend(bytes(k));
    x.extend(format!("{after}{TAIL}").into_bytes());
    feed(&x, MAIN);
}
const VALUES: &[&str] = &["", ":", "x:y", "xs:nope", "xs:int", "xs:string", "T", "t:T", "S", "r", "g", "t:g", "0", "1", "-1", "unbounded", "99999999999999999999", "a b", "\u{e9}", "\u{b2}", "_", "1a", "true", "prohibited", "&lt;", "http://www.w3.org/2001/XMLSchema", "r#type", "{}", "\u{10ffff}"];
/// one arbitrary change of structure
fn mutate(s: &mut N, deep: bool) {
    let mut k = choose(s.count());
    let all = s.clone();
    let e = s.nth(&mut k).unwrap();
    match if deep { choose(8) } else { [0, 1, 3, 4, 5, 6, 7][choose(7)] } {
        0 => e.kids.clear(),
        1 => e.name = pick_of(ELEMENTS),
        2 => e.kids.insert(0, n(ELEMENTS[choose(ELEMENTS.len())])),
        3 => e.kids.push(n(ELEMENTS[choose(ELEMENTS.len())])),
        4 => {
            // a copy of another element, which may not belong here
            let mut j = choose(all.count());
            let c = all.clone().nth(&mut j).unwrap().clone();
            e.kids.push(c)
        }
        5 => {
            if !e.attrs.is_empty() {
                let j = choose(e.attrs.len());
                e.attrs.remove(j);
            }
        }
        6 => {
            if !e.attrs.is_empty() {
                let j = choose(e.attrs.len());
                e.attrs[j].1 = pick_of(if deep { VALUES } else { &VALUES[..17] });
            }
        }
        _ => {
            let k = pick_of(ATTRIBUTES);
            let v = pick_of(if deep { &["", "1", "true", "T", "xs:int", "unbounded", "zz"] } else { &["1"] });
            e.set(&k, &v)
        }
    }
}
fn changed(i: usize, deep: bool) {
    let mut s = seed(i);
    mutate(&mut s, deep);
    feed_(s.xml().as_bytes(), MAIN, deep);
}
/// bytes replaced, inserted or cut out
fn damaged(i: usize, step: usize, deep: bool) {
    let mut x = seed(i).xml().into_bytes();
    let n = x.len();
    let at = choose((n + step - 1) / step) * step;
    let at = at + choose(step);
    if at >= n {
        return cover("past the end");
    }
    let ch: &[u8] = if deep { b"<>\"/:&;= a0'!?\0\x80\xff_" } else { b"<:a" };
    match choose(4) {
        0 => x[at] = ch[choose(ch.len())],
        1 => x.insert(at, ch[choose(ch.len())]),
        2 => x.truncate(at),
        _ => {
            x.drain(at..(at + 9).min(n));
        }
    }
    feed_(&x, MAIN, deep);
}
/// files that include each other, themselves, or nothing sensible
fn includes() {
    let loc = pick_of(&["", ".", "..", "/", "main.xsd", "imp.xsd", "./imp.xsd", "cyc.xsd", "sub/../cyc.xsd", "nope.xsd", "nope/nope.xsd", "../Cargo.toml", "../src", "%", " ", "a\u{e9}", "http://example.org/x.xsd", "imp_base.xsd#x", "seq.xsd"]);
    let mut s = schema(vec![n(["xs:include", "xs:import"][choose(2)]).a("schemaLocation", &loc)]);
    if flip() {
        s.kids.extend(terse("element@name=q@type=xs:int"));
    }
    if flip() {
        let k = s.kids[0].clone();
        s.kids.push(k);
    }
    feed(s.xml().as_bytes(), ["schemas/main.xsd", "", "main.xsd", "schemas/", "/"][choose(5)]);
}
harness! {
    raw => super::arbitrary(4);
    in_schema => super::inside("", 3, ""); in_type => super::inside("<xs:complexType name=\"T\">", 3, "</xs:complexType>"); in_seq => super::inside("<xs:complexType name=\"T\"><xs:sequence>", 3, "</xs:sequence></xs:complexType>"); in_tag => super::inside("<xs:element ", 3, "/>"); in_min => super::inside("<xs:complexType name=\"T\"><xs:sequence><xs:element name=\"a\" type=\"xs:int\" minOccurs=\"", 3, "\"/></xs:sequence></xs:complexType>"); in_use => super::inside("<xs:complexType name=\"T\"><xs:attribute name=\"a\" type=\"xs:int\" use=\"", 3, "\"/></xs:complexType>");
    in_fixed => super::inside("<xs:complexType name=\"T\"><xs:attribute name=\"a\" type=\"xs:string\" fixed=\"", 1, "\"/></xs:complexType>"); in_docs => super::inside("<xs:complexType name=\"T\"><xs:annotation><xs:documentation>", 1, "</xs:documentation></xs:annotation></xs:complexType>"); in_type_name => super::inside("<xs:element name=\"q\" type=\"", 1, "\"/>");
    one_0 => changed(0, false); one_1 => changed(1, false); one_2 => changed(2, false); one_3 => changed(3, false);
    dmg_3 => super::damaged(3, 32, false);
    includes => super::includes();
    x_raw => super::arbitrary(6); x_in_schema => super::inside("", 5, ""); x_in_fixed => super::inside("<xs:complexType name=\"T\"><xs:attribute name=\"a\" type=\"xs:string\" fixed=\"", 2, "\"/></xs:complexType>");
    x_dmg_0 => super::damaged(0, 32, true); x_dmg_1 => super::damaged(1, 32, true); x_dmg_2 => super::damaged(2, 32, true);
    x_one_0 => changed(0, true); x_one_1 => changed(1, true); x_one_2 => changed(2, true); x_one_3 => changed(3, true);
}
