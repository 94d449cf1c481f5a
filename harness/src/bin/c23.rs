//! Text: any string survives, in every place that holds text, as content and as attribute.
use vph::*;
#[xsd::all(schema = "schemas/text.xsd")]
mod m {}

/// one character: ASCII (with the white space that `ws` names), or two, three or four bytes of UTF-8
fn ch(ws: &[char], wide: bool) -> char {
    match choose(if wide { 5 } else { 2 }) {
        0 => range(0x20, 0x7e) as char,
        1 => ws[choose(ws.len())],
        2 => char::from_u32(0x80 + 0x40 * choose(2) as u32 + range(0x20, 0x3f) as u32).unwrap(),
        3 => char::from_u32(0x2000 + range(0, 0x7f) as u32).unwrap(),
        _ => char::from_u32(0x1F600 + range(0, 0x3f) as u32).unwrap(),
    }
}
fn text(n: usize, ws: &[char], wide: bool) -> String {
    let k = choose(n + 1);
    (0..k).map(|_| ch(ws, wide)).collect()
}
/// the text in one place at a time, something plain everywhere else
fn place(t: String, at: usize) {
    let p = |i: usize| if i == at { t.clone() } else { "x".to_string() };
    let v = m::T {
        el: p(0),
        word: p(1),
        any: p(2),
        note: m::Noted { by: Some(p(3)), noted: p(4) },
        alt_num: m::TaltNum::Alt(p(5)),
        many: Some(vec![p(6), "y".into()]),
        at: p(7),
        wo: Some(p(8)),
    };
    let s = |i: usize| tx(p(i), K::Str);
    let e = el("t")
        .c(leaf("el", &s(0))).c(leaf("word", &s(1))).c(leaf("any", &s(2)))
        .c(leaf("note", &s(4)).a("by", &s(3)))
        .c(leaf("alt", &s(5))).c(leaf("many", &s(6))).c(leaf("many", &tx("y", K::Str)))
        .a("at", &s(7)).a("wo", &s(8));
    round(&v, &e, |v| v.to_xml(), |x| m::T::from_xml(x).map_err(|e| e.to_string()));
}
fn round<V: PartialEq>(v: &V, e: &El, enc: impl Fn(&V) -> Result<Vec<u8>, xsd::xml::writer::Error>, dec: impl Fn(&str) -> Result<V, String>) {
    // decoding the reference document
    let x = plain(e);
    note(&x);
    match dec(&x) {
        Ok(w) => check(w == *v, "decoding changes text"),
        Err(_) => check(false, "a document is rejected for its text"),
    }
    // encoding
    let Ok(o) = enc(v) else { return check(false, "to_xml failed") };
    let Ok(o) = String::from_utf8(o) else { return check(false, "to_xml wrote invalid UTF-8") };
    note(&o);
    if let Err(m) = denotes(&o, e) {
        check(false, m);
    }
    match dec(&o) {
        Ok(w) => check(w == *v, "text changes in the round trip"),
        Err(_) => check(false, "text makes the output unreadable"),
    }
    cover("kept");
}
fn top(t: String) {
    let e = leaf(if flip() { "top" } else { "w" }, &tx(t.clone(), K::Str));
    if e.name == "top" {
        round(&m::Top(t), &e, |v| v.to_xml(), |x| m::Top::from_xml(x).map_err(|e| e.to_string()))
    } else {
        round(&m::W(t), &e, |v| v.to_xml(), |x| m::W::from_xml(x).map_err(|e| e.to_string()))
    }
}
const WS: [char; 2] = ['\n', '\t'];
const NL: [char; 2] = ['\n', '\r'];
harness! {
    el => super::place(super::text(2, &super::WS, true), 0); word => super::place(super::text(2, &super::WS, true), 1); any => super::place(super::text(2, &super::WS, true), 2);
    by => super::place(super::text(2, &super::NL, true), 3); note_text => super::place(super::text(2, &super::WS, true), 4); alt => super::place(super::text(2, &super::WS, true), 5);
    many => super::place(super::text(2, &super::WS, true), 6); attr => super::place(super::text(2, &super::NL, true), 7); attr_word => super::place(super::text(2, &super::NL, true), 8);
    top => super::top(super::text(2, &super::WS, true));
    long => super::top(super::text(4, &super::WS, false)); attr_long => super::place(super::text(3, &super::NL, false), 7);
    kf_cr_text => super::top("\r".into()); kf_tab_attr => super::place("\t".into(), 7);
    x_long => super::top(super::text(6, &super::WS, false)); x_attr_long => super::place(super::text(5, &super::NL, false), 7); x_el_long => super::place(super::text(5, &super::WS, true), 0);
}
