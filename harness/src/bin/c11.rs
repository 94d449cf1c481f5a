//! Fixed values: written always, accepted only as they are.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
use corpus::types::fixed_m::{Meta, Svc};
use corpus::*;
use vph::*;

fn text(n: usize) -> String {
    let k = choose(n + 1);
    (0..k).map(|_| range(b' ', b'~') as char).filter(|c| { assume(!"<>&\"'".contains(*c)); true }).collect()
}
/// arbitrary text in each of the places that have a fixed value
fn anything(n: usize) {
    let t = text(n);
    let (want, x) = match choose(4) {
        0 => ("2", format!("<meta unit=\"mm\"><version>{t}</version></meta>")),
        1 => ("mint", format!("<meta unit=\"mm\"><version>2</version><flavour>{t}</flavour></meta>")),
        2 => ("foo", format!("<meta unit=\"mm\" name=\"{t}\"><version>2</version></meta>")),
        _ => ("mm", format!("<meta unit=\"{t}\"><version>2</version></meta>")),
    };
    note(&x);
    if want == "2" && t != "2" && t.trim().parse::<i32>() == Ok(2) {
        return cover("another spelling of the number"); // not decided here
    }
    check(Meta::from_xml(&x).is_ok() == (t == want), "a fixed value is not enforced, or enforced too strictly");
    cover("decided");
}
fn root(n: usize) {
    let t = text(n);
    let x = format!("<svc>{t}</svc>");
    note(&x);
    check(Svc::from_xml(&x).is_ok() == (t == "core"), "a fixed value is not enforced, or enforced too strictly");
    cover("decided");
}
harness! {
    any_text => super::anything(4); any_root => super::root(4);
    d_fixed => both(types::fixed); d_root => both(types::fixed_root); d_choice3 => both(choices::choice3);
    r_fixed => rejects(types::fixed); r_root => rejects(types::fixed_root); r_choice3 => rejects(choices::choice3);
    x_any_text => super::anything(6); x_any_root => super::root(7);
}
