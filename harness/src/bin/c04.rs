//! Encoding: what a value encodes to is well-formed XML and denotes exactly that value under the schema.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/group.rs"]
mod g_group;
#[path = "../grid/ext.rs"]
mod g_ext;
#[path = "../grid/ns.rs"]
mod g_ns;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (v, e) = g();
    let Ok(x) = v.enc() else { return check(false, "to_xml failed") };
    let Ok(x) = String::from_utf8(x) else { return check(false, "to_xml wrote invalid UTF-8") };
    note(&x);
    check(x.starts_with("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"), "no XML declaration");
    if let Err(m) = denotes(&x, &e) {
        check(false, m);
    }
    cover("encoded");
}
macro_rules! emit { ($($n:ident => $g:path;)*) => { harness! { $($n => go($g);)* tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 3); tg_group => crate::gridfns::trips(crate::g_group::CASES, 3); tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 3); tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 3); x_tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 5); x_tg_group => crate::gridfns::trips(crate::g_group::CASES, 5); x_tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 5); x_tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 5); } } }
corpus!(emit);
