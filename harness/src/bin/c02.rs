//! Decoding: every schema-valid document decodes, and to exactly the value it denotes.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/group.rs"]
mod g_group;
#[path = "../grid/choice.rs"]
mod g_choice;
#[path = "../grid/ext.rs"]
mod g_ext;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (v, x) = g();
    let x = plain(&x);
    note(&x);
    match D::dec(&x) {
        Ok(w) => {
            check(w == v, "from_xml gives a value the document does not denote");
            cover("decoded");
        }
        Err(e) => {
            note(&e.to_string());
            check(false, "from_xml rejects a valid document")
        }
    }
}
macro_rules! emit { ($($n:ident => $g:path;)*) => { harness! { $($n => go($g);)* tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 3); tg_group => crate::gridfns::trips(crate::g_group::CASES, 3); tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 3); tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 3); x_tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 5); x_tg_group => crate::gridfns::trips(crate::g_group::CASES, 5); x_tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 5); x_tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 5); } } }
corpus!(emit);
