//! Round trip: for every value of a generated type, decoding what it encodes to gives the value back.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/type.rs"]
mod g_type;
#[path = "../grid/choice.rs"]
mod g_choice;
#[path = "../grid/all.rs"]
mod g_all;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (v, _) = g();
    let Ok(x) = v.enc() else { return check(false, "to_xml failed") };
    let Ok(x) = String::from_utf8(x) else { return check(false, "to_xml wrote invalid UTF-8") };
    note(&x);
    match D::dec(&x) {
        Ok(w) => {
            check(w == v, "from_xml(to_xml(v)) is another value than v");
            cover("round trip");
        }
        Err(e) => {
            note(&e.to_string());
            check(false, "from_xml rejects what to_xml wrote")
        }
    }
}
macro_rules! emit { ($($n:ident => $g:path;)*) => { harness! { $($n => go($g);)* tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 3); tg_type => crate::gridfns::trips(crate::g_type::CASES, 3); tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 3); tg_all => crate::gridfns::trips(crate::g_all::CASES, 3); x_tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 5); x_tg_type => crate::gridfns::trips(crate::g_type::CASES, 5); x_tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 5); x_tg_all => crate::gridfns::trips(crate::g_all::CASES, 5); } } }
corpus!(emit);
