//! Content models: which children, in which order and number, a generated type accepts and preserves.
#[path = "../cmdocs.rs"]
mod cmdocs;
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/group.rs"]
mod g_group;
#[path = "../grid/choice.rs"]
mod g_choice;
#[path = "../grid/mix.rs"]
mod g_mix;
use cmdocs as c;
use vph::*;
harness! {
    plain => c::plain(5); pick => c::pick(3); pickmany => c::pickmany(4); pickseq => c::pickseq(4); only => c::only(3); group => c::group(4);
    deep => c::deep(4); rep => c::rep(4); optrep => c::optrep(4); any => c::any(4); ext => c::ext(4); extopt => c::extopt(5);
    x_plain => c::plain(8); x_pick => c::pick(6); x_pickmany => c::pickmany(7); x_pickseq => c::pickseq(6); x_only => c::only(5); x_group => c::group(6);
    x_deep => c::deep(7); x_rep => c::rep(7); x_optrep => c::optrep(7); x_any => c::any(6); x_ext => c::ext(7); x_extopt => c::extopt(8);
    tg_group => crate::gridfns::trips(crate::g_group::CASES, 4); tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 4); tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 4); x_tg_group => crate::gridfns::trips(crate::g_group::CASES, 6); x_tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 6); x_tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 6); rg_group => crate::gridfns::rejected(crate::g_group::CASES, 2); rg_choice => crate::gridfns::rejected(crate::g_choice::CASES, 2); rg_mix => crate::gridfns::rejected(crate::g_mix::CASES, 2); x_rg_group => crate::gridfns::rejected(crate::g_group::CASES, 3); x_rg_choice => crate::gridfns::rejected(crate::g_choice::CASES, 3); x_rg_mix => crate::gridfns::rejected(crate::g_mix::CASES, 3);
}
