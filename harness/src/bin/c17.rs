//! Extension: an extended type has everything its base has, plus what it adds.
#[path = "../cmdocs.rs"]
mod cmdocs;
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/ext.rs"]
mod g_ext;
use cmdocs as c;
use corpus::*;
use vph::*;
harness! {
    d_ext_attr => both(exts::ext_attr); d_ext_seq => both(exts::ext_seq); d_ext_simple => both(exts::ext_simple); d_ext_base_attr => both(exts::ext_base_attr); d_ext_chain => both(exts::ext_chain);
    r_ext_attr => rejects(exts::ext_attr); r_ext_seq => rejects(exts::ext_seq); r_ext_simple => rejects(exts::ext_simple); r_ext_base_attr => rejects(exts::ext_base_attr); r_ext_chain => rejects(exts::ext_chain);
    ext => c::ext(4); extopt => c::extopt(5); x_ext => c::ext(7); x_extopt => c::extopt(8);
    tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 5); x_tg_ext => crate::gridfns::trips(crate::g_ext::CASES, 8); rg_ext => crate::gridfns::rejected(crate::g_ext::CASES, 3); x_rg_ext => crate::gridfns::rejected(crate::g_ext::CASES, 5);
}
