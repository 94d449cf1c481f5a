//! Rejection: a document that breaks the schema in one place is rejected with an error.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/group.rs"]
mod g_group;
#[path = "../grid/ext.rs"]
mod g_ext;
#[path = "../grid/type.rs"]
mod g_type;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (_, mut x) = g();
    let Some(f) = break_one(&mut x) else { return cover("nothing to break") };
    let x = plain(&x);
    note(&x);
    check(D::dec(&x).is_err(), "from_xml accepts an invalid document");
    cover(match f {
        F::Drop => "required element missing",
        F::Rename => "required element renamed",
        F::WrongNs => "required element in another namespace",
        F::Text => "text outside the lexical space",
        F::DropAttr(_) => "required attribute missing",
        F::RenameAttr(_) => "required attribute renamed",
        F::Attr(_) => "attribute value outside the lexical space",
    });
}
macro_rules! emit { ($($n:ident => $g:path;)*) => { harness! { $($n => go($g);)* rg_mix => crate::gridfns::rejected(crate::g_mix::CASES, 1); rg_group => crate::gridfns::rejected(crate::g_group::CASES, 1); rg_ext => crate::gridfns::rejected(crate::g_ext::CASES, 1); rg_type => crate::gridfns::rejected(crate::g_type::CASES, 1); x_rg_mix => crate::gridfns::rejected(crate::g_mix::CASES, 3); x_rg_group => crate::gridfns::rejected(crate::g_group::CASES, 3); x_rg_ext => crate::gridfns::rejected(crate::g_ext::CASES, 3); x_rg_type => crate::gridfns::rejected(crate::g_type::CASES, 3); } } }
corpus!(emit);
