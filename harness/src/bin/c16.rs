//! Errors: a rejection names what is wrong.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/ext.rs"]
mod g_ext;
#[path = "../grid/enum.rs"]
mod g_enum;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (_, mut x) = g();
    let before = x.clone();
    let Some((path, f)) = break_one_at(&mut x) else { return cover("nothing to break") };
    let mut b = &before;
    for i in &path {
        b = &b.kids[*i];
    }
    let mut a = &x;
    if f != F::Drop {
        for i in &path {
            a = &a.kids[*i];
        }
    }
    let doc = plain(&x);
    note(&doc);
    let Err(e) = D::dec(&doc) else { return cover("accepted") };
    let m = e.to_string();
    note(&m);
    let has = |s: &str| check(m.contains(s), "the error does not name the cause");
    match f {
        // a missing alternative of a choice is reported with the name of the choice
        F::Drop | F::Rename | F::WrongNs if m.contains("variant") => {}
        F::Drop | F::Rename | F::WrongNs => has(b.name),
        F::DropAttr(i) | F::RenameAttr(i) => has(b.attrs[i].name),
        F::Text => has(&a.text.as_ref().unwrap().0),
        F::Attr(i) => has(&a.attrs[i].val),
    }
    cover("named");
}
harness! {
    seq => go(basic::seq); attrs => go(basic::attrs); nested => go(basic::nested); named => go(basic::named); words => go(basic::words); choice => go(choices::choice); choice2 => go(choices::choice2); all => go(choices::all);
    groups2 => go(groups::groups2); fixed => go(types::fixed); fixed_root => go(types::fixed_root); enum_hue => go(types::enum_hue); simple => go(types::simple); lits_attr => go(types::lits_attr); ns_q => go(namespaces::ns_q); ns_u => go(namespaces::ns_u); ext_seq => go(exts::ext_seq); ext_attr => go(exts::ext_attr); ext_simple => go(exts::ext_simple);
    cg_mix => crate::gridfns::caused(crate::g_mix::CASES, 1); cg_ext => crate::gridfns::caused(crate::g_ext::CASES, 1); cg_enum => crate::gridfns::caused(crate::g_enum::CASES, 1); x_cg_mix => crate::gridfns::caused(crate::g_mix::CASES, 3); x_cg_ext => crate::gridfns::caused(crate::g_ext::CASES, 3); x_cg_enum => crate::gridfns::caused(crate::g_enum::CASES, 3);
}
