//! xs:all: the order of the members carries no meaning.
#[path = "../cmdocs.rs"]
mod cmdocs;
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/all.rs"]
mod g_all;
use cmdocs as c;
use corpus::*;
use vph::*;

fn permute(ks: &mut Vec<El>) {
    let mut rest = std::mem::take(ks);
    while !rest.is_empty() {
        let i = choose(rest.len());
        ks.push(rest.remove(i));
    }
}
fn all() {
    let (v, mut x) = choices::all();
    permute(&mut x.kids);
    decodes(&v, &plain(&x));
    cover("permuted");
}
fn all_opt() {
    let (v, mut x) = choices::all_opt();
    permute(&mut x.kids[0].kids);
    decodes(&v, &plain(&x));
    cover("permuted");
}
/// without one required member, no order is accepted
fn all_less() {
    let (_, mut x) = choices::all();
    let i = choose(2);
    x.kids.remove(i);
    permute(&mut x.kids);
    let x = plain(&x);
    note(&x);
    check(corpus::choices::all_m::Conf::from_xml(&x).is_err(), "a required member may be left out");
    cover("rejected");
}
fn all_opt_less() {
    let (_, mut x) = choices::all_opt();
    let ks = &mut x.kids[0].kids;
    if ks.len() < 2 {
        return cover("no group");
    }
    let (f, l) = (flip(), ks.len() - 1);
    ks.remove(if f { 0 } else { l });
    permute(ks);
    let x = plain(&x);
    note(&x);
    check(corpus::choices::all_opt_m::W::from_xml(&x).is_err(), "a required member of a present group may be left out");
    cover("rejected");
}
harness! {
    perm_all => super::all(); perm_all_opt => super::all_opt(); less_all => super::all_less(); less_all_opt => super::all_opt_less();
    d_all => both(choices::all); d_all_opt => both(choices::all_opt); r_all => rejects(choices::all); r_all_opt => rejects(choices::all_opt);
    any => c::any(5); x_any => c::any(7);
    tg_all => crate::gridfns::trips(crate::g_all::CASES, 4); x_tg_all => crate::gridfns::trips(crate::g_all::CASES, 9); og_all => crate::gridfns::ordered(crate::g_all::CASES, 9); og_broken => crate::gridfns::ordered(crate::g_all::CASES, 0);
}
