//! Namespaces: elements are told apart by namespace and local name, however the document spells them.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/ns.rs"]
mod g_ns;
use corpus::*;
use vph::*;

/// every way to declare namespaces decodes to the same value; encoding puts every element where it belongs
fn ns<D: Doc>(g: fn() -> (D, El)) {
    let (v, e) = g();
    let st = Style { ns: choose(3) as u8, ..Default::default() };
    decodes(&v, &write(&e, st));
    let x = encodes(&v, &e);
    decodes(&v, &x);
    cover("both directions");
}
fn count(e: &El) -> usize {
    (e.req as usize) + e.kids.iter().map(count).sum::<usize>()
}
fn nth<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
    if e.req {
        if *n == 0 {
            return Some(e);
        }
        *n -= 1;
    }
    for k in &mut e.kids {
        if let Some(x) = nth(k, n) {
            return Some(x);
        }
    }
    None
}
/// a required element that is moved to any other namespace is not recognised
fn moved<D: Doc>(g: fn() -> (D, El)) {
    let (_, mut e) = g();
    let mut n = choose(count(&e));
    let x = nth(&mut e, &mut n).unwrap();
    let old = x.ns;
    let new: String = match choose(3) {
        // a symbolic one-letter change or addition
        0 if !old.is_empty() => {
            let mut s = old.to_string();
            let c = range(b'a', b'z') as char;
            let last = s.pop().unwrap();
            assume(c != last);
            s.push(c);
            s
        }
        1 if !old.is_empty() => String::new(),
        _ => format!("{old}{}", range(b'a', b'z') as char),
    };
    x.ns = Box::leak(new.into_boxed_str());
    let doc = write(&e, Style { ns: choose(2) as u8, ..Default::default() });
    note(&doc);
    check(D::dec(&doc).is_err(), "an element of another namespace is taken for one of the schema");
    cover("rejected");
}
harness! {
    q => ns(namespaces::ns_q); u => ns(namespaces::ns_u); top_q => ns(namespaces::ns_top_q); top_u => ns(namespaces::ns_top_u); imp => ns(namespaces::imp); kit => ns(namespaces::imp_kit); imp_u => ns(namespaces::imp_u); same => ns(namespaces::same); refs => ns(choices::choice_refs); none => ns(basic::nested_book);
    m_q => moved(namespaces::ns_q); m_u => moved(namespaces::ns_u); m_top_q => moved(namespaces::ns_top_q); m_top_u => moved(namespaces::ns_top_u); m_imp => moved(namespaces::imp); m_kit => moved(namespaces::imp_kit); m_imp_u => moved(namespaces::imp_u); m_same => moved(namespaces::same); m_refs => moved(choices::choice_refs); m_none => moved(basic::nested_book);
    tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 4); x_tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 6); rg_ns => crate::gridfns::rejected(crate::g_ns::CASES, 2); x_rg_ns => crate::gridfns::rejected(crate::g_ns::CASES, 3); sg_ns => crate::gridfns::styled(crate::g_ns::CASES, 2); x_sg_ns => crate::gridfns::styled(crate::g_ns::CASES, 3);
}
