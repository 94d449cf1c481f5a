//! Presentation: documents that differ only in what XML gives no meaning to decode alike.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/mix.rs"]
mod g_mix;
#[path = "../grid/ext.rs"]
mod g_ext;
use corpus::*;
use vph::*;

fn go<D: Doc>(g: fn() -> (D, El)) {
    let (v, x) = g();
    let mut st = Style { ns: 1, ..Default::default() };
    let what = match choose(11) {
        0 => { st.ns = 0; "default namespace declarations" }
        1 => { st.ns = 2; "prefixes declared where used" }
        2 => { st.ws = true; "white space between elements" }
        3 => { st.noise = true; "comments and processing instructions between elements" }
        4 => { st.text_noise = true; "comments and processing instructions in text" }
        5 => { st.quotes = true; "attribute order and quotes" }
        6 => { st.cdata = true; "CDATA sections" }
        7 => { st.refs = true; "character references" }
        8 => { st.decl = true; "XML declaration" }
        9 => { st.long_empty = true; "start and end tag of empty elements" }
        _ => { st = Style { ns: 2, ws: true, noise: true, text_noise: true, quotes: true, decl: true, long_empty: true, ..st }; "all at once" }
    };
    let x = write(&x, st);
    note(&x);
    match D::dec(&x) {
        Ok(w) => check(w == v, "presentation changes the value"),
        Err(e) => {
            note(&e.to_string());
            check(false, "presentation makes a valid document rejected")
        }
    }
    cover(what);
}
macro_rules! emit { ($($n:ident => $g:path;)*) => { harness! { $($n => go($g);)* sg_mix => crate::gridfns::styled(crate::g_mix::CASES, 2); sg_ext => crate::gridfns::styled(crate::g_ext::CASES, 2); x_sg_mix => crate::gridfns::styled(crate::g_mix::CASES, 4); x_sg_ext => crate::gridfns::styled(crate::g_ext::CASES, 4); } } }
corpus!(emit);
