//! Enumerations: values and variants correspond one to one, and nothing else is a value.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/enum.rs"]
mod g_enum;
use corpus::types::enums_m::{Color, Hue, Paint};
use corpus::*;
use vph::*;

const COLORS: [&str; 8] = ["red", "dark-blue", "DARK_BLUE", "1st", "", "a.b", "+", "-"];
fn any_str(n: usize) -> String {
    let k = choose(n + 1);
    (0..k).map(|_| range(0x20, 0x7e) as char).collect()
}
/// close to a value: one of its characters replaced, or one appended
fn near() -> String {
    let mut b = COLORS[choose(8)].as_bytes().to_vec();
    let i = choose(b.len() + 1);
    let c = range(0x20, 0x7e);
    if i == b.len() {
        b.push(c);
    } else {
        b[i] = c;
    }
    String::from_utf8(b).unwrap()
}
fn value(s: String) {
    assume(!s.contains(['<', '&', '>', '"', '\'']));
    let attr = flip();
    let x = if attr { format!("<paint edge=\"{s}\"><main>red</main></paint>") } else { format!("<hue>{s}</hue>") };
    note(&x);
    let is = COLORS.iter().any(|c| *c == s);
    let got: Option<Color> = if attr { Paint::from_xml(&x).ok().and_then(|p| p.edge) } else { Hue::from_xml(&x).ok().map(|h| h.0) };
    match got {
        None => {
            check(!is, "an enumerated value is rejected");
            cover("rejected");
        }
        Some(c) => {
            check(is, "a value outside the enumeration is accepted");
            // the variant stands for this very value
            let Ok(o) = Hue(c).to_xml() else { return check(false, "to_xml failed") };
            let o = String::from_utf8(o).unwrap_or_default();
            note(&o);
            let e = leaf("hue", &tx(s, K::Enum));
            if let Err(m) = denotes(&o, &e) {
                check(false, m);
            }
            cover("accepted");
        }
    }
}
/// distinct values decode to distinct variants
fn distinct() {
    let (i, j) = (choose(8), choose(8));
    let d = |k: usize| Hue::from_xml(format!("<hue>{}</hue>", COLORS[k]));
    match (d(i), d(j)) {
        (Ok(a), Ok(b)) => check((a == b) == (i == j), "two values share a variant"),
        _ => check(false, "an enumerated value is rejected"),
    }
    cover("compared");
}
harness! {
    any_value => super::value(super::any_str(4)); near_value => super::value(super::near()); distinct => super::distinct();
    d_enums => both(types::enums); d_hue => both(types::enum_hue); d_root => both(types::enum_root); d_choice3 => both(choices::choice3); r_enums => rejects(types::enums);
    x_any_value => super::value(super::any_str(9));
    tg_enum => crate::gridfns::trips(crate::g_enum::CASES, 3); x_tg_enum => crate::gridfns::trips(crate::g_enum::CASES, 5); rg_enum => crate::gridfns::rejected(crate::g_enum::CASES, 1); x_rg_enum => crate::gridfns::rejected(crate::g_enum::CASES, 3);
}
