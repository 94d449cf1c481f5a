//! Decoding never panics: arbitrary bytes, and documents with arbitrary damage.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
use corpus::*;
use vph::*;

/// any outcome but a panic (or running on) is fine
fn feed<D: Doc>(x: &[u8]) {
    let Ok(x) = std::str::from_utf8(x) else { return cover("not UTF-8") };
    note(x);
    match D::dec(x) {
        Ok(_) => cover("decoded"),
        Err(e) => {
            // errors can be shown
            check(!e.to_string().is_empty(), "an error without a message");
            cover("rejected")
        }
    }
}
/// up to n arbitrary bytes
fn arbitrary<D: Doc>(n: usize) {
    let k = choose(n + 1);
    feed::<D>(&bytes(k));
}
/// arbitrary bytes inside an otherwise intact element
fn inside<D: Doc>(root: &str, n: usize) {
    let k = choose(n + 1);
    let mut x = format!("<{root}>").into_bytes();
    x.extend(bytes(k));
    x.extend(format!("</{root}>").into_bytes());
    feed::<D>(&x);
}
/// an arbitrary byte in place of, or in addition to, any byte of a valid document; or a part cut out
fn damaged<D: Doc>(g: fn() -> (D, El), step: usize) {
    let (_, e) = g();
    let mut x = plain(&e).into_bytes();
    let n = x.len();
    let at = choose((n + step - 1) / step) * step + choose(step);
    if at >= n {
        return cover("past the end");
    }
    match choose(4) {
        0 => x[at] = bytes(1)[0],
        1 => x.insert(at, bytes(1)[0]),
        2 => x.truncate(at),
        _ => {
            x.drain(at..(at + 7).min(n));
        }
    }
    feed::<D>(&x);
}
/// every element in the wrong place: children reversed, duplicated, emptied, renamed like others
fn shuffled<D: Doc>(g: fn() -> (D, El)) {
    let (_, mut e) = g();
    fn all<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
        if *n == 0 {
            return Some(e);
        }
        *n -= 1;
        e.kids.iter_mut().find_map(|k| all(k, n))
    }
    fn count(e: &El) -> usize {
        1 + e.kids.iter().map(count).sum::<usize>()
    }
    let mut n = choose(count(&e));
    let x = all(&mut e, &mut n).unwrap();
    match choose(6) {
        0 => x.kids.reverse(),
        1 => {
            let k = x.kids.clone();
            x.kids.extend(k);
        }
        2 => x.kids.clear(),
        3 => {
            if let Some(f) = x.kids.first().map(|k| k.name) {
                x.kids.iter_mut().for_each(|k| k.name = f);
            }
        }
        4 => {
            // text and elements mixed
            x.text = Some(("x".into(), K::Str));
            let k = El { kids: x.kids.clone(), ..el("zzz") };
            x.kids.insert(0, k);
        }
        _ => {
            let c = x.clone();
            x.kids.push(c);
        }
    }
    feed::<D>(plain(&e).as_bytes());
}
harness! {
    seq => shuffled(basic::seq); nested_book => shuffled(basic::nested_book); named => shuffled(basic::named); choice => shuffled(choices::choice); choice2 => shuffled(choices::choice2); ctchoice => shuffled(choices::ctchoice);
    refs => shuffled(choices::choice_refs); all => shuffled(choices::all); all_opt => shuffled(choices::all_opt); groups => shuffled(groups::groups); groups2 => shuffled(groups::groups2); ext_attr => shuffled(exts::ext_attr); ext_seq => shuffled(exts::ext_seq); ext_simple => shuffled(exts::ext_simple); ext_base_attr => shuffled(exts::ext_base_attr); ext_chain => shuffled(exts::ext_chain);
    fixed => shuffled(types::fixed); enum_hue => shuffled(types::enum_hue); simple => shuffled(types::simple); lits_attr => shuffled(types::lits_attr); imp_kit => shuffled(namespaces::imp_kit); imp_u => shuffled(namespaces::imp_u); same => shuffled(namespaces::same); cyc => shuffled(namespaces::cyc); empty => shuffled(basic::empty);
    raw => super::arbitrary::<basic::seq_m::Root>(4); raw_enum => super::arbitrary::<types::enums_m::Hue>(3);
    in_root => super::inside::<basic::seq_m::Root>("root", 4); in_choice => super::inside::<choices::ctchoice_m::Post>("post", 4); in_enum => super::inside::<types::enums_m::Hue>("hue", 4); in_n => super::inside::<types::simple_m::N>("n", 3);
    dmg_seq => super::damaged(one::seq, 8); dmg_attrs => super::damaged(one::attrs, 8); dmg_ns => super::damaged(one::ns, 8);
    x_raw => super::arbitrary::<basic::seq_m::Root>(6); x_in_root => super::inside::<basic::seq_m::Root>("root", 6); x_in_n => super::inside::<types::simple_m::N>("n", 5);
    x_dmg_choice => super::damaged(choices::choice, 8); x_dmg_groups => super::damaged(groups::groups2, 8); x_choice3 => shuffled(choices::choice3); x_groups3 => shuffled(groups::groups3); x_enums => shuffled(types::enums); x_ns_q => shuffled(namespaces::ns_q); x_ns_u => shuffled(namespaces::ns_u); x_imp => shuffled(namespaces::imp); x_words => shuffled(basic::words);
}
/// single representative documents of generators
mod one {
    use super::corpus::*;
    use vph::*;
    pub fn seq() -> (basic::seq_m::Root, El) {
        let x = el("root").c(leaf("a", &tx("x", K::Str))).c(leaf("b", &tx("1", K::Int))).c(leaf("c", &tx("y", K::Str))).c(leaf("e", &tx("z", K::Str)));
        (basic::seq_m::Root { a: "x".into(), b: Some(1), c: vec!["y".into()], d: None, e: "z".into() }, x)
    }
    pub fn attrs() -> (types::lits_attr_m::La, El) {
        let x = el("la").a("s", &tx("x", K::Str)).a("b", &tx("true", K::Bool)).a("i", &tx("1", K::Int)).a("d", &tx("1.5", K::Num)).a("f", &tx("2", K::Num));
        (types::lits_attr_m::La { s: "x".into(), b: true, i: 1, l: None, nn: None, p: None, n: None, d: rust_decimal::Decimal::new(15, 1), f: 2.0, dt: None, hex: None }, x)
    }
    pub fn ns() -> (namespaces::q_m::Doc, El) {
        use namespaces::q_m::*;
        let x = el("doc").c(el("p").c(leaf("no", &tx("1", K::Int)))).c(el("in").c(leaf("deep", &tx("d", K::Str)))).ns("urn:t");
        (Doc { p: Part { no: 1, at: None }, s: None, top: None, lr: None, v: None, r#in: DocInData { deep: "d".into() } }, x)
    }
}
