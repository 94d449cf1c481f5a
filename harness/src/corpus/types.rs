use super::basic::{items, some_vec};
use rust_decimal::Decimal;
use std::str::FromStr;
use vph::*;
#[xsd::all(schema = "schemas/fixed.xsd")]
pub mod fixed_m {}
#[xsd::all(schema = "schemas/lits.xsd")]
pub mod lits_m {}
#[xsd::all(schema = "schemas/lits_attr.xsd")]
pub mod lits_attr_m {}
#[xsd::all(schema = "schemas/enums.xsd")]
pub mod enums_m {}
#[xsd::all(schema = "schemas/simple.xsd")]
pub mod simple_m {}
docs!(fixed_m::Svc, fixed_m::Meta, lits_m::Lits, lits_attr_m::La, enums_m::State, enums_m::Hue, enums_m::Paint, simple_m::Nick, simple_m::N, simple_m::Rec);

pub fn fixed_root() -> (fixed_m::Svc, El) {
    (fixed_m::Svc(()), leaf("svc", &vph::fixed("core")))
}
pub fn fixed() -> (fixed_m::Meta, El) {
    let (f, n, l) = (flip(), flip(), maybe(txt));
    let x = el("meta")
        .c(leaf("version", &vph::fixed("2")))
        .co(f.then(|| leaf("flavour", &vph::fixed("mint"))))
        .ao("name", &n.then(|| vph::fixed("foo")))
        .a("unit", &vph::fixed("mm"))
        .ao("lang", &l);
    (fixed_m::Meta { version: (), flavour: f.then_some(()), name: n.then_some(()), unit: (), lang: l.as_ref().map(s) }, x)
}
fn dec() -> (T, Decimal) {
    let v = pick(&["0", "1.50", "-3.25", "12345678901234567890.123"]);
    (tx(v, K::Num), Decimal::from_str(v).unwrap())
}
fn flt() -> (T, f32) {
    let v = [("0", 0.0f32), ("1.5", 1.5), ("-0.25", -0.25), ("INF", f32::INFINITY), ("-INF", f32::NEG_INFINITY), ("16777216", 16777216.0)][choose(6)];
    (tx(v.0, K::Num), v.1)
}
/// a signed integer with up to two symbolic digits, in canonical form
fn int2() -> (T, i64) {
    let mut t = String::new();
    let neg = flip();
    let a = range(b'1', b'9');
    if neg {
        t.push('-');
    }
    t.push(a as char);
    let mut v = (a - b'0') as i64;
    if flip() {
        let b = range(b'0', b'9');
        t.push(b as char);
        v = v * 10 + (b - b'0') as i64;
    }
    (tx(t, K::Int), if neg { -v } else { v })
}
fn extreme_i64() -> (T, i64) {
    let v = [i64::MIN, i64::MAX, 0][choose(3)];
    (tx(v.to_string(), K::Int), v)
}
pub fn lits() -> (lits_m::Lits, El) {
    let st = txt();
    let b = boolean();
    let (mut integer, mut int, mut d, mut f) = ((tx("-7", K::Int), -7), (tx("7", K::Int), 7i64), (tx("1.5", K::Num), Decimal::new(15, 1)), (tx("2.5", K::Num), 2.5f32));
    match choose(5) {
        0 => integer = int2(),
        1 => int = int2(),
        2 => d = dec(),
        3 => f = flt(),
        _ => integer = extreme_i64(),
    }
    let (long, nn, p) = (digit(), digit(), digit());
    let o: Vec<T> = (0..7).map(|_| txt()).collect();
    let x = el("lits")
        .c(leaf("string", &st))
        .c(leaf("boolean", &b.0))
        .c(leaf("integer", &integer.0))
        .c(leaf("long", &long.0))
        .c(leaf("nonNegative", &nn.0))
        .c(leaf("positive", &p.0))
        .c(leaf("int", &int.0))
        .c(leaf("decimal", &d.0))
        .c(leaf("float", &f.0))
        .c(leaf("time", &o[0]))
        .c(leaf("date", &o[1]))
        .c(leaf("dateTime", &o[2]))
        .c(leaf("duration", &o[3]))
        .c(leaf("base64", &o[4]))
        .c(leaf("hex", &o[5]))
        .c(leaf("any", &o[6]));
    let v = lits_m::Lits {
        string: s(&st),
        boolean: b.1,
        integer: integer.1,
        long: long.1 as i64,
        non_negative: nn.1 as u64,
        positive: p.1 as u64,
        int: int.1 as i32,
        decimal: d.1,
        float: f.1,
        time: s(&o[0]),
        date: s(&o[1]),
        date_time: s(&o[2]),
        duration: s(&o[3]),
        base_64: s(&o[4]),
        hex: s(&o[5]),
        any: s(&o[6]),
    };
    (v, x)
}
pub fn lits_attr() -> (lits_attr_m::La, El) {
    let (st, b) = (txt(), boolean());
    let (mut i, mut d, mut f) = ((tx("-7", K::Int), -7i64), (tx("1.5", K::Num), Decimal::new(15, 1)), (tx("2.5", K::Num), 2.5f32));
    let k = choose(11);
    match k {
        7 => i = int2(),
        8 => d = dec(),
        9 => f = flt(),
        10 => i = extreme_i64(),
        _ => {}
    }
    let dg = |j: usize| if k == j { Some(digit()) } else { None };
    let (l, nn, p, n) = (dg(1), dg(2), dg(3), dg(4));
    let t = |j: usize| if k == j { Some(txt()) } else { None };
    let (dt, hex) = (t(5), t(6));
    let q = |d: &Option<(T, u8)>| d.as_ref().map(|d| d.0.clone());
    let x = el("la")
        .a("s", &st)
        .a("b", &b.0)
        .a("i", &i.0)
        .ao("l", &q(&l))
        .ao("nn", &q(&nn))
        .ao("p", &q(&p))
        .ao("n", &q(&n))
        .a("d", &d.0)
        .a("f", &f.0)
        .ao("dt", &dt)
        .ao("hex", &hex);
    let v = lits_attr_m::La {
        s: s(&st),
        b: b.1,
        i: i.1,
        l: l.map(|x| x.1 as i64),
        nn: nn.map(|x| x.1 as u64),
        p: p.map(|x| x.1 as u64),
        n: n.map(|x| x.1 as i32),
        d: d.1,
        f: f.1,
        dt: dt.as_ref().map(s),
        hex: hex.as_ref().map(s),
    };
    (v, x)
}
pub fn color() -> (T, enums_m::Color) {
    use enums_m::Color::*;
    en(&[("red", Red), ("dark-blue", DarkBlue), ("DARK_BLUE", Variant1), ("1st", V1St), ("", Variant2), ("a.b", Ab), ("+", Variant3), ("-", Variant4)])
}
pub fn enum_root() -> (enums_m::State, El) {
    use enums_m::State::*;
    let e = en(&[("READY", Ready), ("DONE", Done)]);
    (e.1, leaf("state", &e.0))
}
pub fn enum_hue() -> (enums_m::Hue, El) {
    let e = color();
    (enums_m::Hue(e.1), leaf("hue", &e.0))
}
pub fn enums() -> (enums_m::Paint, El) {
    use enums_m::*;
    let m = color();
    let tr = many(0, 1, color);
    let kind = maybe(|| en(&[("x", PaintKindData::X), ("y", PaintKindData::Y)]));
    let st = maybe(|| enum_root());
    let edge = maybe(|| en(&[("red", Color::Red), ("1st", Color::V1St), ("", Color::Variant2)]));
    let ts: Vec<T> = tr.iter().map(|t| t.0.clone()).collect();
    let x = el("paint")
        .c(leaf("main", &m.0))
        .cs(items("trim", &ts, false))
        .co(kind.as_ref().map(|k| leaf("kind", &k.0)))
        .co(st.as_ref().map(|k| k.1.clone()))
        .ao("edge", &edge.as_ref().map(|e| e.0.clone()));
    (Paint { main: m.1, trim: some_vec(tr.into_iter().map(|t| t.1).collect()), kind: kind.map(|k| k.1), state: st.map(|x| x.0), edge: edge.map(|e| e.1) }, x)
}
pub fn simple_nick() -> (simple_m::Nick, El) {
    let t = txt();
    (simple_m::Nick(s(&t)), leaf("nick", &t))
}
pub fn simple_n() -> (simple_m::N, El) {
    let t = int2();
    (simple_m::N(t.1), leaf("n", &t.0))
}
pub fn simple() -> (simple_m::Rec, El) {
    use simple_m::*;
    let (f, c, i, n, w, a, ca) = (txt(), maybe(digit), txt(), maybe(txt), many(0, 2, txt), maybe(txt), maybe(digit));
    let x = el("rec")
        .c(leaf("first", &f))
        .co(c.as_ref().map(|c| leaf("count", &c.0)))
        .c(leaf("inner", &i))
        .co(n.as_ref().map(|n| leaf("nick", n)))
        .cs(items("word", &w, false))
        .ao("a", &a)
        .ao("c", &ca.as_ref().map(|c| c.0.clone()));
    (
        Rec { first: s(&f), count: c.map(|c| c.1 as i32), inner: s(&i), nick: n.as_ref().map(s), word: some_vec(w.iter().map(s).collect()), a: a.as_ref().map(s), c: ca.map(|c| c.1 as i32) },
        x,
    )
}
