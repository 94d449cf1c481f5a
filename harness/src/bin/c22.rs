//! Literals: numbers and booleans keep their value, everything else is rejected.
use rust_decimal::Decimal;
use vph::*;
#[xsd::all(schema = "schemas/num.xsd")]
mod m {}

// ---------------------------------------------------------------- the lexical spaces, by the book
fn ws(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n' || b == b'\r'
}
fn trim(mut t: &[u8]) -> &[u8] {
    while let [a, r @ ..] = t {
        if !ws(*a) { break }
        t = r;
    }
    while let [r @ .., a] = t {
        if !ws(*a) { break }
        t = r;
    }
    t
}
fn sign(t: &[u8]) -> (bool, &[u8]) {
    match t {
        [b'-', r @ ..] => (true, r),
        [b'+', r @ ..] => (false, r),
        r => (false, r),
    }
}
/// an integer: sign and magnitude, within the bounds
fn int(t: &[u8], lo: u64, hi: u64) -> Option<(bool, u64)> {
    let (neg, d) = sign(trim(t));
    if d.is_empty() || !d.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v = 0u64;
    for b in d {
        v = v.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    (v <= if neg { lo } else { hi }).then_some((neg && v != 0, v))
}
fn boolean(t: &[u8]) -> Option<bool> {
    match trim(t) {
        b"true" | b"1" => Some(true),
        b"false" | b"0" => Some(false),
        _ => None,
    }
}
/// digits and scale
fn decimal(t: &[u8]) -> Option<(i64, u32)> {
    let (neg, d) = sign(trim(t));
    let (mut v, mut scale, mut point, mut any) = (0i64, 0, false, false);
    for b in d {
        if *b == b'.' {
            if point {
                return None;
            }
            point = true;
        } else if b.is_ascii_digit() {
            any = true;
            v = v.wrapping_mul(10).wrapping_add((b - b'0') as i64);
            scale += point as u32;
        } else {
            return None;
        }
    }
    any.then_some((if neg { -v } else { v }, scale))
}

// ---------------------------------------------------------------- texts
fn raw(n: usize) -> String {
    let k = choose(n + 1);
    let s: String = (0..k).map(|_| range(b' ', b'~') as char).collect();
    assume(!s.contains(['<', '&', '>', '"', '\'']));
    s
}
/// with white space of every kind around it
fn padded(s: String) -> String {
    let w = ["", " ", "\n", "\t", " \n\t "];
    format!("{}{s}{}", w[choose(5)], w[choose(5)])
}
fn sgn() -> &'static str {
    pick(&["", "-", "+"])
}
fn digits(n: usize) -> String {
    (0..n).map(|_| range(b'0', b'9') as char).collect()
}
/// decides: accepted exactly if the reference accepts, with the same value, written as the same value
fn decide<V: PartialEq, R>(enc_too: bool, x: String, want: Option<R>, dec: impl Fn(&str) -> Option<V>, same: impl Fn(&V, &R) -> bool, enc: impl Fn(&V) -> Option<Vec<u8>>, read: impl Fn(&roxmltree::Document) -> Option<bool>) {
    note(&x);
    match (dec(&x), want) {
        (None, None) => cover("rejected"),
        (None, Some(_)) => check(false, "a literal of the type is rejected"),
        (Some(_), None) => check(false, "text outside the lexical space or out of range is accepted"),
        (Some(v), Some(r)) => {
            check(same(&v, &r), "a literal decodes to another value");
            if !enc_too {
                return cover("accepted");
            }
            let Some(o) = enc(&v) else { return check(false, "to_xml failed") };
            let o = String::from_utf8(o).unwrap_or_default();
            note(&o);
            let Ok(d) = roxmltree::Document::parse(&o) else { return check(false, "output is not well-formed") };
            check(read(&d) == Some(true), "the literal written denotes another value or is not one of the type");
            check(dec(&o).as_ref() == Some(&v), "the value changes in the round trip");
            cover("accepted");
        }
    }
}
fn text<'a>(d: &'a roxmltree::Document) -> &'a [u8] {
    d.root_element().text().unwrap_or("").as_bytes()
}
macro_rules! elem {
    ($t:ident, $name:literal, $s:expr, $parse:expr, $same:expr) => {{
        let s: String = $s;
        let want = $parse(s.as_bytes());
        decide(s.len() <= 2 || $parse(b"true").is_some(), format!(concat!("<", $name, ">{}</", $name, ">"), s), want, |x| m::$t::from_xml(x).ok(), |v, r| $same(&v.0, r), |v| v.to_xml().ok(), |d| Some($parse(text(d)) == want))
    }};
}
/// in a field of the row: attribute or child
macro_rules! attr {
    ($f:ident, $s:expr, $parse:expr, $same:expr) => {{
        let s: String = $s;
        let want = $parse(s.as_bytes());
        decide(
            s.len() <= 2 || $parse(b"true").is_some(), format!(concat!("<row ", stringify!($f), "=\"{}\"/>"), s), want, |x| m::Row::from_xml(x).ok(), |v, r| v.$f.as_ref().map(|v| $same(v, r)) == Some(true), |v| v.to_xml().ok(),
            |d| Some($parse(d.root_element().attribute(stringify!($f))?.as_bytes()) == want),
        )
    }};
}
macro_rules! child {
    ($f:ident, $name:literal, $s:expr, $parse:expr, $same:expr) => {{
        let s: String = $s;
        let want = $parse(s.as_bytes());
        decide(
            s.len() <= 2 || $parse(b"true").is_some(), format!(concat!("<row><", $name, ">{}</", $name, "></row>"), s), want, |x| m::Row::from_xml(x).ok(), |v, r| v.$f.as_ref().map(|v| $same(v, r)) == Some(true), |v| v.to_xml().ok(),
            |d| Some($parse(d.root_element().first_element_child()?.text()?.as_bytes()) == want),
        )
    }};
}
fn i32_(t: &[u8]) -> Option<(bool, u64)> { int(t, 1 << 31, (1 << 31) - 1) }
fn i64_(t: &[u8]) -> Option<(bool, u64)> { int(t, 1 << 63, (1 << 63) - 1) }
fn u64_(t: &[u8]) -> Option<(bool, u64)> { int(t, 0, u64::MAX) }
fn eq32(v: &i32, r: &(bool, u64)) -> bool { (*v < 0, v.unsigned_abs() as u64) == *r }
fn eq(v: &i64, r: &(bool, u64)) -> bool { (*v < 0, v.unsigned_abs()) == *r }
fn equ(v: &u64, r: &(bool, u64)) -> bool { (false, *v) == *r }
fn beq(v: &bool, r: &bool) -> bool { v == r }
/// in millionths
fn scaled(v: i64, scale: u32) -> i64 { if scale > 6 { i64::MAX } else { v.wrapping_mul([1_000_000, 100_000, 10_000, 1000, 100, 10, 1][scale as usize]) } }
fn deq(v: &Decimal, r: &i64) -> bool { scaled(v.mantissa() as i64, v.scale()) == *r }
fn norm(t: &[u8]) -> Option<i64> { decimal(t).map(|(v, s)| scaled(v, s)) }
/// a text for unsigned types: the negative spelling of zero is left open
fn unsigned(s: String) -> String {
    let (neg, d) = sign(trim(s.as_bytes()));
    assume(!(neg && !d.is_empty() && d.iter().all(|b| *b == b'0')));
    s
}
/// rust_decimal's separators are the subject of kf_decimal_underscore
fn nous(s: String) -> String {
    assume(!s.contains('_'));
    s
}
fn dec_text(a: usize, b: usize) -> String {
    let i = digits(choose(a + 1));
    let s = sgn();
    if flip() {
        return format!("{s}{i}");
    }
    let f = digits(choose(b + 1));
    format!("{s}{i}.{f}")
}
/// mantissa and exponent are enumerated: floating point is executed, not solved for
fn flt_text() -> (String, f32) {
    let (m, e) = (choose(13), choose(6));
    let ms: [(&str, f64); 13] = [("0", 0.0), ("-0", -0.0), ("1", 1.0), ("1.5", 1.5), ("-2.25", -2.25), ("+7", 7.0), ("0.1", 0.1), ("16777217", 16777217.0), ("3.4028235", 3.4028235), ("1.1754944", 1.1754944), ("9.5", 9.5), (".5", 0.5), ("3.", 3.0)];
    let es: [(&str, f64); 6] = [("", 1.0), ("e2", 1e2), ("E-3", 1e-3), ("E+10", 1e10), ("e38", 1e38), ("e-38", 1e-38)];
    let (t, _) = (format!("{}{}", ms[m].0, es[e].0), es[e].1);
    let v: f64 = ms[m].1;
    let v = match e { 0 => v, 1 => v * 1e2, 2 => v / 1e3, 3 => v * 1e10, 4 => v * 1e38, _ => v / 1e38 };
    (t, v as f32)
}
fn flt() {
    let (t, want) = flt_text();
    let at = flip();
    let x = if at { format!("<row af=\"{t}\"/>") } else { format!("<flt> {t}\n</flt>") };
    note(&x);
    let get = |x: &str| if at { m::Row::from_xml(x).ok().and_then(|r| r.af) } else { m::Flt::from_xml(x).ok().map(|f| f.0) };
    let Some(v) = get(&x) else { return check(false, "a literal of the type is rejected") };
    // one unit in the last place: the reference is computed in double precision
    check(v == want || (v.to_bits() as i64 - want.to_bits() as i64).abs() <= 1, "a literal decodes to another value");
    let o = if at { m::Row { i: None, b: None, c: None, d: None, ln: None, ai: None, al: None, an: None, ab: None, ad: None, af: Some(v), ac: None, ag: None }.to_xml() } else { m::Flt(v).to_xml() };
    let Ok(o) = o else { return check(false, "to_xml failed") };
    let o = String::from_utf8(o).unwrap_or_default();
    note(&o);
    check(get(&o).map(|w| w.to_bits()) == Some(v.to_bits()), "the value changes in the round trip");
    cover("accepted");
}
fn flt_special() {
    let (t, want) = [("INF", f32::INFINITY), ("-INF", f32::NEG_INFINITY), ("NaN", f32::NAN)][choose(3)];
    let x = format!("<flt>{t}</flt>");
    note(&x);
    let Ok(v) = m::Flt::from_xml(&x) else { return check(false, "a literal of the type is rejected") };
    check(v.0.to_bits() == want.to_bits() || (v.0.is_nan() && want.is_nan()), "a literal decodes to another value");
    let Ok(o) = v.to_xml() else { return check(false, "to_xml failed") };
    let o = String::from_utf8(o).unwrap_or_default();
    note(&o);
    if let Err(m) = denotes(&o, &leaf("flt", &tx(t, K::Num))) {
        check(false, m);
    }
    cover("accepted");
}
/// arbitrary text that is not a float, and does not look like one
fn flt_bad(n: usize) {
    let s = raw(n);
    assume(s.bytes().all(|b| !b.is_ascii_digit()) && !s.to_ascii_lowercase().contains('n'));
    let x = format!("<flt>{s}</flt>");
    note(&x);
    check(m::Flt::from_xml(&x).is_err(), "text outside the lexical space is accepted");
    cover("rejected");
}
fn amount() {
    let s = dec_text(2, 1);
    let want = norm(s.as_bytes());
    decide(true, format!("<amount at=\"-5\">{s}</amount>"), want, |x| m::Amount::from_xml(x).ok(), |v, r| v.0.at == Some(-5) && deq(&v.0.amount_of, r), |v| v.to_xml().ok(), |d| Some(norm(text(d)) == want && d.root_element().attribute("at") == Some("-5")))
}
/// values at every power of ten and at the limits are written as the literals they are
fn written() {
    let n = [0u64, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 12345, 99_999, 100_000, 2_147_483_647, 2_147_483_648, 4_294_967_296, 9_223_372_036_854_775_807, 9_223_372_036_854_775_808, u64::MAX][choose(19)];
    let (neg, k) = (flip(), choose(5));
    let lit = format!("{}{n}", if neg && n > 0 { "-" } else { "" });
    let w = if neg { (n as i64).wrapping_neg() } else { n as i64 };
    let fits = |hi: u64| n <= if neg { hi + 1 } else { hi };
    fn go<V: PartialEq>(v: V, e: El, enc: impl Fn(&V) -> Option<Vec<u8>>, dec: impl Fn(&str) -> Option<V>) {
        let o = String::from_utf8(enc(&v).unwrap_or_default()).unwrap_or_default();
        note(&o);
        if let Err(m) = denotes(&o, &e) {
            check(false, m);
        }
        check(dec(&o).as_ref() == Some(&v), "the value changes in the round trip");
        cover("written");
    }
    let t = tx(lit.clone(), K::Int);
    let row = m::Row { i: None, b: None, c: None, d: None, ln: None, ai: None, al: None, an: None, ab: None, ad: None, af: None, ac: None, ag: None };
    match k {
        0 if fits(i32::MAX as u64) => go(m::Int(w as i32), leaf("int", &t), |v| v.to_xml().ok(), |x| m::Int::from_xml(x).ok()),
        1 if fits(i64::MAX as u64) => go(m::Long(w), leaf("long", &t), |v| v.to_xml().ok(), |x| m::Long::from_xml(x).ok()),
        2 if !neg => go(m::Nn(n), leaf("nn", &t), |v| v.to_xml().ok(), |x| m::Nn::from_xml(x).ok()),
        3 => {
            let scale = choose(4) as u32;
            let d = Decimal::from_i128_with_scale(if neg { -(n as i128) } else { n as i128 }, scale);
            let digits = format!("{:0>1$}", n, scale as usize + 1);
            let (a, b) = digits.split_at(digits.len() - scale as usize);
            let lit = format!("{}{a}{}{b}", if neg && n > 0 { "-" } else { "" }, if scale > 0 { "." } else { "" });
            go(m::Dec(d), leaf("dec", &tx(lit, K::Num)), |v| v.to_xml().ok(), |x| m::Dec::from_xml(x).ok())
        }
        4 if fits(i64::MAX as u64) && fits(i32::MAX as u64) => go(m::Row { ai: Some(w as i32), al: Some(w), an: Some(n), ..row }, el("row").ao("ai", &Some(t.clone())).ao("al", &Some(t.clone())).ao("an", &Some(tx(n.to_string(), K::Int))), |v| v.to_xml().ok(), |x| m::Row::from_xml(x).ok()),
        _ => cover("out of range"),
    }
}
fn kf_underscore() {
    let x = "<dec>1_0</dec>";
    note(x);
    check(m::Dec::from_xml(x).is_err(), "text outside the lexical space is accepted");
}
fn kf_spelling() {
    let x = format!("<flt>{}</flt>", pick(&["inf", "nan", "infinity", "-inf"]));
    note(&x);
    check(m::Flt::from_xml(&x).is_err(), "text outside the lexical space is accepted");
}
fn kf_zero() {
    let x = "<nn>-0</nn>";
    note(x);
    check(m::Nn::from_xml(x).is_ok(), "a literal of the type is rejected");
}
mod b {
    use super::*;
    pub fn int_raw(n: usize) { elem!(Int, "int", raw(n), i32_, eq32) }
    pub fn int_ws() { elem!(Int, "int", padded(format!("{}{}", sgn(), digits(1))), i32_, eq32) }
    pub fn int_digits(n: usize) { elem!(Int, "int", format!("{}{}", sgn(), digits(n)), i32_, eq32) }
    pub fn int_edge(n: usize) { elem!(Int, "int", format!("{}{}{}", sgn(), &"2147483640"[..10 - n], digits(n)), i32_, eq32) }
    pub fn long_raw(n: usize) { elem!(Long, "long", raw(n), i64_, eq) }
    pub fn long_edge(n: usize) { elem!(Long, "long", format!("{}{}{}", sgn(), &"9223372036854775800"[..19 - n], digits(n)), i64_, eq) }
    pub fn integer_raw(n: usize) { elem!(Integer, "integer", raw(n), i64_, eq) }
    pub fn integer_edge(n: usize) { elem!(Integer, "integer", format!("{}{}{}", sgn(), &"9223372036854775800"[..19 - n], digits(n)), i64_, eq) }
    pub fn nn_raw(n: usize) { elem!(Nn, "nn", unsigned(raw(n)), u64_, equ) }
    pub fn nn_edge(n: usize) { elem!(Nn, "nn", unsigned(format!("{}{}{}", sgn(), &"18446744073709551610"[..20 - n], digits(n))), u64_, equ) }
    pub fn pos_raw(n: usize) { let s = unsigned(raw(n)); assume(int(s.as_bytes(), 0, 0).is_none()); elem!(Pos, "pos", s, u64_, equ) }
    pub fn bool_raw(n: usize) { elem!(Bool, "bool", raw(n), boolean, beq) }
    pub fn bool_ws() { elem!(Bool, "bool", padded(pick(&["true", "false", "0", "1", "t", "TRUE", "True", "2", "00", ""]).to_string()), boolean, beq) }
    pub fn dec_raw(n: usize) { elem!(Dec, "dec", nous(raw(n)), norm, deq) }
    pub fn dec_digits(a: usize, b: usize) { elem!(Dec, "dec", dec_text(a, b), norm, deq) }
    pub fn dec_ws() { elem!(Dec, "dec", padded(dec_text(1, 1)), norm, deq) }
    pub fn at_int(n: usize) { attr!(ai, raw(n), i32_, eq32) }
    pub fn at_int_edge(n: usize) { attr!(ai, format!("{}{}{}", sgn(), &"2147483640"[..10 - n], digits(n)), i32_, eq32) }
    pub fn at_long(n: usize) { attr!(al, raw(n), i64_, eq) }
    pub fn at_nn(n: usize) { attr!(an, unsigned(raw(n)), u64_, equ) }
    pub fn at_bool(n: usize) { attr!(ab, raw(n), boolean, beq) }
    pub fn at_dec(a: usize, b: usize) { attr!(ad, dec_text(a, b), norm, deq) }
    pub fn at_flag(n: usize) { attr!(ag, raw(n), boolean, beq) }
    pub fn at_count(n: usize) { attr!(ac, raw(n), i32_, eq32) }
    pub fn flag_raw(n: usize) { elem!(Flag, "flag", raw(n), boolean, beq) }
    pub fn count_raw(n: usize) { elem!(Count, "count", raw(n), i32_, eq32) }
    pub fn ch_bool(n: usize) { child!(b, "b", raw(n), boolean, |v: &Vec<bool>, r: &bool| v[..] == [*r]) }
    pub fn ch_long(n: usize) { child!(ln, "l", raw(n), i64_, |v: &m::RowLN, r: &(bool, u64)| matches!(v, m::RowLN::L(v) if eq(v, r))) }
    pub fn ch_int(n: usize) { child!(i, "i", raw(n), i32_, eq32) }
    pub fn ch_count(n: usize) { child!(c, "c", raw(n), i32_, eq32) }
    pub fn ch_dec() { child!(d, "d", dec_text(2, 1), norm, deq) }
}
harness! {
    int_raw => b::int_raw(3); int_ws => b::int_ws(); int_digits => b::int_digits(6); int_edge => b::int_edge(4);
    long_raw => b::long_raw(3); long_edge => b::long_edge(4); integer_raw => b::integer_raw(3); integer_edge => b::integer_edge(4);
    nn_raw => b::nn_raw(3); nn_edge => b::nn_edge(4); pos_raw => b::pos_raw(3); bool_raw => b::bool_raw(5); bool_ws => b::bool_ws();
    dec_raw => b::dec_raw(3); dec_digits => b::dec_digits(2, 2); dec_ws => b::dec_ws();
    at_int => b::at_int(2); at_int_edge => b::at_int_edge(1); at_long => b::at_long(2); at_nn => b::at_nn(2); at_bool => b::at_bool(4); at_dec => b::at_dec(2, 1);
    at_flag => b::at_flag(4); at_count => b::at_count(2); flag_raw => b::flag_raw(5); count_raw => b::count_raw(2); ch_bool => b::ch_bool(4); ch_long => b::ch_long(2); ch_int => b::ch_int(2); ch_count => b::ch_count(2); ch_dec => b::ch_dec();
    flt => super::flt(); flt_special => super::flt_special(); flt_bad => super::flt_bad(3); amount => super::amount(); written => super::written();
    kf_decimal_underscore => super::kf_underscore(); kf_float_spelling => super::kf_spelling(); kf_negative_zero => super::kf_zero();
    x_int_raw => b::int_raw(5); x_int_digits => b::int_digits(8); x_int_edge => b::int_edge(6); x_long_edge => b::long_edge(5); x_nn_edge => b::nn_edge(5); x_bool_raw => b::bool_raw(7); x_dec_raw => b::dec_raw(5); x_dec_digits => b::dec_digits(4, 4); x_flt_bad => super::flt_bad(5);
}
