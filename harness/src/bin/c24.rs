//! The order of declarations in a schema is irrelevant.
#[path = "../grid/files.rs"]
mod files;
use vph::schema::*;
use vph::xs::*;
use vph::*;

fn same(a: &N, b: &N, path: &str) {
    let (x, y) = (a.xml(), b.xml());
    note(&y);
    let c = |x: &str| xsd_internal::xsd::schema::Schema::parse(x, path).and_then(|s| s.generate_all()).map(canonical);
    match (c(&x), c(&y)) {
        (Ok(a), Ok(b)) => check(a == b, "the order of declarations changes the generated code"),
        (Err(_), _) => check(false, "the schema is rejected"),
        (_, Err(e)) => {
            note(&e.to_string());
            check(false, "the schema is rejected in another order")
        }
    }
    cover("same");
}
/// includes and imports stay in front
fn split(s: &mut N) -> Vec<N> {
    let k = s.kids.iter().take_while(|k| matches!(k.name.as_str(), "xs:include" | "xs:import")).count();
    s.kids.split_off(k)
}
/// one declaration moved anywhere, or all reversed
fn moved(s: N, path: &str) {
    let mut t = s.clone();
    let mut d = split(&mut t);
    let n = d.len();
    if n < 2 {
        return cover("a single declaration");
    }
    let i = choose(n + 1);
    if i == n {
        d.reverse();
    } else {
        let x = d.remove(i);
        let j = choose(n - 1);
        d.insert(if j >= i { j + 1 } else { j }, x);
    }
    t.kids.extend(d);
    same(&s, &t, path);
}
/// every order
fn permuted(s: N, path: &str) {
    let mut t = s.clone();
    let mut d = split(&mut t);
    let n = d.len();
    for i in 0..n {
        let j = i + choose(n - i);
        d.swap(i, j);
    }
    t.kids.extend(d);
    same(&s, &t, path);
}
fn file(fs: &[(&str, &str)]) -> N {
    let (n, x) = fs[choose(fs.len())];
    note(n);
    read(x)
}
const P: &str = "schemas/grid/main.xsd";
harness! {
    seeds => moved(seed(choose(4)), P); seeds_all => permuted(seed(1 + choose(3)), P);
    mix => moved(super::file(&super::files::MIX[..20]), P); ext => moved(super::file(super::files::EXT), P); inc => moved(super::file(super::files::INC), P); ns => moved(super::file(super::files::NS), P); enum_ => moved(super::file(&super::files::ENUM[..8]), P); type_ => moved(super::file(&super::files::TYPE[..8]), P);
    x_mix => permuted(super::file(super::files::MIX), P); x_mix1 => moved(super::file(super::files::MIX), P); x_inc => permuted(super::file(&super::files::INC[..6]), P); x_enum => moved(super::file(super::files::ENUM), P); x_type => permuted(super::file(super::files::TYPE), P); x_seeds => permuted(seed(0), P);
}
