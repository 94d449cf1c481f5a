//! Include and import: a schema distributed over files is the schema in one file.
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/inc.rs"]
mod g_inc;
#[path = "../grid/ns.rs"]
mod g_ns;
#[path = "../grid/split.rs"]
mod split;
use split::SPLIT;
use vph::schema::*;
use vph::*;

const AT: &str = "schemas/split/main.xsd";
fn go(x: &str) -> Result<Vec<Item>, String> {
    xsd_internal::xsd::schema::Schema::parse(x, AT).and_then(|s| s.generate_all()).map(canonical).map_err(|e| e.to_string())
}
fn file(attrs: &str, body: &str) -> String {
    format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"{attrs}>{body}</xs:schema>")
}
/// which declarations stand in files of their own: any subset, or all subsets of 1, n-1 or n
fn subset(n: usize, every: bool) -> u32 {
    let all = (1 << n) - 1;
    if every {
        choose(1 << n) as u32
    } else {
        match choose(2 * n + 1) {
            k if k < n => 1 << k,
            k if k < 2 * n => all ^ (1 << (k - n)),
            _ => all,
        }
    }
}
/// the way to the file of a declaration: directly, through a file in a subdirectory, through one that
/// includes itself, or several of these
fn way(v: &str, i: usize, how: usize) -> String {
    let (d, s, b) = (format!("{v}{i}.xsd"), format!("sub/{v}{i}.xsd"), format!("sub/{v}back{i}.xsd"));
    let l: Vec<String> = match how {
        0 => vec![d],
        1 => vec![s],
        2 => vec![b],
        3 => vec![d.clone(), d],
        4 => vec![b, format!("sub/../{d}"), s],
        _ => vec![format!("./{d}"), s],
    };
    l.iter().map(|l| format!("<xs:include schemaLocation=\"{l}\"/>")).collect()
}
fn splits(v: usize, every: bool, how: usize) {
    let (v, attrs, ds) = SPLIT[v];
    let m = subset(ds.len(), every);
    let back = flip();
    let (mut inc, mut rest) = (vec![], String::new());
    for (i, d) in ds.iter().enumerate() {
        if m >> i & 1 == 1 {
            inc.push(way(v, i, how));
        } else {
            rest.push_str(d);
        }
    }
    if back {
        inc.reverse();
    }
    let x = file(attrs, &format!("{}{rest}", inc.concat()));
    note(&x);
    match (go(&file(attrs, &ds.concat())), go(&x)) {
        (Ok(a), Ok(b)) => check(a == b, "a schema split over files generates other code"),
        (Err(_), _) => check(false, "the schema is rejected"),
        (_, Err(e)) => {
            note(&e);
            check(false, "the schema is rejected when it is split over files")
        }
    }
    cover("same");
}
/// the same with the main schema read from a file
fn from_file() {
    let (v, attrs, ds) = SPLIT[choose(3)];
    let i = choose(ds.len());
    let p = match choose(3) {
        0 => format!("schemas/split/{v}{i}.xsd"),
        1 => format!("schemas/split/sub/{v}{i}.xsd"),
        _ => format!("schemas/split/sub/{v}back{i}.xsd"),
    };
    note(&p);
    let r = xsd_internal::xsd::schema::Schema::parse_file(&p).and_then(|s| s.generate_all()).map(canonical).map_err(|e| e.to_string());
    // types the declaration refers to stay unknown: only compare those that refer to none
    match (go(&file(attrs, ds[i])), r) {
        (Ok(a), Ok(b)) => check(a == b, "a schema read from a file generates other code"),
        (Err(a), Err(b)) => check(a.rsplit(": ").next() == b.rsplit(": ").next(), "a schema read from a file fails in another way"),
        _ => check(false, "a schema read from a file is (not) rejected"),
    }
    cover("file");
}
/// an included file without a target namespace takes on that of the including one
fn chameleon() {
    let v = choose(2);
    let (_, attrs, ds) = SPLIT[v];
    let m = subset(ds.len(), false);
    let how = choose(6);
    let (mut inc, mut rest) = (String::new(), String::new());
    for (i, d) in ds.iter().enumerate() {
        if m >> i & 1 == 1 {
            inc.push_str(&way(["c", "n"][v], i, how));
        } else {
            rest.push_str(d);
        }
    }
    let x = file(attrs, &format!("{inc}{rest}"));
    note(&x);
    match (go(&file(attrs, &ds.concat())), go(&x)) {
        (Ok(a), Ok(b)) => check(a == b, "declarations included without a namespace generate other code"),
        (Err(_), _) => check(false, "the schema is rejected"),
        (_, Err(e)) => {
            note(&e);
            check(false, "the schema is rejected when declarations without a namespace are included")
        }
    }
    cover("same");
}
/// files that cannot be used make compilation fail, and the error names them
fn unusable() {
    let (loc, named): (&str, &str) = [
        ("missing.xsd", "missing.xsd"),
        ("sub/missing.xsd", "sub/missing.xsd"),
        ("../none/missing.xsd", "none/missing.xsd"),
        ("sub", "sub"),
        ("q2.xsd/x.xsd", "q2.xsd/x.xsd"),
        ("bad/syntax.xsd", "bad/syntax.xsd"),
        ("bad/empty.xsd", "bad/empty.xsd"),
        ("bad/latin.xsd", "bad/latin.xsd"),
        ("bad/unsupported.xsd", "bad/unsupported.xsd"),
        ("bad/root.xsd", "bad/root.xsd"),
        ("bad/location.xsd", "bad/location.xsd"),
        ("bad/deep.xsd", "missing2.xsd"),
        ("bad/deeper.xsd", "missing2.xsd"),
        ("bad/indirect.xsd", "syntax.xsd"),
    ][choose(14)];
    let (_, attrs, ds) = SPLIT[choose(3)];
    let inc = match choose(3) {
        0 => format!("<xs:include schemaLocation=\"{loc}\"/>"),
        1 => format!("<xs:import namespace=\"urn:m\" schemaLocation=\"{loc}\"/>"),
        _ => format!("<xs:import schemaLocation=\"{loc}\" namespace=\"urn:m\"/>"),
    };
    // after k good ones
    let k = choose(3);
    let good: String = (0..k).map(|i| format!("<xs:include schemaLocation=\"{}{i}.xsd\"/>", SPLIT[2].0)).collect();
    let x = file(attrs, &format!("{good}{inc}{}", ds[choose(ds.len())]));
    note(&x);
    match go(&x) {
        Ok(_) => check(false, "a file that cannot be used is ignored"),
        Err(e) => {
            note(&e);
            check(e.contains(named), "the error does not name the file that cannot be used")
        }
    }
    cover("rejected");
}
/// no location: not ignored either
fn nowhere() {
    let (_, attrs, ds) = SPLIT[choose(3)];
    let inc = ["<xs:include/>", "<xs:import/>", "<xs:import namespace=\"urn:m\"/>", "<xs:include schemalocation=\"q2.xsd\"/>", "<xs:include xs:schemaLocation=\"q2.xsd\"/>"][choose(5)];
    let x = file(attrs, &format!("{inc}{}", ds[choose(ds.len())]));
    note(&x);
    match go(&x) {
        Ok(_) => check(false, "an include or import without a location is ignored"),
        Err(e) => check(e.contains("schemaLocation") && e.contains("main.xsd"), "the error does not say what is missing where"),
    }
    cover("rejected");
}
harness! {
    direct => splits(0, true, 0); direct_u => splits(1, false, 0); direct_n => splits(2, false, 0); ways => splits(choose(3), false, 1 + choose(5));
    cham => chameleon();
    files => from_file(); bad => unusable(); noloc => nowhere();
    tg_inc => crate::gridfns::trips(crate::g_inc::CASES, 3); rg_inc => crate::gridfns::rejected(crate::g_inc::CASES, 2); tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 2);
    x_splits => splits(choose(3), true, choose(6)); x_tg_inc => crate::gridfns::trips(crate::g_inc::CASES, 5); x_rg_inc => crate::gridfns::rejected(crate::g_inc::CASES, 4); x_tg_ns => crate::gridfns::trips(crate::g_ns::CASES, 6); x_sg_inc => crate::gridfns::styled(crate::g_inc::CASES, 3);
}
