//! What is checked of every schema of a grid family.
#![allow(dead_code)]
use crate::corpus::*;
use vph::gen::*;
use vph::*;
pub struct Case {
    pub name: &'static str,
    pub trip: fn(usize),
    pub rejects: fn(usize),
    pub styles: fn(usize),
    pub causes: fn(usize),
    pub orders: fn(usize),
}
macro_rules! case {
    ($n:literal, $t:ty, $($f:literal),*) => {
        $crate::gridfns::Case {
            name: $n,
            trip: |left| $crate::gridfns::trip::<$t>(&[$(include_str!($f)),*], left),
            rejects: |left| $crate::gridfns::rejects::<$t>(&[$(include_str!($f)),*], left),
            styles: |left| $crate::gridfns::styles::<$t>(&[$(include_str!($f)),*], left),
            causes: |left| $crate::gridfns::causes::<$t>(&[$(include_str!($f)),*], left),
            orders: |left| $crate::gridfns::orders::<$t>(&[$(include_str!($f)),*], left),
        }
    };
}
macro_rules! family {
    ($($t:ty),*) => { docs!($($t),*); };
}
/// A valid document decodes; what was decoded encodes to the same document, and that decodes to the same value.
pub fn trip<D: Doc>(files: &[&str], left: usize) {
    let s = Set::new(files, left);
    let e = s.document("r");
    let x = plain(&e);
    note(&x);
    match D::dec(&x) {
        Err(err) => {
            note(&err.to_string());
            check(false, "from_xml rejects a valid document")
        }
        Ok(v) => {
            let x = encodes(&v, &e);
            decodes(&v, &x);
        }
    }
    cover("kept");
}
/// Whether the change may leave the document valid: a sibling of the same name that can take the place of the
/// removed one, or another value of an enumeration.
fn still_valid(files: &[&str], whole: &El, now: &El, path: &[usize], f: F) -> bool {
    let at = |e: &El, path: &[usize]| path.iter().fold(e.clone(), |e, i| e.kids[*i].clone());
    let value = match f {
        F::Drop | F::Rename | F::WrongNs => {
            let Some((l, head)) = path.split_last() else { return false };
            let p = at(whole, head);
            return p.kids.iter().enumerate().any(|(i, k)| i != *l && k.name == p.kids[*l].name);
        }
        F::Text => match at(now, path).text {
            Some((t, K::Enum)) => t,
            _ => return false,
        },
        F::Attr(i) => match &at(now, path).attrs[i] {
            a if a.kind == K::Enum => a.val.clone(),
            _ => return false,
        },
        _ => return false,
    };
    files.iter().any(|f| roxmltree::Document::parse(f).unwrap().descendants().any(|n| n.has_tag_name(("http://www.w3.org/2001/XMLSchema", "enumeration")) && n.attribute("value") == Some(&value)))
}
pub fn rejects<D: Doc>(files: &[&str], left: usize) {
    let s = Set::new(files, left);
    let mut e = s.document("r");
    let whole = e.clone();
    let Some((path, f)) = break_one_at(&mut e) else {
        return cover("nothing to break");
    };
    if still_valid(files, &whole, &e, &path, f) {
        return cover("still valid");
    }
    let x = plain(&e);
    note(&x);
    check(D::dec(&x).is_err(), "from_xml accepts an invalid document");
    cover("rejected");
}
/// how the document is written does not matter
pub fn styles<D: Doc>(files: &[&str], left: usize) {
    let s = Set::new(files, left);
    let e = s.document("r");
    let mut st = Style { ns: 1, ..Default::default() };
    match choose(4) {
        0 => (st.ns, st.ws, st.noise) = (0, true, true),
        1 => (st.text_noise, st.quotes, st.cdata) = (true, true, true),
        2 => (st.refs, st.decl, st.long_empty) = (true, true, true),
        _ => st = Style { ns: 2, ws: true, noise: true, text_noise: true, quotes: true, decl: true, long_empty: true, ..st },
    }
    let x = write(&e, st);
    note(&x);
    let (a, b) = (D::dec(&plain(&e)), D::dec(&x));
    check(matches!((&a, &b), (Ok(a), Ok(b)) if a == b), "another presentation decodes to another value");
    cover("same");
}
/// the error for a broken document names the cause
pub fn causes<D: Doc>(files: &[&str], left: usize) {
    let s = Set::new(files, left);
    let mut e = s.document("r");
    let before = e.clone();
    let Some((path, f)) = break_one_at(&mut e) else { return cover("nothing to break") };
    let at = |e: &El| path.iter().fold(e.clone(), |e, i| e.kids[*i].clone());
    let b = at(&before);
    let doc = plain(&e);
    note(&doc);
    let Err(err) = D::dec(&doc) else { return cover("accepted") };
    let m = err.to_string();
    note(&m);
    let has = |s: &str| check(m.contains(s), "the error does not name the cause");
    match f {
        // a missing alternative of a choice is reported with the name of the choice
        F::Drop | F::Rename | F::WrongNs if m.contains("variant") => {}
        F::Drop | F::Rename | F::WrongNs => has(b.name),
        F::DropAttr(i) | F::RenameAttr(i) => has(b.attrs[i].name),
        F::Text => has(&at(&e).text.unwrap().0),
        F::Attr(i) => has(&at(&e).attrs[i].val),
    }
    cover("named");
}
fn shuffle(e: &mut El) {
    e.kids.iter_mut().for_each(shuffle);
    let n = e.kids.len();
    if e.kids.iter().enumerate().any(|(i, k)| e.kids[..i].iter().any(|o| o.name == k.name)) {
        return; // repeated elements are no members of an xs:all
    }
    for i in 0..n {
        let j = i + choose(n - i);
        e.kids.swap(i, j);
    }
}
/// the members of an xs:all in another order
pub fn orders<D: Doc>(files: &[&str], left: usize) {
    let s = Set::new(files, left);
    let mut e = s.document("r");
    let a = D::dec(&plain(&e));
    shuffle(&mut e);
    let broken = left == 0 && break_one(&mut e).is_some();
    let x = plain(&e);
    note(&x);
    let b = D::dec(&x);
    if broken {
        check(b.is_err(), "an invalid document is accepted in this order");
        return cover("rejected");
    }
    check(matches!((&a, &b), (Ok(a), Ok(b)) if a == b), "the order of the members of an xs:all matters");
    cover("same");
}
fn case(cs: &[Case]) -> &Case {
    let c = &cs[choose(cs.len())];
    note(c.name);
    c
}
pub fn trips(cs: &[Case], left: usize) {
    (case(cs).trip)(left)
}
pub fn rejected(cs: &[Case], left: usize) {
    (case(cs).rejects)(left)
}
pub fn styled(cs: &[Case], left: usize) {
    (case(cs).styles)(left)
}
pub fn caused(cs: &[Case], left: usize) {
    (case(cs).causes)(left)
}
pub fn ordered(cs: &[Case], left: usize) {
    (case(cs).orders)(left)
}
