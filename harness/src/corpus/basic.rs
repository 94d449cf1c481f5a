use vph::*;
#[xsd::all(schema = "schemas/seq.xsd")]
pub mod seq_m {}
#[xsd::all(schema = "schemas/attrs.xsd")]
pub mod attrs_m {}
#[xsd::all(schema = "schemas/nested.xsd")]
pub mod nested_m {}
#[xsd::all(schema = "schemas/named.xsd")]
pub mod named_m {}
#[xsd::all(schema = "schemas/words.xsd")]
pub mod words_m {}
#[xsd::all(schema = "schemas/coll.xsd")]
pub mod coll_m {}
#[xsd::all(schema = "schemas/empty.xsd")]
pub mod empty_m {}
docs!(seq_m::Root, attrs_m::Item, nested_m::Lib, named_m::Order, named_m::Parcel, words_m::TypeName, coll_m::Trace, empty_m::Hold);

/// items of a repeated element: none of them is required on its own, unless it is the only one
pub fn items(name: &'static str, ts: &[T], min1: bool) -> Vec<El> {
    let only = min1 && ts.len() == 1;
    ts.iter().map(|t| if only { leaf(name, t) } else { leaf(name, t).opt() }).collect()
}
pub fn one_req(mut es: Vec<El>, min1: bool) -> Vec<El> {
    let only = min1 && es.len() == 1;
    for e in &mut es {
        e.req = only;
    }
    es
}
pub fn some_vec<X>(v: Vec<X>) -> Option<Vec<X>> {
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

fn seq_n(nc: usize, nd: usize) -> (seq_m::Root, El) {
    let a = txt();
    let b = maybe(digit);
    let c = many(1, nc, txt);
    let d = many(0, nd, boolean);
    let e = txt();
    let dt: Vec<T> = d.iter().map(|d| d.0.clone()).collect();
    let x = el("root")
        .c(leaf("a", &a))
        .co(b.as_ref().map(|b| leaf("b", &b.0)))
        .cs(items("c", &c, true))
        .cs(items("d", &dt, false))
        .c(leaf("e", &e));
    let v = seq_m::Root { a: s(&a), b: b.map(|b| b.1 as i32), c: c.iter().map(s).collect(), d: some_vec(d.iter().map(|d| d.1).collect()), e: s(&e) };
    (v, x)
}
pub fn seq() -> (seq_m::Root, El) {
    seq_n(2, 2)
}
pub fn seq_many() -> (seq_m::Root, El) {
    seq_n(5, 1)
}

pub fn attrs() -> (attrs_m::Item, El) {
    use attrs_m::*;
    let body = txt();
    let id = digit();
    let title = maybe(txt);
    let flag = maybe(boolean);
    let levels = [("low", Level::Low), ("high", Level::High)];
    let level = en(&levels);
    let other = maybe(|| en(&levels));
    let lang = maybe(txt);
    let mode = maybe(|| en(&[("on", ItemModeData::On), ("off", ItemModeData::Off)]));
    let code = maybe(digit);
    let x = el("item")
        .c(leaf("body", &body))
        .a("id", &id.0)
        .ao("title", &title)
        .ao("flag", &flag.as_ref().map(|f| f.0.clone()))
        .a("level", &level.0)
        .ao("other", &other.as_ref().map(|f| f.0.clone()))
        .ao("lang", &lang)
        .ao("mode", &mode.as_ref().map(|f| f.0.clone()))
        .ao("code", &code.as_ref().map(|f| f.0.clone()));
    let v = Item {
        body: s(&body),
        sub: None,
        id: id.1 as i64,
        title: title.as_ref().map(s),
        flag: flag.map(|f| f.1),
        level: level.1,
        other: other.map(|o| o.1),
        lang: lang.as_ref().map(s),
        mode: mode.map(|m| m.1),
        code: code.map(|c| c.1 as i32),
    };
    (v, x)
}
pub fn attrs_sub() -> (attrs_m::Item, El) {
    use attrs_m::*;
    let (body, id) = (txt(), digit());
    let sub = maybe(|| (digit(), maybe(txt)));
    let x = el("item")
        .c(leaf("body", &body))
        .co(sub.as_ref().map(|(d, y)| el("sub").a("x", &d.0).ao("y", y)))
        .a("id", &id.0)
        .a("level", &tx("low", K::Enum));
    let v = Item {
        body: s(&body),
        sub: sub.map(|(d, y)| ItemSubData { x: d.1 as i32, y: y.as_ref().map(s) }),
        id: id.1 as i64,
        title: None,
        flag: None,
        level: Level::Low,
        other: None,
        lang: None,
        mode: None,
        code: None,
    };
    (v, x)
}

fn nested_n(n: usize, depth: bool) -> (nested_m::Lib, El) {
    use nested_m::*;
    let shelves = many(0, n, || {
        let no = digit();
        let label = txt();
        let book = if depth { maybe(|| (txt(), txt(), maybe(txt))) } else { None };
        let x = el("shelf")
            .co(book.as_ref().map(|(isbn, title, note)| el("book").c(leaf("title", title)).co(note.as_ref().map(|n| leaf("note", n))).a("isbn", isbn)))
            .c(leaf("label", &label))
            .a("no", &no.0)
            .opt();
        let v = LibShelfData { book: book.map(|(i, t, n)| LibShelfDataBookData { title: s(&t), note: n.as_ref().map(s), isbn: s(&i) }), label: s(&label), no: no.1 as i32 };
        (v, x)
    });
    let name = txt();
    let x = el("lib").cs(shelves.iter().map(|x| x.1.clone()).collect()).c(el("owner").c(leaf("name", &name)));
    (Lib { shelf: some_vec(shelves.into_iter().map(|x| x.0).collect()), owner: LibOwnerData { name: s(&name) } }, x)
}
pub fn nested() -> (nested_m::Lib, El) {
    nested_n(3, false)
}
pub fn nested_book() -> (nested_m::Lib, El) {
    nested_n(2, true)
}

fn address() -> (named_m::Address, El) {
    let (street, zip, country) = (txt(), txt(), maybe(txt));
    (named_m::Address { street: s(&street), zip: s(&zip), country: country.as_ref().map(s) }, el("address").c(leaf("street", &street)).c(leaf("zip", &zip)).ao("country", &country))
}
fn renamed(mut e: El, n: &'static str) -> El {
    e.name = n;
    e
}
pub fn named() -> (named_m::Order, El) {
    use named_m::*;
    let b = address();
    let sh = maybe(address);
    let c = maybe(txt);
    let it = many(1, 2, || (txt(), digit()));
    let x = el("order")
        .c(renamed(b.1, "billTo"))
        .co(sh.as_ref().map(|a| renamed(a.1.clone(), "shipTo")))
        .co(c.as_ref().map(|c| leaf("comment", c)))
        .cs(one_req(it.iter().map(|(k, q)| el("item").c(leaf("sku", k)).c(leaf("qty", &q.0))).collect(), true));
    let v = Order {
        bill_to: b.0,
        ship_to: sh.map(|a| a.0),
        comment: c.as_ref().map(s),
        item: it.iter().map(|(k, q)| Item { sku: s(k), qty: q.1 as u64 }).collect(),
    };
    (v, x)
}
pub fn parcel() -> (named_m::Parcel, El) {
    let (v, x) = address();
    (named_m::Parcel(v), renamed(x, "parcel"))
}
pub fn words() -> (words_m::TypeName, El) {
    let t = txt();
    let o: Vec<Option<T>> = (0..7).map(|_| maybe(txt)).collect();
    let (r, y) = match choose(3) { 0 => (None, None), 1 => (Some(txt()), None), _ => (None, Some(txt())) };
    let lf = |i: usize, n: &'static str| o[i].as_ref().map(|t| leaf(n, t));
    let x = el("typeName")
        .c(leaf("type", &t))
        .co(lf(0, "match"))
        .co(lf(1, "break"))
        .co(lf(2, "self"))
        .co(lf(3, "camelCaseName"))
        .co(lf(4, "kebab-name"))
        .co(lf(5, "UPPER"))
        .co(lf(6, "x1"))
        .ao("ref", &r)
        .ao("yield", &y);
    let g = |i: usize| o[i].as_ref().map(s);
    let v = words_m::TypeName { r#type: s(&t), r#match: g(0), r#break: g(1), self_: g(2), camel_case_name: g(3), kebab_name: g(4), upper: g(5), x_1: g(6), r#ref: r.as_ref().map(s), r#yield: y.as_ref().map(s) };
    (v, x)
}
pub fn coll() -> (coll_m::Trace, El) {
    use coll_m::*;
    let fs = [("1.5", 1.5f32), ("0", 0.0), ("-2", -2.0)];
    let f = || {
        let i = choose(fs.len());
        (tx(fs[i].0, K::Num), fs[i].1)
    };
    let ps = many(1, 2, || (f(), f()));
    let x = el("trace").cs(one_req(ps.iter().map(|(x, y)| el("point").c(leaf("x", &x.0)).c(leaf("y", &y.0))).collect(), true));
    (Trace(Path { point: ps.iter().map(|(x, y)| PathPoint { point: PathPointData { x: x.1, y: y.1 } }).collect() }), x)
}
pub fn empty() -> (empty_m::Hold, El) {
    use empty_m::*;
    let (v, n) = (flip(), flip());
    let a = maybe(|| if flip() { txt() } else { tx("", K::Str) });
    let x = el("hold").co(v.then(|| el("void"))).co(a.as_ref().map(|a| leaf("any", a))).co(n.then(|| el("nil")));
    (Hold { void: v.then(|| Void {}), any: a.as_ref().map(s), nil: n.then(|| HoldNilData {}) }, x)
}
