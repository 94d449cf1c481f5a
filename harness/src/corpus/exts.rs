use vph::*;
#[xsd::all(schema = "schemas/ext.xsd")]
pub mod ext_m {}
#[xsd::all(schema = "schemas/ext_base_attr.xsd")]
pub mod eba_m {}
docs!(ext_m::All, eba_m::Auto, eba_m::Fleet);
use ext_m::*;

fn tagged() -> (AllAttrOnlyData, El) {
    let (tag, id, role) = (txt(), digit(), maybe(txt));
    (AllAttrOnlyData { tagged: Tagged { tag: s(&tag), id: id.1 as i64 }, role: role.as_ref().map(s) }, el("attrOnly").c(leaf("tag", &tag)).a("id", &id.0).ao("role", &role))
}
fn with_seq() -> (AllWithSeqData, El) {
    let (name, age, extra, more, k) = (txt(), maybe(digit), txt(), maybe(digit), txt());
    (
        AllWithSeqData { base: Person { name: s(&name), age: age.as_ref().map(|a| a.1 as i32) }, person: AllWithSeqDataPerson { extra: s(&extra), more: more.as_ref().map(|a| a.1 as i32) }, k: s(&k) },
        el("withSeq").c(leaf("name", &name)).co(age.map(|a| leaf("age", &a.0))).c(leaf("extra", &extra)).co(more.map(|a| leaf("more", &a.0))).a("k", &k),
    )
}
fn opt_seq() -> (AllOptSeqData, El) {
    let (name, age, z) = (txt(), maybe(digit), maybe(txt));
    (
        AllOptSeqData { base: Person { name: s(&name), age: age.as_ref().map(|a| a.1 as i32) }, person: z.as_ref().map(|z| AllOptSeqDataPerson { z: s(z) }) },
        el("optSeq").c(leaf("name", &name)).co(age.map(|a| leaf("age", &a.0))).co(z.map(|z| leaf("z", &z))),
    )
}
fn price(n: &'static str) -> (Price, El) {
    let (p, c) = (digit(), txt());
    (Price { price: p.1 as i32, cur: s(&c) }, leaf(n, &p.0).a("cur", &c))
}
fn min_attr() -> (AllAttrOnlyData, El) {
    let (tag, id) = (txt(), digit());
    (AllAttrOnlyData { tagged: Tagged { tag: s(&tag), id: id.1 as i64 }, role: None }, el("attrOnly").c(leaf("tag", &tag)).a("id", &id.0))
}
fn min_seq() -> (AllWithSeqData, El) {
    let (name, extra, k) = (txt(), txt(), txt());
    (AllWithSeqData { base: Person { name: s(&name), age: None }, person: AllWithSeqDataPerson { extra: s(&extra), more: None }, k: s(&k) }, el("withSeq").c(leaf("name", &name)).c(leaf("extra", &extra)).a("k", &k))
}
fn mk(a: (AllAttrOnlyData, El), w: (AllWithSeqData, El), o: Option<(AllOptSeqData, El)>, p: (Price, El), sale: Option<(AllSaleData, El)>) -> (All, El) {
    let x = el("all").c(a.1).c(w.1).co(o.as_ref().map(|o| o.1.clone())).c(p.1).co(sale.as_ref().map(|o| o.1.clone()));
    (All { attr_only: a.0, with_seq: w.0, opt_seq: o.map(|o| o.0), price: p.0, sale: sale.map(|x| x.0) }, x)
}
pub fn ext_attr() -> (All, El) {
    let o = maybe(opt_seq);
    mk(tagged(), min_seq(), o, price("price"), None)
}
pub fn ext_seq() -> (All, El) {
    mk(min_attr(), with_seq(), None, price("price"), None)
}
pub fn ext_simple() -> (All, El) {
    let sale = maybe(|| {
        let (v, x) = price("sale");
        let off = maybe(digit);
        (AllSaleData { price: v, off: off.as_ref().map(|o| o.1 as i32) }, x.ao("off", &off.map(|o| o.0)))
    });
    mk(min_attr(), min_seq(), None, price("price"), sale)
}

fn car(n: &'static str) -> (eba_m::Car, El) {
    use eba_m::*;
    let (label, id, rank, wheels, brand) = (maybe(txt), digit(), maybe(txt), digit(), txt());
    (
        Car { base: Thing { label: label.as_ref().map(s), id: id.1 as i32, rank: rank.as_ref().map(s) }, thing: CarThing { wheels: wheels.1 as i32 }, brand: s(&brand) },
        el(n).co(label.map(|l| leaf("label", &l))).c(leaf("wheels", &wheels.0)).a("id", &id.0).ao("rank", &rank).a("brand", &brand),
    )
}
pub fn ext_base_attr() -> (eba_m::Auto, El) {
    let (v, x) = car("auto");
    (eba_m::Auto(v), x)
}
pub fn ext_chain() -> (eba_m::Fleet, El) {
    use eba_m::*;
    let van = maybe(|| {
        let (v, x) = car("van");
        let l = maybe(digit);
        (Van { base: v, car: l.as_ref().map(|l| VanCar { load: l.1 as i32 }) }, x.co(l.map(|l| leaf("load", &l.0))))
    });
    let (b, xb) = car("bus");
    let seats = maybe(digit);
    let x = el("fleet").co(van.as_ref().map(|v| v.1.clone())).c(xb.ao("seats", &seats.as_ref().map(|s| s.0.clone())));
    (Fleet { van: van.map(|v| v.0), bus: Bus { car: b, seats: seats.map(|s| s.1 as i32) } }, x)
}
