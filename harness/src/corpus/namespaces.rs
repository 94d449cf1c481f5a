use super::basic::{items, some_vec};
use vph::*;
#[xsd::all(schema = "schemas/ns_q.xsd")]
pub mod q_m {}
#[xsd::all(schema = "schemas/ns_u.xsd")]
pub mod u_m {}
#[xsd::all(schema = "schemas/imp.xsd")]
pub mod imp_m {}
#[xsd::all(schema = "schemas/imp_u.xsd")]
pub mod imp_u_m {}
#[xsd::all(schema = "schemas/inc.xsd")]
pub mod inc_m {}
#[xsd::all(schema = "schemas/same.xsd")]
pub mod same_m {}
#[xsd::all(schema = "schemas/cyc.xsd")]
pub mod cyc_m {}
docs!(q_m::Doc, q_m::Top, u_m::Doc, u_m::Top, imp_m::Main, imp_u_m::Main, inc_m::M, same_m::Letter, cyc_m::Root);

macro_rules! ns_doc {
    ($f:ident, $m:ident, $loc:expr) => {
        pub fn $f() -> ($m::Doc, El) {
            use $m::*;
            // namespace of top-level elements, and of local ones
            let (g, l) = ("urn:t", $loc);
            let part = |n: &'static str| {
                let (no, at) = (digit(), maybe(txt));
                (Part { no: no.1 as i32, at: at.as_ref().map(s) }, el(n).ns1(l).c(leaf("no", &no.0).ns1(l)).ao("at", &at))
            };
            let p = part("p");
            let st = maybe(|| en(&[("on", St::On), ("off", St::Off)]));
            let top = maybe(txt);
            let lr = maybe(|| {
                if flip() {
                    let t = txt();
                    (DocLR::L(s(&t)), leaf("l", &t).ns1(l))
                } else {
                    let p = part("r");
                    (DocLR::R(p.0), p.1)
                }
            });
            let vs = many(0, 2, txt);
            let deep = txt();
            let vx: Vec<El> = items("v", &vs, false).into_iter().map(|e| e.ns1(l)).collect();
            let x = el("doc")
                .ns1(g)
                .c(p.1)
                .co(st.as_ref().map(|e| leaf("s", &e.0).ns1(l)))
                .co(top.as_ref().map(|t| leaf("top", t).ns1(g)))
                .co(lr.as_ref().map(|x| x.1.clone()))
                .cs(vx)
                .c(el("in").ns1(l).c(leaf("deep", &deep).ns1(l)));
            let v = Doc { p: p.0, s: st.map(|e| e.1), top: top.as_ref().map(s), lr: lr.map(|x| x.0), v: some_vec(vs.iter().map(s).collect()), r#in: DocInData { deep: s(&deep) } };
            (v, x)
        }
    };
}
ns_doc!(ns_q, q_m, "urn:t");
ns_doc!(ns_u, u_m, "");
pub fn ns_top_q() -> (q_m::Top, El) {
    let t = txt();
    (q_m::Top(s(&t)), leaf("top", &t).ns("urn:t"))
}
pub fn ns_top_u() -> (u_m::Top, El) {
    let t = txt();
    (u_m::Top(s(&t)), leaf("top", &t).ns("urn:t"))
}

macro_rules! kit {
    ($f:ident, $m:ident, $ns:expr) => {
        /// a `kit` element in the given namespace, with the content of the imported type
        fn $f(full: bool) -> ($m::Kit, El) {
            use $m::*;
            let b = "urn:base";
            let w = digit();
            let (lid, hc, id) = if full {
                let lid = maybe(txt);
                let hc = maybe(|| {
                    if flip() {
                        let t = txt();
                        (KitHotCold::Hot(s(&t)), leaf("hot", &t).ns1(b))
                    } else {
                        let d = digit();
                        (KitHotCold::Cold(Temp { deg: d.1 as i32 }), el("cold").ns1(b).a("deg", &d.0))
                    }
                });
                (lid, hc, maybe(txt))
            } else {
                (None, None, None)
            };
            let x = el("kit")
                .ns1($ns)
                .c(leaf("w", &w.0).ns1(b))
                .co(lid.as_ref().map(|t| el("lid").ns1(b).c(leaf("c", t).ns1(b))))
                .co(hc.as_ref().map(|h| h.1.clone()))
                .ao("id", &id);
            (Kit { w: w.1 as i32, lid: lid.as_ref().map(|t| KitLidData { c: s(t) }), hot_cold: hc.map(|h| h.0), id: id.as_ref().map(s) }, x)
        }
    };
}
kit!(kit_q, imp_m, "urn:main");
kit!(kit_u, imp_u_m, "");
fn imp_n(full: bool) -> (imp_m::Main, El) {
    use imp_m::*;
    let m = "urn:main";
    let k = kit_q(full);
    let (cap, loc, own) = if full { (None, None, None) } else { (maybe(txt), maybe(|| (digit(), digit())), maybe(txt)) };
    let x = el("main")
        .ns1(m)
        .c(k.1)
        .co(cap.as_ref().map(|t| leaf("cap", t).ns1("urn:base")))
        .co(loc.as_ref().map(|l| el("loc").c(leaf("x", &l.0 .0)).c(leaf("y", &l.1 .0)).ns(m)))
        .co(own.as_ref().map(|t| leaf("own", t).ns1(m)));
    (Main { kit: k.0, cap: cap.as_ref().map(s), loc: loc.map(|l| Loc { x: l.0 .1 as i32, y: l.1 .1 as i32 }), own: own.as_ref().map(s) }, x)
}
pub fn imp() -> (imp_m::Main, El) {
    imp_n(false)
}
pub fn imp_kit() -> (imp_m::Main, El) {
    imp_n(true)
}
pub fn imp_u() -> (imp_u_m::Main, El) {
    use imp_u_m::*;
    let m = "urn:um";
    let k = kit_u(true);
    let cap = maybe(txt);
    let o = maybe(|| {
        let t = txt();
        if flip() {
            (MainO::Own(s(&t)), leaf("own", &t).ns1(m))
        } else {
            (MainO::Other(s(&t)), leaf("other", &t))
        }
    });
    let x = el("main").ns1(m).c(k.1).co(cap.as_ref().map(|t| leaf("cap", t).ns1("urn:base"))).co(o.as_ref().map(|o| o.1.clone()));
    (Main { kit: k.0, cap: cap.as_ref().map(s), o: o.map(|o| o.0) }, x)
}
pub fn inc() -> (inc_m::M, El) {
    use inc_m::*;
    let (a, b) = (txt(), maybe(digit));
    let x = el("m").c(el("a").c(leaf("x", &a))).co(b.as_ref().map(|b| el("b").c(leaf("y", &b.0))));
    (M { a: A { x: s(&a) }, b: b.map(|b| B { y: b.1 as i32 }) }, x)
}
pub fn same() -> (same_m::Letter, El) {
    use same_m::*;
    let addr = |n: &'static str| {
        let (t, k) = (txt(), maybe(txt));
        (Address { street: s(&t), k: k.as_ref().map(s) }, el(n).c(leaf("street", &t)).ao("k", &k))
    };
    let a = addr("address");
    let f = maybe(|| addr("from"));
    let x = el("letter").c(a.1).co(f.as_ref().map(|f| f.1.clone())).ns("urn:same");
    (Letter { address: a.0, from: f.map(|f| f.0) }, x)
}
pub fn cyc() -> (cyc_m::Root, El) {
    use cyc_m::*;
    let t = txt();
    (Root { b: Cb { a: Ca { x: s(&t) } } }, el("root").c(el("b").c(el("a").c(leaf("x", &t)))))
}
