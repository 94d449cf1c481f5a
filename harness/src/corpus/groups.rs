use super::basic::some_vec;
use vph::*;
#[xsd::all(schema = "schemas/groups.xsd")]
pub mod groups_m {}
#[xsd::all(schema = "schemas/groups2.xsd")]
pub mod groups2_m {}
#[xsd::all(schema = "schemas/groups3.xsd")]
pub mod groups3_m {}
docs!(groups_m::G, groups2_m::H, groups3_m::K);

fn groups_n(a: usize, b: usize) -> (groups_m::G, El) {
    use groups_m::*;
    let o = maybe(|| (txt(), digit()));
    let ks = many(1, a, || (txt(), maybe(digit)));
    let ms = many(0, b, || (maybe(txt), digit()));
    let xo = match &o {
        None => el("opt"),
        // without x the whole group counts as absent; x is not required on its own
        Some((x, y)) => el("opt").c(leaf("x", x).opt()).c(leaf("y", &y.0)),
    };
    let mut xr = el("rep");
    let n = ks.len();
    for (k, v) in &ks {
        xr = xr.c(if n == 1 { leaf("k", k) } else { leaf("k", k).opt() }).co(v.as_ref().map(|v| leaf("v", &v.0)));
    }
    let mut xm = el("optRep");
    for (m, n) in &ms {
        xm = xm.co(m.as_ref().map(|m| leaf("m", m))).c(leaf("n", &n.0).opt());
    }
    let v = G {
        opt: Opt { xy: o.map(|(x, y)| OptXY { x: s(&x), y: y.1 as i32 }) },
        rep: Rep { kv: ks.iter().map(|(k, v)| RepKV { k: s(k), v: v.as_ref().map(|v| v.1 as i32) }).collect() },
        opt_rep: OptRep { mn: some_vec(ms.iter().map(|(m, n)| OptRepMN { m: m.as_ref().map(s), n: n.1 as i32 }).collect()) },
    };
    (v, el("g").c(xo).c(xr).c(xm))
}
pub fn groups() -> (groups_m::G, El) {
    groups_n(2, 2)
}
pub fn groups_rep() -> (groups_m::G, El) {
    groups_n(3, 1)
}
pub fn groups2() -> (groups2_m::H, El) {
    use groups2_m::*;
    let (p, q, r) = (txt(), txt(), maybe(digit));
    let g = maybe(|| {
        let (t, u) = (maybe(txt), digit());
        let (w, xw) = if flip() {
            let t = txt();
            (Hwz::W(s(&t)), leaf("w", &t))
        } else {
            let d = digit();
            (Hwz::Z(d.1 as i32), leaf("z", &d.0))
        };
        (t, u, w, xw)
    });
    let l = txt();
    let mut x = el("h").c(leaf("p", &p)).c(leaf("q", &q)).co(r.as_ref().map(|r| leaf("r", &r.0)));
    if let Some((t, u, _, xw)) = &g {
        x = x.co(t.as_ref().map(|t| leaf("t", t))).c(leaf("u", &u.0)).c(xw.clone());
    }
    let x = x.c(leaf("last", &l));
    let v = H {
        p: s(&p),
        qr: Hqr { q: s(&q), r: r.map(|r| r.1 as i32) },
        tuwz: g.map(|(t, u, w, _)| Htuwz { t: t.as_ref().map(s), u: u.1 as i32, wz: w }),
        last: s(&l),
    };
    (v, x)
}
pub fn groups3() -> (groups3_m::K, El) {
    use groups3_m::*;
    let mut x = el("k");
    let g = maybe(|| {
        let a = txt();
        let bc = maybe(|| (txt(), many(0, 1, txt)));
        let d = maybe(txt);
        (a, bc, d)
    });
    if let Some((a, bc, d)) = &g {
        x = x.c(leaf("a", a).opt());
        if let Some((b, c)) = bc {
            x = x.c(leaf("b", b).opt()).cs(super::basic::items("c", c, false));
        }
        x = x.co(d.as_ref().map(|d| leaf("d", d)));
    }
    let es = many(0, 2, || {
        let n = digit();
        if flip() {
            let e = maybe(txt);
            let mut xs: Vec<El> = e.iter().map(|e| leaf("e", e).opt()).collect();
            xs.push(if e.is_some() { leaf("f", &n.0) } else { leaf("f", &n.0).opt() });
            (Kefg::Ef(Kefvariant { e: e.as_ref().map(s), f: n.1 as i32 }), xs)
        } else {
            (Kefg::G(n.1 as i32), vec![leaf("g", &n.0).opt()])
        }
    });
    for (i, e) in es.iter().enumerate() {
        let mut xs = e.1.clone();
        // without its `f`, an `e` may go with the `f` of the next occurrence
        if i + 1 < es.len() {
            xs.iter_mut().for_each(|x| x.req = false);
        }
        x = x.cs(xs);
    }
    let h = maybe(txt);
    let n = maybe(digit);
    x = x.co(h.as_ref().map(|h| leaf("h", h))).ao("n", &n.as_ref().map(|n| n.0.clone()));
    let v = K {
        abcd: g.map(|(a, bc, d)| Kabcd { a: s(&a), bc: bc.map(|(b, c)| Kbc { b: s(&b), c: some_vec(c.iter().map(s).collect()) }), d: d.as_ref().map(s) }),
        efg: some_vec(es.into_iter().map(|e| e.0).collect()),
        h: h.as_ref().map(s),
        n: n.map(|n| n.1 as i32),
    };
    (v, x)
}
