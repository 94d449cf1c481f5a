//! Symbolic bit-vector expressions. Leaves are symbolic input bytes (8-bit variables).
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub type E = Arc<Expr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

pub enum K {
    Const(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(u16, E),
    Concat(E, E),
    /// table lookup on an 8-bit index
    Lut(E, Arc<Vec<u128>>),
}

#[derive(Clone)]
pub enum Sup { None, One(u32), Many(Arc<Vec<u32>>) }

pub struct Expr {
    pub k: K,
    pub w: u16,
    pub h: u128,
    pub n: u64,
    pub sup: Sup,
    pub id: u64,
}

static NEXT: AtomicU64 = AtomicU64::new(1);

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
fn sx(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
fn mix2(a: u128, b: u128) -> u128 {
    let lo = mix(mix(a as u64, b as u64), (b >> 64) as u64 ^ 0x1234567);
    let hi = mix(mix((a >> 64) as u64 ^ 0xABCDEF, (b >> 64) as u64), (b as u64).rotate_left(7));
    ((hi as u128) << 64) | lo as u128
}
pub fn mix_hash(a: u128, b: u128) -> u128 { mix2(a, b) }

fn join(a: &Sup, b: &Sup) -> Sup {
    match (a, b) {
        (Sup::None, x) | (x, Sup::None) => x.clone(),
        (Sup::One(x), Sup::One(y)) => {
            if x == y { Sup::One(*x) } else { Sup::Many(Arc::new(if x < y { vec![*x, *y] } else { vec![*y, *x] })) }
        }
        (Sup::Many(m), Sup::One(x)) | (Sup::One(x), Sup::Many(m)) => {
            if m.binary_search(x).is_ok() { Sup::Many(m.clone()) } else {
                let mut v = (**m).clone();
                let p = v.binary_search(x).unwrap_err();
                v.insert(p, *x);
                Sup::Many(Arc::new(v))
            }
        }
        (Sup::Many(m), Sup::Many(q)) => {
            if Arc::ptr_eq(m, q) { return Sup::Many(m.clone()); }
            let mut v: Vec<u32> = m.iter().chain(q.iter()).copied().collect();
            v.sort_unstable();
            v.dedup();
            if v.len() == m.len() { return Sup::Many(m.clone()); }
            Sup::Many(Arc::new(v))
        }
    }
}

impl Expr {
    pub fn konst(&self) -> Option<u128> { if let K::Const(c) = self.k { Some(c) } else { None } }
    pub fn vars(&self) -> Vec<u32> {
        match &self.sup { Sup::None => vec![], Sup::One(v) => vec![*v], Sup::Many(m) => (**m).clone() }
    }
}

fn mk(k: K, w: u16) -> E {
    let (tag, h, n, sup): (u64, u128, u64, Sup) = match &k {
        K::Const(c) => (1, *c, mix(*c as u64, (*c >> 64) as u64), Sup::None),
        K::Var(v) => (2, *v as u128, 77, Sup::One(*v)),
        K::Bin(o, a, b) => (16 + *o as u64, mix2(a.h, b.h), mix(a.n, b.n), join(&a.sup, &b.sup)),
        K::Cmp(p, a, b) => (48 + *p as u64, mix2(a.h, b.h), mix(a.n, b.n), join(&a.sup, &b.sup)),
        K::Ite(c, a, b) => (3, mix2(mix2(c.h, a.h), b.h), mix(mix(c.n, a.n), b.n), join(&join(&c.sup, &a.sup), &b.sup)),
        K::Zext(a) => (4, a.h, a.n, a.sup.clone()),
        K::Sext(a) => (5, a.h, a.n, a.sup.clone()),
        K::Extract(lo, a) => (6 + ((*lo as u64) << 32), a.h, a.n, a.sup.clone()),
        K::Concat(a, b) => (7, mix2(a.h, b.h), mix(a.n, b.n), join(&a.sup, &b.sup)),
        K::Lut(a, t) => {
            let mut hh = 0u128;
            for x in t.iter() { hh = mix2(hh, *x); }
            (8, mix2(a.h, hh), mix(a.n, mix(hh as u64, (hh >> 64) as u64)), a.sup.clone())
        }
    };
    let t = mix(tag, w as u64);
    let h = mix2(h, ((t as u128) << 64) | t.rotate_left(17) as u128);
    let n = mix(n, t);
    Arc::new(Expr { k, w, h, n, sup, id: NEXT.fetch_add(1, Ordering::Relaxed) })
}

pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || (a.w == b.w && a.h == b.h) }

pub fn konst(v: u128, w: u16) -> E { mk(K::Const(v & mask(w)), w) }
pub fn var(i: u32) -> E { mk(K::Var(i), 8) }
pub fn lut(ix: E, t: Vec<u128>, w: u16) -> E { mk(K::Lut(ix, Arc::new(t)), w) }

pub fn bin_c(o: BinOp, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    (match o {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        BinOp::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
    }) & m
}
pub fn cmp_c(p: Pred, a: u128, b: u128, w: u16) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b,
        Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w), Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w), Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

pub fn bin(o: BinOp, a: E, b: E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) { return konst(bin_c(o, x, y, w), w); }
    let m = mask(w);
    if let Some(y) = b.konst() {
        match o {
            BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if y == 0 => return a,
            BinOp::And if y == 0 => return konst(0, w),
            BinOp::And if y == m => return a,
            BinOp::Or if y == m => return konst(m, w),
            BinOp::Mul if y == 0 => return konst(0, w),
            BinOp::Mul | BinOp::UDiv | BinOp::SDiv if y == 1 => return a,
            BinOp::Shl | BinOp::LShr if y >= w as u128 => return konst(0, w),
            BinOp::Xor if w == 1 => return not(a),
            BinOp::Sub => return bin(BinOp::Add, a, konst(y.wrapping_neg(), w)),
            BinOp::Mul if y.is_power_of_two() => return bin(BinOp::Shl, a, konst(y.trailing_zeros() as u128, w)),
            _ => {}
        }
        if o == BinOp::Add {
            if let K::Bin(BinOp::Add, x, c) = &a.k {
                if let Some(c) = c.konst() { return bin(BinOp::Add, x.clone(), konst(c.wrapping_add(y), w)); }
            }
        }
        if o == BinOp::And {
            if let K::Zext(x) = &a.k {
                if y & mask(x.w) == mask(x.w) { return a; }
                return zext(bin(BinOp::And, x.clone(), konst(y, x.w)), w);
            }
        }
        if let K::Ite(c, x, z) = &a.k {
            if x.konst().is_some() && z.konst().is_some() {
                return ite(c.clone(), bin(o, x.clone(), b.clone()), bin(o, z.clone(), b));
            }
        }
    } else if a.konst().is_some() {
        match o {
            BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor => return bin(o, b, a),
            BinOp::Shl | BinOp::LShr | BinOp::UDiv | BinOp::URem if a.konst() == Some(0) && !matches!(o, BinOp::UDiv | BinOp::URem) => return konst(0, w),
            _ => {}
        }
    }
    if matches!(o, BinOp::And | BinOp::Or | BinOp::Xor) && w > 1 {
        // distribute over concatenations so that conditions stay per input byte
        let split = match (&a.k, &b.k) {
            (K::Concat(_, l), K::Const(_)) | (K::Concat(_, l), K::Concat(..)) | (K::Concat(_, l), K::Zext(_)) => Some(l.w),
            (K::Zext(_), K::Concat(_, l)) => Some(l.w),
            _ => None,
        };
        if let Some(lw) = split {
            let h = bin(o, extract(a.clone(), lw, w - lw), extract(b.clone(), lw, w - lw));
            let l = bin(o, extract(a, 0, lw), extract(b, 0, lw));
            return concat(h, l);
        }
    }
    if same(&a, &b) {
        match o {
            BinOp::Sub | BinOp::Xor => return konst(0, w),
            BinOp::And | BinOp::Or => return a,
            _ => {}
        }
    }
    mk(K::Bin(o, a, b), w)
}

pub fn not(a: E) -> E {
    debug_assert_eq!(a.w, 1);
    match &a.k {
        K::Const(c) => konst(*c ^ 1, 1),
        K::Cmp(p, x, y) => {
            let q = match p {
                Pred::Eq => Pred::Ne, Pred::Ne => Pred::Eq, Pred::Ugt => Pred::Ule, Pred::Uge => Pred::Ult,
                Pred::Ult => Pred::Uge, Pred::Ule => Pred::Ugt, Pred::Sgt => Pred::Sle, Pred::Sge => Pred::Slt,
                Pred::Slt => Pred::Sge, Pred::Sle => Pred::Sgt,
            };
            mk(K::Cmp(q, x.clone(), y.clone()), 1)
        }
        K::Bin(BinOp::Xor, x, y) if y.konst() == Some(1) => x.clone(),
        _ => mk(K::Bin(BinOp::Xor, a.clone(), konst(1, 1)), 1),
    }
}

pub fn cmp(p: Pred, a: E, b: E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) { return konst(cmp_c(p, x, y, w) as u128, 1); }
    if same(&a, &b) {
        return konst(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u128, 1);
    }
    if a.konst().is_some() {
        let q = match p { Pred::Eq => Pred::Eq, Pred::Ne => Pred::Ne, Pred::Ugt => Pred::Ult, Pred::Uge => Pred::Ule,
            Pred::Ult => Pred::Ugt, Pred::Ule => Pred::Uge, Pred::Sgt => Pred::Slt, Pred::Sge => Pred::Sle,
            Pred::Slt => Pred::Sgt, Pred::Sle => Pred::Sge };
        return cmp(q, b, a);
    }
    if let Some(y) = b.konst() {
        if w == 1 {
            match (p, y) { (Pred::Eq, 1) | (Pred::Ne, 0) => return a, (Pred::Eq, 0) | (Pred::Ne, 1) => return not(a), _ => {} }
        }
        match p {
            Pred::Ult if y == 0 => return konst(0, 1),
            Pred::Uge if y == 0 => return konst(1, 1),
            _ => {}
        }
        match &a.k {
            K::Zext(x) => {
                let unsigned = matches!(p, Pred::Eq | Pred::Ne | Pred::Ugt | Pred::Uge | Pred::Ult | Pred::Ule);
                if y <= mask(x.w) && (unsigned || y < (1u128 << (w - 1))) {
                    let q = match p { Pred::Sgt => Pred::Ugt, Pred::Sge => Pred::Uge, Pred::Slt => Pred::Ult, Pred::Sle => Pred::Ule, q => q };
                    return cmp(q, x.clone(), konst(y, x.w));
                }
                if unsigned && y > mask(x.w) {
                    return konst(matches!(p, Pred::Ne | Pred::Ult | Pred::Ule) as u128, 1);
                }
            }
            K::Ite(c, x, z) => {
                if let (Some(xc), Some(zc)) = (x.konst(), z.konst()) {
                    let (t, f) = (cmp_c(p, xc, y, w), cmp_c(p, zc, y, w));
                    return match (t, f) { (true, true) => konst(1, 1), (false, false) => konst(0, 1), (true, false) => c.clone(), (false, true) => not(c.clone()) };
                }
            }
            K::Bin(BinOp::Add, x, c) if matches!(p, Pred::Eq | Pred::Ne) => {
                if let Some(c) = c.konst() { return cmp(p, x.clone(), konst(y.wrapping_sub(c), w)); }
            }
            K::Bin(BinOp::Xor, x, c) if matches!(p, Pred::Eq | Pred::Ne) => {
                if let Some(c) = c.konst() { return cmp(p, x.clone(), konst(y ^ c, w)); }
            }
            K::Concat(hi, lo) if matches!(p, Pred::Eq) => {
                let lw = lo.w;
                let l = cmp(Pred::Eq, lo.clone(), konst(y, lw));
                if l.konst() == Some(0) { return l; }
                let h = cmp(Pred::Eq, hi.clone(), konst(y >> lw, hi.w));
                return and(h, l);
            }
            K::Concat(hi, lo) if matches!(p, Pred::Ne) => {
                let _ = (hi, lo);
                return not(cmp(Pred::Eq, a.clone(), b.clone()));
            }
            _ => {}
        }
    } else if matches!(p, Pred::Eq | Pred::Ne) {
        // split comparisons of concatenations byte-wise: keeps conditions per input byte
        if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (&a.k, &b.k) {
            if l1.w == l2.w {
                let r = and(cmp(Pred::Eq, h1.clone(), h2.clone()), cmp(Pred::Eq, l1.clone(), l2.clone()));
                return if p == Pred::Eq { r } else { not(r) };
            }
        }
        if let (K::Zext(x), K::Zext(y)) = (&a.k, &b.k) {
            if x.w == y.w { return cmp(p, x.clone(), y.clone()); }
        }
    }
    mk(K::Cmp(p, a, b), 1)
}

pub fn and(a: E, b: E) -> E {
    if a.konst() == Some(0) || b.konst() == Some(1) { return a; }
    if b.konst() == Some(0) || a.konst() == Some(1) { return b; }
    bin(BinOp::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    if a.konst() == Some(1) || b.konst() == Some(0) { return a; }
    if b.konst() == Some(1) || a.konst() == Some(0) { return b; }
    bin(BinOp::Or, a, b)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = c.konst() { return if k == 1 { a } else { b }; }
    if same(&a, &b) { return a; }
    if a.w == 1 {
        match (a.konst(), b.konst()) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let w = a.w;
    mk(K::Ite(c, a, b), w)
}

pub fn zext(a: E, w: u16) -> E {
    if a.w == w { return a; }
    debug_assert!(w > a.w);
    match &a.k {
        K::Const(c) => konst(*c, w),
        K::Zext(x) => zext(x.clone(), w),
        _ => mk(K::Zext(a), w),
    }
}
pub fn sext(a: E, w: u16) -> E {
    if a.w == w { return a; }
    match &a.k {
        K::Const(c) => konst(sx(*c, a.w) as u128, w),
        K::Zext(x) => zext(x.clone(), w),
        _ => mk(K::Sext(a), w),
    }
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    if lo == 0 && a.w == w { return a; }
    debug_assert!(lo + w <= a.w);
    match &a.k {
        K::Const(c) => konst(*c >> lo, w),
        K::Zext(x) => {
            if lo >= x.w { konst(0, w) }
            else if lo + w <= x.w { extract(x.clone(), lo, w) }
            else if lo == 0 { zext(x.clone(), w) }
            else { zext(extract(x.clone(), lo, x.w - lo), w) }
        }
        K::Sext(x) if lo + w <= x.w => extract(x.clone(), lo, w),
        K::Extract(l2, x) => extract(x.clone(), lo + l2, w),
        K::Concat(h, l) => {
            if lo + w <= l.w { extract(l.clone(), lo, w) }
            else if lo >= l.w { extract(h.clone(), lo - l.w, w) }
            else { concat(extract(h.clone(), 0, lo + w - l.w), extract(l.clone(), lo, l.w - lo)) }
        }
        K::Ite(c, x, y) if x.konst().is_some() || y.konst().is_some() => ite(c.clone(), extract(x.clone(), lo, w), extract(y.clone(), lo, w)),
        K::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => bin(*o, extract(x.clone(), lo, w), extract(y.clone(), lo, w)),
        K::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => bin(*o, extract(x.clone(), 0, w), extract(y.clone(), 0, w)),
        K::Lut(ix, t) => {
            let m = mask(w);
            lut(ix.clone(), t.iter().map(|v| (v >> lo) & m).collect(), w)
        }
        _ => mk(K::Extract(lo, a.clone()), w),
    }
}
pub fn concat(hi: E, lo: E) -> E {
    let w = hi.w + lo.w;
    if let (Some(a), Some(b)) = (hi.konst(), lo.konst()) { return konst(a << lo.w | b, w); }
    if hi.konst() == Some(0) { return zext(lo, w); }
    // re-join adjacent extracts
    let (hx, hlo) = match &hi.k { K::Extract(l, x) => (x, *l), _ => (&hi, 0) };
    let (lx, llo) = match &lo.k { K::Extract(l, x) => (x, *l), _ => (&lo, 0) };
    if same(hx, lx) && hlo == llo + lo.w && (matches!(hi.k, K::Extract(..))) {
        return extract(lx.clone(), llo, w);
    }
    // concat(a, concat(b, c)) with a,b adjacent
    if let K::Concat(b, c) = &lo.k {
        if let (K::Extract(l1, x1), K::Extract(l2, x2)) = (&hi.k, &b.k) {
            if same(x1, x2) && *l1 == l2 + b.w {
                return concat(extract(x1.clone(), *l2, hi.w + b.w), c.clone());
            }
        }
    }
    mk(K::Concat(hi, lo), w)
}

/// Postorder of the DAG below `e`.
fn order(e: &E) -> (Vec<E>, HashMap<u64, usize>) {
    let mut out: Vec<E> = vec![];
    let mut ix: HashMap<u64, usize> = HashMap::new();
    let mut st: Vec<(E, bool)> = vec![(e.clone(), false)];
    while let Some((x, done)) = st.pop() {
        if ix.contains_key(&x.id) { continue; }
        if done { ix.insert(x.id, out.len()); out.push(x); continue; }
        st.push((x.clone(), true));
        match &x.k {
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => { st.push((a.clone(), false)); st.push((b.clone(), false)); }
            K::Ite(c, a, b) => { st.push((c.clone(), false)); st.push((a.clone(), false)); st.push((b.clone(), false)); }
            K::Zext(a) | K::Sext(a) | K::Extract(_, a) | K::Lut(a, _) => st.push((a.clone(), false)),
            _ => {}
        }
    }
    (out, ix)
}

pub struct Evaluator { nodes: Vec<(Node, u16)>, vals: Vec<u128> }
enum Node { Const(u128), Var(u32), Bin(BinOp, u32, u32), Cmp(Pred, u32, u32, u16), Ite(u32, u32, u32), Copy(u32), Sext(u32, u16), Extract(u32, u16), Concat(u32, u32, u16), Lut(u32, Arc<Vec<u128>>) }

impl Evaluator {
    pub fn new(e: &E) -> Self {
        let (o, ix) = order(e);
        let g = |x: &E| ix[&x.id] as u32;
        let nodes = o.iter().map(|x| (match &x.k {
            K::Const(c) => Node::Const(*c),
            K::Var(v) => Node::Var(*v),
            K::Bin(op, a, b) => Node::Bin(*op, g(a), g(b)),
            K::Cmp(p, a, b) => Node::Cmp(*p, g(a), g(b), a.w),
            K::Ite(c, a, b) => Node::Ite(g(c), g(a), g(b)),
            K::Zext(a) => Node::Copy(g(a)),
            K::Sext(a) => Node::Sext(g(a), a.w),
            K::Extract(lo, a) => Node::Extract(g(a), *lo),
            K::Concat(a, b) => Node::Concat(g(a), g(b), b.w),
            K::Lut(a, t) => Node::Lut(g(a), t.clone()),
        }, x.w)).collect::<Vec<_>>();
        let n = nodes.len();
        Evaluator { nodes, vals: vec![0; n] }
    }
    pub fn eval(&mut self, f: &dyn Fn(u32) -> u128) -> u128 {
        let v = &mut self.vals;
        for (i, (n, w)) in self.nodes.iter().enumerate() {
            v[i] = match n {
                Node::Const(c) => *c,
                Node::Var(x) => f(*x),
                Node::Bin(o, a, b) => bin_c(*o, v[*a as usize], v[*b as usize], *w),
                Node::Cmp(p, a, b, aw) => cmp_c(*p, v[*a as usize], v[*b as usize], *aw) as u128,
                Node::Ite(c, a, b) => if v[*c as usize] == 1 { v[*a as usize] } else { v[*b as usize] },
                Node::Copy(a) => v[*a as usize],
                Node::Sext(a, aw) => sx(v[*a as usize], *aw) as u128 & mask(*w),
                Node::Extract(a, lo) => (v[*a as usize] >> lo) & mask(*w),
                Node::Concat(a, b, bw) => v[*a as usize] << bw | v[*b as usize],
                Node::Lut(a, t) => t[v[*a as usize] as usize],
            };
        }
        *v.last().unwrap()
    }
}

pub fn nodes_of(e: &E) -> Vec<E> { order(e).0 }
