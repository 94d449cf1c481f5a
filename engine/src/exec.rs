//! Symbolic interpreter: executes IR on states whose bytes may be symbolic, forking at
//! branches whose condition the solver finds satisfiable both ways.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex, RwLock};
use std::time::Instant;

#[derive(Clone)]
pub enum Val { C(u64), W(Box<u128>), S(E), A(Arc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Ext {
    Nop, Malloc, Calloc, Realloc, Free, Memalign, Memcmp(bool), Strlen, Memcpy, Memset, Trap, Expect, Zero64, Errno, Write, Getrandom, Syscall, Fatal,
    UMin, UMax, SMin, SMax, UCmp, SCmp, USubSat, UAddSat, SAddSat, SSubSat, Ctlz, Cttz, Ctpop, Bitreverse, Bswap, Abs, Fshl, Fshr,
    Ovf(BinOp, bool), TlsAddr, IsConstant, AtExit, VecReduce(BinOp), Fp(String, bool), PtrMask,
    Strerror, KeyCreate, KeySet, KeyGet, Open, Read, Close, Lseek, Statx, Realpath, Getcwd, Getenv, Readlink,
    VpSym, VpRange, VpChoose, VpAssume, VpAssert, VpCover, VpNote, VpEnd,
    Unknown(Arc<str>),
}
impl Ext {
    pub fn lookup(n: &str) -> Option<Ext> {
        Some(match n {
            "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free, "posix_memalign" => Ext::Memalign,
            "memcmp" => Ext::Memcmp(false), "bcmp" => Ext::Memcmp(true), "strlen" => Ext::Strlen, "memcpy" | "memmove" => Ext::Memcpy, "memset" => Ext::Memset,
            "abort" => Ext::Fatal, "getenv" => Ext::Getenv, "__errno_location" => Ext::Errno, "write" | "writev" => Ext::Write, "getrandom" => Ext::Getrandom, "syscall" => Ext::Syscall,
            "__xpg_strerror_r" => Ext::Strerror, "pthread_key_create" => Ext::KeyCreate, "pthread_setspecific" => Ext::KeySet, "pthread_getspecific" => Ext::KeyGet,
            "pthread_key_delete" | "gettid" | "pthread_self" | "munmap" | "getauxval" => Ext::Zero64,
            "__cxa_thread_atexit_impl" => Ext::AtExit,
            "open64" | "open" => Ext::Open, "read" => Ext::Read, "close" => Ext::Close, "lseek64" => Ext::Lseek, "statx" => Ext::Statx, "realpath" => Ext::Realpath, "getcwd" => Ext::Getcwd, "readlink" => Ext::Readlink,
            "vp_sym" => Ext::VpSym, "vp_range" => Ext::VpRange, "vp_choose" => Ext::VpChoose, "vp_assume" => Ext::VpAssume, "vp_assert" => Ext::VpAssert, "vp_cover" => Ext::VpCover, "vp_note" => Ext::VpNote, "vp_end" => Ext::VpEnd,
            _ => {
                let r = n.strip_prefix("llvm.")?;
                let is = |p: &str| r.starts_with(p);
                if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("invariant.") || is("donothing") || is("x86.sse2.pause") || is("prefetch") || is("fake.use") || is("sideeffect") { return Some(Ext::Nop); }
                if is("memcpy") || is("memmove") { return Some(Ext::Memcpy); }
                if is("memset") { return Some(Ext::Memset); }
                if is("trap") || is("ubsantrap") || is("debugtrap") { return Some(Ext::Trap); }
                if is("expect") { return Some(Ext::Expect); }
                if is("umin.i") { return Some(Ext::UMin); }
                if is("umax.i") { return Some(Ext::UMax); }
                if is("smin.i") { return Some(Ext::SMin); }
                if is("smax.i") { return Some(Ext::SMax); }
                if is("ucmp.i") { return Some(Ext::UCmp); }
                if is("scmp.i") { return Some(Ext::SCmp); }
                if is("usub.sat.i") { return Some(Ext::USubSat); }
                if is("uadd.sat.i") { return Some(Ext::UAddSat); }
                if is("sadd.sat.i") { return Some(Ext::SAddSat); }
                if is("ssub.sat.i") { return Some(Ext::SSubSat); }
                if is("ctlz.i") { return Some(Ext::Ctlz); }
                if is("cttz.i") { return Some(Ext::Cttz); }
                if is("ctpop.i") { return Some(Ext::Ctpop); }
                if is("bitreverse.i") { return Some(Ext::Bitreverse); }
                if is("bswap.i") { return Some(Ext::Bswap); }
                if is("abs.i") { return Some(Ext::Abs); }
                if is("fshl.i") { return Some(Ext::Fshl); }
                if is("fshr.i") { return Some(Ext::Fshr); }
                if is("ptrmask") { return Some(Ext::PtrMask); }
                for (p, o, s) in [("uadd", BinOp::Add, false), ("sadd", BinOp::Add, true), ("usub", BinOp::Sub, false), ("ssub", BinOp::Sub, true), ("umul", BinOp::Mul, false), ("smul", BinOp::Mul, true)] {
                    if is(&format!("{p}.with.overflow.i")) { return Some(Ext::Ovf(o, s)); }
                }
                if is("threadlocal.address") { return Some(Ext::TlsAddr); }
                if is("is.constant") { return Some(Ext::IsConstant); }
                if is("vector.reduce.or") { return Some(Ext::VecReduce(BinOp::Or)); }
                if is("vector.reduce.and") { return Some(Ext::VecReduce(BinOp::And)); }
                if is("vector.reduce.add") { return Some(Ext::VecReduce(BinOp::Add)); }
                for f in ["fabs", "floor", "ceil", "trunc", "round", "rint", "copysign", "fptosi.sat", "fptoui.sat", "minnum", "maxnum", "is.fpclass"] {
                    if is(f) && (r.contains("f64") || r.contains("f32")) { return Some(Ext::Fp(f.into(), r.ends_with("f64"))); }
                }
                return None;
            }
        })
    }
}

#[derive(Clone)]
pub struct Frame { f: u32, bb: u32, ip: u32, regs: Vec<Val>, sp: u64, dst: Option<u32>, nd: Option<u32> }

#[derive(Clone)]
pub struct Pc { pub doms: Vec<Dom>, pub multi: Vec<E>, pub linked: Vec<bool> }

#[derive(Clone)]
pub struct File { data: Arc<Vec<u8>>, pos: usize }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Pc,
    known: Vec<(u128, u128)>,
    insts: u64,
    covers: BTreeSet<String>,
    notes: Vec<(String, Vec<B>)>,
    errno: u64,
    files: Vec<Option<File>>,
    choices: Vec<(u32, u32)>,
    depth: u32,
    keys: Vec<u64>,
}

pub enum Stop { End, Infeasible, Viol(String, String), Limit(String), Unsup(String) }
type X<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64, pub infeasible: AtomicU64, pub insts: AtomicU64, pub forks: AtomicU64, pub decisions: AtomicU64, pub queries: AtomicU64, pub cache: AtomicU64,
    pub solver_us: AtomicU64, pub max_sym: AtomicU64, pub asserts: AtomicU64, pub asserts_solver: AtomicU64, pub max_insts: AtomicU64,
}

pub struct Violation { pub kind: String, pub msg: String, pub input: Vec<u8>, pub stack: Vec<String>, pub notes: Vec<String> }

pub struct Shared<'m> {
    pub m: &'m Module,
    pub queue: Mutex<(Vec<State>, usize)>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub stats: Stats,
    pub cache: RwLock<HashMap<u128, u8>>,
    pub viol: Mutex<Vec<Violation>>,
    pub incomplete: Mutex<BTreeMap<String, u64>>,
    pub covers: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<(Vec<u8>, Vec<String>)>>,
    pub funcs: Mutex<HashSet<u32>>,
    pub errno_addr: u64,
    pub deadline: Instant,
    pub max_insts: u64,
    pub max_paths: u64,
    pub max_viol: usize,
    pub trace: bool,
    pub concrete: Option<Vec<u8>>,
    pub prof: bool,
    pub profile: Mutex<BTreeMap<String, u64>>,
}

pub struct Worker<'a, 'm> { pub sh: &'a Shared<'m>, pub z: Z3, local: HashMap<u128, u8>, seen: Vec<bool>, cur: String }

fn kv(v: u128, w: u16) -> Val { let v = v & mask(w); if w > 64 { Val::W(Box::new(v)) } else { Val::C(v as u64) } }
fn ev(e: E) -> Val { match e.konst() { Some(c) => kv(c, e.w), None => Val::S(e) } }
fn cst(v: &Val) -> Option<u128> { match v { Val::C(c) => Some(*c as u128), Val::W(c) => Some(**c), _ => None } }
fn te(v: &Val, w: u16) -> X<E> {
    match v { Val::C(c) => Ok(konst(*c as u128, w)), Val::W(c) => Ok(konst(**c, w)), Val::S(e) => { if e.w != w { return Err(Stop::Unsup(format!("width mismatch {} {}", e.w, w))); } Ok(e.clone()) } Val::A(_) => Err(Stop::Unsup("aggregate as integer".into())) }
}
#[inline]
fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

fn vbin(o: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
    if w <= 64 {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = match o {
                BinOp::Add => x.wrapping_add(*y), BinOp::Sub => x.wrapping_sub(*y), BinOp::Mul => x.wrapping_mul(*y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if *y >= w as u64 { 0 } else { x << y },
                BinOp::LShr => if *y >= w as u64 { 0 } else { x >> y },
                _ => { if *y == 0 && !matches!(o, BinOp::AShr) { return Err(Stop::Viol("fault".into(), "division by zero".into())); } bin_c(o, *x as u128, *y as u128, w) as u64 }
            };
            return Ok(Val::C(r & m64(w)));
        }
    }
    if let (Some(x), Some(y)) = (cst(a), cst(b)) { return Ok(kv(bin_c(o, x, y, w), w)); }
    Ok(ev(bin(o, te(a, w)?, te(b, w)?)))
}
fn vcmp(p: Pred, w: u16, a: &Val, b: &Val) -> X<Val> {
    if w <= 64 {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let s = 64 - w as u32;
            let sg = |v: u64| ((v << s) as i64) >> s;
            return Ok(Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sg(*x) > sg(*y), Pred::Sge => sg(*x) >= sg(*y), Pred::Slt => sg(*x) < sg(*y), Pred::Sle => sg(*x) <= sg(*y) } as u64));
        }
    }
    if let (Some(x), Some(y)) = (cst(a), cst(b)) { return Ok(Val::C(cmp_c(p, x, y, w) as u64)); }
    Ok(ev(cmp(p, te(a, w)?, te(b, w)?)))
}
fn lanes(v: &Val) -> X<&Arc<Vec<Val>>> { match v { Val::A(a) => Ok(a), _ => Err(Stop::Unsup("vector expected".into())) } }
fn f_of(v: &Val, d: bool) -> X<f64> { match v { Val::C(c) => Ok(if d { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }), _ => Err(Stop::Unsup("symbolic float".into())) } }
fn f_to(x: f64, d: bool) -> Val { Val::C(if d { x.to_bits() } else { (x as f32).to_bits() as u64 }) }

impl State {
    pub fn new(m: &Module, f: u32) -> State {
        let mut st = State { frames: vec![], mem: Mem::new(&m.gdata), pc: Pc { doms: vec![], multi: vec![], linked: vec![] }, known: vec![], insts: 0, covers: BTreeSet::new(), notes: vec![], errno: 0, files: vec![], choices: vec![], depth: 0, keys: vec![0] };
        st.errno = st.mem.malloc(16, 16).unwrap_or(0);
        st.push(m, f, &[], None, None);
        st
    }
    fn push(&mut self, m: &Module, f: u32, args: &[Val], dst: Option<u32>, nd: Option<u32>) {
        let fu = &m.funcs[f as usize];
        let mut regs = vec![Val::C(0); fu.nregs as usize];
        for (p, a) in fu.params.iter().zip(args) { regs[*p as usize] = a.clone(); }
        self.frames.push(Frame { f, bb: 0, ip: 0, regs, sp: self.mem.sp, dst, nd });
    }
    fn stack(&self, m: &Module) -> Vec<String> { self.frames.iter().rev().take(40).map(|f| m.funcs[f.f as usize].name.clone()).collect() }
}

impl<'a, 'm> Worker<'a, 'm> {
    pub fn new(sh: &'a Shared<'m>) -> Self { Worker { sh, z: Z3::new(30_000), local: HashMap::new(), seen: vec![false; sh.m.funcs.len()], cur: String::new() } }

    // ---------- solver layer ----------
    /// variables connected to `vars` through multi-variable constraints, with those constraints
    fn component(pc: &Pc, vars: &[u32]) -> (Vec<u32>, Vec<E>) {
        let mut vs: Vec<u32> = vars.to_vec();
        let mut used = vec![false; pc.multi.len()];
        let mut cons = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.multi.iter().enumerate() {
                if used[i] { continue; }
                let cv = c.vars();
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(c.clone());
                    for v in cv { if !vs.contains(&v) { vs.push(v); } }
                }
            }
            if !ch { break; }
        }
        vs.sort_unstable();
        (vs, cons)
    }
    fn sat(&mut self, cons: &[E], doms: &[(u32, Dom)]) -> X<bool> {
        let t0 = self.z.time;
        let r = self.z.check(cons, doms, None);
        self.sh.stats.queries.fetch_add(1, Relaxed);
        self.sh.stats.solver_us.fetch_add(((self.z.time - t0) * 1e6) as u64, Relaxed);
        match r { Res::Sat => Ok(true), Res::Unsat => Ok(false), Res::Unknown => Err(Stop::Limit("solver returned unknown".into())) }
    }
    /// (can be true, can be false) under the path condition
    fn decide(&mut self, pc: &Pc, c: &E) -> X<(bool, bool)> {
        if let Some(k) = c.konst() { return Ok((k == 1, k == 0)); }
        self.sh.stats.decisions.fetch_add(1, Relaxed);
        let single = match c.sup { Sup::One(v) if !pc.linked[v as usize] => Some(v), _ => None };
        if let Some(v) = single {
            let d = pc.doms[v as usize];
            let mut key = c.n as u128 | (1u128 << 127);
            for x in d { key = mix_hash(key, x as u128); }
            if let Some(r) = self.lookup(key) { return Ok((r & 1 != 0, r & 2 != 0)); }
            let ds = [(v, d)];
            let t = self.sat(&[c.clone()], &ds)?;
            let f = if t { self.sat(&[not(c.clone())], &ds)? } else { true };
            // cross-check the solver's verdict by evaluating the term on the byte's domain
            let mut ev = Evaluator::new(c);
            let (mut et, mut ef) = (false, false);
            for x in dom_iter(&d) { if ev.eval(&|_| x as u128) == 1 { et = true } else { ef = true } }
            if (et, ef) != (t, f) { return Err(Stop::Unsup(format!("solver and evaluator disagree: {t} {f} / {et} {ef}"))); }
            self.insert(key, t as u8 | (f as u8) << 1);
            return Ok((t, f));
        }
        // conjunctions/disjunctions of conditions on different, unlinked bytes decompose exactly
        {
            let (conj, inner, neg) = match &c.k {
                K::Bin(BinOp::And, ..) => (true, c.clone(), false),
                K::Bin(BinOp::Or, ..) => (false, c.clone(), false),
                K::Bin(BinOp::Xor, x, o) if o.konst() == Some(1) => match &x.k { K::Bin(BinOp::And, ..) => (true, x.clone(), true), K::Bin(BinOp::Or, ..) => (false, x.clone(), true), _ => (true, c.clone(), false) },
                _ => (true, c.clone(), false),
            };
            let mut parts = vec![];
            flatten(&inner, conj, &mut parts);
            if parts.len() > 1 && parts.iter().all(|p| matches!(p.sup, Sup::One(v) if !pc.linked[v as usize])) {
                let mut by: BTreeMap<u32, E> = BTreeMap::new();
                for p in parts { if let Sup::One(v) = p.sup { let n = match by.get(&v) { Some(q) => if conj { and(q.clone(), p) } else { or(q.clone(), p) }, None => p }; by.insert(v, n); } }
                if by.len() > 1 {
                    let (mut t, mut f) = (conj, !conj);
                    for (_, p) in by {
                        let (pt, pf) = self.decide(pc, &p)?;
                        if conj { t &= pt; f |= pf } else { t |= pt; f &= pf }
                    }
                    return Ok(if neg { (f, t) } else { (t, f) });
                }
            }
        }
        let (vs, cons) = Self::component(pc, &c.vars());
        if self.sh.prof { *self.sh.profile.lock().unwrap().entry(format!("{} sup={} cons={} nodes={} {}", self.cur, vs.len(), cons.len(), nodes_of(c).len(), show(c, 6))).or_insert(0) += 1; }
        let mut key = c.h;
        for v in &vs { key = mix_hash(key, *v as u128 + 1000); for x in pc.doms[*v as usize] { key = mix_hash(key, x as u128); } }
        for x in &cons { key = mix_hash(key, x.h); }
        if let Some(r) = self.lookup(key) { return Ok((r & 1 != 0, r & 2 != 0)); }
        let ds: Vec<(u32, Dom)> = vs.iter().map(|v| (*v, pc.doms[*v as usize])).collect();
        let mut q = cons.clone();
        q.push(c.clone());
        let t = self.sat(&q, &ds)?;
        let f = if t { *q.last_mut().unwrap() = not(c.clone()); self.sat(&q, &ds)? } else { true };
        self.insert(key, t as u8 | (f as u8) << 1);
        Ok((t, f))
    }
    fn lookup(&mut self, k: u128) -> Option<u8> {
        if let Some(r) = self.local.get(&k) { self.sh.stats.cache.fetch_add(1, Relaxed); return Some(*r); }
        let r = self.sh.cache.read().unwrap().get(&k).copied();
        if let Some(r) = r { self.local.insert(k, r); self.sh.stats.cache.fetch_add(1, Relaxed); }
        r
    }
    fn insert(&mut self, k: u128, r: u8) { self.local.insert(k, r); self.sh.cache.write().unwrap().insert(k, r); }

    fn add(pc: &mut Pc, c: E) {
        if c.konst().is_some() { return; }
        if let K::Bin(BinOp::And, a, b) = &c.k { let (a, b) = (a.clone(), b.clone()); Self::add(pc, a); Self::add(pc, b); return; }
        if let K::Bin(BinOp::Xor, x, one) = &c.k {
            if one.konst() == Some(1) {
                if let K::Bin(BinOp::Or, a, b) = &x.k { let (a, b) = (not(a.clone()), not(b.clone())); Self::add(pc, a); Self::add(pc, b); return; }
            }
        }
        match c.sup {
            Sup::One(v) => {
                let d = pc.doms[v as usize];
                let mut ev = Evaluator::new(&c);
                let mut n = [0u64; 4];
                for x in dom_iter(&d) { if ev.eval(&|_| x as u128) == 1 { n[(x >> 6) as usize] |= 1 << (x & 63); } }
                pc.doms[v as usize] = n;
            }
            _ => { for v in c.vars() { pc.linked[v as usize] = true; } pc.multi.push(c); }
        }
    }
    /// all feasible values of an expression (up to a limit)
    fn values(&mut self, st: &State, e: &E, limit: usize) -> X<Vec<u128>> {
        if let Some(k) = e.konst() { return Ok(vec![k]); }
        if let Some((_, v)) = st.known.iter().find(|x| x.0 == e.h) { return Ok(vec![*v]); }
        if let Sup::One(v) = e.sup {
            let d = st.pc.doms[v as usize];
            let mut ev = Evaluator::new(e);
            let mut s: BTreeSet<u128> = BTreeSet::new();
            for x in dom_iter(&d) { s.insert(ev.eval(&|_| x as u128)); }
            let all: Vec<u128> = s.into_iter().collect();
            if !st.pc.linked[v as usize] { return Ok(all); }
            let mut out = vec![];
            for k in all { if self.decide(&st.pc, &cmp(Pred::Eq, e.clone(), konst(k, e.w)))?.0 { out.push(k); } }
            return Ok(out);
        }
        let (vs, mut cons) = Self::component(&st.pc, &e.vars());
        let ds: Vec<(u32, Dom)> = vs.iter().map(|v| (*v, st.pc.doms[*v as usize])).collect();
        let mut out = vec![];
        let mut ev = Evaluator::new(e);
        loop {
            let mut m = HashMap::new();
            let t0 = self.z.time;
            let r = self.z.check(&cons, &ds, Some(&mut m));
            self.sh.stats.queries.fetch_add(1, Relaxed);
            self.sh.stats.solver_us.fetch_add(((self.z.time - t0) * 1e6) as u64, Relaxed);
            match r { Res::Unsat => break, Res::Unknown => return Err(Stop::Limit("solver returned unknown".into())), Res::Sat => {} }
            let v = ev.eval(&|x| *m.get(&x).unwrap_or(&0) as u128);
            out.push(v);
            if out.len() > limit { return Err(Stop::Unsup(format!("more than {limit} feasible values when concretising"))); }
            cons.push(cmp(Pred::Ne, e.clone(), konst(v, e.w)));
        }
        Ok(out)
    }
    fn fork(&mut self, st: State) {
        self.sh.stats.forks.fetch_add(1, Relaxed);
        let mut q = self.sh.queue.lock().unwrap();
        q.0.push(st);
        drop(q);
        self.sh.cv.notify_one();
    }
    /// make a value concrete, forking one state per feasible value
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> X<u128> {
        if let Some(c) = cst(v) { return Ok(c); }
        let e = te(v, w)?;
        let vals = self.values(st, &e, 300)?;
        if vals.is_empty() { return Err(Stop::Infeasible); }
        for k in &vals[1..] {
            let mut s2 = st.clone();
            Self::add(&mut s2.pc, cmp(Pred::Eq, e.clone(), konst(*k, e.w)));
            s2.known.push((e.h, *k));
            self.fork(s2);
        }
        if vals.len() > 1 { Self::add(&mut st.pc, cmp(Pred::Eq, e.clone(), konst(vals[0], e.w))); st.known.push((e.h, vals[0])); }
        Ok(vals[0])
    }
    /// decide a branch; forks the other side. `other` prepares the forked state for the opposite outcome
    fn branch(&mut self, st: &mut State, c: &Val, other: impl FnOnce(&mut Self, &mut State, bool) -> X<()>) -> X<bool> {
        let e = match c { Val::C(x) => return Ok(*x & 1 == 1), v => te(v, 1)? };
        if self.sh.prof { self.cur = st.frames.last().map(|f| self.sh.m.funcs[f.f as usize].name.clone()).unwrap_or_default(); }
        let (t, f) = self.decide(&st.pc, &e)?;
        match (t, f) {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => Err(Stop::Infeasible),
            (true, true) => {
                let mut s2 = st.clone();
                Self::add(&mut s2.pc, not(e.clone()));
                s2.depth += 1;
                other(self, &mut s2, false)?;
                self.fork(s2);
                Self::add(&mut st.pc, e);
                st.depth += 1;
                Ok(true)
            }
        }
    }

    // ---------- memory ----------
    fn load_int(&mut self, st: &State, a: u64, w: u16) -> X<Val> {
        let n = (w as usize + 7) / 8;
        let er = |e: String| Stop::Viol("fault".into(), e);
        if n <= 8 {
            if let Some(v) = st.mem.fast_load(a, n).map_err(er)? { return Ok(Val::C(v & m64(w))); }
        }
        let (d, sy) = st.mem.read(a, n).map_err(er)?;
        if sy.is_empty() {
            let mut b = [0u8; 16];
            if n > 16 { return Err(Stop::Unsup("wide load".into())); }
            b[..n].copy_from_slice(&d);
            return Ok(kv(u128::from_le_bytes(b), w));
        }
        let mut acc: Option<E> = None;
        let mut it = sy.into_iter().peekable();
        for i in 0..n {
            let b = if it.peek().map(|x| x.0) == Some(i) { it.next().unwrap().1 } else { konst(d[i] as u128, 8) };
            acc = Some(match acc { None => b, Some(l) => concat(b, l) });
        }
        let e = acc.unwrap();
        Ok(ev(if e.w > w { extract(e, 0, w) } else { e }))
    }
    fn store_int(&mut self, st: &mut State, a: u64, v: &Val, w: u16) -> X<()> {
        let n = (w as usize + 7) / 8;
        let er = |e: String| Stop::Viol("fault".into(), e);
        match v {
            Val::C(c) => {
                if n <= 8 && st.mem.fast_store(a, *c, n).map_err(er)? { return Ok(()); }
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&c.to_le_bytes());
                st.mem.write(a, &b[..n], vec![]).map_err(er)
            }
            Val::W(c) => st.mem.write(a, &c.to_le_bytes()[..n], vec![]).map_err(er),
            Val::S(e) => {
                let e = if (e.w as usize) < n * 8 { zext(e.clone(), n as u16 * 8) } else { e.clone() };
                for i in 0..n { st.mem.set(a + i as u64, B::S(extract(e.clone(), i as u16 * 8, 8))).map_err(er)?; }
                Ok(())
            }
            Val::A(_) => Err(Stop::Unsup("store aggregate as int".into())),
        }
    }
    fn load(&mut self, st: &State, a: u64, t: &MTy) -> X<Val> {
        match t {
            MTy::Int(w) => self.load_int(st, a, *w),
            MTy::F32 => self.load_int(st, a, 32),
            MTy::F64 => self.load_int(st, a, 64),
            MTy::Vec(n, w) => { if w % 8 != 0 { return Err(Stop::Unsup("sub-byte vector load".into())); } let mut v = vec![]; for i in 0..*n { v.push(self.load_int(st, a + (i * *w as u32 / 8) as u64, *w)?); } Ok(Val::A(Arc::new(v))) }
            MTy::Agg(f) => { let mut v = vec![]; for (o, t) in f.iter() { v.push(self.load(st, a + o, t)?); } Ok(Val::A(Arc::new(v))) }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, v: &Val, t: &MTy) -> X<()> {
        match t {
            MTy::Int(w) => self.store_int(st, a, v, *w),
            MTy::F32 => self.store_int(st, a, v, 32),
            MTy::F64 => self.store_int(st, a, v, 64),
            MTy::Vec(n, w) => { if w % 8 != 0 { return Err(Stop::Unsup("sub-byte vector store".into())); } let l = lanes(v)?.clone(); for i in 0..*n { self.store_int(st, a + (i * *w as u32 / 8) as u64, &l[i as usize], *w)?; } Ok(()) }
            MTy::Agg(f) => { let l = lanes(v)?.clone(); for (i, (o, t)) in f.iter().enumerate() { self.store(st, a + o, &l[i], t)?; } Ok(()) }
        }
    }
    /// load through a symbolic address that depends on one input byte: build a lookup table
    fn load_sym(&mut self, st: &mut State, e: &E, t: &MTy) -> X<Option<Val>> {
        let (v, w) = match (&e.sup, t) { (Sup::One(v), MTy::Int(w)) if *w <= 64 => (*v, *w), _ => return Ok(None) };
        let d = st.pc.doms[v as usize];
        let mut evl = Evaluator::new(e);
        let mut tab = vec![0u128; 256];
        let mut conc = true;
        let mut byaddr: BTreeMap<u64, Val> = BTreeMap::new();
        for x in dom_iter(&d) {
            let a = evl.eval(&|_| x as u128) as u64;
            let val = match byaddr.get(&a) { Some(v) => v.clone(), None => { let l = match self.load_int(st, a, w) { Ok(l) => l, Err(_) => return Ok(None) }; byaddr.insert(a, l.clone()); l } };
            match cst(&val) { Some(c) => tab[x as usize] = c, None => conc = false }
        }
        if conc { return Ok(Some(ev(lut(var(v), tab, w)))); }
        Ok(None)
    }

    // ---------- main loop ----------
    pub fn work(&mut self) {
        loop {
            let st = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) { self.sh.cv.notify_all(); self.flush(); return; }
                    if let Some(s) = q.0.pop() { q.1 += 1; break s; }
                    if q.1 == 0 { self.sh.cv.notify_all(); self.flush(); return; }
                    q = self.sh.cv.wait(q).unwrap();
                }
            };
            self.path(st);
            let mut q = self.sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() { self.sh.cv.notify_all(); }
        }
    }
    fn flush(&self) {
        let mut f = self.sh.funcs.lock().unwrap();
        for (i, s) in self.seen.iter().enumerate() { if *s { f.insert(i as u32); } }
    }
    fn model(&mut self, pc: &Pc) -> Option<Vec<u8>> {
        let ds: Vec<(u32, Dom)> = pc.doms.iter().enumerate().map(|(i, d)| (i as u32, *d)).collect();
        let mut m = HashMap::new();
        let t0 = self.z.time;
        let r = self.z.check(&pc.multi, &ds, Some(&mut m));
        self.sh.stats.queries.fetch_add(1, Relaxed);
        self.sh.stats.solver_us.fetch_add(((self.z.time - t0) * 1e6) as u64, Relaxed);
        if r != Res::Sat { return None; }
        Some((0..ds.len() as u32).map(|i| *m.get(&i).unwrap_or(&0)).collect())
    }
    fn render(notes: &[(String, Vec<B>)], m: &[u8]) -> Vec<String> {
        notes.iter().map(|(k, b)| {
            let by: Vec<u8> = b.iter().map(|x| match x { B::C(c) => *c, B::S(e) => Evaluator::new(e).eval(&|v| m[v as usize] as u128) as u8 }).collect();
            format!("{k}{}", String::from_utf8_lossy(&by))
        }).collect()
    }
    fn path(&mut self, mut st: State) {
        let r = self.run(&mut st);
        let s = &self.sh.stats;
        s.insts.fetch_add(st.insts, Relaxed);
        s.max_insts.fetch_max(st.insts, Relaxed);
        s.max_sym.fetch_max(st.pc.doms.len() as u64, Relaxed);
        match r {
            Ok(()) | Err(Stop::End) => {
                // every finished path's condition must be satisfiable (guards against vacuity)
                let np = s.paths.fetch_add(1, Relaxed) + 1;
                { let mut c = self.sh.covers.lock().unwrap(); for x in &st.covers { *c.entry(x.clone()).or_insert(0) += 1; } }
                match self.model(&st.pc) {
                    Some(m) => {
                        let mut sm = self.sh.samples.lock().unwrap();
                        if sm.len() < 6 || (np.is_power_of_two() && sm.len() < 16) { let n = Self::render(&st.notes, &m); sm.push((m, n)); }
                    }
                    None => { *self.sh.incomplete.lock().unwrap().entry("finished path without a model".into()).or_insert(0) += 1; }
                }
                if np >= self.sh.max_paths { *self.sh.incomplete.lock().unwrap().entry("path limit".into()).or_insert(0) += 1; self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
            }
            Err(Stop::Infeasible) => { s.infeasible.fetch_add(1, Relaxed); }
            Err(Stop::Viol(k, msg)) => {
                s.paths.fetch_add(1, Relaxed);
                let m = self.model(&st.pc);
                match m {
                    Some(m) => {
                        let notes = Self::render(&st.notes, &m);
                        let mut v = self.sh.viol.lock().unwrap();
                        let same = v.iter().filter(|x| x.kind == k && x.msg == msg).count();
                        if same < 3 { v.push(Violation { kind: k, msg, input: m, stack: st.stack(self.sh.m), notes }); }
                        if v.len() >= self.sh.max_viol { self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
                    }
                    None => { *self.sh.incomplete.lock().unwrap().entry("violation without a model".into()).or_insert(0) += 1; }
                }
            }
            Err(Stop::Limit(m)) => { *self.sh.incomplete.lock().unwrap().entry(m).or_insert(0) += 1; }
            Err(Stop::Unsup(m)) => {
                let top = st.frames.last().map(|f| self.sh.m.funcs[f.f as usize].name.clone()).unwrap_or_default();
                *self.sh.incomplete.lock().unwrap().entry(format!("unsupported: {m} in {top}")).or_insert(0) += 1;
            }
        }
        if Instant::now() > self.sh.deadline { *self.sh.incomplete.lock().unwrap().entry("time limit".into()).or_insert(0) += 1; self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
    }
    fn goto(&mut self, st: &mut State, bb: u32) {
        let m = self.sh.m;
        let fr = st.frames.last_mut().unwrap();
        let f = &m.funcs[fr.f as usize];
        let prev = fr.bb;
        let b = &f.blocks[bb as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let v = inc.iter().find(|x| x.0 == prev).map(|x| match &x.1 { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }).unwrap_or(Val::C(0));
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| inc.iter().find(|x| x.0 == prev).map(|x| match &x.1 { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }).unwrap_or(Val::C(0))).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.bb = bb;
        fr.ip = 0;
    }
    fn run(&mut self, st: &mut State) -> X<()> {
        let m = self.sh.m;
        let mut ctr = 0u32;
        loop {
            let fr = match st.frames.last_mut() { Some(f) => f, None => return Ok(()) };
            let f = &m.funcs[fr.f as usize];
            let ins = match f.blocks[fr.bb as usize].insts.get(fr.ip as usize) { Some(i) => i, None => return Err(Stop::Unsup("fell off a block".into())) };
            st.insts += 1;
            ctr += 1;
            if ctr >= 65536 {
                ctr = 0;
                if st.insts > self.sh.max_insts { return Err(Stop::Viol("nontermination".into(), format!("more than {} instructions on one path", self.sh.max_insts))); }
                if Instant::now() > self.sh.deadline { return Err(Stop::Limit("time limit".into())); }
                if self.sh.stop.load(Relaxed) { return Err(Stop::Infeasible); }
            }
            macro_rules! g { ($o:expr) => { match $o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() } }; }
            macro_rules! r { ($o:expr) => { match $o { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v } }; }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; fr.regs[*$d as usize] = v; fr.ip += 1; }}; }
            match ins {
                Inst::Bin(o, w, d, a, b) => { let v = vbin(*o, *w, r!(a), r!(b))?; set!(d, v) }
                Inst::Cmp(p, w, d, a, b) => { let v = vcmp(*p, *w, r!(a), r!(b))?; set!(d, v) }
                Inst::VBin(o, w, d, a, b) => { let (x, y) = (lanes(r!(a))?, lanes(r!(b))?); let v = x.iter().zip(y.iter()).map(|(p, q)| vbin(*o, *w, p, q)).collect::<X<Vec<_>>>()?; set!(d, Val::A(Arc::new(v))) }
                Inst::VCmp(o, w, d, a, b) => { let (x, y) = (lanes(r!(a))?, lanes(r!(b))?); let v = x.iter().zip(y.iter()).map(|(p, q)| vcmp(*o, *w, p, q)).collect::<X<Vec<_>>>()?; set!(d, Val::A(Arc::new(v))) }
                Inst::FBin(o, dbl, d, a, b) => {
                    let v = if *dbl {
                        let (x, y) = (f_of(r!(a), true)?, f_of(r!(b), true)?);
                        f_to(match o { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }, true)
                    } else {
                        let (x, y) = (f_of(r!(a), false)? as f32, f_of(r!(b), false)? as f32);
                        Val::C(match o { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }.to_bits() as u64)
                    };
                    set!(d, v)
                }
                Inst::FNeg(dbl, d, a) => { let v = match r!(a) { Val::C(c) => Val::C(c ^ if *dbl { 1 << 63 } else { 1 << 31 }), _ => return Err(Stop::Unsup("symbolic float".into())) }; set!(d, v) }
                Inst::FCmp(p, dbl, d, a, b) => {
                    let (x, y) = (f_of(r!(a), *dbl)?, f_of(r!(b), *dbl)?);
                    let un = x.is_nan() || y.is_nan();
                    let v = match p.as_str() {
                        "oeq" => x == y, "one" => !un && x != y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "ord" => !un, "uno" => un,
                        "ueq" => un || x == y, "une" => x != y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "true" => true, "false" => false,
                        _ => return Err(Stop::Unsup(format!("fcmp {p}"))),
                    };
                    set!(d, Val::C(v as u64))
                }
                Inst::Cast(k, fw, tw, d, a) => {
                    if matches!(k, Cast::Zext) && *fw == 1 && *tw >= 32 {
                        if let v @ Val::S(_) = r!(a) {
                            // a truth value used as a number (counters): split here rather than carry symbolic sums
                            let v = v.clone();
                            let (d, tw) = (*d, *tw);
                            let t = self.branch(st, &v, |_, s2, t| { let fr = s2.frames.last_mut().unwrap(); fr.regs[d as usize] = kv(t as u128, tw); fr.ip += 1; Ok(()) })?;
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = kv(t as u128, tw);
                            fr.ip += 1;
                            continue;
                        }
                    }
                    if matches!(k, Cast::UiToFp | Cast::SiToFp) {
                        if let v @ Val::S(_) = r!(a) {
                            // floating point is executed, not solved for: one path per value
                            let (v, k, fw, tw, d) = (v.clone(), *k, *fw, *tw, *d);
                            let c = self.conc(st, &v, fw)?;
                            let v = cast(k, fw, tw, &kv(c, fw))?;
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = v;
                            fr.ip += 1;
                            continue;
                        }
                    }
                    let v = cast(*k, *fw, *tw, r!(a))?;
                    set!(d, v)
                }
                Inst::VCast(k, fw, tw, d, a) => { let v = lanes(r!(a))?.iter().map(|x| cast(*k, *fw, *tw, x)).collect::<X<Vec<_>>>()?; set!(d, Val::A(Arc::new(v))) }
                Inst::BitCast(f, t, d, a) => { let v = bitcast(f, t, r!(a))?; set!(d, v) }
                Inst::Copy(d, a) => { let v = g!(a); set!(d, v) }
                Inst::Select(isptr, w, d, c, a, b) => {
                    let cv = g!(c);
                    match (&cv, w) {
                        (Val::C(x), _) => { let v = if x & 1 == 1 { g!(a) } else { g!(b) }; set!(d, v) }
                        (cv, Some(w)) if !*isptr && !(*w >= 32 && matches!((r!(a), r!(b)), (Val::C(_), Val::C(_)))) => {
                            let (x, y) = (g!(a), g!(b));
                            let d = *d;
                            let c = te(cv, 1)?;
                            let v = match self.decide(&st.pc, &c)? {
                                (true, false) => x,
                                (false, true) => y,
                                (false, false) => return Err(Stop::Infeasible),
                                _ => ev(ite(c, te(&x, *w)?, te(&y, *w)?)),
                            };
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = v;
                            fr.ip += 1;
                        }
                        (cv, _) => {
                            let (x, y) = (g!(a), g!(b));
                            let d = *d;
                            let t = self.branch(st, cv, |_, s2, t| { let fr = s2.frames.last_mut().unwrap(); fr.regs[d as usize] = if t { x.clone() } else { y.clone() }; fr.ip += 1; Ok(()) })?;
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = if t { x } else { y };
                            fr.ip += 1;
                        }
                    }
                }
                Inst::Gep(d, b, off, dy) => {
                    let mut acc = match r!(b) { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), v => vbin(BinOp::Add, 64, v, &Val::C(*off as u64))? };
                    for (o, w, s) in dy {
                        let ix = match r!(o) {
                            Val::C(x) => { let sh = 64 - *w as u32; Val::C((((*x << sh) as i64 >> sh).wrapping_mul(*s)) as u64) }
                            v => { let e = te(v, *w)?; let e = if *w < 64 { sext(e, 64) } else { e }; ev(bin(BinOp::Mul, e, konst(*s as u64 as u128, 64))) }
                        };
                        acc = vbin(BinOp::Add, 64, &acc, &ix)?;
                    }
                    set!(d, acc)
                }
                Inst::Load(d, t, p) => {
                    let d = *d;
                    match r!(p) {
                        Val::C(a) => {
                            let a = *a;
                            let v = self.load(st, a, t)?;
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = v;
                            fr.ip += 1;
                        }
                        v => {
                            let e = te(v, 64)?;
                            let v = match self.load_sym(st, &e, t)? { Some(v) => v, None => { let a = self.conc(st, &Val::S(e), 64)? as u64; self.load(st, a, t)? } };
                            let fr = st.frames.last_mut().unwrap();
                            fr.regs[d as usize] = v;
                            fr.ip += 1;
                        }
                    }
                }
                Inst::Store(t, v, p) => {
                    let (v, p) = (g!(v), g!(p));
                    let a = self.conc(st, &p, 64)? as u64;
                    self.store(st, a, &v, t)?;
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Inst::Alloca(d, s, al, n, w) => {
                    let (d, n) = (*d, g!(n));
                    let n = self.conc(st, &n, *w)? as u64;
                    let a = st.mem.alloca(s * n, *al).map_err(|e| Stop::Viol("stack overflow".into(), e))?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[d as usize] = Val::C(a);
                    fr.ip += 1;
                }
                Inst::Br(b) => self.goto(st, *b),
                Inst::CondBr(c, a, b) => {
                    let c = g!(c);
                    let (a, b) = (*a, *b);
                    let t = self.branch(st, &c, |w, s2, t| { w.goto(s2, if t { a } else { b }); Ok(()) })?;
                    self.goto(st, if t { a } else { b });
                }
                Inst::Switch(v, w, def, cs) => {
                    let v = g!(v);
                    if let Some(k) = cst(&v) { let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def); self.goto(st, t); } else {
                        let e = te(&v, *w)?;
                        // group cases by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = konst(1, 1);
                        for (k, b) in cs {
                            let c = cmp(Pred::Eq, e.clone(), konst(*k, *w));
                            none = and(none, not(c.clone()));
                            match groups.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = or(x.1.clone(), c), None => groups.push((*b, c)) }
                        }
                        match groups.iter_mut().find(|x| x.0 == *def) { Some(x) => x.1 = or(x.1.clone(), none), None => groups.push((*def, none)) }
                        let mut first = None;
                        for (b, c) in groups {
                            let (t, f) = self.decide(&st.pc, &c)?;
                            if !t { continue; }
                            if !f { first = Some((b, konst(1, 1))); break; }
                            if first.is_none() { first = Some((b, c)); continue; }
                            let mut s2 = st.clone();
                            Self::add(&mut s2.pc, c);
                            s2.depth += 1;
                            self.goto(&mut s2, b);
                            self.fork(s2);
                        }
                        match first { Some((b, c)) => { Self::add(&mut st.pc, c); self.goto(st, b); } None => return Err(Stop::Infeasible) }
                    }
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|v| g!(v));
                    let fr = st.frames.pop().unwrap();
                    st.mem.sp = fr.sp;
                    if let Some(c) = st.frames.last_mut() {
                        if let (Some(d), Some(v)) = (fr.dst, v) { c.regs[d as usize] = v; }
                        match fr.nd { Some(b) => self.goto(st, b), None => c.ip += 1 }
                    } else { return Ok(()); }
                }
                Inst::Unreachable => return Err(Stop::Viol("fault".into(), format!("reached `unreachable` in {}", f.name))),
                Inst::Call(dst, callee, args, nd) => {
                    let (dst, nd) = (*dst, *nd);
                    let av: Vec<(Val, u16)> = args.iter().map(|(o, w)| (g!(o), *w)).collect();
                    let fi = match callee {
                        Callee::F(i) => *i,
                        Callee::Ext(e) => {
                            let v = self.ext(st, e, &av)?;
                            let fr = st.frames.last_mut().unwrap();
                            if let (Some(d), Some(v)) = (dst, v) { fr.regs[d as usize] = v; }
                            match nd { Some(b) => self.goto(st, b), None => fr.ip += 1 }
                            continue;
                        }
                        Callee::Ind(o) => {
                            let p = g!(o);
                            let a = self.conc(st, &p, 64)? as u64;
                            let i = a.wrapping_sub(FBASE) / 16;
                            if a < FBASE || i >= m.funcs.len() as u64 { return Err(Stop::Viol("fault".into(), format!("indirect call to {a:#x}"))); }
                            i as u32
                        }
                    };
                    let av: Vec<Val> = av.into_iter().map(|x| x.0).collect();
                    let callee = &m.funcs[fi as usize];
                    if !self.seen[fi as usize] { self.seen[fi as usize] = true; }
                    if callee.is_panic { return Err(Stop::Viol("panic".into(), format!("panic: {} called from {}", short(&callee.name), short(&f.name)))); }
                    if st.frames.len() > 4000 { return Err(Stop::Viol("stack overflow".into(), format!("call depth over 4000 in {}", short(&callee.name)))); }
                    if self.sh.trace { eprintln!("{:w$}{}", "", callee.name, w = st.frames.len()); }
                    st.push(m, fi, &av, dst, nd);
                }
                Inst::ExtractValue(d, v, ix) => {
                    let mut x = r!(v).clone();
                    for i in ix { x = lanes(&x)?[*i as usize].clone(); }
                    set!(d, x)
                }
                Inst::InsertValue(d, v, x, ix, _) => {
                    fn ins(a: &Val, ix: &[u32], x: Val) -> X<Val> {
                        if ix.is_empty() { return Ok(x); }
                        let mut l = (**lanes(a)?).clone();
                        l[ix[0] as usize] = ins(&l[ix[0] as usize], &ix[1..], x)?;
                        Ok(Val::A(Arc::new(l)))
                    }
                    let nv = ins(r!(v), ix, g!(x))?;
                    set!(d, nv)
                }
                Inst::ExtractElem(d, v, i, w) => {
                    let (d, v, i, w) = (*d, g!(v), g!(i), *w);
                    let i = self.conc(st, &i, w)? as usize;
                    let x = lanes(&v)?.get(i).cloned().ok_or(Stop::Unsup("lane".into()))?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[d as usize] = x;
                    fr.ip += 1;
                }
                Inst::InsertElem(d, v, x, i, w, _n) => {
                    let (d, v, x, i, w) = (*d, g!(v), g!(x), g!(i), *w);
                    let i = self.conc(st, &i, w)? as usize;
                    let mut l = (**lanes(&v)?).clone();
                    l[i] = x;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[d as usize] = Val::A(Arc::new(l));
                    fr.ip += 1;
                }
                Inst::Shuffle(d, a, b, n, mk) => {
                    let (x, y) = (lanes(r!(a))?, lanes(r!(b))?);
                    let v = mk.iter().map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() }).collect();
                    set!(d, Val::A(Arc::new(v)))
                }
                Inst::AtomicRmw(o, d, w, p, v) => {
                    let (d, w, p, v) = (*d, *w, g!(p), g!(v));
                    let a = self.conc(st, &p, 64)? as u64;
                    let old = self.load_int(st, a, w)?;
                    let new = match o.as_str() {
                        "xchg" => v, "add" => vbin(BinOp::Add, w, &old, &v)?, "sub" => vbin(BinOp::Sub, w, &old, &v)?, "and" => vbin(BinOp::And, w, &old, &v)?, "or" => vbin(BinOp::Or, w, &old, &v)?, "xor" => vbin(BinOp::Xor, w, &old, &v)?,
                        _ => return Err(Stop::Unsup(format!("atomicrmw {o}"))),
                    };
                    self.store_int(st, a, &new, w)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[d as usize] = old;
                    fr.ip += 1;
                }
                Inst::CmpXchg(d, w, p, c, n) => {
                    let (d, w, p, c, n) = (*d, *w, g!(p), g!(c), g!(n));
                    let a = self.conc(st, &p, 64)? as u64;
                    let old = self.load_int(st, a, w)?;
                    let eq = match (cst(&old), cst(&c)) { (Some(x), Some(y)) => x == y, _ => return Err(Stop::Unsup("symbolic cmpxchg".into())) };
                    if eq { self.store_int(st, a, &n, w)?; }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[d as usize] = Val::A(Arc::new(vec![old, Val::C(eq as u64)]));
                    fr.ip += 1;
                }
                Inst::Nop => fr.ip += 1,
                Inst::Unsupported(s) => return Err(Stop::Unsup(s.clone())),
            }
        }
    }

    fn bytes(&mut self, st: &State, a: u64, n: usize) -> X<String> {
        let (d, _) = st.mem.read(a, n).map_err(|e| Stop::Viol("fault".into(), e))?;
        Ok(String::from_utf8_lossy(&d).into_owned())
    }
    fn cstr(&mut self, st: &State, a: u64) -> X<String> {
        let mut o = vec![];
        loop { match st.mem.get(a + o.len() as u64).map_err(|e| Stop::Viol("fault".into(), e))? { B::C(0) => break, B::C(c) => o.push(c), B::S(_) => return Err(Stop::Unsup("symbolic path".into())) } }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    fn newvar(&mut self, st: &mut State) -> u32 {
        let n = st.pc.doms.len();
        let d = match &self.sh.concrete { Some(b) => { let mut d = [0u64; 4]; let v = b.get(n).copied().unwrap_or(0); d[(v >> 6) as usize] = 1 << (v & 63); d } None => FULL };
        st.pc.doms.push(d);
        st.pc.linked.push(false);
        n as u32
    }

    fn ext(&mut self, st: &mut State, x: &Ext, a: &[(Val, u16)]) -> X<Option<Val>> {
        let er = |e: String| Stop::Viol("fault".into(), e);
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i].0, a[$i].1)? as u64 }; }
        Ok(match x {
            Ext::Nop => None,
            Ext::Malloc => { let n = c!(0); Some(Val::C(st.mem.malloc(n, 16).map_err(|e| Stop::Limit(e))?)) }
            Ext::Calloc => { let n = c!(0) * c!(1); let p = st.mem.malloc(n, 16).map_err(|e| Stop::Limit(e))?; st.mem.write(p, &vec![0; n as usize], vec![]).map_err(er)?; Some(Val::C(p)) }
            Ext::Memalign => { let (p, al, n) = (c!(0), c!(1), c!(2)); let q = st.mem.malloc(n, al).map_err(|e| Stop::Limit(e))?; self.store_int(st, p, &Val::C(q), 64)?; Some(Val::C(0)) }
            Ext::Realloc => {
                let (p, n) = (c!(0), c!(1));
                if p == 0 { return Ok(Some(Val::C(st.mem.malloc(n, 16).map_err(|e| Stop::Limit(e))?))); }
                let (old, cl) = st.mem.size_of(p).map_err(er)?;
                if n <= 1 << cl { st.mem.write(p - 16, &(n | (cl as u64) << 48).to_le_bytes(), vec![]).map_err(er)?; return Ok(Some(Val::C(p))); }
                let q = st.mem.malloc(n, 16).map_err(|e| Stop::Limit(e))?;
                let (d, s) = st.mem.read(p, old.min(n) as usize).map_err(er)?;
                st.mem.write(q, &d, s).map_err(er)?;
                st.mem.free(p).map_err(er)?;
                Some(Val::C(q))
            }
            Ext::Free => { let p = c!(0); st.mem.free(p).map_err(er)?; None }
            Ext::Memcpy => {
                let n = c!(2) as usize;
                let (d, s) = (c!(0), c!(1));
                if n > 0 { let (b, sy) = st.mem.read(s, n).map_err(er)?; st.mem.write(d, &b, sy).map_err(er)?; }
                Some(Val::C(d))
            }
            Ext::Memset => {
                let n = c!(2) as usize;
                let d = c!(0);
                if n > 0 {
                    match &a[1].0 { Val::C(v) => st.mem.write(d, &vec![*v as u8; n], vec![]).map_err(er)?, Val::S(e) => { let e = extract(e.clone(), 0, 8); st.mem.write(d, &vec![0; n], (0..n).map(|i| (i, e.clone())).collect()).map_err(er)? } _ => return Err(Stop::Unsup("memset".into())) }
                }
                Some(Val::C(d))
            }
            Ext::Memcmp(eqonly) => {
                let n = c!(2) as usize;
                let (p, q) = (c!(0), c!(1));
                if n == 0 { return Ok(Some(Val::C(0))); }
                let (d1, s1) = st.mem.read(p, n).map_err(er)?;
                let (d2, s2) = st.mem.read(q, n).map_err(er)?;
                if s1.is_empty() && s2.is_empty() {
                    return Ok(Some(Val::C(match d1.cmp(&d2) { std::cmp::Ordering::Less => 0xFFFF_FFFF, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 })));
                }
                let mut e1: Vec<E> = d1.iter().map(|b| konst(*b as u128, 8)).collect();
                let mut e2: Vec<E> = d2.iter().map(|b| konst(*b as u128, 8)).collect();
                for (i, e) in s1 { e1[i] = e; }
                for (i, e) in s2 { e2[i] = e; }
                if *eqonly {
                    let mut acc = konst(1, 1);
                    for i in 0..n { acc = and(acc, cmp(Pred::Eq, e1[i].clone(), e2[i].clone())); if acc.konst() == Some(0) { break; } }
                    return Ok(Some(ev(ite(acc, konst(0, 32), konst(1, 32)))));
                }
                let mut acc = konst(0, 32);
                for i in (0..n).rev() {
                    acc = ite(cmp(Pred::Eq, e1[i].clone(), e2[i].clone()), acc, ite(cmp(Pred::Ult, e1[i].clone(), e2[i].clone()), konst(0xFFFF_FFFF, 32), konst(1, 32)));
                }
                Some(ev(acc))
            }
            Ext::Strlen => { let p = c!(0); let s = self.cstr(st, p)?; Some(Val::C(s.len() as u64)) }
            Ext::Trap | Ext::Fatal => return Err(Stop::Viol("abort".into(), "abort/trap reached".into())),
            Ext::Expect | Ext::TlsAddr => Some(a[0].0.clone()),
            Ext::PtrMask => Some(vbin(BinOp::And, 64, &a[0].0, &a[1].0)?),
            Ext::Zero64 | Ext::AtExit => Some(Val::C(0)),
            // the text itself is not what any check looks at
            Ext::Strerror => { let (e, p) = (c!(0) as u32, c!(1)); let t = match e { 2 => "No such file or directory", 20 => "Not a directory", 21 => "Is a directory", _ => "I/O error" }; let mut b = t.as_bytes().to_vec(); b.push(0); st.mem.write(p, &b, vec![]).map_err(er)?; Some(Val::C(0)) }
            // thread-specific data: keys count from 1
            Ext::KeyCreate => { let p = c!(0); st.keys.push(0); let k = st.keys.len() as u64 - 1; self.store_int(st, p, &Val::C(k), 32)?; Some(Val::C(0)) }
            Ext::KeySet => { let (k, v) = (c!(0) as u32 as usize, c!(1)); match st.keys.get_mut(k) { Some(x) => { *x = v; Some(Val::C(0)) } None => Some(Val::C(22)) } }
            Ext::KeyGet => { let k = c!(0) as u32 as usize; Some(Val::C(st.keys.get(k).copied().unwrap_or(0))) }
            Ext::Getenv => Some(Val::C(0)),
            Ext::Errno => Some(Val::C(st.errno)),
            Ext::Write => Some(a[a.len() - 1].0.clone()),
            Ext::Getrandom => { let (p, n) = (c!(0), c!(1)); st.mem.write(p, &vec![0x5A; n as usize], vec![]).map_err(er)?; Some(Val::C(n)) }
            Ext::Syscall => {
                let nr = c!(0);
                if nr == 318 { let (p, n) = (c!(1), c!(2)); st.mem.write(p, &vec![0x5A; n as usize], vec![]).map_err(er)?; Some(Val::C(n)) } else if nr == 202 { Some(Val::C(0)) } else { return Err(Stop::Unsup(format!("syscall {nr}"))) }
            }
            Ext::IsConstant => Some(Val::C(0)),
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let w = a[0].1;
                let p = match x { Ext::UMin => Pred::Ule, Ext::UMax => Pred::Uge, Ext::SMin => Pred::Sle, _ => Pred::Sge };
                let c = vcmp(p, w, &a[0].0, &a[1].0)?;
                Some(match c { Val::C(1) => a[0].0.clone(), Val::C(_) => a[1].0.clone(), c => ev(ite(te(&c, 1)?, te(&a[0].0, w)?, te(&a[1].0, w)?)) })
            }
            Ext::UCmp | Ext::SCmp => {
                let w = a[0].1;
                let p = if matches!(x, Ext::UCmp) { Pred::Ult } else { Pred::Slt };
                let (lt, eq) = (vcmp(p, w, &a[0].0, &a[1].0)?, vcmp(Pred::Eq, w, &a[0].0, &a[1].0)?);
                Some(ev(ite(te(&lt, 1)?, konst(0xFF, 8), ite(te(&eq, 1)?, konst(0, 8), konst(1, 8)))))
            }
            Ext::USubSat => { let w = a[0].1; let c = vcmp(Pred::Ult, w, &a[0].0, &a[1].0)?; let d = vbin(BinOp::Sub, w, &a[0].0, &a[1].0)?; Some(ev(ite(te(&c, 1)?, konst(0, w), te(&d, w)?))) }
            Ext::UAddSat => { let w = a[0].1; let d = vbin(BinOp::Add, w, &a[0].0, &a[1].0)?; let c = vcmp(Pred::Ult, w, &d, &a[0].0)?; Some(ev(ite(te(&c, 1)?, konst(u128::MAX, w), te(&d, w)?))) }
            Ext::SAddSat | Ext::SSubSat => {
                let w = a[0].1;
                let (p, q) = (sext(te(&a[0].0, w)?, w + 1), sext(te(&a[1].0, w)?, w + 1));
                let r = bin(if matches!(x, Ext::SAddSat) { BinOp::Add } else { BinOp::Sub }, p, q);
                let mx = konst((1u128 << (w - 1)) - 1, w + 1);
                let mn = sext(konst(1u128 << (w - 1), w), w + 1);
                let r2 = ite(cmp(Pred::Sgt, r.clone(), mx.clone()), mx, ite(cmp(Pred::Slt, r.clone(), mn.clone()), mn, r));
                Some(ev(extract(r2, 0, w)))
            }
            Ext::Ctlz | Ext::Cttz => {
                let w = a[0].1;
                let lz = matches!(x, Ext::Ctlz);
                if let Some(c) = cst(&a[0].0) {
                    let r = if lz { if c == 0 { w as u32 } else { c.leading_zeros() - (128 - w as u32) } } else if c == 0 { w as u32 } else { c.trailing_zeros() };
                    return Ok(Some(kv(r as u128, w)));
                }
                let e = te(&a[0].0, w)?;
                let mut acc = konst(w as u128, w);
                // first matching bit wins: build so that the highest-priority bit is outermost
                for k in 0..w {
                    let bit = if lz { k } else { w - 1 - k };
                    let cnt = if lz { w - 1 - bit } else { bit };
                    acc = ite(extract(e.clone(), bit, 1), konst(cnt as u128, w), acc);
                }
                Some(ev(acc))
            }
            Ext::Ctpop => {
                let w = a[0].1;
                if let Some(c) = cst(&a[0].0) { return Ok(Some(kv(c.count_ones() as u128, w))); }
                let e = te(&a[0].0, w)?;
                let mut acc = konst(0, w);
                for i in 0..w { acc = bin(BinOp::Add, acc, zext_or(extract(e.clone(), i, 1), w)); }
                Some(ev(acc))
            }
            Ext::Bitreverse => {
                let w = a[0].1;
                if let Some(c) = cst(&a[0].0) { return Ok(Some(kv(c.reverse_bits() >> (128 - w as u32), w))); }
                let e = te(&a[0].0, w)?;
                let mut acc = extract(e.clone(), 0, 1);
                for i in 1..w { acc = concat(acc, extract(e.clone(), i, 1)); }
                Some(ev(acc))
            }
            Ext::Bswap => {
                let w = a[0].1;
                if let Some(c) = cst(&a[0].0) { return Ok(Some(kv(c.swap_bytes() >> (128 - w as u32), w))); }
                let e = te(&a[0].0, w)?;
                let mut acc = extract(e.clone(), 0, 8);
                for i in 1..w / 8 { acc = concat(acc, extract(e.clone(), i * 8, 8)); }
                Some(ev(acc))
            }
            Ext::Abs => { let w = a[0].1; let n = vbin(BinOp::Sub, w, &kv(0, w), &a[0].0)?; let c = vcmp(Pred::Slt, w, &a[0].0, &kv(0, w))?; Some(ev(ite(te(&c, 1)?, te(&n, w)?, te(&a[0].0, w)?))) }
            Ext::Fshl | Ext::Fshr => {
                let w = a[0].1;
                let s = self.conc(st, &a[2].0, w)? % w as u128;
                let s = if matches!(x, Ext::Fshl) { s } else { (w as u128 - s) % w as u128 };
                if s == 0 { return Ok(Some(if matches!(x, Ext::Fshl) { a[0].0.clone() } else { a[1].0.clone() })); }
                let h = vbin(BinOp::Shl, w, &a[0].0, &kv(s, w))?;
                let l = vbin(BinOp::LShr, w, &a[1].0, &kv(w as u128 - s, w))?;
                Some(vbin(BinOp::Or, w, &h, &l)?)
            }
            Ext::Ovf(o, sg) => {
                let w = a[0].1;
                if let (Some(p), Some(q)) = (cst(&a[0].0), cst(&a[1].0)) {
                    let r = bin_c(*o, p, q, w);
                    let sh = 128 - w as u32;
                    let s = |v: u128| ((v << sh) as i128) >> sh;
                    let ov = if *sg {
                        let f = match o { BinOp::Add => s(p).checked_add(s(q)), BinOp::Sub => s(p).checked_sub(s(q)), _ => s(p).checked_mul(s(q)) };
                        f.map(|v| v != s(r)).unwrap_or(true)
                    } else {
                        let f = match o { BinOp::Add => p.checked_add(q), BinOp::Sub => p.checked_sub(q), _ => p.checked_mul(q) };
                        f.map(|v| v > mask(w)).unwrap_or(true)
                    };
                    return Ok(Some(Val::A(Arc::new(vec![kv(r, w), Val::C(ov as u64)]))));
                }
                let w2 = if *o == BinOp::Mul { w * 2 } else { w + 1 };
                if w2 > 128 { return Err(Stop::Unsup("wide overflow op".into())); }
                let xt = |e: E| if *sg { sext(e, w2) } else { zext(e, w2) };
                let (p, q) = (te(&a[0].0, w)?, te(&a[1].0, w)?);
                let r = bin(*o, p.clone(), q.clone());
                let big = bin(*o, xt(p), xt(q));
                let ov = cmp(Pred::Ne, big, xt(r.clone()));
                Some(Val::A(Arc::new(vec![ev(r), ev(ov)])))
            }
            Ext::VecReduce(o) => {
                let l = lanes(&a[0].0)?.clone();
                let w = l.iter().find_map(|v| if let Val::S(e) = v { Some(e.w) } else { None });
                if w.is_none() && *o == BinOp::Add { return Err(Stop::Unsup("vector.reduce.add".into())); }
                let w = w.unwrap_or(64);
                let mut acc = l[0].clone();
                for v in &l[1..] { acc = vbin(*o, w, &acc, v)?; }
                Some(acc)
            }
            Ext::Fp(n, d) => {
                let v = f_of(&a[0].0, *d)?;
                Some(match n.as_str() {
                    "fabs" => f_to(v.abs(), *d), "floor" => f_to(v.floor(), *d), "ceil" => f_to(v.ceil(), *d), "trunc" => f_to(v.trunc(), *d), "round" => f_to(v.round(), *d),
                    "copysign" => f_to(v.copysign(f_of(&a[1].0, *d)?), *d),
                    _ => return Err(Stop::Unsup(format!("fp intrinsic {n}"))),
                })
            }
            // ----- read-only files -----
            Ext::Open => {
                let p = c!(0);
                let s = self.cstr(st, p)?;
                match std::fs::read(&s) {
                    Ok(d) => { st.files.push(Some(File { data: Arc::new(d), pos: 0 })); Some(Val::C(100 + st.files.len() as u64 - 1)) }
                    Err(_) => { let e = st.errno; self.store_int(st, e, &Val::C(2), 32)?; Some(Val::C(0xFFFF_FFFF)) }
                }
            }
            Ext::Read => {
                let (fd, p, n) = (c!(0), c!(1), c!(2) as usize);
                let f = st.files.get_mut((fd as usize).wrapping_sub(100)).and_then(|f| f.as_mut()).ok_or(Stop::Unsup("read from unknown fd".into()))?;
                let k = n.min(f.data.len() - f.pos);
                let d = f.data[f.pos..f.pos + k].to_vec();
                f.pos += k;
                st.mem.write(p, &d, vec![]).map_err(er)?;
                Some(Val::C(k as u64))
            }
            Ext::Close => { let fd = c!(0) as usize; if let Some(f) = st.files.get_mut(fd.wrapping_sub(100)) { *f = None; } Some(Val::C(0)) }
            Ext::Lseek => {
                let (fd, off, wh) = (c!(0), c!(1), c!(2));
                let f = st.files.get_mut((fd as usize).wrapping_sub(100)).and_then(|f| f.as_mut()).ok_or(Stop::Unsup("lseek".into()))?;
                f.pos = match wh { 0 => off as usize, 1 => (f.pos as i64 + off as i64) as usize, _ => (f.data.len() as i64 + off as i64) as usize };
                Some(Val::C(f.pos as u64))
            }
            Ext::Statx => {
                // statx(dirfd, path, flags, mask, buf): report "not supported" so that std falls back, or size for fds we know
                let (fd, buf) = (c!(0), c!(4));
                let _ = buf;
                if let Some(Some(f)) = st.files.get((fd as usize).wrapping_sub(100)) {
                    let len = f.data.len() as u64;
                    let mut b = vec![0u8; 256];
                    b[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
                    b[28..30].copy_from_slice(&0o100644u16.to_le_bytes());
                    b[40..48].copy_from_slice(&len.to_le_bytes());
                    st.mem.write(buf, &b, vec![]).map_err(er)?;
                    return Ok(Some(Val::C(0)));
                }
                let pa = c!(1);
                let s = self.cstr(st, pa)?;
                match std::fs::metadata(&s) {
                    Ok(m) => {
                        let mut b = vec![0u8; 256];
                        b[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
                        b[28..30].copy_from_slice(&(if m.is_dir() { 0o040755u16 } else { 0o100644 }).to_le_bytes());
                        b[40..48].copy_from_slice(&m.len().to_le_bytes());
                        st.mem.write(buf, &b, vec![]).map_err(er)?;
                        Some(Val::C(0))
                    }
                    Err(_) => { let e = st.errno; self.store_int(st, e, &Val::C(2), 32)?; Some(Val::C(0xFFFF_FFFF)) }
                }
            }
            Ext::Realpath | Ext::Getcwd => {
                let r = if matches!(x, Ext::Realpath) { let pa = c!(0); let s = self.cstr(st, pa)?; std::fs::canonicalize(&s) } else { std::env::current_dir() };
                match r {
                    Ok(r) => {
                        let mut d = r.to_string_lossy().into_owned().into_bytes();
                        d.push(0);
                        let mut buf = if matches!(x, Ext::Realpath) { c!(1) } else { c!(0) };
                        if buf == 0 { buf = st.mem.malloc(d.len() as u64, 16).map_err(|e| Stop::Limit(e))?; }
                        st.mem.write(buf, &d, vec![]).map_err(er)?;
                        Some(Val::C(buf))
                    }
                    Err(_) => { let e = st.errno; self.store_int(st, e, &Val::C(2), 32)?; Some(Val::C(0)) }
                }
            }
            Ext::Readlink => return Err(Stop::Unsup(format!("{x:?}"))),
            // ----- harness interface -----
            Ext::VpSym => {
                let (p, n) = (c!(0), c!(1));
                for i in 0..n { let v = self.newvar(st); st.mem.set(p + i, B::S(var(v))).map_err(er)?; }
                None
            }
            Ext::VpRange | Ext::VpChoose => {
                let (lo, hi) = if matches!(x, Ext::VpRange) { (c!(0), c!(1)) } else { (0, c!(0) - 1) };
                // idempotent under re-execution after a fork: remember the variable per call position
                let pos = (st.frames.len() as u32) << 16 | st.frames.last().unwrap().ip;
                let v = if let Some((p, v)) = st.choices.last() { if *p == pos { Some(*v) } else { None } } else { None };
                let v = match v { Some(v) => v, None => {
                    let v = self.newvar(st);
                    let e = var(v);
                    let c = and(cmp(Pred::Uge, e.clone(), konst(lo as u128, 8)), cmp(Pred::Ule, e, konst(hi as u128, 8)));
                    let (t, _) = self.decide(&st.pc, &c)?;
                    if !t { return Err(Stop::Infeasible); }
                    Self::add(&mut st.pc, c);
                    if matches!(x, Ext::VpChoose) { st.choices.push((pos, v)); }
                    v
                } };
                let e = zext(var(v), 64);
                if matches!(x, Ext::VpRange) { Some(ev(e)) } else { let k = self.conc(st, &Val::S(e), 64)?; st.choices.pop(); Some(Val::C(k as u64)) }
            }
            Ext::VpAssume => {
                match &a[0].0 {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    v => {
                        let e = te(v, a[0].1)?;
                        let e = cmp(Pred::Ne, e.clone(), konst(0, e.w));
                        let (t, f) = self.decide(&st.pc, &e)?;
                        if !t { return Err(Stop::Infeasible); }
                        if f { Self::add(&mut st.pc, e); }
                    }
                }
                None
            }
            Ext::VpAssert => {
                self.sh.stats.asserts.fetch_add(1, Relaxed);
                let (p, n) = (c!(1), c!(2));
                let bad = match &a[0].0 {
                    Val::C(x) => *x == 0,
                    v => {
                        let e = te(v, a[0].1)?;
                        let e = cmp(Pred::Eq, e.clone(), konst(0, e.w));
                        self.sh.stats.asserts_solver.fetch_add(1, Relaxed);
                        let (t, _) = self.decide(&st.pc, &e)?;
                        if t { Self::add(&mut st.pc, e); }
                        t
                    }
                };
                if bad { let s = self.bytes(st, p, n as usize)?; return Err(Stop::Viol("assert".into(), s)); }
                None
            }
            Ext::VpCover => { let (p, n) = (c!(0), c!(1)); let s = self.bytes(st, p, n as usize)?; st.covers.insert(s); None }
            Ext::VpNote => {
                let (p, n) = (c!(0), c!(1));
                let mut b = vec![];
                for i in 0..n.min(4000) { b.push(st.mem.get(p + i).map_err(er)?); }
                st.notes.push((String::new(), b));
                None
            }
            Ext::VpEnd => return Err(Stop::End),
            Ext::Unknown(n) => return Err(Stop::Unsup(format!("external function {n}"))),
        })
    }
}

fn zext_or(e: E, w: u16) -> E { if e.w == w { e } else { zext(e, w) } }

fn cast(k: Cast, fw: u16, tw: u16, v: &Val) -> X<Val> {
    Ok(match (k, v) {
        (Cast::Trunc, Val::C(c)) => Val::C(c & m64(tw)),
        (Cast::Trunc, Val::W(c)) => kv(**c, tw),
        (Cast::Trunc, v) => ev(extract(te(v, fw)?, 0, tw)),
        (Cast::Zext, Val::C(c)) => kv(*c as u128, tw),
        (Cast::Zext, Val::W(c)) => kv(**c, tw),
        (Cast::Zext, v) => ev(zext(te(v, fw)?, tw)),
        (Cast::Sext, Val::C(c)) if tw <= 64 => { let s = 64 - fw as u32; Val::C((((*c << s) as i64) >> s) as u64 & m64(tw)) }
        (Cast::Sext, v) => ev(sext(te(v, fw)?, tw)),
        (Cast::FpExt, v) => f_to(f_of(v, false)?, true),
        (Cast::FpTrunc, v) => f_to(f_of(v, true)?, false),
        (Cast::UiToFp, v) => { let c = cst(v).ok_or(Stop::Unsup("symbolic int to float".into()))?; if tw == 64 { Val::C((c as f64).to_bits()) } else { Val::C((c as f32).to_bits() as u64) } }
        (Cast::SiToFp, v) => { let c = cst(v).ok_or(Stop::Unsup("symbolic int to float".into()))?; let s = 128 - fw as u32; let c = ((c << s) as i128) >> s; if tw == 64 { Val::C((c as f64).to_bits()) } else { Val::C((c as f32).to_bits() as u64) } }
        (Cast::FpToUi, v) => kv(f_of(v, fw == 64)? as u128, tw),
        (Cast::FpToSi, v) => kv(f_of(v, fw == 64)? as i128 as u128, tw),
    })
}

fn bitcast(f: &MTy, t: &MTy, v: &Val) -> X<Val> {
    // through a flat bit string
    let bits: E = match f {
        MTy::Vec(n, w) => {
            let l = lanes(v)?;
            if l.iter().all(|x| cst(x).is_some()) && *n as u32 * *w as u32 <= 128 {
                let mut acc = 0u128;
                for i in (0..*n as usize).rev() { acc = if *w >= 128 { 0 } else { acc << w } | cst(&l[i]).unwrap(); }
                konst(acc, *n as u16 * *w)
            } else {
                let mut acc = te(&l[0], *w)?;
                for x in &l[1..] { acc = concat(te(x, *w)?, acc); }
                acc
            }
        }
        MTy::Int(w) => te(v, *w)?,
        MTy::F32 => te(v, 32)?,
        MTy::F64 => te(v, 64)?,
        _ => return Err(Stop::Unsup("bitcast".into())),
    };
    Ok(match t {
        MTy::Vec(n, w) => Val::A(Arc::new((0..*n as u16).map(|i| ev(extract(bits.clone(), i * w, *w))).collect())),
        _ => ev(bits),
    })
}

pub fn short(n: &str) -> String { n.chars().take(160).collect() }

pub fn show(e: &E, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match &e.k {
        K::Const(c) => format!("{c:#x}:{}", e.w),
        K::Var(v) => format!("v{v}"),
        K::Bin(o, a, b) => format!("({o:?} {} {})", show(a, d - 1), show(b, d - 1)),
        K::Cmp(o, a, b) => format!("({o:?} {} {})", show(a, d - 1), show(b, d - 1)),
        K::Ite(c, a, b) => format!("(ite {} {} {})", show(c, d - 1), show(a, d - 1), show(b, d - 1)),
        K::Zext(a) => format!("(zx{} {})", e.w, show(a, d - 1)),
        K::Sext(a) => format!("(sx{} {})", e.w, show(a, d - 1)),
        K::Extract(l, a) => format!("(ex{l}:{} {})", e.w, show(a, d - 1)),
        K::Concat(a, b) => format!("({}.{})", show(a, d - 1), show(b, d - 1)),
        K::Lut(a, _) => format!("(lut {})", show(a, d - 1)),
    }
}

fn flatten(e: &E, conj: bool, out: &mut Vec<E>) {
    match &e.k {
        K::Bin(BinOp::And, a, b) if conj && e.w == 1 => { flatten(a, conj, out); flatten(b, conj, out) }
        K::Bin(BinOp::Or, a, b) if !conj && e.w == 1 => { flatten(a, conj, out); flatten(b, conj, out) }
        _ => out.push(e.clone()),
    }
}
