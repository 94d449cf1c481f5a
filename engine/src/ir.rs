//! Parser for textual LLVM IR (as printed by the toolchain's llvm-dis) into a compact form.
use crate::exec::{Ext, Val};
use crate::expr::{BinOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(..) => self.layout().1,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, t => t.size() * 8 } }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = self {
            let mut o = 0;
            let mut v = vec![];
            for t in f.iter() {
                if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                v.push(o);
                o += t.size();
            }
            if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
            (v, o)
        } else { (vec![], self.size()) }
    }
}

/// Shape of values in memory, thread-safe version of Ty.
#[derive(Clone, Debug)]
pub enum MTy { Int(u16), F32, F64, Vec(u32, u16), Agg(Arc<Vec<(u64, MTy)>>) }

pub fn mty(t: &Ty) -> Option<MTy> {
    Some(match t {
        Ty::Int(w) => MTy::Int(*w),
        Ty::Ptr => MTy::Int(64),
        Ty::F32 => MTy::F32,
        Ty::F64 => MTy::F64,
        Ty::Vec(n, e) => match &**e { Ty::Int(w) => MTy::Vec(*n as u32, *w), Ty::Ptr => MTy::Vec(*n as u32, 64), _ => return None },
        Ty::Struct(f, _) => {
            let (o, _) = t.layout();
            MTy::Agg(Arc::new(f.iter().zip(o).map(|(t, o)| Some((o, mty(t)?))).collect::<Option<Vec<_>>>()?))
        }
        Ty::Arr(n, e) => {
            let m = mty(e)?;
            let s = e.size();
            MTy::Agg(Arc::new((0..*n).map(|i| (i * s, m.clone())).collect()))
        }
        _ => return None,
    })
}

#[derive(Clone)]
pub enum Op { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, Debug)]
pub enum Cast { Trunc, Zext, Sext, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

pub enum Callee { F(u32), Ext(Ext), Ind(Op) }

pub enum Inst {
    Bin(BinOp, u16, u32, Op, Op),
    VBin(BinOp, u16, u32, Op, Op),
    Cmp(Pred, u16, u32, Op, Op),
    VCmp(Pred, u16, u32, Op, Op),
    FBin(FOp, bool, u32, Op, Op),
    FNeg(bool, u32, Op),
    FCmp(String, bool, u32, Op, Op),
    Cast(Cast, u16, u16, u32, Op),
    VCast(Cast, u16, u16, u32, Op),
    /// reinterpret: from and to shapes
    BitCast(MTy, MTy, u32, Op),
    Copy(u32, Op),
    Select(bool, Option<u16>, u32, Op, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u16, i64)>),
    Load(u32, MTy, Op),
    Store(MTy, Op, Op),
    Alloca(u32, u64, u64, Op, u16),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    /// dst, callee, args (with widths; 0 = not an integer), normal destination for invokes
    Call(Option<u32>, Callee, Vec<(Op, u16)>, Option<u32>),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>, MTy),
    ExtractElem(u32, Op, Op, u16),
    InsertElem(u32, Op, Op, Op, u16, u32),
    Shuffle(u32, Op, Op, u32, Vec<u32>),
    AtomicRmw(String, u32, u16, Op, Op),
    CmpXchg(u32, u16, Op, Op, Op),
    Nop,
    Unsupported(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst> }

pub struct Func { pub name: String, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub is_panic: bool, pub is_std: bool }

pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub gdata: Vec<u8>,
    pub gnames: HashMap<String, u64>,
}

pub const GBASE: u64 = 0x10000;
pub const FBASE: u64 = 0x4000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T { W(String), L(String), G(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), M, Ell }

fn unq(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(s.len() / 4);
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let j = s[i + 2..].find('"').unwrap() + i + 2;
                    name = String::from_utf8_lossy(&unq(&s[i + 2..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => { let j = s[i + 1..].find('"').unwrap() + i + 1; o.push(T::Str(unq(&s[i + 1..j]))); i = j + 1; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let j = s[i + 2..].find('"').unwrap() + i + 2; o.push(T::CStr(unq(&s[i + 2..j]))); i = j + 1; }
            b'!' | b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                o.push(T::M);
                i = j;
            }
            b'.' if s[i..].starts_with("...") => { o.push(T::Ell); i += 3; }
            b'+' => { i += 1; }
            _ if idc(c) => {
                let mut j = i;
                while j < b.len() && (idc(b[j]) || (b[j] == b'+' && b[j - 1] == b'e')) { j += 1; }
                o.push(T::W(s[i..j].to_string()));
                i = j;
            }
            _ => { o.push(T::P(c as char)); i += 1; }
        }
    }
    o
}

struct Cur<'a> { t: &'a [T], i: usize, cx: &'a Ctx, locals: Option<&'a mut Locals> }
#[derive(Default)]
struct Locals { m: HashMap<String, u32>, n: u32 }
impl Locals {
    fn get(&mut self, s: &str) -> u32 { if let Some(x) = self.m.get(s) { *x } else { let n = self.n; self.n += 1; self.m.insert(s.to_string(), n); n } }
}
pub struct Ctx { types: HashMap<String, Ty>, gaddr: HashMap<String, u64>, fidx: HashMap<String, u32>, decls: HashMap<String, ()> }

type R<X> = Result<X, String>;

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    fn next(&mut self) -> R<&'a T> { let r = self.t.get(self.i).ok_or("eol")?; self.i += 1; Ok(r) }
    fn p(&mut self, c: char) -> R<()> { match self.next()? { T::P(d) if *d == c => Ok(()), t => Err(format!("expected {c} got {t:?}")) } }
    fn isp(&self, c: char) -> bool { matches!(self.peek(), Some(T::P(d)) if *d == c) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(T::W(d)) if d == w) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn word(&mut self) -> R<&'a str> { match self.next()? { T::W(w) => Ok(w), t => Err(format!("expected word got {t:?}")) } }
    fn skip_paren(&mut self) -> R<()> {
        self.p('(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } }
        Ok(())
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.eatw("addrspace") { self.skip_paren()?; } Ty::Ptr }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque" => Ty::Other,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                w => return Err(format!("type {w}")),
            },
            T::P('[') => { let n: u64 = self.word()?.parse().map_err(|_| "arr")?; self.word()?; let t = self.ty()?; self.p(']')?; Ty::Arr(n, Rc::new(t)) }
            T::P('<') => {
                if self.isp('{') {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.isp('}') { v.push(self.ty()?); self.eatp(','); }
                    self.p('}')?;
                    self.p('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else { let n: u64 = self.word()?.parse().map_err(|_| "vec")?; self.word()?; let t = self.ty()?; self.p('>')?; Ty::Vec(n, Rc::new(t)) }
            }
            T::P('{') => {
                let mut v = vec![];
                while !self.isp('}') { v.push(self.ty()?); self.eatp(','); }
                self.p('}')?;
                Ty::Struct(Rc::new(v), false)
            }
            T::L(n) => self.cx.types.get(n).cloned().ok_or(format!("type %{n}"))?,
            t => return Err(format!("type {t:?}")),
        };
        Ok(t)
    }
    fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(Self::zero).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Arc::new((0..*n).map(|_| Self::zero(e)).collect())),
            _ => Val::C(0),
        }
    }
    fn global(&self, n: &str) -> R<u64> {
        if let Some(a) = self.cx.gaddr.get(n) { return Ok(*a); }
        if let Some(f) = self.cx.fidx.get(n) { return Ok(FBASE + *f as u64 * 16); }
        if self.cx.decls.contains_key(n) { return Ok(0xDEAD_0000); }
        Err(format!("unknown global {n}"))
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        Ok(match self.next()? {
            T::L(n) => Op::R(self.locals.as_mut().ok_or("local")?.get(n)),
            T::G(n) => Op::K(Val::C(self.global(n)?)),
            T::CStr(b) => Op::K(Val::A(Arc::new(b.iter().map(|c| Val::C(*c as u64)).collect()))),
            T::P('[') | T::P('{') => { self.i -= 1; self.agg()? }
            T::P('<') => { self.i -= 1; self.agg()? }
            T::W(w) => match w.as_str() {
                "true" => Op::K(Val::C(1)),
                "false" | "null" | "none" => Op::K(Self::zero(t)),
                "undef" | "poison" | "zeroinitializer" => Op::K(Self::zero(t)),
                "getelementptr" => {
                    while matches!(self.peek(), Some(T::W(_))) { self.i += 1; if self.isp('(') && matches!(self.t[self.i-1], T::W(ref w) if w == "inrange") { self.skip_paren()?; } }
                    self.p('(')?;
                    let et = self.ty()?;
                    self.p(',')?;
                    let pt = self.ty()?;
                    let b = self.val(&pt)?;
                    let mut idx = vec![];
                    while self.eatp(',') { let it = self.ty()?; let v = self.val(&it)?; idx.push((v, it)); }
                    self.p(')')?;
                    let (off, dynidx) = gep_off(&et, idx)?;
                    if !dynidx.is_empty() { return Err("dynamic const gep".into()); }
                    match b { Op::K(Val::C(x)) => Op::K(Val::C(x.wrapping_add(off as u64))), _ => return Err("const gep".into()) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    let tr = w == "trunc";
                    self.p('(')?;
                    let st = self.ty()?;
                    let v = self.val(&st)?;
                    self.word()?;
                    let dt = self.ty()?;
                    self.p(')')?;
                    if tr { match (v, dt) { (Op::K(Val::C(x)), Ty::Int(n)) if n < 64 => Op::K(Val::C(x & ((1 << n) - 1))), _ => return Err("const trunc".into()) } } else { v }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Some(T::W(_))) { self.i += 1; }
                    self.p('(')?;
                    let t1 = self.ty()?;
                    let a = self.val(&t1)?;
                    self.p(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2)?;
                    self.p(')')?;
                    match (a, b) { (Op::K(Val::C(x)), Op::K(Val::C(y))) => {
                        let r = match w.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => x ^ y };
                        let r = if let Ty::Int(n) = t1 { if n < 64 { r & ((1 << n) - 1) } else { r } } else { r };
                        Op::K(Val::C(r))
                    }, _ => return Err("const expr".into()) }
                }
                "splat" => {
                    self.p('(')?;
                    let et = self.ty()?;
                    let v = match self.val(&et)? { Op::K(v) => v, _ => return Err("splat".into()) };
                    self.p(')')?;
                    let n = match t { Ty::Vec(n, _) => *n, _ => return Err("splat type".into()) };
                    Op::K(Val::A(Arc::new(vec![v; n as usize])))
                }
                w => match t {
                    Ty::Int(n) => {
                        let v: u128 = if let Some(h) = w.strip_prefix("-") { (h.parse::<u128>().map_err(|_| format!("int {w}"))?).wrapping_neg() } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { u128::from_str_radix(h, 16).map_err(|_| format!("int {w}"))? } else { w.parse().map_err(|_| format!("int {w}"))? };
                        let v = v & crate::expr::mask(*n);
                        Op::K(if *n > 64 { Val::W(Box::new(v)) } else { Val::C(v as u64) })
                    }
                    Ty::F64 | Ty::F32 => {
                        let d: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {w}"))?) } else if let Some(h) = w.strip_prefix("f0x") {
                            let bits = u64::from_str_radix(h, 16).map_err(|_| format!("float {w}"))?;
                            return Ok(Op::K(Val::C(bits)));
                        } else {
                            match w { "inf" | "pinf" => f64::INFINITY, "-inf" | "ninf" => f64::NEG_INFINITY, "qnan" | "nan" => f64::NAN, _ => w.parse().map_err(|_| format!("float {w}"))? }
                        };
                        Op::K(Val::C(if *t == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() }))
                    }
                    _ => return Err(format!("value {w} of {t:?}")),
                },
            },
            t => return Err(format!("value {t:?}")),
        })
    }
    fn agg(&mut self) -> R<Op> {
        let mut close = vec![];
        match self.next()? {
            T::P('[') => close.push(']'),
            T::P('{') => close.push('}'),
            T::P('<') => { if self.isp('{') { self.i += 1; close.push('}'); } close.push('>'); }
            _ => return Err("agg".into()),
        }
        let mut v = vec![];
        while !self.isp(close[0]) {
            let t = self.ty()?;
            match self.val(&t)? { Op::K(x) => v.push(x), _ => return Err("agg local".into()) }
            self.eatp(',');
        }
        for c in close { self.p(c)?; }
        Ok(Op::K(Val::A(Arc::new(v))))
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    if matches!(w.as_str(), "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "add" | "sub" | "xor" | "trunc" | "inf" | "pinf" | "ninf" | "qnan" | "nan" | "ptrtoaddr") || w.as_bytes()[0].is_ascii_digit() || w.starts_with('-') || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") { return Ok(()); }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') { self.skip_paren()?; } else if al { self.i += 1; }
                }
                Some(T::Str(_)) => { self.i += 1; if self.eatp('=') { self.i += 1; } }
                _ => return Ok(()),
            }
        }
    }
    fn tv(&mut self) -> R<(Ty, Op)> { let t = self.ty()?; let v = self.val(&t)?; Ok((t, v)) }
    fn reg(&mut self, s: &str) -> u32 { self.locals.as_mut().unwrap().get(s) }
}

fn gep_off(t: &Ty, idx: Vec<(Op, Ty)>) -> R<(i64, Vec<(Op, u16, i64)>)> {
    let mut off = 0i64;
    let mut dynv = vec![];
    let mut cur = t.clone();
    for (i, (o, it)) in idx.into_iter().enumerate() {
        let w = match it { Ty::Int(w) => w, _ => return Err("gep index type".into()) };
        let k = if let Op::K(Val::C(c)) = &o { let s = 64 - w as u32; Some(((*c << s) as i64) >> s) } else { None };
        if i == 0 {
            let s = cur.size() as i64;
            match k { Some(c) => off += c * s, None => dynv.push((o, w, s)) }
            continue;
        }
        match cur.clone() {
            Ty::Struct(f, _) => { let c = k.ok_or("struct gep")? as usize; off += cur.layout().0[c] as i64; cur = f[c].clone(); }
            Ty::Arr(_, e) | Ty::Vec(_, e) => { let s = e.size() as i64; match k { Some(c) => off += c * s, None => dynv.push((o, w, s)) } cur = (*e).clone(); }
            _ => return Err("gep type".into()),
        }
    }
    Ok((off, dynv))
}

fn w_of(t: &Ty) -> u16 { match t { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => 0 } }

fn parse_inst(toks: &[T], cx: &Ctx, lo: &mut Locals, labels: &mut Locals) -> R<Inst> {
    let mut dst = None;
    let mut start = 0;
    if toks.len() > 2 { if let (T::L(n), T::P('=')) = (&toks[0], &toks[1]) { dst = Some(lo.get(n)); start = 2; } }
    let mut c = Cur { t: toks, i: start, cx, locals: Some(lo) };
    let d = dst.unwrap_or(u32::MAX);
    let mut op = c.word()?;
    if matches!(op, "tail" | "musttail" | "notail") { op = c.word()?; }
    let binop = |s: &str| Some(match s { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None });
    macro_rules! label { () => {{ match (c.word()?, c.next()?) { ("label", T::L(n)) => labels.get(n), x => return Err(format!("label {x:?}")) } }}; }
    macro_rules! flags { () => { while let Some(T::W(_)) = c.peek() { if c.is_type() { break; } c.i += 1; if c.isp('(') { c.skip_paren()?; } } }; }
    if let Some(b) = binop(op) {
        flags!();
        let t = c.ty()?;
        let a = c.val(&t)?;
        c.p(',')?;
        let e = c.val(&t)?;
        return Ok(match t { Ty::Vec(_, el) => Inst::VBin(b, w_of(&el), d, a, e), t => Inst::Bin(b, w_of(&t), d, a, e) });
    }
    Ok(match op {
        "icmp" => {
            let mut w = c.word()?;
            if w == "samesign" { w = c.word()?; }
            let p = match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(format!("icmp {x}")) };
            let t = c.ty()?;
            let a = c.val(&t)?;
            c.p(',')?;
            let b = c.val(&t)?;
            match t { Ty::Vec(_, el) => Inst::VCmp(p, w_of(&el), d, a, b), t => Inst::Cmp(p, w_of(&t), d, a, b) }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let f = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            flags!();
            let t = c.ty()?;
            let a = c.val(&t)?;
            c.p(',')?;
            let b = c.val(&t)?;
            if !matches!(t, Ty::F32 | Ty::F64) { return Ok(Inst::Unsupported("vector float".into())); }
            Inst::FBin(f, t == Ty::F64, d, a, b)
        }
        "fneg" => { flags!(); let (t, v) = c.tv()?; Inst::FNeg(t == Ty::F64, d, v) }
        "fcmp" => {
            let mut p = c.word()?.to_string();
            while !c.is_type() { p = c.word()?.to_string(); }
            let t = c.ty()?;
            let a = c.val(&t)?;
            c.p(',')?;
            let b = c.val(&t)?;
            Inst::FCmp(p, t == Ty::F64, d, a, b)
        }
        "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
            flags!();
            let (t, v) = c.tv()?;
            c.word()?;
            let u = c.ty()?;
            match (&t, &u) { (Ty::Vec(_, a), Ty::Vec(_, b)) => Inst::VCast(k, w_of(a), w_of(b), d, v), _ => Inst::Cast(k, w_of(&t), w_of(&u), d, v) }
        }
        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            flags!();
            let (t, v) = c.tv()?;
            c.word()?;
            let u = c.ty()?;
            let (a, b) = (w_of(&t), w_of(&u));
            if a == b { Inst::Copy(d, v) } else if a > b { Inst::Cast(Cast::Trunc, a, b, d, v) } else { Inst::Cast(Cast::Zext, a, b, d, v) }
        }
        "bitcast" => {
            let (t, v) = c.tv()?;
            c.word()?;
            let u = c.ty()?;
            match (mty(&t), mty(&u)) { (Some(MTy::Vec(n, w)), Some(b)) => Inst::BitCast(MTy::Vec(n, w), b, d, v), (Some(a), Some(b @ MTy::Vec(..))) => Inst::BitCast(a, b, d, v), (Some(_), Some(_)) => Inst::Copy(d, v), _ => return Err("bitcast".into()) }
        }
        "freeze" => { let (_, v) = c.tv()?; Inst::Copy(d, v) }
        "select" => {
            flags!();
            let (ct, cv) = c.tv()?;
            c.p(',')?;
            let (t, a) = c.tv()?;
            c.p(',')?;
            let (_, b) = c.tv()?;
            if matches!(ct, Ty::Vec(..)) { return Ok(Inst::Unsupported("vector select".into())); }
            let w = match t { Ty::Int(w) => Some(w), _ => None };
            Inst::Select(t == Ty::Ptr, w, d, cv, a, b)
        }
        "getelementptr" => {
            flags!();
            let et = c.ty()?;
            c.p(',')?;
            let (bt, b) = c.tv()?;
            if bt != Ty::Ptr { return Ok(Inst::Unsupported("vector gep".into())); }
            let mut idx = vec![];
            while c.isp(',') { c.i += 1; if matches!(c.peek(), Some(T::M)) { break; } let (t, v) = c.tv()?; idx.push((v, t)); }
            let (off, dy) = gep_off(&et, idx)?;
            Inst::Gep(d, b, off, dy)
        }
        "load" => {
            c.eatw("atomic");
            c.eatw("volatile");
            let t = c.ty()?;
            c.p(',')?;
            let (_, p) = c.tv()?;
            Inst::Load(d, mty(&t).ok_or("load type")?, p)
        }
        "store" => {
            c.eatw("atomic");
            c.eatw("volatile");
            let (t, v) = c.tv()?;
            c.p(',')?;
            let (_, p) = c.tv()?;
            Inst::Store(mty(&t).ok_or("store type")?, v, p)
        }
        "alloca" => {
            let t = c.ty()?;
            let mut al = t.align();
            let mut cnt = Op::K(Val::C(1));
            let mut cw = 64;
            while c.eatp(',') {
                if c.eatw("align") { al = c.word()?.parse().map_err(|_| "align")?; }
                else if c.is_type() { let (ct, v) = c.tv()?; cnt = v; cw = w_of(&ct); } else { break; }
            }
            Inst::Alloca(d, t.size(), al, cnt, cw)
        }
        "br" => {
            if c.isw("label") { let l = label!(); return Ok(Inst::Br(l)); }
            let (_, v) = c.tv()?;
            c.p(',')?;
            let a = label!();
            c.p(',')?;
            let b = label!();
            Inst::CondBr(v, a, b)
        }
        "switch" => {
            let (t, v) = c.tv()?;
            c.p(',')?;
            let def = label!();
            c.p('[')?;
            let mut cs = vec![];
            while !c.isp(']') {
                let (_, k) = c.tv()?;
                c.p(',')?;
                let l = label!();
                let k = match k { Op::K(Val::C(x)) => x as u128, Op::K(Val::W(x)) => *x, _ => return Err("case".into()) };
                cs.push((k, l));
            }
            Inst::Switch(v, w_of(&t), def, cs)
        }
        "ret" => { let t = c.ty()?; if t == Ty::Void { Inst::Ret(None) } else { Inst::Ret(Some(c.val(&t)?)) } }
        "unreachable" => Inst::Unreachable,
        "resume" | "landingpad" | "cleanuppad" | "catchpad" => Inst::Unsupported(op.into()),
        "fence" => Inst::Nop,
        "extractvalue" => {
            let (_, v) = c.tv()?;
            let mut ix = vec![];
            while c.eatp(',') { match c.peek() { Some(T::W(w)) => { ix.push(w.parse().map_err(|_| "ix")?); c.i += 1; } _ => break } }
            Inst::ExtractValue(d, v, ix)
        }
        "insertvalue" => {
            let (t, v) = c.tv()?;
            c.p(',')?;
            let (_, x) = c.tv()?;
            let mut ix = vec![];
            while c.eatp(',') { match c.peek() { Some(T::W(w)) => { ix.push(w.parse().map_err(|_| "ix")?); c.i += 1; } _ => break } }
            Inst::InsertValue(d, v, x, ix, mty(&t).ok_or("insertvalue")?)
        }
        "extractelement" => { let (_, v) = c.tv()?; c.p(',')?; let (it, i) = c.tv()?; Inst::ExtractElem(d, v, i, w_of(&it)) }
        "insertelement" => { let (t, v) = c.tv()?; c.p(',')?; let (_, x) = c.tv()?; c.p(',')?; let (it, i) = c.tv()?; let n = match t { Ty::Vec(n, _) => n as u32, _ => 0 }; Inst::InsertElem(d, v, x, i, w_of(&it), n) }
        "shufflevector" => {
            let (t, a) = c.tv()?;
            c.p(',')?;
            let (_, b) = c.tv()?;
            c.p(',')?;
            let (_, m) = c.tv()?;
            let n = match t { Ty::Vec(n, _) => n as u32, _ => 0 };
            let m = match m { Op::K(Val::A(v)) => v.iter().map(|x| match x { Val::C(c) => *c as u32, _ => 0 }).collect(), _ => return Err("shuffle mask".into()) };
            Inst::Shuffle(d, a, b, n, m)
        }
        "atomicrmw" => {
            c.eatw("volatile");
            let o = c.word()?.to_string();
            let (_, p) = c.tv()?;
            c.p(',')?;
            let (t, v) = c.tv()?;
            Inst::AtomicRmw(o, d, w_of(&t), p, v)
        }
        "cmpxchg" => {
            c.eatw("weak");
            c.eatw("volatile");
            let (_, p) = c.tv()?;
            c.p(',')?;
            let (t, a) = c.tv()?;
            c.p(',')?;
            let (_, b) = c.tv()?;
            Inst::CmpXchg(d, w_of(&t), p, a, b)
        }
        "call" | "invoke" => {
            while !c.is_type() {
                match c.next()? { T::W(w) => { if c.isp('(') { c.skip_paren()?; } else if (w == "align" || w == "cc") && matches!(c.peek(), Some(T::W(_))) { c.i += 1; } } t => return Err(format!("call attr {t:?}")) }
            }
            let _rt = c.ty()?;
            if c.isp('(') { c.skip_paren()?; }
            let mut skip = false;
            let callee = match c.next()? {
                T::G(n) => {
                    if let Some(f) = cx.fidx.get(n) { Callee::F(*f) } else if let Some(e) = Ext::lookup(n) { if matches!(e, Ext::Nop) { skip = true; } Callee::Ext(e) } else { Callee::Ext(Ext::Unknown(n.clone().into())) }
                }
                T::L(n) => Callee::Ind(Op::R(c.reg(n))),
                T::W(w) if w == "asm" => {
                    let mut last = vec![];
                    while !c.isp('(') { if let T::Str(s) = c.next()? { last.push(s.clone()); } }
                    if last.first().map(|s| s.is_empty()) == Some(true) && d == u32::MAX { return Ok(Inst::Nop); }
                    return Ok(Inst::Unsupported(format!("inline asm {:?}", last.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>())));
                }
                t => return Err(format!("callee {t:?}")),
            };
            if skip && op == "call" { return Ok(Inst::Nop); }
            c.p('(')?;
            let mut args = vec![];
            while !c.isp(')') {
                let t = c.ty()?;
                if t == Ty::Other { // metadata operand
                    let mut dp = 0;
                    loop { match c.peek() { Some(T::P('(')) => dp += 1, Some(T::P(')')) => { if dp == 0 { break; } dp -= 1; } Some(T::P(',')) if dp == 0 => break, None => break, _ => {} } c.i += 1; }
                } else {
                    if c.isw("byval") { return Ok(Inst::Unsupported("byval".into())); }
                    c.skip_attrs()?;
                    let v = c.val(&t)?;
                    args.push((v, w_of(&t)));
                }
                c.eatp(',');
            }
            c.p(')')?;
            let mut nd = None;
            if op == "invoke" {
                while !c.isw("to") { c.next()?; }
                c.i += 1;
                nd = Some(label!());
            }
            Inst::Call(dst, callee, args, nd)
        }
        o => Inst::Unsupported(o.into()),
    })
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut cx = Ctx { types: HashMap::new(), gaddr: HashMap::new(), fidx: HashMap::new(), decls: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    let mut globals: Vec<(String, Vec<T>, usize)> = vec![];
    let mut aliases: Vec<(String, Vec<T>)> = vec![];
    let mut fns: Vec<(usize, usize, String)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') {
            let t = lex(l);
            if let T::L(n) = &t[0] {
                let mut c = Cur { t: &t, i: 3, cx: &cx, locals: None };
                let ty = c.ty().unwrap_or(Ty::Other);
                let n = n.clone();
                cx.types.insert(n, ty);
            }
        } else if l.starts_with('@') {
            let t = lex(l);
            if let T::G(n) = &t[0] {
                let name = n.clone();
                let mut k = 2;
                let mut kind = "";
                while k < t.len() {
                    if let T::W(w) = &t[k] { if matches!(w.as_str(), "global" | "constant" | "alias" | "ifunc") { kind = w; break; } }
                    k += 1;
                }
                if kind == "alias" { aliases.push((name, t.clone())); } else {
                    let ext = t.iter().take(k).any(|x| matches!(x, T::W(w) if w == "external" || w == "extern_weak"));
                    if ext { cx.decls.insert(name, ()); } else { globals.push((name, t, k + 1)); }
                }
            }
        } else if l.starts_with("define") {
            let n = fn_name(l).ok_or("define name")?;
            let s = i;
            while lines[i] != "}" { i += 1; }
            cx.fidx.insert(n.clone(), fns.len() as u32);
            fns.push((s, i, n));
        } else if l.starts_with("declare") {
            if let Some(n) = fn_name(l) { cx.decls.insert(n, ()); }
        }
        i += 1;
    }
    // lay out globals
    let mut addr = GBASE;
    let mut tys = vec![];
    for (n, t, k) in &globals {
        let mut c = Cur { t, i: *k, cx: &cx, locals: None };
        let ty = c.ty().map_err(|e| format!("global {n}: {e}"))?;
        let vi = c.i;
        addr = (addr + 15) / 16 * 16;
        tys.push((ty.clone(), addr, vi));
        let a = addr;
        addr += ty.size().max(1);
        cx.gaddr.insert(n.clone(), a);
    }
    for (n, t) in &aliases {
        let tgt = t.iter().skip(1).rev().find_map(|x| if let T::G(g) = x { Some(g.clone()) } else { None }).ok_or("alias")?;
        if let Some(a) = cx.gaddr.get(&tgt).copied() { cx.gaddr.insert(n.clone(), a); } else if let Some(f) = cx.fidx.get(&tgt).copied() { cx.fidx.insert(n.clone(), f); }
    }
    let mut gdata = vec![0u8; (addr - GBASE) as usize + 64];
    for ((n, t, _), (ty, a, vi)) in globals.iter().zip(&tys) {
        let mut c = Cur { t, i: *vi, cx: &cx, locals: None };
        let v = c.val(ty).map_err(|e| format!("init of {n}: {e}"))?;
        if let Op::K(v) = v { put(&mut gdata, a - GBASE, ty, &v)?; }
    }
    let mut funcs = vec![];
    for (s, e, n) in &fns {
        funcs.push(parse_fn(&lines[*s..*e], n, &cx).map_err(|e| format!("{n}: {e}"))?);
    }
    Ok(Module { funcs, fmap: cx.fidx.clone(), gdata, gnames: cx.gaddr.clone() })
}

fn put(g: &mut [u8], o: u64, t: &Ty, v: &Val) -> R<()> {
    let o = o as usize;
    match (t, v) {
        (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, Val::C(c)) => { let n = t.size().min(8) as usize; g[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]); }
        (Ty::Int(_), Val::W(c)) => g[o..o + 16].copy_from_slice(&c.to_le_bytes()),
        (Ty::Arr(_, e) | Ty::Vec(_, e), Val::A(vs)) => { let s = e.size(); for (i, x) in vs.iter().enumerate() { put(g, o as u64 + i as u64 * s, e, x)?; } }
        (Ty::Struct(f, _), Val::A(vs)) => { let (l, _) = t.layout(); for (i, x) in vs.iter().enumerate() { put(g, o as u64 + l[i], &f[i], x)?; } }
        _ => return Err(format!("initialiser {t:?}")),
    }
    Ok(())
}

fn fn_name(l: &str) -> Option<String> {
    let i = l.find('@')?;
    let r = &l[i + 1..];
    if let Some(q) = r.strip_prefix('"') { return Some(q[..q.find('"')?].to_string()); }
    Some(r[..r.find('(')?].to_string())
}

fn parse_fn(lines: &[&str], name: &str, cx: &Ctx) -> R<Func> {
    let mut lo = Locals::default();
    let mut lb = Locals::default();
    let hdr = lex(lines[0]);
    let gi = hdr.iter().position(|t| matches!(t, T::G(_))).ok_or("hdr")?;
    let mut params = vec![];
    let mut unnamed = 0;
    {
        let mut c = Cur { t: &hdr, i: gi + 1, cx, locals: None };
        c.p('(')?;
        while !c.isp(')') {
            if matches!(c.peek(), Some(T::Ell)) { c.i += 1; continue; }
            let _t = c.ty()?;
            loop {
                match c.peek() {
                    Some(T::L(n)) => { if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; } params.push(lo.get(n)); c.i += 1; break; }
                    Some(T::P(',')) | Some(T::P(')')) => { params.push(lo.get(&format!("{unnamed}"))); unnamed += 1; break; }
                    Some(T::P('(')) => c.skip_paren()?,
                    _ => { c.next()?; }
                }
            }
            c.eatp(',');
        }
    }
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    let entry = {
        let mut l = None;
        for x in &lines[1..] { if x.trim().is_empty() { continue; } if let Some(n) = label_of(x) { l = Some(n); } break; }
        lb.get(&l.unwrap_or(format!("{unnamed}")))
    };
    let mut cur = entry;
    blocks.insert(cur, Block { phis: vec![], insts: vec![] });
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k];
        k += 1;
        if l.is_empty() || l.starts_with(';') { continue; }
        if let Some(n) = label_of(l) { cur = lb.get(&n); blocks.entry(cur).or_insert(Block { phis: vec![], insts: vec![] }); continue; }
        let tl = l.trim_start();
        if tl.starts_with("#dbg") || tl.starts_with(';') || tl.is_empty() { continue; }
        let mut s = l.to_string();
        while k < lines.len() && (lines[k].starts_with("   ") || lines[k].trim_start().starts_with(']')) { s.push(' '); s.push_str(lines[k].split(" ;").next().unwrap()); k += 1; }
        let toks = lex(&s);
        if toks.is_empty() { continue; }
        // phi
        if toks.len() > 3 {
            if let (T::L(d), T::P('='), T::W(w)) = (&toks[0], &toks[1], &toks[2]) {
                if w == "phi" {
                    let dst = lo.get(d);
                    let mut c = Cur { t: &toks, i: 3, cx, locals: Some(&mut lo) };
                    while !c.is_type() { c.i += 1; }
                    let t = c.ty()?;
                    let mut inc = vec![];
                    loop {
                        c.p('[')?;
                        let v = c.val(&t)?;
                        c.p(',')?;
                        let b = match c.next()? { T::L(n) => lb.get(n), x => return Err(format!("phi {x:?}")) };
                        c.p(']')?;
                        inc.push((b, v));
                        if c.isp(',') && matches!(c.t.get(c.i + 1), Some(T::P('['))) { c.i += 1; } else { break; }
                    }
                    blocks.get_mut(&cur).unwrap().phis.push((dst, inc));
                    continue;
                }
            }
        }
        let ins = match parse_inst(&toks, cx, &mut lo, &mut lb) { Ok(i) => i, Err(e) => Inst::Unsupported(format!("{e} in `{}`", s.trim())) };
        if matches!(ins, Inst::Nop) { continue; }
        blocks.get_mut(&cur).unwrap().insts.push(ins);
    }
    // renumber: entry must be block 0 (it is: first label requested)
    let n = lb.n;
    let mut bs = vec![];
    for i in 0..n { bs.push(blocks.remove(&i).unwrap_or(Block { phis: vec![], insts: vec![Inst::Unsupported("missing block".into())] })); }
    debug_assert_eq!(entry, 0);
    let is_panic = name.contains("4core9panicking") || (name.contains("3std9panicking") && (name.contains("11begin_panic") || name.contains("13panic_handler"))) || name.contains("rust_begin_unwind") || name.contains("rust_panic") || name.contains("18handle_alloc_error") || name.contains("5alloc7raw_vec17capacity_overflow") || name.contains("5panic13resume_unwind");
    let is_std = false;
    Ok(Func { name: name.to_string(), nregs: lo.n, params, blocks: bs, is_panic, is_std })
}

fn label_of(l: &str) -> Option<String> {
    let b = l.as_bytes();
    if b.is_empty() || b[0] == b' ' { return None; }
    if b[0] == b'"' { let e = l[1..].find('"')?; return if l[e + 2..].starts_with(':') { Some(l[1..e + 1].to_string()) } else { None }; }
    let e = l.find(':')?;
    Some(l[..e].to_string())
}
