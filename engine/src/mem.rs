//! Paged copy-on-write memory; bytes are concrete or symbolic.
use crate::expr::*;
use crate::ir::GBASE;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PS: usize = 1024;
pub const HBASE: u64 = 0x1000_0000;
pub const SBASE: u64 = 0x6000_0000;
const HMAX: u64 = 0x2000_0000;
const SMAX: u64 = 0x0200_0000;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<BTreeMap<u16, E>>> }
pub fn zero_page() -> Page { Page { d: [0; PS], s: None } }

#[derive(Clone)]
pub enum B { C(u8), S(E) }

#[derive(Clone)]
pub struct Mem {
    g: Vec<Arc<Page>>,
    h: Vec<Arc<Page>>,
    s: Vec<Arc<Page>>,
    hp: u64,
    pub sp: u64,
    free: Vec<Vec<u64>>,
    zp: Arc<Page>,
}

pub type R<T> = Result<T, String>;

impl Mem {
    pub fn new(gdata: &[u8]) -> Mem {
        let mut g = vec![];
        for c in gdata.chunks(PS) {
            let mut p = zero_page();
            p.d[..c.len()].copy_from_slice(c);
            g.push(Arc::new(p));
        }
        Mem { g, h: vec![], s: vec![], hp: HBASE + 64, sp: SBASE + 64, free: vec![vec![]; 48], zp: Arc::new(zero_page()) }
    }
    #[inline]
    fn page(&self, a: u64) -> R<(&Page, usize)> {
        let (v, o) = if a >= SBASE { (&self.s, a - SBASE) } else if a >= HBASE && a < HBASE + HMAX { (&self.h, a - HBASE) } else if a >= GBASE && a < HBASE { (&self.g, a - GBASE) } else { return Err(format!("access to unmapped address {a:#x}")) };
        match v.get(o as usize / PS) { Some(p) => Ok((p, o as usize % PS)), None => Err(format!("access to unmapped address {a:#x}")) }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> R<(&mut Page, usize)> {
        let (v, o) = if a >= SBASE { (&mut self.s, a - SBASE) } else if a >= HBASE && a < HBASE + HMAX { (&mut self.h, a - HBASE) } else if a >= GBASE && a < HBASE { (&mut self.g, a - GBASE) } else { return Err(format!("write to unmapped address {a:#x}")) };
        match v.get_mut(o as usize / PS) { Some(p) => Ok((Arc::make_mut(p), o as usize % PS)), None => Err(format!("write to unmapped address {a:#x}")) }
    }
    /// little-endian concrete read of n<=8 bytes, None when symbolic or page-crossing
    #[inline]
    pub fn fast_load(&self, a: u64, n: usize) -> R<Option<u64>> {
        let (p, o) = self.page(a)?;
        if o + n > PS || p.s.is_some() { return Ok(None); }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.d[o..o + n]);
        Ok(Some(u64::from_le_bytes(b)))
    }
    #[inline]
    pub fn fast_store(&mut self, a: u64, v: u64, n: usize) -> R<bool> {
        let (p, o) = self.page_mut(a)?;
        if o + n > PS || p.s.is_some() { return Ok(false); }
        p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        Ok(true)
    }
    pub fn get(&self, a: u64) -> R<B> {
        let (p, o) = self.page(a)?;
        if let Some(s) = &p.s { if let Some(e) = s.get(&(o as u16)) { return Ok(B::S(e.clone())); } }
        Ok(B::C(p.d[o]))
    }
    pub fn set(&mut self, a: u64, b: B) -> R<()> {
        let (p, o) = self.page_mut(a)?;
        match b {
            B::C(c) => {
                p.d[o] = c;
                if let Some(s) = &mut p.s { s.remove(&(o as u16)); if s.is_empty() { p.s = None; } }
            }
            B::S(e) => {
                if let Some(c) = e.konst() { return self.set(a, B::C(c as u8)); }
                p.s.get_or_insert_with(Default::default).insert(o as u16, e);
            }
        }
        Ok(())
    }
    /// read a range: concrete bytes plus the symbolic ones
    pub fn read(&self, a: u64, n: usize) -> R<(Vec<u8>, Vec<(usize, E)>)> {
        let mut d = Vec::with_capacity(n);
        let mut sy = vec![];
        let mut i = 0;
        while i < n {
            let (p, o) = self.page(a + i as u64)?;
            let k = (PS - o).min(n - i);
            d.extend_from_slice(&p.d[o..o + k]);
            if let Some(s) = &p.s { for (q, e) in s.range(o as u16..(o + k) as u16) { sy.push((i + *q as usize - o, e.clone())); } }
            i += k;
        }
        Ok((d, sy))
    }
    pub fn write(&mut self, a: u64, d: &[u8], sy: Vec<(usize, E)>) -> R<()> {
        let n = d.len();
        let mut i = 0;
        while i < n {
            let (p, o) = self.page_mut(a + i as u64)?;
            let k = (PS - o).min(n - i);
            p.d[o..o + k].copy_from_slice(&d[i..i + k]);
            if let Some(s) = &mut p.s {
                let rm: Vec<u16> = s.range(o as u16..(o + k) as u16).map(|x| *x.0).collect();
                for r in rm { s.remove(&r); }
                if s.is_empty() { p.s = None; }
            }
            i += k;
        }
        for (i, e) in sy { self.set(a + i as u64, B::S(e))?; }
        Ok(())
    }
    fn class(n: u64) -> usize { let n = n.max(16); 64 - (n - 1).leading_zeros() as usize }
    pub fn malloc(&mut self, size: u64, align: u64) -> R<u64> {
        if size > 64 << 20 { return Err(format!("allocation of {size} bytes")); }
        let c = Self::class(size);
        if align <= 16 {
            if let Some(a) = self.free[c].pop() { self.write(a - 16, &(size | (c as u64) << 48).to_le_bytes(), vec![])?; return Ok(a); }
        }
        let cap = 1u64 << c;
        let al = align.max(16);
        let a = (self.hp + 16 + al - 1) / al * al;
        self.hp = a + cap;
        if self.hp > HBASE + HMAX { return Err("heap exhausted".into()); }
        let need = ((self.hp - HBASE) as usize + 64) / PS + 1;
        while self.h.len() < need { self.h.push(self.zp.clone()); }
        self.write(a - 16, &(size | (c as u64) << 48).to_le_bytes(), vec![])?;
        Ok(a)
    }
    pub fn size_of(&self, a: u64) -> R<(u64, usize)> {
        let (d, _) = self.read(a - 16, 8)?;
        let v = u64::from_le_bytes(d.try_into().unwrap());
        Ok((v & 0xFFFF_FFFF_FFFF, (v >> 48) as usize))
    }
    pub fn free(&mut self, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let (_, c) = self.size_of(a)?;
        if c < 4 || c >= 48 { return Err(format!("free of a non-allocated block {a:#x}")); }
        self.free[c].push(a);
        Ok(())
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> R<u64> {
        let a = (self.sp + align - 1) / align.max(1) * align.max(1);
        self.sp = a + size.max(1);
        if self.sp > SBASE + SMAX { return Err("stack overflow".into()); }
        let need = ((self.sp - SBASE) as usize + 64) / PS + 1;
        while self.s.len() < need { self.s.push(self.zp.clone()); }
        Ok(a)
    }
    pub fn pages(&self) -> usize { self.h.len() + self.s.len() }
}
