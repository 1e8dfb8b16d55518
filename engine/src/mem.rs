//! Byte-level memory: concrete bytes plus "items" (pointers with provenance, symbolic scalars).
use crate::expr::{Ctx, E};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    U,
    I(u128),
    P(u32, u64),
    S(E),
}
pub const GLOBAL: u32 = 0x8000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum It {
    Ptr(u32, u64),
    Sym(E), // width = 8*size
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Item {
    pub off: u32,
    pub size: u32,
    pub it: It,
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    pub items: Vec<Item>,
    pub base: u64,
    pub align: u32,
    pub heap: bool,
}

impl Alloc {
    pub fn new(size: u64, align: u64, base: u64) -> Alloc {
        Alloc { bytes: vec![0; size as usize], items: Vec::new(), base, align: align as u32, heap: false }
    }
    #[inline]
    fn first_overlap(&self, off: u64) -> usize {
        // first item whose end > off
        if self.items.is_empty() { return 0; }
        self.items.partition_point(|i| (i.off + i.size) as u64 <= off)
    }
    /// remove items overlapping [off, off+size), splitting those which straddle the boundary
    pub fn clear_range(&mut self, cx: &mut Ctx, off: u64, size: u64, addr: &dyn Fn(u32, u64) -> u64) {
        if self.items.is_empty() || size == 0 { return; }
        let i0 = self.first_overlap(off);
        let end = off + size;
        let mut i1 = i0;
        while i1 < self.items.len() && (self.items[i1].off as u64) < end { i1 += 1; }
        if i0 == i1 { return; }
        let mut repl: Vec<Item> = Vec::new();
        for it in &self.items[i0..i1] {
            let (a, b) = (it.off as u64, (it.off + it.size) as u64);
            if a >= off && b <= end { continue; }
            match it.it {
                It::Ptr(p, o) => {
                    // partially overwritten pointer: decay the remainder to plain bytes
                    let v = addr(p, o);
                    let by = v.to_le_bytes();
                    for k in a..b { if k < off || k >= end { self.bytes[k as usize] = by[(k - a) as usize]; } }
                }
                It::Sym(e) => {
                    if a < off {
                        let n = off - a;
                        let x = cx.extract(e, (8 * n - 1) as u16, 0);
                        push_sym(cx, &mut self.bytes, &mut repl, a, n, x);
                    }
                    if b > end {
                        let lo = end - a;
                        let x = cx.extract(e, (8 * (b - a) - 1) as u16, (8 * lo) as u16);
                        push_sym(cx, &mut self.bytes, &mut repl, end, b - end, x);
                    }
                }
            }
        }
        self.items.splice(i0..i1, repl);
    }
    #[inline]
    pub fn read(&self, cx: &mut Ctx, off: u64, size: u64, addr: &dyn Fn(u32, u64) -> u64) -> V {
        let o = off as usize;
        let s = size as usize;
        if self.items.is_empty() {
            return V::I(le(&self.bytes[o..o + s]));
        }
        let i = self.first_overlap(off);
        if i >= self.items.len() || self.items[i].off as u64 >= off + size {
            return V::I(le(&self.bytes[o..o + s]));
        }
        let it = self.items[i];
        if it.off as u64 == off && it.size as u64 == size {
            return match it.it { It::Ptr(a, b) => V::P(a, b), It::Sym(e) => V::S(e) };
        }
        // general case: assemble from pieces (little endian: later bytes are higher)
        let mut cur: Option<E> = None;
        let mut pos = off;
        let end = off + size;
        let mut k = i;
        while pos < end {
            let (piece, n): (E, u64);
            if k < self.items.len() && (self.items[k].off as u64) <= pos {
                let t = self.items[k];
                let (a, b) = (t.off as u64, (t.off + t.size) as u64);
                let stop = b.min(end);
                n = stop - pos;
                let whole = match t.it {
                    It::Sym(e) => e,
                    It::Ptr(p, o2) => { let v = addr(p, o2); cx.c(v as u128, 64) }
                };
                piece = cx.extract(whole, (8 * (stop - a) - 1) as u16, (8 * (pos - a)) as u16);
                k += 1;
            } else {
                let stop = if k < self.items.len() { (self.items[k].off as u64).min(end) } else { end };
                n = stop - pos;
                piece = cx.c(le(&self.bytes[pos as usize..stop as usize]), (8 * n) as u16);
            }
            cur = Some(match cur { None => piece, Some(l) => cx.concat(piece, l) });
            pos += n;
        }
        let e = cur.unwrap();
        match cx.as_const(e) { Some(c) => V::I(c), None => V::S(e) }
    }
    #[inline]
    pub fn write(&mut self, cx: &mut Ctx, off: u64, size: u64, v: V, addr: &dyn Fn(u32, u64) -> u64) {
        let o = off as usize;
        let s = size as usize;
        if !self.items.is_empty() {
            // fast path: exact overwrite
            let i = self.first_overlap(off);
            if i < self.items.len() && (self.items[i].off as u64) < off + size {
                if self.items[i].off as u64 == off && self.items[i].size as u64 == size {
                    match v {
                        V::P(a, b) => { self.items[i].it = It::Ptr(a, b); return; }
                        V::S(e) => { self.items[i].it = It::Sym(e); return; }
                        _ => { self.items.remove(i); }
                    }
                } else {
                    self.clear_range(cx, off, size, addr);
                }
            }
        }
        match v {
            V::U => { for b in &mut self.bytes[o..o + s] { *b = 0; } }
            V::I(x) => {
                let by = x.to_le_bytes();
                self.bytes[o..o + s].copy_from_slice(&by[..s]);
            }
            V::P(a, b) => self.insert(Item { off: off as u32, size: size as u32, it: It::Ptr(a, b) }),
            V::S(e) => {
                debug_assert_eq!(cx.w(e) as u64, size * 8);
                self.insert(Item { off: off as u32, size: size as u32, it: It::Sym(e) })
            }
        }
    }
    fn insert(&mut self, it: Item) {
        let p = self.items.partition_point(|i| i.off < it.off);
        self.items.insert(p, it);
    }
    /// Extract a fragment (bytes + items rebased to 0).
    pub fn frag(&self, cx: &mut Ctx, off: u64, size: u64, addr: &dyn Fn(u32, u64) -> u64) -> Frag {
        let mut f = Frag { bytes: self.bytes[off as usize..(off + size) as usize].to_vec(), items: vec![] };
        if self.items.is_empty() { return f; }
        let i0 = self.first_overlap(off);
        let end = off + size;
        for it in &self.items[i0..] {
            if it.off as u64 >= end { break; }
            let (a, b) = (it.off as u64, (it.off + it.size) as u64);
            if a >= off && b <= end {
                f.items.push(Item { off: (a - off) as u32, size: it.size, it: it.it });
            } else {
                let (s, e2) = (a.max(off), b.min(end));
                let whole = match it.it { It::Sym(e) => e, It::Ptr(p, o) => { let v = addr(p, o); cx.c(v as u128, 64) } };
                let x = cx.extract(whole, (8 * (e2 - a) - 1) as u16, (8 * (s - a)) as u16);
                push_sym(cx, &mut f.bytes, &mut f.items, s - off, e2 - s, x);
            }
        }
        f
    }
    pub fn put(&mut self, cx: &mut Ctx, off: u64, f: &Frag, addr: &dyn Fn(u32, u64) -> u64) {
        let n = f.bytes.len() as u64;
        self.clear_range(cx, off, n, addr);
        self.bytes[off as usize..(off + n) as usize].copy_from_slice(&f.bytes);
        if !f.items.is_empty() {
            let p = self.items.partition_point(|i| (i.off as u64) < off);
            let add = f.items.iter().map(|i| Item { off: i.off + off as u32, size: i.size, it: i.it });
            self.items.splice(p..p, add);
        }
    }
}
fn push_sym(cx: &Ctx, bytes: &mut [u8], items: &mut Vec<Item>, off: u64, n: u64, e: E) {
    if let Some(c) = cx.as_const(e) {
        bytes[off as usize..(off + n) as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
    } else {
        items.push(Item { off: off as u32, size: n as u32, it: It::Sym(e) });
    }
}
#[inline]
fn le(b: &[u8]) -> u128 {
    match b.len() {
        1 => b[0] as u128,
        8 => u64::from_le_bytes(b.try_into().unwrap()) as u128,
        4 => u32::from_le_bytes(b.try_into().unwrap()) as u128,
        _ => {
            let mut x = [0u8; 16];
            x[..b.len()].copy_from_slice(b);
            u128::from_le_bytes(x)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Frag {
    pub bytes: Vec<u8>,
    pub items: Vec<Item>,
}

const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk([Option<Rc<Alloc>>; CH]);

/// Copy-on-write table of allocations of one execution state.
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    len: u32,
    free: Rc<Vec<u32>>,
    next: u64,
    pub globals: Rc<std::collections::BTreeMap<u32, Rc<Alloc>>>,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], len: 0, free: Rc::new(vec![]), next: 0x10000, globals: Rc::new(Default::default()) }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u32 {
        let align = align.max(1);
        let base = (self.next + align - 1) / align * align;
        self.next = base + size.max(1);
        let a = Rc::new(Alloc::new(size, align, base));
        let id = if !self.free.is_empty() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            let id = self.len;
            self.len += 1;
            if id as usize / CH >= self.chunks.len() { self.chunks.push(Rc::new(Chunk([const { None }; CH]))); }
            id
        };
        Rc::make_mut(&mut self.chunks[id as usize / CH]).0[id as usize % CH] = Some(a);
        id
    }
    pub fn dealloc(&mut self, id: u32) -> bool {
        let slot = &mut Rc::make_mut(&mut self.chunks[id as usize / CH]).0[id as usize % CH];
        if slot.is_none() { return false; }
        *slot = None;
        Rc::make_mut(&mut self.free).push(id);
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Alloc> {
        if id & GLOBAL != 0 { return self.globals.get(&id).map(|r| &**r); }
        self.chunks.get(id as usize / CH)?.0[id as usize % CH].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Alloc> {
        if id & GLOBAL != 0 { return Rc::make_mut(&mut self.globals).get_mut(&id).map(|r| Rc::make_mut(r)); }
        let c = self.chunks.get_mut(id as usize / CH)?;
        Rc::make_mut(c).0[id as usize % CH].as_mut().map(|r| Rc::make_mut(r))
    }
    pub fn live(&self) -> usize { self.len as usize - self.free.len() }
}
