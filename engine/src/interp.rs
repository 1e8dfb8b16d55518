//! The symbolic executor proper: states, statement / terminator semantics, forking.
use crate::expr::{fold, mask, sext128, Ans, Ctx, Op, Solver, E};
use crate::intr::{Bi, In};
use crate::ir::*;
use crate::mem::*;
use crate::tr::{FnImpl, Tr, GK};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { Z, S(V), P(V, V), M(Rc<Frag>) }

#[derive(Clone, Copy, Debug)]
pub enum Loc { Z, R1(V), R2(V, V), M(u32, u64, bool), Lazy, N(V, V) }

#[derive(Clone, Copy, Debug)]
pub enum Dest { No, Reg(u32, Part), Mem(V) }

#[derive(Clone, Debug)]
pub struct Frame {
    pub func: &'static Func,
    pub locals: Vec<Loc>,
    pub bb: u32,
    pub st: u32,
    pub dest: Dest,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub vars: Vec<u32>, // variable ids in creation order
    pub allow_panic: bool,
    pub covers: Rc<BTreeSet<String>>,
    pub notes: Vec<E>,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Debug)]
pub enum Stop { Done, Infeasible, Panic(String), Unsup(String), Ub(String), Exit(String), Reject }
pub type Res<T> = Result<T, Stop>;

fn unsup<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Unsup(s.into())) }
fn ub<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Ub(s.into())) }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub msg: String, pub loc: String, pub values: Vec<u128> }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_panic_allowed: u64,
    pub paths_infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub max_depth: u64,
    pub max_vars: u64,
    pub max_path_steps: u64,
}

pub struct Eng<'tcx> {
    pub tr: Tr<'tcx>,
    pub cx: Ctx,
    pub sol: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u128>, u64, Vec<String>)>,
    pub blocks: Vec<Vec<bool>>,
    pub max_path_steps: u64,
    pub check_labels: BTreeMap<String, u64>,
}

enum PRef { Reg(u32, Part), Mem(V, V) }

#[inline]
fn sw(v: u128, sz: u8) -> i128 { sext128(v, sz as u16 * 8) }

impl<'tcx> Eng<'tcx> {
    pub fn new(tr: Tr<'tcx>) -> Self {
        Eng {
            tr, cx: Ctx::new(), sol: Solver::new(), work: vec![], stats: Stats::default(), viols: vec![], errors: vec![],
            covers: BTreeMap::new(), samples: vec![], blocks: vec![], max_path_steps: 400_000_000,
            check_labels: BTreeMap::new(),
        }
    }
    pub fn reset_counters(&mut self) {
        self.stats = Stats::default();
        self.viols.clear(); self.errors.clear(); self.covers.clear(); self.samples.clear(); self.check_labels.clear();
        let q = &mut self.sol;
        q.queries = 0; q.cache_hits = 0; q.z3_calls = 0; q.z3_sat = 0; q.z3_unsat = 0; q.z3_unknown = 0; q.time_ns = 0; q.crossed = 0;
    }
    /// Drops the expression table and the solver context when they have grown large and nothing refers to them.
    pub fn trim(&mut self) {
        if self.work.is_empty() && false { self.cx = Ctx::new(); }
        self.sol.trim();
    }
    pub fn fn_info(&self, f: u32) -> (String, usize, usize) {
        match self.tr.impls[f as usize] {
            Some(FnImpl::Mir(func)) => {
                let file = func.spans.iter().find(|s| !s.is_empty()).map(|s| s.split(':').next().unwrap_or("").to_string()).unwrap_or_default();
                let live = func.blocks.iter().filter(|b| !matches!(&b.tm, Tm::Unsupported(m) if m == "cleanup block")).count();
                (file, live, func.blocks.iter().map(|b| b.st.len() + 1).sum())
            }
            _ => (String::new(), 0, 0),
        }
    }
    pub fn initial(&mut self, f: u32) -> Result<State, String> {
        let func = match self.tr.get_impl(f) {
            FnImpl::Mir(func) => *func,
            FnImpl::Bi(_) => return Err("entry is builtin".into()),
            FnImpl::Missing(m) => return Err(m.clone()),
        };
        let top = self.mk_frame(func, Dest::No);
        Ok(State {
            mem: Mem::new(), top, stack: vec![], pc: vec![], model: vec![], vars: vec![], allow_panic: false,
            covers: Rc::new(BTreeSet::new()), notes: vec![], steps: 0, forks: 0,
        })
    }
    fn mk_frame(&mut self, func: &'static Func, dest: Dest) -> Frame {
        if func.krate {
            let i = func.id as usize;
            if self.blocks.len() <= i { self.blocks.resize(i + 1, vec![]); }
            if self.blocks[i].is_empty() { self.blocks[i] = vec![false; func.blocks.len()]; }
        }
        let locals = func.locals.iter().map(|l| match l.lay.k {
            LK::Z => Loc::Z,
            LK::Un(_) => Loc::Lazy,
            _ if !l.reg => Loc::Lazy,
            LK::S(_) => Loc::R1(V::U),
            LK::P(..) => Loc::R2(V::U, V::U),
            _ => Loc::Lazy,
        }).collect();
        Frame { func, locals, bb: 0, st: 0, dest }
    }
    // ------------------------------------------------------------ decisions
    fn new_var(&mut self, st: &mut State, w: u16) -> E {
        let id = (st.vars.len() as u32) * 2 + if w == 8 { 0 } else { 1 };
        if id >= 128 { panic!("too many symbolic variables on one path"); }
        st.vars.push(id);
        if st.model.len() <= id as usize { st.model.resize(id as usize + 1, 0); }
        self.cx.var(id, w)
    }
    pub fn values(&self, st: &State, model: &[u128]) -> Vec<u128> {
        st.vars.iter().map(|v| model.get(*v as usize).copied().unwrap_or(0)).collect()
    }
    fn merged(&self, st: &State, m: &[(u32, u128)]) -> Vec<u128> {
        let mut r = st.model.clone();
        for (i, v) in m {
            if r.len() <= *i as usize { r.resize(*i as usize + 1, 0); }
            r[*i as usize] = *v;
        }
        r
    }
    /// Truth value of `cond` on this path; the complementary path, when the solver finds it
    /// feasible, is queued and will re-execute the current statement.
    fn decide(&mut self, st: &mut State, cond: E) -> Res<bool> {
        if cond == self.cx.t { return Ok(true); }
        if cond == self.cx.f { return Ok(false); }
        let neg = self.cx.not(cond);
        if st.pc.contains(&cond) { return Ok(true); }
        if st.pc.contains(&neg) { return Ok(false); }
        let val = self.cx.eval(cond, &st.model) != 0;
        let (keep, other) = if val { (cond, neg) } else { (neg, cond) };
        match self.sol.sat(&mut self.cx, &st.pc, other) {
            Ans::Unsat => {}
            Ans::Unknown => return unsup("solver answered unknown"),
            Ans::Sat(m) => {
                let mut o = st.clone();
                o.model = self.merged(st, &m);
                debug_assert!(self.cx.eval(other, &o.model) != 0);
                o.pc.push(other);
                o.forks += 1;
                self.work.push(o);
                self.stats.forks += 1;
                st.pc.push(keep);
                st.forks += 1;
            }
        }
        Ok(val)
    }
    fn conc(&mut self, st: &mut State, v: V) -> Res<u128> {
        match v {
            V::I(x) => Ok(x),
            V::U => Ok(0),
            V::P(a, o) => Ok(self.addr(st, a, o) as u128),
            V::S(e) => {
                let x = self.cx.eval(e, &st.model);
                let w = self.cx.w(e);
                let c = self.cx.c(x, w);
                let q = self.cx.bin(Op::Eq, e, c);
                let r = self.decide(st, q)?;
                debug_assert!(r);
                Ok(x)
            }
        }
    }
    // ------------------------------------------------------------ memory
    fn addr(&self, st: &State, a: u32, o: u64) -> u64 {
        if let Some(al) = st.mem.get(a) { return al.base.wrapping_add(o); }
        if a & GLOBAL != 0 { return self.tr.globs[(a & !GLOBAL) as usize].alloc.base.wrapping_add(o); }
        o
    }
    #[inline]
    fn get<'a>(&'a self, st: &'a State, a: u32) -> Option<&'a Alloc> {
        if a & GLOBAL == 0 { return st.mem.get(a); }
        if let Some(x) = st.mem.get(a) { return Some(x); }
        Some(&self.tr.globs[(a & !GLOBAL) as usize].alloc)
    }
    fn ensure_mut(&mut self, st: &mut State, a: u32) -> Res<()> {
        if a & GLOBAL != 0 && !st.mem.globals.contains_key(&a) {
            let g = &self.tr.globs[(a & !GLOBAL) as usize];
            if !matches!(g.kind, GK::Mem) { return ub("write to non-memory global"); }
            Rc::make_mut(&mut st.mem.globals).insert(a, Rc::new(g.alloc.clone()));
        }
        Ok(())
    }
    fn rd(&mut self, st: &State, p: V, off: u64, size: u64) -> Res<V> {
        let V::P(a, o) = p else { return ub(format!("read of {size} bytes through non-pointer {p:?}")) };
        let o = o.wrapping_add(off);
        let sp = self as *const Self;
        let stp = st as *const State;
        let f = move |x: u32, y: u64| unsafe { (*sp).addr(&*stp, x, y) };
        let al: *const Alloc = match self.get(st, a) { Some(x) => x, None => return ub("read of freed memory") };
        let al = unsafe { &*al };
        if o.checked_add(size).map(|e| e > al.bytes.len() as u64).unwrap_or(true) { return ub(format!("out-of-bounds read {o}+{size} of {}", al.bytes.len())); }
        Ok(al.read(&mut self.cx, o, size, &f))
    }
    fn wr(&mut self, st: &mut State, p: V, off: u64, size: u64, v: V) -> Res<()> {
        let V::P(a, o) = p else { return ub(format!("write of {size} bytes through non-pointer {p:?}")) };
        let o = o.wrapping_add(off);
        self.ensure_mut(st, a)?;
        let sp = self as *const Self;
        let stp = st as *const State;
        let f = move |x: u32, y: u64| unsafe { (*sp).addr(&*stp, x, y) };
        let Some(al) = st.mem.get_mut(a) else { return ub("write to freed memory") };
        if o.checked_add(size).map(|e| e > al.bytes.len() as u64).unwrap_or(true) { return ub(format!("out-of-bounds write {o}+{size} of {}", al.bytes.len())); }
        al.write(&mut self.cx, o, size, v, &f);
        Ok(())
    }
    fn rd_frag(&mut self, st: &State, p: V, size: u64) -> Res<Frag> {
        if size == 0 { return Ok(Frag { bytes: vec![], items: vec![] }); }
        let V::P(a, o) = p else { return ub(format!("read of {size} bytes through non-pointer {p:?}")) };
        let sp = self as *const Self;
        let stp = st as *const State;
        let f = move |x: u32, y: u64| unsafe { (*sp).addr(&*stp, x, y) };
        let al: *const Alloc = match self.get(st, a) { Some(x) => x, None => return ub("read of freed memory") };
        let al = unsafe { &*al };
        if o.checked_add(size).map(|e| e > al.bytes.len() as u64).unwrap_or(true) { return ub(format!("out-of-bounds read {o}+{size} of {}", al.bytes.len())); }
        Ok(al.frag(&mut self.cx, o, size, &f))
    }
    fn wr_frag(&mut self, st: &mut State, p: V, fr: &Frag) -> Res<()> {
        let size = fr.bytes.len() as u64;
        if size == 0 { return Ok(()); }
        let V::P(a, o) = p else { return ub(format!("write of {size} bytes through non-pointer {p:?}")) };
        self.ensure_mut(st, a)?;
        let sp = self as *const Self;
        let stp = st as *const State;
        let f = move |x: u32, y: u64| unsafe { (*sp).addr(&*stp, x, y) };
        let Some(al) = st.mem.get_mut(a) else { return ub("write to freed memory") };
        if o.checked_add(size).map(|e| e > al.bytes.len() as u64).unwrap_or(true) { return ub(format!("out-of-bounds write {o}+{size} of {}", al.bytes.len())); }
        al.put(&mut self.cx, o, fr, &f);
        Ok(())
    }
    fn load(&mut self, st: &State, p: V, lay: Lay) -> Res<Val> {
        Ok(match lay.k {
            LK::Z => Val::Z,
            LK::S(s) => Val::S(self.rd(st, p, 0, s as u64)?),
            LK::P(a, o, b) => { let x = self.rd(st, p, 0, a as u64)?; let y = self.rd(st, p, o as u64, b as u64)?; Val::P(x, y) }
            LK::M => Val::M(Rc::new(self.rd_frag(st, p, lay.size)?)),
            LK::Un(_) => return unsup("load of unsized value"),
        })
    }
    fn store(&mut self, st: &mut State, p: V, lay: Lay, v: &Val) -> Res<()> {
        match (v, lay.k) {
            (Val::Z, _) => Ok(()),
            (Val::S(x), LK::S(s)) => self.wr(st, p, 0, s as u64, *x),
            (Val::P(x, y), LK::P(a, o, b)) => { self.wr(st, p, 0, a as u64, *x)?; self.wr(st, p, o as u64, b as u64, *y) }
            (Val::M(f), _) => self.wr_frag(st, p, f),
            _ => unsup(format!("store {v:?} as {lay:?}")),
        }
    }
    // ------------------------------------------------------------ locals and places
    fn local_mem(&mut self, st: &mut State, l: u32) -> V {
        match st.top.locals[l as usize] {
            Loc::M(a, o, _) => V::P(a, o),
            Loc::Lazy => {
                let lay = st.top.func.locals[l as usize].lay;
                let a = st.mem.alloc(lay.size, lay.align);
                st.top.locals[l as usize] = Loc::M(a, 0, true);
                V::P(a, 0)
            }
            Loc::N(p, _) => p,
            Loc::Z => V::I(st.top.func.locals[l as usize].lay.align as u128),
            Loc::R1(_) | Loc::R2(..) => panic!("address of register local in {}", st.top.func.name),
        }
    }
    fn off_ptr(&self, p: V, o: u64) -> V {
        match p { V::P(a, b) => V::P(a, b.wrapping_add(o)), V::I(x) => V::I((x as u64).wrapping_add(o) as u128), _ => p }
    }
    fn place(&mut self, st: &mut State, p: &PlaceIR) -> Res<PRef> {
        let (mut ptr, mut meta, mut i);
        if p.reg {
            if p.projs.is_empty() { return Ok(PRef::Reg(p.local, p.part)); }
            let Pj::Deref { fat } = p.projs[0] else { return unsup("register projection") };
            match (st.top.locals[p.local as usize], p.part) {
                (Loc::R1(v), Part::Whole) => { ptr = v; meta = V::U; }
                (Loc::R2(a, b), Part::Whole) => { ptr = a; meta = b; }
                (Loc::R2(a, _), Part::A) => { ptr = a; meta = V::U; }
                (Loc::R2(_, b), Part::B) => { ptr = b; meta = V::U; }
                x => return unsup(format!("deref of register {x:?}")),
            }
            let _ = fat;
            i = 1;
        } else {
            if let Loc::N(a, b) = st.top.locals[p.local as usize] { ptr = a; meta = b; } else { ptr = self.local_mem(st, p.local); meta = V::U; }
            i = 0;
        }
        while i < p.projs.len() {
            match &p.projs[i] {
                Pj::Deref { fat } => {
                    let np = self.rd(st, ptr, 0, 8)?;
                    meta = if *fat { self.rd(st, ptr, 8, 8)? } else { V::U };
                    ptr = np;
                }
                Pj::Off(o) => ptr = self.off_ptr(ptr, *o),
                Pj::OffDyn { off, tail } => {
                    let al = self.ud_align(st, *tail, meta)?;
                    ptr = self.off_ptr(ptr, (*off + al - 1) / al * al);
                }
                Pj::Idx { local, stride } => {
                    let v = match st.top.locals[*local as usize] { Loc::R1(v) => v, _ => { let q = self.local_mem(st, *local); self.rd(st, q, 0, 8)? } };
                    let x = self.conc(st, v)? as u64;
                    ptr = self.off_ptr(ptr, x.wrapping_mul(*stride));
                }
                Pj::CEnd { off, stride } => { let n = self.conc(st, meta)? as u64; ptr = self.off_ptr(ptr, (n - off) * stride); }
                Pj::Sub { from, to, from_end, stride, arr } => {
                    if arr.is_none() {
                        let n = self.conc(st, meta)? as u64;
                        let end = if *from_end { n - to } else { *to };
                        meta = V::I((end - from) as u128);
                    }
                    ptr = self.off_ptr(ptr, from * stride);
                }
            }
            i += 1;
        }
        Ok(PRef::Mem(ptr, meta))
    }
    fn read_place(&mut self, st: &mut State, p: &PlaceIR) -> Res<Val> {
        if p.lay.k == LK::Z { return Ok(Val::Z); }
        if p.reg && p.projs.is_empty() { return self.read_reg(st, p.local, p.part, p.lay); }
        if let LK::Un(_) = p.lay.k {
            let PRef::Mem(a, b) = self.place(st, p)? else { return unsup("unsized register") };
            return Ok(Val::P(a, b));
        }
        match self.place(st, p)? {
            PRef::Reg(l, part) => self.read_reg(st, l, part, p.lay),
            PRef::Mem(ptr, _) => self.load(st, ptr, p.lay),
        }
    }
    #[inline]
    fn read_reg(&mut self, st: &State, l: u32, part: Part, lay: Lay) -> Res<Val> {
        Ok(match (st.top.locals[l as usize], part) {
            (_, Part::Z) => Val::Z,
            (Loc::R1(v), _) => Val::S(v),
            (Loc::R2(a, b), Part::Whole) => Val::P(a, b),
            (Loc::R2(a, _), Part::A) => Val::S(a),
            (Loc::R2(_, b), Part::B) => Val::S(b),
            x => return unsup(format!("register read {x:?} {lay:?}")),
        })
    }
    fn convert(&mut self, st: &mut State, v: Val, from: Lay, to: Lay) -> Res<Val> {
        let ok = match (&v, to.k) {
            (Val::Z, LK::Z) => true,
            (Val::S(_), LK::S(b)) => matches!(from.k, LK::S(a) if a == b) ,
            (Val::P(..), LK::P(a, b, c)) => matches!(from.k, LK::P(x, y, z) if a == x && b == y && c == z),
            (Val::M(f), LK::M) => f.bytes.len() as u64 == to.size,
            _ => false,
        };
        if ok { return Ok(v); }
        if to.k == LK::Z { return Ok(Val::Z); }
        let a = st.mem.alloc(from.size.max(to.size), from.align.max(to.align));
        self.store(st, V::P(a, 0), from, &v)?;
        let r = self.load(st, V::P(a, 0), to)?;
        st.mem.dealloc(a);
        Ok(r)
    }
    fn dest_of(&mut self, st: &mut State, p: &PlaceIR) -> Res<Dest> {
        if p.lay.k == LK::Z { return Ok(Dest::No); }
        Ok(match self.place(st, p)? { PRef::Reg(l, part) => Dest::Reg(l, part), PRef::Mem(ptr, _) => Dest::Mem(ptr) })
    }
    fn write_dest(&mut self, st: &mut State, d: Dest, v: Val, from: Lay, to: Lay) -> Res<()> {
        match d {
            Dest::No => Ok(()),
            Dest::Mem(p) => self.store(st, p, from, &v),
            Dest::Reg(l, part) => {
                let v = self.convert(st, v, from, to)?;
                let loc = &mut st.top.locals[l as usize];
                match (loc, part, v) {
                    (_, Part::Z, _) => {}
                    (Loc::R1(x), _, Val::S(y)) => *x = y,
                    (Loc::R2(x, y), Part::Whole, Val::P(a, b)) => { *x = a; *y = b; }
                    (Loc::R2(x, _), Part::A, Val::S(a)) => *x = a,
                    (Loc::R2(_, y), Part::B, Val::S(b)) => *y = b,
                    (l, p, v) => return unsup(format!("register write {l:?} {p:?} {v:?}")),
                }
                Ok(())
            }
        }
    }
    fn ud_size_align(&mut self, st: &mut State, u: u32, meta: V) -> Res<(u64, u64)> {
        Ok(match self.tr.uds[u as usize].clone() {
            Ud::Slice { stride, align } => { let n = self.conc(st, meta)? as u64; (n.wrapping_mul(stride), align) }
            Ud::Dyn => {
                let s = self.rd(st, meta, 8, 8)?;
                let a = self.rd(st, meta, 16, 8)?;
                (self.conc(st, s)? as u64, self.conc(st, a)? as u64)
            }
            Ud::Struct { off, align, tail } => {
                let (s, a) = self.ud_size_align(st, tail, meta)?;
                let al = a.max(align);
                let o = (off + a - 1) / a * a;
                (((o + s) + al - 1) / al * al, al)
            }
        })
    }
    fn ud_align(&mut self, st: &mut State, u: u32, meta: V) -> Res<u64> { Ok(self.ud_size_align(st, u, meta)?.1) }
    fn operand(&mut self, st: &mut State, o: &Opd) -> Res<Val> {
        Ok(match o {
            Opd::Z => Val::Z,
            Opd::C(v) => Val::S(*v),
            Opd::CP(a, b) => Val::P(*a, *b),
            Opd::CM(g, off, n) => Val::M(Rc::new(self.rd_frag(st, V::P(*g, *off), *n)?)),
            Opd::Pl(p) => self.read_place(st, p)?,
        })
    }
    #[inline]
    fn scal(&mut self, st: &mut State, o: &Opd) -> Res<V> {
        match self.operand(st, o)? { Val::S(v) => Ok(v), Val::P(a, _) => Ok(a), v => unsup(format!("scalar operand {v:?}")) }
    }
    // ------------------------------------------------------------ scalars
    fn int(&self, st: &State, v: V) -> V {
        match v { V::P(a, o) => V::I(self.addr(st, a, o) as u128), V::U => V::I(0), x => x }
    }
    fn ex(&mut self, st: &State, v: V, sz: u8) -> E {
        match self.int(st, v) { V::S(e) => e, V::I(x) => self.cx.c(x, sz as u16 * 8), _ => unreachable!() }
    }
    fn mkv(&self, e: E) -> V { match self.cx.as_const(e) { Some(c) => V::I(c), None => V::S(e) } }
    fn mkb(&mut self, e: E) -> V { let x = self.cx.b2v(e, 8); self.mkv(x) }
    fn tobool(&mut self, v: V) -> E {
        match v { V::I(x) => self.cx.b(x != 0), V::S(e) => self.cx.v2b(e), V::U => self.cx.f, V::P(..) => self.cx.t }
    }
    fn binop(&mut self, st: &mut State, op: BOp, nt: NT, a: Val, b: Val) -> Res<Val> {
        // fat pointer comparisons
        if let NT::Fat = nt {
            let (Val::P(a0, a1), Val::P(b0, b1)) = (a, b) else { return unsup("fat cmp") };
            let mut f = |s: &Self, v: V| match s.int(st, v) { V::I(x) => Some(x), _ => None };
            let (Some(a0), Some(a1), Some(b0), Some(b1)) = (f(self, a0), f(self, a1), f(self, b0), f(self, b1)) else { return unsup("symbolic fat pointer") };
            let c = (a0, a1).cmp(&(b0, b1));
            let r = match op { BOp::Eq => c.is_eq(), BOp::Ne => c.is_ne(), BOp::Lt => c.is_lt(), BOp::Le => c.is_le(), BOp::Gt => c.is_gt(), BOp::Ge => c.is_ge(), _ => return unsup("fat op") };
            return Ok(Val::S(V::I(r as u128)));
        }
        let (a, b) = match (a, b) {
            (Val::S(x), Val::S(y)) => (x, y),
            (Val::P(x, m), Val::S(y)) if matches!(op, BOp::Offset(_)) => { let r = self.binop(st, op, nt, Val::S(x), Val::S(y))?; let Val::S(r) = r else { unreachable!() }; return Ok(Val::P(r, m)); }
            (Val::Z, Val::Z) => { return Ok(Val::S(V::I(matches!(op, BOp::Eq | BOp::Le | BOp::Ge) as u128))); }
            (x, y) => return unsup(format!("binop on {x:?} {y:?}")),
        };
        if let BOp::Offset(sz) = op {
            let n = self.conc(st, b)? as u64;
            return Ok(Val::S(self.off_ptr(a, n.wrapping_mul(sz))));
        }
        match nt {
            NT::Float(s) => { let (x, y) = (self.conc(st, a)?, self.conc(st, b)?); return Ok(Val::S(V::I(fbin(op, s, x, y).ok_or(Stop::Unsup("float op".into()))?))); }
            NT::Int(sz, sg) => {
                // pointer identity fast path
                if let (V::P(x, o), V::P(y, q)) = (a, b) {
                    if x == y {
                        match op {
                            BOp::Eq => return Ok(Val::S(V::I((o == q) as u128))),
                            BOp::Ne => return Ok(Val::S(V::I((o != q) as u128))),
                            BOp::Sub => return Ok(Val::S(V::I(o.wrapping_sub(q) as u128))),
                            _ => {}
                        }
                    }
                }
                if let (V::P(..), V::I(k), BOp::Add) = (a, b, op) { return Ok(Val::S(self.off_ptr(a, k as u64))); }
                if let (V::P(..), V::I(k), BOp::Sub) = (a, b, op) { return Ok(Val::S(self.off_ptr(a, (k as u64).wrapping_neg()))); }
                let (a, b) = (self.int(st, a), self.int(st, b));
                if let (V::I(x), V::I(y)) = (a, b) { return Ok(ibin(op, sz, sg, x, y)); }
                let w = sz as u16 * 8;
                let x = self.ex(st, a, sz);
                let cx = &mut self.cx;
                let r = match op {
                    BOp::Shl | BOp::Shr => {
                        let y = match b {
                            V::I(k) => cx.c(k & (w as u128 - 1), w),
                            V::S(e) => {
                                let we = cx.w(e);
                                let e = if we > w { cx.extract(e, w - 1, 0) } else { cx.zext(e, w) };
                                let m = cx.c(w as u128 - 1, w);
                                cx.bin(Op::And, e, m)
                            }
                            _ => unreachable!(),
                        };
                        let o = if op == BOp::Shl { Op::Shl } else if sg { Op::AShr } else { Op::LShr };
                        let e = cx.bin(o, x, y);
                        return Ok(Val::S(self.mkv(e)));
                    }
                    _ => {
                        let y = self.ex(st, b, sz);
                        let cx = &mut self.cx;
                        let (lt, le) = if sg { (Op::SLt, Op::SLe) } else { (Op::ULt, Op::ULe) };
                        match op {
                            BOp::Add => cx.bin(Op::Add, x, y), BOp::Sub => cx.bin(Op::Sub, x, y), BOp::Mul => cx.bin(Op::Mul, x, y),
                            BOp::Div => cx.bin(if sg { Op::SDiv } else { Op::UDiv }, x, y),
                            BOp::Rem => cx.bin(if sg { Op::SRem } else { Op::URem }, x, y),
                            BOp::Xor => cx.bin(Op::Xor, x, y), BOp::And => cx.bin(Op::And, x, y), BOp::Or => cx.bin(Op::Or, x, y),
                            BOp::Eq => { let e = cx.bin(Op::Eq, x, y); return Ok(Val::S(self.mkb(e))); }
                            BOp::Ne => { let e = cx.bin(Op::Eq, x, y); let e = cx.not(e); return Ok(Val::S(self.mkb(e))); }
                            BOp::Lt => { let e = cx.bin(lt, x, y); return Ok(Val::S(self.mkb(e))); }
                            BOp::Le => { let e = cx.bin(le, x, y); return Ok(Val::S(self.mkb(e))); }
                            BOp::Gt => { let e = cx.bin(lt, y, x); return Ok(Val::S(self.mkb(e))); }
                            BOp::Ge => { let e = cx.bin(le, y, x); return Ok(Val::S(self.mkb(e))); }
                            BOp::Cmp => {
                                let l = cx.bin(lt, x, y);
                                let q = cx.bin(Op::Eq, x, y);
                                let (m1, z, o) = (cx.c(255, 8), cx.c(0, 8), cx.c(1, 8));
                                let r = cx.ite(q, z, o);
                                let r = cx.ite(l, m1, r);
                                return Ok(Val::S(self.mkv(r)));
                            }
                            BOp::AddO | BOp::SubO | BOp::MulO => {
                                let o = match op { BOp::AddO => Op::Add, BOp::SubO => Op::Sub, _ => Op::Mul };
                                let r = cx.bin(o, x, y);
                                let of = if !sg && op == BOp::AddO { cx.bin(Op::ULt, r, x) }
                                else if !sg && op == BOp::SubO { cx.bin(Op::ULt, x, y) }
                                else {
                                    let w2 = (w * 2).min(128);
                                    if w2 < 2 * w { return unsup("128-bit symbolic multiplication"); }
                                    let (x2, y2) = if sg { (cx.sext(x, w2), cx.sext(y, w2)) } else { (cx.zext(x, w2), cx.zext(y, w2)) };
                                    let r2 = cx.bin(o, x2, y2);
                                    let r1 = if sg { cx.sext(r, w2) } else { cx.zext(r, w2) };
                                    let q = cx.bin(Op::Eq, r2, r1);
                                    cx.not(q)
                                };
                                let (r, of) = (self.mkv(r), self.mkb(of));
                                return Ok(Val::P(r, of));
                            }
                            _ => return unsup(format!("symbolic {op:?}")),
                        }
                    }
                };
                Ok(Val::S(self.mkv(r)))
            }
            NT::Fat => unreachable!(),
        }
    }
    fn discr(&mut self, st: &mut State, p: &PlaceIR, d: &Disc) -> Res<V> {
        let (off, size) = match d { Disc::Const(c) => return Ok(V::I(*c)), Disc::Direct { off, size, .. } => (*off, *size), Disc::Niche { off, size, .. } => (*off, *size) };
        let tag = match self.place(st, p)? {
            PRef::Mem(ptr, _) => self.rd(st, ptr, off, size as u64)?,
            PRef::Reg(l, part) => match (st.top.locals[l as usize], part) {
                (Loc::R1(v), _) => v,
                (Loc::R2(a, _), Part::A) => a,
                (Loc::R2(_, b), Part::B) => b,
                (Loc::R2(a, b), Part::Whole) => if off == 0 { a } else { b },
                x => return unsup(format!("discriminant of {x:?}")),
            },
        };
        self.decode_tag(st, tag, d)
    }
    fn decode_tag(&mut self, st: &State, tag: V, d: &Disc) -> Res<V> {
        Ok(match d {
            Disc::Const(c) => V::I(*c),
            Disc::Direct { size, signed, out, .. } => match self.int(st, tag) {
                V::I(x) => V::I(if *signed { (sw(x, *size) as u128) & mask(*out as u16 * 8) } else { x }),
                V::S(e) => {
                    let w = *out as u16 * 8;
                    let we = self.cx.w(e);
                    let r = if we >= w { self.cx.extract(e, w - 1, 0) } else if *signed { self.cx.sext(e, w) } else { self.cx.zext(e, w) };
                    self.mkv(r)
                }
                _ => unreachable!(),
            },
            Disc::Niche { size, start, vals, untagged, .. } => {
                if let V::P(..) = tag {
                    // a valid pointer is never in the niche range
                    return Ok(V::I(*untagged));
                }
                let m = mask(*size as u16 * 8);
                match self.int(st, tag) {
                    V::I(x) => { let rel = x.wrapping_sub(*start) & m; V::I(if (rel as usize as u128) == rel && (rel as usize) < vals.len() { vals[rel as usize] } else { *untagged }) }
                    V::S(e) => {
                        let Disc::Niche { out, .. } = d else { unreachable!() };
                        let w = *out as u16 * 8;
                        let we = self.cx.w(e);
                        let mut r = self.cx.c(*untagged, w);
                        for (i, v) in vals.iter().enumerate() {
                            let k = self.cx.c(start.wrapping_add(i as u128) & m, we);
                            let q = self.cx.bin(Op::Eq, e, k);
                            let c = self.cx.c(*v, w);
                            r = self.cx.ite(q, c, r);
                        }
                        self.mkv(r)
                    }
                    _ => unreachable!(),
                }
            }
        })
    }
    fn rvalue(&mut self, st: &mut State, rv: &Rv, lay: Lay) -> Res<Val> {
        Ok(match rv {
            Rv::Use(o) => self.operand(st, o)?,
            Rv::Addr(p) => {
                match self.place(st, p)? {
                    PRef::Mem(a, m) => if let LK::Un(_) = p.lay.k { Val::P(a, m) } else { Val::S(a) },
                    PRef::Reg(l, _) if p.lay.k == LK::Z => { let _ = l; Val::S(V::I(p.lay.align as u128)) }
                    PRef::Reg(..) => return unsup("address of register"),
                }
            }
            Rv::Cast(c, o) => self.cast(st, c, o)?,
            Rv::Bin(b, nt, x, y) => { let x = self.operand(st, x)?; let y = self.operand(st, y)?; self.binop(st, *b, *nt, x, y)? }
            Rv::Un(u, nt, x) => {
                let x = self.scal(st, x)?;
                let v = match (u, self.int(st, x)) {
                    (UOp::NotBool, V::I(k)) => V::I((k == 0) as u128),
                    (UOp::NotBool, V::S(e)) => { let b = self.cx.v2b(e); let b = self.cx.not(b); self.mkb(b) }
                    (UOp::Not, V::I(k)) => { let NT::Int(s, _) = nt else { return unsup("not") }; V::I(!k & mask(*s as u16 * 8)) }
                    (UOp::Not, V::S(e)) => { let w = self.cx.w(e); let m = self.cx.c(mask(w), w); let r = self.cx.bin(Op::Xor, e, m); self.mkv(r) }
                    (UOp::Neg, V::I(k)) => match nt {
                        NT::Int(s, _) => V::I(k.wrapping_neg() & mask(*s as u16 * 8)),
                        NT::Float(4) => V::I((k ^ 0x8000_0000) & 0xffff_ffff),
                        NT::Float(_) => V::I(k ^ (1u128 << 63)),
                        _ => return unsup("neg"),
                    },
                    (UOp::Neg, V::S(e)) => { let w = self.cx.w(e); let z = self.cx.c(0, w); let r = self.cx.bin(Op::Sub, z, e); self.mkv(r) }
                    _ => return unsup("unop"),
                };
                Val::S(v)
            }
            Rv::PtrMeta(o) => match self.operand(st, o)? { Val::P(_, m) => if lay.k == LK::Z { Val::Z } else { Val::S(m) }, _ => Val::Z },
            Rv::Discr(p, d) => Val::S(self.discr(st, p, d)?),
            Rv::AggPtr(a, b) => { let a = self.scal(st, a)?; let b = self.scal(st, b)?; Val::P(a, b) }
            Rv::Tls(g) => Val::S(V::P(*g, 0)),
            Rv::Repeat(o, n, sz) => {
                let v = self.operand(st, o)?;
                if let (Val::S(V::I(x)), true) = (&v, *sz <= 16) {
                    let by = x.to_le_bytes();
                    let mut f = Frag { bytes: Vec::with_capacity((n * sz) as usize), items: vec![] };
                    for _ in 0..*n { f.bytes.extend_from_slice(&by[..*sz as usize]); }
                    Val::M(Rc::new(f))
                } else {
                    let a = st.mem.alloc(n * sz, lay.align);
                    let el = match &v { Val::S(_) => LK::S(*sz as u8), Val::P(..) => LK::P(8, 8, 8), _ => LK::M };
                    for i in 0..*n { self.store(st, V::P(a, i * sz), Lay { size: *sz, align: 1, k: el }, &v)?; }
                    let f = self.rd_frag(st, V::P(a, 0), n * sz)?;
                    st.mem.dealloc(a);
                    Val::M(Rc::new(f))
                }
            }
            Rv::Agg(..) => return unsup("aggregate rvalue"),
        })
    }
    fn cast(&mut self, st: &mut State, c: &Cast, o: &Opd) -> Res<Val> {
        let v = self.operand(st, o)?;
        Ok(match c {
            Cast::Keep => v,
            Cast::Thin => match v { Val::P(a, _) => Val::S(a), x => x },
            Cast::Int { from, signed, to } => {
                let Val::S(x) = v else { return unsup("int cast") };
                if let (V::P(..), 8, 8) = (x, *from, *to) { return Ok(Val::S(x)); }
                match self.int(st, x) {
                    V::I(k) => { let k = if *signed { sw(k, *from) as u128 } else { k }; Val::S(V::I(k & mask(*to as u16 * 8))) }
                    V::S(e) => {
                        let w = *to as u16 * 8;
                        let we = self.cx.w(e);
                        let r = if w <= we { self.cx.extract(e, w - 1, 0) } else if *signed { self.cx.sext(e, w) } else { self.cx.zext(e, w) };
                        Val::S(self.mkv(r))
                    }
                    _ => unreachable!(),
                }
            }
            Cast::IntFloat { from, signed, to } => {
                let Val::S(x) = v else { return unsup("cast") };
                let k = self.conc(st, x)?;
                let f = if *signed { sw(k, *from) as f64 } else { k as f64 };
                if *to == 4 { let g = if *signed { sw(k, *from) as f32 } else { k as f32 }; Val::S(V::I(g.to_bits() as u128)) } else { Val::S(V::I(f.to_bits() as u128)) }
            }
            Cast::FloatInt { from, to, signed } => { let Val::S(x) = v else { return unsup("cast") }; let k = self.conc(st, x)?; Val::S(V::I(f2i(k, *from, *to, *signed))) }
            Cast::FloatFloat { from, to } => {
                let Val::S(x) = v else { return unsup("cast") };
                let k = self.conc(st, x)?;
                let f = if *from == 4 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                Val::S(V::I(if *to == 4 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }))
            }
            Cast::Unsize(u) => match (u, v) {
                (Uns::Len(n), Val::S(p)) => Val::P(p, V::I(*n as u128)),
                (Uns::Vtable(g), Val::S(p)) => Val::P(p, V::P(*g, 0)),
                (Uns::Vtable(g), Val::Z) => Val::P(V::I(1), V::P(*g, 0)),
                (Uns::Same, v) => v,
                (Uns::DynDyn { dst_dyn }, Val::P(p, V::P(vt, _))) => {
                    let GK::VTable(vi) = self.tr.globs[(vt & !GLOBAL) as usize].kind else { return unsup("upcast") };
                    let ty = self.tr.vt_tys[vi as usize].0;
                    let d = self.tr.dyns[*dst_dyn as usize];
                    let g = self.tr.vtable_glob(ty, d).map_err(Stop::Unsup)?;
                    Val::P(p, V::P(g, 0))
                }
                (u, v) => return unsup(format!("unsize {u:?} {v:?}")),
            },
        })
    }
    fn set_tag(&mut self, st: &mut State, d: Dest, t: &TagW) -> Res<()> {
        match d {
            Dest::No => Ok(()),
            Dest::Mem(p) => self.wr(st, p, t.off, t.size as u64, V::I(t.val)),
            Dest::Reg(l, part) => {
                match (&mut st.top.locals[l as usize], part) {
                    (Loc::R1(x), _) => *x = V::I(t.val),
                    (Loc::R2(x, y), Part::Whole) => if t.off == 0 { *x = V::I(t.val) } else { *y = V::I(t.val) },
                    (Loc::R2(x, _), Part::A) => *x = V::I(t.val),
                    (Loc::R2(_, y), Part::B) => *y = V::I(t.val),
                    _ => return unsup("set tag"),
                }
                Ok(())
            }
        }
    }
    fn stmt(&mut self, st: &mut State, s: &'static St) -> Res<()> {
        match s {
            St::Assign(p, Rv::Agg(fs, tag), _) => {
                // evaluate everything first
                let mut vals: Vec<Val> = Vec::with_capacity(fs.len());
                for (_, o, _) in fs { let v = self.operand(st, o)?; vals.push(v); }
                match self.dest_of(st, p)? {
                    Dest::No => {}
                    Dest::Mem(ptr) => {
                        for ((off, _, l), v) in fs.iter().zip(vals.iter()) {
                            if l.k == LK::Z { continue; }
                            let q = self.off_ptr(ptr, *off);
                            self.store(st, q, *l, v)?;
                        }
                        if let Some(t) = tag { self.set_tag(st, Dest::Mem(ptr), t)?; }
                    }
                    d @ Dest::Reg(..) => {
                        // direct cases
                        let mut val: Option<Val> = None;
                        match p.lay.k {
                            LK::S(s) => {
                                for ((off, _, l), v) in fs.iter().zip(vals.iter()) {
                                    if l.k == LK::Z { continue; }
                                    if let (0, LK::S(s2), Val::S(x)) = (*off, l.k, v) { if s2 == s { val = Some(Val::S(*x)); } }
                                }
                                if let Some(t) = tag { if t.off == 0 && t.size == s { val = Some(Val::S(V::I(t.val))); } }
                            }
                            LK::P(sa, ob, sb) => {
                                let (mut a, mut b, mut ok) = (V::U, V::U, true);
                                for ((off, _, l), v) in fs.iter().zip(vals.iter()) {
                                    match (l.k, v) {
                                        (LK::Z, _) => {}
                                        (LK::S(s), Val::S(x)) if *off == 0 && s == sa => a = *x,
                                        (LK::S(s), Val::S(x)) if *off == ob as u64 && s == sb => b = *x,
                                        (LK::P(x, y, z), Val::P(v1, v2)) if *off == 0 && (x, y, z) == (sa, ob, sb) => { a = *v1; b = *v2; }
                                        _ => ok = false,
                                    }
                                }
                                if let Some(t) = tag {
                                    if t.off == 0 && t.size == sa { a = V::I(t.val); } else if t.off == ob as u64 && t.size == sb { b = V::I(t.val); } else { ok = false; }
                                }
                                if ok { val = Some(Val::P(a, b)); }
                            }
                            _ => {}
                        }
                        let val = match val {
                            Some(v) => v,
                            None => {
                                let a = st.mem.alloc(p.lay.size, p.lay.align);
                                for ((off, _, l), v) in fs.iter().zip(vals.iter()) {
                                    if l.k == LK::Z { continue; }
                                    self.store(st, V::P(a, *off), *l, v)?;
                                }
                                if let Some(t) = tag { self.wr(st, V::P(a, 0), t.off, t.size as u64, V::I(t.val))?; }
                                let r = self.load(st, V::P(a, 0), p.lay)?;
                                st.mem.dealloc(a);
                                r
                            }
                        };
                        self.write_dest(st, d, val, p.lay, p.lay)?;
                    }
                }
                Ok(())
            }
            St::Assign(p, rv, lay) => {
                let v = self.rvalue(st, rv, *lay)?;
                // fast register path
                if p.reg && p.projs.is_empty() {
                    if let (Loc::R1(x), Val::S(y), LK::S(a), LK::S(b)) = (&mut st.top.locals[p.local as usize], &v, lay.k, p.lay.k) {
                        if a == b { *x = *y; return Ok(()); }
                    }
                }
                let d = self.dest_of(st, p)?;
                self.write_dest(st, d, v, *lay, p.lay)
            }
            St::SetTag(p, t) => { let d = self.dest_of(st, p)?; self.set_tag(st, d, t) }
            St::CopyNon(a, b, n, sz) => {
                let (a, b, n) = (self.scal(st, a)?, self.scal(st, b)?, self.scal(st, n)?);
                let n = self.conc(st, n)? as u64;
                let f = self.rd_frag(st, a, n * sz)?;
                self.wr_frag(st, b, &f)
            }
        }
    }
    // ------------------------------------------------------------ control flow
    pub fn where_(&self, st: &State) -> String {
        let mut out: Vec<String> = vec![];
        let f = &st.top;
        let mut all: Vec<&Frame> = vec![f];
        all.extend(st.stack.iter().rev().map(|r| &**r));
        for fr in &all {
            if fr.func.krate && out.len() < 5 {
                let sp = fr.func.spans.get(fr.bb as usize).cloned().unwrap_or_default();
                out.push(format!("{} [{}]", fr.func.name, sp));
            }
        }
        format!("{} <- {}", st.top.func.name, out.join(" <- "))
    }
    fn enter(&mut self, st: &mut State, func: &'static Func, mut args: Vec<(Val, Lay)>, dest: Dest, dlay: Lay, fnptr: bool) -> Res<()> {
        if st.stack.len() > 900 { return unsup("call stack too deep"); }
        let mut fr = self.mk_frame(func, dest);
        let ret = &func.locals[0];
        if let (Dest::Mem(V::P(a, o)), LK::M, LK::M) = (dest, ret.lay.k, dlay.k) {
            fr.locals[0] = Loc::M(a, o, false);
            fr.dest = Dest::No;
        }
        if fnptr && args.len() + 1 == func.argc && func.spread.is_none() {
            args.insert(0, (Val::Z, Lay { size: 0, align: 1, k: LK::Z }));
        }
        let mut spread: Option<(u32, Vec<(u64, Lay)>, Vec<(Val, Lay)>)> = None;
        if let Some((sl, fields)) = &func.spread {
            let fixed = *sl as usize - 1;
            if fnptr && args.len() + 1 == fixed + fields.len() {
                args.insert(0, (Val::Z, Lay { size: 0, align: 1, k: LK::Z }));
            }
            if args.len() != fixed + fields.len() { return unsup(format!("spread arity {} vs {}+{} in {}", args.len(), fixed, fields.len(), func.name)); }
            let rest = args.split_off(fixed);
            spread = Some((*sl, fields.clone(), rest));
        } else if args.len() != func.argc {
            return unsup(format!("arity {} vs {} calling {}", args.len(), func.argc, func.name));
        }
        for (i, (v, l)) in args.into_iter().enumerate() {
            let li = i + 1;
            let tgt = func.locals[li].lay;
            if let LK::Un(_) = tgt.k {
                match v { Val::P(a, b) => fr.locals[li] = Loc::N(a, b), _ => return unsup("unsized argument") }
                continue;
            }
            if tgt.k == LK::Z { continue; }
            if func.locals[li].reg {
                let v = self.convert(st, v, l, tgt)?;
                fr.locals[li] = match v { Val::S(x) => Loc::R1(x), Val::P(a, b) => Loc::R2(a, b), v => return unsup(format!("argument {v:?}")) };
            } else {
                let a = st.mem.alloc(tgt.size, tgt.align);
                self.store(st, V::P(a, 0), l, &v)?;
                fr.locals[li] = Loc::M(a, 0, true);
            }
        }
        if let Some((sl, fields, rest)) = spread {
            let tgt = func.locals[sl as usize].lay;
            if tgt.k != LK::Z {
                let a = st.mem.alloc(tgt.size, tgt.align);
                for ((off, l), (v, vl)) in fields.iter().zip(rest.into_iter()) {
                    if l.k == LK::Z { continue; }
                    self.store(st, V::P(a, *off), vl, &v)?;
                }
                fr.locals[sl as usize] = Loc::M(a, 0, true);
            }
        }
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        self.stats.max_depth = self.stats.max_depth.max(st.stack.len() as u64);
        Ok(())
    }
    fn ret(&mut self, st: &mut State) -> Res<()> {
        let func = st.top.func;
        let rl = func.locals[0].lay;
        let dest = st.top.dest;
        let val = match dest {
            Dest::No => Val::Z,
            _ => match st.top.locals[0] {
                Loc::R1(v) => Val::S(v),
                Loc::R2(a, b) => Val::P(a, b),
                Loc::M(a, o, _) => self.load(st, V::P(a, o), rl)?,
                _ => Val::Z,
            },
        };
        for l in std::mem::take(&mut st.top.locals) {
            if let Loc::M(a, _, true) = l { st.mem.dealloc(a); }
        }
        let Some(f) = st.stack.pop() else { return Err(Stop::Done) };
        st.top = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
        if let Dest::No = dest { return Ok(()); }
        self.write_dest(st, dest, val, rl, rl)
    }
    fn fn_of_ptr(&mut self, v: V) -> Res<u32> {
        let V::P(g, 0) = v else { return ub(format!("call through non-function pointer {v:?}")) };
        if g & GLOBAL == 0 { return ub("call through data pointer"); }
        match self.tr.globs[(g & !GLOBAL) as usize].kind { GK::Fn(f) => Ok(f), ref k => ub(format!("call through {k:?}")) }
    }
    fn step(&mut self, st: &mut State) -> Res<()> {
        let func = st.top.func;
        let bb = &func.blocks[st.top.bb as usize];
        if func.krate && st.top.st == 0 { self.blocks[func.id as usize][st.top.bb as usize] = true; }
        let n = bb.st.len() as u32;
        while st.top.st < n {
            let s: &'static St = &bb.st[st.top.st as usize];
            self.stmt(st, s)?;
            st.top.st += 1;
            st.steps += 1;
        }
        st.steps += 1;
        let tm: &'static Tm = unsafe { &*(&bb.tm as *const Tm) };
        macro_rules! goto { ($t:expr) => {{ st.top.bb = $t; st.top.st = 0; }}; }
        match tm {
            Tm::Goto(t) => goto!(*t),
            Tm::Switch(o, sz, ts, other) => {
                let v = self.scal(st, o)?;
                match self.int(st, v) {
                    V::I(x) => { let t = ts.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*other); goto!(t) }
                    V::S(e) => {
                        let x = self.cx.eval(e, &st.model);
                        let t = ts.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*other);
                        let w = *sz as u16 * 8;
                        // condition "control goes to block t"
                        let mut cond = if t == *other { self.cx.t } else { self.cx.f };
                        for (k, b) in ts.iter().rev() {
                            let c = self.cx.c(*k, w);
                            let q = self.cx.bin(Op::Eq, e, c);
                            if *b == t { cond = self.cx.or(q, cond); } else if t == *other { let nq = self.cx.not(q); cond = self.cx.and(nq, cond); }
                        }
                        let r = self.decide(st, cond)?;
                        debug_assert!(r);
                        goto!(t)
                    }
                    _ => unreachable!(),
                }
            }
            Tm::Ret => self.ret(st)?,
            Tm::Unreachable => return ub("entered unreachable code"),
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.scal(st, cond)?;
                let b = self.tobool(v);
                let b = if *expected { b } else { self.cx.not(b) };
                if self.decide(st, b)? { goto!(*target) } else { return Err(Stop::Panic(msg.clone())); }
            }
            Tm::DropFn(p, f, t) => {
                let (a, m) = match self.place(st, p)? { PRef::Mem(a, m) => (a, m), PRef::Reg(..) if p.lay.k == LK::Z => (V::I(p.lay.align as u128), V::U), _ => return unsup("drop of register") };
                let arg = if let LK::Un(_) = p.lay.k { (Val::P(a, m), Lay { size: 16, align: 8, k: LK::P(8, 8, 8) }) } else { (Val::S(a), Lay { size: 8, align: 8, k: LK::S(8) }) };
                goto!(*t);
                self.call(st, *f, vec![arg], Dest::No, ZL, false)?;
            }
            Tm::DropDyn(p, t) => {
                let PRef::Mem(a, m) = self.place(st, p)? else { return unsup("drop dyn") };
                let g = self.rd(st, m, 0, 8)?;
                goto!(*t);
                if let V::P(..) = g {
                    let f = self.fn_of_ptr(g)?;
                    self.call(st, f, vec![(Val::S(a), Lay { size: 8, align: 8, k: LK::S(8) })], Dest::No, ZL, false)?;
                }
            }
            Tm::Call { callee, args, dest, next } => {
                let mut av: Vec<(Val, Lay)> = Vec::with_capacity(args.len());
                for a in args { let v = self.operand(st, &a.op)?; av.push((v, a.lay)); }
                let (f, ptr) = match callee {
                    Callee::Fn(f) => (*f, false),
                    Callee::Ptr(o) => { let v = self.scal(st, o)?; (self.fn_of_ptr(v)?, true) }
                    Callee::Virtual(slot) => { let f = self.virt(st, &mut av, *slot)?; (f, false) }
                };
                let d = self.dest_of(st, dest)?;
                let (ob, os) = (st.top.bb, st.top.st);
                match self.tr.get_impl(f) {
                    FnImpl::Mir(func) => {
                        if let Some(n) = next { goto!(*n) }
                        self.enter(st, func, av, d, dest.lay, ptr)?
                    }
                    FnImpl::Missing(m) => return unsup(m.clone()),
                    FnImpl::Bi(b) => {
                        let mut b: &'static Bi = b;
                        let mut f = f;
                        loop {
                            match b {
                                Bi::Forward(g) => {
                                    match self.tr.get_impl(*g) {
                                        FnImpl::Mir(func) => { if let Some(n) = next { goto!(*n) } return self.enter(st, func, av, d, dest.lay, ptr); }
                                        FnImpl::Bi(b2) => { b = b2; f = *g; }
                                        FnImpl::Missing(m) => return unsup(m.clone()),
                                    }
                                }
                                Bi::Virtual(slot) => {
                                    let g = self.virt(st, &mut av, *slot)?;
                                    match self.tr.get_impl(g) {
                                        FnImpl::Mir(func) => { if let Some(n) = next { goto!(*n) } return self.enter(st, func, av, d, dest.lay, ptr); }
                                        FnImpl::Bi(b2) => { b = b2; f = g; }
                                        FnImpl::Missing(m) => return unsup(m.clone()),
                                    }
                                }
                                Bi::I(In::ConstEvalSelect(g)) => {
                                    // (args tuple fields..., const fn, rt fn): untuple the first argument
                                    let (v, l) = av[0].clone();
                                    let args = self.untuple(st, *g, v, l)?;
                                    if let Some(n) = next { goto!(*n) }
                                    return self.call(st, *g, args, d, dest.lay, false);
                                }
                                Bi::I(In::CatchUnwind) => {
                                    let Val::S(fp) = av[0].0 else { return unsup("catch_unwind") };
                                    let g = self.fn_of_ptr(fp)?;
                                    let data = av[1].clone();
                                    self.write_dest(st, d, Val::S(V::I(0)), dest.lay, dest.lay)?;
                                    if let Some(n) = next { goto!(*n) }
                                    return self.call(st, g, vec![data], Dest::No, ZL, true);
                                }
                                _ => {
                                    let _ = f;
                                    let v = self.builtin(st, b, &av, dest.lay)?;
                                    if let Some((v, l)) = v { self.write_dest(st, d, v, l, dest.lay)?; }
                                    match next { Some(n) => goto!(*n), None => return unsup("builtin without successor") }
                                    return Ok(());
                                }
                            }
                        }
                    }
                }
                let _ = (ob, os);
            }
            Tm::Unsupported(m) => return unsup(m.clone()),
        }
        Ok(())
    }
    fn untuple(&mut self, st: &mut State, g: u32, v: Val, l: Lay) -> Res<Vec<(Val, Lay)>> {
        let fields = self.tr.fn_arg_tuple(g).map_err(Stop::Unsup)?;
        if fields.is_empty() { return Ok(vec![]); }
        let a = st.mem.alloc(l.size.max(1), l.align);
        self.store(st, V::P(a, 0), l, &v)?;
        let mut out = vec![];
        for (off, fl) in fields { let x = self.load(st, V::P(a, off), fl)?; out.push((x, fl)); }
        st.mem.dealloc(a);
        Ok(out)
    }
    fn virt(&mut self, st: &mut State, av: &mut Vec<(Val, Lay)>, slot: u32) -> Res<u32> {
        let (data, vt) = match &av[0].0 { Val::P(a, b) => (*a, *b), v => return unsup(format!("virtual call on {v:?}")) };
        let g = self.rd(st, vt, 8 * slot as u64, 8)?;
        av[0] = (Val::S(data), Lay { size: 8, align: 8, k: LK::S(8) });
        self.fn_of_ptr(g)
    }
    fn call(&mut self, st: &mut State, f: u32, args: Vec<(Val, Lay)>, dest: Dest, dlay: Lay, fnptr: bool) -> Res<()> {
        match self.tr.get_impl(f) {
            FnImpl::Mir(func) => self.enter(st, func, args, dest, dlay, fnptr),
            FnImpl::Missing(m) => unsup(m.clone()),
            FnImpl::Bi(Bi::Forward(g)) => self.call(st, *g, args, dest, dlay, fnptr),
            FnImpl::Bi(b) => {
                // note: caller has already moved to its successor block
                let v = self.builtin(st, b, &args, dlay)?;
                if let Some((v, l)) = v { self.write_dest(st, dest, v, l, dlay)?; }
                Ok(())
            }
        }
    }
    fn str_arg(&mut self, st: &mut State, v: &Val) -> Res<String> {
        let Val::P(p, n) = v else { return unsup("string argument") };
        let n = self.conc(st, *n)? as u64;
        let f = self.rd_frag(st, *p, n)?;
        Ok(String::from_utf8_lossy(&f.bytes).to_string())
    }
    fn builtin(&mut self, st: &mut State, b: &Bi, av: &[(Val, Lay)], dlay: Lay) -> Res<Option<(Val, Lay)>> {
        let s8 = |v: V| Ok(Some((Val::S(v), Lay { size: 8, align: 8, k: LK::S(8) })));
        let dl = |v: V| Ok(Some((Val::S(v), dlay)));
        macro_rules! s { ($i:expr) => { match &av[$i].0 { Val::S(v) => *v, Val::P(a, _) => *a, v => return unsup(format!("builtin argument {v:?} of {b:?}")) } }; }
        macro_rules! c { ($i:expr) => {{ let v = s!($i); self.conc(st, v)? }}; }
        match b {
            Bi::Sym => {
                let (lo, hi) = (c!(0), c!(1));
                if lo > hi { return Err(Stop::Infeasible); }
                let w = if hi < 256 { 8 } else { 64 };
                let v = self.new_var(st, w);
                if lo == hi {
                    let c = self.cx.c(lo, w);
                    let q = self.cx.bin(Op::Eq, v, c);
                    st.pc.push(q);
                    let id = *st.vars.last().unwrap() as usize;
                    st.model[id] = lo;
                    return s8(V::I(lo));
                }
                if lo > 0 { let c = self.cx.c(lo, w); let q = self.cx.bin(Op::ULe, c, v); st.pc.push(q); }
                if hi < mask(w) { let c = self.cx.c(hi, w); let q = self.cx.bin(Op::ULe, v, c); st.pc.push(q); }
                let id = *st.vars.last().unwrap() as usize;
                st.model[id] = lo;
                self.stats.max_vars = self.stats.max_vars.max(st.vars.len() as u64);
                let e = self.cx.zext(v, 64);
                s8(V::S(e))
            }
            Bi::KnownFalse => { let v = s!(0); let e = self.tobool(v); dl(V::I((e == self.cx.f) as u128)) }
            Bi::Concretize => { let v = c!(0); s8(V::I(v)) }
            Bi::Assume => {
                let v = s!(0);
                let e = self.tobool(v);
                if e == self.cx.t { return Ok(None); }
                if e == self.cx.f { return Err(Stop::Infeasible); }
                if self.cx.eval(e, &st.model) == 0 {
                    match self.sol.sat(&mut self.cx, &st.pc, e) {
                        Ans::Unsat => return Err(Stop::Infeasible),
                        Ans::Unknown => return unsup("solver answered unknown"),
                        Ans::Sat(m) => st.model = self.merged(st, &m),
                    }
                }
                st.pc.push(e);
                Ok(None)
            }
            Bi::Check => {
                let v = s!(0);
                let label = self.str_arg(st, &av[1].0)?;
                self.stats.checks += 1;
                *self.check_labels.entry(label.clone()).or_default() += 1;
                let e = self.tobool(v);
                if e == self.cx.t { return Ok(None); }
                let ne = self.cx.not(e);
                match self.sol.sat(&mut self.cx, &st.pc, ne) {
                    Ans::Unsat => {}
                    Ans::Unknown => return unsup("solver answered unknown"),
                    Ans::Sat(m) => {
                        let model = self.merged(st, &m);
                        let values = self.values(st, &model);
                        let loc = self.where_(st);
                        self.viols.push(Viol { kind: "check".into(), msg: label, loc, values });
                    }
                }
                // continue under the assumption that the property holds
                if e == self.cx.f { return Err(Stop::Done); }
                if self.cx.eval(e, &st.model) == 0 {
                    match self.sol.sat(&mut self.cx, &st.pc, e) {
                        Ans::Unsat => return Err(Stop::Done),
                        Ans::Unknown => return unsup("solver answered unknown"),
                        Ans::Sat(m) => st.model = self.merged(st, &m),
                    }
                }
                st.pc.push(e);
                Ok(None)
            }
            Bi::Cover => { let l = self.str_arg(st, &av[0].0)?; if !st.covers.contains(&l) { Rc::make_mut(&mut st.covers).insert(l); } Ok(None) }
            Bi::Note => { let v = s!(0); let e = self.ex(st, v, 8); st.notes.push(e); Ok(None) }
            Bi::Reject => Err(Stop::Reject),
            Bi::AllowPanic => { let v = c!(0); st.allow_panic = v != 0; Ok(None) }
            Bi::Panic(p) => Err(Stop::Panic(p.clone())),
            Bi::Exit(p) => Err(Stop::Exit(p.clone())),
            Bi::Unit => Ok(None),
            Bi::ConstI(x) => dl(V::I(*x)),
            Bi::ConstPair(x, y) => Ok(Some((Val::P(V::I(*x), V::I(*y)), dlay))),
            Bi::RetArg0 => Ok(Some(av[0].clone())),
            Bi::RetArg2 => Ok(Some(av[2].clone())),
            Bi::Alloc(_) => {
                let (n, al) = (c!(0) as u64, c!(1) as u64);
                if n > 1 << 26 { return unsup(format!("allocation of {n} bytes")); }
                let a = st.mem.alloc(n, al);
                s8(V::P(a, 0))
            }
            Bi::Dealloc => {
                let V::P(a, 0) = s!(0) else { return ub("dealloc of bad pointer") };
                if a & GLOBAL != 0 || !st.mem.dealloc(a) { return ub("double free"); }
                Ok(None)
            }
            Bi::Realloc => {
                let p = s!(0);
                let (old, al, new) = (c!(1) as u64, c!(2) as u64, c!(3) as u64);
                if new > 1 << 26 { return unsup(format!("allocation of {new} bytes")); }
                let f = self.rd_frag(st, p, old.min(new))?;
                let a = st.mem.alloc(new, al);
                self.wr_frag(st, V::P(a, 0), &f)?;
                if let V::P(o, _) = p { st.mem.dealloc(o); }
                s8(V::P(a, 0))
            }
            Bi::Forward(_) | Bi::Virtual(_) => unsup("forward"),
            Bi::I(i) => self.intrinsic(st, i, av, dlay),
        }
    }
    fn intrinsic(&mut self, st: &mut State, i: &In, av: &[(Val, Lay)], dlay: Lay) -> Res<Option<(Val, Lay)>> {
        let dl = |v: V| Ok(Some((Val::S(v), dlay)));
        macro_rules! s { ($i:expr) => { match &av[$i].0 { Val::S(v) => *v, Val::P(a, _) => *a, v => return unsup(format!("intrinsic argument {v:?} of {i:?}")) } }; }
        macro_rules! c { ($i:expr) => {{ let v = s!($i); self.conc(st, v)? }}; }
        match i {
            In::Const(x) => dl(V::I(*x)),
            In::ConstStr(g, n) => Ok(Some((Val::P(V::P(*g, 0), V::I(*n as u128)), dlay))),
            In::SizeOfVal(l) | In::AlignOfVal(l) => {
                let sz = matches!(i, In::SizeOfVal(_));
                let (a, b) = match l.k {
                    LK::Un(u) => { let Val::P(_, m) = av[0].0 else { return unsup("size_of_val") }; self.ud_size_align(st, u, m)? }
                    _ => (l.size, l.align),
                };
                dl(V::I(if sz { a } else { b } as u128))
            }
            In::CopyNon(sz) | In::Copy(sz) => {
                let (a, b) = (s!(0), s!(1));
                let n = c!(2) as u64;
                let f = self.rd_frag(st, a, n * sz)?;
                self.wr_frag(st, b, &f)?;
                Ok(None)
            }
            In::WriteBytes(sz) => {
                let p = s!(0);
                let (v, n) = (c!(1), c!(2) as u64);
                let f = Frag { bytes: vec![v as u8; (n * sz) as usize], items: vec![] };
                self.wr_frag(st, p, &f)?;
                Ok(None)
            }
            In::PtrOffsetFrom { size } => {
                let (a, b) = (s!(0), s!(1));
                let d = match (a, b) {
                    (V::P(x, o), V::P(y, q)) if x == y => o.wrapping_sub(q) as i64,
                    _ => { let (x, y) = (self.conc(st, a)? as u64, self.conc(st, b)? as u64); x.wrapping_sub(y) as i64 }
                };
                dl(V::I((d / *size as i64) as u64 as u128))
            }
            In::ArithOffset(sz) => {
                let p = s!(0);
                let n = c!(1) as u64;
                let r = self.off_ptr(p, n.wrapping_mul(*sz));
                match av[0].0 { Val::P(_, m) => Ok(Some((Val::P(r, m), dlay))), _ => dl(r) }
            }
            In::Bin(op, nt) => { let r = self.binop(st, *op, *nt, av[0].0.clone(), av[1].0.clone())?; Ok(Some((r, dlay))) }
            In::Sat(add, nt) => {
                let NT::Int(sz, sg) = nt else { return unsup("saturating") };
                let r = self.binop(st, if *add { BOp::AddO } else { BOp::SubO }, *nt, av[0].0.clone(), av[1].0.clone())?;
                let Val::P(v, o) = r else { unreachable!() };
                let o = self.tobool(o);
                let w = *sz as u16 * 8;
                let lim = if !*sg { let k = if *add { mask(w) } else { 0 }; self.cx.c(k, w) } else {
                    let a = s!(0);
                    let a = self.ex(st, a, *sz);
                    let z = self.cx.c(0, w);
                    let neg = self.cx.bin(Op::SLt, a, z);
                    let (mn, mx) = (self.cx.c(1u128 << (w - 1), w), self.cx.c(mask(w) >> 1, w));
                    self.cx.ite(neg, mn, mx)
                };
                let v = self.ex(st, v, *sz);
                let r = self.cx.ite(o, lim, v);
                dl(self.mkv(r))
            }
            In::ExactDiv(nt) => { let r = self.binop(st, BOp::Div, *nt, av[0].0.clone(), av[1].0.clone())?; Ok(Some((r, dlay))) }
            In::Rot(left, sz) => {
                let w = *sz as u128 * 8;
                let (a, n) = (s!(0), c!(1) % w);
                let n = if *left { n } else { (w - n) % w };
                match self.int(st, a) {
                    V::I(x) => dl(V::I(if n == 0 { x } else { ((x << n) | (x >> (w - n))) & mask(w as u16) })),
                    V::S(e) => {
                        if n == 0 { return dl(V::S(e)); }
                        let (k1, k2) = (self.cx.c(n, w as u16), self.cx.c(w - n, w as u16));
                        let (x, y) = (self.cx.bin(Op::Shl, e, k1), self.cx.bin(Op::LShr, e, k2));
                        let r = self.cx.bin(Op::Or, x, y);
                        dl(self.mkv(r))
                    }
                    _ => unreachable!(),
                }
            }
            In::Ctpop(_) => { let x = c!(0); dl(V::I(x.count_ones() as u128)) }
            In::Ctlz(sz) => { let x = c!(0); dl(V::I(x.leading_zeros() as u128 - (128 - *sz as u128 * 8))) }
            In::Cttz(sz) => { let x = c!(0); dl(V::I(if x == 0 { *sz as u128 * 8 } else { x.trailing_zeros() as u128 })) }
            In::Bswap(sz) => { let x = c!(0); dl(V::I(x.swap_bytes() >> (128 - *sz as u32 * 8))) }
            In::BitRev(sz) => { let x = c!(0); dl(V::I(x.reverse_bits() >> (128 - *sz as u32 * 8))) }
            In::Discr(d) => {
                let p = s!(0);
                let v = match d {
                    Disc::Const(c) => V::I(*c),
                    Disc::Direct { off, size, .. } | Disc::Niche { off, size, .. } => { let t = self.rd(st, p, *off, *size as u64)?; self.decode_tag(st, t, d)? }
                };
                dl(v)
            }
            In::RawEq(n) => { let (a, b) = (s!(0), s!(1)); let e = self.bytes_eq(st, a, b, *n)?; dl(self.mkb(e)) }
            In::CmpBytes => {
                let (a, b) = (s!(0), s!(1));
                let n = c!(2) as u64;
                let (fa, fb) = (self.rd_frag(st, a, n)?, self.rd_frag(st, b, n)?);
                if fa.items.is_empty() && fb.items.is_empty() {
                    let r: i32 = match fa.bytes.cmp(&fb.bytes) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
                    return dl(V::I(r as u32 as u128));
                }
                let mut r = self.cx.c(0, 32);
                let (m1, p1) = (self.cx.c(0xffff_ffff, 32), self.cx.c(1, 32));
                for k in (0..n).rev() {
                    let (x, y) = (self.rd(st, a, k, 1)?, self.rd(st, b, k, 1)?);
                    let (x, y) = (self.ex(st, x, 1), self.ex(st, y, 1));
                    let (q, l) = (self.cx.bin(Op::Eq, x, y), self.cx.bin(Op::ULt, x, y));
                    let d = self.cx.ite(l, m1, p1);
                    r = self.cx.ite(q, r, d);
                }
                dl(self.mkv(r))
            }
            In::Read(l) => { let p = s!(0); let v = self.load(st, p, *l)?; Ok(Some((v, *l))) }
            In::Write(l) => { let p = s!(0); self.store(st, p, *l, &av[1].0)?; Ok(None) }
            In::Swap(n) => {
                let (a, b) = (s!(0), s!(1));
                let (x, y) = (self.rd_frag(st, a, *n)?, self.rd_frag(st, b, *n)?);
                self.wr_frag(st, a, &y)?;
                self.wr_frag(st, b, &x)?;
                Ok(None)
            }
            In::VtSize | In::VtAlign => { let p = s!(0); let v = self.rd(st, p, if matches!(i, In::VtSize) { 8 } else { 16 }, 8)?; dl(v) }
            In::Assume => Ok(None),
            In::Abort => Err(Stop::Exit("abort".into())),
            In::Unreachable => ub("unreachable intrinsic"),
            In::CallerLoc => { let g = self.tr.dummy_loc(); dl(V::P(g, 0)) }
            In::PtrMask => { let (p, m) = (s!(0), c!(1) as u64); match p { V::P(a, o) => { let ad = self.addr(st, a, o); dl(V::P(a, o.wrapping_sub(ad - (ad & m)))) } V::I(x) => dl(V::I(x & m as u128)), _ => unsup("ptr_mask") } }
            In::PtrCmp => dl(V::I(2)),
            In::AtLoad(sz) => { let p = s!(0); let v = self.rd(st, p, 0, *sz as u64)?; dl(v) }
            In::AtStore(sz) => { let (p, v) = (s!(0), s!(1)); self.wr(st, p, 0, *sz as u64, v)?; Ok(None) }
            In::AtXchg(sz) => { let (p, v) = (s!(0), s!(1)); let o = self.rd(st, p, 0, *sz as u64)?; self.wr(st, p, 0, *sz as u64, v)?; dl(o) }
            In::AtCxchg(sz) => {
                let (p, e, n) = (s!(0), s!(1), s!(2));
                let o = self.rd(st, p, 0, *sz as u64)?;
                let (x, y) = (self.conc(st, o)?, self.conc(st, e)?);
                if x == y { self.wr(st, p, 0, *sz as u64, n)?; }
                Ok(Some((Val::P(o, V::I((x == y) as u128)), dlay)))
            }
            In::AtBin(op, sz) => {
                let (p, v) = (s!(0), s!(1));
                let o = self.rd(st, p, 0, *sz as u64)?;
                let r = self.binop(st, *op, NT::Int(*sz, false), Val::S(o), Val::S(v))?;
                let Val::S(r) = r else { unreachable!() };
                self.wr(st, p, 0, *sz as u64, r)?;
                dl(o)
            }
            In::Select(l) => {
                let v = s!(0);
                let b = self.tobool(v);
                if let (Val::S(x), Val::S(y), LK::S(sz)) = (&av[1].0, &av[2].0, l.k) {
                    if !matches!(x, V::P(..)) && !matches!(y, V::P(..)) {
                        let (x, y) = (self.ex(st, *x, sz), self.ex(st, *y, sz));
                        let r = self.cx.ite(b, x, y);
                        return dl(self.mkv(r));
                    }
                }
                let r = self.decide(st, b)?;
                Ok(Some(if r { av[1].clone() } else { av[2].clone() }))
            }
            In::Black => Ok(Some(av[0].clone())),
            In::FUn(n, sz) => { let x = c!(0); let f = gf(x, *sz); let r = match *n { "fabs" => f.abs(), "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "round" => f.round(), "round_ties_even" => f.round_ties_even(), "sqrt" => f.sqrt(), "exp" => f.exp(), "exp2" => f.exp2(), "log" => f.ln(), "log2" => f.log2(), "log10" => f.log10(), "sin" => f.sin(), "cos" => f.cos(), _ => return unsup("float intrinsic") }; dl(V::I(pf(r, *sz))) }
            In::FBin(n, sz) => { let (x, y) = (gf(c!(0), *sz), gf(c!(1), *sz)); let r = match *n { "pow" => x.powf(y), "min" => x.min(y), "max" => x.max(y), "copysign" => x.copysign(y), _ => return unsup("float intrinsic") }; dl(V::I(pf(r, *sz))) }
            In::Powi(sz) => { let (x, n) = (gf(c!(0), *sz), c!(1) as u32 as i32); dl(V::I(pf(x.powi(n), *sz))) }
            In::Fma(sz) => { let (x, y, z) = (gf(c!(0), *sz), gf(c!(1), *sz), gf(c!(2), *sz)); dl(V::I(pf(x.mul_add(y, z), *sz))) }
            In::F2I { from, to, signed } => { let x = c!(0); dl(V::I(f2i(x, *from, *to, *signed))) }
            In::TypeId(h) => Ok(Some((Val::M(Rc::new(Frag { bytes: h.to_le_bytes().to_vec(), items: vec![] })), dlay))),
            In::CarryMulAdd(nt) => {
                let NT::Int(sz, false) = nt else { return unsup("carrying_mul_add") };
                let (a, b, cc, d) = (c!(0), c!(1), c!(2), c!(3));
                if *sz > 8 { return unsup("carrying_mul_add 128"); }
                let r = a * b + cc + d;
                let w = *sz as u32 * 8;
                Ok(Some((Val::P(V::I(r & mask(w as u16)), V::I(r >> w)), dlay)))
            }
            In::ConstEvalSelect(_) | In::CatchUnwind => unsup("nested control intrinsic"),
            In::SimdEq(..) | In::SimdLt(..) | In::SimdBitmask(..) | In::SimdBin(..) | In::SimdSplat(..) | In::Volatile => {
                let fr = |v: &Val| match v { Val::M(f) if f.items.is_empty() => Some(f.bytes.clone()), _ => None };
                match i {
                    In::SimdEq(e, _) | In::SimdLt(e, _, _) => {
                        let (Some(a), Some(b)) = (fr(&av[0].0), fr(&av[1].0)) else { return unsup("symbolic simd") };
                        let e = *e as usize;
                        let mut out = vec![];
                        for (x, y) in a.chunks(e).zip(b.chunks(e)) {
                            let r = match i { In::SimdEq(..) => x == y, In::SimdLt(_, _, sg) => { let (p, q) = (lei(x, *sg), lei(y, *sg)); p < q } _ => false };
                            out.extend(std::iter::repeat(if r { 0xffu8 } else { 0 }).take(e));
                        }
                        Ok(Some((Val::M(Rc::new(Frag { bytes: out, items: vec![] })), dlay)))
                    }
                    In::SimdBitmask(e, _) => {
                        let Some(a) = fr(&av[0].0) else { return unsup("symbolic simd") };
                        let mut r = 0u128;
                        for (k, x) in a.chunks(*e as usize).enumerate() { if x[*e as usize - 1] & 0x80 != 0 { r |= 1 << k; } }
                        dl(V::I(r))
                    }
                    In::SimdBin(op, _, _) => {
                        let (Some(a), Some(b)) = (fr(&av[0].0), fr(&av[1].0)) else { return unsup("symbolic simd") };
                        let out = a.iter().zip(&b).map(|(x, y)| match op { BOp::And => x & y, BOp::Or => x | y, _ => x ^ y }).collect();
                        Ok(Some((Val::M(Rc::new(Frag { bytes: out, items: vec![] })), dlay)))
                    }
                    In::SimdSplat(e, n) => {
                        let x = c!(0).to_le_bytes();
                        let mut out = vec![];
                        for _ in 0..*n { out.extend_from_slice(&x[..*e as usize]); }
                        Ok(Some((Val::M(Rc::new(Frag { bytes: out, items: vec![] })), dlay)))
                    }
                    _ => unsup("simd"),
                }
            }
        }
    }
    fn bytes_eq(&mut self, st: &State, a: V, b: V, n: u64) -> Res<E> {
        let (fa, fb) = (self.rd_frag(st, a, n)?, self.rd_frag(st, b, n)?);
        if fa.items.is_empty() && fb.items.is_empty() { return Ok(self.cx.b(fa.bytes == fb.bytes)); }
        let mut r = self.cx.t;
        for k in 0..n {
            let (x, y) = (self.rd(st, a, k, 1)?, self.rd(st, b, k, 1)?);
            let (x, y) = (self.ex(st, x, 1), self.ex(st, y, 1));
            let q = self.cx.bin(Op::Eq, x, y);
            r = self.cx.and(r, q);
        }
        Ok(r)
    }
    /// Runs one state to the end of its path (forked alternatives are appended to `work`).
    pub fn run(&mut self, mut st: State, sample_every: u64) {
        let stop = loop {
            if let Err(s) = self.step(&mut st) { break s; }
            if st.steps > self.max_path_steps { break Stop::Unsup(format!("path longer than {} steps", self.max_path_steps)); }
        };
        self.stats.steps += st.steps;
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        let values = self.values(&st, &st.model.clone());
        match stop {
            Stop::Done => {
                self.stats.paths_done += 1;
                for c in st.covers.iter() { *self.covers.entry(c.clone()).or_default() += 1; }
                if self.stats.paths_done % sample_every == 1 || sample_every == 1 {
                    let mut h: u64 = 0xcbf29ce484222325;
                    for e in st.notes.clone() { let v = self.cx.eval(e, &st.model) as u64; h = (h ^ v).wrapping_mul(0x100000001b3); }
                    self.samples.push((values, h, st.covers.iter().cloned().collect()));
                }
            }
            Stop::Infeasible | Stop::Reject => self.stats.paths_infeasible += 1,
            Stop::Panic(m) => {
                if st.allow_panic { self.stats.paths_panic_allowed += 1; for c in st.covers.iter() { *self.covers.entry(c.clone()).or_default() += 1; } }
                else { let loc = self.where_(&st); self.viols.push(Viol { kind: "panic".into(), msg: m, loc, values }); }
            }
            Stop::Exit(m) => { let loc = self.where_(&st); self.viols.push(Viol { kind: "exit".into(), msg: m, loc, values }); }
            Stop::Ub(m) => { let w = self.where_(&st); self.errors.push(format!("UB: {m} at {w}; inputs {values:?}")); }
            Stop::Unsup(m) => { let w = self.where_(&st); self.errors.push(format!("unsupported: {m} at {w}; inputs {values:?}")); }
        }
    }
}
pub const ZL: Lay = Lay { size: 0, align: 1, k: LK::Z };

fn gf(x: u128, sz: u8) -> f64 { if sz == 4 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } }
fn pf(f: f64, sz: u8) -> u128 { if sz == 4 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 } }
fn lei(b: &[u8], sg: bool) -> i128 { let mut x = [0u8; 16]; x[..b.len()].copy_from_slice(b); let v = u128::from_le_bytes(x); if sg { sext128(v, b.len() as u16 * 8) } else { v as i128 } }
fn f2i(k: u128, from: u8, to: u8, signed: bool) -> u128 {
    let f = gf(k, from);
    let v: u128 = match (to, signed) {
        (1, true) => f as i8 as u8 as u128, (2, true) => f as i16 as u16 as u128, (4, true) => f as i32 as u32 as u128, (8, true) => f as i64 as u64 as u128, (_, true) => f as i128 as u128,
        (1, false) => f as u8 as u128, (2, false) => f as u16 as u128, (4, false) => f as u32 as u128, (8, false) => f as u64 as u128, (_, false) => f as u128,
    };
    v
}
fn fbin(op: BOp, s: u8, x: u128, y: u128) -> Option<u128> {
    if s == 4 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op { BOp::Add => a + b, BOp::Sub => a - b, BOp::Mul => a * b, BOp::Div => a / b, BOp::Rem => a % b,
            BOp::Eq => return Some((a == b) as u128), BOp::Ne => return Some((a != b) as u128), BOp::Lt => return Some((a < b) as u128), BOp::Le => return Some((a <= b) as u128), BOp::Gt => return Some((a > b) as u128), BOp::Ge => return Some((a >= b) as u128), _ => return None };
        return Some(r.to_bits() as u128);
    }
    let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
    let r = match op { BOp::Add => a + b, BOp::Sub => a - b, BOp::Mul => a * b, BOp::Div => a / b, BOp::Rem => a % b,
        BOp::Eq => return Some((a == b) as u128), BOp::Ne => return Some((a != b) as u128), BOp::Lt => return Some((a < b) as u128), BOp::Le => return Some((a <= b) as u128), BOp::Gt => return Some((a > b) as u128), BOp::Ge => return Some((a >= b) as u128), _ => return None };
    Some(r.to_bits() as u128)
}
fn ibin(op: BOp, sz: u8, sg: bool, x: u128, y: u128) -> Val {
    let w = sz as u16 * 8;
    let m = mask(w);
    let c = |b: bool| Val::S(V::I(b as u128));
    let (sx, sy) = (sext128(x, w.max(1)), sext128(y, w.max(1)));
    match op {
        BOp::Eq => c(x == y),
        BOp::Ne => c(x != y),
        BOp::Lt => c(if sg { sx < sy } else { x < y }),
        BOp::Le => c(if sg { sx <= sy } else { x <= y }),
        BOp::Gt => c(if sg { sx > sy } else { x > y }),
        BOp::Ge => c(if sg { sx >= sy } else { x >= y }),
        BOp::Cmp => { let o = if sg { sx.cmp(&sy) } else { x.cmp(&y) }; Val::S(V::I(match o { std::cmp::Ordering::Less => 255, std::cmp::Ordering::Equal => 0, _ => 1 })) }
        BOp::Add => Val::S(V::I(x.wrapping_add(y) & m)),
        BOp::Sub => Val::S(V::I(x.wrapping_sub(y) & m)),
        BOp::Mul => Val::S(V::I(x.wrapping_mul(y) & m)),
        BOp::Xor => Val::S(V::I(x ^ y)),
        BOp::And => Val::S(V::I(x & y)),
        BOp::Or => Val::S(V::I(x | y)),
        BOp::Div => Val::S(V::I(if y == 0 { 0 } else { fold(if sg { Op::SDiv } else { Op::UDiv }, x, y, w).unwrap() })),
        BOp::Rem => Val::S(V::I(if y == 0 { 0 } else { fold(if sg { Op::SRem } else { Op::URem }, x, y, w).unwrap() })),
        BOp::Shl => { let k = y & (w as u128 - 1); Val::S(V::I((x << k) & m)) }
        BOp::Shr => { let k = y & (w as u128 - 1); Val::S(V::I(if sg { ((sx >> k) as u128) & m } else { x >> k })) }
        BOp::AddO | BOp::SubO | BOp::MulO => {
            let (r, o);
            if sg {
                let t = match op { BOp::AddO => sx.checked_add(sy), BOp::SubO => sx.checked_sub(sy), _ => sx.checked_mul(sy) };
                let wr = match op { BOp::AddO => sx.wrapping_add(sy), BOp::SubO => sx.wrapping_sub(sy), _ => sx.wrapping_mul(sy) };
                r = (wr as u128) & m;
                o = match t { None => true, Some(t) => sext128(r, w) != t };
            } else {
                let t = match op { BOp::AddO => x.checked_add(y), BOp::SubO => x.checked_sub(y), _ => x.checked_mul(y) };
                let wr = match op { BOp::AddO => x.wrapping_add(y), BOp::SubO => x.wrapping_sub(y), _ => x.wrapping_mul(y) };
                r = wr & m;
                o = match t { None => true, Some(t) => t > m };
            }
            Val::P(V::I(r), V::I(o as u128))
        }
        BOp::Offset(_) => unreachable!(),
    }
}
