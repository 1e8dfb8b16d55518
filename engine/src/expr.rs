//! Hash-consed bit-vector expressions, simplification, evaluation under a model, and the Z3 back end.
//! Every feasibility / assertion decision of the symbolic executor goes through `Solver::sat`.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    // comparisons (result: bool sort)
    Eq, ULt, ULe, SLt, SLe,
}
impl Op {
    pub fn is_cmp(self) -> bool {
        matches!(self, Op::Eq | Op::ULt | Op::ULe | Op::SLt | Op::SLe)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Var(u32),
    C(u128),
    T,
    F,
    Not(E),
    BAnd(E, E),
    BOr(E, E),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u16, u16), // e, hi, lo
    ZExt(E),
    SExt(E),
    Concat(E, E), // hi, lo
}

#[derive(Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u16, // 0 = bool
    pub vars: u128,
    pub ctree: u16, // >0: ite tree with this many constant leaves
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u16), E>,
    pub t: E,
    pub f: E,
    ecache: Vec<(u32, u128)>,
    egen: u32,
}

pub fn fold(op: Op, a: u128, b: u128, w: u16) -> Option<u128> {
    let m = mask(w);
    let sa = sext128(a, w);
    let sb = sext128(b, w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { return None } else { (sa.wrapping_div(sb) as u128) & m },
        Op::SRem => if b == 0 { return None } else { (sa.wrapping_rem(sb) as u128) & m },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => if b >= w as u128 { if sa < 0 { m } else { 0 } } else { ((sa >> b) as u128) & m },
        Op::Eq => (a == b) as u128,
        Op::ULt => (a < b) as u128,
        Op::ULe => (a <= b) as u128,
        Op::SLt => (sa < sb) as u128,
        Op::SLe => (sa <= sb) as u128,
    })
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], map: HashMap::new(), t: 0, f: 0, ecache: vec![], egen: 0 };
        c.t = c.mk(N::T, 0);
        c.f = c.mk(N::F, 0);
        c
    }
    fn mk(&mut self, n: N, w: u16) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let v = |c: &Ctx, e: E| c.nodes[e as usize].vars;
        let (vars, ctree) = match n {
            N::Var(i) => { assert!(i < 128, "too many symbolic variables"); (1u128 << i, 0) }
            N::C(_) | N::T | N::F => (0, 1),
            N::Not(a) | N::Extract(a, _, _) | N::ZExt(a) | N::SExt(a) => (v(self, a), 0),
            N::BAnd(a, b) | N::BOr(a, b) | N::Bin(_, a, b) | N::Concat(a, b) => (v(self, a) | v(self, b), 0),
            N::Ite(c, a, b) => {
                let (ca, cb) = (self.nodes[a as usize].ctree, self.nodes[b as usize].ctree);
                let ct = if ca > 0 && cb > 0 && ca + cb <= 24 { ca + cb } else { 0 };
                (v(self, c) | v(self, a) | v(self, b), ct)
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Node { n, w, vars, ctree });
        self.map.insert((n, w), e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline]
    pub fn n(&self, e: E) -> N { self.nodes[e as usize].n }
    pub fn var(&mut self, i: u32, w: u16) -> E { self.mk(N::Var(i), w) }
    pub fn c(&mut self, v: u128, w: u16) -> E { self.mk(N::C(v & mask(w)), w) }
    pub fn b(&self, v: bool) -> E { if v { self.t } else { self.f } }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.n(e) { N::C(v) => Some(v), N::T => Some(1), N::F => Some(0), _ => None }
    }
    pub fn not(&mut self, a: E) -> E {
        match self.n(a) {
            N::T => self.f,
            N::F => self.t,
            N::Not(x) => x,
            _ => self.mk(N::Not(a), 0),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a == self.f || b == self.f { return self.f; }
        if a == self.t || a == b { return b; }
        if b == self.t { return a; }
        if self.n(a) == N::Not(b) || self.n(b) == N::Not(a) { return self.f; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::BAnd(a, b), 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == self.t || b == self.t { return self.t; }
        if a == self.f || a == b { return b; }
        if b == self.f { return a; }
        if self.n(a) == N::Not(b) || self.n(b) == N::Not(a) { return self.t; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::BOr(a, b), 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == self.t || a == b { return a; }
        if c == self.f { return b; }
        if let N::Not(c2) = self.n(c) { return self.ite(c2, b, a); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 0 {
            // boolean ite
            let nc = self.not(c);
            if a == self.t { return self.or(c, b); }
            if a == self.f { return self.and(nc, b); }
            if b == self.t { return self.or(nc, a); }
            if b == self.f { return self.and(c, a); }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    fn is_ctree(&self, e: E) -> bool { self.nodes[e as usize].ctree > 1 }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if let Some(r) = fold(op, x, y, w) {
                return if op.is_cmp() { self.b(r != 0) } else { self.c(r, w) };
            }
        }
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        // distribute over constant ite trees
        if cb.is_some() && self.is_ctree(a) {
            if let N::Ite(c, x, y) = self.n(a) {
                let x2 = self.bin(op, x, b);
                let y2 = self.bin(op, y, b);
                return self.ite(c, x2, y2);
            }
        }
        if ca.is_some() && self.is_ctree(b) {
            if let N::Ite(c, x, y) = self.n(b) {
                let x2 = self.bin(op, a, x);
                let y2 = self.bin(op, a, y);
                return self.ite(c, x2, y2);
            }
        }
        match op {
            Op::Eq => {
                if a == b { return self.t; }
                // zext(x) == const
                if let (N::ZExt(x), Some(k)) = (self.n(a), cb) {
                    let wx = self.w(x);
                    if k > mask(wx) { return self.f; }
                    let k2 = self.c(k, wx);
                    return self.bin(Op::Eq, x, k2);
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Eq, x, y); }
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                return self.mk(N::Bin(op, a, b), 0);
            }
            Op::ULt | Op::SLt => { if a == b { return self.f; } if op == Op::ULt && cb == Some(0) { return self.f; } }
            Op::ULe | Op::SLe => { if a == b { return self.t; } if op == Op::ULe && ca == Some(0) { return self.t; } }
            Op::Add | Op::Or | Op::Xor => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return b; }
                if op == Op::Or && a == b { return a; }
                if op == Op::Xor && a == b { return self.c(0, w); }
            }
            Op::Sub => { if cb == Some(0) { return a; } if a == b { return self.c(0, w); } }
            Op::Shl | Op::LShr | Op::AShr => { if cb == Some(0) { return a; } }
            Op::And => {
                if ca == Some(0) || cb == Some(0) { return self.c(0, w); }
                if cb == Some(mask(w)) || a == b { return a; }
                if ca == Some(mask(w)) { return b; }
            }
            Op::Mul => {
                if ca == Some(0) || cb == Some(0) { return self.c(0, w); }
                if cb == Some(1) { return a; }
                if ca == Some(1) { return b; }
            }
            _ => {}
        }
        self.mk(N::Bin(op, a, b), if op.is_cmp() { 0 } else { w })
    }
    pub fn extract(&mut self, e: E, hi: u16, lo: u16) -> E {
        let w = self.w(e);
        if lo == 0 && hi + 1 == w { return e; }
        match self.n(e) {
            N::C(v) => return self.c(v >> lo, hi - lo + 1),
            N::Extract(x, _, l2) => return self.extract(x, hi + l2, lo + l2),
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.c(0, hi - lo + 1); }
                if hi < wx { return self.extract(x, hi, lo); }
                let y = self.extract(x, wx - 1, lo);
                return self.zext(y, hi - lo + 1);
            }
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, hi - wl, lo - wl); }
                if hi < wl { return self.extract(l, hi, lo); }
            }
            N::Ite(c, x, y) if self.is_ctree(e) => {
                let x2 = self.extract(x, hi, lo);
                let y2 = self.extract(y, hi, lo);
                return self.ite(c, x2, y2);
            }
            _ => {}
        }
        self.mk(N::Extract(e, hi, lo), hi - lo + 1)
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        if self.w(e) == w { return e; }
        match self.n(e) {
            N::C(v) => return self.c(v, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Ite(c, x, y) if self.is_ctree(e) => {
                let x2 = self.zext(x, w);
                let y2 = self.zext(y, w);
                return self.ite(c, x2, y2);
            }
            _ => {}
        }
        self.mk(N::ZExt(e), w)
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let w0 = self.w(e);
        if w0 == w { return e; }
        match self.n(e) {
            N::C(v) => { let s = sext128(v, w0) as u128; return self.c(s, w); }
            N::Ite(c, x, y) if self.is_ctree(e) => {
                let x2 = self.sext(x, w);
                let y2 = self.sext(y, w);
                return self.ite(c, x2, y2);
            }
            _ => {}
        }
        self.mk(N::SExt(e), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.c((a << self.w(l)) | b, w);
        }
        // re-assemble adjacent extracts
        if let (N::Extract(x, hi, lo), N::Extract(y, hi2, lo2)) = (self.n(h), self.n(l)) {
            if x == y && lo == hi2 + 1 { return self.extract(x, hi, lo2); }
        }
        if self.as_const(h) == Some(0) { return self.zext(l, w); }
        self.mk(N::Concat(h, l), w)
    }
    /// bool -> bitvector of width w
    pub fn b2v(&mut self, b: E, w: u16) -> E {
        let one = self.c(1, w);
        let zero = self.c(0, w);
        self.ite(b, one, zero)
    }
    /// bitvector -> bool (non-zero)
    pub fn v2b(&mut self, v: E) -> E {
        let w = self.w(v);
        let z = self.c(0, w);
        let e = self.bin(Op::Eq, v, z);
        self.not(e)
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.egen = self.egen.wrapping_add(1);
        if self.egen == 0 { self.ecache.clear(); self.egen = 1; }
        if self.ecache.len() < self.nodes.len() {
            let n = self.nodes.len();
            self.ecache.resize(n, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        let nd = self.nodes[e as usize];
        match nd.n {
            N::Var(i) => return m.get(i as usize).copied().unwrap_or(0),
            N::C(v) => return v,
            N::T => return 1,
            N::F => return 0,
            _ => {}
        }
        let (g, v) = self.ecache[e as usize];
        if g == self.egen { return v; }
        let r = match nd.n {
            N::Not(a) => 1 - self.ev(a, m),
            N::BAnd(a, b) => if self.ev(a, m) == 0 { 0 } else { self.ev(b, m) },
            N::BOr(a, b) => if self.ev(a, m) != 0 { 1 } else { self.ev(b, m) },
            N::Bin(op, a, b) => {
                let w = self.w(a);
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                fold(op, x, y, w).unwrap_or_else(|| {
                    // SMT-LIB semantics of signed division by zero
                    match op { Op::SDiv => if sext128(x, w) < 0 { 1 } else { mask(w) }, _ => x }
                })
            }
            N::Ite(c, a, b) => if self.ev(c, m) != 0 { self.ev(a, m) } else { self.ev(b, m) },
            N::Extract(a, hi, lo) => (self.ev(a, m) >> lo) & mask(hi - lo + 1),
            N::ZExt(a) => self.ev(a, m),
            N::SExt(a) => { let w0 = self.w(a); (sext128(self.ev(a, m), w0) as u128) & mask(nd.w) }
            N::Concat(h, l) => { let wl = self.w(l); (self.ev(h, m) << wl) | self.ev(l, m) }
            _ => unreachable!(),
        };
        self.ecache[e as usize] = (self.egen, r);
        r
    }
}

// ---------------------------------------------------------------- Z3 FFI
#[allow(non_camel_case_types)]
pub mod z3 {
    use std::os::raw::*;
    pub type P = *mut c_void;
    extern "C" {
        pub fn Z3_mk_config() -> P;
        pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
        pub fn Z3_mk_context(c: P) -> P;
        pub fn Z3_del_context(c: P);
        pub fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
        pub fn Z3_mk_bool_sort(c: P) -> P;
        pub fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
        pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
        pub fn Z3_mk_true(c: P) -> P;
        pub fn Z3_mk_false(c: P) -> P;
        pub fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
        pub fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
        pub fn Z3_mk_not(c: P, a: P) -> P;
        pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
        pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
        pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
        pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
        pub fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
        pub fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
        pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_simple_solver(c: P) -> P;
        pub fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
        pub fn Z3_solver_inc_ref(c: P, s: P);
        pub fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
        pub fn Z3_solver_reset(c: P, s: P);
        pub fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P;
        pub fn Z3_solver_push(c: P, s: P);
        pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
        pub fn Z3_solver_assert(c: P, s: P, a: P);
        pub fn Z3_solver_check(c: P, s: P) -> c_int;
        pub fn Z3_solver_get_model(c: P, s: P) -> P;
        pub fn Z3_model_inc_ref(c: P, s: P);
        pub fn Z3_model_dec_ref(c: P, s: P);
        pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
        pub fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
        pub fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
        pub fn Z3_get_full_version() -> *const c_char;
        pub fn Z3_mk_params(c: P) -> P;
        pub fn Z3_params_inc_ref(c: P, p: P);
        pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
        pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
        pub fn Z3_solver_set_params(c: P, s: P, p: P);
    }
}

#[derive(Clone, Debug)]
pub enum Ans { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Solver {
    ctx: z3::P,
    sol: z3::P,
    ast: Vec<z3::P>,
    cache: HashMap<Vec<E>, Ans>,
    pub queries: u64,
    pub cache_hits: u64,
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub lits: HashMap<E, z3::P>, pub since: u64, sol2: z3::P, pub crossed: u64, pub time_ns: u128,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = z3::Z3_mk_config();
            let ctx = z3::Z3_mk_context(cfg);
            // bit-blasting incremental SAT solver; assertions are named once and passed as assumptions
            let sol = z3::Z3_mk_solver_for_logic(ctx, z3::Z3_mk_string_symbol(ctx, c"QF_FD".as_ptr()));
            z3::Z3_solver_inc_ref(ctx, sol);
            let sol2 = z3::Z3_mk_simple_solver(ctx);
            z3::Z3_solver_inc_ref(ctx, sol2);
            let p = z3::Z3_mk_params(ctx);
            z3::Z3_params_inc_ref(ctx, p);
            let k = z3::Z3_mk_string_symbol(ctx, c"rlimit".as_ptr());
            z3::Z3_params_set_uint(ctx, p, k, 80_000_000);
            z3::Z3_solver_set_params(ctx, sol, p);
            z3::Z3_solver_set_params(ctx, sol2, p);
            Solver { ctx, sol, lits: HashMap::new(), since: 0, sol2, crossed: 0, ast: vec![], cache: HashMap::new(), queries: 0, cache_hits: 0, z3_calls: 0, z3_sat: 0, z3_unsat: 0, z3_unknown: 0, time_ns: 0 }
        }
    }
    pub fn trim(&mut self) { if self.cache.len() > 400_000 { self.cache.clear(); } }
    fn tr(&mut self, cx: &Ctx, e: E) -> z3::P {
        if self.ast.len() < cx.nodes.len() { self.ast.resize(cx.nodes.len(), std::ptr::null_mut()); }
        let p = self.ast[e as usize];
        if !p.is_null() { return p; }
        let nd = cx.nodes[e as usize];
        let c = self.ctx;
        use z3::*;
        let r = unsafe {
            match nd.n {
                N::Var(i) => {
                    let s = Z3_mk_int_symbol(c, i as i32 * 256 + nd.w as i32);
                    let so = Z3_mk_bv_sort(c, nd.w as u32);
                    Z3_mk_const(c, s, so)
                }
                N::C(v) => {
                    let so = Z3_mk_bv_sort(c, nd.w as u32);
                    if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, v as u64, so) } else {
                        let s = std::ffi::CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), so)
                    }
                }
                N::T => Z3_mk_true(c),
                N::F => Z3_mk_false(c),
                N::Not(a) => { let a = self.tr(cx, a); Z3_mk_not(c, a) }
                N::BAnd(a, b) => { let v = [self.tr(cx, a), self.tr(cx, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::BOr(a, b) => { let v = [self.tr(cx, a), self.tr(cx, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                N::Ite(x, a, b) => { let (x, a, b) = (self.tr(cx, x), self.tr(cx, a), self.tr(cx, b)); Z3_mk_ite(c, x, a, b) }
                N::Extract(a, hi, lo) => { let a = self.tr(cx, a); Z3_mk_extract(c, hi as u32, lo as u32, a) }
                N::ZExt(a) => { let d = nd.w - cx.w(a); let a = self.tr(cx, a); Z3_mk_zero_ext(c, d as u32, a) }
                N::SExt(a) => { let d = nd.w - cx.w(a); let a = self.tr(cx, a); Z3_mk_sign_ext(c, d as u32, a) }
                N::Concat(a, b) => { let (a, b) = (self.tr(cx, a), self.tr(cx, b)); Z3_mk_concat(c, a, b) }
                N::Bin(op, a, b) => {
                    let (a, b) = (self.tr(cx, a), self.tr(cx, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b), Op::ULt => Z3_mk_bvult(c, a, b), Op::ULe => Z3_mk_bvule(c, a, b),
                        Op::SLt => Z3_mk_bvslt(c, a, b), Op::SLe => Z3_mk_bvsle(c, a, b),
                    }
                }
            }
        };
        self.ast[e as usize] = r;
        r
    }
    /// Is `pc /\ cond` satisfiable?  Only the conjuncts of `pc` that (transitively) share a
    /// variable with `cond` are sent: the others are satisfied by the state's current model.
    pub fn sat(&mut self, cx: &mut Ctx, pc: &[E], cond: E) -> Ans {
        self.queries += 1;
        if cond == cx.f { return Ans::Unsat; }
        let mut vars = cx.nodes[cond as usize].vars;
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if !used[i] {
                    let v = cx.nodes[p as usize].vars;
                    if v & vars != 0 { used[i] = true; if v & !vars != 0 { vars |= v; ch = true; } }
                }
            }
            if !ch { break; }
        }
        let mut key: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| *e).collect();
        key.sort_unstable();
        key.dedup();
        key.push(cond);
        if let Some(a) = self.cache.get(&key) { self.cache_hits += 1; return a.clone(); }
        let t0 = std::time::Instant::now();
        self.z3_calls += 1;
        let ans = unsafe {
            use z3::*;
            if self.since >= 200 { Z3_solver_reset(self.ctx, self.sol); self.lits.clear(); self.since = 0; }
            self.since += 1;
            let mut ls = vec![];
            for &k in &key {
                if let Some(&l) = self.lits.get(&k) { ls.push(l); continue; }
                let a = self.tr(cx, k);
                let l = Z3_mk_fresh_const(self.ctx, c"l".as_ptr(), Z3_mk_bool_sort(self.ctx));
                let q = Z3_mk_eq(self.ctx, l, a);
                Z3_solver_assert(self.ctx, self.sol, q);
                self.lits.insert(k, l);
                ls.push(l);
            }
            let r = Z3_solver_check_assumptions(self.ctx, self.sol, ls.len() as _, ls.as_ptr());
            // a sample of the unsatisfiable answers is asked again of the other solver core
            if r == -1 && self.z3_unsat % 64 == 0 {
                Z3_solver_push(self.ctx, self.sol2);
                for &k in &key { let a = self.tr(cx, k); Z3_solver_assert(self.ctx, self.sol2, a); }
                let r2 = Z3_solver_check(self.ctx, self.sol2);
                Z3_solver_pop(self.ctx, self.sol2, 1);
                assert!(r2 != 1, "the two solver cores disagree");
                if r2 == -1 { self.crossed += 1; }
            }
            let ans = if r == 1 {
                self.z3_sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.sol);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                // collect variable nodes
                let mut v = vars;
                let mut want = vec![];
                while v != 0 { let i = v.trailing_zeros(); v &= v - 1; want.push(i); }
                for i in want {
                    // find the var node (any width)
                    let mut found = None;
                    for w in [1u16, 8, 16, 32, 64, 128] {
                        if let Some(&e) = cx.map.get(&(N::Var(i), w)) { found = Some(e); break; }
                    }
                    if let Some(e) = found {
                        let a = self.tr(cx, e);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.ctx, o, &mut u) { out.push((i, u as u128)); }
                            else {
                                let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_string_lossy().to_string();
                                out.push((i, s.parse::<u128>().unwrap()));
                            }
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Ans::Sat(out)
            } else if r == -1 { self.z3_unsat += 1; Ans::Unsat } else { self.z3_unknown += 1; Ans::Unknown };
            ans
        };
        self.time_ns += t0.elapsed().as_nanos();
        self.cache.insert(key, ans.clone());
        ans
    }
}
pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(z3::Z3_get_full_version()).to_string_lossy().to_string() }
}
