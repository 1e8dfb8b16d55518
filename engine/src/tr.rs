//! MIR -> IR translation (driven by the real compiler: monomorphisation, layouts, vtables, constants).
use crate::expr::Ctx;
use crate::intr::{self, Bi};
use crate::ir::*;
use crate::mem::*;
use rustc_abi::{BackendRepr, FieldIdx, Size, TagEncoding, VariantIdx, Variants, ExternAbi};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, ConstValue, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;

pub enum FnImpl {
    Mir(&'static Func),
    Bi(Bi),
    Missing(String),
}
#[derive(Clone, Debug)]
pub enum GK {
    Mem,
    Fn(u32),
    VTable(u32),   // index in vtables (type)
    Foreign(String),
    TypeId(u32),
}
pub struct Glob {
    pub kind: GK,
    pub alloc: Alloc,
    pub mutable: bool,
}

pub struct Tr<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    lays: HashMap<Ty<'tcx>, Lay>,
    pub uds: Vec<Ud>,
    udmap: HashMap<Ud, u32>,
    pub insts: Vec<Instance<'tcx>>,
    instmap: HashMap<Instance<'tcx>, u32>,
    pub impls: Vec<Option<&'static FnImpl>>,
    pub globs: Vec<Glob>,
    globmap: HashMap<AllocId, u32>,
    pub vt_tys: Vec<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>)>,
    vtmap: HashMap<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>), u32>,
    pub dyns: Vec<&'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>>,
    fnglobs: HashMap<u32, u32>,
    gnext: u64,
    tyids: HashMap<Ty<'tcx>, u32>,
    pub overflow_checks: bool,
    dloc: Option<u32>,
}

pub type R<T> = Result<T, String>;

impl<'tcx> Tr<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Tr {
            tcx, env: ty::TypingEnv::fully_monomorphized(), lays: HashMap::new(), uds: vec![], udmap: HashMap::new(),
            insts: vec![], instmap: HashMap::new(), impls: vec![], globs: vec![], globmap: HashMap::new(),
            vt_tys: vec![], vtmap: HashMap::new(), dyns: vec![], fnglobs: HashMap::new(), gnext: 0x7000_0000_0000,
            tyids: HashMap::new(), overflow_checks: true, dloc: None,
        }
    }
    pub fn lcx(&self) -> LayoutCx<'tcx> { LayoutCx::new(self.tcx, self.env) }
    pub fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        self.tcx.layout_of(self.env.as_query_input(ty)).map_err(|e| format!("layout error for {ty}: {e:?}"))
    }
    fn ud(&mut self, u: Ud) -> u32 {
        if let Some(&i) = self.udmap.get(&u) { return i; }
        let i = self.uds.len() as u32;
        self.uds.push(u.clone());
        self.udmap.insert(u, i);
        i
    }
    pub fn ud_of(&mut self, ty: Ty<'tcx>) -> R<u32> {
        match ty.kind() {
            ty::Slice(t) => { let l = self.layout(*t)?; Ok(self.ud(Ud::Slice { stride: l.size.bytes(), align: l.align.abi.bytes() })) }
            ty::Str => Ok(self.ud(Ud::Slice { stride: 1, align: 1 })),
            ty::Dynamic(..) => Ok(self.ud(Ud::Dyn)),
            ty::Adt(..) | ty::Tuple(..) => {
                let l = self.layout(ty)?;
                let n = l.fields.count();
                if n == 0 { return Ok(self.ud(Ud::Slice { stride: 0, align: 1 })); }
                let off = l.fields.offset(n - 1).bytes();
                let f = l.field(&self.lcx(), n - 1);
                let tail = self.ud_of(f.ty)?;
                Ok(self.ud(Ud::Struct { off, align: l.align.abi.bytes(), tail }))
            }
            _ => Err(format!("unsized type {ty}")),
        }
    }
    pub fn lay_of(&mut self, l: TyAndLayout<'tcx>) -> R<Lay> {
        let size = l.size.bytes();
        let align = l.align.abi.bytes();
        let dl = &self.tcx.data_layout;
        let k = if l.is_unsized() {
            LK::Un(self.ud_of(l.ty)?)
        } else if size == 0 {
            LK::Z
        } else {
            match l.backend_repr {
                BackendRepr::Scalar(s) => {
                    let ss = s.size(dl).bytes();
                    if ss == size { LK::S(ss as u8) } else { LK::M }
                }
                BackendRepr::ScalarPair { a, b, b_offset } => {
                    LK::P(a.size(dl).bytes() as u8, b_offset.bytes() as u8, b.size(dl).bytes() as u8)
                }
                _ => LK::M,
            }
        };
        Ok(Lay { size, align, k })
    }
    pub fn lay(&mut self, ty: Ty<'tcx>) -> R<Lay> {
        if let Some(l) = self.lays.get(&ty) { return Ok(*l); }
        let l = self.layout(ty)?;
        let r = self.lay_of(l)?;
        self.lays.insert(ty, r);
        Ok(r)
    }
    pub fn inst(&mut self, i: Instance<'tcx>) -> u32 {
        if let Some(&x) = self.instmap.get(&i) { return x; }
        let x = self.insts.len() as u32;
        self.insts.push(i);
        self.impls.push(None);
        self.instmap.insert(i, x);
        x
    }
    pub fn resolve(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> u32 {
        let i = Instance::expect_resolve(self.tcx, self.env, def, args, DUMMY_SP);
        self.inst(i)
    }
    // ------------------------------------------------------------ globals
    fn push_glob(&mut self, kind: GK, mut alloc: Alloc, mutable: bool) -> u32 {
        let al = (alloc.align as u64).max(1);
        let base = (self.gnext + al - 1) / al * al;
        self.gnext = base + (alloc.bytes.len() as u64).max(16);
        alloc.base = base;
        self.globs.push(Glob { kind, alloc, mutable });
        (self.globs.len() as u32 - 1) | GLOBAL
    }
    pub fn fn_glob(&mut self, f: u32) -> u32 {
        if let Some(&g) = self.fnglobs.get(&f) { return g; }
        let g = self.push_glob(GK::Fn(f), Alloc::new(1, 16, 0), false);
        self.fnglobs.insert(f, g);
        g
    }
    pub fn vtable_glob(&mut self, ty: Ty<'tcx>, preds: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>) -> R<u32> {
        if let Some(&g) = self.vtmap.get(&(ty, preds)) { return Ok(g); }
        let tr = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
        let aid = self.tcx.vtable_allocation((ty, tr));
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(aid) else { return Err("vtable alloc".into()) };
        let vi = self.vt_tys.len() as u32;
        self.vt_tys.push((ty, preds));
        let a = self.conv_alloc(m.inner())?;
        let g = self.push_glob(GK::VTable(vi), a, false);
        self.vtmap.insert((ty, preds), g);
        Ok(g)
    }
    fn conv_alloc(&mut self, a: &mir::interpret::Allocation) -> R<Alloc> {
        let n = a.len();
        let mut out = Alloc::new(n as u64, a.align.bytes(), 0);
        out.bytes.copy_from_slice(a.inspect_with_uninit_and_ptr_outside_interpreter(0..n));
        let ptrs: Vec<(Size, AllocId)> = a.provenance().ptrs().iter().map(|(o, p)| (*o, p.alloc_id())).collect();
        for (o, id) in ptrs {
            let o = o.bytes() as usize;
            let inner = u64::from_le_bytes(out.bytes[o..o + 8].try_into().unwrap());
            if let GlobalAlloc::TypeId { .. } = self.tcx.global_alloc(id) { continue; }
            let g = self.glob(id)?;
            out.items.push(Item { off: o as u32, size: 8, it: It::Ptr(g, inner) });
        }
        out.items.sort_by_key(|i| i.off);
        Ok(out)
    }
    pub fn static_glob(&mut self, def: DefId) -> R<u32> {
        let id = self.tcx.reserve_and_set_static_alloc(def);
        self.glob(id)
    }
    pub fn glob(&mut self, id: AllocId) -> R<u32> {
        if let Some(&g) = self.globmap.get(&id) { return Ok(g); }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                // reserve first (recursive statics)
                let g = self.push_glob(GK::Mem, Alloc::new(m.len() as u64, m.align.bytes(), 0), m.mutability.is_mut());
                self.globmap.insert(id, g);
                let mut a = self.conv_alloc(m)?;
                let i = (g & !GLOBAL) as usize;
                a.base = self.globs[i].alloc.base;
                self.globs[i].alloc = a;
                Ok(g)
            }
            GlobalAlloc::Static(def) => {
                if self.tcx.is_foreign_item(def) {
                    let n = self.tcx.def_path_str(def);
                    let g = self.push_glob(GK::Foreign(n), Alloc::new(8, 8, 0), false);
                    self.globmap.insert(id, g);
                    return Ok(g);
                }
                let m = self.tcx.eval_static_initializer(def).map_err(|e| format!("static init {e:?}"))?;
                let m = m.inner();
                let g = self.push_glob(GK::Mem, Alloc::new(m.len() as u64, m.align.bytes(), 0), true);
                self.globmap.insert(id, g);
                let mut a = self.conv_alloc(m)?;
                let i = (g & !GLOBAL) as usize;
                a.base = self.globs[i].alloc.base;
                self.globs[i].alloc = a;
                Ok(g)
            }
            GlobalAlloc::Function { instance } => {
                let f = self.inst(instance);
                let g = self.fn_glob(f);
                self.globmap.insert(id, g);
                Ok(g)
            }
            GlobalAlloc::VTable(ty, preds) => {
                let g = self.vtable_glob(ty, preds)?;
                self.globmap.insert(id, g);
                Ok(g)
            }
            GlobalAlloc::TypeId { ty } => {
                let t = self.tyid(ty);
                let g = self.push_glob(GK::TypeId(t), Alloc::new(16, 16, 0), false);
                self.globmap.insert(id, g);
                Ok(g)
            }
        }
    }
    pub fn tyid(&mut self, ty: Ty<'tcx>) -> u32 {
        let n = self.tyids.len() as u32;
        *self.tyids.entry(ty).or_insert(n)
    }
    fn scalar(&mut self, s: Scalar) -> R<V> {
        Ok(match s {
            Scalar::Int(i) => V::I(i.to_bits(i.size())),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let g = self.glob(prov.alloc_id())?;
                V::P(g, off.bytes())
            }
        })
    }
    fn constant(&mut self, cv: ConstValue, lay: Lay) -> R<Opd> {
        let mut cx = Ctx::new();
        Ok(match cv {
            _ if lay.k == LK::Z => Opd::Z,
            ConstValue::ZeroSized => Opd::Z,
            ConstValue::Scalar(s) => {
                let v = self.scalar(s)?;
                match lay.k {
                    LK::S(_) => Opd::C(v),
                    k => return Err(format!("scalar constant for {k:?}")),
                }
            }
            ConstValue::Slice { alloc_id, meta } => { let g = self.glob(alloc_id)?; Opd::CP(V::P(g, 0), V::I(meta as u128)) }
            ConstValue::Indirect { alloc_id, offset } => {
                let g = self.glob(alloc_id)?;
                let o = offset.bytes();
                let al = &self.globs[(g & !GLOBAL) as usize].alloc;
                let noaddr = |_: u32, _: u64| -> u64 { panic!("partial pointer in constant") };
                match lay.k {
                    LK::S(s) => Opd::C(al.read(&mut cx, o, s as u64, &noaddr)),
                    LK::P(s0, o1, s1) => {
                        let a = al.read(&mut cx, o, s0 as u64, &noaddr);
                        let b = al.read(&mut cx, o + o1 as u64, s1 as u64, &noaddr);
                        Opd::CP(a, b)
                    }
                    _ => Opd::CM(g, o, lay.size),
                }
            }
        })
    }
    pub fn dummy_loc(&mut self) -> u32 {
        if let Some(g) = self.dloc { return g; }
        let mut a = Alloc::new(24, 8, 0);
        let s = self.push_glob(GK::Mem, Alloc::new(2, 1, 0), false);
        a.items.push(Item { off: 0, size: 8, it: It::Ptr(s, 0) });
        a.bytes[8] = 1;
        let g = self.push_glob(GK::Mem, a, false);
        self.dloc = Some(g);
        g
    }
    /// field offsets / layouts of the argument tuple of a function
    pub fn fn_arg_tuple(&mut self, f: u32) -> R<Vec<(u64, Lay)>> {
        let i = self.insts[f as usize];
        let ty = i.ty(self.tcx, self.env);
        let sig = self.tcx.instantiate_bound_regions_with_erased(ty.fn_sig(self.tcx));
        let tup = Ty::new_tup(self.tcx, sig.inputs());
        let l = self.layout(tup)?;
        let mut v = vec![];
        for k in 0..l.fields.count() { let fl = l.field(&self.lcx(), k); v.push((l.fields.offset(k).bytes(), self.lay_of(fl)?)); }
        Ok(v)
    }
    // ------------------------------------------------------------ functions
    pub fn fn_name(&self, f: u32) -> String {
        let i = self.insts[f as usize];
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(i.to_string());
        match i.def {
            InstanceKind::Item(_) => s,
            _ => format!("{s} [{:?}]", i.def).chars().take(160).collect(),
        }
    }
    pub fn get_impl(&mut self, f: u32) -> &'static FnImpl {
        if let Some(i) = self.impls[f as usize] { return i; }
        let r: FnImpl = match self.make_impl(f) {
            Ok(i) => i,
            Err(e) => FnImpl::Missing(e),
        };
        let r: &'static FnImpl = Box::leak(Box::new(r));
        self.impls[f as usize] = Some(r);
        r
    }
    /// constructors of tuple structs and variants of other crates, taken as functions
    fn ctor(&mut self, f: u32) -> R<Option<FnImpl>> {
        let (tcx, inst) = (self.tcx, self.insts[f as usize]);
        let def = inst.def_id();
        if !matches!(tcx.def_kind(def), rustc_hir::def::DefKind::Ctor(_, rustc_hir::def::CtorKind::Fn)) { return Ok(None); }
        let sig = inst.ty(tcx, self.env).fn_sig(tcx);
        let sig = tcx.normalize_erasing_late_bound_regions(self.env, sig);
        let ty = sig.output();
        let adt = ty.ty_adt_def().ok_or("ctor")?;
        let var = if adt.is_enum() { adt.variant_index_with_ctor_id(def) } else { VariantIdx::from_u32(0) };
        let l = self.layout(ty)?;
        let lv = if adt.is_enum() { l.for_variant(&self.lcx(), var) } else { l };
        let ret = self.lay_of(l)?;
        let mut locals = vec![LocalI { lay: ret, reg: !matches!(ret.k, LK::M | LK::Un(_)) }];
        let mut fields = vec![];
        for (i, t) in sig.inputs().iter().enumerate() {
            let lay = self.lay(*t)?;
            let reg = !matches!(lay.k, LK::M | LK::Un(_));
            locals.push(LocalI { lay, reg });
            let op = if lay.k == LK::Z { Opd::Z } else { Opd::Pl(PlaceIR { local: i as u32 + 1, reg, part: Part::Whole, projs: Box::new([]), lay }) };
            fields.push((lv.fields.offset(i).bytes(), op, lay));
        }
        let tag = if adt.is_enum() { tag_of(self, ty, var)? } else { None };
        let dest = PlaceIR { local: 0, reg: locals[0].reg, part: Part::Whole, projs: Box::new([]), lay: ret };
        let st = if ret.k == LK::Z { vec![] } else { vec![St::Assign(dest, Rv::Agg(fields, tag), ret)] };
        let func = Func { id: f, name: self.fn_name(f), krate: false, blocks: vec![Block { st, tm: Tm::Ret }], spans: vec![String::new()], argc: locals.len() - 1, locals, spread: None };
        Ok(Some(FnImpl::Mir(Box::leak(Box::new(func)))))
    }
    fn make_impl(&mut self, f: u32) -> R<FnImpl> {
        let inst = self.insts[f as usize];
        let tcx = self.tcx;
        if let Some(b) = intr::builtin(self, inst)? { return Ok(FnImpl::Bi(b)); }
        match inst.def {
            InstanceKind::Item(def) => {
                if tcx.is_foreign_item(def) { return Err(format!("foreign function {}", tcx.def_path_str(def))); }
                if !tcx.is_mir_available(def) {
                    if let Some(i) = self.ctor(f)? { return Ok(i); }
                    // panic entry points etc. resolve through std-internal symbols
                    return Err(format!("no MIR for {}", tcx.def_path_str(def)));
                }
            }
            InstanceKind::Intrinsic(def) => {
                let name = tcx.item_name(def);
                if tcx.intrinsic(def).map(|i| i.must_be_overridden).unwrap_or(true) {
                    return Err(format!("intrinsic {name}"));
                }
                let fb = Instance { def: InstanceKind::Item(def), args: inst.args };
                let g = self.inst(fb);
                return Ok(FnImpl::Bi(Bi::Forward(g)));
            }
            InstanceKind::Virtual(_, idx) => return Ok(FnImpl::Bi(Bi::Virtual(idx as u32))),
            InstanceKind::LlvmIntrinsic(d) => return Err(format!("llvm intrinsic {}", tcx.def_path_str(d))),
            _ => {}
        }
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        let func = FnTr { tr: self, body: &body, inst, regs: vec![], lays: vec![] }.run(f)?;
        Ok(FnImpl::Mir(Box::leak(Box::new(func))))
    }
}

pub struct FnTr<'a, 'tcx> {
    tr: &'a mut Tr<'tcx>,
    body: &'a mir::Body<'tcx>,
    inst: Instance<'tcx>,
    regs: Vec<bool>,
    lays: Vec<Lay>,
}

fn fits(l: Lay, off: u64, f: Lay) -> Option<Part> {
    match (l.k, f.k) {
        (_, LK::Z) => Some(Part::Z),
        (LK::S(a), LK::S(b)) if off == 0 && a == b => Some(Part::Whole),
        (LK::P(a, b, c), LK::P(x, y, z)) if off == 0 && a == x && b == y && c == z => Some(Part::Whole),
        (LK::P(a, _, _), LK::S(x)) if off == 0 && a == x => Some(Part::A),
        (LK::P(_, b, c), LK::S(x)) if off == b as u64 && c == x => Some(Part::B),
        _ => None,
    }
}
fn slay(sz: u8) -> Lay { Lay { size: sz as u64, align: sz as u64, k: LK::S(sz) } }

impl<'a, 'tcx> FnTr<'a, 'tcx> {
    fn run(mut self, f: u32) -> R<Func> {
        let body = self.body;
        for d in body.local_decls.iter() {
            let l = self.tr.lay(d.ty)?;
            self.lays.push(l);
            self.regs.push(!matches!(l.k, LK::M | LK::Un(_)));
        }
        // which locals can live in registers?
        self.prepass()?;
        let locals: Vec<LocalI> = (0..self.lays.len()).map(|i| LocalI { lay: self.lays[i], reg: self.regs[i] }).collect();
        let mut blocks = vec![];
        let mut spans = vec![];
        let krate = self.inst.def_id().is_local();
        for bb in body.basic_blocks.iter() {
            let sm = self.tr.tcx.sess.source_map();
            spans.push(if krate { sm.span_to_diagnostic_string(bb.terminator().source_info.span) } else { String::new() });
            if bb.is_cleanup {
                blocks.push(Block { st: vec![], tm: Tm::Unsupported("cleanup block".into()) });
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                self.stmt(s, &mut st)?;
            }
            let tm = self.term(bb.terminator())?;
            blocks.push(Block { st, tm });
        }
        let spread = match body.spread_arg {
            None => None,
            Some(l) => {
                let ty = body.local_decls[l].ty;
                let lay = self.tr.layout(ty)?;
                let mut v = vec![];
                for i in 0..lay.fields.count() {
                    let fl = lay.field(&self.tr.lcx(), i);
                    v.push((lay.fields.offset(i).bytes(), self.tr.lay_of(fl)?));
                }
                Some((l.as_u32(), v))
            }
        };
        Ok(Func { id: f, name: self.tr.fn_name(f), krate, locals, blocks, spans, argc: body.arg_count, spread })
    }
    fn prepass(&mut self) -> R<()> {
        let body = self.body;
        if let Some(l) = body.spread_arg { self.regs[l.as_usize()] = false; }
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { continue; }
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        self.pp_place(*p)?;
                        match rv {
                            Rvalue::Ref(_, _, q) | Rvalue::RawPtr(_, q) | Rvalue::Reborrow(_, _, q) => self.pp_addr(*q)?,
                            Rvalue::Discriminant(q) => self.pp_discr(*q)?,
                            Rvalue::CopyForDeref(q) => self.pp_place(*q)?,
                            Rvalue::Use(o, _) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::WrapUnsafeBinder(o, _) => self.pp_op(o)?,
                            Rvalue::BinaryOp(_, ab) => { self.pp_op(&ab.0)?; self.pp_op(&ab.1)?; }
                            Rvalue::Aggregate(_, ops) => for o in ops.iter() { self.pp_op(o)?; },
                            Rvalue::ThreadLocalRef(_) => {}
                        }
                    }
                    StatementKind::SetDiscriminant { place, .. } => { self.pp_discr(**place)?; }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => self.pp_op(o)?,
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => { self.pp_op(&c.src)?; self.pp_op(&c.dst)?; self.pp_op(&c.count)?; }
                    },
                    _ => {}
                }
            }
            match &bb.terminator().kind {
                TerminatorKind::SwitchInt { discr, .. } => self.pp_op(discr)?,
                TerminatorKind::Drop { place, .. } => self.pp_addr(*place)?,
                TerminatorKind::Call { func, args, destination, .. } => {
                    self.pp_op(func)?;
                    self.pp_place(*destination)?;
                    for a in args.iter() { self.pp_op(&a.node)?; }
                    if self.is_rust_call(func) {
                        if let Some(a) = args.last() {
                            if let Operand::Copy(p) | Operand::Move(p) = &a.node {
                                let ty = p.ty(&body.local_decls, self.tr.tcx).ty;
                                for (i, t) in ty.tuple_fields().iter().enumerate() {
                                    let q = p.project_deeper(&[ProjectionElem::Field(FieldIdx::from_usize(i), t)], self.tr.tcx);
                                    self.pp_place(q)?;
                                }
                            }
                        }
                    }
                }
                TerminatorKind::Assert { cond, .. } => self.pp_op(cond)?,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_rust_call(&self, func: &Operand<'tcx>) -> bool {
        let ty = func.ty(&self.body.local_decls, self.tr.tcx);
        ty.fn_sig(self.tr.tcx).abi() == ExternAbi::RustCall
    }
    fn pp_op(&mut self, o: &Operand<'tcx>) -> R<()> {
        match o { Operand::Copy(p) | Operand::Move(p) => self.pp_place(*p), _ => Ok(()) }
    }
    fn pp_addr(&mut self, p: mir::Place<'tcx>) -> R<()> {
        if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) { self.regs[p.local.as_usize()] = false; }
        self.pp_place(p)
    }
    fn pp_discr(&mut self, p: mir::Place<'tcx>) -> R<()> {
        self.pp_place(p)?;
        if !self.regs[p.local.as_usize()] || p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) { return Ok(()); }
        let ty = p.ty(&self.body.local_decls, self.tr.tcx).ty;
        let l = self.tr.lay(ty)?;
        let d = self.disc(ty)?;
        let ok = match d {
            Disc::Const(_) => true,
            Disc::Direct { off, size, .. } | Disc::Niche { off, size, .. } => fits(l, off, slay(size)).is_some(),
        };
        if !ok { self.regs[p.local.as_usize()] = false; }
        Ok(())
    }
    /// checks that the register prefix of the place is representable
    fn pp_place(&mut self, p: mir::Place<'tcx>) -> R<()> {
        let li = p.local.as_usize();
        if !self.regs[li] { return Ok(()); }
        if self.reg_prefix(p)?.is_none() { self.regs[li] = false; }
        Ok(())
    }
    /// For a place whose base is a register local: (part, index of first deref or len)
    fn reg_prefix(&mut self, p: mir::Place<'tcx>) -> R<Option<(Part, usize)>> {
        let lay0 = self.lays[p.local.as_usize()];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut off = 0u64;
        let n = p.projection.len();
        let mut i = 0;
        while i < n {
            let e = p.projection[i];
            match e {
                ProjectionElem::Deref => break,
                ProjectionElem::Field(f, _) => {
                    let l = self.place_layout(pt)?;
                    off += l.fields.offset(f.as_usize()).bytes();
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                _ => return Ok(None),
            }
            pt = pt.projection_ty(self.tr.tcx, e);
            i += 1;
        }
        let l = self.place_layout(pt)?;
        let fl = self.tr.lay_of(l)?;
        // a whole-place read of a multi-component value at its downcast view is not a value read
        if i == n && pt.variant_index.is_some() { return Ok(fits(lay0, off, fl).map(|p| (p, i))); }
        Ok(fits(lay0, off, fl).map(|p| (p, i)))
    }
    fn place_layout(&mut self, pt: mir::PlaceTy<'tcx>) -> R<TyAndLayout<'tcx>> {
        let l = self.tr.layout(pt.ty)?;
        Ok(match pt.variant_index { Some(v) => l.for_variant(&self.tr.lcx(), v), None => l })
    }
    pub fn place(&mut self, p: mir::Place<'tcx>) -> R<PlaceIR> {
        let tcx = self.tr.tcx;
        let reg = self.regs[p.local.as_usize()];
        let mut projs = vec![];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut start = 0;
        let mut part = Part::Whole;
        if reg {
            let (pa, i) = self.reg_prefix(p)?.ok_or("reg prefix")?;
            part = pa;
            start = i;
            for k in 0..i { pt = pt.projection_ty(tcx, p.projection[k]); }
        }
        for k in start..p.projection.len() {
            let e = p.projection[k];
            match e {
                ProjectionElem::Deref => {
                    let inner = pt.ty.builtin_deref(true).ok_or_else(|| format!("deref of {}", pt.ty))?;
                    let l = self.tr.lay(inner)?;
                    projs.push(Pj::Deref { fat: matches!(l.k, LK::Un(_)) });
                }
                ProjectionElem::Field(f, fty) => {
                    let l = self.place_layout(pt)?;
                    let off = l.fields.offset(f.as_usize()).bytes();
                    if l.is_unsized() {
                        let fl = l.field(&self.tr.lcx(), f.as_usize());
                        if fl.is_unsized() {
                            let _ = fty;
                            let tail = self.tr.ud_of(fl.ty)?;
                            projs.push(Pj::OffDyn { off, tail });
                        } else if off != 0 { projs.push(Pj::Off(off)); }
                    } else if off != 0 { projs.push(Pj::Off(off)); }
                }
                ProjectionElem::Index(l) => {
                    let et = pt.ty.builtin_index().ok_or("index")?;
                    let s = self.tr.lay(et)?.size;
                    projs.push(Pj::Idx { local: l.as_u32(), stride: s });
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let et = pt.ty.builtin_index().ok_or("index")?;
                    let s = self.tr.lay(et)?.size;
                    if from_end {
                        match pt.ty.kind() {
                            ty::Array(_, n) => { let n = n.try_to_target_usize(tcx).ok_or("array len")?; projs.push(Pj::Off((n - offset) * s)); }
                            _ => projs.push(Pj::CEnd { off: offset, stride: s }),
                        }
                    } else { projs.push(Pj::Off(offset * s)); }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let et = pt.ty.builtin_index().ok_or("index")?;
                    let s = self.tr.lay(et)?.size;
                    let arr = match pt.ty.kind() { ty::Array(_, n) => Some(n.try_to_target_usize(tcx).ok_or("array len")?), _ => None };
                    projs.push(Pj::Sub { from, to, from_end, stride: s, arr });
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                ProjectionElem::PhantomDeref => return Err("phantom deref".into()),
            }
            pt = pt.projection_ty(tcx, e);
        }
        let l = self.place_layout(pt)?;
        let lay = self.tr.lay_of(l)?;
        // merge consecutive offsets
        let mut m: Vec<Pj> = vec![];
        for p in projs {
            if let (Some(Pj::Off(a)), Pj::Off(b)) = (m.last_mut(), &p) { *a += *b; continue; }
            m.push(p);
        }
        Ok(PlaceIR { local: p.local.as_u32(), reg, part, projs: m.into(), lay })
    }
    pub fn op(&mut self, o: &Operand<'tcx>) -> R<(Opd, Lay, Ty<'tcx>)> {
        let ty = o.ty(&self.body.local_decls, self.tr.tcx);
        let lay = self.tr.lay(ty)?;
        let r = match o {
            Operand::Copy(p) | Operand::Move(p) => if lay.k == LK::Z { Opd::Z } else { Opd::Pl(self.place(*p)?) },
            Operand::Constant(c) => {
                if lay.k == LK::Z { Opd::Z } else {
                    let cv = c.const_.eval(self.tr.tcx, self.tr.env, c.span).map_err(|e| format!("const eval {e:?}"))?;
                    self.tr.constant(cv, lay)?
                }
            }
            Operand::RuntimeChecks(rc) => {
                let b = match rc { mir::RuntimeChecks::OverflowChecks => self.tr.overflow_checks, _ => false };
                Opd::C(V::I(b as u128))
            }
        };
        Ok((r, lay, ty))
    }
    fn disc(&mut self, ty: Ty<'tcx>) -> R<Disc> { disc_of(self.tr, ty) }
    fn tagw(&mut self, ty: Ty<'tcx>, v: VariantIdx) -> R<Option<TagW>> { tag_of(self.tr, ty, v) }
    fn stmt(&mut self, s: &mir::Statement<'tcx>, out: &mut Vec<St>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let dest = self.place(*p)?;
                let (rv, lay) = self.rvalue(rv, dest.lay)?;
                if dest.lay.k == LK::Z {
                    // nothing to store; still evaluate nothing (rvalues have no side effects)
                    return Ok(());
                }
                out.push(St::Assign(dest, rv, lay));
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ty = place.ty(&self.body.local_decls, self.tr.tcx).ty;
                let d = self.place(**place)?;
                if let Some(t) = self.tagw(ty, *variant_index)? { out.push(St::SetTag(d, t)); }
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => {}
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (a, _, t) = self.op(&c.src)?;
                    let (b, _, _) = self.op(&c.dst)?;
                    let (n, _, _) = self.op(&c.count)?;
                    let e = t.builtin_deref(true).ok_or("copy")?;
                    let sz = self.tr.lay(e)?.size;
                    out.push(St::CopyNon(a, b, n, sz));
                }
            },
            _ => {}
        }
        Ok(())
    }
    fn nt(&mut self, ty: Ty<'tcx>) -> R<NT> {
        Ok(match ty.kind() {
            ty::Int(_) => NT::Int(self.tr.lay(ty)?.size as u8, true),
            ty::Uint(_) | ty::Bool | ty::Char => NT::Int(self.tr.lay(ty)?.size as u8, false),
            ty::Float(_) => NT::Float(self.tr.lay(ty)?.size as u8),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => {
                if self.tr.lay(ty)?.size == 16 { NT::Fat } else { NT::Int(8, false) }
            }
            ty::Pat(b, _) => self.nt(*b)?,
            _ if self.tr.lay(ty)?.k == LK::Z => NT::Int(0, false),
            _ => return Err(format!("numeric type {ty}")),
        })
    }
    fn rvalue(&mut self, rv: &Rvalue<'tcx>, dlay: Lay) -> R<(Rv, Lay)> {
        let tcx = self.tr.tcx;
        Ok(match rv {
            Rvalue::Use(o, _) | Rvalue::WrapUnsafeBinder(o, _) => { let (o, l, _) = self.op(o)?; (Rv::Use(o), l) }
            Rvalue::CopyForDeref(p) => { let p = self.place(*p)?; let l = p.lay; (Rv::Use(Opd::Pl(p)), l) }
            Rvalue::Repeat(o, n) => {
                let (o, l, _) = self.op(o)?;
                let n = n.try_to_target_usize(tcx).ok_or("repeat count")?;
                (Rv::Repeat(o, n, l.size), dlay)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => { let p = self.place(*p)?; (Rv::Addr(p), dlay) }
            Rvalue::ThreadLocalRef(d) => { let g = self.tr.static_glob(*d)?; (Rv::Tls(g), dlay) }
            Rvalue::Cast(k, o, ty) => {
                let (o, l, from) = self.op(o)?;
                let to = *ty;
                let c = match k {
                    CastKind::IntToInt => {
                        let (mut fty, mut d) = (from, None);
                        if let ty::Adt(..) = from.kind() { d = Some(self.disc(from)?); fty = from.discriminant_ty(tcx); }
                        let _ = d;
                        let (NT::Int(a, s), NT::Int(b, _)) = (self.nt(fty)?, self.nt(to)?) else { return Err("int cast".into()) };
                        let _ = l;
                        Cast::Int { from: a, signed: s, to: b }
                    }
                    CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => if l.size == 16 { Cast::Thin } else { Cast::Keep },
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => if l.size == 16 && dlay.size == 8 { Cast::Thin } else { Cast::Keep },
                    CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => return Ok((Rv::Cast(Cast::Keep, o), l)),
                    CastKind::IntToFloat => { let (NT::Int(a, s), NT::Float(b)) = (self.nt(from)?, self.nt(to)?) else { return Err("cast".into()) }; Cast::IntFloat { from: a, signed: s, to: b } }
                    CastKind::FloatToInt => { let (NT::Float(a), NT::Int(b, s)) = (self.nt(from)?, self.nt(to)?) else { return Err("cast".into()) }; Cast::FloatInt { from: a, to: b, signed: s } }
                    CastKind::FloatToFloat => { let (NT::Float(a), NT::Float(b)) = (self.nt(from)?, self.nt(to)?) else { return Err("cast".into()) }; Cast::FloatFloat { from: a, to: b } }
                    CastKind::PointerCoercion(pc, _) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            let ty::FnDef(d, a) = from.kind() else { return Err("reify".into()) };
                            let i = Instance::resolve_for_fn_ptr(tcx, self.tr.env, *d, a.no_bound_vars().ok_or("binder")?).ok_or("reify")?;
                            let f = self.tr.inst(i);
                            let g = self.tr.fn_glob(f);
                            return Ok((Rv::Use(Opd::C(V::P(g, 0))), dlay));
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            let ty::Closure(d, a) = from.kind() else { return Err("reify".into()) };
                            let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                            let f = self.tr.inst(i);
                            let g = self.tr.fn_glob(f);
                            return Ok((Rv::Use(Opd::C(V::P(g, 0))), dlay));
                        }
                        PointerCoercion::Unsize => Cast::Unsize(self.unsize(from, to)?),
                        _ => Cast::Keep,
                    },
                };
                (Rv::Cast(c, o), dlay)
            }
            Rvalue::BinaryOp(b, ab) => {
                let (x, _, tx) = self.op(&ab.0)?;
                let (y, _, _) = self.op(&ab.1)?;
                let op = match b {
                    BinOp::Add | BinOp::AddUnchecked => BOp::Add,
                    BinOp::Sub | BinOp::SubUnchecked => BOp::Sub,
                    BinOp::Mul | BinOp::MulUnchecked => BOp::Mul,
                    BinOp::AddWithOverflow => BOp::AddO, BinOp::SubWithOverflow => BOp::SubO, BinOp::MulWithOverflow => BOp::MulO,
                    BinOp::Div => BOp::Div, BinOp::Rem => BOp::Rem, BinOp::BitXor => BOp::Xor, BinOp::BitAnd => BOp::And, BinOp::BitOr => BOp::Or,
                    BinOp::Shl | BinOp::ShlUnchecked => BOp::Shl, BinOp::Shr | BinOp::ShrUnchecked => BOp::Shr,
                    BinOp::Eq => BOp::Eq, BinOp::Lt => BOp::Lt, BinOp::Le => BOp::Le, BinOp::Ne => BOp::Ne, BinOp::Ge => BOp::Ge, BinOp::Gt => BOp::Gt,
                    BinOp::Cmp => BOp::Cmp,
                    BinOp::Offset => { let e = tx.builtin_deref(true).ok_or("offset")?; BOp::Offset(self.tr.lay(e)?.size) }
                };
                let nt = self.nt(tx)?;
                (Rv::Bin(op, nt, x, y), dlay)
            }
            Rvalue::UnaryOp(u, o) => {
                let (x, _, tx) = self.op(o)?;
                match u {
                    UnOp::PtrMetadata => (Rv::PtrMeta(x), dlay),
                    UnOp::Not => if tx.is_bool() { (Rv::Un(UOp::NotBool, NT::Int(1, false), x), dlay) } else { let n = self.nt(tx)?; (Rv::Un(UOp::Not, n, x), dlay) },
                    UnOp::Neg => { let n = self.nt(tx)?; (Rv::Un(UOp::Neg, n, x), dlay) }
                }
            }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(&self.body.local_decls, tcx).ty;
                let d = self.disc(ty)?;
                let p = self.place(*p)?;
                (Rv::Discr(p, d), dlay)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fields = vec![];
                let mut tag = None;
                let (ty, var, active): (Ty<'tcx>, VariantIdx, Option<FieldIdx>) = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let l = self.tr.lay(*t)?;
                        for (i, o) in ops.iter().enumerate() {
                            let (o, ol, _) = self.op(o)?;
                            fields.push((i as u64 * l.size, o, ol));
                        }
                        return Ok((Rv::Agg(fields, None), dlay));
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let (a, _, _) = self.op(&ops[FieldIdx::from_usize(0)])?;
                        let (b, bl, _) = self.op(&ops[FieldIdx::from_usize(1)])?;
                        if bl.k == LK::Z { return Ok((Rv::Use(a), dlay)); }
                        return Ok((Rv::AggPtr(a, b), dlay));
                    }
                    mir::AggregateKind::Tuple => {
                        let tys: Vec<Ty<'tcx>> = ops.iter().map(|o| o.ty(&self.body.local_decls, tcx)).collect();
                        (Ty::new_tup(tcx, &tys), VariantIdx::from_u32(0), None)
                    }
                    mir::AggregateKind::Adt(d, v, args, _, act) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        let t = tcx.normalize_erasing_regions(self.tr.env, ty::Unnormalized::new_wip(t));
                        (t, *v, *act)
                    }
                    mir::AggregateKind::Closure(d, a) => (Ty::new_closure(tcx, *d, a), VariantIdx::from_u32(0), None),
                    _ => return Err("coroutine".into()),
                };
                let l = self.tr.layout(ty)?;
                let lv = if ty.is_enum() { l.for_variant(&self.tr.lcx(), var) } else { l };
                for (i, o) in ops.iter().enumerate() {
                    let (o, ol, _) = self.op(o)?;
                    let fi = active.map(|f| f.as_usize()).unwrap_or(i);
                    fields.push((lv.fields.offset(fi).bytes(), o, ol));
                }
                if ty.is_enum() { tag = self.tagw(ty, var)?; }
                (Rv::Agg(fields, tag), dlay)
            }
        })
    }
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Uns> {
        let tcx = self.tr.tcx;
        match (from.kind(), to.kind()) {
            (ty::Ref(_, s, _) | ty::RawPtr(s, _), ty::Ref(_, c, _) | ty::RawPtr(c, _)) => {
                let (a, b) = tcx.struct_lockstep_tails_for_codegen(*s, *c, self.tr.env);
                match (a.kind(), b.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => Ok(Uns::Len(n.try_to_target_usize(tcx).ok_or("len")?)),
                    (ty::Dynamic(x, _), ty::Dynamic(y, _)) => {
                        if x == y { return Ok(Uns::Same); }
                        let i = self.tr.dyns.len() as u32;
                        self.tr.dyns.push(*y);
                        Ok(Uns::DynDyn { dst_dyn: i })
                    }
                    (_, ty::Dynamic(p, _)) => Ok(Uns::Vtable(self.tr.vtable_glob(a, p)?)),
                    _ => Err(format!("unsize {from} -> {to}")),
                }
            }
            (ty::Adt(..), ty::Adt(..)) => {
                let (la, lb) = (self.tr.layout(from)?, self.tr.layout(to)?);
                for i in 0..la.fields.count() {
                    let (fa, fb) = (la.field(&self.tr.lcx(), i), lb.field(&self.tr.lcx(), i));
                    if fa.ty != fb.ty && !(fa.is_1zst() && fb.is_1zst()) { return self.unsize(fa.ty, fb.ty); }
                }
                Err(format!("unsize {from} -> {to}"))
            }
            (ty::Pat(a, _), ty::Pat(b, _)) => self.unsize(*a, *b),
            _ => Err(format!("unsize {from} -> {to}")),
        }
    }
    fn term(&mut self, t: &mir::Terminator<'tcx>) -> R<Tm> {
        let tcx = self.tr.tcx;
        Ok(match &t.kind {
            TerminatorKind::Goto { target, .. } => Tm::Goto(target.as_u32()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (o, l, _) = self.op(discr)?;
                Tm::Switch(o, l.size as u8, targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), targets.otherwise().as_u32())
            }
            TerminatorKind::Return => Tm::Ret,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&self.body.local_decls, tcx).ty;
                let p = self.place(*place)?;
                if let ty::Dynamic(..) = ty.kind() { return Ok(Tm::DropDyn(p, target.as_u32())); }
                let i = Instance::resolve_drop_glue(tcx, ty);
                if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = i.def { return Ok(Tm::Goto(target.as_u32())); }
                if !ty.needs_drop(tcx, self.tr.env) { return Ok(Tm::Goto(target.as_u32())); }
                Tm::DropFn(p, self.tr.inst(i), target.as_u32())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&self.body.local_decls, tcx);
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let i = Instance::expect_resolve(tcx, self.tr.env, *d, a.no_bound_vars().ok_or("binder")?, t.source_info.span);
                        match i.def {
                            InstanceKind::Virtual(_, idx) => Callee::Virtual(idx as u32),
                            InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => { return Ok(Tm::Goto(target.unwrap().as_u32())) }
                            _ => Callee::Fn(self.tr.inst(i)),
                        }
                    }
                    ty::FnPtr(..) => Callee::Ptr(self.op(func)?.0),
                    _ => return Err(format!("call of {fty}")),
                };
                let rc = self.is_rust_call(func);
                let mut av = vec![];
                let n = args.len();
                for (i, a) in args.iter().enumerate() {
                    if rc && i + 1 == n {
                        let ty = a.node.ty(&self.body.local_decls, tcx);
                        match &a.node {
                            Operand::Copy(p) | Operand::Move(p) => {
                                for (k, t) in ty.tuple_fields().iter().enumerate() {
                                    let q = p.project_deeper(&[ProjectionElem::Field(FieldIdx::from_usize(k), t)], tcx);
                                    let q = self.place(q)?;
                                    let lay = q.lay;
                                    av.push(ArgIR { op: if lay.k == LK::Z { Opd::Z } else { Opd::Pl(q) }, lay });
                                }
                            }
                            _ => {
                                let (o, _, _) = self.op(&a.node)?;
                                let l = self.tr.layout(ty)?;
                                for (k, t) in ty.tuple_fields().iter().enumerate() {
                                    let fl = self.tr.lay(t)?;
                                    let off = l.fields.offset(k).bytes();
                                    let op = match (&o, fl.k) {
                                        (_, LK::Z) => Opd::Z,
                                        (Opd::C(v), LK::S(_)) => Opd::C(*v),
                                        (Opd::CP(x, y), LK::P(..)) => Opd::CP(*x, *y),
                                        (Opd::CP(x, y), LK::S(_)) => Opd::C(if off == 0 { *x } else { *y }),
                                        (Opd::CM(g, o, _), _) => {
                                            let cv = ConstValueAt { g: *g, o: *o + off };
                                            self.const_at(cv, fl)
                                        }
                                        _ => return Err("untuple constant".into()),
                                    };
                                    av.push(ArgIR { op, lay: fl });
                                }
                            }
                        }
                        continue;
                    }
                    let ty = a.node.ty(&self.body.local_decls, tcx);
                    let lay = self.tr.lay(ty)?;
                    if let LK::Un(_) = lay.k {
                        // unsized by-value argument: pass its place
                        if let Operand::Copy(p) | Operand::Move(p) = &a.node { av.push(ArgIR { op: Opd::Pl(self.place(*p)?), lay }); continue; }
                    }
                    let (o, lay, _) = self.op(&a.node)?;
                    av.push(ArgIR { op: o, lay });
                }
                let dest = self.place(*destination)?;
                Tm::Call { callee, args: av, dest, next: target.map(|t| t.as_u32()) }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (o, _, _) = self.op(cond)?;
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("attempt to {op:?} with overflow"),
                    mir::AssertKind::OverflowNeg(_) => "attempt to negate with overflow".into(),
                    mir::AssertKind::DivisionByZero(_) => "attempt to divide by zero".into(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                    k => format!("assert {}", std::any::type_name_of_val(k)),
                };
                Tm::Assert { cond: o, expected: *expected, msg: m, target: target.as_u32() }
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Tm::Unsupported("unwind".into()),
            TerminatorKind::TailCall { .. } => Tm::Unsupported("tail call".into()),
            TerminatorKind::InlineAsm { .. } => Tm::Unsupported("inline asm".into()),
            _ => Tm::Unsupported("terminator".into()),
        })
    }
    fn const_at(&mut self, c: ConstValueAt, l: Lay) -> Opd {
        let mut cx = Ctx::new();
        let al = &self.tr.globs[(c.g & !GLOBAL) as usize].alloc;
        let noaddr = |_: u32, _: u64| -> u64 { panic!("partial pointer in constant") };
        match l.k {
            LK::S(s) => Opd::C(al.read(&mut cx, c.o, s as u64, &noaddr)),
            LK::P(s0, o1, s1) => { let a = al.read(&mut cx, c.o, s0 as u64, &noaddr); let b = al.read(&mut cx, c.o + o1 as u64, s1 as u64, &noaddr); Opd::CP(a, b) }
            _ => Opd::CM(c.g, c.o, l.size),
        }
    }
}
struct ConstValueAt { g: u32, o: u64 }

pub fn tag_of<'tcx>(tr: &mut Tr<'tcx>, ty: Ty<'tcx>, v: VariantIdx) -> R<Option<TagW>> {
    let l = tr.layout(ty)?;
    let dl = &tr.tcx.data_layout;
    Ok(match &l.variants {
        Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
            let d = ty.discriminant_for_variant(tr.tcx, v).ok_or("discr")?;
            let sz = tag.size(dl);
            Some(TagW { off: l.fields.offset(tag_field.as_usize()).bytes(), size: sz.bytes() as u8, val: sz.truncate(d.val) })
        }
        Variants::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } => {
            if *untagged_variant == v { None } else {
                let rel = v.as_u32() - niche_variants.start.as_u32();
                let sz = tag.size(dl);
                let val = sz.truncate(niche_start.wrapping_add(rel as u128));
                Some(TagW { off: l.fields.offset(tag_field.as_usize()).bytes(), size: sz.bytes() as u8, val })
            }
        }
        _ => None,
    })
}
pub fn disc_of<'tcx>(tr: &mut Tr<'tcx>, ty: Ty<'tcx>) -> R<Disc> {
    let l = tr.layout(ty)?;
    let tcx = tr.tcx;
    let dl = &tcx.data_layout;
    let dty = ty.discriminant_ty(tcx);
    let out = tr.layout(dty)?.size.bytes() as u8;
    let dval = |v: VariantIdx| -> u128 {
        let d = ty.discriminant_for_variant(tcx, v).map(|d| d.val).unwrap_or(v.as_u32() as u128);
        Size::from_bytes(out as u64).truncate(d)
    };
    Ok(match &l.variants {
        Variants::Empty => Disc::Const(0),
        Variants::Single { index } => Disc::Const(if ty.is_enum() { dval(*index) } else { 0 }),
        Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
            let off = l.fields.offset(tag_field.as_usize()).bytes();
            let size = tag.size(dl).bytes() as u8;
            match tag_encoding {
                TagEncoding::Direct => {
                    let signed = dty.is_signed();
                    Disc::Direct { off, size, signed, out }
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let mut vals = vec![];
                    for i in niche_variants.start.as_u32()..=niche_variants.last.as_u32() { vals.push(dval(VariantIdx::from_u32(i))); }
                    Disc::Niche { off, size, start: *niche_start, vals, untagged: dval(*untagged_variant), out }
                }
            }
        }
    })
}
