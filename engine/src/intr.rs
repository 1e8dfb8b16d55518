//! Functions that are executed by the engine itself: compiler intrinsics, the allocator, the
//! harness API (`vsym::*`), panic entry points and the environment stubs.
use crate::ir::*;
use crate::tr::{disc_of, Tr, R};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};

#[derive(Clone, Debug)]
pub enum Bi {
    Forward(u32),
    Virtual(u32),
    // harness API
    Sym, KnownFalse, Assume, Check, Cover, Note, Reject, AllowPanic, Concretize,
    Panic(String),
    Exit(String),
    // environment
    Alloc(bool), Dealloc, Realloc, Unit, ConstI(u128), ConstPair(u128, u128), RetArg0, RetArg2,
    // intrinsics
    I(In),
}
#[derive(Clone, Debug)]
pub enum In {
    Const(u128),
    ConstStr(u32, u64),
    SizeOfVal(Lay), AlignOfVal(Lay),
    CopyNon(u64), Copy(u64), WriteBytes(u64),
    PtrOffsetFrom { size: u64 },
    ArithOffset(u64),
    Bin(BOp, NT), Sat(bool, NT), ExactDiv(NT),
    Rot(bool, u8), Ctpop(u8), Ctlz(u8), Cttz(u8), Bswap(u8), BitRev(u8),
    Discr(Disc),
    RawEq(u64), CmpBytes,
    Read(Lay), Write(Lay),
    Swap(u64),
    ConstEvalSelect(u32),
    VtSize, VtAlign,
    Assume, Abort, Unreachable,
    CallerLoc,
    PtrMask,
    PtrCmp,
    AtLoad(u8), AtStore(u8), AtXchg(u8), AtCxchg(u8), AtBin(BOp, u8),
    Select(Lay),
    CatchUnwind,
    Black,
    FUn(&'static str, u8), FBin(&'static str, u8), Powi(u8), Fma(u8), F2I { from: u8, to: u8, signed: bool },
    TypeId(u128),
    CarryMulAdd(NT),
    // simd (elementwise on memory vectors): (elem size, lanes)
    SimdEq(u64, u64), SimdLt(u64, u64, bool), SimdBitmask(u64, u64), SimdBin(BOp, u64, u64), SimdSplat(u64, u64),
    Volatile,
}

fn nt<'tcx>(tr: &mut Tr<'tcx>, t: Ty<'tcx>) -> R<NT> {
    Ok(match t.kind() {
        ty::Int(_) => NT::Int(tr.lay(t)?.size as u8, true),
        ty::Float(_) => NT::Float(tr.lay(t)?.size as u8),
        _ => NT::Int(tr.lay(t)?.size as u8, false),
    })
}

pub fn builtin<'tcx>(tr: &mut Tr<'tcx>, inst: Instance<'tcx>) -> R<Option<Bi>> {
    let tcx = tr.tcx;
    let did = inst.def_id();
    if let InstanceKind::Intrinsic(_) = inst.def {
        let name = tcx.item_name(did);
        return Ok(intrinsic(tr, inst, name.as_str())?.map(Bi::I));
    }
    if !matches!(inst.def, InstanceKind::Item(_)) { return Ok(None); }
    let path = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
    if let Some(p) = path.find("vsym::") {
        if p == 0 || path[..p].ends_with("::") {
            let b = match &path[p..] {
                "vsym::sym" => Bi::Sym,
                "vsym::assume" => Bi::Assume,
                "vsym::verbose" => Bi::ConstI(0),
                "vsym::check" => Bi::Check,
                "vsym::cover" => Bi::Cover,
                "vsym::note" => Bi::Note,
                "vsym::reject" => Bi::Reject,
                "vsym::allow_panic" => Bi::AllowPanic,
                "vsym::concretize" => Bi::Concretize,
                "vsym::known_false" => Bi::KnownFalse,
                _ => return Ok(None),
            };
            return Ok(Some(b));
        }
    }
    if tcx.is_foreign_item(did) {
        let n = tcx.item_name(did);
        let n = n.as_str();
        return Ok(match n {
            "__rust_alloc" => Some(Bi::Alloc(false)),
            "__rust_alloc_zeroed" => Some(Bi::Alloc(true)),
            "__rust_dealloc" => Some(Bi::Dealloc),
            "__rust_realloc" => Some(Bi::Realloc),
            "__rust_no_alloc_shim_is_unstable_v2" => Some(Bi::Unit),
            // what is written to the terminal is not looked at; there is no terminal and the environment is empty
            "write" => Some(Bi::RetArg2),
            "getenv" => Some(Bi::ConstI(0)),
            "isatty" => Some(Bi::ConstI(0)),
            "panic_impl" | "rust_begin_unwind" => Some(Bi::Panic("panic_impl".into())),
            _ => None,
        });
    }
    let krate = tcx.crate_name(did.krate);
    match krate.as_str() {
        "core" | "std" | "alloc" => {}
        _ => return Ok(None),
    }
    // panic entry points
    if path.starts_with("core::panicking::") || path.starts_with("std::rt::panic") || path.starts_with("std::rt::begin_panic")
        || path.starts_with("std::panicking::") || path.starts_with("core::option::unwrap_failed") || path.starts_with("core::option::expect_failed")
        || path.starts_with("core::result::unwrap_failed") || path.starts_with("core::cell::panic_")
        || path.starts_with("alloc::alloc::handle_alloc_error") || path.starts_with("alloc::raw_vec::handle_error")
        || path.starts_with("alloc::raw_vec::capacity_overflow") || path.starts_with("core::slice::index::slice_")
        || path.starts_with("core::str::slice_error_fail")
    {
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        if sig.output().skip_binder().is_never() {
            return Ok(Some(Bi::Panic(path)));
        }
        if path == "std::panicking::panicking" || path == "std::panicking::panic_count::count_is_zero" || path.ends_with("is_zero_slow_path") {
            return Ok(Some(Bi::ConstI(if path.ends_with("panicking") { 0 } else { 1 })));
        }
    }
    match path.as_str() {
        "std::thread::panicking" => return Ok(Some(Bi::ConstI(0))),
        "std::process::exit" | "std::process::abort" | "core::intrinsics::abort" => return Ok(Some(Bi::Exit(path))),
        "std::io::_print" | "std::io::_eprint" | "std::io::stdio::_print" | "std::io::stdio::_eprint" => return Ok(Some(Bi::Unit)),
        "std::hash::RandomState::new" | "std::hash::random::RandomState::new" => return Ok(Some(Bi::ConstPair(1, 2))),
        // folders of loggers: nothing happens, successfully
        "std::fs::create_dir_all" | "std::fs::remove_dir_all" => return Ok(Some(Bi::ConstI(0))),
        // whoever asks creates what is missing
        "std::path::Path::exists" | "std::path::Path::is_dir" | "std::path::Path::is_file" => return Ok(Some(Bi::ConstI(0))),
        // the clock stands still
        "std::sys::pal::unix::time::Timespec::now" => return Ok(Some(Bi::ConstPair(1000, 0))),
        "core::hash::BuildHasher::hash_one" | "std::hash::BuildHasher::hash_one" => {
            let st = inst.args.type_at(0);
            if st.to_string().contains("RandomState") { return Ok(Some(Bi::ConstI(0))); }
        }
        _ => {}
    }
    if path.starts_with("<std::hash::DefaultHasher as") || path.starts_with("<std::hash::random::DefaultHasher as") {
        if path.ends_with("::finish") { return Ok(Some(Bi::ConstI(0))); }
        if path.contains("Hasher>::write") { return Ok(Some(Bi::Unit)); }
    }
    Ok(None)
}

fn intrinsic<'tcx>(tr: &mut Tr<'tcx>, inst: Instance<'tcx>, name: &str) -> R<Option<In>> {
    let tcx = tr.tcx;
    let ta = |i: usize| -> Ty<'tcx> { inst.args.type_at(i) };
    let sig = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip();
    let sig = tcx.normalize_erasing_late_bound_regions(tr.env, sig);
    let b = |o: BOp, n: NT| Some(In::Bin(o, n));
    Ok(match name {
        "size_of" => Some(In::Const(tr.lay(ta(0))?.size as u128)),
        "align_of" | "min_align_of" | "pref_align_of" => Some(In::Const(tr.lay(ta(0))?.align as u128)),
        "needs_drop" => Some(In::Const(ta(0).needs_drop(tcx, tr.env) as u128)),
        "variant_count" => Some(In::Const(ta(0).ty_adt_def().map(|a| a.variants().len()).unwrap_or(0) as u128)),
        "type_id" => { let t = tcx.erase_and_anonymize_regions(ta(0)); Some(In::TypeId(tcx.type_id_hash(t).as_u128())) }
        "size_of_val" => { let l = tr.lay(ta(0))?; Some(In::SizeOfVal(l)) }
        "align_of_val" | "min_align_of_val" => { let l = tr.lay(ta(0))?; Some(In::AlignOfVal(l)) }
        "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => Some(In::CopyNon(tr.lay(ta(0))?.size)),
        "copy" | "volatile_copy_memory" => Some(In::Copy(tr.lay(ta(0))?.size)),
        "write_bytes" | "volatile_set_memory" => Some(In::WriteBytes(tr.lay(ta(0))?.size)),
        "ptr_offset_from" | "ptr_offset_from_unsigned" => Some(In::PtrOffsetFrom { size: tr.lay(ta(0))?.size }),
        "arith_offset" => Some(In::ArithOffset(tr.lay(ta(0))?.size)),
        "offset" => { let p = ta(0).builtin_deref(true).ok_or("offset")?; let s = tr.lay(p)?.size; b(BOp::Offset(s), NT::Int(8, false)) }
        "wrapping_add" | "unchecked_add" | "disjoint_bitor" if name != "disjoint_bitor" => { let n = nt(tr, ta(0))?; b(BOp::Add, n) }
        "wrapping_sub" | "unchecked_sub" => { let n = nt(tr, ta(0))?; b(BOp::Sub, n) }
        "wrapping_mul" | "unchecked_mul" => { let n = nt(tr, ta(0))?; b(BOp::Mul, n) }
        "unchecked_div" => { let n = nt(tr, ta(0))?; b(BOp::Div, n) }
        "unchecked_rem" => { let n = nt(tr, ta(0))?; b(BOp::Rem, n) }
        "unchecked_shl" => { let n = nt(tr, ta(0))?; b(BOp::Shl, n) }
        "unchecked_shr" => { let n = nt(tr, ta(0))?; b(BOp::Shr, n) }
        "disjoint_bitor" => { let n = nt(tr, ta(0))?; b(BOp::Or, n) }
        "add_with_overflow" => { let n = nt(tr, ta(0))?; b(BOp::AddO, n) }
        "sub_with_overflow" => { let n = nt(tr, ta(0))?; b(BOp::SubO, n) }
        "mul_with_overflow" => { let n = nt(tr, ta(0))?; b(BOp::MulO, n) }
        "three_way_compare" => { let n = nt(tr, ta(0))?; b(BOp::Cmp, n) }
        "saturating_add" => { let n = nt(tr, ta(0))?; Some(In::Sat(true, n)) }
        "saturating_sub" => { let n = nt(tr, ta(0))?; Some(In::Sat(false, n)) }
        "exact_div" => { let n = nt(tr, ta(0))?; Some(In::ExactDiv(n)) }
        "rotate_left" => Some(In::Rot(true, tr.lay(ta(0))?.size as u8)),
        "rotate_right" => Some(In::Rot(false, tr.lay(ta(0))?.size as u8)),
        "ctpop" => Some(In::Ctpop(tr.lay(ta(0))?.size as u8)),
        "ctlz" | "ctlz_nonzero" => Some(In::Ctlz(tr.lay(ta(0))?.size as u8)),
        "cttz" | "cttz_nonzero" => Some(In::Cttz(tr.lay(ta(0))?.size as u8)),
        "bswap" => Some(In::Bswap(tr.lay(ta(0))?.size as u8)),
        "bitreverse" => Some(In::BitRev(tr.lay(ta(0))?.size as u8)),
        "discriminant_value" => Some(In::Discr(disc_of(tr, ta(0))?)),
        "raw_eq" => Some(In::RawEq(tr.lay(ta(0))?.size)),
        "compare_bytes" => Some(In::CmpBytes),
        "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => { let l = tr.lay(ta(0))?; Some(In::Read(l)) }
        "volatile_store" | "unaligned_volatile_store" | "write_via_move" | "nontemporal_store" => { let l = tr.lay(ta(0))?; Some(In::Write(l)) }
        "typed_swap_nonoverlapping" => Some(In::Swap(tr.lay(ta(0))?.size)),
        "const_eval_select" => {
            let t = ta(2);
            match t.kind() {
                ty::FnDef(d, a) => { let i = Instance::expect_resolve(tcx, tr.env, *d, a.no_bound_vars().ok_or("binder")?, rustc_span::DUMMY_SP); let f = tr.inst(i); Some(In::ConstEvalSelect(f)) }
                _ => return Err("const_eval_select".into()),
            }
        }
        "vtable_size" => Some(In::VtSize),
        "vtable_align" => Some(In::VtAlign),
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget"
        | "prefetch_read_data" | "prefetch_write_data" | "cold_path" | "miri_promise_symbolic_alignment" => Some(In::Assume),
        "atomic_fence" | "atomic_singlethreadfence" => Some(In::Assume),
        "abort" | "abort_immediate" | "breakpoint" => Some(In::Abort),
        "unreachable" => Some(In::Unreachable),
        "caller_location" => Some(In::CallerLoc),
        "ptr_mask" => Some(In::PtrMask),
        "ptr_guaranteed_cmp" => Some(In::PtrCmp),
        "is_val_statically_known" | "ub_checks" | "contract_checks" => Some(In::Const(0)),
        "overflow_checks" => Some(In::Const(tr.overflow_checks as u128)),
        "likely" | "unlikely" | "black_box" => { Some(In::Black) }
        "select_unpredictable" => { let l = tr.lay(ta(0))?; Some(In::Select(l)) }
        "catch_unwind" => Some(In::CatchUnwind),
        "type_name" => {
            let s = rustc_middle::ty::print::with_no_trimmed_paths!(ta(0).to_string());
            let id = tcx.allocate_bytes_dedup(s.as_bytes(), 0);
            let g = tr.glob(id)?;
            Some(In::ConstStr(g, s.len() as u64))
        }
        "float_to_int_unchecked" => { let (a, b2) = (nt(tr, ta(0))?, nt(tr, ta(1))?); let (NT::Float(f), NT::Int(t, s)) = (a, b2) else { return Err("f2i".into()) }; Some(In::F2I { from: f, to: t, signed: s }) }
        "fabs" | "floor" | "ceil" | "trunc" | "round" | "round_ties_even" | "sqrt" | "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" => {
            let s = tr.lay(sig.inputs()[0])?.size as u8;
            let n: &'static str = Box::leak(name.to_string().into_boxed_str());
            Some(In::FUn(n, s))
        }
        "sqrtf64" | "floorf64" | "ceilf64" | "truncf64" | "roundf64" | "expf64" | "logf64" | "log2f64" | "fabsf64" | "sqrtf32" | "floorf32" | "ceilf32" => {
            let s = tr.lay(sig.inputs()[0])?.size as u8;
            let n: &'static str = Box::leak(name[..name.len() - 3].to_string().into_boxed_str());
            Some(In::FUn(n, s))
        }
        "powf" | "powf64" | "powf32" => Some(In::FBin("pow", tr.lay(sig.inputs()[0])?.size as u8)),
        "powi" | "powif64" | "powif32" => Some(In::Powi(tr.lay(sig.inputs()[0])?.size as u8)),
        "fma" | "fmuladd" | "fmaf64" | "fmaf32" => Some(In::Fma(tr.lay(sig.inputs()[0])?.size as u8)),
        n if n.starts_with("minimum") || n.starts_with("minnum") => Some(In::FBin("min", tr.lay(sig.inputs()[0])?.size as u8)),
        n if n.starts_with("maximum") || n.starts_with("maxnum") => Some(In::FBin("max", tr.lay(sig.inputs()[0])?.size as u8)),
        n if n.starts_with("copysign") => Some(In::FBin("copysign", tr.lay(sig.inputs()[0])?.size as u8)),
        "fadd_fast" | "fadd_algebraic" => { let n = nt(tr, ta(0))?; b(BOp::Add, n) }
        "fsub_fast" | "fsub_algebraic" => { let n = nt(tr, ta(0))?; b(BOp::Sub, n) }
        "fmul_fast" | "fmul_algebraic" => { let n = nt(tr, ta(0))?; b(BOp::Mul, n) }
        "fdiv_fast" | "fdiv_algebraic" => { let n = nt(tr, ta(0))?; b(BOp::Div, n) }
        n if n.starts_with("atomic_") => {
            let l = tr.lay(ta(0))?;
            let LK::S(s) = l.k else { return Err(format!("{n} on {:?}", l)) };
            match n {
                "atomic_load" => Some(In::AtLoad(s)),
                "atomic_store" => Some(In::AtStore(s)),
                "atomic_xchg" => Some(In::AtXchg(s)),
                "atomic_cxchg" | "atomic_cxchgweak" => Some(In::AtCxchg(s)),
                "atomic_xadd" => Some(In::AtBin(BOp::Add, s)),
                "atomic_xsub" => Some(In::AtBin(BOp::Sub, s)),
                "atomic_and" => Some(In::AtBin(BOp::And, s)),
                "atomic_or" => Some(In::AtBin(BOp::Or, s)),
                "atomic_xor" => Some(In::AtBin(BOp::Xor, s)),
                _ => None,
            }
        }
        "carrying_mul_add" => { let n = nt(tr, ta(0))?; Some(In::CarryMulAdd(n)) }
        n if n.starts_with("simd_") => {
            let vt = sig.inputs().get(0).copied().unwrap_or(sig.output());
            let get = |tr: &mut Tr<'tcx>, t: Ty<'tcx>| -> R<(u64, u64, bool)> {
                let (lanes, e) = t.simd_size_and_type(tcx);
                Ok((tr.lay(e)?.size, lanes, e.is_signed()))
            };
            match n {
                "simd_eq" => { let (e, l, _) = get(tr, vt)?; Some(In::SimdEq(e, l)) }
                "simd_lt" => { let (e, l, s) = get(tr, vt)?; Some(In::SimdLt(e, l, s)) }
                "simd_bitmask" => { let (e, l, _) = get(tr, vt)?; Some(In::SimdBitmask(e, l)) }
                "simd_and" => { let (e, l, _) = get(tr, vt)?; Some(In::SimdBin(BOp::And, e, l)) }
                "simd_or" => { let (e, l, _) = get(tr, vt)?; Some(In::SimdBin(BOp::Or, e, l)) }
                "simd_xor" => { let (e, l, _) = get(tr, vt)?; Some(In::SimdBin(BOp::Xor, e, l)) }
                "simd_splat" => { let (e, l, _) = get(tr, sig.output())?; Some(In::SimdSplat(e, l)) }
                _ => None,
            }
        }
        _ => None,
    })
}
