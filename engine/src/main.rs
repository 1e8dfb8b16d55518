//! mirsym: solver-based symbolic execution of the monomorphic MIR of a real crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod expr;
mod interp;
mod intr;
mod ir;
mod mem;
mod tr;

use interp::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn env(k: &str) -> Option<String> { std::env::var(k).ok() }
fn envn(k: &str, d: u64) -> u64 { env(k).and_then(|s| s.parse().ok()).unwrap_or(d) }

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let entries = env("MSYM_ENTRY").expect("MSYM_ENTRY");
        let out = env("MSYM_OUT").expect("MSYM_OUT");
        let mut by: BTreeMap<String, rustc_hir::def_id::DefId> = BTreeMap::new();
        for d in tcx.hir_body_owners() {
            if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) { continue; }
            let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d.to_def_id()));
            if let Some(i) = p.find("vharness::") { by.insert(p[i + 10..].to_string(), d.to_def_id()); }
        }
        if entries == "?" { for k in by.keys() { println!("{k}"); } return Compilation::Stop; }
        let mut tr = Some(tr::Tr::new(tcx));
        let mut results = vec![];
        for e in entries.split(',') {
            let Some(d) = by.get(e) else { eprintln!("mirsym: no entry {e}"); std::process::exit(3) };
            let f = tr.as_mut().unwrap().inst(Instance::mono(tcx, *d));
            let (r, t) = explore(tr.take().unwrap(), e, f);
            tr = Some(t);
            results.push(r);
        }
        std::fs::write(&out, format!("[{}]\n", results.join(",\n"))).expect("write result");
        Compilation::Stop
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn jl<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(|x| f(x)).collect::<Vec<_>>().join(",")) }

fn dump(e: &Eng, complete: bool) -> String {
    let s = &e.stats;
    let mut o = String::from("{");
    let _ = write!(o, "\"complete\":{complete},\"paths\":{},\"paths_panic_allowed\":{},\"paths_infeasible\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"max_depth\":{},\"max_vars\":{},\"max_path_steps\":{}",
        s.paths_done, s.paths_panic_allowed, s.paths_infeasible, s.forks, s.steps, s.checks, s.max_depth, s.max_vars, s.max_path_steps);
    let q = &e.sol;
    let _ = write!(o, ",\"queries\":{},\"cache_hits\":{},\"z3_calls\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_ns\":{},\"z3_crossed\":{}", q.queries, q.cache_hits, q.z3_calls, q.z3_sat, q.z3_unsat, q.z3_unknown, q.time_ns, q.crossed);
    let _ = write!(o, ",\"viols\":{}", jl(&e.viols, |v| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"values\":{}}}", js(&v.kind), js(&v.msg), js(&v.loc), jl(&v.values, |x| x.to_string()))));
    let _ = write!(o, ",\"errors\":{}", jl(&e.errors, |x| js(x)));
    let _ = write!(o, ",\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"check_labels\":{{{}}}", e.check_labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":{}", jl(&e.samples, |(v, h, c)| format!("{{\"values\":{},\"hash\":\"{h}\",\"covers\":{}}}", jl(v, |x| x.to_string()), jl(c, |x| js(x)))));
    let mut fns = vec![];
    for (i, b) in e.blocks.iter().enumerate() {
        if b.is_empty() { continue; }
        let hit: Vec<usize> = b.iter().enumerate().filter(|(_, x)| **x).map(|(k, _)| k).collect();
        let (file, total, st) = e.fn_info(i as u32);
        fns.push(format!("{{\"name\":{},\"file\":{},\"blocks\":{total},\"stmts\":{st},\"hit\":{}}}", js(&e.tr.fn_name(i as u32)), js(&file), jl(&hit, |x| x.to_string())));
    }
    let _ = write!(o, ",\"functions\":[{}]}}", fns.join(","));
    o
}

fn explore<'tcx>(tr: tr::Tr<'tcx>, name: &str, f: u32) -> (String, tr::Tr<'tcx>) {
    let t0 = std::time::Instant::now();
    let limit = envn("MSYM_TIME", 600) as f64;
    let jobs = envn("MSYM_JOBS", 8) as usize;
    let seeds_wanted = envn("MSYM_SEEDS", 48) as usize;
    let maxv = envn("MSYM_MAXVIOL", 5) as usize;
    let debug = env("MSYM_DEBUG").is_some();
    let mut e = Eng::new(tr);
    e.max_path_steps = envn("MSYM_PATH_STEPS", 400_000_000);
    let se = envn("MSYM_SAMPLE_EVERY", 1);
    match e.initial(f) { Ok(s) => e.work.push(s), Err(m) => e.errors.push(m) }
    // phase 1: breadth first in this process
    while !e.work.is_empty() && e.work.len() < seeds_wanted && e.viols.len() < maxv && e.errors.is_empty() && t0.elapsed().as_secs_f64() < limit {
        let mut k = 0;
        for i in 0..e.work.len() { if e.work[i].forks < e.work[k].forks { k = i; } }
        let s = e.work.swap_remove(k);
        let every = if e.stats.paths_done < 32 { 1 } else { 97 };
        e.run(s, every.max(se));
    }
    let mut parts: Vec<String> = vec![];
    let stop_now = e.viols.len() >= maxv || !e.errors.is_empty();
    if stop_now { e.work.clear(); }
    if debug { eprintln!("[{name}] phase 1: {} paths, {} pending, {:.1}s, errors {:?}", e.stats.paths_done, e.work.len(), t0.elapsed().as_secs_f64(), e.errors.first()); }
    let pending = e.work.len();
    if pending > 0 && t0.elapsed().as_secs_f64() < limit {
        e.work.sort_by_key(|s| s.forks);
        let seeds = std::mem::take(&mut e.work);
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
        let next = unsafe { &*shared };
        let nviol = unsafe { &*shared.add(1) };
        let done = unsafe { &*shared.add(2) };
        let active = unsafe { &*shared.add(3) };
        let ids = unsafe { &*shared.add(4) };
        let dir = std::env::temp_dir().join(format!("mirsym.{}.{}", std::process::id(), t0.elapsed().as_nanos()));
        let _ = std::fs::create_dir_all(&dir);
        unsafe { prctl(36, 1, 0, 0, 0); } // adopt the workers of workers
        active.store(jobs as u64, Ordering::SeqCst);
        ids.store(jobs as u64, Ordering::SeqCst);
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                e.reset_counters();
                let mut id = j as u64;
                let mut complete = true;
                let mut last = std::time::Instant::now();
                'o: loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i < seeds.len() { e.work.push(seeds[i].clone()); } else if e.work.is_empty() { break; }
                    while let Some(s) = e.work.pop() {
                        if t0.elapsed().as_secs_f64() > limit || nviol.load(Ordering::Relaxed) as usize >= maxv { complete = false; break 'o; }
                        let b = e.viols.len() + e.errors.len();
                        e.run(s, if e.samples.len() < 8 { 1.max(se) } else { (e.stats.paths_done / 8 + 1).max(se) });
                        if e.viols.len() + e.errors.len() > b { nviol.fetch_add(1, Ordering::Relaxed); }
                        if e.samples.len() > 200 { e.samples.truncate(150); }
                        e.trim();
                        // hand half of the pending states to a new worker when another one has run out of work
                        if e.work.len() >= 2 && next.load(Ordering::Relaxed) as usize >= seeds.len() && last.elapsed().as_millis() > 20 {
                            let a = active.load(Ordering::SeqCst);
                            if a < jobs as u64 && active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                                let keep = |k: usize| k % 2 == 0;
                                let nid = ids.fetch_add(1, Ordering::SeqCst);
                                let pid = unsafe { fork() };
                                let child = pid == 0;
                                if pid < 0 { active.fetch_sub(1, Ordering::SeqCst); }
                                else {
                                    let w = std::mem::take(&mut e.work);
                                    e.work = w.into_iter().enumerate().filter(|(k, _)| keep(*k) != child).map(|(_, s)| s).collect();
                                    if child { id = nid; e.reset_counters(); }
                                }
                                last = std::time::Instant::now();
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                }
                let r = dump(&e, complete);
                let _ = std::fs::write(dir.join(format!("{id}.json")), r);
                active.fetch_sub(1, Ordering::SeqCst);
                unsafe { _exit(0) }
            }
        }
        let mut bad = false;
        loop {
            let mut st = 0;
            let r = unsafe { waitpid(-1, &mut st, 0) };
            if r < 0 { break; }
            if st != 0 { bad = true; }
        }
        let jobs = ids.load(Ordering::SeqCst) as usize;
        for j in 0..jobs {
            match std::fs::read_to_string(dir.join(format!("{j}.json"))) { Ok(s) => parts.push(s), Err(_) => bad = true }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if bad { e.errors.push("a worker process died".into()); }
    } else if pending > 0 { e.errors.push("time limit in phase 1".into()); }
    let ok = !stop_now;
    parts.insert(0, dump(&e, ok));
    let r = format!("{{\"entry\":{},\"wall_s\":{:.3},\"z3\":{},\"seeds\":{pending},\"jobs\":{jobs},\"parts\":[{}]}}", js(name), t0.elapsed().as_secs_f64(), js(&expr::z3_version()), parts.join(","));
    (r, e.tr)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = std::panic::catch_unwind(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if r.is_ok() { 0 } else { 3 });
}
