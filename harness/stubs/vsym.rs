//! Harness API.  Under the symbolic executor the functions marked (*) are interpreted by the engine;
//! compiled natively they read a vector of concrete values (a model found by the solver), so that the
//! same harness replays a counterexample against the natively compiled code.
use std::cell::RefCell;

pub struct Tape { pub vals: Vec<u64>, pub pos: usize, pub covers: Vec<String>, pub hash: u64, pub allow: bool, pub viol: Option<String>, pub short: bool, pub verbose: bool }
thread_local! { pub static TAPE: RefCell<Tape> = const { RefCell::new(Tape { vals: Vec::new(), pos: 0, covers: Vec::new(), hash: 0xcbf29ce484222325, allow: false, viol: None, short: false, verbose: false }) }; }

pub struct Infeasible;
pub struct Violation;

/// (*) a fresh symbolic value in lo..=hi
#[inline(never)]
pub fn sym(lo: u64, hi: u64) -> u64 {
    if lo > hi { std::panic::panic_any(Infeasible); }
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let v = if t.pos < t.vals.len() { t.vals[t.pos] } else { t.short = true; lo };
        t.pos += 1;
        assert!(v >= lo && v <= hi, "replay vector out of range: {v} not in {lo}..={hi}");
        v
    })
}
/// (*) forks until the value is concrete
#[inline(never)]
pub fn concretize(x: u64) -> u64 { x }
/// (*)
#[inline(never)]
pub fn assume(c: bool) { if !c { std::panic::panic_any(Infeasible); } }
/// (*) the assertion decided by the solver
#[inline(never)]
pub fn check(c: bool, label: &'static str) {
    if !c {
        TAPE.with(|t| t.borrow_mut().viol = Some(label.to_string()));
        std::panic::panic_any(Violation);
    }
}
/// (*) reachability marker (vacuity check)
#[inline(never)]
pub fn cover(label: &'static str) {
    TAPE.with(|t| { let mut t = t.borrow_mut(); if !t.covers.iter().any(|c| c == label) { t.covers.push(label.to_string()); } });
}
/// (*) value compared between the symbolic path and the native replay
#[inline(never)]
pub fn note(x: u64) { TAPE.with(|t| { let mut t = t.borrow_mut(); t.hash = (t.hash ^ x).wrapping_mul(0x100000001b3); }); }
/// (*) from here on a panic is an acceptable outcome
#[inline(never)]
pub fn allow_panic(on: u64) { TAPE.with(|t| t.borrow_mut().allow = on != 0); }
/// (*) true if the value is known to be false on this path without asking the solver: only ever used to skip work
#[inline(never)]
pub fn known_false(b: bool) -> bool { !b }
/// (*) abandon the path
#[inline(never)]
pub fn reject() -> ! { std::panic::panic_any(Infeasible) }

pub fn pick(n: u64) -> u64 { if n <= 1 { return 0; } concretize(sym(0, n - 1)) }
pub fn flag() -> bool { sym(0, 1) == 1 }
/// Prints (natively, during a replay) what the harness built.
pub fn show<T: std::fmt::Debug>(what: &'static str, x: &T) { if verbose() { eprintln!("    {what}: {x:?}"); } }
/// (*) constant false under the engine
#[inline(never)]
pub fn verbose() -> bool { TAPE.with(|t| t.borrow().verbose) }

fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' => "'".to_string(), '\\' => "/".to_string(), c if (c as u32) < 32 => " ".to_string(), c => c.to_string() }).collect() }

/// stdin: one line per run: `<entry> v1,v2,...`; stdout: one JSON line per run.
pub fn native_main(all: &[(&str, fn())]) {
    use std::io::BufRead;
    let verbose = std::env::var("VSYM_VERBOSE").is_ok();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(name) = it.next() else { continue };
        let vals: Vec<u64> = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let Some((_, f)) = all.iter().find(|(n, _)| n.replace(' ', "") == name) else { println!("{{\"outcome\":\"no-such-entry\"}}"); continue };
        let f = *f;
        let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            TAPE.with(|t| { let mut t = t.borrow_mut(); t.vals = vals; t.verbose = verbose; });
            let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
            let m2 = msg.clone();
            std::panic::set_hook(Box::new(move |i| {
                let p = i.payload();
                let s = if p.is::<Infeasible>() || p.is::<Violation>() { String::new() } else {
                    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
                };
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                *m2.lock().unwrap() = format!("{s} @ {l}");
            }));
            let r = std::panic::catch_unwind(|| f());
            TAPE.with(|t| {
                let t = t.borrow();
                let (o, m) = match r {
                    Ok(()) => ("ok", String::new()),
                    Err(p) => if p.is::<Infeasible>() { ("infeasible", String::new()) }
                        else if p.is::<Violation>() { ("violation", t.viol.clone().unwrap_or_default()) }
                        else if t.allow { ("allowed-panic", msg.lock().unwrap().clone()) }
                        else { ("panic", msg.lock().unwrap().clone()) },
                };
                let mut c = t.covers.clone();
                c.sort();
                format!("{{\"outcome\":\"{o}\",\"msg\":\"{}\",\"hash\":\"{}\",\"used\":{},\"short\":{},\"covers\":[{}]}}", esc(&m), t.hash, t.pos, t.short, c.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","))
            })
        }).unwrap();
        let s = th.join().unwrap_or_else(|_| "{\"outcome\":\"thread-died\"}".into());
        println!("{s}");
    }
}
