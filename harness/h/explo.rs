//! Exploration of a model and generation of its multi-traces, set up by a configuration text.
use super::den::*;
use super::gen::*;
use super::DEEP;
use std::any::Any;
use std::collections::BTreeSet;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::execution::trace::multitrace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
use crate::io::input::htf::interface::parse_htf_file;
use crate::process::explo::conf::*;
use crate::process::explo::context::*;
use crate::process::explo::filter::{elim::*, filter::*};
use crate::process::explo::node::ExplorationNodeKind;
use crate::process::explo::priorities::ExplorationPriorities;
use crate::process::explo::step::ExplorationStepKind;
use crate::process::explo::verdict::{global::ExplorationGlobalVerdict, local::ExplorationLocalVerdict};
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use crate::vfs;
use vsym::*;

/// the logger without its own emptying of a real folder and without drawing
struct Quiet(Box<dyn AbstractProcessLogger<ExplorationConfig>>, Vec<u32>);
type Filter = Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>;
impl AbstractProcessLogger<ExplorationConfig> for Quiet {
    fn as_any(&self) -> &dyn Any { self.0.as_any() }
    fn log_initialize(&mut self) {}
    fn log_parameterization(&mut self, s: &QueueSearchStrategy, p: &GenericProcessPriorities<ExplorationPriorities>, f: &[Filter], g: &Option<ExplorationGlobalVerdict>, m: bool, x: &ExplorationParameterization) { self.0.log_parameterization(s, p, f, g, m, x) }
    fn log_filtered(&mut self, c: &ExplorationContext, p: u32, n: u32, e: &ExplorationFilterEliminationKind) { self.0.log_filtered(c, p, n, e) }
    fn log_new_node(&mut self, c: &ExplorationContext, p: &ExplorationParameterization, i: u32, n: &ExplorationNodeKind) { self.0.log_new_node(c, p, i, n) }
    fn log_new_step(&mut self, c: &ExplorationContext, p: &ExplorationParameterization, o: u32, t: u32, s: &ExplorationStepKind, n: &ExplorationNodeKind, d: u32) {
        // known finding: a step onto a node of which every child has been seen is looked up where it was removed
        if self.1.contains(&t) { cover("KF:tracegen-memo"); return; }
        self.0.log_new_step(c, p, o, t, s, n, d)
    }
    fn log_verdict_on_no_child(&mut self, c: &ExplorationContext, p: &ExplorationParameterization, i: u32, v: &ExplorationLocalVerdict) { self.0.log_verdict_on_no_child(c, p, i, v) }
    fn log_verdict_on_static_analysis(&mut self, c: &ExplorationContext, p: &ExplorationParameterization, i: u32, v: &ExplorationLocalVerdict, x: &ExplorationStaticLocalVerdictAnalysisProof) { self.0.log_verdict_on_static_analysis(c, p, i, v, x) }
    fn log_terminate(&mut self, _v: &ExplorationGlobalVerdict) {}
    fn log_notify_terminal_node_reached(&mut self, c: &ExplorationContext, i: u32) { self.0.log_notify_terminal_node_reached(c, i) }
    fn log_notify_last_child_of_node_processed(&mut self, c: &ExplorationContext, i: u32) { self.1.push(i); self.0.log_notify_last_child_of_node_processed(c, i) }
}
fn names() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in ["m", "n", "o"] { g.add_msg(n.to_string()); }
    g
}
struct Out { files: Vec<(String, CoLocalizations, MultiTrace)>, nodes: u32, dead: bool }
/// explores as `hibou explore` does and reads the files that were written
fn explore(i: &Interaction, options: &str) -> Out {
    let g = names();
    vfs::put(format!("@explore_option{{{options}}}"));
    if verbose() { eprintln!("    options: {options}"); }
    let o = match parse_hcf_file_for_explore(&g, "x.hcf") { Ok(o) => o, Err(e) => { if verbose() { eprintln!("    error: {e}"); } check(false, "the configuration is read"); panic!() } };
    vfs::clear(); vfs::folders_exist();
    let mut l: Vec<Box<dyn AbstractProcessLogger<ExplorationConfig>>> = vec![];
    for x in o.loggers { l.push(Box::new(Quiet(x, vec![]))); }
    let del: GenericProcessDelegate<ExplorationStepKind, ExplorationNodeKind, ExplorationPriorities> = GenericProcessDelegate::new(o.strategy, o.priorities);
    let mut m: GenericProcessManager<ExplorationConfig> = GenericProcessManager::new(ExplorationContext::new(g.clone()), ExplorationParameterization {}, del, o.filters, l, None, o.use_memoization);
    let (nodes, v) = m.start_process(ExplorationNodeKind::new(i.clone(), 0));
    Out { files: files(&g), nodes, dead: v == ExplorationGlobalVerdict::HasDeadLocks }
}
/// the multi-traces in the files that were written
fn files(g: &GeneralContext) -> Vec<(String, CoLocalizations, MultiTrace)> {
    let mut files = vec![];
    for (p, c) in vfs::written() {
        vfs::put(c);
        match parse_htf_file(g, &p) { Ok((c, t)) => files.push((p, c, t)), Err(e) => { if verbose() { eprintln!("    {p}: {e}"); } check(false, "a generated multi-trace can be read"); } }
    }
    show("generated", &files);
    files
}
/// the command, with every option it takes
pub fn command(m: &clap::ArgMatches) {
    let w = pick(6);
    let i = Gen::new(if w < 4 { cfg(EM | RC | MSG, STRICT | ALT | PAR | LOOPS) } else { cfg(EM, STRICT | PAR | LOOPS) }).int(1);
    show("interaction", &i);
    let d = 2;
    let gen = "loggers=[tracegen[generation=accepted,parent=d,prefix=t]]";
    let o = match w {
        0 => format!("memoize=false;filters=[max_depth=2];{gen}"),
        1 => format!("memoize=false;strategy=DFS;filters=[max_depth=2];{gen}"),
        2 => format!("memoize=false;strategy=HCS;filters=[max_depth=2];{gen}"),
        3 => format!("memoize=false;priorities=[loop=-1,emission=1];filters=[max_depth=2];{gen}"),
        4 => format!("memoize=false;filters=[max_depth=2,max_node_number=2];{gen}"),
        _ => "memoize=true;filters=[max_depth=2]".to_string(),
    };
    let r = explore(&i, &o);
    let g = names();
    vfs::clear(); vfs::folders_exist();
    vfs::put(format!("@explore_option{{{o}}}"));
    crate::vio::supply(g.clone(), Some(i.clone()), None);
    let (out, code) = crate::ui::commands::cli_explore::cli_explore(m);
    let got = files(&g);
    show("printed", &out);
    check(code == 0, "runs");
    let mut told = false;
    for l in &out { if *l == format!("node count : {}", r.nodes) { told = true; } }
    check(told, "the number of nodes of the exploration is told");
    check(got.len() == r.files.len(), "as many multi-traces are generated as the exploration gives");
    if w == 4 { cover("limited"); }
    if w == 5 { cover("memoized"); }
    if w > 3 { return; }
    let mut n = 1;
    while n <= d {
        let x = Word::any(n, 2);
        let mut found = false;
        for (_, _, t) in &got { found = found | same(&codes(&t[0]), &x); }
        check(found == den(&i, &x)[x.full()], "exactly the multi-traces of the model within the depth are generated");
        n += 1;
    }
    let mut k = 0;
    while k < got.len() { check(got[k].0 == r.files[k].0, "files are named the same"); k += 1; }
    if !got.is_empty() { cover("something is generated"); }
}
fn code_of(b: &BTreeSet<crate::core::execution::trace::trace::TraceAction>) -> u16 {
    let mut bits = 0; let mut ms = 0;
    for a in b { bits |= bit(a.lf_id, &a.act_kind); ms = a.ms_id; }
    letter(ms, bits)
}
fn codes(t: &Trace) -> Vec<u16> { t.iter().map(code_of).collect() }
fn word(c: &[u16]) -> Word { let mut w = [0; 4]; let mut k = 0; while k < c.len() { w[k] = c[k]; k += 1; } Word::from_codes(c.len(), w) }
fn accepts(i: &Interaction, c: &[u16]) -> bool { let w = word(c); den(i, &w)[w.full()] }
fn same(a: &[u16], w: &Word) -> bool { if a.len() != w.n { return false; } let mut r = true; let mut k = 0; while k < w.n { r = r & (a[k] == w.code[k]); k += 1; } r }
/// the word can be executed step by step
fn runs(i: &Interaction, w: &Word, at: usize) -> bool {
    if at == w.n { return true; }
    let mut r = false;
    for f in global_frontier(i, true) {
        let e = code_of(&f.target_actions) == w.code[at];
        if !known_false(e) { r = r | (e & runs(&execute_interaction(i, &f.position, &f.target_lf_ids, false).interaction, w, at + 1)); }
    }
    r
}
fn cfg(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: 2, msgs: 2, leaves, ops, msgs_distinct: false } }
const STRAT: [&str; 3] = ["BFS", "DFS", "HCS"];
/// which options beside the ones under test: they change nothing
fn others() -> String {
    match pick(3) {
        0 => format!("strategy={};memoize=false", if DEEP { STRAT[pick(3) as usize] } else { "HCS" }),
        1 => "memoize=false;priorities=[emission=1,loop=-1]".to_string(),
        _ => "memoize=false;priorities=[reception=2,multi_rdv=1]".to_string(),
    }
}
/// every accepted word of the depth, and nothing else, in one canal
fn accepted(i: Interaction, d: usize, opts: &str) {
    show("interaction", &i);
    let r = explore(&i, &format!("{opts};filters=[max_depth={d}];loggers=[tracegen[generation=accepted]]"));
    if !r.files.is_empty() { cover("something is generated"); }
    for (_, c, t) in &r.files {
        check(c.num_colocs() == 1 && t.len() == 1, "one canal");
        check(t[0].len() <= d && accepts(&i, &codes(&t[0])), "every generated multi-trace is one of the model");
    }
    let mut n = 1;
    while n <= d {
        let w = Word::any(n, 2);
        let mut got = false;
        for (_, _, t) in &r.files { got = got | same(&codes(&t[0]), &w); }
        check(got == den(&i, &w)[w.full()], "exactly the multi-traces of the model within the depth are generated");
        n += 1;
    }
}
pub fn acc1() { let k = pick(2); let i = if pick(4) == 0 { Gen::new(cfg(EM | RC | MSG | EMPTY, SYNC)).int(1) } else if k == 0 || DEEP { Gen::new(cfg(EM | RC | MSG | SYN | RSYN | EMPTY, BIN | LOOPALL)).int(k) } else { Gen::new(cfg(EM | MSG, BIN | LOOPALL)).int(k) }; let o = if k == 0 || DEEP { others() } else { "memoize=false;strategy=HCS".to_string() }; accepted(i, 2, &o) }
pub fn acc2() { let mut c = cfg(EM | MSG, STRICT | SEQ | PAR | ALT | LOOPS | LOOPW); c.msgs = 1; if !DEEP { c.leaves = EM; } let i = Gen::new(c).int(2); accepted(i, if DEEP { 3 } else { 2 }, ["memoize=false", "memoize=false;strategy=DFS"][pick(2) as usize]) }
/// nodes at an exact depth, or at every multiple of a depth
pub fn depths() {
    let n = pick(if DEEP { 3 } else { 2 });
    let mut c = cfg(EM | MSG, STRICT | SEQ | PAR | ALT | LOOPS | SYNC); if n > 0 { c.msgs = 1; }
    let i = if n == 0 { Gen::new(cfg(EM | RC | MSG | BC | SYN | EMPTY, STRICT)).int(0) } else { Gen::new(c).int(n) };
    show("interaction", &i);
    let k = sym(1, 3) as usize;
    let k = if k == 1 { 1 } else if k == 2 { 2 } else { 3 };
    let modulo = flag();
    let d = if modulo { 3 } else { k };
    let r = explore(&i, &format!("memoize=false;filters=[max_depth={d}];loggers=[tracegen[generation={} depth {k}]]", if modulo { "modulo" } else { "exact" }));
    if !r.files.is_empty() { cover("something is generated"); }
    for (_, _, t) in &r.files {
        let l = t[0].len();
        check(if modulo { l % k == 0 } else { l == k }, "generated at the depths asked for only");
        check(l <= d && runs(&i, &word(&codes(&t[0])), 0), "what is generated can be executed");
    }
    let mut n = 1;
    while n <= d {
        if if modulo { n % k == 0 } else { n == k } {
            let w = Word::any(n, 2);
            let mut got = false;
            for (_, _, t) in &r.files { got = got | same(&codes(&t[0]), &w); }
            check(got == runs(&i, &w, 0), "everything that can be executed up to the depth is generated");
        }
        n += 1;
    }
}
/// the part of a letter that a canal sees
fn seen(code: u16, lfs: u16) -> u16 { code & ((63 << 6) | lfs | (lfs << 1)) }
fn canals(c: &CoLocalizations) -> Vec<u16> { c.locs_lf_ids.iter().map(|b| { let mut m = 0; for l in b { m |= lfbit(*l); } m }).collect() }
/// the multi-trace is what the canals see of the word (nothing here is symbolic but the word)
fn projected(t: &MultiTrace, lfs: &Vec<u16>, w: &Word) -> bool {
    let mut all = true;
    let mut c = 0;
    while c < t.len() {
        // ways[p][j]: the first p letters of w leave the first j letters of the canal
        let u = codes(&t[c]);
        let mut row = vec![false; u.len() + 1];
        row[0] = true;
        let mut p = 0;
        while p < w.n {
            let mut next = vec![false; u.len() + 1];
            let touched = (w.lfs[p] & lfs[c]) != 0;
            let mut j = 0;
            while j <= u.len() {
                next[j] = row[j] & !touched;
                if j > 0 { next[j] = next[j] | (row[j - 1] & touched & (u[j - 1] == seen(w.code[p], lfs[c]))); }
                j += 1;
            }
            row = next;
            p += 1;
        }
        all = all & row[u.len()];
        c += 1;
    }
    all
}
/// canals as asked for: what they see of the accepted words
pub fn partitions() {
    let n = pick(if DEEP { 3 } else { 2 });
    let i = if n == 0 { Gen::new(cfg(EM | MSG | SYN | BC, STRICT)).int(0) } else { let mut c = cfg(EM | SYN | MSG, STRICT | SEQ | PAR | ALT); if n == 2 { c.leaves = EM; } c.msgs = if DEEP { 2 } else { 1 }; Gen::new(c).int(n) };
    show("interaction", &i);
    let (txt, want): (&str, Vec<u16>) = match pick(5) { 0 => ("discrete", vec![1, 4, 16]), 1 => ("trivial", vec![21]), 2 => ("{(b,a),(c)}", vec![5, 16]), 3 => ("{(c,b)}", vec![20, 1]), _ => ("{(b)}", vec![4, 1, 16]) };
    let r = explore(&i, &format!("memoize=false;filters=[max_depth=3];loggers=[tracegen[partition={txt}]]"));
    if !r.files.is_empty() { cover("something is generated"); }
    for (_, c, t) in &r.files {
        let ls = canals(c);
        let mut ok = ls.len() == want.len();
        for x in &want { ok = ok && ls.contains(x); }
        check(ok && t.len() == ls.len(), "the canals are the ones asked for");
    }
    let mut k = 1;
    while k <= 3 {
        let w = Word::any(k, if DEEP { 2 } else { 1 });
        let mut got = false;
        for (_, c, t) in &r.files { got = got | projected(t, &canals(c), &w); }
        check(!den(&i, &w)[w.full()] | got, "what the canals see of a word of the model is generated");
        k += 1;
    }
    for (_, c, t) in &r.files {
        // some word of the model is seen like this: a word of the exploration's depth
        let ls = canals(c);
        let mut total = 0; for u in t { total += u.len(); }
        check(total <= 6 && seen_from(&i, &ls, t, vec![0; t.len()], 0), "what is generated is what the canals see of a word of the model");
    }
}
fn seen_from(i: &Interaction, lfs: &Vec<u16>, t: &MultiTrace, pos: Vec<usize>, depth: usize) -> bool {
    let mut end = true;
    let mut c = 0;
    while c < t.len() { if pos[c] < t[c].len() { end = false; } c += 1; }
    if end { let w = word(&[]); if den(i, &w)[0] { return true; } }
    if depth == 3 { return false; }
    let mut r = false;
    for f in global_frontier(i, true) {
        let x = code_of(&f.target_actions);
        let mut p = pos.clone();
        let mut ok = true;
        let mut c = 0;
        while c < t.len() {
            if lfs_of(x) & lfs[c] != 0 {
                if p[c] < t[c].len() && code_of(&t[c][p[c]]) == seen(x, lfs[c]) { p[c] += 1; } else { ok = false; }
            }
            c += 1;
        }
        if ok && seen_from(&execute_interaction(i, &f.position, &f.target_lf_ids, false).interaction, lfs, t, p, depth + 1) { r = true; }
    }
    r
}
/// memoization, duplicate avoidance and limits may leave multi-traces out, they never make any up
pub fn sound() {
    let mut c = cfg(EM | MSG | SYN, STRICT | SEQ | PAR | ALT | LOOPALL); c.msgs = 1;
    let n = 1 + pick(if DEEP { 2 } else { 1 });
    let i = Gen::new(c).int(n);
    show("interaction", &i);
    let (s, x) = match pick(4) { 0 => ("memoize=true;filters=[max_depth=3]", 0), 1 => ("memoize=false;filters=[max_depth=3]", 1), 2 => ("memoize=true;filters=[max_depth=2,max_loop_depth=1]", 1), _ => ("memoize=false;filters=[max_depth=3,max_node_number=4]", 0) };
    let r = explore(&i, &format!("strategy={};{s};loggers=[tracegen[no_duplicates={}]]", STRAT[pick(2) as usize], if x == 1 { "true" } else { "false" }));
    if !r.files.is_empty() { cover("something is generated"); }
    let mut k = 0;
    while k < r.files.len() {
        let u = codes(&r.files[k].2[0]);
        check(u.len() <= 3 && accepts(&i, &u), "every generated multi-trace is one of the model");
        if x == 1 { let mut j = 0; while j < k { check(r.files[j].2 != r.files[k].2, "no multi-trace is generated twice"); j += 1; } }
        k += 1;
    }
}
fn loops_in(i: &Interaction) -> bool {
    use Interaction::*;
    match i { Loop(_, _) => true, Strict(x, y) | Seq(x, y) | CoReg(_, x, y) | Par(x, y) | Sync(_, x, y) => loops_in(x) || loops_in(y), _ => false }
}
/// a loop in a loop
fn nested(i: &Interaction) -> bool {
    use Interaction::*;
    match i { Loop(_, x) => loops_in(x), Strict(x, y) | Seq(x, y) | CoReg(_, x, y) | Par(x, y) => nested(x) || nested(y), _ => false }
}
/// the model with its loops replaced by k iterations in all, in every way these can be shared out
fn with_iterations(i: &Interaction, k: u64) -> Vec<Interaction> {
    use Interaction::*;
    let (x, y) = match i {
        Loop(l, x) => {
            if k > 0 && nested(i) { return vec![]; }
            let mut r = Empty;
            let mut j = 0;
            while j < k {
                let (a, b) = (x.clone(), Box::new(r));
                r = if j == 0 { (**x).clone() } else { match l { LoopKind::SStrictSeq => Strict(a, b), LoopKind::WWeakSeq => Seq(a, b), LoopKind::PInterleaving => Par(a, b), LoopKind::HHeadFirstWS => panic!() } };
                j += 1;
            }
            return vec![r];
        }
        Sync(_, x, y) if k == 0 => (x, y),
        Strict(x, y) | Seq(x, y) | CoReg(_, x, y) | Par(x, y) => (x, y),
        _ => return if k == 0 { vec![i.clone()] } else { vec![] },
    };
    let mut r = vec![];
    let mut j = 0;
    while j <= k {
        for a in with_iterations(x, j) { for b in with_iterations(y, k - j) {
            let (a, b) = (Box::new(a.clone()), Box::new(b));
            r.push(match i { Strict(_, _) => Strict(a, b), Seq(_, _) => Seq(a, b), CoReg(c, _, _) => CoReg(c.clone(), a, b), Sync(c, _, _) => Sync(c.clone(), a, b), _ => Par(a, b) });
        } }
        j += 1;
    }
    r
}
/// with loops limited to k iterations the multi-traces are those of the model with at most k iterations; files go where they should
pub fn few_loops() {
    let k = pick(if DEEP { 3 } else { 2 });
    let mut c = cfg(EM, STRICT | SEQ | PAR | if k < 2 { LOOPALL } else { LOOPS | LOOPW | LOOPP } | COREG | if k == 0 { SYNC } else { 0 }); c.msgs = 1;
    let i = Gen::new(c).int(if k == 0 { 2 } else { 1 + pick(2) });
    assume(k == 0 || !nested(&i));
    show("interaction", &i);
    let (opt, dir) = match pick(3) { 0 => ("", "tracegen_l2/trace"), 1 => ("[parent=f]", "f/trace"), _ => ("[prefix=p_,parent_folder=f]", "f/p_") };
    let r = explore(&i, &format!("memoize=false;filters=[max_depth=3,max_loop_depth={k}];loggers=[nfait,tracegen{opt}]"));
    if !r.files.is_empty() { cover("something is generated"); }
    let mut n = 0;
    for (p, _, _) in &r.files { n += 1; check(*p == format!("{dir}{n}.htf"), "files are named and placed as asked for"); }
    let mut js = vec![];
    let mut j = 0;
    while j <= k { js.append(&mut with_iterations(&i, j)); j += 1; }
    let mut n = 1;
    while n <= 3 {
        let w = Word::any(n, 1);
        let mut got = false;
        for (_, _, t) in &r.files { got = got | same(&codes(&t[0]), &w); }
        let mut want = false;
        for j in &js { want = want | den(j, &w)[w.full()]; }
        check(got == want, "exactly the multi-traces of the model with at most so many iterations are generated");
        n += 1;
    }
}
/// the number of nodes is limited; a model without synchronised products never gets stuck
pub fn nodes() {
    let mut c = cfg(if DEEP { EM | SYN | MSG | RC2 } else { EM | MSG }, STRICT | SEQ | PAR | ALT | COREG | LOOPALL); c.msgs = 1;
    let i = if pick(3) == 0 { Gen::new(c).int(0) } else { Gen::new(c).int(1) };
    show("interaction", &i);
    let n = 1 + if DEEP { pick(4) } else { 2 * pick(2) };
    let r = explore(&i, &format!("strategy={};memoize={};filters=[max_node_number={n},max_depth=3];loggers=[tracegen]", STRAT[pick(if DEEP { 3 } else { 2 }) as usize], flag()));
    if !r.files.is_empty() { cover("something is generated"); }
    check(r.nodes as u64 <= n, "no more nodes than asked for");
    check(r.files.len() as u64 <= 16, "no more multi-traces than ways through the nodes");
    check(!r.dead, "a model without synchronised products is not stuck");
}
/// a synchronised product is reported stuck exactly when it is
pub fn stuck() {
    let mut c = cfg(EM, STRICT | SYNC | ALT | SEQ); if DEEP { c.leaves |= MSG | RC; }
    let mut g = Gen::new(c);
    let small = flag();
    let (a, b) = (if small { g.leaf() } else { g.int(1) }, g.leaf());
    let mut acts = vec![crate::core::execution::trace::trace::TraceAction::new(g.lf(), crate::core::execution::trace::trace::TraceActionKind::Emission, g.ms())];
    if (small || DEEP) && flag() { let x = crate::core::execution::trace::trace::TraceAction::new(g.lf(), crate::core::execution::trace::trace::TraceActionKind::Reception, g.ms()); acts.push(x); }
    let i = Interaction::Sync(acts, Box::new(a), Box::new(b));
    show("interaction", &i);
    let r = explore(&i, ["memoize=false;strategy=BFS", "memoize=true;strategy=DFS"][pick(2) as usize]);
    let s = can_stick(&i);
    if s { cover("stuck") } else { cover("not stuck") }
    check(r.dead == s, "stuck is reported exactly when some execution gets stuck");
}
fn can_stick(i: &Interaction) -> bool {
    let f = global_frontier(i, true);
    let e = word(&[]);
    if f.is_empty() { return !den(i, &e)[0]; }
    let mut r = false;
    for x in f { r = r | can_stick(&execute_interaction(i, &x.position, &x.target_lf_ids, false).interaction); }
    r
}
