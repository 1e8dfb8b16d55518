//! The analysis of multi-traces, run as the command line runs it, against what its verdicts mean.
use super::den::*;
use super::gen::*;
use super::DEEP;
use std::collections::BTreeSet;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::process::ana::conf::AnalysisConfig;
use crate::process::ana::context::AnalysisContext;
use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
use crate::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
use crate::process::ana::node::flags::*;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::verdict::AbstractGlobalVerdict;
use crate::process::ana::verdict::local::AnalysisLocalVerdict;
use crate::process::ana::verdict::inconc::InconcReason;
use crate::process::ana::node::node::AnalysisNodeKind;
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::*;
use crate::process::ana::priorities::AnalysisPriorities;
use crate::process::ana::step::AnalysisStepKind;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use vsym::*;

pub struct Opt { pub kind: AnalysisKind, pub strat: u64, pub locana: Option<LocalAnalysisParameterization>, pub por: bool, pub goal: Option<V>, pub memo: bool, pub filters: Vec<AnalysisFilter>, pub prio: AnalysisPriorities }
pub fn plain(kind: AnalysisKind) -> Opt { Opt { kind, strat: 0, locana: None, por: false, goal: None, memo: false, filters: vec![], prio: AnalysisPriorities::default() } }

pub fn context(lfs: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    let names = ["a", "b", "c"];
    let mut k = 0;
    while k < lfs { g.add_lf(names[k].to_string()); k += 1; }
    for n in ["m", "n", "o", "p"] { g.add_msg(n.to_string()); }
    g
}
pub struct Setup { pub lfs: usize, pub colocs: CoLocalizations, pub mt: MultiTrace }
pub fn run(i: &Interaction, s: &Setup, o: Opt) -> V { run_nodes(i, s, o).1 }
pub fn run_nodes(i: &Interaction, s: &Setup, o: Opt) -> (u32, V) {
    let len = multi_trace_length(&s.mt);
    let ctx = AnalysisContext::new(context(s.lfs), s.colocs.clone(), s.mt.clone(), len);
    let n = ctx.co_localizations.num_colocs();
    let flags = match o.kind.get_sim_config() {
        None => MultiTraceAnalysisFlags::new_init(n, 0, 0),
        Some(c) => MultiTraceAnalysisFlags::new_init(n, c.get_reset_rem_loop(len, i), c.get_reset_rem_act(len, i)),
    };
    let strat = match o.strat { 0 => QueueSearchStrategy::BFS, 1 => QueueSearchStrategy::DFS, _ => QueueSearchStrategy::HCS };
    let prio: GenericProcessPriorities<AnalysisPriorities> = GenericProcessPriorities::new(o.prio, false);
    let del: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> = GenericProcessDelegate::new(strat, prio);
    let param = AnalysisParameterization::new(o.kind, o.locana, o.por);
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ctx, param, del, { let mut f: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>> = vec![]; for x in o.filters { f.push(Box::new(x)); } f }, vec![], o.goal, o.memo);
    m.start_process(AnalysisNodeKind::new(i.clone(), flags, 0))
}
pub fn rank(v: &V) -> u64 { match v { V::Fail => 0, V::WeakFail => 1, V::Inconc(_) => 2, V::WeakPass => 3, V::Pass => 4 } }

/// one action on the given lifeline
fn action(lf: usize, msgs: u64, rc: bool) -> BTreeSet<TraceAction> {
    let k = if !rc || flag() { TraceActionKind::Emission } else { TraceActionKind::Reception };
    let mut b = BTreeSet::new();
    b.insert(TraceAction::new(lf, k, if msgs == 1 { 0 } else { sym(0, msgs - 1) as usize }));
    b
}
/// shape 0: one canal holds everything, 1: one canal per lifeline, 2: two lifelines together and the third apart; `total` actions in all
pub fn setup(total: u64, msgs: u64, shape: u64, rc: bool) -> Setup {
    match shape {
        0 => {
            let mut t = vec![];
            let mut k = 0;
            while k < total { let l = sym(0, 1) as usize; t.push(action(l, msgs, rc)); k += 1; }
            Setup { lfs: 2, colocs: CoLocalizations::get_trivial_partition(2), mt: vec![t] }
        }
        1 => {
            let first = pick(total + 1);
            let (mut t, mut u) = (vec![], vec![]);
            let mut k = 0;
            while k < total { if k < first { t.push(action(0, msgs, rc)) } else { u.push(action(1, msgs, rc)) } k += 1; }
            Setup { lfs: 2, colocs: CoLocalizations::get_discrete_partition(2), mt: vec![t, u] }
        }
        3 => {
            let first = pick(total + 1);
            let (mut t, mut u) = (vec![], vec![]);
            let mut k = 0;
            while k < total { if k < first { t.push(action(1, msgs, rc)) } else { u.push(action(2, msgs, rc)) } k += 1; }
            Setup { lfs: 3, colocs: CoLocalizations::get_discrete_partition(3), mt: vec![vec![], t, u] }
        }
        _ => {
            // two lifelines together, the third apart
            let first = pick(total + 1);
            let (mut t, mut u) = (vec![], vec![]);
            let mut k = 0;
            while k < total { if k < first { let l = sym(0, 1) as usize; t.push(action(l, msgs, rc)) } else { u.push(action(2, msgs, rc)) } k += 1; }
            Setup { lfs: 3, colocs: CoLocalizations::new(vec![BTreeSet::from([0, 1]), BTreeSet::from([2])]), mt: vec![t, u] }
        }
    }
}
/// every interleaving of the canals
fn interleavings(mt: &MultiTrace) -> Vec<Vec<u16>> {
    let mut res = vec![];
    let mut todo = vec![(vec![0usize; mt.len()], vec![])];
    while let Some((pos, w)) = todo.pop() {
        let mut end = true;
        for (c, t) in mt.iter().enumerate() {
            if pos[c] < t.len() {
                end = false;
                let mut p = pos.clone();
                p[c] += 1;
                let mut v = w.clone();
                v.push(code_of(&t[pos[c]]));
                todo.push((p, v));
            }
        }
        if end { res.push(w); }
    }
    res
}
pub fn accepted(i: &Interaction, mt: &MultiTrace) -> bool {
    let mut r = false;
    for w in interleavings(mt) {
        let mut c = [0u16; 4];
        let n = w.len();
        let mut p = 0;
        while p < n { c[p] = w[p]; p += 1; }
        let word = Word::from_codes(n, c);
        r = r | den(i, &word)[word.full()];
    }
    r
}
/// the multi-trace is one of the model, letters may span canals
pub fn accepts_all(i: &Interaction, s: &Setup, pos: &Vec<usize>) -> bool {
    let mut left = false;
    for (c, t) in s.mt.iter().enumerate() { if pos[c] < t.len() { left = true; } }
    if !left { let w = Word::from_codes(0, [0; 4]); return den(i, &w)[0]; }
    let mut f = false;
    for fe in global_frontier(i, false) {
        let code = code_of(&fe.target_actions);
        let r = execute_interaction(i, &fe.position, &fe.target_lf_ids, false).interaction;
        let mut ways: Vec<(bool, Vec<usize>)> = vec![(true, pos.clone())];
        for (c, t) in s.mt.iter().enumerate() {
            let mine = part(code, s, c);
            let here = has_lf(mine);
            let mut next = vec![];
            for (g, p) in ways {
                let none = g & !here;
                if !known_false(none) { next.push((none, p.clone())); }
                if pos[c] < t.len() {
                    let m = g & here & (code_of(&t[pos[c]]) == mine);
                    if !known_false(m) { let mut q = p; q[c] += 1; next.push((m, q)); }
                }
            }
            ways = next;
        }
        for (g, p) in ways { if p != *pos { f = f | (g & accepts_all(&r, s, &p)); } }
    }
    f
}
pub struct Found { pub prefix: bool, pub stuck_lacking: bool }
/// what consuming the canals step by step, in every order, can reach
pub fn walk(i: &Interaction, mt: &MultiTrace, pos: &Vec<usize>) -> Found {
    let mut left = false;
    let mut lacking = false;
    for (c, t) in mt.iter().enumerate() { if pos[c] < t.len() { left = true; } else { lacking = true; } }
    if !left { return Found { prefix: true, stuck_lacking: false }; }
    let mut f = Found { prefix: false, stuck_lacking: false };
    let mut moved = false;
    for fe in global_frontier(i, false) {
        let code = code_of(&fe.target_actions);
        let r = execute_interaction(i, &fe.position, &fe.target_lf_ids, false).interaction;
        for (c, t) in mt.iter().enumerate() {
            if pos[c] < t.len() {
                let m = code_of(&t[pos[c]]) == code;
                if !known_false(m) {
                    moved = moved | m;
                    let mut p = pos.clone();
                    p[c] += 1;
                    let g = walk(&r, mt, &p);
                    f.prefix = f.prefix | (m & g.prefix);
                    f.stuck_lacking = f.stuck_lacking | (m & g.stuck_lacking);
                }
            }
        }
    }
    f.stuck_lacking = f.stuck_lacking | (!moved & lacking);
    f
}
/// the part of a letter that lies on the lifelines of a canal
fn part(code: u16, s: &Setup, c: usize) -> u16 {
    let mut m = 0u16;
    for l in &s.colocs.locs_lf_ids[c] { let b = lfbit(*l); m = m | b | (b << 1); }
    code & (m | !63)
}
fn has_lf(code: u16) -> bool { code & 63 != 0 }
/// whether some behaviour of the model has, on every canal, the trace of that canal as a beginning (or, with
/// `before`, as a slice). `extra` more letters may be supplied where nothing is observed.
pub fn extends(i: &Interaction, s: &Setup, pos: &Vec<usize>, extra: u64, before: bool) -> bool {
    let mut left = false;
    for (c, t) in s.mt.iter().enumerate() { if pos[c] < t.len() { left = true; } }
    if !left { return true; }
    let mut f = false;
    for fe in global_frontier(i, false) {
        let code = code_of(&fe.target_actions);
        let r = execute_interaction(i, &fe.position, &fe.target_lf_ids, false).interaction;
        // every way to attribute the letter: on each canal it touches it is observed next or not observed
        let mut ways: Vec<(bool, Vec<usize>, bool)> = vec![(true, pos.clone(), false)];
        for (c, t) in s.mt.iter().enumerate() {
            let mine = part(code, s, c);
            let here = has_lf(mine);
            let mut next = vec![];
            for (g, p, x) in ways {
                let none = g & !here;
                if !known_false(none) { next.push((none, p.clone(), x)); }
                if pos[c] < t.len() {
                    let m = g & here & (code_of(&t[pos[c]]) == mine);
                    if !known_false(m) { let mut q = p.clone(); q[c] += 1; next.push((m, q, x)); }
                }
                if pos[c] == t.len() || (before && pos[c] == 0) {
                    let m = g & here;
                    if !known_false(m) { next.push((m, p, true)); }
                }
            }
            ways = next;
        }
        for (g, p, x) in ways {
            if !x && p == *pos { continue; } // every letter is on some canal
            if !x { f = f | (g & extends(&r, s, &p, extra, before)); }
            else if extra > 0 { f = f | (g & extends(&r, s, &p, extra - 1, before)); }
        }
    }
    f
}
/// the same question asked the way elimination does: forget the lifelines of the canals that are read to their ends
fn forgets(i: &Interaction, s: &Setup, pos: &Vec<usize>) -> bool {
    let mut left = false;
    let mut gone = vec![];
    for (c, t) in s.mt.iter().enumerate() { if pos[c] < t.len() { left = true; } else { for l in &s.colocs.locs_lf_ids[c] { gone.push(*l); } } }
    if !left { return true; }
    let j = erase(i, &gone);
    let mut f = false;
    for fe in global_frontier(&j, false) {
        let code = code_of(&fe.target_actions);
        let r = execute_interaction(&j, &fe.position, &fe.target_lf_ids, false).interaction;
        for (c, t) in s.mt.iter().enumerate() {
            if pos[c] < t.len() {
                let m = code_of(&t[pos[c]]) == code;
                if !known_false(m) { let mut p = pos.clone(); p[c] += 1; f = f | (m & forgets(&r, s, &p)); }
            }
        }
    }
    f
}
fn has_coreg(i: &Interaction) -> bool { match i { Interaction::CoReg(_, _, _) => true, Interaction::Alt(a, b) | Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => has_coreg(a) || has_coreg(b), Interaction::Loop(_, a) => has_coreg(a), _ => false } }
pub fn zero(s: &Setup) -> Vec<usize> { vec![0; s.mt.len()] }
pub fn told(s: &Setup, i: &Interaction) { show("interaction", i); show("co-localizations", &s.colocs); show("multi-trace", &s.mt); }
pub fn no_loop(i: &Interaction) -> bool { match i { Interaction::Loop(_, _) => false, Interaction::Alt(a, b) | Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => no_loop(a) && no_loop(b), _ => true } }

fn accept_of(i: Interaction, s: Setup) {
    told(&s, &i);
    let v = run(&i, &s, plain(AnalysisKind::Accept));
    show("verdict", &v);
    note(rank(&v));
    let a = accepted(&i, &s.mt);
    check((v == V::Pass) == a, "Accept passes exactly the multi-traces of the model");
    check(v == V::Pass || v == V::Fail, "Accept passes or fails");
    if v == V::Pass { cover("Pass"); } else { cover("Fail"); }
}
fn prefix_of(i: Interaction, s: Setup) {
    told(&s, &i);
    let v = run(&i, &s, plain(AnalysisKind::Prefix));
    show("verdict", &v);
    note(rank(&v));
    let a = accepted(&i, &s.mt);
    check((v == V::Pass) == a, "Prefix passes exactly the multi-traces of the model");
    let f = walk(&i, &s.mt, &zero(&s));
    check((v == V::Pass || v == V::WeakPass) == f.prefix, "Prefix passes or weakly passes exactly the prefixes of multi-traces of the model");
    if v == V::Fail { check(!f.stuck_lacking, "Prefix does not fail a multi-trace when observations may be lacking"); cover("Fail"); }
    if let V::Inconc(_) = &v { check(f.stuck_lacking, "Prefix is inconclusive only when observations may be lacking"); cover("Inconc"); }
    check(v != V::WeakFail, "Prefix does not weakly fail");
    if v == V::Pass { cover("Pass"); }
    if v == V::WeakPass { cover("WeakPass"); }
}
/// synchronous communications, whose actions may be observed on different canals
pub fn accept_syn() {
    let i = Gen::new(em(2, 1, SYN | EM, OPS)).int(1); let s = setup(2 + pick(2), 1, pick(2), true);
    told(&s, &i);
    let v = run(&i, &s, plain(AnalysisKind::Accept));
    show("verdict", &v);
    note(rank(&v));
    check((v == V::Pass) == accepts_all(&i, &s, &zero(&s)), "Accept passes exactly the multi-traces of the model");
    if v == V::Pass { cover("Pass"); } else { cover("Fail"); }
}
pub fn prefix_syn() {
    let i = Gen::new(em(2, 1, SYN | EM, STRICT | SEQ | ALT | PAR | LOOPW)).int(1); let s = setup(1 + pick(2), 1, pick(2), true);
    told(&s, &i);
    let v = run(&i, &s, plain(AnalysisKind::Prefix));
    show("verdict", &v);
    note(rank(&v));
    check((v == V::Pass) == accepts_all(&i, &s, &zero(&s)), "Prefix passes exactly the multi-traces of the model");
    check((v == V::Pass || v == V::WeakPass) == extends(&i, &s, &zero(&s), 0, false), "Prefix passes or weakly passes exactly the prefixes of multi-traces of the model");
    if v == V::Pass { cover("Pass"); } else if v == V::WeakPass { cover("WeakPass"); } else { cover("fails"); }
}
pub fn em(lfs: u64, msgs: u64, leaves: u32, ops: u32) -> Cfg { Cfg { lfs, msgs, leaves, ops, msgs_distinct: false } }
pub const OPS: u32 = BIN | LOOPALL;
pub fn accept1() { let i = Gen::new(em(2, 1, MSG | RC2, OPS)).int(1); accept_of(i, setup(3, 1, pick(2), true)) }
pub fn accept2() { let i = Gen::new(em(2, 1, EM, OPS)).int(2); accept_of(i, setup(2 + pick(2), 1, pick(2), false)) }
pub fn accept_mixed() { let i = Gen::new(em(3, 1, EM, OPS)).int(if DEEP { 2 } else { 1 }); accept_of(i, setup(3, 1, 2, false)) }
pub fn prefix1() { let i = Gen::new(em(2, 1, MSG | EM, OPS)).int(1); prefix_of(i, setup(2, 1, pick(2), true)) }
pub fn prefix2() { let i = Gen::new(em(2, 1, EM, OPS)).int(2); prefix_of(i, setup(2, 1, pick(2), false)) }

// ---- observation stopped on some lifelines before the others (or, for slices, started later)
fn elim_of(i: Interaction, s: Setup, extra: u64) {
    told(&s, &i);
    let v = run(&i, &s, plain(AnalysisKind::Eliminate));
    show("verdict", &v);
    note(rank(&v));
    let m = extends(&i, &s, &zero(&s), if no_loop(&i) { extra } else { extra - 1 }, false);
    let single = s.colocs.are_colocalizations_singletons();
    let inconc = match &v { V::Inconc(_) => true, _ => false };
    let ok = v == V::Pass || v == V::WeakPass || (inconc && !single);
    check(!inconc || !single, "elimination concludes when no two lifelines share a co-localization");
    check(ok | !m, "elimination does not fail local beginnings of a behaviour");
    if v == V::WeakPass && has_coreg(&i) && !m && forgets(&i, &s, &zero(&s)) { cover("KF:elim-coregion"); }
    else { check(!ok | m, "elimination only passes local beginnings of a behaviour"); }
    let a = accepts_all(&i, &s, &zero(&s));
    if v == V::Pass { check(a, "Pass means accepted"); cover("Pass"); }
    if a && single { check(v == V::Pass || v == V::WeakPass, "elimination passes what is accepted"); }
    if ok { cover("passes"); } else { cover("fails"); }
}
pub fn elim1() { let i = Gen::new(em(2, 1, EM | MSG, OPS)).int(1); let s = setup(2, 1, 1, true); elim_of(i, s, 3) }
pub fn elim2() { let i = Gen::new(em(2, 1, EM, if DEEP { OPS } else { STRICT | SEQ | PAR | LOOPS | LOOPW | ALT })).int(2); let s = setup(2, 1, 1, false); elim_of(i, s, 3) }
/// three canals, over one after the other
pub fn elim3() { let i = Gen::new(em(3, 1, EM, STRICT | if DEEP { SEQ | LOOPS | ALT } else { 0 })).int(2); let s = setup(2, 1, 3, false); elim_of(i, s, 3) }
pub fn elim_syn() { let i = Gen::new(em(2, 1, SYN | EM, OPS)).int(1); let s = setup(2, 1, 1, true); elim_of(i, s, 3) }
pub fn elim_mixed() { let i = Gen::new(em(3, 1, EM, OPS)).int(1); let s = setup(2, 1, 2, false); elim_of(i, s, 3) }

use SimulationActionCriterion as SA;
use SimulationLoopCriterion as SL;
pub fn crit(k: u64, before: bool) -> SimulationConfiguration { match k {
    0 => SimulationConfiguration::new(before, true, true, SL::MaxDepth, SA::None),           // what the .hcf option gives by default
    1 => SimulationConfiguration::new(before, false, false, SL::SpecificNum(2), SA::SpecificNum(4)),
    2 => SimulationConfiguration::new(before, true, false, SL::MaxNum, SA::MaxNumOutsideLoops),
    _ => SimulationConfiguration::new(before, false, true, SL::None, SA::SpecificNum(1)),
} }
/// `enough`: the limits of the simulation are known not to matter
fn simu_of(i: Interaction, s: Setup, c: SimulationConfiguration, enough: bool, extra: u64) {
    told(&s, &i);
    show("simulation", &c);
    let before = c.sim_before;
    let v = run(&i, &s, plain(AnalysisKind::Simulate(c)));
    show("verdict", &v);
    note(rank(&v));
    let m = extends(&i, &s, &zero(&s), if no_loop(&i) { extra } else { extra - 1 }, before);
    let ok = v == V::Pass || v == V::WeakPass;
    check(!ok | m, "simulation only passes when a behaviour of the model extends every local trace");
    if enough { check(ok | !m, "simulation passes when a behaviour of the model extends every local trace"); }
    match &v { V::Inconc(_) => check(false, "simulation is conclusive"), _ => {} }
    let a = accepts_all(&i, &s, &zero(&s));
    check(ok | !a, "simulation passes what is accepted");
    if v == V::Pass { check(a, "Pass means accepted"); cover("Pass"); }
    if ok { cover("passes"); } else { cover("fails"); }
}
pub fn simu1() { let i = Gen::new(em(2, 1, EM | MSG, OPS)).int(1); let s = setup(2, 1, pick(2), true); simu_of(i, s, crit(0, false), true, 3) }
pub fn simu2() { let i = Gen::new(em(2, 1, EM, if DEEP { OPS } else { STRICT | SEQ | PAR | LOOPS | LOOPW | ALT })).int(2); let s = setup(2, 1, 1, false); simu_of(i, s, crit(1, false), true, 3) }
pub fn simu_crit() { let k = 1 + pick(3); let i = Gen::new(em(2, 1, EM | MSG, STRICT | SEQ | ALT | LOOPS)).int(1); let s = setup(2, 1, 1, true); let e = k < 3 && no_loop(&i) || k == 1; simu_of(i, s, crit(k, false), e, 3) }
/// several lifelines at once: a synchronous communication is observed on both its lifelines, or on one of them, or on none
pub fn simu_syn() { let k = pick(2); let i = Gen::new(em(2, 1, SYN | EM, STRICT | SEQ | ALT | PAR)).int(1); let s = setup(2, 1, pick(2), true); simu_of(i, s, crit(k, false), true, 3) }
pub fn slice1() { let i = Gen::new(em(2, 1, EM | SYN, STRICT | SEQ | PAR | ALT)).int(1); let s = setup(1 + pick(2), 1, 1, true); simu_of(i, s, crit(0, true), true, 4) }
pub fn slice2() { let i = Gen::new(em(2, 1, EM, STRICT | SEQ | PAR | ALT)).int(2); let s = setup(1, 1, 1, false); simu_of(i, s, crit(0, true), true, 4) }

/// chains of four communications on one lifeline, three of them observed: only slices pass
pub fn slice_chain() {
    let mut g = Gen::new(em(1, 2, EM, 0));
    let mut i = g.leaf();
    let mut k = 0;
    while k < 3 { let x = Box::new(g.leaf()); i = if k == 1 { Interaction::Seq(x, Box::new(i)) } else { Interaction::Strict(x, Box::new(i)) }; k += 1; }
    let mut t = vec![];
    let mut k = 0;
    while k < 3 { t.push(action(0, 2, false)); k += 1; }
    let before = flag();
    simu_of(i, Setup { lfs: 1, colocs: CoLocalizations::get_trivial_partition(1), mt: vec![t] }, crit(1, before), true, 4)
}
/// synchronous communications of which the first may have to be left out although it is observed on both sides
pub fn slice_syn3() {
    let i = if DEEP { Gen::new(em(2, 1, SYN | EM, STRICT)).int(2) } else {
        let mut g = Gen::new(em(2, 1, SYN, 0));
        let (x, y) = (Box::new(g.leaf()), Box::new(g.leaf()));
        g.c.leaves = EM | SYN; g.c.msgs = 2;
        Interaction::Strict(x, Box::new(Interaction::Strict(y, Box::new(g.leaf()))))
    };
    let mut s = setup(2, 1, 1, true);
    if s.mt[0].len() == 1 {
        let l = pick(3) as usize;
        if l != 1 { s.mt[0].push(action(0, 2, l == 2)); }
        if l != 0 { s.mt[1].push(action(1, 2, l == 2)); }
    }
    simu_of(i, s, crit(1, true), true, 4)
}
/// what the limits of a simulation leave room for: a simulated action costs one action and the loops it lies in
struct Room { l: u32, a: u32 }
fn loops_on(i: &Interaction, p: &crate::core::language::position::position::Position) -> u32 {
    use crate::core::language::position::position::Position as P;
    match (i, p) {
        (Interaction::Loop(_, x), P::Left(q)) => 1 + loops_on(x, q),
        (Interaction::Strict(x, _), P::Left(q)) | (Interaction::Seq(x, _), P::Left(q)) | (Interaction::Par(x, _), P::Left(q)) => loops_on(x, q),
        (Interaction::Strict(_, x), P::Right(q)) | (Interaction::Seq(_, x), P::Right(q)) | (Interaction::Par(_, x), P::Right(q)) => loops_on(x, q),
        _ => 0,
    }
}
fn loop_count(i: &Interaction, sum: bool) -> u32 { match i {
    Interaction::Loop(_, x) => 1 + loop_count(x, sum),
    Interaction::Strict(x, y) | Interaction::Seq(x, y) | Interaction::Par(x, y) => { let (a, b) = (loop_count(x, sum), loop_count(y, sum)); if sum { a + b } else { a.max(b) } }
    _ => 0,
} }
fn outside(i: &Interaction) -> u32 { match i { Interaction::Strict(x, y) | Interaction::Seq(x, y) | Interaction::Par(x, y) => outside(x) + outside(y), Interaction::Empty | Interaction::Loop(_, _) => 0, _ => 1 } }
fn room(c: &SimulationConfiguration, i: &Interaction, left: u32) -> Room {
    let l = match c.loop_crit { SL::MaxDepth => loop_count(i, false), SL::MaxNum => loop_count(i, true), SL::SpecificNum(n) => n, SL::None => 99 };
    let a = match c.act_crit { SA::MaxNumOutsideLoops => outside(i), SA::SpecificNum(n) => n, SA::None => 99 };
    let k = if c.multiply_by_multitrace_length { left } else { 1 };
    Room { l: if l == 99 { 99 } else { l * k }, a: if a == 99 { 99 } else { a * k } }
}
fn extends_within(i: &Interaction, s: &Setup, pos: &Vec<usize>, c: &SimulationConfiguration, r: &Room) -> bool {
    let mut left = 0;
    for (k, t) in s.mt.iter().enumerate() { left += (t.len() - pos[k]) as u32; }
    if left == 0 { return true; }
    let mut f = false;
    for fe in global_frontier(i, false) {
        let code = code_of(&fe.target_actions);
        let j = execute_interaction(i, &fe.position, &fe.target_lf_ids, false).interaction;
        let depth = loops_on(i, &fe.position);
        // every way to attribute the letter; the step is an observation as soon as a part of it is observed
        let mut ways: Vec<(bool, Vec<usize>, bool)> = vec![(true, pos.clone(), false)];
        for (k, t) in s.mt.iter().enumerate() {
            let mine = part(code, s, k);
            let here = has_lf(mine);
            let mut next = vec![];
            for (g, p, x) in ways {
                let none = g & !here;
                if !known_false(none) { next.push((none, p.clone(), x)); }
                if pos[k] < t.len() {
                    let m = g & here & (code_of(&t[pos[k]]) == mine);
                    if !known_false(m) { let mut q = p.clone(); q[k] += 1; next.push((m, q, x)); }
                }
                if (pos[k] == t.len() || (c.sim_before && pos[k] == 0)) && r.a > 0 && r.l >= depth {
                    let m = g & here;
                    if !known_false(m) { next.push((m, p, true)); }
                }
            }
            ways = next;
        }
        for (g, q, x) in ways {
            let n = if q != *pos {
                let mut still = 0;
                for (k, t) in s.mt.iter().enumerate() { still += (t.len() - q[k]) as u32; }
                if c.reset_crit_after_exec { room(c, &j, still) } else { Room { l: r.l, a: r.a } }
            } else if x {
                let n = room(c, &j, left);
                Room { l: if r.l == 99 { 99 } else { n.l.min(r.l - depth) }, a: if r.a == 99 { 99 } else { n.a.min(r.a - 1) } }
            } else { continue; };
            f = f | (g & extends_within(&j, s, &q, c, &n));
        }
    }
    f
}
pub fn simu_limits() {
    let (b, t) = (false, true);
    let c = match pick(8) {
        0 => SimulationConfiguration::new(b, b, b, SL::SpecificNum(1), SA::None),
        1 => SimulationConfiguration::new(b, t, b, SL::SpecificNum(1), SA::None),
        2 => SimulationConfiguration::new(t, b, b, SL::None, SA::SpecificNum(1)),
        3 => SimulationConfiguration::new(b, b, b, SL::SpecificNum(2), SA::SpecificNum(2)),
        4 => SimulationConfiguration::new(t, t, b, SL::SpecificNum(0), SA::SpecificNum(1)),
        5 => SimulationConfiguration::new(b, t, t, SL::SpecificNum(1), SA::SpecificNum(1)),
        6 => SimulationConfiguration::new(t, b, t, SL::MaxDepth, SA::MaxNumOutsideLoops),
        _ => SimulationConfiguration::new(b, t, b, SL::MaxNum, SA::SpecificNum(2)),
    };
    let mut rc = false;
    let i = match pick(5) {
      4 => {
        let mut g = Gen::new(em(2, 1, EM, 0));
        let mut l = || Box::new(g.leaf());
        Interaction::Strict(l(), Box::new(Interaction::Seq(l(), Box::new(Interaction::Strict(l(), l())))))
      }
      0 => Gen::new(em(2, 1, EM, STRICT | SEQ | LOOPS | if DEEP { PAR | LOOPW | LOOPP } else { 0 })).int(2),
      1 => { rc = true; Gen::new(em(2, 1, SYN | EM, STRICT | LOOPS)).int(1) }
      2 => {
        let mut g = Gen::new(em(2, 1, EM, STRICT));
        Interaction::Loop(LoopKind::SStrictSeq, Box::new(Interaction::Loop(LoopKind::PInterleaving, Box::new(Interaction::Strict(Box::new(g.leaf()), Box::new(g.leaf()))))))
      }
      _ => {
        let mut g = Gen::new(em(2, 1, EM, STRICT));
        let l = Interaction::Loop(LoopKind::SStrictSeq, Box::new(Interaction::Loop(LoopKind::PInterleaving, Box::new(g.leaf()))));
        Interaction::Strict(Box::new(l), Box::new(g.leaf()))
      }
    };
    let s = setup(2, 1, 1, rc);
    told(&s, &i);
    show("simulation", &c);
    let r = room(&c, &i, 2);
    let want = extends_within(&i, &s, &zero(&s), &c, &r);
    let v = run(&i, &s, plain(AnalysisKind::Simulate(c)));
    show("verdict", &v);
    note(rank(&v));
    let ok = v == V::Pass || v == V::WeakPass;
    check(ok == want, "simulation passes exactly when a behaviour within its limits extends every local trace");
    if ok { cover("passes"); } else { cover("fails"); }
}

// ---- options which must not change the answer
pub fn kind_of(k: u64) -> AnalysisKind { match k { 0 => AnalysisKind::Accept, 1 => AnalysisKind::Prefix, 2 => AnalysisKind::Eliminate, _ => AnalysisKind::Simulate(SimulationConfiguration::new(false, true, false, SimulationLoopCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(3))) } }
fn locana(k: u64) -> Option<LocalAnalysisParameterization> { match k {
    0 => None,
    1 => Some(LocalAnalysisParameterization::new(LocalAnalysisLifelineSelectionPolicy::SelectAll, None, 1)),
    _ => Some(LocalAnalysisParameterization::new(LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep, None, 1)),
} }
fn options_of(i: Interaction, s: Setup, k: u64, l: u64, por: bool, memo: bool, strat: u64) {
    told(&s, &i);
    let r = run(&i, &s, plain(kind_of(k)));
    let v = run(&i, &s, Opt { strat, locana: locana(l), por, memo, ..plain(kind_of(k)) });
    show("verdict", &r);
    show("verdict with the options", &v);
    note(rank(&r)); note(rank(&v));
    let (p, q) = (rank(&r), rank(&v));
    // Fail and WeakFail both refuse: memoization may find out that going on simulating is of no use
    let (p, q) = (if p == 1 { 0 } else { p }, if q == 1 { 0 } else { q });
    if l == 0 { check(p == q, "search order, memoization and partial-order reduction do not change the verdict"); }
    else { check((p >= 3) == (q >= 3) && (p < 3 || p == q), "local analysis does not change what passes"); }
    if p >= 3 { cover("passes"); } else { cover("does not pass"); }
}
pub fn opt_syn() { let k = pick(3); let l = pick(2); let i = Gen::new(em(2, 1, EM | SYN, STRICT | SEQ | ALT | PAR | LOOPS)).int(1); let s = setup(2, 1, pick(2), true); let por = flag(); options_of(i, s, k, l, por, true, 1) }
pub fn opt_memo() { let k = pick(4); let i = Gen::new(em(2, 1, EM, STRICT | PAR | ALT | LOOPS | LOOPW | LOOPP)).int(2); let s = setup(3, 1, if DEEP { pick(2) } else { 0 }, false); options_of(i, s, k, 0, false, true, 1) }
pub fn opt_por() { let i = Gen::new(em(2, 1, EM, OPS)).int(2); let s = setup(2, 1, if DEEP { pick(2) } else { 1 }, false); options_of(i, s, if DEEP { pick(2) } else { 0 }, 0, true, false, 0) }
pub fn opt_por3() { let i = Gen::new(em(2, 1, EM, STRICT | LOOPS | SEQ | if DEEP { ALT | PAR } else { 0 })).int(3); let s = setup(3, 1, 1, false); options_of(i, s, 0, 0, true, false, 0) }
pub fn opt_local() { let k = pick(4); let l = if DEEP { 1 + pick(2) } else { 2 }; let i = Gen::new(em(2, 1, EM, STRICT | SEQ | PAR | ALT | LOOPS | if DEEP { COREG | LOOPALL } else { 0 })).int(2); let s = setup(2, 1, if DEEP { pick(2) } else { 1 }, false); options_of(i, s, k, l, false, false, 0) }
/// loops side by side: the same model is reached again with different parts of the trace consumed
pub fn memo_loops() {
    let mut g = Gen::new(em(1, 3, EM, STRICT));
    let a = g.int(0); let b = g.int(1); let c = g.int(1);
    let k = g.loop_kind();
    let l = |x| Box::new(Interaction::Loop(k.clone(), Box::new(x)));
    let i = Interaction::Par(l(a), Box::new(Interaction::Par(l(b), l(c))));
    let mut t = vec![];
    let mut n = 0;
    while n < 3 { let mut x = BTreeSet::new(); x.insert(TraceAction::new(0, TraceActionKind::Emission, sym(0, 2) as usize)); t.push(x); n += 1; }
    let s = Setup { lfs: 1, colocs: CoLocalizations::get_trivial_partition(1), mt: vec![t] };
    options_of(i, s, 0, 0, false, true, 1 + pick(2))
}

/// any search order: depth first, breadth first or restarting from the top, with any priorities
pub fn opt_order() {
    let k = pick(4);
    let i = Gen::new(em(2, 1, EM, STRICT | PAR | ALT | LOOPS)).int(2);
    let s = setup(2, 1, if DEEP { pick(2) } else { 0 }, false);
    told(&s, &i);
    let mut o = plain(kind_of(k));
    o.strat = pick(3);
    let mut one = || 1 - 2 * (flag() as i32);
    o.prio = AnalysisPriorities::new(one(), 1, one(), one(), -1, 2);
    let r = run(&i, &s, plain(kind_of(k)));
    let v = run(&i, &s, o);
    show("verdict", &r); show("verdict in the other order", &v);
    note(rank(&r)); note(rank(&v));
    check(rank(&r) == rank(&v), "search order and priorities do not change the verdict");
    if rank(&r) >= 3 { cover("passes"); } else { cover("does not pass"); }
}
/// stopping as soon as a verdict is good enough
pub fn opt_goal() {
    let k = pick(4);
    let g = if DEEP { 2 + pick(3) } else { 3 + pick(2) };
    let i = Gen::new(em(2, 1, EM, STRICT | PAR | ALT | LOOPS)).int(2);
    let s = setup(2, 1, if DEEP { pick(2) } else { 0 }, false);
    told(&s, &i);
    let mut o = plain(kind_of(k));
    o.goal = Some(match g { 2 => V::Inconc(InconcReason::FilteredNodes), 3 => V::WeakPass, _ => V::Pass });
    o.strat = pick(2);
    let r = run(&i, &s, plain(kind_of(k)));
    let v = run(&i, &s, o);
    show("verdict", &r); show("verdict with the goal", &v);
    note(rank(&r)); note(rank(&v));
    if g >= 3 { check((rank(&v) >= g) == (rank(&r) >= g), "the goal is reached exactly when the full analysis reaches it"); }
    check(rank(&v) <= rank(&r), "stopping at a goal gives no better verdict");
    if g >= 3 && rank(&r) < g { check(rank(&v) == rank(&r), "a goal that is not reached changes nothing"); cover("not reached"); }
    if rank(&v) >= g { cover("reached"); }
}
// ---- limits on the exploration
fn limits_of(i: Interaction, s: Setup, k: u64, memo: bool) {
    told(&s, &i);
    let f = pick(3);
    let n = sym(0, 3) as u32;
    let mut o = plain(kind_of(k));
    o.memo = memo;
    o.strat = pick(2);
    o.filters = vec![match f { 0 => AnalysisFilter::MaxProcessDepth(n), 1 => AnalysisFilter::MaxLoopInstanciation(n), _ => AnalysisFilter::MaxNodeNumber(n + 1) }];
    let r = run(&i, &s, plain(kind_of(k)));
    let v = run(&i, &s, o);
    show("limit kind", &f); show("limit", &n); show("verdict", &r); show("verdict within the limit", &v);
    note(rank(&r)); note(rank(&v));
    let (p, q) = (rank(&r), rank(&v));
    check(q < 3 || q <= p, "what passes within a limit passes without");
    check(q != 0 || p <= 1, "what fails within a limit fails without");
    if f == 0 && k != 3 { check(n < if k < 2 { 2 } else { 3 } || p == q, "a depth that covers the whole multi-trace changes nothing"); }
    if let V::Inconc(InconcReason::FilteredNodes) = &v { cover("limited"); }
    if q >= 3 { cover("passes"); }
    if q == 0 { cover("fails"); }
}
pub fn limits() { let k = pick(4); let i = Gen::new(em(2, 1, EM, STRICT | SEQ | PAR | ALT | LOOPS)).int(if DEEP { 2 } else { 1 }); let s = setup(2, 1, 0, false); limits_of(i, s, k, flag()) }
pub fn limits_loops() { let i = Interaction::Loop(Gen::new(em(1, 1, EM, 0)).loop_kind(), Box::new(Gen::new(em(2, 1, EM, STRICT | ALT | LOOPS | LOOPP)).int(1))); let s = setup(2, 1, 0, false); limits_of(i, s, pick(2), false) }
/// the verdict of an analysis from those of its leaves
pub fn verdicts() {
    let n = pick(4);
    let mut l: Vec<AnalysisLocalVerdict> = vec![];
    let mut best = 0;
    let mut k = 0;
    while k < n {
        let (x, r) = match pick(8) {
            0 => (AnalysisLocalVerdict::Cov, 4), 1 => (AnalysisLocalVerdict::TooShort, 3), 2 => (AnalysisLocalVerdict::MultiPref, 3), 3 => (AnalysisLocalVerdict::Slice, 3),
            4 => (AnalysisLocalVerdict::Inconc(InconcReason::LackObs), 2), 5 => (AnalysisLocalVerdict::Inconc(InconcReason::UsingLifelineRemovalWithCoLocalizations), 2),
            6 => (AnalysisLocalVerdict::OutSim(flag()), 1), _ => (AnalysisLocalVerdict::Out(flag()), 0),
        };
        if r > best { best = r; }
        l.push(x);
        k += 1;
    }
    let mut v = V::get_baseline_verdict();
    for x in &l { v = v.update_with_local_verdict(x); }
    show("leaves", &l.len());
    let filtered = flag();
    let same = rank(&v) == best;
    check(same, "the verdict is that of the best leaf");
    for (g, r) in [(V::Fail, 0), (V::WeakFail, 1), (V::WeakPass, 3), (V::Pass, 4)] { check(v.is_goal_reached(&Some(g)) == (rank(&v) >= r), "verdicts are ordered from Fail to Pass"); }
    check(!v.is_goal_reached(&None), "no goal is never reached");
    let w = v.update_knowing_nodes_were_filtered_out(filtered);
    check(rank(&w) == if best == 0 && filtered { 2 } else { best }, "a failure with nodes left out is inconclusive, other verdicts stand");
    note(rank(&w));
    cover(if filtered { "filtered" } else { "not filtered" });
}

/// what a memoized node stands for: a node that is included in another never gets further than it does
fn included_of(i: Interaction, s: Setup, kind: fn() -> AnalysisKind, sim: bool) {
    told(&s, &i);
    let n = s.colocs.num_colocs();
    let mut node = || {
        let mut c = vec![];
        let mut k = 0;
        while k < n {
            let mut f = TraceAnalysisFlags::new_init();
            f.consumed = pick(s.mt[k].len() as u64 + 1) as usize;
            if sim && f.consumed == s.mt[k].len() { f.simulated_after = sym(0, 1) as u32; }
            if sim && pick(2) == 1 { f.simulated_before = 1; }
            c.push(f);
            k += 1;
        }
        AnalysisNodeKind::new(i.clone(), MultiTraceAnalysisFlags::new(c, if sim { sym(0, 2) as u32 } else { 0 }, if sim { sym(0, 2) as u32 } else { 0 }), 0)
    };
    let (a, b) = (node(), node());
    show("node", &a.flags); show("memoized node", &b.flags);
    use graph_process_manager_core::manager::config::AbstractNodeKind;
    let inc = a.is_included_for_memoization(&b);
    if !inc { return; }
    cover("included");
    let go = |x: &AnalysisNodeKind| {
        let len = multi_trace_length(&s.mt);
        let ctx = AnalysisContext::new(context(s.lfs), s.colocs.clone(), s.mt.clone(), len);
        let del: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> = GenericProcessDelegate::new(QueueSearchStrategy::BFS, GenericProcessPriorities::new(AnalysisPriorities::default(), false));
        let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ctx, AnalysisParameterization::new(kind(), None, false), del, vec![], vec![], None, false);
        rank(&m.start_process(x.clone()).1)
    };
    let (p, q) = (go(&a), go(&b));
    show("verdict", &p); show("verdict of the memoized node", &q);
    note(p); note(q);
    check(p <= q || p < 2, "a memoized node gets at least as far as the nodes it stands for");
    if p >= 3 { cover("passes"); }
}
pub fn incl_sim() { let i = Gen::new(em(2, 1, EM, STRICT | LOOPS | if DEEP { ALT | PAR } else { 0 })).int(2); let s = setup(1, 1, 1, false); included_of(i, s, || AnalysisKind::Simulate(SimulationConfiguration::new(true, false, false, SL::SpecificNum(2), SA::SpecificNum(2))), true) }
pub fn incl_prefix() { let i = Gen::new(em(2, 1, EM, STRICT | PAR | LOOPS | ALT)).int(2); let s = setup(2, 1, 1, false); included_of(i, s, || AnalysisKind::Prefix, false) }
