//! The commands that analyze, explore, canonize and measure, from their arguments to what they print and write.
use super::ana::*;
use super::den::*;
use super::explo;
use super::gen::*;
use super::DEEP;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::process::ana::filter::filter::AnalysisFilter;
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::*;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use crate::process::ana::verdict::inconc::InconcReason;
use crate::ui::commands::{cli_analyze::cli_analyze, cli_canonize::cli_canonize, cli_explore::cli_explore, cli_get_metrics::cli_get_metrics};
use crate::ui::hibou_cli::__matches;
use crate::{vfs, vio};
use clap::ArgMatches;
use std::collections::{BTreeMap, BTreeSet};
use vsym::*;

fn line(out: &Vec<String>, start: &str) -> Option<String> { for l in out { if l.starts_with(start) { return Some(l[start.len()..].to_string()); } } None }
/// the number behind the colon of a line
fn count(out: &Vec<String>, start: &str) -> Option<u64> {
    let l = line(out, start)?;
    let mut v = 0u64; let mut digits = false;
    for b in l.bytes() { if b >= b'0' && b <= b'9' { v = v * 10 + (b - b'0') as u64; digits = true; } else if b != b' ' && b != b':' { return None; } }
    if digits { Some(v) } else { None }
}
fn name(v: &V) -> &'static str { match v { V::Pass => "'Pass'", V::WeakPass => "'WeakPass'", V::WeakFail => "'WeakFail'", V::Fail => "'Fail'", V::Inconc(_) => "'Inconc" } }
fn says(s: &str, v: &V) -> bool { match v { V::Inconc(_) => s.starts_with("'Inconc"), _ => s == name(v) } }

struct Ana { verdict: String, nodes: u64 }
fn analyze(m: &ArgMatches, i: &Interaction, s: &Setup, cfg: Option<&str>) -> Ana {
    vfs::clear();
    told(s, i);
    if let Some(t) = cfg { vfs::put(format!("@analyze_option{{{t}}}")); if verbose() { eprintln!("    options: {t}"); } }
    vio::supply(context(s.lfs), Some(i.clone()), Some((s.colocs.clone(), s.mt.clone())));
    let (out, code) = cli_analyze(m.subcommand_matches("analyze").unwrap());
    show("printed", &out);
    check(code == 0, "runs");
    let mut n = 0; for t in &s.mt { n += t.len(); }
    check(line(&out, "of length '") == Some(format!("{n}'")), "the length of the multi-trace is told");
    let v = match line(&out, "verdict    : ") { Some(v) => v, None => { check(false, "a verdict is told"); panic!() } };
    let k = match count(&out, "node count ") { Some(k) => k, None => { check(false, "the number of nodes is told"); panic!() } };
    Ana { verdict: v, nodes: k }
}
fn with_cfg() -> ArgMatches { __matches(&["hibou", "analyze", "x.hsf", "x.hif", "x.htf", "x.hcf"]) }
const BASE: &str = "goal=none;memoize=false;local_analysis=none";
fn kinds(k: u64) -> (&'static str, AnalysisKind) { match k {
    0 => ("accept", AnalysisKind::Accept),
    1 => ("prefix", AnalysisKind::Prefix),
    2 => ("eliminate", AnalysisKind::Eliminate),
    3 => ("simulate", AnalysisKind::Simulate(SimulationConfiguration::new(false, false, false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::None))),
    4 => ("simulate[slice=true,loop num=1,act num=2]", AnalysisKind::Simulate(SimulationConfiguration::new(true, false, false, SimulationLoopCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(2)))),
    5 => ("simulate[loop max num,act max num,multiply=true]", AnalysisKind::Simulate(SimulationConfiguration::new(false, false, true, SimulationLoopCriterion::MaxNum, SimulationActionCriterion::MaxNumOutsideLoops))),
    _ => ("simulate[act num=1,reset=true,loop none]", AnalysisKind::Simulate(SimulationConfiguration::new(false, true, false, SimulationLoopCriterion::None, SimulationActionCriterion::SpecificNum(1)))),
} }
/// each kind of analysis that can be asked for: the verdict printed
pub fn ana_kinds() {
    let m = with_cfg();
    let k = pick(7);
    let (t, kind) = kinds(k);
    let i = Gen::new(em(2, 1, EM | MSG, if DEEP { OPS } else { STRICT | SEQ | ALT | LOOPW | LOOPS })).int(1);
    let s = setup(if DEEP { 1 + pick(2) } else { 2 }, 1, if DEEP || k == 1 || k == 3 { pick(3) } else { 1 }, true);
    let a = analyze(&m, &i, &s, Some(&format!("{BASE};analysis_kind={t}")));
    let (n, v) = run_nodes(&i, &s, plain(kind));
    show("verdict", &v);
    check(says(&a.verdict, &v), "the verdict told is that of the analysis asked for");
    check(a.nodes == n as u64, "the number of nodes told is that of the analysis");
    if k < 2 {
        let ok = accepted(&i, &s.mt);
        check((a.verdict == "'Pass'") == ok, "what is told to pass is exactly what the model accepts");
        if k == 1 { let f = walk(&i, &s.mt, &zero(&s)); check((a.verdict == "'Pass'" || a.verdict == "'WeakPass'") == f.prefix, "what is told to pass or weakly pass are the prefixes"); }
    }
    match v { V::Pass => cover("Pass"), V::WeakPass => cover("WeakPass"), V::Fail => cover("Fail"), _ => cover("other") }
}
/// no configuration: prefixes pass
pub fn ana_default() {
    let m = __matches(&["hibou", "analyze", "x.hsf", "x.hif", "x.htf"]);
    let k = 1 + pick(2);
    let i = Gen::new(em(2, 1, EM | if k == 1 { MSG } else { 0 }, if k == 1 || DEEP { OPS } else { STRICT | SEQ | ALT | LOOPS })).int(k);
    let s = setup(2, 1, if k == 1 || DEEP { pick(2) } else { 1 }, k == 1);
    let a = analyze(&m, &i, &s, None);
    let ok = a.verdict == "'Pass'" || a.verdict == "'WeakPass'";
    let p = walk(&i, &s.mt, &zero(&s)).prefix;
    check(ok == p, "without configuration, exactly the prefixes of multi-traces of the model pass");
    if a.verdict == "'Pass'" { check(accepted(&i, &s.mt), "Pass means accepted"); cover("Pass"); }
    cover(if ok { "passes" } else { "does not pass" });
}
/// options that are asked for have their effect
pub fn ana_options() {
    let m = with_cfg();
    let k = pick(4);
    let (t, kind) = kinds(k);
    let w = pick(10);
    let mut o = Opt { ..plain(kind) };
    let x = match w {
        0 => { o.goal = Some(V::Pass); "goal=Pass;memoize=false;local_analysis=none" }
        1 => { o.goal = Some(V::WeakPass); "goal=WeakPass;memoize=false;local_analysis=none;strategy=DFS" }
        2 => { o.memo = true; "goal=none;memoize=true;local_analysis=none" }
        3 => { o.locana = Some(LocalAnalysisParameterization::new(LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep, None, 1)); "goal=none;memoize=false" }
        4 => { o.locana = Some(LocalAnalysisParameterization::new(LocalAnalysisLifelineSelectionPolicy::SelectAll, Some(1), 1)); "goal=none;memoize=false;local_analysis=[select=all,lookahead=1]" }
        5 => { o.por = true; "goal=none;memoize=false;local_analysis=none;por=true" }
        6 => { o.filters = vec![AnalysisFilter::MaxProcessDepth(1)]; "goal=none;memoize=false;local_analysis=none;filters=[max_depth=1]" }
        7 => { o.filters = vec![AnalysisFilter::MaxLoopInstanciation(0)]; "goal=none;memoize=false;local_analysis=none;filters=[max_loop_depth=0]" }
        8 => { o.filters = vec![AnalysisFilter::MaxNodeNumber(2)]; "goal=none;memoize=false;local_analysis=none;filters=[max_node_number=2]" }
        _ => { o.strat = 1; o.goal = Some(V::WeakPass); o.prio.emission = -2; o.prio.in_loop = 3; "goal=WeakPass;memoize=false;local_analysis=none;strategy=DFS;priorities=[emission=-2,reception=0,multi_rdv=0,loop=3,elim=1,simu=-1]" }
    };
    if w == 1 { o.strat = 1; }
    let i = if w == 7 || w == 9 { Interaction::Loop(LoopKind::WWeakSeq, Box::new(Gen::new(em(2, 1, EM, ALT | STRICT | PAR)).int(1))) } else { Gen::new(em(2, 1, EM, STRICT | PAR | ALT | if DEEP { OPS } else { 0 })).int(if w == 4 || w == 2 || w == 5 { 2 } else { 1 }) };
    let s = setup(2, 1, if DEEP { pick(2) } else { k & 1 }, false);
    if w == 5 { vfs::clear(); }
    let a = analyze(&m, &i, &s, Some(&format!("{x};analysis_kind={t}")));
    let (n, v) = run_nodes(&i, &s, o);
    show("verdict", &v); show("nodes", &n);
    check(says(&a.verdict, &v), "the verdict told is that of the analysis with the options");
    check(a.nodes == n as u64, "the number of nodes told is that of the analysis with the options");
    cover(["goal", "weak goal", "memoization", "local analysis", "local analysis everywhere", "partial order", "depth", "loops", "nodes", "order"][w as usize]);
}
/// files that cannot be read: the commands say so and do nothing
pub fn refused() {
    let w = pick(12);
    let n = ["analyze", "explore", "canonize", "get_metrics", "slice", "mutate_insert_noise", "mutate_remove_actions", "mutate_swap_actions", "mutate_swap_components", "nfa_analyze", "puml_sd", "puml_ap"][w as usize];
    let mut a = vec!["hibou", n, "x.hsf"];
    match w { 0 | 9 => { a.push("x.hif"); a.push("x.htf"); } 1 | 2 | 10 | 11 => a.push("x.hif"), 3 => { a.push("x.hif"); a.push("INT"); } _ => a.push("x.htf") }
    if w == 8 { a.push("y.htf"); }
    let m = __matches(&a);
    let m = m.subcommand_matches(n).unwrap();
    show("command", &n);
    vfs::clear(); vio::reset();
    // which of the files is missing or wrong
    let stage = pick(3);
    let bad = pick(2);
    if bad == 1 { vfs::put("@nothing{".to_string()); }
    let one = Interaction::Emission(EmissionAction::new(0, 0, CommunicationSynchronicity::Asynchronous, vec![]));
    let takes_int = w < 4 || w > 8; let takes_mu = w == 0 || (w > 3 && w < 10);
    unsafe {
        if stage > 0 { vio::HSF = Some(context(2)); }
        if stage > 1 { vio::HIF = Some(one); }
    }
    if stage == 1 && !takes_int { reject(); }
    if stage == 2 && !takes_mu { reject(); }
    use crate::ui::commands::*;
    let (out, code) = match w {
        0 => cli_analyze(m), 1 => cli_explore(m), 2 => cli_canonize(m), 3 => cli_get_metrics(m), 4 => cli_slice::cli_slice(m), 5 => cli_mutate_insert_noise::cli_mutate_insert_noise(m), 6 => cli_mutate_remove_actions::cli_mutate_remove_actions(m),
        7 => cli_mutate_swap_actions::cli_mutate_swap_actions(m), 8 => cli_mutate_swap_components::cli_mutate_swap_components(m), 9 => cli_nfa_ana::cli_nfa_ana(m), 10 => cli_puml_sd::cli_puml_sd(m), _ => cli_puml_ap::cli_puml_ap(m),
    };
    show("printed", &out);
    check(code == 1, "an error is reported");
    check(out.len() == 1 && out[0].len() > 0, "the error is told and nothing else");
    check(vfs::written().is_empty(), "nothing is written");
    cover(if bad == 1 { "wrong" } else { "missing" });
}
/// multi-traces generated by exploring
pub fn explore() {
    let m = __matches(&["hibou", "explore", "x.hsf", "x.hif", "x.hcf"]);
    explo::command(m.subcommand_matches("explore").unwrap());
}
/// metrics of an interaction
struct Sum { depth: u64, loops: u64, lfs: [bool; 4], acts: u64 }
fn sum(i: &Interaction, d: u64, l: u64, s: &mut Sum) {
    if d > s.depth { s.depth = d; }
    if l > s.loops { s.loops = l; }
    match i {
        Interaction::Empty => {}
        Interaction::Emission(e) => { s.acts += 1; s.lfs[e.origin_lf_id] = true; for t in &e.targets { if let EmissionTargetRef::Lifeline(x) = t { s.lfs[*x] = true; } } }
        Interaction::Reception(r) => { s.acts += 1; for x in &r.recipients { s.lfs[*x] = true; } }
        Interaction::Loop(_, a) => sum(a, d + 1, l + 1, s),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => { sum(a, d + 1, l, s); sum(b, d + 1, l, s); }
    }
}
fn measure(m: &ArgMatches, g: &GeneralContext, i: &Interaction) -> Vec<String> {
    vfs::clear();
    show("interaction", i);
    vio::supply(g.clone(), Some(i.clone()), None);
    let (out, code) = cli_get_metrics(m.subcommand_matches("get_metrics").unwrap());
    show("printed", &out);
    check(code == 0, "runs");
    out
}
pub fn metrics_int() {
    let m = __matches(&["hibou", "get_metrics", "x.hsf", "x.hif", "INT"]);
    let n = pick(3);
    let i = if n == 2 { Gen::new(em(3, 1, EM, STRICT | LOOPS | LOOPW | if DEEP { OPS } else { 0 })).int(2) } else { Gen::new(em(3, 1, EM | RC | MSG | BC | EMPTY | SYN, BIN | LOOPALL | SYNC)).int(n) };
    let g = context(3);
    let out = measure(&m, &g, &i);
    let c = crate::nfa_translation::canonize::canonize_interaction(&g, &i, crate::process::canon::param::default::DefaultCanonizationProcess::BasicWithUnfoldActions);
    show("canonized", &c);
    let mut s = Sum { depth: 0, loops: 0, lfs: [false; 4], acts: 0 };
    sum(&c, 0, 0, &mut s);
    check(count(&out, "depth ") == Some(s.depth), "the depth is that of the canonized interaction");
    check(count(&out, "loop depth ") == Some(s.loops), "the depth of loops is that of the canonized interaction");
    let mut l = 0; for x in s.lfs { if x { l += 1; } }
    check(count(&out, "number of lifelines ") == Some(l), "lifelines are counted once each");
    check(count(&out, "number of actions ") == Some(s.acts), "actions are counted");
    if s.loops > 0 { cover("loops"); }
    cover("measured");
}
use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
use autour_core::nfa::nfa::AutNFA;
/// states and edges of the smallest deterministic automaton without useless states
fn smallest(a: &AutNFA<usize>) -> (u64, u64) {
    // subsets
    let mut subs: Vec<BTreeSet<usize>> = vec![a.initials.iter().cloned().collect()];
    let mut step: Vec<BTreeMap<usize, usize>> = vec![];
    let mut k = 0;
    while k < subs.len() {
        let mut to: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for q in &subs[k] { for (l, t) in &a.transitions[*q] { for x in t { to.entry(*l).or_insert(BTreeSet::new()).insert(*x); } } }
        let mut m = BTreeMap::new();
        for (l, t) in to { let n = match subs.iter().position(|x| *x == t) { Some(n) => n, None => { subs.push(t); subs.len() - 1 } }; m.insert(l, n); }
        step.push(m);
        k += 1;
    }
    let n = subs.len();
    let fin: Vec<bool> = subs.iter().map(|s| s.iter().any(|q| a.finals.contains(q))).collect();
    // states from which nothing is accepted are useless
    let mut live = fin.clone();
    let mut r = 0;
    while r < n { let mut q = 0; while q < n { if !live[q] { for (_, t) in &step[q] { if live[*t] { live[q] = true; } } } q += 1; } r += 1; }
    // pairs that differ
    let mut diff = vec![vec![false; n]; n];
    let mut r = 0;
    while r <= n {
        let mut p = 0;
        while p < n {
            let mut q = 0;
            while q < n {
                let mut d = diff[p][q] || fin[p] != fin[q] || live[p] != live[q];
                for (l, t) in &step[p] { match step[q].get(l) { Some(u) => d = d || diff[*t][*u], None => d = d || live[*t] } }
                for (l, u) in &step[q] { if !step[p].contains_key(l) { d = d || live[*u]; } }
                diff[p][q] = d;
                q += 1;
            }
            p += 1;
        }
        r += 1;
    }
    let mut states = 0; let mut edges = 0;
    let mut p = 0;
    while p < n {
        if live[p] && !(0..p).any(|q| live[q] && !diff[p][q]) { states += 1; for (_, t) in &step[p] { if live[*t] { edges += 1; } } }
        p += 1;
    }
    (states, edges)
}
fn automaton(g: &GeneralContext, i: &Interaction) -> AutNFA<usize> {
    let c = crate::nfa_translation::canonize::canonize_interaction(g, i, crate::process::canon::param::default::DefaultCanonizationProcess::BasicWithUnfoldActions);
    get_nfa_from_interaction_exploration(g, &c, get_alphabet_from_gen_ctx(g)).0
}
fn model() -> Interaction {
    if flag() { Gen::new(em(2, 1, EM | SYN | MSG, OPS)).int(1) }
    else { Gen::new(em(2, 1, EM, STRICT | ALT | PAR | LOOPS)).int(2) }
}
pub fn metrics_nfa() {
    let m = __matches(&["hibou", "get_metrics", "x.hsf", "x.hif", "operatNFA"]);
    let i = model();
    let g = context(2);
    let out = measure(&m, &g, &i);
    let a = automaton(&g, &i);
    let mut e = 0;
    for t in &a.transitions { for (_, x) in t { e += x.len() as u64; } }
    check(count(&out, "number of states ") == Some(a.transitions.len() as u64), "states are counted");
    check(count(&out, "number of edges ") == Some(e), "edges are counted");
    cover("measured");
}
pub fn metrics_dfa() {
    let m = __matches(&["hibou", "get_metrics", "x.hsf", "x.hif", "minDFA"]);
    let mut c = em(2, 2, EM, STRICT | PAR | ALT);
    // orders that make no difference to what can follow
    let i = match pick(if DEEP { 3 } else { 2 }) {
        2 => model(),
        0 => Gen::new(c).int(2),
        _ => {
            let mut g = Gen::new(em(3, 2, EM, 0));
            let (a, b, x, y) = (g.int(0), g.int(0), g.int(0), g.int(0));
            let s = |p: &Interaction, q: &Interaction| Interaction::Strict(Box::new(p.clone()), Box::new(q.clone()));
            let l = s(&a, &Interaction::Alt(Box::new(s(&x, &y)), Box::new(s(&y, &x))));
            let r = s(&b, &Interaction::Par(Box::new(x.clone()), Box::new(y.clone())));
            Interaction::Alt(Box::new(l), Box::new(r))
        }
    };
    let g = context(3);
    let out = measure(&m, &g, &i);
    let (n, e) = smallest(&automaton(&g, &i));
    show("smallest", &(n, e));
    check(count(&out, "number of states ") == Some(if n == 0 { 1 } else { n }), "as many states as the smallest deterministic automaton");
    check(count(&out, "number of edges ") == Some(e), "as many edges as the smallest deterministic automaton");
    if n > 3 { cover("several states"); }
}
use crate::process::canon::{conf::CanonizationConfig, context::CanonizationContext, node::CanonizationNodeKind, param::{default::DefaultCanonizationProcess, phase::CanonizationParameterization}, priorities::CanonizationPriorities, step::CanonizationStepKind};
use graph_process_manager_core::delegate::{delegate::GenericProcessDelegate, priorities::GenericProcessPriorities};
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
pub fn canonize() {
    let w = pick(3);
    let mut a = vec!["hibou", "canonize", "x.hsf", "x.hif"];
    if w > 0 { a.push("x.hcf"); }
    let m = __matches(&a);
    let i = Gen::new(em(2, 1, EM | EMPTY | MSG, STRICT | SEQ | ALT | PAR | LOOPS)).int(1);
    show("interaction", &i);
    vfs::clear();
    let g = context(2);
    vio::supply(g.clone(), Some(i.clone()), None);
    if w > 0 { vfs::put(["", "@canonize_option{search_all=true}", "@canonize_option{search_all=false}"][w as usize].to_string()); }
    let (out, code) = cli_canonize(m.subcommand_matches("canonize").unwrap());
    show("printed", &out);
    check(code == 0, "runs");
    let st = QueueSearchStrategy::BFS;
    let del: GenericProcessDelegate<CanonizationStepKind, CanonizationNodeKind, CanonizationPriorities> = GenericProcessDelegate::new(st, GenericProcessPriorities::new(CanonizationPriorities::default(), false));
    let mut p: GenericProcessManager<CanonizationConfig> = GenericProcessManager::new(CanonizationContext::new(g), CanonizationParameterization::from_default(DefaultCanonizationProcess::FivePhases, w == 1), del, vec![], vec![], None, true);
    let (n, _) = p.start_process(CanonizationNodeKind::new(i, 0));
    check(count(&out, "node count ") == Some(n as u64), "the number of nodes told is that of the canonization");
    cover(if w == 1 { "every way" } else { "one way" });
}
/// the program runs the command it is asked for
pub fn program() {
    let w = pick(13) as usize;
    let n = ["puml_sd", "puml_ap", "analyze", "explore", "canonize", "get_metrics", "nfa_analyze", "slice", "mutate_insert_noise", "mutate_remove_actions", "mutate_swap_actions", "mutate_swap_components", ""][w];
    let mut a = vec!["hibou"];
    if n != "" { a.push(n); a.push("x.hsf"); }
    match w { 0 | 1 | 3 | 4 => a.push("x.hif"), 2 | 6 => { a.push("x.hif"); a.push("x.htf"); } 5 => { a.push("x.hif"); a.push("INT"); } 12 => {} _ => a.push("x.htf") }
    if w == 11 { a.push("y.htf"); }
    show("arguments", &a);
    vio::program(&a);
    vfs::clear(); vfs::folders_exist();
    let g = context(2);
    let em = |l: usize| { let mut b = BTreeSet::new(); b.insert(TraceAction::new(l, TraceActionKind::Emission, 0)); b };
    let mu = (CoLocalizations::get_trivial_partition(2), vec![vec![em(0), em(1)]]);
    vio::supply(g, Some(Interaction::Emission(EmissionAction::new(0, 0, CommunicationSynchronicity::Asynchronous, vec![EmissionTargetRef::Lifeline(1)]))), Some(mu.clone()));
    if w == 11 { vio::then(mu); }
    crate::ui::hibou_cli::hibou_cli();
    let out = vio::printed();
    let wr = vfs::written();
    show("printed", &out); show("written", &wr);
    let says = |s: &str| out.iter().any(|l| l.starts_with(s));
    let wrote = |s: &str| wr.iter().any(|(f, _)| f.starts_with(s));
    let ok = match w {
        0 => wr.len() == 1 && wr[0].0 == "x_sd.puml" , 1 => wr.len() == 1 && wr[0].0 == "x_ap.puml", 2 => says("ANALYZING TRACE"), 3 => says("EXPLORING SEMANTICS"), 4 => says("CANONIZING process"), 5 => says("GETTING INTERACTION METRICS"), 6 => says("verdict : "),
        7 => wr.len() == 4 && wrote("./x_slices/"), 8 => wr.len() == 1 && wr[0].0 == "x_insert_noise_mutant.htf", 9 => wr.len() == 1 && wr[0].0 == "x_remove_actions_mutant.htf", 10 => wr.len() == 1 && wr[0].0 == "x_swap_act_mutant.htf", 11 => wr.len() == 1 && wr[0].0 == "x_swap_comp_mutant.htf",
        _ => says("TYPE help") && wr.is_empty(),
    };
    check(ok, "the program runs the command it is asked for, and tells or writes its result");
    cover("ran");
}
