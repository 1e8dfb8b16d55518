//! The commands, from their arguments to what they print and write.
use super::den::*;
use super::gen::*;
use super::DEEP;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::ui::commands::cli_nfa_ana::cli_nfa_ana;
use crate::ui::hibou_cli::__matches;
use std::collections::BTreeSet;
use crate::{vfs, vio};
use vsym::*;

fn names() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in ["m", "n"] { g.add_msg(n.to_string()); }
    g
}
fn line(out: &Vec<String>, start: &str) -> Option<String> { for l in out { if l.starts_with(start) { return Some(l[start.len()..].to_string()); } } None }
fn code_of(b: &BTreeSet<TraceAction>) -> u16 {
    let mut bits = 0; let mut ms = 0;
    for a in b { bits |= bit(a.lf_id, &a.act_kind); ms = a.ms_id; }
    letter(ms, bits)
}
fn action(ms: u64) -> TraceAction { TraceAction::new(sym(0, 1) as usize, if flag() { TraceActionKind::Emission } else { TraceActionKind::Reception }, sym(0, ms - 1) as usize) }
/// the word can be executed step by step
fn runs(i: &Interaction, w: &Vec<u16>, at: usize) -> bool {
    if at == w.len() { return true; }
    let mut r = false;
    for f in global_frontier(i, true) {
        let e = code_of(&f.target_actions) == w[at];
        if !known_false(e) { r = r | (e & runs(&execute_interaction(i, &f.position, &f.target_lf_ids, false).interaction, w, at + 1)); }
    }
    r
}
/// a trace against an automaton
pub fn nfa_ana() {
    let m = __matches(&["hibou", "nfa_analyze", "x.hsf", "x.hif", "x.htf"]);
    let m = m.subcommand_matches("nfa_analyze").unwrap();
    let n = pick(if DEEP { 4 } else { 3 });
    let small = n < 2;
    let i = Gen::new(if small { Cfg { lfs: 2, msgs: 2, leaves: EM | RC | SYN, ops: STRICT | PAR, msgs_distinct: false } } else { Cfg { lfs: 2, msgs: 1, leaves: EM | SYN, ops: BIN | LOOPALL, msgs_distinct: false } }).int(if small { pick(2) } else { 1 });
    show("interaction", &i);
    let mut t: Trace = vec![];
    let k = pick(n + 1);
    while (t.len() as u64) < n {
        let a = action(if small { 2 } else { 1 });
        // at most one synchronous letter, also one that the model does not have
        let x = if t.len() as u64 + 1 == k { let o = TraceAction::new(1 - a.lf_id, if flag() { TraceActionKind::Emission } else { TraceActionKind::Reception }, a.ms_id); BTreeSet::from([a, o]) } else { BTreeSet::from([a]) };
        t.push(x);
    }
    show("trace", &t);
    let w: Vec<u16> = t.iter().map(code_of).collect();
    vio::supply(names(), Some(i.clone()), Some((CoLocalizations::new(vec![BTreeSet::from([0, 1, 2])]), vec![t])));
    let (out, code) = cli_nfa_ana(m);
    show("printed", &out);
    check(code == 0, "runs");
    let v = line(&out, "verdict : ").unwrap();
    let ok = v == "'re-enacted trace without deviations'";
    check(ok || v == "'failed to re-enact trace'", "a verdict");
    if ok { cover("re-enacted"); } else { cover("not re-enacted"); }
    check(ok == runs(&i, &w, 0), "a trace is re-enacted exactly when the model can execute it");
}
