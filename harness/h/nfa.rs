//! Translation of models into automata.
use super::den::*;
use super::gen::*;
use super::DEEP;
use std::collections::BTreeSet;
use autour_core::nfa::nfa::AutNFA;
use autour_core::traits::access::AutAccessible;
use autour_core::traits::transform::AutTransformable;
use autour_core::traits::translate::AutTranslatable;
use crate::core::execution::trace::trace::TraceAction;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::nfa_translation::alphabet::*;
use crate::nfa_translation::compositional::*;
use crate::nfa_translation::get_nfa_from_logger::*;
use vsym::*;

fn names() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in ["m", "n"] { g.add_msg(n.to_string()); }
    g
}
fn code_of(b: &BTreeSet<TraceAction>) -> u16 {
    let mut bits = 0; let mut ms = 0;
    for a in b { bits |= bit(a.lf_id, &a.act_kind); ms = a.ms_id; }
    letter(ms, bits)
}
/// whether the automaton accepts the word
fn run(a: &AutNFA<usize>, alpha: &Vec<u16>, w: &Word) -> bool {
    let mut cur = vec![false; a.transitions.len()];
    for s in &a.initials { cur[*s] = true; }
    let mut k = 0;
    while k < w.n {
        let mut next = vec![false; cur.len()];
        let mut s = 0;
        while s < cur.len() {
            if !known_false(cur[s]) { for (l, ts) in &a.transitions[s] { let x = cur[s] & (alpha[*l] == w.code[k]); for t in ts { next[*t] = next[*t] | x; } } }
            s += 1;
        }
        cur = next;
        k += 1;
    }
    let mut r = false;
    for s in &a.finals { r = r | cur[*s]; }
    r
}
fn well_formed(a: &AutNFA<usize>, alpha: &Vec<u16>) {
    for t in &a.transitions { for (l, _) in t { check(*l < alpha.len() && a.alphabet.contains(l), "transitions are labelled with letters of the alphabet"); } }
    for l in &a.alphabet { check(*l < alpha.len(), "the alphabet is the one asked for"); }
}
fn exact(i: &Interaction, a: &AutNFA<usize>, alpha: &Vec<u16>, upto: usize, all: bool) {
    well_formed(a, alpha);
    let mut n = 0;
    while n <= upto {
        let w = Word::any(n, 2);
        let (r, d) = (run(a, alpha, &w), den(i, &w)[w.full()]);
        check(!r | d, "the automaton accepts only behaviours of the model");
        if all { check(r | !d, "the automaton accepts every behaviour of the model"); }
        n += 1;
    }
    if !a.finals.is_empty() { cover("an automaton that accepts something"); }
}
fn cfg(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: 2, msgs: 2, leaves, ops, msgs_distinct: false } }
fn explored(i: &Interaction, g: &GeneralContext) -> (AutNFA<usize>, Vec<BTreeSet<TraceAction>>, Vec<u16>) {
    let mut b = get_alphabet_from_gen_ctx(g);
    let (a, _) = get_nfa_from_interaction_exploration_extending_alphabet(g, i, &mut b);
    let c = b.iter().map(code_of).collect();
    show("alphabet", &b);
    show("automaton", &a);
    (a, b, c)
}
pub fn explored1() {
    let k = pick(2);
    let i = Gen::new(cfg(EM | RC | MSG | SYN | RSYN | BC | EMPTY, BIN | LOOPALL)).int(k);
    show("interaction", &i);
    let (a, _, c) = explored(&i, &names());
    exact(&i, &a, &c, if k == 0 { 3 } else { 2 }, true);
}
/// also determinised and minimised as `hibou glosem` does
pub fn minimal() {
    let k = 1 + pick(if DEEP { 2 } else { 1 });
    let i = Gen::new(if flag() { cfg(EM | SYN | MSG, BIN | LOOPS) } else { cfg(EM | RC, BIN | LOOPS | SYNC) }).int(k);
    show("interaction", &i);
    let (a, _, l) = explored(&i, &names());
    exact(&i, &a.to_dfa().minimize().to_nfa(), &l, 2, true);
}
/// strict loops: everything is accepted
pub fn explored2() {
    let mut c = cfg(if DEEP { EM | SYN | MSG } else { EM }, STRICT | SEQ | ALT | PAR | COREG | LOOPS); if !DEEP { c.msgs = 1; }
    let i = Gen::new(c).int(2);
    show("interaction", &i);
    let (a, _, l) = explored(&i, &names());
    exact(&i, &a, &l, 3, true);
}
pub fn explored4() {
    let mut c = cfg(EM, STRICT | ALT | LOOPS); c.msgs = 1; if DEEP { c.ops |= SEQ | PAR; }
    let i = Gen::new(c).int(3);
    show("interaction", &i);
    let (a, _, l) = explored(&i, &names());
    exact(&i, &a, &l, 4, true);
}
/// loops that have no finite automaton: what is accepted is right, and few iterations are covered
pub fn explored3() {
    let mut c = cfg(EM | MSG | RC, STRICT | SEQ | LOOPH | LOOPW | LOOPP | SYNC); c.msgs = 1;
    if !DEEP { c.leaves = EM | RC; }
    let i = Gen::new(c).int(2);
    show("interaction", &i);
    let (a, _, l) = explored(&i, &names());
    exact(&i, &a, &l, 3, false);
}
/// by composition
pub fn composed() {
    let k = pick(3);
    let mut c = cfg(EM | RC | MSG | SYN | EMPTY, BIN | LOOPALL); 
    if k == 2 { c = cfg(EM | SYN, STRICT | SEQ | ALT | PAR | LOOPS); if !DEEP { c.leaves = EM; } c.msgs = 1; }
    let i = Gen::new(c).int(k);
    show("interaction", &i);
    let g = names();
    let (_, b, l) = explored(&i, &g);
    let (a, _) = get_nfa_from_interaction_via_composition(&g, &i, if flag() { b } else { get_alphabet_from_gen_ctx(&g) });
    show("composed", &a);
    exact(&i, &a, &l, 2, true);
}
