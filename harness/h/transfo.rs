//! Rewriting of interactions: every result of every transformation has the behaviours of the original.
use super::den::*;
use super::gen::*;
use super::DEEP;
use crate::core::language::position::position::Position;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::core::transformation::transfophase::InteractionTransformationPhase;
use crate::core::transformation::transfokind::InteractionTransformationKind as K;
use vsym::*;

fn kinds() -> Vec<K> {
    vec![K::Simpl, K::FlushRight, K::InvertAlt, K::InvertPar, K::Deduplicate, K::FactorizePrefixStrict, K::FactorizePrefixSeq, K::FactorizeCommutativePar,
         K::FactorizeSuffixStrict, K::FactorizeSuffixSeq, K::DeFactorizeLeft, K::DeFactorizeRight, K::LoopSimpl, K::LoopUnNest, K::SortActionContent, K::StrictToSeq, K::ParToSeq, K::UnfoldActions]
}
fn label(k: &K) -> &'static str {
    match k {
        K::Simpl => "Simpl keeps the behaviours", K::FlushRight => "FlushRight keeps the behaviours", K::InvertAlt => "InvertAlt keeps the behaviours", K::InvertPar => "InvertPar keeps the behaviours",
        K::Deduplicate => "Deduplicate keeps the behaviours", K::FactorizePrefixStrict => "FactorizePrefixStrict keeps the behaviours", K::FactorizePrefixSeq => "FactorizePrefixSeq keeps the behaviours",
        K::FactorizeCommutativePar => "FactorizeCommutativePar keeps the behaviours", K::FactorizeSuffixStrict => "FactorizeSuffixStrict keeps the behaviours", K::FactorizeSuffixSeq => "FactorizeSuffixSeq keeps the behaviours",
        K::DeFactorizeLeft => "DeFactorizeLeft keeps the behaviours", K::DeFactorizeRight => "DeFactorizeRight keeps the behaviours", K::LoopSimpl => "LoopSimpl keeps the behaviours", K::LoopUnNest => "LoopUnNest keeps the behaviours",
        K::SortActionContent => "SortActionContent keeps the behaviours", K::StrictToSeq => "StrictToSeq keeps the behaviours", K::ParToSeq => "ParToSeq keeps the behaviours", K::UnfoldActions => "UnfoldActions keeps the behaviours",
    }
}
pub fn same(a: &Tab, b: &Tab, k: usize) -> bool {
    let mut all = true;
    let mut p = 0;
    while p <= k { let f = (1usize << p) - 1; all = all & (a[f] == b[f]); p += 1; }
    all
}
pub fn has_syn(i: &Interaction) -> bool {
    match i {
        Interaction::Emission(e) => e.synchronicity == CommunicationSynchronicity::Synchronous,
        Interaction::Reception(r) => r.synchronicity == CommunicationSynchronicity::Synchronous,
        Interaction::Alt(a, b) | Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => has_syn(a) || has_syn(b),
        Interaction::Loop(_, a) => has_syn(a),
        Interaction::Empty => false,
    }
}
/// each transformation offered anywhere in the term, one at a time
fn all_of(i: Interaction, word: Word, ks: &Vec<K>) {
    show("interaction", &i);
    let k = word.n;
    let d = den(&i, &word);
    let syn = has_syn(&i);
    let res = InteractionTransformationPhase::new(ks.clone()).get_transfos(&i, true);
    note(res.len() as u64);
    let one = InteractionTransformationPhase::new(ks.clone()).get_transfos(&i, false).pop();
    check(one.is_some() == !res.is_empty(), "one transformation is offered exactly when there is any");
    for r in &res {
        show("transformation", &r.kind);
        show("position", &r.position);
        show("result", &r.result);
        let e = den(&r.result, &word);
        let s = same(&d, &e, k);
        // UnfoldActions splits a synchronous communication into separate actions: known
        if r.kind == K::UnfoldActions && syn { if !s { cover("KF:unfold-synchronous"); } }
        else { check(s, label(&r.kind)); cover(label(&r.kind)); }
    }
    if let Some(r) = &one {
        show("the one transformation", &r.kind);
        show("result", &r.result);
        let e = den(&r.result, &word);
        let s = same(&d, &e, k);
        if !(r.kind == K::UnfoldActions && syn) { check(s, label(&r.kind)); }
    }
}
fn shared(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 1, leaves, ops, msgs_distinct: false } }
fn distinct(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 2, leaves, ops, msgs_distinct: true } }
const ALL: u32 = EMPTY | EM | RC | MSG | SYN | RC2 | BC | RSYN | SYNN;

pub fn t0() { let i = Gen::new(shared(ALL | GATES, 0)).int(0); all_of(i, Word::any(3, 1), &kinds()) }
pub fn t1() { let i = Gen::new(distinct(EMPTY | EM | RC | MSG | RC2 | BC, BIN | LOOPALL)).int(1); all_of(i, Word::any_single(3, 2), &kinds()) }
pub fn t1_syn() { let i = Gen::new(distinct(EM | SYN | RSYN, BIN | LOOPALL)).int(1); all_of(i, Word::any(2, 2), &kinds()) }
pub fn t2() { let i = Gen::new(shared(if DEEP { EM | EMPTY } else { EM }, BIN | LOOPALL)).int(2); all_of(i, Word::any_single(3, 1), &kinds()) }
pub fn t2_empty() { let i = Gen::new(shared(EM | EMPTY, STRICT | SEQ | PAR | COREG | LOOPS | ALT)).int(2); all_of(i, Word::any_single(3, 1), &vec![K::Simpl, K::LoopSimpl, K::FactorizeCommutativePar, K::Deduplicate]) }
pub fn t2_sync() { let i = Gen::new(shared(EM | EMPTY, SYNC | SEQ | ALT)).int(2); all_of(i, Word::any_single(3, 1), &kinds()) }
/// alternatives of two composed branches: factorisation and its inverse, duplicates, order
pub fn factor() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM, ops: STRICT | SEQ | PAR | COREG, msgs_distinct: false });
    let (a, b) = (g.int(1), g.int(1));
    let i = Interaction::Alt(Box::new(a), Box::new(b));
    all_of(i, Word::any_single(3, 1), &kinds())
}
pub fn factor3() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM | if DEEP { EMPTY } else { 0 }, ops: STRICT | SEQ | PAR, msgs_distinct: false });
    let (a, b) = (g.int(1), g.int(1));
    let c = g.leaf();
    let i = if flag() { Interaction::Alt(Box::new(a), Box::new(Interaction::Alt(Box::new(b), Box::new(c)))) } else { Interaction::Alt(Box::new(Interaction::Alt(Box::new(c), Box::new(a))), Box::new(b)) };
    all_of(i, Word::any_single(3, 1), &kinds())
}
/// what may be relaxed from strict to weak sequencing
pub fn relax() {
    let mut g = Gen::new(Cfg { lfs: LFS, msgs: 2, leaves: EM | MSG | RC2 | if DEEP { EMPTY } else { 0 }, ops: if DEEP { BIN | LOOPALL } else { SEQ | ALT | STRICT | LOOPS }, msgs_distinct: true });
    let mut a = g.int(1);
    let mut b = g.int(if DEEP { 1 } else { 0 });
    if !DEEP && flag() { std::mem::swap(&mut a, &mut b); }
    all_of(Interaction::Strict(Box::new(a), Box::new(b)), Word::any_single(4, 3), &vec![K::StrictToSeq])
}
pub fn nested() { let i = Gen::new(distinct(EM, STRICT)).nested_loops(2); all_of(i, Word::any_single(4, 3), &vec![K::LoopUnNest, K::InvertAlt]) }

fn op(k: u64, g: &mut Gen, a: Interaction, b: Interaction) -> Interaction {
    let (a, b) = (Box::new(a), Box::new(b));
    match k { 0 => Interaction::Strict(a, b), 1 => Interaction::Seq(a, b), 2 => Interaction::Par(a, b), 3 => Interaction::Alt(a, b), _ => { let x = g.lf(); if flag() { Interaction::CoReg(vec![x], a, b) } else { let y = g.lf(); assume(x < y); Interaction::CoReg(vec![x, y], a, b) } } }
}
/// three different actions under two operators, grouped either way
pub fn assoc() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM | if DEEP { EMPTY } else { 0 }, ops: 0, msgs_distinct: true });
    let (k, l) = (pick(5), pick(5));
    let (a, b, c) = (g.leaf(), g.leaf(), g.leaf());
    let i = if flag() { let x = op(k, &mut g, a, b); op(l, &mut g, x, c) } else { let x = op(k, &mut g, b, c); op(l, &mut g, a, x) };
    all_of(i, Word::any_single(3, 3), &kinds())
}
/// alternatives of which the branches share their first or last part, one of them longer than the other
pub fn factor_long() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM, ops: 0, msgs_distinct: true });
    let f = g.leaf();
    let (a, b, c) = (g.leaf(), g.leaf(), g.leaf());
    let (k, l) = (pick(3), pick(3));
    let last = flag();
    let x = if last { op(k, &mut g, a, f.clone()) } else { op(k, &mut g, f.clone(), a) };
    let m = if DEEP { pick(3) } else { l };
    let y = match (last, flag()) {
        (true, true) => { let t = op(l, &mut g, c, f); op(m, &mut g, b, t) }
        (true, false) => { let t = op(l, &mut g, b, c); op(m, &mut g, t, f) }
        (false, true) => { let t = op(l, &mut g, b, c); op(m, &mut g, f, t) }
        (false, false) => { let t = op(l, &mut g, f, b); op(m, &mut g, t, c) }
    };
    let i = if flag() { Interaction::Alt(Box::new(x), Box::new(y)) } else { Interaction::Alt(Box::new(y), Box::new(x)) };
    all_of(i, Word::any_single(3, 4), &kinds())
}
