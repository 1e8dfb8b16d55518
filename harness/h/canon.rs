//! The whole canonization process (graph exploration, memoization, phases).
use super::den::*;
use super::gen::*;
use super::transfo::*;
use super::DEEP;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::*;
use crate::nfa_translation::canonize::canonize_interaction;
use crate::process::canon::param::default::DefaultCanonizationProcess as P;
use vsym::*;

fn context() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in ["m", "n", "o", "p"] { g.add_msg(n.to_string()); }
    g
}
fn process(n: u64) -> P { match n { 0 => P::Basic, 1 => P::BasicWithToSeq, _ => P::FivePhases } }
fn canon(i: Interaction, p: u64, word: Word) {
    show("interaction", &i);
    let k = word.n;
    let ctx = context();
    let r = canonize_interaction(&ctx, &i, process(p));
    show("canonical form", &r);
    if r == i { cover("already canonical"); } else {
        cover("rewritten");
        check(same(&den(&i, &word), &den(&r, &word), k), "the canonical form has the behaviours of the original");
    }
    let last = process(p).get_phases().pop().unwrap();
    check(last.get_transfos(&r, false).is_empty(), "the canonical form cannot be rewritten any further");
}
fn shared(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: if DEEP { LFS } else { 2 }, msgs: 1, leaves, ops, msgs_distinct: false } }
pub fn basic() { let mut c = shared(EM | EMPTY, BIN | LOOPALL); c.msgs_distinct = true; let i = Gen::new(c).int(2); canon(i, 0, Word::any_single(3, 3)) }
pub fn basic_same() { let i = Gen::new(shared(EM | EMPTY, ALT | PAR | COREG | LOOPP)).int(2); canon(i, 0, Word::any_single(3, 1)) }
pub fn toseq() { let i = Gen::new(shared(EM | MSG, STRICT | PAR | LOOPS | ALT)).int(2); canon(i, 1, Word::any_single(3, 1)) }
pub fn five() { let i = Gen::new(shared(EM | EMPTY, STRICT | SEQ | ALT | PAR | LOOPW)).int(2); canon(i, 2, Word::any_single(3, 1)) }
pub fn five_alt() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM, ops: STRICT | SEQ | PAR, msgs_distinct: false });
    let (a, b) = (g.int(1), g.int(1));
    canon(Interaction::Alt(Box::new(a), Box::new(b)), 2, Word::any_single(3, 1))
}
pub fn five3() {
    let mut g = Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM, ops: STRICT | PAR | if DEEP { SEQ | COREG } else { 0 }, msgs_distinct: false });
    let (a, b) = (g.int(1), g.int(1));
    let c = g.leaf();
    canon(Interaction::Alt(Box::new(a), Box::new(Interaction::Alt(Box::new(b), Box::new(c)))), 2, Word::any_single(3, 1))
}
