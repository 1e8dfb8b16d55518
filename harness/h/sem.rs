//! Small steps against the denotational semantics.
use super::den::*;
use super::gen::*;
use super::DEEP;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::language::syntax::interaction::*;
use vsym::*;

pub const ALLLEAVES: u32 = EMPTY | EM | RC | MSG | SYN | RC2 | BC | RSYN | SYNN;

fn steps(c: Cfg, n: u64, word: Word) { steps_of(Gen::new(c).int(n), word) }
fn steps_of(i: Interaction, word: Word) {
    show("interaction", &i);
    let k = word.n;
    // the analysis and the exploration use both readings of alternatives
    let delayed = sym(0, 1) == 1;
    let want = den(&i, &word);
    check(want[0] == i.express_empty(), "the model accepts the empty behaviour exactly when it says so");
    let frt = global_frontier(&i, delayed);
    if !frt.is_empty() { cover("some action can occur"); }
    let mut got = [false; 16];
    for fe in &frt {
        let c = code_of(&fe.target_actions);
        let mut l = 0u16;
        for x in &fe.target_lf_ids { l = l | lfbit(*x); }
        check(l == lfs_of(c), "the target lifelines of a frontier element are those of its actions");
        let r = execute_interaction(&i, &fe.position, &fe.target_lf_ids, false);
        show("follow-up", &r.interaction);
        if r.interaction != Interaction::Empty { cover("a follow-up is not empty"); }
        let d = den(&r.interaction, &word);
        let mut p = 1;
        while p <= k { let m = (1usize << p) - 1; got[m] = got[m] | ((word.code[0] == c) & d[m & !1]); p += 1; }
    }
    note(frt.len() as u64);
    let mut all = true;
    let mut p = 1;
    while p <= k { let m = (1usize << p) - 1; all = all & (got[m] == want[m]); p += 1; }
    check(all, "the small steps accept exactly the behaviours of the model");
}
fn cfg(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 2, leaves, ops, msgs_distinct: false } }
fn distinct(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 2, leaves, ops, msgs_distinct: true } }

pub fn step0() { steps(Cfg { lfs: LFS, msgs: 1, leaves: ALLLEAVES | GATES, ops: 0, msgs_distinct: false }, 0, Word::any(3, 1)) }
pub fn step1() { let k = if DEEP { 4 } else { 3 }; steps(cfg(ALLLEAVES, BIN | LOOPALL), 1, Word::any(k, 2)) }
pub fn step2() { let k = if DEEP { 4 } else { 3 }; steps(distinct(EMPTY | EM, BIN | LOOPALL), 2, Word::any_single(k, 3)) }
/// the same message in several places
pub fn step2_same() { steps(cfg(if DEEP { EMPTY | EM | RC } else { EM }, ALT | SEQ | PAR | LOOPS), 2, Word::any_single(3, 2)) }
pub fn sync1() { steps(cfg(EMPTY | EM | MSG | RC, SYNC), 1, Word::any_single(3, 2)) }
pub fn sync2() { steps(cfg(if DEEP { EMPTY | EM | MSG } else { EM | EMPTY }, if DEEP { SYNC | BIN | LOOPALL } else { SYNC | SEQ | LOOPS | ALT }), 2, Word::any_single(3, 2)) }
/// products where several actions of one side synchronise with the same one of the other side, with different follow-ups
fn sync_deep() -> Interaction {
    let mut g = Gen::new(cfg(EM, if DEEP { SEQ | ALT | PAR | LOOPS } else { SEQ | ALT }));
    let a = Box::new(g.leaf());
    let b = Box::new(g.int(2));
    let s = vec![crate::core::execution::trace::trace::TraceAction::new(g.lf(), crate::core::execution::trace::trace::TraceActionKind::Emission, 0)];
    if flag() { Interaction::Sync(s, a, b) } else { Interaction::Sync(s, b, a) }
}
pub fn sync3() { steps_of(sync_deep(), Word::any_single(2, 2)) }
pub fn affected_sync3() { affected_of(sync_deep(), Word::any_single(2, 2)) }
/// products of communications of several simultaneous actions, some of which are synchronised:
/// both sides move together exactly when they perform the same synchronised actions, and then perform all their actions
pub fn sync_letters() {
    use crate::core::execution::trace::trace::*;
    let mut g = Gen::new(cfg(SYN | RSYN | SYNN, 0));
    let (a, b) = (g.leaf(), g.leaf());
    let mut s = vec![];
    let mut codes = [0u16; 2];
    let mut k = 0;
    while k < 2 {
        let (l, m) = (g.lf(), sym(0, 1) as usize);
        let kind = if k == 0 { TraceActionKind::Emission } else { TraceActionKind::Reception };
        codes[k] = letter(m, bit(l, &kind));
        s.push(TraceAction::new(l, kind, m));
        k += 1;
    }
    let one = |i: &Interaction| { let f = global_frontier(i, false); check(f.len() == 1, "a communication is one step"); code_of(&f[0].target_actions) };
    let (x, y) = (one(&a), one(&b));
    let inter = |c: u16| { let mut r = 0u16; for d in &codes { if (*d >> 6 == c >> 6) & (*d & c & 63 != 0) { r = r | (*d & 63); } } r };
    let (ix, iy) = (inter(x), inter(y));
    let i = Interaction::Sync(s, Box::new(a), Box::new(b));
    show("interaction", &i);
    let delayed = flag();
    let f = global_frontier(&i, delayed);
    let mut want = vec![];
    if ix == 0 { want.push(x); }
    if iy == 0 { want.push(y); }
    if (ix != 0) & (iy != 0) { if (ix == iy) & (x >> 6 == y >> 6) { want.push(x | y); cover("both sides at once"); } else { cover("different synchronised actions"); } }
    check(f.len() == want.len(), "both sides move at once exactly when they perform the same synchronised actions");
    let (mut k, mut sum) = (0, 0u32);
    for e in &f {
        let c = code_of(&e.target_actions);
        sum += c as u32;
        let other = if want.len() == 2 && c == want[0] { want[1] } else { want[0] };
        check(c == want[0] || (want.len() == 2 && c == want[1]), "a step of the product performs the actions of the sides that move");
        let r = execute_interaction(&i, &e.position, &e.target_lf_ids, flag()).interaction;
        let rest = global_frontier(&r, delayed);
        if (ix == 0) & (iy == 0) {
            cover("independent");
            check(rest.len() == 1 && code_of(&rest[0].target_actions) == other, "the other side goes on on its own");
        } else { check(rest.is_empty() && r.express_empty() == ((ix != 0) & (iy != 0)), "nothing remains after both sides have moved, a blocked side remains blocked"); }
        k += 1;
    }
    check(want.iter().fold(0, |s, x| s + *x as u32) == sum, "a step of the product performs the actions of the sides that move");
    note(k as u64);
}
/// alternatives in which one action of one side is the same as several of the other side
pub fn alt3() {
    let mut c = cfg(EM, SEQ | STRICT | PAR | ALT | if DEEP { LOOPS | LOOPP } else { 0 }); c.lfs = 2;
    let mut g = Gen::new(c);
    let a = Box::new(g.leaf());
    let b = Box::new(g.int(2));
    steps_of(if flag() { Interaction::Alt(a, b) } else { Interaction::Alt(b, a) }, Word::any_single(3, 2))
}
fn small(ops: u32) -> Cfg { Cfg { lfs: 2, msgs: 2, leaves: EM, ops, msgs_distinct: true } }
pub fn step3_small() { steps(small(SEQ | STRICT | ALT | PAR | COREG | LOOPW), 3, Word::any_single(3, 4)) }
pub fn affected3_small() { affected(small(SEQ | STRICT | ALT | PAR | COREG | LOOPW), 3, Word::any_single(2, 4)) }
/// deeper shapes, one action kind
pub fn step3() { steps(distinct(EM, BIN | LOOPALL), 3, Word::any_single(4, 4)) }

fn affected(c: Cfg, n: u64, word: Word) { affected_of(Gen::new(c).int(n), word) }
fn affected_of(i: Interaction, word: Word) {
    show("interaction", &i);
    let k = word.n;
    let frt = global_frontier(&i, false);
    if frt.is_empty() { return; }
    let e = pick(frt.len() as u64) as usize;
    let fe = &frt[e];
    show("step", fe);
    let r0 = execute_interaction(&i, &fe.position, &fe.target_lf_ids, false);
    let r1 = execute_interaction(&i, &fe.position, &fe.target_lf_ids, true);
    show("follow-up", &r0.interaction);
    show("follow-up when also computing the affected lifelines", &r1.interaction);
    show("affected", &r1.affected_lifelines);
    if r0.interaction == r1.interaction { cover("same follow-up"); }
    else {
        let (a, b) = (den(&r0.interaction, &word), den(&r1.interaction, &word));
        let mut all = true;
        let mut p = 0;
        while p <= k { let m = (1usize << p) - 1; all = all & (a[m] == b[m]); p += 1; }
        check(all, "computing the affected lifelines does not change the follow-up");
    }
    // a lifeline which is not affected keeps its local behaviours: words over that lifeline only
    let mut aff = 0u16;
    for x in &r1.affected_lifelines { aff = aff | lfbit(*x); }
    let mut l = 0;
    while l < LFS as usize {
        let on = aff & lfbit(l) != 0;
        if on { cover("affected lifeline"); } else {
            cover("unaffected lifeline");
            let (a, b) = (den_on(&i, &word, l), den_on(&r1.interaction, &word, l));
            let mut only = true;
            let mut all = true;
            let mut p = 0;
            loop {
                let m = (1usize << p) - 1;
                all = all & (!only | (a[m] == b[m]));
                if p == k { check(all, "a lifeline that is not reported affected keeps its local behaviours"); break; }
                only = only & (word.lfs[p] == lfbit(l));
                p += 1;
            }
        }
        l += 1;
    }
}
/// local behaviours of one lifeline: the actions of the others are erased
fn den_on(i: &Interaction, w: &Word, l: usize) -> Tab {
    let mut gone = std::vec::Vec::new();
    let mut x = 0;
    while x < LFS as usize { if x != l { gone.push(x); } x += 1; }
    den(&super::den::erase(i, &gone), w)
}
pub fn affected1() { affected(cfg(EMPTY | EM | MSG | RC2, BIN | LOOPALL), 1, Word::any_single(3, 2)) }
pub fn affected2() { affected(distinct(if DEEP { EMPTY | EM | MSG } else { EM }, BIN | LOOPALL), 2, Word::any_single(3, 3)) }
pub fn affected_sync() { affected(cfg(EMPTY | EM, SYNC | SEQ), if DEEP { 2 } else { 1 }, Word::any_single(3, 2)) }
pub fn affected_sync2() { affected(cfg(EM, SYNC | SEQ), 2, Word::any_single(3, 2)) }
/// synchronous communications inside and after co-regions: the follow-up prunes part of the lifelines only
fn coreg_syn() -> Interaction {
    let mut g = Gen::new(distinct(EM | SYN, if DEEP { LOOPALL | ALT } else { LOOPW | ALT }));
    let a = g.int(1);
    let mut h = Gen { c: distinct(SYN, 0), next: g.next };
    let b = h.int(0);
    let mut cr = vec![h.lf()];
    if DEEP && flag() { cr.push(h.lf()); }
    Interaction::CoReg(cr, Box::new(a), Box::new(b))
}
pub fn affected2_syn() { affected_of(coreg_syn(), Word::any(3, 3)) }
pub fn step2_syn() { steps_of(coreg_syn(), Word::any(3, 3)) }
/// loops in loops, long enough words to see the difference between the kinds of loops
pub fn nested() { steps_of(Gen::new(distinct(EM, STRICT | ALT | if DEEP { SEQ | PAR } else { 0 })).nested_loops(3), Word::any_single(4, 3)) }
pub fn wide_coreg() { steps_of(Gen::new(distinct(EM, STRICT | ALT | LOOPW | SEQ)).wide_coreg(), Word::any_single(3, 3)) }
pub fn affected_wide_coreg() { affected_of(Gen::new(distinct(EM, ALT | LOOPW | PAR)).wide_coreg(), Word::any_single(3, 3)) }
