//! Pruning, avoidance, involvement and elimination of lifelines.
use super::den::*;
use super::gen::*;
use super::DEEP;
use crate::core::language::avoid::avoids::AvoidsLifelines;
use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
use crate::core::language::involve::involves::InvolvesLifelines;
use crate::core::language::prune::prunable::LifelinePrunable;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use std::collections::BTreeSet;
use vsym::*;

fn cfg(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 2, leaves, ops, msgs_distinct: false } }
fn distinct(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: LFS, msgs: 2, leaves, ops, msgs_distinct: true } }
/// a set of lifelines: one or two of the three (symbolic; the two may coincide), sometimes none
fn lifelines(none: bool, c: &Cfg) -> (BTreeSet<usize>, Vec<usize>) {
    let mut s = BTreeSet::new();
    let mut v = vec![];
    let n = if none && flag() { 0 } else if c.lfs == 2 { 1 } else { 2 };
    let mut k = 0;
    while k < n { let l = sym(0, c.lfs - 1) as usize; s.insert(l); v.push(l); k += 1; }
    (s, v)
}
/// length of some shortest behaviour that avoids the lifelines (written from the semantics, on the structure)
fn can_avoid(i: &Interaction, m: u16) -> bool {
    match i {
        Interaction::Empty | Interaction::Loop(_, _) => true,
        Interaction::Emission(em) => {
            let mut b = lfbit(em.origin_lf_id);
            for t in &em.targets { if let EmissionTargetRef::Lifeline(l) = t { b = b | lfbit(*l); } }
            b & m == 0
        }
        Interaction::Reception(rc) => { let mut b = 0u16; for l in &rc.recipients { b = b | lfbit(*l); } b & m == 0 }
        Interaction::Alt(a, b) => can_avoid(a, m) | can_avoid(b, m),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => can_avoid(a, m) & can_avoid(b, m),
    }
}
fn prune(c: Cfg, n: u64, word: Word) { prune_of(c, Gen::new(c).int(n), word) }
fn prune_of(c: Cfg, i: Interaction, word: Word) {
    let (s, v) = lifelines(c.ops == 0, &c);
    show("interaction", &i);
    show("lifelines", &s);
    let d = den(&i, &word);
    let k = word.n;
    let avoids = i.avoids_all_of(&s);
    let mut m = 0u16;
    for l in &v { m = m | lfbit(*l); }
    let has_sync = c.ops & SYNC != 0;
    check(avoids == can_avoid(&i, m), "avoidance is decided by whether some behaviour leaves the lifelines alone");
    if avoids {
        cover("avoidable");
        let r = i.prune(&s);
        show("pruned", &r);
        let e = den(&r, &word);
        let mut clean = true;
        let mut all = true;
        let mut p = 0;
        loop {
            let f = (1usize << p) - 1;
            all = all & (e[f] == (d[f] & clean));
            if p == k { break; }
            clean = clean & !touches(&word, p, &v);
            p += 1;
        }
        check(all, "the pruned model keeps exactly the behaviours that leave the lifelines alone");
        if r == i { cover("pruning changes nothing"); } else { cover("pruning changes the model"); }
        let (r2, aff) = i.prune_with_affected(&s);
        if r2 != r {
            let e2 = den(&r2, &word);
            let mut all = true;
            let mut p = 0;
            while p <= k { let f = (1usize << p) - 1; all = all & (e[f] == e2[f]); p += 1; }
            check(all, "both pruning functions keep the same behaviours");
        }
    } else {
        cover("not avoidable");
        let mut clean = true;
        let mut all = true;
        let mut p = 0;
        loop {
            let f = (1usize << p) - 1;
            all = all & !(d[f] & clean);
            if p == k { break; }
            clean = clean & !touches(&word, p, &v);
            p += 1;
        }
        check(all, "a model that cannot avoid the lifelines has no behaviour that leaves them alone");
    }
    // involvement
    let inv = i.involved_lifelines();
    let mut im = 0u16;
    for l in &inv { im = im | lfbit(*l); }
    let mut p = 0;
    let mut good = true;
    let mut all = 0u16;
    while p <= k {
        let f = (1usize << p) - 1;
        good = good & (!d[f] | (all & !im == 0));
        if p < k { all = all | word.lfs[p]; }
        p += 1;
    }
    check(good, "every lifeline of a behaviour is among the involved lifelines");
    check(i.involves_any_of(&s) == (im & m != 0), "involvement of a set is a non-empty intersection");
}
pub fn prune0() { prune(Cfg { lfs: LFS, msgs: 1, leaves: EMPTY | EM | RC | MSG | SYN | RC2 | BC | RSYN | GATES | SYNN, ops: 0, msgs_distinct: false }, 0, Word::any(3, 1)) }
pub fn prune1() { prune(cfg(EMPTY | EM | MSG | SYN, BIN | LOOPALL), 1, Word::any(3, 2)) }
pub fn prune2() { prune(distinct(if DEEP { EMPTY | EM } else { EM }, BIN | LOOPALL), 2, Word::any_single(3, 3)) }
pub fn prune_sync() { prune(cfg(EMPTY | EM | RC, SYNC), 1, Word::any_single(3, 2)) }
pub fn prune_sync2() { prune(cfg(EM, SYNC | if DEEP { SEQ | ALT | LOOPS | PAR } else { LOOPS | ALT }), 2, Word::any_single(3, 2)) }

fn elim(c: Cfg, n: u64, word: Word) { elim_of(c, Gen::new(c).int(n), word) }
fn elim_of(c: Cfg, i: Interaction, word: Word) {
    let (s, v) = lifelines(c.ops == 0, &c);
    show("interaction", &i);
    show("lifelines", &s);
    let r = i.eliminate_lifelines(&s);
    show("result", &r);
    let k = word.n;
    let e = den(&r, &word);
    // exactly the model with those actions deleted
    let d = den(&erase(&i, &v), &word);
    let mut all = true;
    let mut p = 0;
    while p <= k { let f = (1usize << p) - 1; all = all & (e[f] == d[f]); p += 1; }
    check(all, "removing lifelines gives exactly the behaviours of the model without their actions");
    for l in &v { check(!r.involves_any_of(&BTreeSet::from([*l])), "removed lifelines do not occur any more"); }
    if r == i { cover("nothing removed"); } else { cover("something removed"); }
}
/// no behaviour is lost: the projection of each behaviour is a behaviour of the reduced model
fn project(c: Cfg, n: u64, word: Word) {
    let i = Gen::new(c).int(n);
    let (s, v) = lifelines(c.ops == 0, &c);
    show("interaction", &i);
    show("lifelines", &s);
    let r = i.eliminate_lifelines(&s);
    show("result", &r);
    let k = word.n;
    let d = den(&i, &word);
    let e = den(&r, &word);
    let mut good = true;
    let mut tch = [false; 4];
    let mut q = 0;
    while q < k { tch[q] = touches(&word, q, &v); q += 1; }
    let mut p = 0;
    while p <= k {
        let f = (1usize << p) - 1;
        let mut m = 0;
        while m <= f {
            let mut same = d[f];
            let mut q = 0;
            while q < p { same = same & if m >> q & 1 == 1 { !tch[q] } else { tch[q] }; q += 1; }
            good = good & (!same | e[m]);
            m += 1;
        }
        p += 1;
    }
    check(good, "the projection of every behaviour is a behaviour of the reduced model");
    if r != i { cover("something removed"); }
}
pub fn elim0() { elim(Cfg { lfs: LFS, msgs: 1, leaves: EMPTY | EM | RC | MSG | SYN | RC2 | BC | RSYN | GATES | SYNN, ops: 0, msgs_distinct: false }, 0, Word::any(3, 1)) }
pub fn elim1() { elim(cfg(EMPTY | EM | MSG | RC, BIN | LOOPALL), 1, Word::any_single(3, 2)) }
pub fn elim2() { elim(distinct(if DEEP { EM | MSG | EMPTY } else { EM }, BIN | LOOPALL), 2, Word::any_single(3, 3)) }
pub fn elim_sync() { elim(cfg(EMPTY | EM | RC, SYNC), 1, Word::any_single(3, 2)) }
pub fn project1() { project(cfg(EMPTY | EM | MSG | RC2, BIN | LOOPALL), 1, Word::any_single(3, 2)) }
pub fn project2() { project(distinct(EM, BIN | LOOPALL), 2, Word::any_single(3, 3)) }
pub fn project_sync() { project(cfg(EMPTY | EM | RC, SYNC), 1, Word::any_single(3, 2)) }
pub fn prune_nested() { let c = distinct(EM, STRICT | if DEEP { ALT | SEQ | PAR } else { 0 }); prune_of(c, Gen::new(c).nested_loops(2), Word::any_single(4, 3)) }
fn small(ops: u32) -> Cfg { Cfg { lfs: 2, msgs: 2, leaves: EM, ops, msgs_distinct: true } }
pub fn prune3_small() { prune(small(SEQ | STRICT | ALT | PAR | COREG | LOOPW), 3, Word::any_single(2, 4)) }
pub fn elim3_small() { elim(small(SEQ | STRICT | ALT | PAR | COREG | LOOPW), 3, Word::any_single(3, 4)) }
/// an operator with a part that is pruned to nothing next to a part with two operators
fn half_empty() -> (Cfg, Interaction) {
    let c = distinct(EM, STRICT | SEQ | ALT | LOOPS | if DEEP { PAR | LOOPW | LOOPH | LOOPP | COREG } else { 0 });
    let mut g = Gen::new(c);
    let a = Box::new(if !DEEP || flag() { Interaction::Empty } else { Interaction::Loop(LoopKind::SStrictSeq, Box::new(g.leaf())) });
    let b = Box::new(g.int(2));
    let (x, y) = if flag() { (a, b) } else { (b, a) };
    (c, match pick(if DEEP { 4 } else { 2 }) { 0 => Interaction::Alt(x, y), 1 => Interaction::Seq(x, y), 2 => Interaction::Strict(x, y), _ => Interaction::Par(x, y) })
}
pub fn prune_half() { let (c, i) = half_empty(); prune_of(c, i, Word::any_single(2, 4)) }
pub fn elim_half() { let (c, i) = half_empty(); elim_of(c, i, Word::any_single(2, 4)) }
pub fn prune_wide_coreg() { let c = distinct(EM, STRICT | ALT | LOOPW); prune_of(c, Gen::new(c).wide_coreg(), Word::any_single(3, 3)) }
pub fn elim_nested() { let c = distinct(EM, STRICT | if DEEP { ALT | SEQ | PAR } else { 0 }); elim_of(c, Gen::new(c).nested_loops(3), Word::any_single(4, 3)) }
pub fn elim_wide_coreg() { let c = distinct(EM, STRICT | ALT | LOOPW); elim_of(c, Gen::new(c).wide_coreg(), Word::any_single(3, 3)) }
