//! Oracle: denotational semantics of interactions, as a membership table over an arbitrary word.
//! A word has up to 4 letters; a letter is a message and a non-empty set of (lifeline, kind) pairs: a
//! synchronous communication is one letter, an asynchronous action is a singleton letter.
//! `den(i, w)[m]` says whether the subsequence of `w` at the positions of mask `m` is a complete behaviour of `i`.
//! No branch depends on a symbolic value, so one table covers every word of the given length at once.
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use vsym::known_false as no;

pub const LFS: u64 = 3;
pub type Tab = [bool; 16];

pub struct Word { pub n: usize, pub code: [u16; 4], pub lfs: [u16; 4], pub conf: [[bool; 4]; 4], pub ok: Vec<bool> }

/// bit of one atomic action inside a letter (2 bits per lifeline)
pub fn bit(lf: usize, kind: &TraceActionKind) -> u16 {
    let b = lfbit(lf);
    match kind { TraceActionKind::Emission => b << 1, TraceActionKind::Reception => b }
}
pub fn lfbit(lf: usize) -> u16 { ((lf == 0) as u16) | (((lf == 1) as u16) << 2) | (((lf == 2) as u16) << 4) }
fn sel(k: u16, a: u16, b: u16) -> u16 { let m = 0u16.wrapping_sub(k); (a & m) | (b & !m) }
pub fn letter(ms: usize, bits: u16) -> u16 { ((ms as u16) << 6) | bits }
pub fn lfs_of(code: u16) -> u16 { (code | (code >> 1)) & 0b010101 }

impl Word {
    pub fn from_codes(n: usize, code: [u16; 4]) -> Word {
        let mut lfs = [0u16; 4];
        let mut p = 0;
        while p < n { lfs[p] = lfs_of(code[p]); p += 1; }
        let mut conf = [[false; 4]; 4];
        let mut p = 0;
        while p < n { let mut q = p + 1; while q < n { conf[p][q] = (lfs[p] & lfs[q]) != 0; q += 1; } p += 1; }
        let ok = weak_table(n, &conf);
        Word { n, code, lfs, conf, ok }
    }
    /// every word of length n over messages 0..ms and arbitrary letters
    pub fn any(n: usize, ms: u64) -> Word {
        let mut code = [0u16; 4];
        let mut p = 0;
        while p < n { let m = vsym::sym(0, ms - 1) as usize; let b = vsym::sym(1, 63) as u16; code[p] = letter(m, b); p += 1; }
        Word::from_codes(n, code)
    }
    /// every word of length n over singleton letters
    pub fn any_single(n: usize, ms: u64) -> Word {
        let mut code = [0u16; 4];
        let mut p = 0;
        while p < n { let m = vsym::sym(0, ms - 1) as usize; let l = vsym::sym(0, LFS - 1) as usize; let k = vsym::sym(0, 1) as u16; code[p] = letter(m, sel(k, lfbit(l) << 1, lfbit(l))); p += 1; }
        Word::from_codes(n, code)
    }
    pub fn full(&self) -> usize { (1 << self.n) - 1 }
}
/// ok[s1*16+s2]: no letter of s2 comes before a conflicting letter of s1
fn weak_table(n: usize, conf: &[[bool; 4]; 4]) -> Vec<bool> {
    let mut ok = vec![true; 256];
    let top = 1usize << n;
    // first by one letter against a set, then by sets
    let mut s1 = 0;
    while s1 < top {
        let mut s2 = 1;
        while s2 < top {
            if s1 & s2 == 0 {
                let p = s2.trailing_zeros() as usize;
                let rest = s2 & (s2 - 1);
                let mut bad = false;
                let mut q = p + 1;
                while q < n { if s1 >> q & 1 == 1 { bad = bad | conf[p][q]; } q += 1; }
                ok[s1 * 16 + s2] = ok[s1 * 16 + rest] & !bad;
            }
            s2 += 1;
        }
        s1 += 1;
    }
    ok
}

fn has_lf(cr: &Vec<usize>, lfs: u16) -> u16 {
    // lifelines of a letter outside the co-region
    let mut m = 0u16;
    for l in cr { m = m | lfbit(*l); }
    lfs & !m
}

pub fn den(i: &Interaction, w: &Word) -> Tab {
    let top = 1usize << w.n;
    let mut t: Tab = [false; 16];
    match i {
        Interaction::Empty => { t[0] = true; }
        Interaction::Emission(em) => {
            let first = bit(em.origin_lf_id, &TraceActionKind::Emission);
            let mut rec = vec![];
            for tg in &em.targets { if let EmissionTargetRef::Lifeline(l) = tg { rec.push(bit(*l, &TraceActionKind::Reception)); } }
            match em.synchronicity {
                CommunicationSynchronicity::Synchronous => {
                    let mut b = first; for r in &rec { b = b | *r; }
                    let c = letter(em.ms_id, b);
                    let mut p = 0; while p < w.n { t[1 << p] = w.code[p] == c; p += 1; }
                }
                CommunicationSynchronicity::Asynchronous => {
                    let c = letter(em.ms_id, first);
                    let r = recs(em.ms_id, &rec, w);
                    let mut m = 1;
                    while m < top {
                        let p = m.trailing_zeros() as usize;
                        let x = r[m & (m - 1)];
                        if !no(x) { t[m] = (w.code[p] == c) & x; }
                        m += 1;
                    }
                }
            }
        }
        Interaction::Reception(rc) => {
            let mut rec = vec![];
            for l in &rc.recipients { rec.push(bit(*l, &TraceActionKind::Reception)); }
            match rc.synchronicity {
                CommunicationSynchronicity::Synchronous => {
                    if rec.is_empty() { t[0] = true; }
                    else {
                        let mut b = 0; for r in &rec { b = b | *r; }
                        let c = letter(rc.ms_id, b);
                        let mut p = 0; while p < w.n { t[1 << p] = w.code[p] == c; p += 1; }
                    }
                }
                CommunicationSynchronicity::Asynchronous => { t = recs(rc.ms_id, &rec, w); }
            }
        }
        Interaction::Alt(a, b) => { let (x, y) = (den(a, w), den(b, w)); let mut m = 0; while m < top { t[m] = x[m] | y[m]; m += 1; } }
        Interaction::Strict(a, b) => t = compose(&den(a, w), &den(b, w), w, 0, &w.ok),
        Interaction::Seq(a, b) => t = compose(&den(a, w), &den(b, w), w, 1, &w.ok),
        Interaction::Par(a, b) => t = compose(&den(a, w), &den(b, w), w, 2, &w.ok),
        Interaction::CoReg(cr, a, b) => {
            let mut conf = [[false; 4]; 4];
            let mut p = 0;
            while p < w.n { let mut q = p + 1; while q < w.n { conf[p][q] = (has_lf(cr, w.lfs[p]) & w.lfs[q]) != 0; q += 1; } p += 1; }
            let ok = weak_table(w.n, &conf);
            t = compose(&den(a, w), &den(b, w), w, 1, &ok)
        }
        Interaction::Loop(k, a) => {
            let x = den(a, w);
            t[0] = true;
            let mut m = 1;
            while m < top {
                let low = m & (!m + 1);
                let mut r = false;
                // s: the first non-empty iteration
                let mut s = m;
                while s != 0 {
                    let rest = m & !s;
                    let allowed = match k {
                        LoopKind::SStrictSeq => rest == 0 || (rest & (!rest + 1)) > s,
                        LoopKind::HHeadFirstWS => s & low != 0,
                        LoopKind::WWeakSeq | LoopKind::PInterleaving => true,
                    };
                    if allowed && !no(x[s]) && !no(t[rest]) {
                        let c = x[s] & t[rest];
                        r = r | match k { LoopKind::WWeakSeq | LoopKind::HHeadFirstWS => c & w.ok[s * 16 + rest], _ => c };
                    }
                    s = (s - 1) & m;
                }
                t[m] = r;
                m += 1;
            }
        }
        Interaction::Sync(acts, a, b) => {
            let (x, y) = (den(a, w), den(b, w));
            // a letter that contains a synchronised action is performed by both sides at once
            let mut sy = [false; 4];
            let mut p = 0;
            while p < w.n {
                let mut z = false;
                for act in acts { z = z | ((w.code[p] >> 6 == act.ms_id as u16) & (w.code[p] & bit(act.lf_id, &act.act_kind) != 0)); }
                sy[p] = z; p += 1;
            }
            let mut m = 0;
            while m < top {
                let mut r = false;
                // each position of m: left only, right only, both
                let mut s1 = m;
                loop {
                    if !no(x[s1]) {
                        // s2 must contain m \ s1, and any subset `both` of s1
                        let mut both = s1;
                        loop {
                            let s2 = (m & !s1) | both;
                            if !no(y[s2]) {
                                let mut c = x[s1] & y[s2];
                                let mut p = 0;
                                while p < w.n { if m >> p & 1 == 1 { c = c & (if both >> p & 1 == 1 { sy[p] } else { !sy[p] }); } p += 1; }
                                r = r | c;
                            }
                            if both == 0 { break; }
                            both = (both - 1) & s1;
                        }
                    }
                    if s1 == 0 { break; }
                    s1 = (s1 - 1) & m;
                }
                t[m] = r;
                m += 1;
            }
        }
        Interaction::And(a, b) => { let (x, y) = (den(a, w), den(b, w)); let mut m = 0; while m < top { t[m] = x[m] & y[m]; m += 1; } }
    }
    t
}

/// receptions in any order
fn recs(ms: usize, rec: &Vec<u16>, w: &Word) -> Tab {
    let top = 1usize << w.n;
    let mut t: Tab = [false; 16];
    t[0] = true;
    for r in rec {
        let c = letter(ms, *r);
        let mut n: Tab = [false; 16];
        let mut m = 1;
        while m < top {
            let mut p = 0;
            let mut z = false;
            while p < w.n { if m >> p & 1 == 1 { let x = t[m & !(1 << p)]; if !no(x) { z = z | ((w.code[p] == c) & x); } } p += 1; }
            n[m] = z;
            m += 1;
        }
        t = n;
    }
    t
}

/// mode 0: strict, 1: weak (with the given order table), 2: interleaving
pub fn compose(x: &Tab, y: &Tab, w: &Word, mode: u32, ok: &Vec<bool>) -> Tab {
    let top = 1usize << w.n;
    let mut t: Tab = [false; 16];
    let mut m = 0;
    while m < top {
        let mut r = false;
        let mut s = m;
        loop {
            let rest = m & !s;
            if mode != 0 || rest == 0 || s == 0 || (rest & (!rest + 1)) > s {
                if !no(x[s]) && !no(y[rest]) {
                    let c = x[s] & y[rest];
                    r = r | if mode == 1 { c & ok[s * 16 + rest] } else { c };
                }
            }
            if s == 0 { break; }
            s = (s - 1) & m;
        }
        t[m] = r;
        m += 1;
    }
    t
}

pub fn code_of(acts: &std::collections::BTreeSet<TraceAction>) -> u16 {
    let mut b = 0u16;
    let mut ms = 0usize;
    for a in acts { b = b | bit(a.lf_id, &a.act_kind); ms = a.ms_id; }
    letter(ms, b)
}

fn gone_has(gone: &Vec<usize>, l: usize) -> bool { for g in gone { if *g == l { return true; } } false }
/// the interaction in which the actions of the given lifelines are deleted, structure untouched
pub fn erase(i: &Interaction, gone: &Vec<usize>) -> Interaction {
    match i {
        Interaction::Empty => Interaction::Empty,
        Interaction::Emission(em) => {
            let mut t = vec![];
            let mut l = vec![];
            for x in &em.targets { match x {
                EmissionTargetRef::Lifeline(a) => if !gone_has(gone, *a) { t.push(x.clone()); l.push(*a); },
                g => t.push(g.clone()),
            } }
            if gone_has(gone, em.origin_lf_id) {
                if l.is_empty() { Interaction::Empty } else { Interaction::Reception(ReceptionAction::new(None, em.ms_id, em.synchronicity.clone(), l)) }
            } else { Interaction::Emission(EmissionAction::new(em.origin_lf_id, em.ms_id, em.synchronicity.clone(), t)) }
        }
        Interaction::Reception(rc) => {
            let mut l = vec![];
            for a in &rc.recipients { if !gone_has(gone, *a) { l.push(*a); } }
            if l.is_empty() { Interaction::Empty } else { Interaction::Reception(ReceptionAction::new(rc.origin_gt_id, rc.ms_id, rc.synchronicity.clone(), l)) }
        }
        Interaction::Strict(a, b) => Interaction::Strict(Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::Seq(a, b) => Interaction::Seq(Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::CoReg(c, a, b) => Interaction::CoReg(c.clone(), Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::Alt(a, b) => Interaction::Alt(Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::Par(a, b) => Interaction::Par(Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::Loop(k, a) => Interaction::Loop(k.clone(), Box::new(erase(a, gone))),
        Interaction::And(a, b) => Interaction::And(Box::new(erase(a, gone)), Box::new(erase(b, gone))),
        Interaction::Sync(s, a, b) => {
            let mut t = vec![];
            for x in s { if !gone_has(gone, x.lf_id) { t.push(x.clone()); } }
            Interaction::Sync(t, Box::new(erase(a, gone)), Box::new(erase(b, gone)))
        }
    }
}
/// the denotation only says something about interactions in which the same word position cannot be two letters;
/// whether letter p of the word touches one of the lifelines
pub fn touches(w: &Word, p: usize, ls: &Vec<usize>) -> bool {
    let mut m = 0u16;
    for l in ls { m = m | lfbit(*l); }
    w.lfs[p] & m != 0
}
