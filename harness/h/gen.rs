//! Arbitrary interactions within a node budget.  The shape is explored by forking; lifelines, messages and
//! (where it costs nothing) kinds stay symbolic.
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use vsym::{pick, sym};

pub const EMPTY: u32 = 1;        // the empty interaction
pub const EM: u32 = 2;           // l -- m ->|
pub const RC: u32 = 4;           // m -> l
pub const MSG: u32 = 8;          // l -- m -> l' (asynchronous)
pub const SYN: u32 = 16;         // l -- <synchronous>m -> l'
pub const RC2: u32 = 32;         // m -> (l,l') (asynchronous)
pub const BC: u32 = 64;          // l -- m -> (l',l'') (asynchronous)
pub const RSYN: u32 = 128;       // <synchronous>m -> (l,l')
pub const GATES: u32 = 256;      // l -- m -> gate ; gate -- m -> l
pub const SYNN: u32 = 512;       // l -- <synchronous>m ->|

pub const STRICT: u32 = 1;
pub const SEQ: u32 = 2;
pub const COREG: u32 = 4;
pub const ALT: u32 = 8;
pub const PAR: u32 = 16;
pub const SYNC: u32 = 32;
pub const LOOPS: u32 = 64;       // strict loop
pub const LOOPH: u32 = 128;
pub const LOOPW: u32 = 256;
pub const LOOPP: u32 = 512;
pub const LOOPALL: u32 = 960;
pub const BIN: u32 = 31;         // all binary operators but the synchronised product

#[derive(Clone, Copy)]
pub struct Cfg { pub lfs: u64, pub msgs: u64, pub leaves: u32, pub ops: u32, pub msgs_distinct: bool }
pub struct Gen { pub c: Cfg, pub next: u64 }

fn nth_bit(mask: u32, n: u64) -> u32 {
    let mut m = mask; let mut k = n;
    while k > 0 { m &= m - 1; k -= 1; }
    m & (!m + 1)
}
impl Gen {
    pub fn new(c: Cfg) -> Gen { Gen { c, next: 0 } }
    pub fn lf(&mut self) -> usize { sym(0, self.c.lfs - 1) as usize }
    pub fn ms(&mut self) -> usize { if self.c.msgs_distinct { self.next += 1; (self.next - 1) as usize } else if self.c.msgs == 1 { 0 } else { sym(0, self.c.msgs - 1) as usize } }
    pub fn leaf(&mut self) -> Interaction {
        use CommunicationSynchronicity::*;
        let k = nth_bit(self.c.leaves, pick(self.c.leaves.count_ones() as u64));
        match k {
            EMPTY => Interaction::Empty,
            EM => Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Asynchronous, vec![])),
            SYNN => Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Synchronous, vec![])),
            MSG => Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Asynchronous, vec![EmissionTargetRef::Lifeline(self.lf())])),
            SYN => { let (a, b) = self.two(); Interaction::Emission(EmissionAction::new(a, self.ms(), Synchronous, vec![EmissionTargetRef::Lifeline(b)])) }
            BC => { let (a, b) = self.two(); Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Asynchronous, vec![EmissionTargetRef::Lifeline(a), EmissionTargetRef::Lifeline(b)])) }
            RC => Interaction::Reception(ReceptionAction::new(None, self.ms(), Asynchronous, vec![self.lf()])),
            RC2 => { let (a, b) = self.two(); Interaction::Reception(ReceptionAction::new(None, self.ms(), Asynchronous, vec![a, b])) }
            RSYN => { let (a, b) = self.two(); Interaction::Reception(ReceptionAction::new(None, self.ms(), Synchronous, vec![a, b])) }
            _ => match pick(4) {
                0 => Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Asynchronous, vec![EmissionTargetRef::Gate(sym(0, 1) as usize)])),
                1 => Interaction::Reception(ReceptionAction::new(Some(sym(0, 1) as usize), self.ms(), Asynchronous, vec![self.lf()])),
                2 => Interaction::Emission(EmissionAction::new(self.lf(), self.ms(), Asynchronous, vec![EmissionTargetRef::Gate(sym(0, 1) as usize), EmissionTargetRef::Lifeline(self.lf())])),
                _ => { let (a, b) = self.two(); Interaction::Reception(ReceptionAction::new(Some(sym(0, 1) as usize), self.ms(), Asynchronous, vec![a, b])) }
            },
        }
    }
    /// two different lifelines
    pub fn two(&mut self) -> (usize, usize) { let (a, b) = (self.lf(), self.lf()); vsym::assume(a != b); (a, b) }
    /// an interaction with exactly n operators
    pub fn int(&mut self, n: u64) -> Interaction {
        if n == 0 { return self.leaf(); }
        let k = nth_bit(self.c.ops, pick(self.c.ops.count_ones() as u64));
        if k == COREG && n == 1 && vsym::flag() { return self.coreg(); }
        match k {
            LOOPS => Interaction::Loop(LoopKind::SStrictSeq, Box::new(self.int(n - 1))),
            LOOPH => Interaction::Loop(LoopKind::HHeadFirstWS, Box::new(self.int(n - 1))),
            LOOPW => Interaction::Loop(LoopKind::WWeakSeq, Box::new(self.int(n - 1))),
            LOOPP => Interaction::Loop(LoopKind::PInterleaving, Box::new(self.int(n - 1))),
            _ => {
                let l = pick(n);
                let a = Box::new(self.int(l));
                let b = Box::new(self.int(n - 1 - l));
                match k {
                    STRICT => Interaction::Strict(a, b),
                    SEQ => Interaction::Seq(a, b),
                    COREG => Interaction::CoReg(vec![self.lf()], a, b),
                    ALT => Interaction::Alt(a, b),
                    PAR => Interaction::Par(a, b),
                    _ => Interaction::Sync(vec![TraceAction::new(self.lf(), TraceActionKind::Emission, self.ms_sync())], a, b),
                }
            }
        }
    }
    fn coreg(&mut self) -> Interaction {
        let a = Box::new(self.leaf());
        let b = Box::new(self.leaf());
        let (x, y) = self.two();
        Interaction::CoReg(vec![x, y], a, b)
    }
    fn ms_sync(&mut self) -> usize { if self.c.msgs == 1 { 0 } else { sym(0, self.c.msgs - 1) as usize } }
    /// at most n operators
    pub fn upto(&mut self, n: u64) -> Interaction { let k = pick(n + 1); self.int(k) }
    pub fn loop_kind(&mut self) -> LoopKind { match pick(4) { 0 => LoopKind::PInterleaving, 1 => LoopKind::WWeakSeq, 2 => LoopKind::HHeadFirstWS, _ => LoopKind::SStrictSeq } }
    /// a loop around a loop, possibly next to another action: loop_a(loop_b(e)), loop_a(alt(loop_b(e),e')), loop_a(e' ; loop_b(e)), ...
    pub fn nested_loops(&mut self, forms: u64) -> Interaction {
        let (ka, kb) = (self.loop_kind(), self.loop_kind());
        let body = Box::new(self.int(1));
        let inner = Box::new(Interaction::Loop(kb, body));
        let x = match pick(forms) {
            0 => *inner,
            1 => Interaction::Alt(inner, Box::new(self.leaf())),
            2 => Interaction::Seq(Box::new(self.leaf()), inner),
            _ => Interaction::Strict(inner, Box::new(self.leaf())),
        };
        Interaction::Loop(ka, Box::new(x))
    }
    /// a co-region over two lifelines, the left side with one operator
    pub fn wide_coreg(&mut self) -> Interaction {
        let a = Box::new(self.int(1));
        let b = Box::new(self.leaf());
        let (x, y) = self.two();
        Interaction::CoReg(vec![x, y], a, b)
    }
}
