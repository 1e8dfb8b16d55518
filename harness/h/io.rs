//! Files: models, multi-traces, signatures and configurations, written and read back.
use super::gen::*;
use super::DEEP;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::io::input::hif::interaction::parse_hif_string;
use crate::io::output::to_hfiles::interaction::interaction::interaction_as_hif_encoding;
use vsym::*;

/// names a signature may declare; the second set looks like keywords
pub fn names(set: u64) -> GeneralContext {
    let mut g = GeneralContext::new();
    let (l, m, t) = match set {
        0 => (["a", "b", "c"], ["m", "n", "p"], ["g", "h"]),
        _ => (["order", "strict", "loopS"], ["o", "synch", "m"], ["alt", "x1_y"]),
    };
    for n in l { g.add_lf(n.to_string()); }
    for n in m { g.add_msg(n.to_string()); }
    for n in t { g.add_gt(n.to_string()); }
    g
}
/// n-ary operators are read as nested to the right
fn right(i: &Interaction) -> Interaction {
    use Interaction::*;
    let op = |a: &Interaction, b: &Interaction, f: &dyn Fn(&Interaction) -> Option<(Interaction, Interaction)>, mk: &dyn Fn(Box<Interaction>, Box<Interaction>) -> Interaction| {
        let mut parts = vec![];
        let mut todo = vec![b.clone(), a.clone()];
        while let Some(x) = todo.pop() { match f(&x) { Some((p, q)) => { todo.push(q); todo.push(p); }, None => parts.push(right(&x)) } }
        let mut r = parts.pop().unwrap();
        while let Some(p) = parts.pop() { r = mk(Box::new(p), Box::new(r)); }
        r
    };
    match i {
        Strict(a, b) => op(a, b, &|x| if let Strict(p, q) = x { Some(((**p).clone(), (**q).clone())) } else { None }, &|p, q| Strict(p, q)),
        Seq(a, b) => op(a, b, &|x| if let Seq(p, q) = x { Some(((**p).clone(), (**q).clone())) } else { None }, &|p, q| Seq(p, q)),
        Par(a, b) => op(a, b, &|x| if let Par(p, q) = x { Some(((**p).clone(), (**q).clone())) } else { None }, &|p, q| Par(p, q)),
        Alt(a, b) => op(a, b, &|x| if let Alt(p, q) = x { Some(((**p).clone(), (**q).clone())) } else { None }, &|p, q| Alt(p, q)),
        CoReg(c, a, b) => op(a, b, &|x| match x { CoReg(d, p, q) if d == c => Some(((**p).clone(), (**q).clone())), _ => None }, &|p, q| CoReg(c.clone(), p, q)),
        Sync(s, a, b) => Sync(s.clone(), Box::new(right(a)), Box::new(right(b))),
        And(a, b) => And(Box::new(right(a)), Box::new(right(b))),
        Loop(k, a) => Loop(k.clone(), Box::new(right(a))),
        x => x.clone(),
    }
}
fn round(i: Interaction, set: u64) {
    show("interaction", &i);
    let g = names(set);
    let t = interaction_as_hif_encoding(&g, &i);
    if verbose() { eprintln!("    written: {t}"); }
    match parse_hif_string(&g, t) {
        Err(e) => { if verbose() { eprintln!("    error: {e:?}"); } check(false, "a written model can be read"); }
        Ok(j) => { show("read back", &j); cover("read back"); check(right(&i) == j, "reading a written model gives it back") }
    }
}
const LEAVES: u32 = EMPTY | EM | RC | MSG | SYN | RC2 | BC | RSYN | GATES | SYNN;
fn cfg(leaves: u32, ops: u32) -> Cfg { Cfg { lfs: 3, msgs: 3, leaves, ops, msgs_distinct: false } }
pub fn hif_leaf() { let i = Gen::new(cfg(LEAVES, STRICT)).int(0); round(i, pick(2)) }
pub fn hif_env() { let mut g = Gen::new(cfg(EM, STRICT)); let m = g.ms(); let o = if flag() { None } else { Some(sym(0, 1) as usize) }; let s = if flag() { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous }; round(Interaction::Reception(ReceptionAction::new(o, m, s, vec![])), pick(2)) }
pub fn hif_ops() { let mut c = cfg(EM | MSG | EMPTY, BIN | LOOPALL | SYNC); c.lfs = 2; c.msgs = 1; let i = Gen::new(c).int(1); round(i, pick(2)) }
pub fn hif_ops2() { let mut c = cfg(EM, BIN | LOOPS | LOOPH | SYNC); c.lfs = 2; c.msgs = 1; let i = Gen::new(c).int(2); round(i, 0) }
/// co-regions directly inside co-regions, over any lifelines
pub fn hif_coregs() {
    let l = |n: u64| -> Vec<usize> { match n { 0 => vec![0], 1 => vec![1], 2 => vec![0, 1], 3 => vec![1, 0], _ => vec![0, 2, 1] } };
    let mut g = Gen::new(cfg(EM, STRICT)); g.c.lfs = 2; g.c.msgs = 2;
    let (a, b, c) = (g.leaf(), g.leaf(), g.leaf());
    let (o, n) = (l(pick(5)), l(pick(5)));
    let inner = Interaction::CoReg(n, Box::new(a), Box::new(b));
    let (x, y) = if flag() { (inner, c) } else { (c, inner) };
    round(Interaction::CoReg(o, Box::new(x), Box::new(y)), 0)
}
pub fn hif_sync() {
    let mut g = Gen::new(cfg(RC, STRICT)); g.c.lfs = 2; g.c.msgs = 2;
    let mut s = vec![];
    let mut k = 0; let n = 1 + pick(2);
    while k < n { s.push(TraceAction::new(g.lf(), if flag() { TraceActionKind::Emission } else { TraceActionKind::Reception }, g.ms())); k += 1; }
    if n == 2 { assume(s[0] < s[1]); }
    let (a, b) = (g.leaf(), Interaction::Empty);
    round(Interaction::Sync(s, Box::new(a), Box::new(b)), 1)
}

/// where a separator is put, and which one, makes no difference
fn toks(n: u64) -> Vec<&'static str> {
    match n {
        0 => vec!["strict", "(", "order", "--", "o", "->", "|", ",", "synch", "->", "loopS", ",", "o", ")"],
        1 => vec!["coreg", "(", "order", ",", "strict", ")", "(", "alt", "--", "<", "synch", ">", "m", "->", "(", "loopS", ",", "strict", ")", ",", "∅", ")"],
        2 => vec!["loop", "W", "(", "par", "(", "seq", "(", "o", ",", "o", ")", ",", "order", "--", "<", "asynch", ">", "m", "->", "(", "x1_y", ",", "order", ")", ",", "o", ")", ")"],
        _ => vec!["sync", "{", "order", "!", "m", ",", "strict", "?", "o", "}", "(", "loop", "P", "(", "o", ")", ",", "alt", "(", "o", ",", "o", ",", "o", ")", ")"],
    }
}
fn tree(n: u64) -> Interaction {
    use CommunicationSynchronicity::*;
    use Interaction::*;
    let e = || Box::new(Empty);
    match n {
        0 => Strict(Box::new(Emission(EmissionAction::new(0, 0, Asynchronous, vec![]))), Box::new(Strict(Box::new(Reception(ReceptionAction::new(None, 1, Asynchronous, vec![2]))), e()))),
        1 => CoReg(vec![0, 1], Box::new(Reception(ReceptionAction::new(Some(0), 2, Synchronous, vec![2, 1]))), e()),
        2 => Loop(LoopKind::WWeakSeq, Box::new(Par(Box::new(Seq(e(), e())), Box::new(Par(Box::new(Emission(EmissionAction::new(0, 2, Asynchronous, vec![EmissionTargetRef::Gate(1), EmissionTargetRef::Lifeline(0)]))), e()))))),
        _ => Sync(vec![TraceAction::new(0, TraceActionKind::Emission, 2), TraceAction::new(1, TraceActionKind::Reception, 0)], Box::new(Loop(LoopKind::PInterleaving, e())), Box::new(Alt(e(), Box::new(Alt(e(), e()))))),
    }
}
pub fn hif_layout() {
    let n = pick(4);
    let t = toks(n);
    let at = pick(t.len() as u64 + 1) as usize;
    let sep = match pick(5) { 0 => " ", 1 => "\t", 2 => "\n", 3 => "\r\n", _ => "/*, ( */" };
    let mut s = String::new();
    for (k, x) in t.iter().enumerate() { if k == at { s.push_str(sep); } s.push_str(x); }
    if at == t.len() { s.push_str(sep); }
    match parse_hif_string(&names(1), s) {
        Err(_) => check(false, "a well-formed model is read wherever the spaces and comments are"),
        Ok(j) => { cover("read"); check(j == tree(n), "a model is read as written") }
    }
}
/// a declared kind of name is asked for, a symbolic choice of names is given
pub fn hif_names() {
    let g = names(1);
    let pool = ["order", "strict", "o", "alt", "x1_y", "nope", "orde", "orders"];
    let mut w = vec![];
    let mut k = 0;
    while k < 3 { w.push(pool[pick(8) as usize]); k += 1; }
    let (l, m, gt) = (|x: &str| ["order", "strict", "loopS"].iter().position(|y| *y == x), |x: &str| ["o", "synch", "m"].iter().position(|y| *y == x), |x: &str| ["alt", "x1_y"].iter().position(|y| *y == x));
    let form = pick(3);
    let s = match form { 0 => format!("{} -- {} -> {}", w[0], w[1], w[2]), 1 => format!("{} -> {}", w[1], w[2]), _ => format!("coreg({},{})(order -- m ->|,{} -> loopS)", w[0], w[2], w[1]) };
    let r = parse_hif_string(&g, s);
    let expect = match form {
        0 => match (l(w[0]), gt(w[0]), m(w[1]), l(w[2]), gt(w[2])) {
            (Some(a), _, Some(b), Some(c), _) => Some(Interaction::Emission(EmissionAction::new(a, b, CommunicationSynchronicity::Asynchronous, vec![EmissionTargetRef::Lifeline(c)]))),
            (Some(a), _, Some(b), None, Some(c)) => Some(Interaction::Emission(EmissionAction::new(a, b, CommunicationSynchronicity::Asynchronous, vec![EmissionTargetRef::Gate(c)]))),
            (None, Some(a), Some(b), Some(c), _) => Some(Interaction::Reception(ReceptionAction::new(Some(a), b, CommunicationSynchronicity::Asynchronous, vec![c]))),
            _ => None,
        },
        1 => match (m(w[1]), l(w[2])) { (Some(b), Some(c)) => Some(Interaction::Reception(ReceptionAction::new(None, b, CommunicationSynchronicity::Asynchronous, vec![c]))), _ => None },
        _ => match (l(w[0]), l(w[2]), m(w[1])) {
            (Some(a), Some(c), Some(b)) if a != c => Some(Interaction::CoReg(vec![a, c],
                Box::new(Interaction::Emission(EmissionAction::new(0, 2, CommunicationSynchronicity::Asynchronous, vec![]))),
                Box::new(Interaction::Reception(ReceptionAction::new(None, b, CommunicationSynchronicity::Asynchronous, vec![2]))))),
            _ => None,
        },
    };
    match (r, expect) {
        (Ok(i), Some(j)) => { cover("read"); check(i == j, "names are resolved to what was declared") }
        (Err(_), None) => { cover("refused"); check(true, "undeclared names are refused") }
        (Ok(_), None) => check(false, "undeclared names are refused"),
        (Err(_), Some(_)) => check(false, "declared names are accepted"),
    }
}
/// some text with up to n arbitrary characters in place of its own
fn text(t: &str, n: u64) -> String {
    let at = pick(t.len() as u64 - n + 1) as usize;
    let mut b: Vec<u8> = t.as_bytes().to_vec();
    let mut k = 0;
    while k < n as usize { b[at + k] = sym(0, 127) as u8; k += 1; }
    unsafe { String::from_utf8_unchecked(b) }
}
fn hif_any(t: &str, n: u64) {
    let g = names(0);
    let s = text(t, n);
    if verbose() { eprintln!("    text: {s:?}"); }
    match parse_hif_string(&g, s) {
        Err(_) => cover("refused"),
        Ok(i) => {
            cover("read");
            match parse_hif_string(&g, interaction_as_hif_encoding(&g, &i)) {
                Err(_) => check(false, "a model that was read can be written and read"),
                Ok(j) => check(right(&i) == j, "a model that was read can be written and read"),
            }
        }
    }
    check(true, "reading a model does not crash");
}
pub fn hif_text() { match pick(3) { 0 => hif_any("a -- m -> (b,g)", 1), 1 => hif_any("loopS(<synch>n->b)", 1), _ => hif_any("sync{a!m,b?n}(o,o)", 1) } }
pub fn hif_text2() { hif_any("seq(a -- m->|,o)", 2) }
