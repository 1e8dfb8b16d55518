//! Random generation of interactions: whatever the draws.
use super::gen::*;
use super::den::*;
use super::DEEP;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::core::language::involve::involves::InvolvesLifelines;
use crate::experiments::interaction_random_gen::gen::*;
use crate::experiments::interaction_random_gen::interface::generate_canonical_random_interaction;
use crate::experiments::interaction_random_gen::probas::*;
use crate::experiments::interaction_random_gen::probas::InteractionGenerationSymbol as S;
use crate::ui::commands::cli_rng_gen_interactions::cli_rng_gen_interactions;
use crate::ui::hibou_cli::__matches;
use crate::{vfs, vio};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::HashMap;
use vsym::*;

fn ctx(lfs: usize, ms: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in &["a", "b", "c"][..lfs] { g.add_lf(n.to_string()); }
    for n in &["m", "n", "o"][..ms] { g.add_msg(n.to_string()); }
    g
}
const ALL: [S; 13] = [S::Empty, S::Action, S::Strict, S::Seq, S::Coreg, S::Par, S::LoopS, S::LoopW, S::LoopP, S::Alt, S::Basic, S::Transmission, S::Broadcast];
/// which symbols stand in the interaction, and whether it is one of the signature
struct Seen { has: [bool; 13], ok: bool, depth: u64 }
fn see(i: &Interaction, g: &GeneralContext, d: u64, s: &mut Seen) {
    if d > s.depth { s.depth = d; }
    let (lf, ms) = (g.get_lf_num(), g.get_ms_num());
    match i {
        Interaction::Empty => s.has[0] = true,
        Interaction::Emission(e) => {
            s.ok = s.ok & (e.origin_lf_id < lf) & (e.ms_id < ms) & (e.synchronicity == CommunicationSynchronicity::Asynchronous);
            let mut k = 0;
            while k < e.targets.len() {
                match &e.targets[k] { EmissionTargetRef::Lifeline(t) => {
                    s.ok = s.ok & (*t < lf) & (*t != e.origin_lf_id);
                    let mut j = 0;
                    while j < k { if let EmissionTargetRef::Lifeline(u) = &e.targets[j] { s.ok = s.ok & (t != u); } j += 1; }
                } _ => s.ok = false }
                k += 1;
            }
            s.has[match e.targets.len() { 0 => 1, 1 => 11, _ => 12 }] = true;
        }
        Interaction::Reception(r) => { s.ok = s.ok & (r.recipients.len() == 1) & (r.ms_id < ms) & r.origin_gt_id.is_none() & (r.synchronicity == CommunicationSynchronicity::Asynchronous); for l in &r.recipients { s.ok = s.ok & (*l < lf); } s.has[1] = true; }
        Interaction::Strict(a, b) => { s.has[2] = true; see(a, g, d + 1, s); see(b, g, d + 1, s); }
        Interaction::Seq(a, b) => { s.has[3] = true; see(a, g, d + 1, s); see(b, g, d + 1, s); }
        Interaction::CoReg(c, a, b) => {
            s.has[4] = true;
            s.ok = s.ok & (c.len() == 1);
            for l in c { s.ok = s.ok & a.involved_lifelines().contains(l) & b.involved_lifelines().contains(l); }
            see(a, g, d + 1, s); see(b, g, d + 1, s);
        }
        Interaction::Par(a, b) => { s.has[5] = true; see(a, g, d + 1, s); see(b, g, d + 1, s); }
        Interaction::Alt(a, b) => { s.has[9] = true; see(a, g, d + 1, s); see(b, g, d + 1, s); }
        Interaction::Loop(k, a) => { s.has[match k { LoopKind::SStrictSeq => 6, LoopKind::WWeakSeq => 7, LoopKind::PInterleaving => 8, _ => { s.ok = false; 6 } }] = true; see(a, g, d + 1, s); }
        _ => s.ok = false,
    }
}
fn seen(i: &Interaction, g: &GeneralContext) -> Seen { let mut s = Seen { has: [false; 13], ok: true, depth: 0 }; see(i, g, 0, &mut s); s }
fn only(x: S) -> InteractionSymbolsProbabilities { InteractionSymbolsProbabilities::from_map(HashMap::from([(x, 1.0)])).ok().unwrap() }
fn half(x: S, y: S) -> InteractionSymbolsProbabilities { InteractionSymbolsProbabilities::from_map(HashMap::from([(x, 0.5), (y, 0.5)])).ok().unwrap() }
fn rng() -> StdRng { StdRng::seed_from_u64(0) }

/// leaves: every lifeline and message of the signature can be drawn, and nothing else
pub fn leaves() {
    let lfs = 1 + pick(3) as usize;
    let ms = 1 + pick(2) as usize;
    let g = ctx(lfs, ms);
    let k = pick(3);
    let i = match k { 0 => generate_random_action(&g, &mut rng()), 1 => generate_random_pattern(&g, false, &mut rng()), _ => generate_random_pattern(&g, true, &mut rng()) };
    show("lifelines", &lfs); show("generated", &i);
    let s = seen(&i, &g);
    check(s.ok, "the action is one of the signature");
    let (o, m, t) = match &i { Interaction::Emission(e) => (e.origin_lf_id, e.ms_id, e.targets.len()), Interaction::Reception(r) => (r.recipients[0], r.ms_id, 9), _ => { check(false, "an action"); reject() } };
    match k {
        0 => check(t == 0 || t == 9, "an action without targets, or a reception"),
        1 => check(t == if lfs > 1 { 1 } else { 0 }, "a transmission has one target"),
        _ => check(t < lfs, "a broadcast goes to other lifelines"),
    }
    if lfs == 3 && ms == 2 {
        let last = o == 2; let other = m == 1;
        if last && other { cover(["an action of the last lifeline and message", "a transmission from the last lifeline of the last message", "a broadcast from the last lifeline of the last message"][k as usize]); }
        if o == 0 && m == 0 { cover(["an action of the first lifeline and message", "a transmission from the first lifeline of the first message", "a broadcast from the first lifeline of the first message"][k as usize]); }
        if k == 2 && t == 2 { cover("a broadcast to all others"); }
        if k == 0 { cover(if t == 9 { "a reception" } else { "an emission" }); }
    }
}
/// the symbols asked for, down to the depth asked for
pub fn symbols() {
    let x = pick(13) as usize;
    let y = pick(13) as usize;
    let d = sym(0, if DEEP { 2 } else { 1 }) as u32;
    let g = ctx(2, 1);
    let p = if x == y { only(ALL[x]) } else { half(ALL[x], ALL[y]) };
    show("symbols", &(ALL[x], ALL[y])); show("depth", &d);
    let i = generate_random_interaction(&p, 0, d, &g, &mut rng());
    show("generated", &i);
    let s = seen(&i, &g);
    check(s.ok, "the interaction is one of the signature");
    check(s.depth <= d as u64, "the interaction is no deeper than asked for");
    // what each symbol may give
    let mut may = [false; 13];
    may[1] = true; // at the depth, and where a symbol takes operands
    for z in [x, y] { match z { 10 => { may[2] = true; may[3] = true; } 4 => { may[4] = true; may[3] = true; } 12 => { may[11] = true; may[12] = true; } z => may[z] = true } }
    let mut k = 0;
    while k < 13 { check(!s.has[k] || may[k], "only symbols that are asked for"); k += 1; }
    if x == y && d > 0 && x != 10 && x != 12 && x != 4 { check(s.has[x], "a symbol that is asked for always is there"); cover(["empty", "action", "strict", "seq", "", "par", "strict loop", "weak loop", "parallel loop", "alt", "", "transmission", ""][x]); }
    if x == y && x == 4 && s.has[4] { cover("coregion"); }
    if s.has[x] && x != 10 { cover("the first symbol"); }
    if s.has[y] && y != 10 { cover("the second symbol"); }
}
/// co-regions of operands that have several lifelines
pub fn coregions() {
    let g = ctx(if DEEP { 3 } else { 2 }, 1);
    let p = half(S::Coreg, if DEEP && flag() { S::Broadcast } else { S::Transmission });
    let i = generate_random_interaction(&p, 0, 2, &g, &mut rng());
    show("generated", &i);
    let s = seen(&i, &g);
    check(s.ok, "the interaction is one of the signature, co-regions are on lifelines of both operands");
    check(s.depth <= 2, "the interaction is no deeper than asked for");
    if let Interaction::CoReg(c, a, b) = &i { if a.involved_lifelines().len() == 2 && b.involved_lifelines().len() == 2 { cover(if c[0] == 0 { "on the first lifeline" } else { "on the second lifeline" }); } }
}
/// the tables: which draw gives which symbol; the order in which symbols are listed does not matter
pub fn tables() {
    let v: [(S, f32); 3] = [(ALL[pick(5) as usize], 0.25), (ALL[5 + pick(4) as usize], 0.25), (ALL[9 + pick(4) as usize], 0.5)];
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let (a, b) = (o[pick(6) as usize], o[5]);
    let mut m = HashMap::new(); let mut n = HashMap::new();
    for k in a { m.insert(v[k].0, v[k].1); }
    for k in b { n.insert(v[k].0, v[k].1); }
    let (p, q) = (InteractionSymbolsProbabilities::from_map(m).ok().unwrap(), InteractionSymbolsProbabilities::from_map(n).ok().unwrap());
    show("symbols", &p.ordered_symbols); show("symbols listed otherwise", &q.ordered_symbols);
    check(p.ordered_symbols == q.ordered_symbols && p.ordered_bounds == q.ordered_bounds, "the same probabilities give the same draws");
    // out of eight equal parts of the unit interval, each symbol gets its share
    let mut count = [0; 13];
    let k = pick(3) as usize;
    let s = p.get_random_symbol(&mut rng());
    if s == v[k].0 { cover("drawn"); }
    let _ = &mut count;
    check(v.iter().any(|x| x.0 == s), "a symbol of the table");
}
/// what is not a probability distribution is refused
pub fn distributions() {
    let vals = [0.0f32, 0.25, 0.5, 1.0, 1.5, -0.5];
    let (x, y, z) = (vals[pick(6) as usize], vals[pick(6) as usize], vals[pick(6) as usize]);
    let r = InteractionSymbolsProbabilities::from_map(HashMap::from([(S::Seq, x), (S::Alt, y), (S::Action, z)]));
    let unit = |v: f32| v >= 0.0 && v <= 1.0;
    let ok = unit(x) && unit(y) && unit(z) && x + y + z == 1.0;
    show("probabilities", &(x, y, z));
    check(r.is_ok() == ok, "exactly distributions of probabilities are taken");
    if let Err(e) = &r { check(*e != InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1 || !(unit(x) && unit(y) && unit(z)), "says what is wrong"); cover("refused"); }
    if let Ok(p) = r {
        let s = p.get_random_symbol(&mut rng());
        let f = match s { S::Seq => x, S::Alt => y, _ => z };
        check(f > 0.0, "a symbol of no probability is not drawn");
        cover("taken");
    }
}
/// the distributions that can be asked for
pub fn named() {
    let k = pick(6);
    let (p, may): (_, &[S]) = match k {
        0 => (InteractionSymbolsProbabilities::protocols_with_coreg(), &[S::Empty, S::Transmission, S::Broadcast, S::Seq, S::Coreg, S::Alt, S::LoopW, S::Par]),
        1 => (InteractionSymbolsProbabilities::conservative(), &[S::Empty, S::Basic, S::Action, S::Seq, S::Alt, S::LoopW, S::Par]),
        2 => (InteractionSymbolsProbabilities::default_non_regular(), &[S::Empty, S::Basic, S::Action, S::Seq, S::Alt, S::LoopW, S::LoopP, S::Par]),
        3 => (InteractionSymbolsProbabilities::default_regular(), &[S::Empty, S::Action, S::Strict, S::Seq, S::Alt, S::LoopS, S::Par]),
        4 => (InteractionSymbolsProbabilities::default_high_level_regular(), &[S::Empty, S::Action, S::Basic, S::Strict, S::Par, S::LoopS, S::Alt]),
        _ => (InteractionSymbolsProbabilities::default_basic(), &[S::Action, S::Strict, S::Seq]),
    };
    show("symbols", &p.ordered_symbols); show("bounds", &p.ordered_bounds);
    check(p.ordered_symbols.len() == may.len() && may.iter().all(|s| p.ordered_symbols.contains(s)), "the symbols of the distribution");
    let s = p.get_random_symbol(&mut rng());
    check(may.contains(&s), "a symbol of the distribution");
    if k == 3 || k == 4 { check(s != S::LoopP && s != S::LoopW, "regular distributions have strict loops only"); }
    cover("drawn");
}
/// with a size that has to be reached, and canonized
pub fn canonical() {
    let n = pick(if DEEP { 5 } else { 4 }) as u32;
    let g = ctx(2, 1);
    let w = pick(6);
    let p = match w { 0 => half(S::Empty, S::Action), 1 => half(S::Seq, S::Alt), 2 => half(S::Strict, S::Empty), 3 => half(S::Par, S::LoopW), 4 => half(S::Coreg, S::Transmission), _ => half(S::Basic, S::LoopS) };
    let r = generate_canonical_random_interaction(&g, &mut rng(), 1, n, &p);
    show("least number of symbols", &n); show("generated", &r);
    if let Some(i) = r {
        let s = seen(&i, &g);
        check(s.ok, "the interaction is one of the signature");
        let mut k = 0; size(&i, &mut k);
        check(k >= n, "at least as many symbols as asked for");
        cover("generated");
    } else { cover("too small"); }
}
fn size(i: &Interaction, k: &mut u32) { *k += 1; match i { Interaction::Loop(_, a) => size(a, k), Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => { size(a, k); size(b, k); } _ => {} } }
/// the command
pub fn command() {
    crate::ui::hibou_cli::__app();
    let w = pick(9);
    let mut a = vec!["hibou", "rng_gen_interactions", "x.hsf", "-x"];
    let n = match w { 0 => { a.push("1"); a.push("-i"); a.push("1"); 1 } 1 => { a.push("9"); a.push("-i"); a.push("2"); a.push("-t"); a.push("1"); 0 } 2 => { a.push("1"); a.push("-i"); a.push("3"); a.push("-t"); a.push("3"); 3 } _ => { a.push("1"); a.push("-i"); a.push("2"); a.push("-t"); a.push(if DEEP { "2" } else { "1" }); 2 } };
    a.push("-d"); a.push(if w == 8 { "1" } else { "0" });
    let mut folder = "gen_ints";
    match w { 3 => { a.push("-f"); a.push("d/e"); folder = "d/e"; } 4 => { a.push("-p"); a.push("conservative"); } 5 => { a.push("-p"); a.push("protocols_with_coreg"); } 6 => { a.push("-p"); a.push("default"); a.push("-s"); a.push("7"); } 7 => { a.push("-p"); a.push("strange"); } _ => {} }
    show("arguments", &a);
    let m = __matches(&a);
    vfs::clear();
    let g = ctx(if w == 2 { 1 } else { 2 }, 1);
    vio::supply(g.clone(), None, None);
    rand::limit(if w == 8 { if DEEP { 12 } else { 8 } } else if DEEP { 40 } else { 10 });
    let (out, code) = cli_rng_gen_interactions(m.subcommand_matches("rng_gen_interactions").unwrap());
    show("printed", &out);
    let f = vfs::written();
    show("written", &f);
    if w == 7 { check(code == 1 && f.is_empty(), "unknown probabilities are refused"); cover("refused"); return; }
    check(code == 0, "runs");
    check(f.len() <= n, "no more interactions than asked for, and none that is too small");
    let mut k = 0;
    let mut got: Vec<Interaction> = vec![];
    while k < f.len() {
        check(f[k].0 == format!("{folder}/i{k}.hif"), "interactions are numbered and written where asked");
        vfs::put(f[k].1.clone());
        let keep = vio::hsf(); vio::reset();
        match crate::io::input::hif::interface::parse_hif_file(&g, "x.hif") { Ok(i) => { check(!got.contains(&i), "no interaction is written twice"); check(seen(&i, &g).ok, "the interaction is one of the signature"); got.push(i); } Err(_) => check(false, "the interaction can be read") }
        unsafe { vio::HSF = keep; }
        k += 1;
    }
    if w < 3 && f.len() == n { cover("as many as asked for"); }
    if w == 5 { check(out.iter().any(|l| *l == "with protocols_with_coreg interaction symbols selection probabilities"), "says which probabilities"); }
    if w == 4 { check(out.iter().any(|l| *l == "with conservative interaction symbols selection probabilities"), "says which probabilities"); }
    cover("ran");
}
/// numbers that are none
pub fn command_numbers() {
    let w = pick(5) as usize;
    let v = [ "x", "-1", "", "99999999999999999999999" ][pick(4) as usize];
    let o = ["-i", "-t", "-d", "-x", "-s"][w];
    let joined = format!("{o}={v}");
    let a = vec!["hibou", "rng_gen_interactions", "x.hsf", &joined];
    show("arguments", &a);
    let m = __matches(&a);
    vfs::clear();
    vio::supply(ctx(2, 1), None, None);
    let (out, code) = cli_rng_gen_interactions(m.subcommand_matches("rng_gen_interactions").unwrap());
    show("printed", &out);
    check(code == 1 && vfs::written().is_empty(), "what is no number is refused");
    cover("refused");
}
