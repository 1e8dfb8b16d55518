//! Multi-trace files, written and read back.
use super::DEEP;
use std::collections::BTreeSet;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::io::input::htf::implem::multitrace_from_text;
use crate::io::input::htf::interface::multi_action_from_text;
use crate::io::output::to_hfiles::trace::multi_trace::multi_trace_as_htf_encoding;
use crate::io::output::to_hfiles::trace::trace_action::trace_actions_as_htf_encoding;
use vsym::*;

const L: [&str; 3] = ["order", "b", "all"];
const M: [&str; 2] = ["m", "any_1"];
fn names() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in L { g.add_lf(n.to_string()); }
    for n in M { g.add_msg(n.to_string()); }
    g
}
fn kind() -> TraceActionKind { if flag() { TraceActionKind::Emission } else { TraceActionKind::Reception } }
fn action(lfs: &Vec<usize>) -> TraceAction { let l = lfs[pick(lfs.len() as u64) as usize]; TraceAction::new(l, kind(), sym(0, 1) as usize) }
fn letter(lfs: &Vec<usize>, max: u64) -> BTreeSet<TraceAction> {
    let mut b = BTreeSet::new();
    b.insert(action(lfs));
    if max > 1 && flag() { b.insert(action(lfs)); }
    b
}
fn trace(lfs: &Vec<usize>, len: u64, max: u64) -> Trace { let n = pick(len + 1); let mut t = vec![]; let mut k = 0; while k < n { t.push(letter(lfs, max)); k += 1; } t }
const PARTS: [&[&[usize]]; 7] = [&[&[0, 1, 2]], &[&[0, 1], &[2]], &[&[0], &[1, 2]], &[&[0, 2], &[1]], &[&[0], &[1], &[2]], &[&[2], &[0, 1]], &[&[1], &[2], &[0]]];
/// every partition of three lifelines
fn written(len: u64, max: u64) { written_on(PARTS[pick(7) as usize], len, max) }
fn written_on(p: &[&[usize]], len: u64, max: u64) {
    let g = names();
    let (mut c, mut mt) = (vec![], vec![]);
    for ls in p { let v = ls.to_vec(); mt.push(trace(&v, len, max)); c.push(BTreeSet::from_iter(v)); }
    let colocs = CoLocalizations::new(c);
    show("co-localizations", &colocs); show("multi-trace", &mt);
    let t = multi_trace_as_htf_encoding(&g, &colocs, &mt);
    if verbose() { eprintln!("    written: {t}"); }
    match multitrace_from_text(&g, &t) {
        Err(_) => check(false, "a written multi-trace can be read"),
        Ok((c2, m2)) => { cover("read back"); show("read", &(&c2, &m2)); check(c2 == colocs && m2 == mt, "reading a written multi-trace gives it back") }
    }
}
pub fn round1() { written(1, 1) }
pub fn round2() { if DEEP { written(2, 2) } else { let p = &PARTS[1 + pick(2) as usize]; written_on(p, 1, 2) } }
pub fn letters() {
    let g = names();
    let b = letter(&vec![0, 1, 2], 2);
    match multi_action_from_text(&g, &trace_actions_as_htf_encoding(&g, &b)) {
        Err(_) => check(false, "a written action can be read"),
        Ok(c) => { cover("read back"); check(b == c, "reading a written action gives it back") }
    }
}
fn text(t: &Trace) -> String { let g = names(); let mut v = vec![]; for x in t { v.push(trace_actions_as_htf_encoding(&g, x)); } v.join(".") }
fn partition(c: &CoLocalizations, n: usize) -> bool {
    let mut ok = true;
    let mut l = 0;
    while l < 3 { let mut k = 0; for b in &c.locs_lf_ids { if b.contains(&l) { k += 1; } } ok = ok & (k == 1); l += 1; }
    for b in &c.locs_lf_ids { for x in b { ok = ok & (*x < 3); } }
    ok && c.locs_lf_ids.len() == n
}
/// a sequence of actions without co-localizations: one canal for everything
pub fn bare() {
    let t = if DEEP { trace(&vec![0, 1, 2], 2, 2) } else if flag() { trace(&vec![0, 1, 2], 2, 1) } else { trace(&vec![0, 1, 2], 1, 2) };
    match multitrace_from_text(&names(), &text(&t)) {
        Err(_) => check(false, "a sequence of actions can be read"),
        Ok((c, m)) => {
            cover("read");
            show("read", &(&c, &m));
            check(partition(&c, m.len()), "every lifeline is on exactly one canal");
            check(m.len() == 1 && m[0] == t, "the one canal holds the sequence");
        }
    }
}
/// #any takes the lifelines of its actions, #all every lifeline that is left, a list what it says
pub fn canals() {
    let n = 1 + pick(if DEEP { 3 } else { 2 });
    let mut s = "{".to_string();
    let mut taken = [false; 3];
    let mut bad = false;
    let (mut ec, mut et): (Vec<Vec<bool>>, Vec<Trace>) = (vec![], vec![]);
    let mut k = 0;
    while k < n {
        if k > 0 { s.push_str(";"); }
        let mut own = vec![false; 3];
        let t = if n == 1 && flag() { trace(&vec![0, 1, 2], 1, 2) } else { trace(&vec![0, 1, 2], if n == 1 { 2 } else { 1 }, 1) };
        match pick(3) {
            0 => { s.push_str("[#any] "); for x in &t { for a in x { own[a.lf_id] = true; } } }
            1 => { s.push_str("[#all] "); let mut l = 0; while l < 3 { own[l] = !taken[l]; l += 1; } }
            _ => {
                let m = if DEEP || n == 1 { 1 + pick(7) } else { [1, 2, 6, 7][pick(4) as usize] };
                let mut names = vec![];
                let mut l = 0;
                while l < 3 { if m >> l & 1 == 1 { own[l] = true; names.push(L[l]); } l += 1; }
                s.push_str(&format!("[{}] ", names.join(" , ")));
            }
        }
        let mut l = 0;
        while l < 3 { if own[l] && taken[l] { bad = true; } taken[l] = taken[l] || own[l]; l += 1; }
        for x in &t { for a in x { if !own[a.lf_id] { bad = true; } } }
        s.push_str(&text(&t));
        ec.push(own); et.push(t);
        k += 1;
    }
    if flag() { s.push_str(" ; "); }
    s.push_str("}");
    if verbose() { eprintln!("    text: {s}"); }
    match multitrace_from_text(&names(), &s) {
        Err(e) => { cover("refused"); if verbose() { eprintln!("    error: {e:?}"); } check(bad, "a multi-trace is refused only if its canals overlap or hold actions of other lifelines") }
        Ok((c, m)) => {
            cover("read");
            show("read", &(&c, &m));
            check(!bad, "a multi-trace whose canals overlap or hold actions of other lifelines is refused");
            check(partition(&c, m.len()), "every lifeline is on exactly one canal");
            let mut k = 0;
            let mut ok = m.len() >= et.len();
            while ok && k < m.len() {
                if k < et.len() {
                    ok = m[k] == et[k];
                    let mut l = 0;
                    while l < 3 { ok = ok && c.locs_lf_ids[k].contains(&l) == ec[k][l]; l += 1; }
                } else { ok = m[k].is_empty(); }
                k += 1;
            }
            check(ok, "the canals hold what the text says, and nothing for the others");
        }
    }
}
/// n arbitrary characters in an otherwise well-formed text
fn arbitrary(t: &str, n: u64) {
    let g = names();
    let at = pick(t.len() as u64 - n + 1) as usize;
    let mut b: Vec<u8> = t.as_bytes().to_vec();
    let mut k = 0;
    while k < n as usize { b[at + k] = sym(0, 127) as u8; k += 1; }
    let s = unsafe { String::from_utf8_unchecked(b) };
    if verbose() { eprintln!("    text: {s:?}"); }
    match multitrace_from_text(&g, &s) {
        Err(_) => cover("refused"),
        Ok((c, m)) => { cover("read"); show("read", &(&c, &m)); check(partition(&c, m.len()), "every lifeline is on exactly one canal") }
    }
    check(true, "reading a multi-trace does not crash");
}
pub fn text1() { let n = if DEEP { 2 } else { 1 }; match pick(4) { 0 => arbitrary("{[b,all] b!m.{b?m,all!m};[#all] order!m}", n), 1 => arbitrary("{[#any];}", n + 1), 2 => arbitrary("order!m.b?any_1", n), _ => arbitrary("{[b] b!m ; [b]  }", n) } }
