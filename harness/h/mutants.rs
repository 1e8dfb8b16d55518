//! The commands that make mutants of multi-traces.
use super::slices::{mu, parts};
use super::DEEP;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::io::input::htf::implem::multitrace_from_text;
use crate::ui::commands::cli_mutate_insert_noise::cli_mutate_insert_noise;
use crate::ui::commands::cli_mutate_remove_actions::cli_mutate_remove_actions;
use crate::ui::commands::cli_mutate_swap_actions::cli_mutate_swap_actions;
use crate::ui::commands::cli_mutate_swap_components::cli_mutate_swap_components;
use crate::ui::hibou_cli::__matches;
use crate::{vfs, vio};
use clap::ArgMatches;
use std::collections::BTreeSet;
use vsym::*;

fn names(ms: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in &["m", "n", "o", "p", "q", "r"][0..ms] { g.add_msg(n.to_string()); }
    g
}
fn lens(most: &[usize], least: usize) -> Vec<usize> { most.iter().map(|x| least + pick((*x - least) as u64 + 1) as usize).collect() }
/// the command line, and where the mutant has to be written
fn args(cmd: &'static str, max: Option<u32>, more: &[&'static str], suffix: &str, files: &[&'static str]) -> (ArgMatches, String) {
    let mut a = vec!["hibou", cmd, "x.hsf"];
    for f in files { a.push(f); }
    let s = max.unwrap_or(0).to_string();
    if max.is_some() { a.push("-m"); a.push(&s); }
    for x in more { a.push(x); }
    let mut to = format!("mu{suffix}.htf");
    match max.unwrap_or(1) % 3 { 0 => {} 2 => { a.push("-n"); a.push("mutant"); to = "mutant.htf".to_string(); } _ => { a.push("-p"); a.push("d/e"); to = format!("d/e/{to}"); } }
    show("arguments", &a);
    let m = __matches(&a);
    (m, to)
}
fn max() -> Option<u32> { match pick(if DEEP { 5 } else { 4 }) { 0 => None, k => Some(k as u32 - 1) } }
fn supply(ms: usize, c: &CoLocalizations, mt: &MultiTrace) { vfs::clear(); show("co-localizations", c); show("multi-trace", mt); vio::supply(names(ms), None, Some((c.clone(), mt.clone()))); }
/// the one file that was written
fn result(ms: usize, c: &CoLocalizations, to: &str, r: (Vec<String>, u32)) -> MultiTrace {
    check(r.1 == 0, "runs");
    let w = vfs::written();
    show("written", &w);
    check(w.len() == 1 && w[0].0 == to, "one mutant is written where asked");
    check(r.0.iter().any(|l| *l == format!("into file '{to}'")), "says where");
    match multitrace_from_text(&names(ms), &w[0].1) { Err(_) => { check(false, "the mutant can be read"); reject() } Ok((c2, m)) => { check(c2 == *c, "the mutant has the same canals"); m } }
}
/// new is old with letters inserted that are noise
fn noisy(old: &[BTreeSet<TraceAction>], new: &[BTreeSet<TraceAction>], lfs: &Vec<usize>, ms: usize) -> bool {
    if new.is_empty() { return old.is_empty(); }
    if !old.is_empty() && old[0] == new[0] && noisy(&old[1..], &new[1..], lfs, ms) { return true; }
    let mut ok = new[0].len() == 1;
    for a in &new[0] { ok = ok && lfs.contains(&a.lf_id) && a.ms_id < ms; }
    ok && noisy(old, &new[1..], lfs, ms)
}
pub fn noise() {
    crate::ui::hibou_cli::__app();
    let k = max();
    let two = k.unwrap_or(1) > 1;
    let n = if two && !DEEP { 2 } else { 1 + pick(if DEEP { 3 } else { 2 }) as usize };
    let ms = if two { 1 } else { 2 };
    let (once, end) = (pick(2) == 1, pick(2) == 1);
    let mut more = vec![];
    if once { more.push("-u"); }
    if end { more.push("-e"); }
    let (m, to) = args("mutate_insert_noise", k, &more, "_insert_noise_mutant", &["t/mu.htf"]);
    let (c, p) = parts(n);
    let l = if two { let mut l = lens(&[1], 0); while l.len() < n { l.push(0); } l } else { lens(&[[2, 0, 0], [1, 1, 0], [1, 0, 0]][n - 1][0..n], 0) };
    // the signature has fewer messages here
    let mut mt: MultiTrace = mu(&p, &l);
    for t in &mut mt { for b in t.iter_mut() { *b = b.iter().map(|a| TraceAction::new(a.lf_id, if a.ms_id > 1 { TraceActionKind::Emission } else { a.act_kind.clone() }, a.ms_id.min(ms - 1))).collect(); } }
    supply(ms, &c, &mt);
    rand::limit(16);
    let new = result(ms, &c, &to, cli_mutate_insert_noise(m.subcommand_matches("mutate_insert_noise").unwrap()));
    cover("a mutant");
    let most = k.unwrap_or(1) as usize;
    let mut sum = 0;
    let mut i = 0;
    while i < n {
        check(new[i].len() >= mt[i].len() && noisy(&mt[i], &new[i], &p[i], ms), "the mutant is the multi-trace with actions of the canal's lifelines inserted");
        let d = new[i].len() - mt[i].len();
        sum += d;
        if once { check(d <= 1, "at most one action is inserted per canal"); }
        if end { check(new[i][0..mt[i].len()].to_vec() == mt[i], "actions are only inserted at the end"); }
        i += 1;
    }
    check(sum == if once { most.min(n) } else { most }, "as many actions are inserted as asked and possible");
}
/// noise of every kind, everywhere
pub fn noise_every() {
    let (m, to) = { let m = __matches(&["hibou", "mutate_insert_noise", "x.hsf", "mu.htf"]); (m, "mu_insert_noise_mutant.htf") };
    let (c, p) = parts(2);
    // two letters on the first canal (lifeline b), none on the second (lifelines a and c)
    let x = |k| BTreeSet::from([TraceAction::new(1, k, 0), TraceAction::new(1, TraceActionKind::Emission, 1)]);
    let mt = vec![vec![x(TraceActionKind::Reception), x(TraceActionKind::Emission)], vec![]];
    supply(2, &c, &mt);
    let new = result(2, &c, to, cli_mutate_insert_noise(m.subcommand_matches("mutate_insert_noise").unwrap()));
    if new[0].len() == 3 { let mut i = 0; while i < 3 { if new[0][i].len() == 1 { cover(["before the first", "between", "after the last"][i]); } i += 1; } }
    if new[1].len() == 1 {
        cover("on an empty canal");
        for a in &new[1][0] {
            cover(if a.lf_id == 0 { "on the first lifeline" } else { "on the last lifeline" });
            cover(if a.ms_id == 0 { "the first message" } else { "the last message" });
            cover(if a.act_kind == TraceActionKind::Emission { "an emission" } else { "a reception" });
        }
    }
    check(true, "runs");
}
fn within(new: &[BTreeSet<TraceAction>], old: &[BTreeSet<TraceAction>]) -> bool {
    if new.is_empty() { return true; }
    if old.is_empty() { return false; }
    (new[0] == old[0] && within(&new[1..], &old[1..])) || within(new, &old[1..])
}
pub fn removals() {
    crate::ui::hibou_cli::__app();
    let n = 1 + pick(if DEEP { 3 } else { 2 }) as usize;
    let k = max();
    let (m, to) = args("mutate_remove_actions", k, &[], "_remove_actions_mutant", &["t/mu.htf"]);
    let (c, p) = parts(n);
    let l = lens(match n { 1 => &[3], 2 => if DEEP { &[3, 2] } else { &[2, 2] }, _ => &[2, 1, 1] }, 0);
    let mt = mu(&p, &l);
    supply(6, &c, &mt);
    let new = result(6, &c, &to, cli_mutate_remove_actions(m.subcommand_matches("mutate_remove_actions").unwrap()));
    cover("a mutant");
    let most = k.unwrap_or(1) as usize;
    let (mut sum, mut enough) = (0, true);
    let mut i = 0;
    while i < n {
        check(new[i].len() <= mt[i].len() && within(&new[i], &mt[i]), "the mutant is the multi-trace with actions removed");
        sum += mt[i].len() - new[i].len();
        enough = enough && mt[i].len() >= most;
        i += 1;
    }
    check(sum <= most, "at most as many actions are removed as asked");
    if enough { check(sum == most, "as many actions are removed as asked if every canal has them"); }
    if most > 0 && n == 1 && l[0] == 3 { let mut j = 0; while j < 3 { if !new[0].contains(&mt[0][j]) { cover(["the first is removed", "the second is removed", "the third is removed"][j]); } j += 1; } }
}
/// `to` is `from` after k swaps of letters within canals
fn swapped(from: &MultiTrace, to: &MultiTrace, k: usize) -> bool {
    if k == 0 { return from == to; }
    let mut c = 0;
    while c < from.len() {
        let mut i = 0;
        while i < from[c].len() {
            let mut j = i + 1;
            while j < from[c].len() { let mut x = from.clone(); x[c].swap(i, j); if swapped(&x, to, k - 1) { return true; } j += 1; }
            i += 1;
        }
        c += 1;
    }
    false
}
pub fn swaps() {
    crate::ui::hibou_cli::__app();
    let n = 1 + pick(if DEEP { 3 } else { 2 }) as usize;
    let k = max();
    let (m, to) = args("mutate_swap_actions", k, &[], "_swap_act_mutant", &["t/mu.htf"]);
    let (c, p) = parts(n);
    let l = lens(match n { 1 => &[3], 2 => if k == Some(2) && !DEEP { &[1, 2] } else { &[3, 1] }, _ => &[2, 1, 1] }, 0);
    let mt = mu(&p, &l);
    supply(6, &c, &mt);
    rand::limit(6);
    let new = result(6, &c, &to, cli_mutate_swap_actions(m.subcommand_matches("mutate_swap_actions").unwrap()));
    let mut most = k.unwrap_or(1) as usize;
    let mut possible = 0;
    for x in &l { possible += x.saturating_sub(1); }
    if possible > 0 && most > 0 { cover("a mutant"); }
    if possible < most { cover("fewer swaps than asked"); most = possible; }
    check(new.len() == mt.len() && swapped(&mt, &new, most), "the mutant is the multi-trace after as many swaps of two actions of a canal");
    if n == 1 && most == 1 && l[0] == 3 { let mut j = 0; while j < 3 { if new[0][j] == mt[0][j] { cover(["the last two are swapped", "the first and the last are swapped", "the first two are swapped"][j]); } j += 1; } }
}
pub fn components() {
    crate::ui::hibou_cli::__app();
    let n = 1 + pick(3) as usize;
    let k = max();
    let (m, to) = args("mutate_swap_components", k, &[], "_swap_comp_mutant", &["t/mu.htf", "t/nu.htf"]);
    let (c, p) = parts(n);
    let mt = mu(&p, &lens(if DEEP { &[1, 1, 2][0..n] } else { &[&[2][..], &[1, 1], &[1, 0, 0]][n - 1] }, 0));
    let mut nu: MultiTrace = vec![];
    let mut i = 0;
    while i < n { let mut t: Trace = vec![]; while t.len() < 2 + i { t.push(BTreeSet::from([TraceAction::new(p[i][0], TraceActionKind::Reception, 4)])); } nu.push(t); i += 1; }
    supply(6, &c, &mt);
    let other = n > 1 && pick(4) == 0;
    vio::then((if other { CoLocalizations::new(c.locs_lf_ids.iter().rev().cloned().collect()) } else { c.clone() }, nu.clone()));
    let r = cli_mutate_swap_components(m.subcommand_matches("mutate_swap_components").unwrap());
    if other { cover("refused"); check(r.1 == 1 && vfs::written().is_empty(), "multi-traces on other canals are refused"); return; }
    let new = result(6, &c, &to, r);
    cover("a mutant");
    let mut sum = 0;
    let mut i = 0;
    while i < n {
        check(new[i] == mt[i] || new[i] == nu[i], "every canal is that of one of the multi-traces");
        if new[i] == nu[i] { sum += 1; if n == 3 && k.is_none() { cover(["the first is taken over", "the second is taken over", "the third is taken over"][i]); } }
        i += 1;
    }
    check(sum <= k.unwrap_or(1) as usize, "at most as many canals are taken over as asked");
    check(sum >= (k.unwrap_or(1) as usize).min(n - 1), "as many canals are taken over as asked, as long as one is kept");
}
/// maxima that are no number
pub fn options() {
    crate::ui::hibou_cli::__app();
    let (c, p) = parts(1);
    let mt = mu(&p, &[0]);
    let x = [sym(0, 127) as u8];
    assume(x[0] != b'-' && x[0] != 0 && x[0] != b'1');
    let s = unsafe { std::str::from_utf8_unchecked(&x) }.to_string();
    supply(6, &c, &mt);
    vio::then((c.clone(), mt.clone()));
    let (mut a, cmd) = match pick(4) { 0 => (vec![], "mutate_insert_noise"), 1 => (vec![], "mutate_remove_actions"), 2 => (vec![], "mutate_swap_actions"), _ => (vec!["nu.htf"], "mutate_swap_components") };
    let mut b = vec!["hibou", cmd, "x.hsf", "mu.htf"];
    b.append(&mut a);
    b.push("-m"); b.push(&s);
    let m = __matches(&b);
    let m = m.subcommand_matches(cmd).unwrap();
    let digit = x[0] >= b'0' && x[0] <= b'9';
    if digit { assume(x[0] == b'0'); }
    let r = match cmd { "mutate_insert_noise" => cli_mutate_insert_noise(m), "mutate_remove_actions" => cli_mutate_remove_actions(m), "mutate_swap_actions" => cli_mutate_swap_actions(m), _ => cli_mutate_swap_components(m) };
    if digit { cover("written") } else { cover("refused") }
    check((r.1 == 0) == digit, "a maximum is refused exactly if it is no number");
    if !digit { check(vfs::written().is_empty(), "nothing is written"); }
}
