//! The slice command.
use super::DEEP;
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::*;
use crate::core::execution::trace::trace::*;
use crate::core::general_context::GeneralContext;
use crate::io::output::to_hfiles::trace::multi_trace::multi_trace_as_htf_encoding;
use crate::ui::commands::cli_slice::cli_slice;
use crate::ui::hibou_cli::__matches;
use crate::{vfs, vio};
use clap::ArgMatches;
use std::collections::BTreeSet;
use vsym::*;

pub fn names() -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in ["a", "b", "c"] { g.add_lf(n.to_string()); }
    for n in ["m", "n", "o", "p", "q", "r"] { g.add_msg(n.to_string()); }
    g
}
pub fn parts(n: usize) -> (CoLocalizations, Vec<Vec<usize>>) {
    let p: Vec<Vec<usize>> = match n { 1 => vec![vec![0, 1, 2]], 2 => vec![vec![1], vec![0, 2]], _ => vec![vec![2], vec![0], vec![1]] };
    (CoLocalizations::new(p.iter().map(|l| BTreeSet::from_iter(l.iter().cloned())).collect()), p)
}
/// canals of the given lengths; letters that differ, but for one whose message is arbitrary and that may hold two actions
pub fn mu(p: &Vec<Vec<usize>>, lens: &[usize]) -> MultiTrace {
    let mut k = 0;
    let total: usize = lens.iter().sum();
    let free = if total == 0 { 0 } else { pick(total as u64) as usize };
    let mut mt = vec![];
    for (c, n) in lens.iter().enumerate() {
        let mut t: Trace = vec![];
        while t.len() < *n {
            let l = p[c][t.len() % p[c].len()];
            let mut b = BTreeSet::new();
            b.insert(TraceAction::new(l, if k % 2 == 0 { TraceActionKind::Emission } else { TraceActionKind::Reception }, if k == free { sym(0, 1) as usize } else { k }));
            if k == free { let l2 = p[c][p[c].len() - 1]; b.insert(TraceAction::new(l2, TraceActionKind::Reception, 5)); }
            t.push(b); k += 1;
        }
        mt.push(t);
    }
    mt
}
#[derive(Clone, Copy, PartialEq)]
enum Kind { Prefix, Suffix, Slice }
use Kind::*;
/// the windows of a canal, the empty one once
fn windows(k: Kind, n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i <= n {
        match k {
            Prefix => v.push((0, i)),
            Suffix => v.push((i, n)),
            Slice => { let mut j = i + 1; while j <= n { v.push((i, j)); j += 1; } }
        }
        i += 1;
    }
    if k == Slice { v.push((0, 0)); }
    v
}
fn product(k: Kind, mt: &MultiTrace) -> Vec<MultiTrace> {
    let mut v: Vec<MultiTrace> = vec![vec![]];
    for t in mt {
        let mut w = vec![];
        for p in &v { for (i, j) in windows(k, t.len()) { let mut q = p.clone(); q.push(t[i..j].to_vec()); w.push(q); } }
        v = w;
    }
    v
}
fn kind_name(k: Kind) -> &'static str { match k { Prefix => "prefix", Suffix => "suffix", Slice => "slice" } }
fn kind() -> Kind { match pick(3) { 0 => Prefix, 1 => Suffix, _ => Slice } }
/// reads the arguments; done before anything else is chosen, as it takes most of the time
fn args(a: Vec<&str>) -> ArgMatches { show("arguments", &a); __matches(&a) }
fn run(m: &ArgMatches, c: &CoLocalizations, mt: &MultiTrace) -> (Vec<String>, u32, Vec<(String, String)>) {
    vfs::clear();
    vio::supply(names(), None, Some((c.clone(), mt.clone())));
    show("co-localizations", c); show("multi-trace", mt);
    let (o, r) = cli_slice(m.subcommand_matches("slice").unwrap());
    let w = vfs::written();
    show("written", &w);
    (o, r, w)
}
/// file names {dir}/{prefix}s{k}.htf with different numbers k in 1..=n
fn numbered(w: &Vec<(String, String)>, stem: &str, n: usize) {
    let mut seen = vec![false; n + 1];
    for (f, _) in w {
        let mut found = false;
        let mut k = 1;
        while k <= n { if *f == format!("{stem}s{k}.htf") { check(!seen[k], "every slice has its own file"); seen[k] = true; found = true; } k += 1; }
        check(found, "slices are numbered from 1 and written where asked");
    }
}
/// without -r: every combination of slices of the canals, once
pub fn exhaustive() {
    let k = kind();
    let form = pick(4);
    let mut a = vec!["hibou", "slice", "s/x.hsf", "t/mu.htf"];
    let mut stem = "./mu_slices/".to_string();
    if form & 1 == 1 { a.push("-p"); a.push("d/e"); stem = "d/e/".to_string(); }
    if form & 2 == 2 { a.push("-n"); a.push("pre"); stem.push_str("pre"); }
    if k != Slice || form & 1 == 1 { a.push("-k"); a.push(kind_name(k)); }
    let m = args(a);
    let n = 1 + pick(3) as usize;
    let (c, p) = parts(n);
    let big: &[&[usize]] = if DEEP { &[&[3], &[2, 2], &[2, 1, 1]] } else { &[&[3], &[2, 1], &[1, 1, 1]] };
    let mut lens = vec![];
    for x in big[n - 1] { lens.push(pick(*x as u64 + 1) as usize); }
    let mt = mu(&p, &lens);
    let (_, code, w) = run(&m, &c, &mt);
    check(code == 0, "runs");
    let g = names();
    let want: Vec<String> = product(k, &mt).iter().map(|x| multi_trace_as_htf_encoding(&g, &c, x)).collect();
    numbered(&w, &stem, want.len());
    check(w.len() == want.len(), "as many slices as combinations");
    cover("written");
    // the same texts, as often
    for x in &want {
        let (mut n, mut m) = (0, 0);
        for y in &want { if x == y { n += 1; } }
        for (_, y) in &w { if x == y { m += 1; } }
        check(n == m, "every combination of slices is written exactly once");
    }
}
fn is_slice(k: Kind, t: &Trace, s: &Trace, third: bool) -> bool {
    for (i, j) in windows(k, t.len()) { if (!third || 3 * (j - i) >= t.len()) && t[i..j].to_vec() == *s { return true; } }
    false
}
fn drawn(n: usize, most: &[usize], num: usize, wide: bool) {
    let k = kind();
    let ns = num.to_string();
    let mut a = vec!["hibou", "slice", "x.hsf", "mu.htf", "-k", kind_name(k), "-r", &ns];
    if wide { a.push("-w"); }
    let m = args(a);
    let (c, p) = parts(n);
    let mut lens = vec![];
    for x in most { lens.push(pick(*x as u64 + 1) as usize); }
    let mt = mu(&p, &lens);
    let (_, code, w) = run(&m, &c, &mt);
    check(code == 0, "runs");
    numbered(&w, "./mu_slices/", num);
    check(w.len() <= num && (w.len() > 0 || num == 0), "at most as many slices as asked, at least one");
    cover("written");
    let g = names();
    let mut ok: Vec<String> = vec![];
    for x in product(k, &mt) {
        let mut y = true;
        let mut i = 0;
        while i < n { if wide && 3 * x[i].len() < mt[i].len() { y = false; } i += 1; }
        if y { ok.push(multi_trace_as_htf_encoding(&g, &c, &x)); }
    }
    for (i, (_, x)) in w.iter().enumerate() {
        check(ok.contains(x), if wide { "every canal of a wide slice is a slice of at least a third of the canal" } else { "every canal of a random slice is a slice of the canal" });
    }
}
pub fn random() {
    crate::ui::hibou_cli::__app();
    match pick(if DEEP { 4 } else { 3 }) {
        0 => drawn(1, &[3], 1, false),
        1 => drawn(2, &[1, 2], 1, false),
        2 => drawn(1, &[2], 2, false),
        _ => drawn(1, &[3], 3, false),
    }
}
pub fn wide() {
    crate::ui::hibou_cli::__app();
    match pick(3) {
        0 => drawn(1, &[if DEEP { 8 } else { 6 }], 1, true),
        1 => drawn(2, &[1, 3], 1, true),
        _ => drawn(1, &[3], 2, true),
    }
}
/// every slice can be drawn
pub fn every() {
    let k = kind();
    let wide = pick(2) == 1;
    let mut a = vec!["hibou", "slice", "x.hsf", "mu.htf", "-k", kind_name(k), "-r", "1"];
    if wide { a.push("-w"); }
    let m = args(a);
    let (c, p) = parts(1);
    let mt = mu(&p, &[3]);
    let (_, _, w) = run(&m, &c, &mt);
    check(w.len() == 1, "one slice");
    let g = names();
    for (i, j) in windows(k, 3) {
        if multi_trace_as_htf_encoding(&g, &c, &vec![mt[0][i..j].to_vec()]) == w[0].1 {
            let l = match (k, wide, i, j) {
                (Prefix, false, 0, 0) => "the empty prefix", (Prefix, false, 0, 1) => "the prefix of one letter", (Prefix, false, 0, 2) => "the prefix of two letters", (Prefix, false, _, _) => "the whole trace as prefix",
                (Suffix, false, 0, 3) => "the whole trace as suffix", (Suffix, false, 1, 3) => "the suffix of two letters", (Suffix, false, 2, 3) => "the suffix of one letter", (Suffix, false, _, _) => "the empty suffix",
                (Slice, false, 0, 0) => "the empty slice", (Slice, false, 0, 3) => "the whole trace as slice", (Slice, false, 0, 1) => "the first letter", (Slice, false, 1, 2) => "the letter in the middle", (Slice, false, 2, 3) => "the last letter", (Slice, false, 0, 2) => "the first two letters", (Slice, false, 1, 3) => "the last two letters",
                (Prefix, true, 0, 3) => "the whole trace as wide prefix", (Suffix, true, 0, 3) => "the whole trace as wide suffix", (Slice, true, 0, 3) => "the whole trace as wide slice",
                _ => "another",
            };
            cover(l);
        }
    }
}
/// what the options may be
pub fn options() {
    let (c, p) = parts(1);
    let mt = mu(&p, &[0]);
    let x = [sym(0, 127) as u8];
    let s = unsafe { std::str::from_utf8_unchecked(&x) }.to_string();
    assume(x[0] != b'-' && x[0] != 0);
    if flag() {
        let (_, code, w) = run(&args(vec!["hibou", "slice", "x.hsf", "mu.htf", "-r", &s]), &c, &mt);
        let d = x[0] >= b'0' && x[0] <= b'9';
        if d { cover("written") } else { cover("refused") }
        check((code == 0) == d, "a number of slices is refused exactly if it is no number");
        if d { check(w.len() <= (x[0] - b'0') as usize, "at most as many slices as asked"); } else { check(w.len() == 0, "nothing is written"); }
    } else {
        let (_, code, w) = run(&args(vec!["hibou", "slice", "x.hsf", "mu.htf", "-k", &s]), &c, &mt);
        check(code == 1 && w.len() == 0, "an unknown kind of slices is refused");
    }
}
