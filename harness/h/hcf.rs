//! Configuration (.hcf) and signature (.hsf) files, read through the file-level entry points.
use super::DEEP;
use crate::core::general_context::GeneralContext;
use crate::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
use crate::io::input::hcf::ana::options::HibouAnalyzeOptions;
use crate::io::input::hcf::canon::interface::parse_hcf_file_for_canonize;
use crate::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
use crate::io::input::hcf::explo::options::HibouExploreOptions;
use crate::io::input::hsf::interface::parse_hsf_file;
use crate::io::input::error::HibouParsingError;
use crate::process::ana::filter::{elim::AnalysisFilterEliminationKind as AE, filter::AnalysisFilterCriterion};
use crate::process::ana::param::anakind::*;
use crate::process::ana::param::param::LocalAnalysisLifelineSelectionPolicy as Pol;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict;
use crate::process::explo::filter::{elim::ExplorationFilterEliminationKind as EE, filter::ExplorationFilterCriterion};
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use crate::vfs;
use vsym::*;

fn ctx() -> GeneralContext { let mut g = GeneralContext::new(); for n in ["a", "b", "c"] { g.add_lf(n.to_string()); } g.add_msg("m".to_string()); g }
fn one<'a>(v: &[&'a str]) -> &'a str { v[pick(v.len() as u64) as usize] }
/// a number of up to n symbolic digits; its value
fn number(s: &mut String, n: u64) -> u64 {
    let l = 1 + pick(n);
    let mut v = 0u64;
    let mut k = 0;
    while k < l {
        let d = sym(if k == 0 && l > 1 { 1 } else { 0 }, 9);
        unsafe { s.as_mut_vec().push(b'0' + d as u8); }
        v = v * 10 + d;
        k += 1;
    }
    v
}
fn boolean(s: &mut String) -> bool { let b = pick(2) == 1; s.push_str(if b { one(&["true", "True", "TRUE", "⊤"]) } else { one(&["false", "False", "FALSE", "⊥"]) }); b }


struct Want { strategy: u64, memo: bool, filters: Vec<(u64, u64)>, prio: [Option<i64>; 6], randomize: bool, kind: AnalysisKind, goal: Option<AnalysisGlobalVerdict>, local: bool, dirty: bool, depth: Option<u64>, modulo: u64, por: bool, all: bool, bad: bool }
fn defaults(memo: bool) -> Want { Want { strategy: 0, memo, filters: vec![], prio: [None; 6], randomize: false, kind: AnalysisKind::Prefix, goal: Some(AnalysisGlobalVerdict::WeakPass), local: true, dirty: true, depth: None, modulo: 1, por: false, all: false, bad: false } }
const MAX: u64 = u32::MAX as u64;
fn digits() -> u64 { if DEEP { 3 } else { 2 } }
const ANA: u64 = 0; const EXPLO: u64 = 1; const CANON: u64 = 2;

/// one option, with what it asks for; `n` bounds the digits of its number
fn option(sec: u64, which: u64, n: u64, s: &mut String, w: &mut Want) {
    match which {
        0 => { s.push_str("strategy="); w.strategy = pick(3); s.push_str(match w.strategy { 0 => one(&["BFS", "BreadthFS", "Breadth First Search"]), 1 => one(&["DFS", "DepthFS", "Depth First Search"]), _ => one(&["HCS", "HighCoverageS", "High Coverage Search"]) }); }
        1 => { s.push_str("memoize = "); w.memo = boolean(s); }
        2 => {
            s.push_str("filters=["); w.filters = vec![];
            let m = 1 + pick(2); let mut k = 0;
            while k < m {
                if k > 0 { s.push_str(","); }
                let f = pick(3);
                s.push_str(match f { 0 => one(&["max_depth", "max depth"]), 1 => one(&["max_loop_depth", "max loop depth"]), _ => one(&["max_node_number", "max node number"]) });
                s.push_str(one(&["=", " = "]));
                let v = number(s, if k == 0 { n } else { 1 });
                if v > MAX { w.bad = true; }
                w.filters.push((f, v));
                k += 1;
            }
            if flag() { s.push_str(","); }
            s.push_str("]");
        }
        3 => {
            s.push_str("priorities = ["); w.prio = [None; 6]; w.randomize = false;
            let m = 1 + pick(2); let mut k = 0;
            while k < m {
                if k > 0 { s.push_str(","); }
                let f = if k == 0 { pick(8) } else { [0, 3, 6][pick(3) as usize] };
                s.push_str(["emission", "reception", "multi_rdv", "loop", "elim", "simu", "randomize", "factorize"][f as usize]);
                s.push_str("=");
                if f == 6 { w.randomize = boolean(s); } else {
                    let neg = pick(2) == 1;
                    if neg { s.push_str("-"); }
                    let v = number(s, if k == 0 { n } else { 1 });
                    let v = if neg { -(v as i64) } else { v as i64 };
                    if v > i32::MAX as i64 || v < i32::MIN as i64 { w.bad = true; }
                    if f == 7 || (f > 3 && sec == EXPLO) { w.bad = true; } else { w.prio[f as usize] = Some(v); }
                }
                k += 1;
            }
            if flag() { s.push_str(","); }
            s.push_str("]");
        }
        4 => {
            s.push_str("analysis_kind =");
            match pick(4) {
                0 => { s.push_str("accept"); w.kind = AnalysisKind::Accept; }
                1 => { s.push_str("prefix"); w.kind = AnalysisKind::Prefix; }
                2 => { s.push_str("eliminate"); w.kind = AnalysisKind::Eliminate; }
                _ => { s.push_str("simulate"); simulate(n, s, w); }
            }
        }
        5 => { s.push_str("goal="); match pick(3) { 0 => { s.push_str("Pass"); w.goal = Some(AnalysisGlobalVerdict::Pass); } 1 => { s.push_str("WeakPass"); w.goal = Some(AnalysisGlobalVerdict::WeakPass); } _ => { s.push_str(one(&["none", "None", "NONE"])); w.goal = None; } } }
        6 => {
            s.push_str("local_analysis=");
            w.local = true; w.dirty = true; w.depth = None; w.modulo = 1;
            if pick(4) == 0 { s.push_str(one(&["none", "None", "NONE"])); w.local = false; return; }
            s.push_str("[");
            let m = 1 + pick(2); let mut k = 0; let mut last = 3;
            while k < m {
                if k > 0 { s.push_str(","); }
                last = if k == 0 { pick(3) } else { (last + 1 + pick(2)) % 3 };
                match last {
                    0 => { s.push_str("select="); w.dirty = pick(2) == 0; s.push_str(if w.dirty { one(&["dirty", "Dirty", "DIRTY"]) } else { one(&["all", "All", "ALL"]) }); }
                    1 => { s.push_str(one(&["max_look_ahead_depth", "max depth", "lookahead", "lookup"])); s.push_str(" = "); if pick(4) == 0 { s.push_str("none"); w.depth = None; } else { let v = number(s, n); if v > MAX { w.bad = true; } w.depth = Some(v); } }
                    _ => { s.push_str(one(&["modulo", "modulo_each_X_steps"])); s.push_str("="); w.modulo = number(s, if k == 0 { n } else { 1 }); if w.modulo > MAX { w.bad = true; } }
                }
                k += 1;
            }
            s.push_str("]");
        }
        7 => { s.push_str(one(&["partial_order_reduction", "por", "POR"])); s.push_str("="); w.por = boolean(s); }
        _ => { s.push_str("search_all"); match pick(3) { 0 => w.all = true, 1 => { s.push_str("="); w.all = boolean(s); } _ => { s.push_str(" = "); w.all = boolean(s); } } }
    }
}
fn simulate(n: u64, s: &mut String, w: &mut Want) {
    let mut c = SimulationConfiguration::new(false, false, false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::None);
    if pick(4) > 0 {
        s.push_str("[");
        let m = 1 + pick(2); let mut k = 0; let mut last = 0;
        while k < m {
            if k > 0 { s.push_str(" , "); }
            last = if k == 0 { pick(5) } else { (last + 1 + 2 * pick(2)) % 5 };
            match last {
                0 => { s.push_str(one(&["slice", "before", "preamble"])); s.push_str("="); c.sim_before = boolean(s); }
                1 => { s.push_str(one(&["multiply", "resized", "dependent"])); s.push_str("="); c.multiply_by_multitrace_length = boolean(s); }
                2 => { s.push_str(one(&["reset", "reinitialize"])); s.push_str("="); c.reset_crit_after_exec = boolean(s); }
                3 => { s.push_str("act "); c.act_crit = match pick(3) { 0 => { s.push_str("num = "); let v = number(s, if k == 0 { n } else { 1 }); if v > MAX { w.bad = true; } SimulationActionCriterion::SpecificNum(v as u32) } 1 => { s.push_str(one(&["max_num", "max num"])); SimulationActionCriterion::MaxNumOutsideLoops } _ => { s.push_str("none"); SimulationActionCriterion::None } }; }
                _ => { s.push_str("loop "); c.loop_crit = match pick(4) { 0 => { s.push_str("num="); let v = number(s, if k == 0 { n } else { 1 }); if v > MAX { w.bad = true; } SimulationLoopCriterion::SpecificNum(v as u32) } 1 => { s.push_str(one(&["max_num", "max num"])); SimulationLoopCriterion::MaxNum } 2 => { s.push_str(one(&["max_depth", "max depth"])); SimulationLoopCriterion::MaxDepth } _ => { s.push_str("none"); SimulationLoopCriterion::None } }; }
            }
            k += 1;
        }
        s.push_str("]");
    }
    w.kind = AnalysisKind::Simulate(c);
}
fn strategy(q: &QueueSearchStrategy) -> u64 { match q { QueueSearchStrategy::BFS => 0, QueueSearchStrategy::DFS => 1, QueueSearchStrategy::HCS => 2 } }
fn same_prio(w: &Want, p: &[i32]) -> bool { let mut ok = true; let mut k = 0; while k < p.len() { if let Some(v) = w.prio[k] { ok = ok & (v == p[k] as i64); } k += 1; } ok }
fn is_ana(w: &Want, r: &HibouAnalyzeOptions) {
    check(strategy(&r.strategy) == w.strategy, "the search strategy is the one asked for");
    check(r.use_memoization == w.memo, "memoization is as asked for");
    check(r.filters.len() == w.filters.len(), "there are as many filters as asked for");
    let (d, n, l) = (sym(0, MAX), sym(0, MAX), sym(0, MAX));
    let mut k = 0;
    while k < w.filters.len() {
        let (f, v) = w.filters[k];
        let got = match r.filters[k].apply_filter(d as u32, n as u32, &AnalysisFilterCriterion { loop_depth: l as u32 }) { None => 3, Some(AE::MaxProcessDepth) => 0, Some(AE::MaxLoopInstanciation) => 1, Some(AE::MaxNodeNumber) => 2 };
        let hit = match f { 0 => d > v, 1 => l > v, _ => n >= v };
        check((got == f) == hit && (got == 3) != hit, "a filter stops exactly what exceeds the limit asked for");
        k += 1;
    }
    let p = &r.priorities.specific;
    check(r.priorities.randomize == w.randomize && same_prio(w, &[p.emission, p.reception, p.multi_rdv, p.in_loop, p.elim, p.simu]), "priorities are the ones asked for");
    check(r.ana_param.ana_kind == w.kind, "the kind of analysis is the one asked for");
    check(r.goal == w.goal, "the goal is the one asked for");
    check(r.ana_param.partial_order_reduction == w.por, "partial-order reduction is as asked for");
    match &r.ana_param.locana {
        None => check(!w.local, "local analyses are as asked for"),
        Some(x) => check(w.local && (x.on_lifeline_policy == Pol::OnlyOnImpactedByLastStep) == w.dirty && x.max_look_ahead_depth.map(|v| v as u64) == w.depth && x.modulo_each_X_steps as u64 == w.modulo, "local analyses are as asked for"),
    }
}
fn is_explo(w: &Want, r: &HibouExploreOptions) {
    check(strategy(&r.strategy) == w.strategy, "the search strategy is the one asked for");
    check(r.use_memoization == w.memo, "memoization is as asked for");
    check(r.filters.len() == w.filters.len(), "there are as many filters as asked for");
    let (d, n, l) = (sym(0, MAX), sym(0, MAX), sym(0, MAX));
    let mut k = 0;
    while k < w.filters.len() {
        let (f, v) = w.filters[k];
        let got = match r.filters[k].apply_filter(d as u32, n as u32, &ExplorationFilterCriterion { loop_depth: l as u32 }) { None => 3, Some(EE::MaxProcessDepth) => 0, Some(EE::MaxLoopInstanciation) => 1, Some(EE::MaxNodeNumber) => 2 };
        let hit = match f { 0 => d > v, 1 => l > v, _ => n >= v };
        check((got == f) == hit && (got == 3) != hit, "a filter stops exactly what exceeds the limit asked for");
        k += 1;
    }
    let p = &r.priorities.specific;
    check(r.priorities.randomize == w.randomize && same_prio(w, &[p.emission, p.reception, p.multi_rdv, p.in_loop]), "priorities are the ones asked for");
}
/// reads the text as the section says and compares
fn read(sec: u64, text: String, w: &Want) {
    if verbose() { eprintln!("    text: {text}"); }
    vfs::put(text);
    let g = ctx();
    match sec {
        ANA => match parse_hcf_file_for_ana(&g, "d/x.hcf") { Err(e) => refused(&e, w), Ok(r) => { cover("read"); check(!w.bad, "what cannot be honoured is refused"); is_ana(w, &r); } },
        EXPLO => match parse_hcf_file_for_explore(&g, "d/x.hcf") { Err(e) => refused(&e, w), Ok(r) => { cover("read"); check(!w.bad, "what cannot be honoured is refused"); is_explo(w, &r); } },
        _ => match parse_hcf_file_for_canonize(&g, "d/x.hcf") { Err(e) => refused(&e, w), Ok(r) => { cover("read"); check(!w.bad, "what cannot be honoured is refused"); check(r.search_all == w.all, "the search for all forms is as asked for"); check(strategy(&r.strategy) == w.strategy && r.filters.len() == w.filters.len(), "strategy and filters are as asked for"); } },
    }
}
fn refused(e: &HibouParsingError, w: &Want) { cover("refused"); if verbose() { eprintln!("    error: {e}"); } check(w.bad, "a well-formed configuration is read"); }
const NAME: [&str; 3] = ["@analyze_option", "@explore_option", "@canonize_option"];

fn single(sec: u64, which: u64, n: u64) {
    let mut w = defaults(sec == ANA);
    let mut s = format!("{}{{", NAME[sec as usize]);
    option(sec, which, n, &mut s, &mut w);
    if flag() { s.push_str(";"); }
    s.push_str("}");
    read(sec, s, &w);
}
pub fn ana_general() { single(ANA, pick(4), digits()) }
pub fn ana_specific() { single(ANA, 4 + pick(4), digits()) }
pub fn explo() { single(EXPLO, pick(4), digits()) }
/// several options in a section; the last one of a kind counts
pub fn several() {
    let mut w = defaults(true);
    let mut s = "@analyze_option { ".to_string();
    let m = if DEEP { 3 } else { 2 };
    let mut k = 0;
    while k < m {
        if k > 0 { s.push_str(" ; "); }
        match pick(6) {
            0 => { w.strategy = pick(3); s.push_str(["strategy=BFS", "strategy=DFS", "strategy=HCS"][w.strategy as usize]); }
            1 => { w.memo = pick(2) == 1; s.push_str(["memoize=false", "memoize=true"][w.memo as usize]); }
            2 => { let d = sym(0, 9); w.filters = vec![(0, d)]; s.push_str("filters=[max_depth="); unsafe { s.as_mut_vec().push(b'0' + d as u8); } s.push_str("]"); }
            3 => { w.kind = if pick(2) == 1 { AnalysisKind::Accept } else { AnalysisKind::Eliminate }; s.push_str(if w.kind == AnalysisKind::Accept { "analysis_kind=accept" } else { "analysis_kind=eliminate" }); }
            4 => { w.goal = if pick(2) == 1 { Some(AnalysisGlobalVerdict::Pass) } else { None }; s.push_str(if w.goal.is_some() { "goal=Pass" } else { "goal=none" }); }
            _ => { w.por = pick(2) == 1; s.push_str(["por=false", "por=true"][w.por as usize]); }
        }
        k += 1;
    }
    s.push_str("}");
    read(ANA, s, &w);
}
/// only the section of the command counts; two of them are refused; a section left out means the defaults
pub fn sections() {
    let sec = pick(3);
    let n = pick(4);
    let mut s = String::new();
    let mut w = defaults(sec == ANA);
    let mut own = 0;
    let mut k = 0;
    while k < n {
        let x = pick(3);
        s.push_str(NAME[x as usize]);
        if x == CANON { let all = pick(2) == 1; if sec == CANON { w.all = all; } s.push_str(if all { "{search_all=true}" } else { "{search_all=false}" }); }
        else { let st = pick(3); if sec == x { w.strategy = st; } s.push_str(["{strategy=BFS}", "{strategy=DFS;}", "{ strategy = HCS }"][st as usize]); }
        if x == sec { own += 1; }
        if flag() { s.push_str(" /* ; } */\n"); }
        k += 1;
    }
    if own > 1 { w.bad = true; }
    if own == 0 && sec == ANA { w.strategy = 1; }
    if own == 0 && sec == EXPLO { w.filters = vec![(1, 1)]; }
    read(sec, s, &w);
}
/// numbers around the largest one that can be stored
pub fn numbers() {
    let mut w = defaults(false);
    let mut s = "@explore_option{filters=[max_depth=".to_string();
    let (t, last) = ([("429496729", 9), ("4294967", 3), ("1234567890", 2)] as [(&str, u64); 3])[pick(3) as usize];
    s.push_str(t);
    let mut v: u64 = 0;
    for c in t.bytes() { v = v * 10 + (c - b'0') as u64; }
    let mut k = 0;
    while k < (if last == 3 { 3 } else { 1 }) { let d = sym(0, 9); unsafe { s.as_mut_vec().push(b'0' + d as u8); } v = v * 10 + d; k += 1; }
    w.filters = vec![(0, v)];
    if v > MAX { w.bad = true; }
    s.push_str("]}");
    read(EXPLO, s, &w);
}
pub fn numbers_ana() {
    let mut w = defaults(true);
    let mut s = "@analyze_option{".to_string();
    let which = pick(6);
    let (t, signed) = match which { 0 => ("filters=[max_loop_depth=429496729", false), 1 => ("priorities=[emission=214748364", true), 2 => ("priorities=[simu=-214748364", true), 3 => ("local_analysis=[lookup=429496729", false), 4 => ("local_analysis=[modulo=429496729", false), _ => ("analysis_kind=simulate[act num=429496729", false) };
    s.push_str(t);
    let d = sym(0, 9);
    unsafe { s.as_mut_vec().push(b'0' + d as u8); }
    s.push_str("]}");
    let v = if signed { 2147483640 + d } else { 4294967290 + d };
    if which == 0 { w.filters = vec![(1, v)]; w.bad = v > MAX; }
    else if which == 1 { w.prio[0] = Some(v as i64); w.bad = v > i32::MAX as u64; }
    else if which == 2 { w.prio[5] = Some(-(v as i64)); w.bad = v > 1 << 31; }
    else if which == 3 { w.depth = Some(v); w.bad = v > MAX; }
    else if which == 4 { w.modulo = v; w.bad = v > MAX; }
    else { w.kind = AnalysisKind::Simulate(SimulationConfiguration::new(false, false, false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::SpecificNum(v as u32))); w.bad = v > MAX; }
    read(ANA, s, &w);
}
/// canonization offers loggers and search_all only
pub fn canon() {
    let mut w = defaults(false);
    let mut s = "@canonize_option{".to_string();
    match pick(4) {
        0 => option(CANON, 8, 1, &mut s, &mut w),
        1 => { s.push_str(one(&["strategy=BFS", "memoize=true", "filters=[max_depth=3]", "priorities=[loop=1]", "loggers=[tracegen]", "loggers=[nfa]"])); w.bad = true; }
        2 => { s.push_str("loggers=[graphic[svg],graphic];search_all"); w.all = true; }
        _ => { s.push_str("search_all=true;search_all=false"); }
    }
    s.push_str("}");
    read(CANON, s, &w);
}
/// every documented spelling of a logger's options is read
pub fn loggers() {
    let sec = pick(2);
    let mut s = format!("{}{{loggers = [", NAME[sec as usize]);
    let n = 1 + pick(2);
    let mut bad = false;
    let mut k = 0;
    while k < n {
        if k > 0 { s.push_str(","); }
        match pick(if k == 0 { 3 } else { 2 }) {
            0 => { s.push_str("graphic"); if k == 0 { s.push_str(one(&["", "[svg]", "[format=png,layout=horizontal]", "[vertical,draw_sd=true,draw_tt=False]", "[parent=p]", "[parent_folder=p]", "[folder = p,]", "[output=o]", "[name=o]", "[draw_legend=⊥,draw_sub_processes=⊤]"])); } }
            1 => {
                s.push_str("tracegen");
                if k == 0 {
                    s.push_str(one(&["", "[generation=accepted]", "[parent=p]", "[parent_folder=p]", "[folder=p]", "[prefix=t]", "[name_prefix=t]", "[trace_prefix = t]", "[avoid_duplicates=true]", "[prevent_duplicates=true,no_duplicates=false,]", "[partition=discrete]", "[partition = trivial]", "[partition={(a,b),(c)}]", "[partition={(b)}]", "[generation=exact depth 4294967296]", "[generation=modulo depth 0]", "[partition={(a),(b,a)}]", "[partition={(a),(d)}]"]));
                    if s.ends_with("4294967296]") || s.ends_with("depth 0]") || s.ends_with("b,a)}]") || s.ends_with("(d)}]") { bad = true; }
                }
            }
            _ => { s.push_str(one(&["nfa", "nfait"])); if sec == ANA { bad = true; } }
        }
        k += 1;
    }
    s.push_str("]}");
    if verbose() { eprintln!("    text: {s}"); }
    vfs::put(s);
    let g = ctx();
    let r = if sec == ANA { parse_hcf_file_for_ana(&g, "x.hcf").map(|r| r.loggers.len()) } else { parse_hcf_file_for_explore(&g, "x.hcf").map(|r| r.loggers.len()) };
    match r {
        Err(e) => { cover("refused"); if verbose() { eprintln!("    error: {e}"); } check(bad, "a well-formed configuration is read") }
        Ok(m) => { cover("read"); check(!bad, "what cannot be honoured is refused"); check(m == n as usize, "there are as many loggers as asked for") }
    }
}
/// n arbitrary characters in a configuration: read or refused, never a crash
fn any(sec: u64, t: &str, n: u64) {
    let at = pick(t.len() as u64 - n + 1) as usize;
    let mut b: Vec<u8> = t.as_bytes().to_vec();
    let mut k = 0;
    while k < n as usize { b[at + k] = sym(0, 127) as u8; k += 1; }
    let s = unsafe { String::from_utf8_unchecked(b) };
    if verbose() { eprintln!("    text: {s:?}"); }
    vfs::put(s);
    let g = ctx();
    let ok = match sec { ANA => parse_hcf_file_for_ana(&g, "x.hcf").is_ok(), EXPLO => parse_hcf_file_for_explore(&g, "x.hcf").is_ok(), _ => parse_hcf_file_for_canonize(&g, "x.hcf").is_ok() };
    cover(if ok { "read" } else { "refused" });
    check(true, "reading a configuration does not crash");
}
pub fn text() {
    let n = if DEEP { 2 } else { 1 };
    match pick(5) {
        0 => any(ANA, "@analyze_option{local_analysis=[modulo=2];priorities=[emission=-1]}", n),
        1 => any(ANA, "@analyze_option{analysis_kind=simulate[loop num=1,act none];goal=Pass;por=true}", n),
        2 => any(EXPLO, "@explore_option{loggers=[tracegen[partition={(a,b),(c)}]];filters=[max depth=1]}", n),
        3 => any(EXPLO, "@explore_option{loggers=[graphic[svg,folder=p],nfait,tracegen[generation=exact depth 12]]}", n),
        _ => any(CANON, "@canonize_option{search_all=false;loggers=[graphic]}", n),
    }
}

/// signatures
pub fn hsf() {
    let pool = ["a", "ab", "b", "message"];
    let n = pick(4);
    let mut s = String::new();
    let mut e: [Vec<&str>; 3] = [vec![], vec![], vec![]];
    let mut seen = [0; 3];
    let mut k = 0;
    while k < n {
        let x = pick(3) as usize;
        s.push_str(["@message", "@lifeline", "@gate"][x]); s.push_str("{");
        seen[x] += 1;
        let m = 1 + pick(if k == 0 { 2 } else { 1 });
        let mut j = 0;
        while j < m {
            if j > 0 { s.push_str(" ;"); }

            let w = one(if k < 2 { &pool } else { &pool[2..3] });
            s.push_str(w);
            if !e[x].contains(&w) { e[x].push(w); }
            j += 1;
        }
        if k == 0 && flag() { s.push_str(";"); }
        s.push_str("}\n");
        k += 1;
    }
    let bad = seen.iter().any(|x| *x > 1);
    if verbose() { eprintln!("    text: {s:?}"); }
    vfs::put(s);
    match parse_hsf_file("x.hsf") {
        Err(_) => { cover("refused"); check(bad, "a signature is refused only if it has two sections of one kind") }
        Ok(g) => {
            cover("read");
            check(!bad, "a signature with two sections of one kind is refused");
            check(g.get_lf_num() == e[1].len() && g.get_ms_num() == e[0].len(), "as many lifelines and messages as declared");
            let mut ok = true;
            for (k, w) in e[0].iter().enumerate() { ok = ok && g.get_ms_id(w) == Some(k) && g.get_ms_name(k).unwrap() == *w; }
            for (k, w) in e[1].iter().enumerate() { ok = ok && g.get_lf_id(w) == Some(k) && g.get_lf_name(k).unwrap() == *w; }
            for (k, w) in e[2].iter().enumerate() { ok = ok && g.get_gt_id(w) == Some(k) && g.get_gt_name(k).unwrap() == *w; }
            check(ok, "names are numbered in the order of their declaration and found again");
            let mut none = true;
            for w in pool { none = none && (g.get_ms_id(w).is_some() == e[0].contains(&w)) && (g.get_lf_id(w).is_some() == e[1].contains(&w)) && (g.get_gt_id(w).is_some() == e[2].contains(&w)); }
            check(none, "nothing else is declared");
            let all: Vec<usize> = g.get_all_lfs_ids().into_iter().collect();
            check(all == (0..e[1].len()).collect::<Vec<_>>(), "all lifelines are listed");
            check(g.get_lf_name(e[1].len()).is_err() && g.get_ms_name(e[0].len()).is_err() && g.get_gt_name(e[2].len()).is_err(), "an unknown number has no name");
        }
    }
}
/// files of another kind are refused
pub fn extensions() {
    let mut p = one(&["x.", "d.c/x", ""]).to_string();
    let n = 1 + pick(4);
    let mut k = 0;
    while k < n { unsafe { p.as_mut_vec().push(sym(b'a' as u64, b'z' as u64) as u8); } k += 1; }
    vfs::put("".to_string());
    let g = ctx();
    let (a, b, c, d, e, f) = (parse_hsf_file(&p).is_ok(), parse_hcf_file_for_ana(&g, &p).is_ok(), parse_hcf_file_for_explore(&g, &p).is_ok(), parse_hcf_file_for_canonize(&g, &p).is_ok(), crate::io::input::hif::interface::parse_hif_file(&g, &p).is_ok(), crate::io::input::htf::interface::parse_htf_file(&g, &p).is_ok());
    cover(if a { "signature" } else if b { "configuration" } else { "other" });
    check(a == (p == "x.hsf"), "signatures are read from .hsf files");
    let h = p == "x.hcf";
    check(b == h && c == h && d == h, "configurations are read from .hcf files");
    check(!e || p == "x.hif", "models are read from .hif files");
    check(!f || p == "x.htf", "multi-traces are read from .htf files");
}
