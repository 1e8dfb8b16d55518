//! PlantUML: what the written text says, read back by a reader of its own.
use super::gen::*;
use super::DEEP;
use crate::core::execution::trace::trace::TraceActionKind;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::action::*;
use crate::core::language::syntax::interaction::*;
use crate::ui::commands::{cli_puml_ap::cli_puml_ap, cli_puml_sd::cli_puml_sd};
use crate::ui::hibou_cli::__matches;
use crate::{vfs, vio};
use std::collections::BTreeSet;
use vsym::*;

const LF: [&str; 3] = ["a", "b", "c"];
const MS: [&str; 2] = ["m", "n"];
fn ctx(lfs: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    for n in &LF[..lfs] { g.add_lf(n.to_string()); }
    for n in MS { g.add_msg(n.to_string()); }
    for n in ["g", "h"] { g.add_gt(n.to_string()); }
    g
}
fn write(ap: bool, i: &Interaction, lfs: usize, m: &clap::ArgMatches) -> Vec<String> {
    show("interaction", i);
    vfs::clear();
    vio::supply(ctx(lfs), Some(i.clone()), None);
    let (out, code) = if ap { cli_puml_ap(m.subcommand_matches("puml_ap").unwrap()) } else { cli_puml_sd(m.subcommand_matches("puml_sd").unwrap()) };
    check(code == 0 && out.len() > 0, "runs");
    let f = vfs::written();
    check(f.len() == 1, "one file is written");
    let said = out.iter().any(|l| l.ends_with(&f[0].0[..]));
    check(said, "says which file is written");
    show("written", &f[0].1);
    let t: Vec<String> = f[0].1.split('\n').map(|l| l.trim().to_string()).filter(|l| l.len() > 0).collect();
    check(t.len() >= 2 && t[0] == "@startuml" && t[t.len() - 1] == "@enduml", "starts and ends as a diagram");
    t[1..t.len() - 1].to_vec()
}

#[derive(Clone, PartialEq, Debug)]
enum N { Line(String), Frag(&'static str, Vec<Vec<N>>) }
const HEADS: [(&str, &str); 7] = [("group strict", "strict"), ("group par", "par"), ("alt", "alt"), ("group loopX", "X"), ("group loopH", "H"), ("group loopS", "S"), ("group loopP", "P")];
/// the fragments of a sequence diagram
fn read_sd(t: &Vec<String>, at: &mut usize, top: bool) -> Vec<Vec<N>> {
    let mut parts = vec![vec![]];
    while *at < t.len() {
        let l = &t[*at];
        *at += 1;
        if l == "end" { check(!top, "fragments end where they should"); return parts; }
        if l == "else" { check(!top, "operands are inside of fragments"); parts.push(vec![]); continue; }
        if let Some(h) = HEADS.iter().find(|h| h.0 == l) { let p = read_sd(t, at, false); parts.last_mut().unwrap().push(N::Frag(h.1, p)); }
        else { check(l.contains(':'), "a message"); let s: String = l.chars().filter(|c| *c != ' ').collect(); parts.last_mut().unwrap().push(N::Line(s)); }
    }
    check(top, "fragments end");
    parts
}
fn flat(i: &Interaction, k: u8, f: &mut Vec<Vec<N>>) {
    match i {
        Interaction::Strict(a, b) if k == 0 => { flat(a, k, f); flat(b, k, f); }
        Interaction::Par(a, b) if k == 1 => { flat(a, k, f); flat(b, k, f); }
        Interaction::Alt(a, b) if k == 2 => { flat(a, k, f); flat(b, k, f); }
        _ => { let mut v = vec![]; expected(i, &mut v); f.push(v); }
    }
}
fn expected(i: &Interaction, o: &mut Vec<N>) {
    match i {
        Interaction::Empty => {}
        Interaction::Emission(e) => {
            let (l, m) = (LF[e.origin_lf_id], MS[e.ms_id]);
            o.push(N::Line(match e.targets.first() { None => format!("{l}->:{m}"), Some(EmissionTargetRef::Gate(_)) => format!("{l}->]:{m}"), Some(EmissionTargetRef::Lifeline(t)) => format!("{l}->{}:{m}", LF[*t]) }));
        }
        Interaction::Reception(r) => o.push(N::Line(format!("->{}:{}", LF[r.recipients[0]], MS[r.ms_id]))),
        Interaction::Seq(a, b) => { expected(a, o); expected(b, o); }
        Interaction::Strict(..) | Interaction::Par(..) | Interaction::Alt(..) => {
            let k = match i { Interaction::Strict(..) => 0, Interaction::Par(..) => 1, _ => 2 };
            let mut f = vec![];
            flat(i, k, &mut f);
            o.push(N::Frag(["strict", "par", "alt"][k as usize], f));
        }
        Interaction::Loop(k, a) => { let mut v = vec![]; expected(a, &mut v); o.push(N::Frag(match k { LoopKind::SStrictSeq => "X", LoopKind::HHeadFirstWS => "H", LoopKind::WWeakSeq => "S", LoopKind::PInterleaving => "P" }, vec![v])); }
        _ => reject(),
    }
}
/// sequence diagrams: every message, operand and operator, in the order of the model
pub fn sd() {
    let m = __matches(&["hibou", "puml_sd", "x.hsf", "x.hif"]);
    let k = pick(4);
    let ops = STRICT | SEQ | ALT | PAR | LOOPALL;
    let i = match k {
        0 | 1 => Gen::new(Cfg { lfs: 2, msgs: 2, leaves: EMPTY | EM | RC | MSG | SYN | GATES, ops, msgs_distinct: false }).int(k),
        2 => Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM | EMPTY, ops, msgs_distinct: false }).int(2),
        _ => Gen::new(Cfg { lfs: 1, msgs: 1, leaves: EM, ops: if DEEP { ops } else { STRICT | ALT | PAR | SEQ }, msgs_distinct: false }).int(3),
    };
    if !single(&i) { reject(); }
    let t = write(false, &i, 2, &m);
    let mut at = 0;
    let got = read_sd(&t, &mut at, true);
    let mut want = vec![];
    expected(&i, &mut want);
    check(got.len() == 1 && got[0] == want, "the diagram shows the messages and operators of the model");
    cover(["a message", "an operator", "two operators", "three operators"][k as usize]);
}
fn single(i: &Interaction) -> bool {
    match i {
        Interaction::Emission(e) => e.targets.len() < 2,
        Interaction::Reception(r) => r.recipients.len() < 2,
        Interaction::Loop(_, a) => single(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) => single(a) && single(b),
        _ => true,
    }
}

type W = Vec<(bool, usize)>;
type Ws = BTreeSet<W>;
struct Block { edges: Vec<(String, String, Option<(bool, usize)>)>, kinds: Vec<(String, &'static str)>, subs: Vec<(String, Block)> }
fn label(s: &str) -> (bool, usize) {
    let e = s.starts_with('!');
    check(e || s.starts_with('?'), "a transition is an emission or a reception");
    match MS.iter().position(|m| *m == &s[1..]) { Some(k) => (e, k), None => { check(false, "a transition has a message of the model"); reject() } }
}
fn read_ap(t: &Vec<String>, at: &mut usize, top: bool) -> Block {
    let mut b = Block { edges: vec![], kinds: vec![], subs: vec![] };
    while *at < t.len() {
        let l = &t[*at];
        *at += 1;
        let w: Vec<&str> = l.split(' ').filter(|x| x.len() > 0).collect();
        if l == "}" { check(!top, "blocks end where they should"); return b; }
        if w[0] == "state" {
            check(w.len() == 3, "a state");
            let n = w[1].to_string();
            check(!b.kinds.iter().any(|k| k.0 == n) && !b.subs.iter().any(|k| k.0 == n), "a state is declared once");
            match w[2] { "{" => { let s = read_ap(t, at, false); b.subs.push((n, s)); } "<<fork>>" => b.kinds.push((n, "fork")), "<<join>>" => b.kinds.push((n, "join")), "<<choice>>" => b.kinds.push((n, "choice")), _ => check(false, "a kind of state") }
        } else {
            check((w.len() == 3 || w.len() == 5 && w[3] == ":") && w[1] == "-->", "a transition");
            b.edges.push((w[0].to_string(), w[2].to_string(), if w.len() == 5 { Some(label(w[4])) } else { None }));
        }
    }
    check(top, "blocks end");
    b
}
fn names(b: &Block, o: &mut Vec<String>) {
    let mut here: Vec<String> = vec![];
    for (f, t, _) in &b.edges { for x in [f, t] { if x != "[*]" && !here.contains(x) { here.push(x.clone()); } } }
    for (k, _) in &b.kinds { check(here.contains(k), "what is declared is used"); }
    for (k, s) in &b.subs { check(here.contains(k), "what is declared is used"); names(s, o); }
    // every state can be reached inside of its block
    for (f, _, _) in &b.edges { check(f == "[*]" || b.edges.iter().any(|e| e.1 == *f), "transitions leave states that can be reached"); }
    for h in here { check(!o.contains(&h), "states of different blocks are different"); o.push(h); }
}
fn shuffle(a: &W, b: &W, n: usize, pre: &mut W, o: &mut Ws) {
    if a.len() == 0 && b.len() == 0 { o.insert(pre.clone()); return; }
    if pre.len() >= n { return; }
    if let Some(x) = a.first() { pre.push(*x); shuffle(&a[1..].to_vec(), b, n, pre, o); pre.pop(); }
    if let Some(x) = b.first() { pre.push(*x); shuffle(a, &b[1..].to_vec(), n, pre, o); pre.pop(); }
}
fn mix(a: &Ws, b: &Ws, n: usize) -> Ws { let mut o = Ws::new(); for x in a { for y in b { shuffle(x, y, n, &mut vec![], &mut o); } } o }
fn then(a: &Ws, b: &Ws, n: usize) -> Ws { let mut o = Ws::new(); for x in a { for y in b { if x.len() + y.len() <= n { let mut z = x.clone(); z.extend(y.iter().cloned()); o.insert(z); } } } o }
/// the words of at most n actions from a state to the end of the block or to a join that no fork on the way belongs to
fn run(b: &Block, at: &str, n: usize, budget: usize) -> Vec<(W, String)> {
    let mut o: Vec<(W, String)> = vec![];
    if budget == 0 { return o; }
    let kind = b.kinds.iter().find(|k| k.0 == at).map(|k| k.1).unwrap_or("");
    let add = |o: &mut Vec<(W, String)>, p: &W, to: &str, n: usize, budget: usize| {
        if to == "[*]" || b.kinds.iter().any(|k| k.0 == to && k.1 == "join") { let r = (p.clone(), to.to_string()); if !o.contains(&r) { o.push(r); } return; }
        for (w, e) in run(b, to, n - p.len(), budget - 1) { let mut z = p.clone(); z.extend(w); let r = (z, e); if !o.contains(&r) { o.push(r); } }
    };
    if kind == "fork" {
        let mut all: Option<Ws> = None;
        let mut join: Option<String> = None;
        for (f, t, l) in &b.edges { if f == at {
            let p: W = l.iter().cloned().collect();
            if p.len() > n { all = Some(Ws::new()); continue; }
            let mut ends = vec![];
            add(&mut ends, &p, t, n, budget);
            let mut ws = Ws::new();
            for (w, e) in ends { check(e != "[*]" && (join.is_none() || join.as_ref() == Some(&e)), "the branches of a fork end in one join"); join = Some(e); ws.insert(w); }
            all = Some(match all { None => ws, Some(x) => mix(&x, &ws, n) });
        } }
        if let (Some(ws), Some(j)) = (all, join) { for w in ws { for (f, t, l) in &b.edges { if *f == j { let mut p = w.clone(); p.extend(l.iter().cloned()); if p.len() <= n { add(&mut o, &p, t, n, budget); } } } } }
        return o;
    }
    let mut starts: Ws = Ws::new();
    match b.subs.iter().find(|s| s.0 == at) { Some((_, s)) => for (w, e) in run(s, "[*]", n, 12) { check(e == "[*]", "a composite state ends at its end"); starts.insert(w); }, None => { starts.insert(vec![]); } }
    for w in &starts {
        for (f, t, l) in &b.edges {
            if f != at || (t == at && w.len() == 0 && at != "[*]") { continue; }
            let mut p = w.clone(); p.extend(l.iter().cloned());
            if p.len() <= n { add(&mut o, &p, t, n, budget); }
        }
    }
    o
}
/// what a lifeline does, every loop at least once
fn local(i: &Interaction, lf: usize, n: usize) -> Ws {
    match i {
        Interaction::Empty => Ws::from([vec![]]),
        Interaction::Emission(e) => {
            if e.origin_lf_id == lf { return Ws::from([vec![(true, e.ms_id)]]); }
            let r = e.targets.iter().any(|t| match t { EmissionTargetRef::Lifeline(x) => *x == lf, _ => false });
            Ws::from([if r { vec![(false, e.ms_id)] } else { vec![] }])
        }
        Interaction::Reception(r) => Ws::from([if r.recipients.contains(&lf) { vec![(false, r.ms_id)] } else { vec![] }]),
        Interaction::Seq(a, b) | Interaction::Strict(a, b) => then(&local(a, lf, n), &local(b, lf, n), n),
        Interaction::Alt(a, b) => { let mut x = local(a, lf, n); x.extend(local(b, lf, n)); x }
        Interaction::Par(a, b) => mix(&local(a, lf, n), &local(b, lf, n), n),
        Interaction::Loop(_, a) => {
            let one = local(a, lf, n);
            let mut all = one.clone();
            loop { let next = then(&all, &one, n); let k = all.len(); all.extend(next); if all.len() == k { return all; } }
        }
        _ => reject(),
    }
}
fn itself(i: &Interaction) -> bool {
    match i {
        Interaction::Emission(e) => e.targets.iter().any(|t| match t { EmissionTargetRef::Lifeline(x) => *x == e.origin_lf_id, _ => false }),
        Interaction::Loop(_, a) => itself(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) => itself(a) || itself(b),
        _ => false,
    }
}
fn machines(i: &Interaction, lfs: usize, m: &clap::ArgMatches, n: usize) -> usize {
    let t = write(true, i, lfs, m);
    let mut at = 0;
    let b = read_ap(&t, &mut at, true);
    check(b.edges.len() == 0 && b.kinds.len() == 0 && b.subs.len() == lfs, "one machine per lifeline");
    let mut all = vec![];
    let mut most = 0;
    let mut k = 0;
    while k < lfs {
        match b.subs.iter().find(|s| s.0 == format!("lf_{}", LF[k])) {
            None => check(false, "the machine has the name of its lifeline"),
            Some((_, s)) => {
                names(s, &mut all);
                let mut got = Ws::new();
                for (w, e) in run(s, "[*]", n, 14) { check(e == "[*]", "a machine ends at its end"); got.insert(w); }
                let want = local(i, k, n);
                show("lifeline", &k); show("described", &got); show("expected", &want);
                check(got == want, "the machine has the executions of the lifeline");
                if got.len() > most { most = got.len(); }
            }
        }
        k += 1;
    }
    most
}
/// state machines: every lifeline does what the model says, loops at least once
pub fn ap() {
    let m = __matches(&["hibou", "puml_ap", "x.hsf", "x.hif"]);
    let k = pick(4);
    let ops = STRICT | SEQ | ALT | PAR | LOOPS | LOOPH | LOOPW;
    let i = match k {
        0 | 1 => Gen::new(Cfg { lfs: 2, msgs: 2, leaves: EMPTY | EM | RC | MSG | SYN | GATES, ops, msgs_distinct: false }).int(k),
        2 => Gen::new(Cfg { lfs: 2, msgs: 1, leaves: EM | EMPTY | if DEEP { MSG } else { 0 }, ops: STRICT | ALT | PAR | LOOPS, msgs_distinct: false }).int(2),
        _ => Gen::new(Cfg { lfs: 1, msgs: 1, leaves: EM, ops: if DEEP { ops } else { STRICT | ALT | PAR | LOOPS }, msgs_distinct: true }).int(3),
    };
    if itself(&i) { reject(); }
    let _ = TraceActionKind::Emission;
    // messages are numbered when they are all different
    if k == 3 && many(&i) > 2 { reject(); }
    let most = machines(&i, if k == 3 { 1 } else { 2 }, &m, if k < 2 { 3 } else if DEEP { 5 } else { 4 });
    cover(["an action", "an operator", "two operators", "three operators"][k as usize]);
    if most > 1 { cover("several executions"); }
}
fn many(i: &Interaction) -> usize {
    match i {
        Interaction::Empty => 0,
        Interaction::Loop(_, a) => many(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) => many(a) + many(b),
        _ => 1,
    }
}
/// broadcasts
pub fn ap_broadcasts() {
    let m = __matches(&["hibou", "puml_ap", "x.hsf", "x.hif"]);
    let i = Gen::new(Cfg { lfs: 3, msgs: 2, leaves: BC | RC2 | RSYN | SYNN, ops: STRICT | PAR | ALT | LOOPW, msgs_distinct: false }).upto(1);
    if itself(&i) { reject(); }
    machines(&i, 3, &m, 3);
    cover("broadcasts");
}
