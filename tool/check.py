#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only ENTRY] [--keep]

Decides one property: copies /repo's current source, adds the harness modules the property needs, lowers
everything to MIR with the nightly compiler, explores it symbolically (engine/), replays every model the solver
returns against the natively compiled code, and writes evidence/<PROPERTY>.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, NIGHTLY_LIB, TRIPLE, log, base_env
import bounds
import registry

T0 = time.time()
H = os.path.join(VERIF, "harness")

class Fail(Exception): pass

def pkg_env(e, d):
    m = open(os.path.join(REPO, "Cargo.toml")).read()
    def g(k, dflt=""):
        r = re.search(rf'(?m)^{k}\s*=\s*"([^"]*)"', m)
        return r.group(1) if r else dflt
    v = g("version", "0.0.0")
    a = re.search(r"(?m)^authors\s*=\s*\[([^\]]*)\]", m)
    authors = ":".join(re.findall(r'"([^"]*)"', a.group(1))) if a else ""
    mj = (v.split("-")[0].split(".") + ["0", "0", "0"])[:3]
    e.update(CARGO_MANIFEST_DIR=d, CARGO_PKG_VERSION=v, CARGO_PKG_NAME=g("name"), CARGO_CRATE_NAME=g("name"), CARGO_PKG_AUTHORS=authors,
             CARGO_PKG_DESCRIPTION=g("description"), CARGO_PKG_VERSION_MAJOR=mj[0], CARGO_PKG_VERSION_MINOR=mj[1], CARGO_PKG_VERSION_PATCH=mj[2],
             CARGO_PKG_VERSION_PRE="", CARGO_PKG_HOMEPAGE="", CARGO_PKG_REPOSITORY="", CARGO_PKG_LICENSE=g("license"), CARGO_BIN_NAME=g("name"), CARGO_PKG_RUST_VERSION="", CARGO_PKG_LICENSE_FILE="", CARGO_PKG_README="")
    return e

def popen(cmd, env, cwd=None, stdout=None, stderr=None):
    return subprocess.Popen(cmd, env=env, cwd=cwd, stdout=stdout or subprocess.PIPE, stderr=stderr or subprocess.PIPE)

def must(p, what, timeout=600):
    out, err = p.communicate(timeout=timeout)
    if p.returncode != 0:
        raise Fail(f"{what} failed ({p.returncode})\n" + err.decode(errors="replace")[-3000:] + out.decode(errors="replace")[-1000:])
    return out.decode(errors="replace")

def in_memory(t):
    """std::fs is replaced by harness/vfs.rs, however it is imported"""
    def group(m):
        items, depth, cur = [], 0, ""
        for c in m.group(2):
            if c == "," and depth == 0: items.append(cur.strip()); cur = ""; continue
            depth += (c == "{") - (c == "}")
            cur += c
        items = [x for x in items + [cur.strip()] if x]
        fs = [x for x in items if re.match(r"fs\b", x)]
        if not fs: return m.group(0)
        rest = [x for x in items if x not in fs]
        return m.group(1) + "use crate::vstd::{" + ", ".join(fs) + "};" + (" " + m.group(1).strip() + (" " if m.group(1).strip() else "") + "use std::{" + ", ".join(rest) + "};" if rest else "")
    t = re.sub(r"(?m)^([ \t]*(?:pub\s+)?)use\s+(?:::)?std::\{([^;]*)\}\s*;", group, t)
    return re.sub(r"(?:::)?\bstd::fs\b", "crate::vstd::fs", t)

def prepare(scratch, entries, tier):
    d = os.path.join(scratch, "crate")
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(REPO, "Cargo.toml"), d)
    main = os.path.join(d, "src/main.rs")
    s = open(main).read()
    s, n = re.subn(r"(?m)^(\s*(?:pub\s+)?)fn\s+main\s*\(", r"\1fn __orig_main(", s)
    if n != 1: raise Fail("main.rs: no single main function")
    # the harness sits beside the crate's own modules: every module file is made reachable from it
    for dp, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".rs"):
                q = os.path.join(dp, f); t = open(q).read()
                t2 = re.sub(r"(?m)^([ \t]*)(?:pub\s*\([^)\n]*\)\s*)?mod(\s+\w+\s*;)", r"\1pub mod\2", t)
                # files are read from and written to memory
                rel = os.path.relpath(q, os.path.join(d, "src"))
                t2 = in_memory(t2)
                m = re.fullmatch(r"io/input/(hsf|hif|htf)/interface\.rs", rel)
                if m: t2 = re.sub(r"(fn\s+parse_%s_file\s*\([^{]*\{)" % m.group(1), r"\1 if let Some(x) = crate::vio::%s() { return Ok(x); }" % m.group(1), t2, count=1)
                if rel == "ui/hibou_cli.rs":
                    t2 = re.sub(r"\.get_matches\s*\(\s*\)", ".get_matches_from(crate::vio::arguments())", re.sub(r"\bApp::from_yaml\s*\((?:[^()]|\([^()]*\))*\)", "__app()", t2))
                    t2 += CLI
                if rel == "ui/util/printing.rs": t2 = re.sub(r"(fn\s+print_on_hibou_cli\s*\(\s*(?:mut\s+)?(\w+)\s*:[^{]*\{)", r"\1 crate::vio::prints(&\2[..]); ", t2, count=1)
                if t2 != t: open(q, "w").write(t2)
    s = open(main).read(); s = re.sub(r"(?m)^(\s*(?:pub\s+)?)fn\s+main\s*\(", r"\1fn __orig_main(", s)
    mods = sorted({e["entry"].split("::")[0] for e in entries} | {m for e in entries for m in e.get("uses", [])})
    vh = "#![allow(warnings)]\n" + "".join(f'#[path = "{H}/h/{m}.rs"] pub mod {m};\n' for m in mods)
    vh += f"pub const DEEP: bool = {'true' if tier == 'thorough' else 'false'};\n"
    vh += "pub fn all() -> Vec<(&'static str, fn())> { vec![" + ", ".join(f'("{e["entry"]}", {e["entry"]} as fn())' for e in entries) + "] }\n"
    os.makedirs(os.path.join(d, "src/vharness"))
    open(os.path.join(d, "src/vharness/mod.rs"), "w").write(vh)
    s = "#![allow(warnings)]\n#![allow(clippy::all)]\n" + s
    for x in ("vfs", "vio"): shutil.copy(f"{H}/{x}.rs", os.path.join(d, f"src/{x}.rs"))
    s += "\nextern crate vsym;\npub mod vfs;\npub mod vstd { pub use crate::vfs as fs; }\npub mod vio;\npub mod vharness;\nfn main() { vsym::native_main(&vharness::all()); }\n"
    open(main, "w").write(s)
    return d

# the command line of the crate; reading its description once, before the harness forks
CLI = '''
static mut __APP: Option<clap::App<'static>> = None;
#[allow(static_mut_refs)]
pub fn __app() -> clap::App<'static> { unsafe { if __APP.is_none() { let y: &'static _ = Box::leak(Box::new(clap::YamlLoader::load_from_str(include_str!("hibou_cli.yml")).unwrap())); __APP = Some(App::from_yaml(&y[0])); } __APP.clone().unwrap() } }
pub fn __matches(a: &[&str]) -> clap::ArgMatches { __app().get_matches_from(a) }
'''

def compile_stubs(scratch, kind, dep):
    o = os.path.join(scratch, kind); os.makedirs(o)
    tool = ["rustc", "+nightly" if kind == "sym" else "+stable"]
    common = ["--edition", "2021", "--crate-type", "rlib", "--out-dir", o, "-Awarnings", "-Coverflow-checks=on", "-Cdebug-assertions=on"]
    if kind == "sym": common += ["--emit", "metadata", "-Zalways-encode-mir", "--sysroot", build.miri_sysroot(), "--target", TRIPLE]
    ext = ".rmeta" if kind == "sym" else ".rlib"
    must(popen(tool + [f"{H}/stubs/vsym.rs", "--crate-name", "vsym"] + common, base_env()), "stub vsym")
    must(popen(tool + [f"{H}/stubs/rand.rs", "--crate-name", "rand", "--extern", f"vsym={o}/libvsym{ext}"] + common, base_env()), "stub rand")
    return {"vsym": f"{o}/libvsym{ext}", "rand": f"{o}/librand{ext}"}

def rustc_args(d, dep, stubs):
    a = [os.path.join(d, "src/main.rs"), "--crate-name", "hibou_label", "--edition", "2021", "--crate-type", "bin", "-Awarnings", "--cap-lints", "allow", "-Coverflow-checks=on", "-Cdebug-assertions=on"]
    for n, p in sorted(dep["externs"].items()):
        if n in stubs: continue
        a += ["--extern", f"{n}={p}"]
    for n, p in stubs.items(): a += ["--extern", f"{n}={p}", "-L", "dependency=" + os.path.dirname(p)]
    for x in dep["dirs"]: a += ["-L", "dependency=" + x]
    return a

def replay(exe, items, verbose=False, timeout=120):
    """items: [(entry, values)] -> list of outcomes (one process)"""
    inp = "".join(f"{e} {','.join(map(str, v))}\n" for e, v in items)
    env = base_env(); env["RUST_BACKTRACE"] = "0"
    if verbose: env["VSYM_VERBOSE"] = "1"
    cwd = os.path.join(os.path.dirname(exe), "cwd"); os.makedirs(cwd, exist_ok=True)  # loggers of dependencies make folders
    try:
        p = subprocess.run([exe], input=inp.encode(), env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = p.stdout.decode(errors="replace").splitlines(); err = p.stderr.decode(errors="replace"); rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace").splitlines(); err = "timeout"; rc = -1
    res = []
    for l in out:
        if l.startswith('{"outcome"'):
            try: res.append(json.loads(l))
            except ValueError: res.append({"outcome": "garbled", "msg": l})
    while len(res) < len(items): res.append({"outcome": "died", "msg": f"rc={rc} " + err[-300:]})
    return res, err

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = args[args.index("--only") + 1] if "--only" in args else None
    P = registry.PROPS[pid]
    entries = [e for e in P["entries"] if e.get("tier", tier) == tier and (only is None or e["entry"] == only)]
    engine, sym, nat = build.build_all()
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return decide(pid, P, tier, seed, entries, engine, sym, nat, scratch, tb, only)
    finally:
        if "--keep" in args: log("kept", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, P, tier, seed, entries, engine, sym, nat, scratch, tb, only):
    d = prepare(scratch, entries, tier)
    sn = compile_stubs(scratch, "native", nat)
    exe = os.path.join(scratch, "native", "replay")
    # rustc's and cc's temporaries stay inside the scratch directory
    tmp = os.path.join(scratch, "tmp"); os.makedirs(tmp)
    env = pkg_env(base_env(), d); env["TMPDIR"] = tmp
    native = popen(["rustc", "+stable"] + rustc_args(d, nat, sn) + ["-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=16", "-o", exe], env, stdout=open(os.path.join(scratch, "native.out"), "w"), stderr=open(os.path.join(scratch, "native.err"), "w"))
    ss = compile_stubs(scratch, "sym", sym)
    base_t = 110 if tier == "quick" else 3000
    env2 = pkg_env(base_env(), d); env2["TMPDIR"] = tmp
    env2["LD_LIBRARY_PATH"] = NIGHTLY_LIB
    env2["MSYM_DEBUG"] = os.environ.get("MSYM_DEBUG", ""); 
    if not env2["MSYM_DEBUG"]: env2.pop("MSYM_DEBUG")
    env2["MSYM_ENTRY"] = ",".join(e["entry"] for e in entries)
    env2["MSYM_OUT"] = os.path.join(scratch, "out.json")
    env2["MSYM_JOBS"] = str(os.cpu_count() or 4)
    total = P.get("time_" + tier, 240 if tier == "quick" else 20000)
    env2["MSYM_TIME"] = str(int(max(30, total / max(1, len(entries)))) if tier == "thorough" else int(max(60, total / max(1, len(entries)))))
    errf = open(os.path.join(scratch, "sym.err"), "w+")
    p = subprocess.Popen([engine] + rustc_args(d, sym, ss) + ["--sysroot", build.miri_sysroot(), "-Zalways-encode-mir", "-Zmir-opt-level=1", "--out-dir", os.path.join(scratch, "sym")], env=env2, stdout=sys.stderr, stderr=(None if "MSYM_DEBUG" in env2 else errf), cwd=d, start_new_session=True)
    try: rc = p.wait(timeout=780 if tier == "quick" else 40000)
    except subprocess.TimeoutExpired:
        raise Fail("symbolic execution timed out")
    finally:
        try: os.killpg(p.pid, 9)
        except OSError: pass
    if rc != 0 or not os.path.exists(env2["MSYM_OUT"]):
        errf.seek(0); raise Fail(f"symbolic executor failed ({rc}):\n" + errf.read()[-3000:])
    res = json.load(open(env2["MSYM_OUT"]))
    tsym = time.time() - tb
    try: native.wait(timeout=600)
    except subprocess.TimeoutExpired: native.kill(); raise Fail("native build timed out")
    if native.returncode != 0: raise Fail("native build failed\n" + open(os.path.join(scratch, "native.err")).read()[-5000:])

    kf = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == pid] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
    errors, viols, known, notes = [], [], [], []
    tot = dict(paths=0, paths_panic_allowed=0, paths_infeasible=0, forks=0, steps=0, checks=0, queries=0, cache_hits=0, z3_calls=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_ns=0, z3_crossed=0)
    fnhit, samples_out, per, labels, validated, mism = {}, [], [], {}, 0, 0
    reg = {e["entry"]: e for e in entries}
    for r in res:
        e = reg[r["entry"]]
        a = {k: sum(q[k] for q in r["parts"]) for k in tot}
        for k in tot: tot[k] += a[k]
        covers, cl = {}, {}
        for q in r["parts"]:
            for k, v in q["covers"].items(): covers[k] = covers.get(k, 0) + v
            for k, v in q["check_labels"].items(): cl[k] = cl.get(k, 0) + v
            for f in q["functions"]:
                k = (f["name"], f["file"])
                o = fnhit.setdefault(k, [f["blocks"], f["stmts"], set()])
                o[2].update(f["hit"])
        errs = [x for q in r["parts"] for x in q["errors"]]
        complete = all(q["complete"] for q in r["parts"])
        ev = [v for q in r["parts"] for v in q["viols"]]
        for k, v in cl.items(): labels[r["entry"] + ": " + k] = v
        # replay of the violations, one process each
        for v in sorted(ev, key=lambda v: (len(v["values"]), v["values"]))[:6]:
            want = ("violation",) if v["kind"] == "check" else ("panic", "died")
            ok = False
            for attempt in range(4):
                o, err = replay(exe, [(r["entry"], v["values"])], verbose=True)
                o = o[0]
                if o["outcome"] in ("violation", "panic", "died", "thread-died"): ok = True; break
            rec = {"property": pid, "entry": r["entry"], "kind": v["kind"], "message": v["msg"], "location": v["loc"], "values": v["values"], "replay": o, "narrative": err[-6000:]}
            if ok: viols.append(rec)
            else: errors.append(f"{r['entry']}: solver model does not reproduce natively: {v['kind']} {v['msg']} {v['loc']} values={v['values']} native={o}")
        # replay of sampled path models
        smp = [s for q in r["parts"] for s in q["samples"]]
        cap = 400 if tier == "quick" else 2000
        if len(smp) > cap:
            step = len(smp) / cap
            smp = [smp[int(i * step)] for i in range(cap)]
        if smp:
            o, err = replay(exe, [(r["entry"], s["values"]) for s in smp], timeout=200)
            for s, x in zip(smp, o):
                good = x["outcome"] in ("ok", "allowed-panic") and (x["outcome"] == "allowed-panic" or (x["hash"] == s["hash"] and sorted(set(s["covers"])) == sorted(x["covers"])))
                if good: validated += 1
                else:
                    mism += 1
                    if mism <= 3: errors.append(f"{r['entry']}: native run disagrees with the symbolic path: values={s['values']} symbolic hash={s['hash']} covers={s['covers']} native={x}")
        for s in smp[:3]: samples_out.append({"entry": r["entry"], "model": s["values"], "covers": s["covers"]})
        if not ev and not errs:
            miss = [c for c in e.get("covers", []) if c not in covers]
            if miss and complete: errors.append(f"{r['entry']}: vacuity: labels never reached: {miss}")
            # what some choice of the nondeterministic draws has to produce: decided unreachable for all of them
            for c in (e.get("reach", []) if complete else []):
                if c not in covers: viols.append({"property": pid, "entry": r["entry"], "kind": "unreachable", "message": f"no choice of the random draws leads to: {c}", "location": "", "values": [], "replay": {}, "narrative": ""})
            if not cl: errors.append(f"{r['entry']}: no assertion was reached")
        for c in covers:
            if c.startswith("KF:"):
                if any(k["id"] == c[3:] for k in kf): known.append(c[3:])
                else: viols.append({"property": pid, "entry": r["entry"], "kind": "finding", "message": f"finding {c[3:]} which the known-findings file does not list", "location": "", "values": [], "replay": {}, "narrative": ""})
        errors += [f"{r['entry']}: {x}" for x in errs[:3]]
        if not complete and not ev and not errs: notes.append(f"{r['entry']}: the time limit was reached; only the counted paths were decided")
        per.append({"entry": r["entry"], "what": e.get("what", ""), "bounds": e.get("bounds", {}).get(tier, "") if isinstance(e.get("bounds"), dict) else e.get("bounds", ""), "complete": complete, "wall_s": r["wall_s"], **a, "covers": covers, "check_labels": cl, "violations": len(ev)})
        log(f"{r['entry']}: {'complete' if complete else 'INCOMPLETE'} paths={a['paths']} infeasible={a['paths_infeasible']} checks={a['checks']} queries={a['queries']} z3={a['z3_calls']} ({a['z3_ns']/1e9:.1f}s) steps={a['steps']} wall={r['wall_s']:.1f}s viols={len(ev)} errs={len(errs)}")

    repo_fns = sorted(((k[0], k[1], v) for k, v in fnhit.items() if "/crate/src/" in k[1] and "vharness" not in k[1] and "/harness/" not in k[1]), key=lambda x: x[0])
    repo_fns = [f for f in repo_fns if "vharness" not in f[0]]
    fl = [{"function": n, "file": f.split("/crate/")[-1], "blocks": v[0], "blocks_executed": len(v[2])} for n, f, v in repo_fns]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(viols),
        "coverage": {
            "states": tot["paths"] + tot["paths_panic_allowed"] + tot["paths_infeasible"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples_out[:40],
            "states_means": "symbolic paths decided (each stands for every input satisfying its path condition)", "transitions_means": "MIR statements interpreted over symbolic state",
            "exhaustive": all(x["complete"] for x in per) and not errors,
            "solver": {"name": "z3 " + (res[0]["z3"] if res else ""), "queries": tot["queries"], "answered_from_cache": tot["cache_hits"], "z3_calls": tot["z3_calls"], "sat": tot["z3_sat"], "unsat": tot["z3_unsat"], "unknown": tot["z3_unknown"], "unsat_answers_confirmed_by_second_core": tot["z3_crossed"], "solver_s": round(tot["z3_ns"] / 1e9, 3)},
            "bounds": bounds.B.get(pid, ""), "bounds_in_general": bounds.COMMON,
            "assertions_decided": tot["checks"], "forks": tot["forks"], "assertion_labels": labels, "entries": per,
            "functions_encoded": fl, "functions_encoded_total_including_std_and_deps": len(fnhit),
            "native_replay_mismatches": mism, "symbolic_s": round(tsym, 1),
        },
        "assumptions": registry.COMMON_ASSUMPTIONS + P.get("assumptions", []) + notes,
    }
    if errors: ev["coverage"]["errors"] = errors[:20]
    if viols: ev["coverage"]["violation_records"] = viols
    if known: ev["coverage"]["known_findings"] = sorted(set(known))
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for k in kf:
        if k["id"] in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for n in notes: log("note:", n)
    if viols:
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viols):
            path = os.path.join(rd, f"{pid}-{i}.json")
            json.dump(v, open(path, "w"), indent=1)
            log(f"violation in {v['entry']}: {v['kind']} {v['message']} native={v['replay'].get('outcome')} {v['replay'].get('msg')}")
            if i < 3 and v["narrative"].strip(): log(v["narrative"].strip()[:1500])
            if i == 0: print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for x in errors[:10]: log("ERROR", x)
        return 2
    return 0

if __name__ == "__main__":
    import signal
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    try: rc = main()
    except Fail as x:
        log("ERROR", x); rc = 2
    log(f"{sys.argv[1]} exit {rc} after {time.time()-T0:.1f}s")
    sys.exit(rc)
