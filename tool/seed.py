#!/usr/bin/env python3
"""seed.py <id>... : for each planted bug: applies in a scratch copy of /repo, builds, runs the tests, runs the demo on
both trees, and runs the property's quick check on the changed tree.  (Used while developing; no check reads seeded/.)"""
import sys, os, subprocess, json, shutil, tempfile
V = "/verif"
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")
def one(i, demo=True):
    d = f"{V}/seeded/{i}"; m = json.load(open(f"{d}/meta.json"))
    s = tempfile.mkdtemp(prefix="seed-"); r = f"{s}/repo"
    try:
        sh(f"cp -a /repo {r}")
        res = {}
        if demo: res["demo_clean"] = sh(f"bash {d}/demo.sh", r)[0]
        rc, o = sh(f"git apply {d}/patch.diff", r)
        if rc: print(i, "patch does not apply", o); return
        if demo:
            rc, o = sh(". /opt/vp/env.sh 2>/dev/null; cargo test --offline --workspace 2>&1 | grep 'test result'", r); res["tests"] = o.strip()[:60]
            rc, o = sh(f"bash {d}/demo.sh", r); res["demo_patched"] = rc; res["demo_out"] = o[-300:] if rc == 0 else ""
        e = dict(os.environ, VERIF_REPO=r)
        rc, o = sh(f"python3 {V}/tool/check.py {m['property']}", V, e)
        res["check"] = rc
        ls = [l for l in o.splitlines() if "violation in" in l or "ERROR" in l or "after" in l]
        print(i, m["property"], json.dumps(res)); [print("   ", l[:230]) for l in ls[:3] + ls[-1:]]
    finally: shutil.rmtree(s, ignore_errors=True)
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(f"{V}/seeded"))
for i in ids: one(i, "--nodemo" not in sys.argv)
