"""Builds everything a check needs: the engine, the dependencies of the crate under test (once with MIR
metadata for the symbolic executor, once natively for replay)."""
import json, os, re, shutil, subprocess, sys, hashlib, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NIGHTLY_LIB = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib"
TRIPLE = "x86_64-unknown-linux-gnu"

def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)

def base_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in list(e):
        if k.startswith("CARGO") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC", "VERIF_TIER_"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env or base_env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        sys.stderr.write(p.stderr.decode(errors="replace")[-8000:])
        raise SystemExit(f"[build] command failed ({p.returncode}): {' '.join(cmd[:6])}")
    return p

def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

SYSROOT_FLAGS = "-Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=on -Zmir-opt-level=3 -Zinline-mir=yes -Zinline-mir-threshold=100 -Zinline-mir-hint-threshold=200 -Zforce-unstable-if-unmarked"

def miri_sysroot():
    """The standard library with the MIR of every function, inlined so that the executor takes fewer steps."""
    s = os.path.join(BUILD, "sysroot")
    lib = os.path.join(s, "lib/rustlib", TRIPLE, "lib")
    key = hashlib.sha256((SYSROOT_FLAGS + subprocess.run(["rustc", "+nightly", "-vV"], env=base_env(), stdout=subprocess.PIPE).stdout.decode()).encode()).hexdigest()
    st = os.path.join(s, "stamp")
    if os.path.exists(st) and open(st).read() == key: return s
    t = time.time()
    d = os.path.join(BUILD, "sysroot_src")
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(s, ignore_errors=True)
    os.makedirs(os.path.join(d, "src")); os.makedirs(lib)
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "sysb"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.release]\ndebug = false\n')
    open(os.path.join(d, "src/lib.rs"), "w").write("#![no_std]\n")
    # functions the executor replaces must not be inlined into their callers
    src = os.path.join(d, "library")
    shutil.copytree(run(["rustc", "+nightly", "--print", "sysroot"]).stdout.decode().strip() + "/lib/rustlib/src/rust/library", src)
    for f in ("std/src/hash/random.rs", "std/src/panicking.rs", "std/src/thread/functions.rs"):
        q = os.path.join(src, f); x = open(q).read()
        open(q, "w").write(re.sub(r"#\[inline\]", "#[inline(never)]", x).replace("    pub fn new() -> RandomState", "    #[inline(never)]\n    pub fn new() -> RandomState").replace("#[inline(never)]\n    #[allow(deprecated)]\n    #[rustc_const", "#[allow(deprecated)]\n    #[rustc_const"))
    e = base_env(); e["RUSTC_BOOTSTRAP"] = "1"; e["__CARGO_TESTS_ONLY_SRC_ROOT"] = src; e["RUSTFLAGS"] = SYSROOT_FLAGS; e["CARGO_TARGET_DIR"] = os.path.join(d, "t"); e["__CARGO_DEFAULT_LIB_METADATA"] = "verif"
    p = run(["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std=std,panic_unwind", "--target", TRIPLE, "--message-format=json"], env=e, cwd=d)
    for l in p.stdout.decode().splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("reason") != "compiler-artifact" or "sysb" in j["target"]["name"]: continue
        for f in j["filenames"]:
            if f.endswith((".rlib", ".rmeta")) and f"/{TRIPLE}/" in f: shutil.copy(f, lib)
    shutil.rmtree(d, ignore_errors=True)
    open(st, "w").write(key)
    log(f"standard library built in {time.time()-t:.1f}s")
    return s

def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("Cargo.toml", "build.rs")] + [os.path.join(VERIF, "engine/src", f) for f in os.listdir(os.path.join(VERIF, "engine/src"))]
    key = hash_files(src)
    out = os.path.join(BUILD, "engine")
    exe = os.path.join(out, "release", "mirsym")
    st = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == key:
        return exe
    t = time.time()
    e = base_env(); e["CARGO_TARGET_DIR"] = out
    e["RUSTFLAGS"] = ""
    run(["cargo", "+nightly", "build", "--release", "--offline"], env=e, cwd=os.path.join(VERIF, "engine"))
    open(st, "w").write(key)
    log(f"engine built in {time.time()-t:.1f}s")
    return exe

def lockfile():
    for p in (os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock"):
        if os.path.exists(p):
            return p
    raise SystemExit("[build] no Cargo.lock")

def build_deps(kind):
    """kind: 'sym' (metadata with MIR, against the MIR-carrying std) or 'native' (object code, stable)."""
    d = os.path.join(BUILD, "deps_" + kind)
    manifest = open(os.path.join(REPO, "Cargo.toml")).read()
    key = hashlib.sha256((manifest + open(lockfile()).read() + kind + "v6" + SYSROOT_FLAGS).encode()).hexdigest()[:16]
    res = os.path.join(d, "externs.json")
    if os.path.exists(res):
        r = json.load(open(res))
        if r["key"] == key and all(os.path.exists(x) for x in r["externs"].values()):
            return r
    t = time.time()
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    m = re.sub(r"(?m)^\s*\[(profile|workspace)[^\n]*\n(?:(?!\s*\[)[^\n]*\n)*", "", manifest + "\n")
    m += "\n[workspace]\n[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\n"
    if kind == "sym":
        m += "[profile.dev.build-override]\nopt-level = 0\ndebug = false\n"
    open(os.path.join(d, "Cargo.toml"), "w").write(m)
    shutil.copy(lockfile(), os.path.join(d, "Cargo.lock"))
    open(os.path.join(d, "src/main.rs"), "w").write("fn main() {}\n")
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(d, "t")
    if kind == "sym":
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] = f"-Zalways-encode-mir --sysroot {miri_sysroot()} -Cdebug-assertions=on -Coverflow-checks=on"
        cmd = ["cargo", "check", "--offline", "--target", TRIPLE, "--message-format=json"]
    else:
        e["RUSTUP_TOOLCHAIN"] = "stable"
        cmd = ["cargo", "build", "--offline", "--message-format=json"]
    p = run(cmd, env=e, cwd=d)
    names = set()
    sec = None
    for line in manifest.splitlines():
        line = line.strip()
        if line.startswith("["):
            sec = line.strip("[]")
            mm = re.match(r"dependencies\.([\w-]+)", sec)
            if mm: names.add(mm.group(1).replace("-", "_"))
        elif sec == "dependencies" and "=" in line and not line.startswith("#"):
            names.add(line.split("=")[0].strip().replace("-", "_"))
    ext, dirs = {}, set()
    for l in p.stdout.decode().splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("reason") != "compiler-artifact": continue
        n = j["target"]["name"].replace("-", "_")
        for f in j["filenames"]:
            if kind == "sym" and f"/{TRIPLE}/" not in f and not f.endswith(".so"): continue
            if f.endswith((".rmeta", ".rlib", ".so")): dirs.add(os.path.dirname(f))
        if n in names and not any(k in ("bin", "custom-build") for k in j["target"]["kind"]):
            if kind == "sym" and not any(f"/{TRIPLE}/" in f or f.endswith(".so") for f in j["filenames"]): continue
            c = [f for f in j["filenames"] if f.endswith(".so")] or [f for f in j["filenames"] if f.endswith(".rlib")] or [f for f in j["filenames"] if f.endswith(".rmeta")]
            if c: ext[n] = c[0]
    miss = names - set(ext)
    if miss: raise SystemExit(f"[build] no artifact for {miss}")
    r = {"key": key, "externs": ext, "dirs": sorted(dirs)}
    json.dump(r, open(res, "w"), indent=1)
    log(f"{kind} dependencies built in {time.time()-t:.1f}s")
    return r

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build_all():
    from concurrent.futures import ThreadPoolExecutor
    with Lock():
        miri_sysroot()
        with ThreadPoolExecutor(3) as ex:
            a, b, c = ex.submit(build_engine), ex.submit(build_deps, "sym"), ex.submit(build_deps, "native")
            return a.result(), b.result(), c.result()

if __name__ == "__main__":
    t = time.time()
    build_all()
    log(f"setup done in {time.time()-t:.1f}s")
