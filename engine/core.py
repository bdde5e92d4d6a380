"""Check runner: obtains the MIR dump of /repo's current tree, runs one property's
rules, writes evidence and reports violations / known findings."""
import os, sys, json, time, hashlib, subprocess, traceback, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("OSMIO_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
sys.setrecursionlimit(20000)

def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "fixtures", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            try:
                with open(f, "rb") as fh: h.update(fh.read())
            except OSError: pass
            h.update(b"\0")
    return h.hexdigest()

def _run(cmd, env, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def _save(paths):
    return {p: open(p, "rb").read() for p in paths if os.path.isfile(p)}

def ensure_dump():
    """path of a JSON dump of the MIR of /repo's current sources (cached by content hash)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = os.path.join(BUILD, "mir.json")
    stamp = os.path.join(BUILD, "mir.stamp")
    key = _hash_tree([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
                      os.path.join(ROOT, "driver", "src"), os.path.join(ROOT, "roots")])
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"): env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, log = _run(["cargo", "+nightly", "build", "--offline"], env, os.path.join(ROOT, "driver"))
    if rc: raise SystemExit("error: cannot build the MIR driver\n" + log[-3000:])
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    env.update({
        "MIRDUMP_OUT": out, "CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "CARGO_PRIMARY_PACKAGE": "1",
        "PROTOC": env.get("PROTOC") or "/usr/bin/protoc", "LD_LIBRARY_PATH": sysroot + "/lib",
        "RUSTC_WORKSPACE_WRAPPER": os.path.join(BUILD, "driver", "debug", "mirdump"),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings",
    })
    for f in (out, stamp):
        if os.path.exists(f): os.unlink(f)
    lib = os.path.join(ROOT, "roots", "src", "lib.rs")
    os.utime(lib)
    keep = _save([os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "src/osm/pbf/generated/prost-osmpbf.rs"), os.path.join(ROOT, "roots", "Cargo.lock")])
    rc, log = _run(["cargo", "+nightly", "check", "--offline", "--lib"], env, os.path.join(ROOT, "roots"))
    for p, b in keep.items():
        if not os.path.exists(p) or open(p, "rb").read() != b:
            with open(p, "wb") as f: f.write(b)
    if rc or not os.path.exists(out):
        raise SystemExit("error: /repo does not compile under the analysis driver\n" + log[-3000:])
    with open(stamp, "w") as f: f.write(key)
    return out

class Finding(Exception):
    pass

class Check:
    """collects obligations of one property"""
    def __init__(self, pid, prog, tier, seed):
        self.pid = pid; self.prog = prog; self.tier = tier; self.seed = seed
        self.obs = []          # (key, ok, detail)
        self.rules = []; self.functions = set(); self.notes = []; self.assumptions = []
        self.metrics = {}
    def rule(self, text): self.rules.append(text)
    def ob(self, key, ok, detail=""):
        self.obs.append((key, bool(ok), detail))
        return bool(ok)
    def fail(self, key, detail=""): return self.ob(key, False, detail)
    def use_engine(self, e):
        for k in getattr(e, "visited", ()): self.functions.add(k)
        self.metrics["abstract_steps"] = self.metrics.get("abstract_steps", 0) + e.steps
        self.metrics["loop_fixpoints"] = self.metrics.get("loop_fixpoints", 0) + len(e.loop_exits)
    def guard(self, key, f, *a):
        """run part of a rule; analysis failures fail the obligation (fail closed)"""
        try:
            return f(*a)
        except Finding as x:
            self.fail(key, str(x))
        except RecursionError as x:
            self.fail(key, "analysis could not establish the property here (recursion)")
        except Exception as x:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.fail(key, "analysis could not establish the property here: %s: %s (%s:%d)" % (type(x).__name__, str(x)[:200], os.path.basename(tb.filename), tb.lineno))
        return None

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p)).get("findings", [])

def main(pid, registry):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    dump = ensure_dump()
    from interp import Prog
    prog = Prog(dump)
    c = Check(pid, prog, tier, seed)
    spec = registry[pid]
    c.guard("analysis", spec["run"], c)
    floor = spec.get("floor", 1)
    nrun = len(c.obs)
    c.ob("floor:obligations", nrun >= floor, "only %d obligations were generated, at least %d are expected (anchors missing)" % (nrun, floor))
    kf = {k["key"]: k for k in known_findings() if k["property"] == pid and k.get("status") != "fixed"}
    bad = []; known = []; seen = set()
    for key, ok, detail in c.obs:
        if ok or key in seen: continue
        seen.add(key)
        (known if key in kf else bad).append((key, detail))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {
        "explanation": spec.get("explanation") or "Abstract interpretation of the type-checked MIR of /repo (joins at merges, fixpoints at loops, callee bodies resolved through monomorphised instances); each rule below is decided on the resulting value-flow graph, for all inputs at once.",
        "rules": c.rules,
        "obligations": len(c.obs), "discharged": sum(1 for o in c.obs if o[1]),
        "functions_analysed": len(c.functions),
        "functions": sorted(x for x in c.functions if x.startswith("osm_io") or x.startswith("<osm_io"))[:200],
        "samples": [o[0] for o in c.obs[:40]],
    }
    cov.update(c.metrics)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": c.assumptions + spec.get("assumptions", []),
          "violations": [{"key": k, "detail": d} for k, d in bad]}
    evp = os.path.join(ROOT, "evidence", pid + ".json")
    with open(evp, "w") as f: json.dump(ev, f, indent=1)
    vp = os.path.join(ROOT, "evidence", pid + ".violation.txt")
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k].get("what", k)))
    if bad:
        with open(vp, "w") as f:
            f.write("property %s violated on the current tree of %s\n\n" % (pid, REPO))
            for k, d in bad: f.write("obligation: %s\n  %s\n\n" % (k, d))
        for k, d in bad[:12]: print("  obligation %s\n    %s" % (k, d[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, vp))
        sys.exit(1)
    if os.path.exists(vp): os.unlink(vp)
    print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (pid, len(c.obs), len(c.functions), time.time() - t0))
    sys.exit(0)
