"""Readers and writers do not disturb each other, nor themselves (C38)."""
import re
from rulelib import *
import rules_pw as pw
import rules_faults as flt
from rules_pbf import walk

CELLS = re.compile(r"^(std|core)::(cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell)|sync::(poison::)?(mutex::)?(rwlock::)?(Mutex|RwLock|nonpoison::\w+)|sync::atomic::Atomic\w*|sync::mpsc::(mpmc::)?\w+|sync::reentrant_lock::\w+)$")
CURSOR = re.compile(r"^(std|core)::(fs::File|fs::ReadDir|os::fd::OwnedFd|net::\w+Stream|process::Child\w*)$")
ONCE = re.compile(r"^(std|core)::(sync::(once_lock::|lazy_lock::)?(OnceLock|LazyLock|Once)|cell::(once::|lazy::)?(OnceCell|LazyCell))$")
SHARE = re.compile(r"^(std|alloc)::(sync::(Arc|Weak)|rc::(Rc|Weak))$")
GLOBAL = re.compile(r"^std::(env::(set_var|remove_var|set_current_dir)|panic::(set_hook|take_hook))$|^rayon.*build_global$|^libc::|^log::set_max_level")

def shared_state(p, t, shared, path=(), seen=None):
    """places in a type that several holders of it could change: [(path, type)]"""
    seen = seen if seen is not None else set()
    if (t, shared) in seen: return []
    seen.add((t, shared)); ty = p.ty(t); k = ty["k"]; out = []
    def sub(x, nm, sh=shared): return shared_state(p, x, sh, path + (nm,), seen)
    if k == "adt":
        a = ty["adt"]
        if CELLS.match(a) or CURSOR.match(a): 
            if shared: return [(path, ty["s"])]
            for x in ty["args"]: out += sub(x, a.split("::")[-1])
            return out
        if ONCE.match(a):
            for x in ty["args"]: out += sub(x, a.split("::")[-1], True)
            return out
        if a.startswith("osm_io::"):
            for v in ty["variants"]:
                for f in v["fields"]: out += sub(f[1], f[0])
            return out
        for x in ty["args"]: out += sub(x, a.split("::")[-1], shared or bool(SHARE.match(a)))
        return out
    if k in ("ref", "ptr"): return sub(ty["elem"], "&", shared or not ty.get("mut"))
    if k in ("array", "slice"): return sub(ty["elem"], "[]")
    if k == "tuple":
        for i, x in enumerate(ty["elems"]): out += sub(x, str(i))
    if k == "closure":
        for i, x in enumerate(ty.get("upvars", ())): out += sub(x, "captured")
    return out

def iterators(p):
    return {i["self"]: i["self_ty"] for i in p.impls if i["trait"].endswith("iter::Iterator") and i["self"].startswith("osm_io::")}
def by_shared_ref(p, k):
    b = p.bodies[k]["body"]
    if not b["arg_count"]: return None
    t = p.ty(b["locals"][1]["ty"])
    if t["k"] != "ref" or t.get("mut"): return None
    x = p.ty(t["elem"])
    return (x["adt"], t["elem"]) if x["k"] == "adt" and x["adt"].startswith("osm_io::") else None
def ok_type(p, t):
    ty = p.ty(t)
    return ty["args"][0] if ty["k"] == "adt" and ty["adt"].endswith("result::Result") else t

def run_isolation(c):
    c.rule("what can be iterated more than once holds nothing that a use of it could change, and an iterator shares nothing changeable, no file position included, with another holder")
    c.rule("no static that can change is used, other than a counter that only ever moves on; a thread local of the caller's thread is used only as a map, at keys of the object itself; nothing global to the process is set")
    p = c.prog; its = iterators(p)
    def types():
        done = {}
        for k in flt.entries(p):
            if p.bodies[k]["def"] not in p.public: continue
            b = p.bodies[k]["body"]; r = ok_type(p, b["locals"][0]["ty"]); rt = p.ty(r)
            mine = by_shared_ref(p, k)
            if mine and rt["k"] == "adt" and rt["adt"] in its: done.setdefault(mine[0], (mine[1], True))
            if mine and mine[0].endswith("::Reader"): done.setdefault(mine[0], (mine[1], True))
        for s, t in its.items():
            if p.ty(t)["k"] == "adt": done.setdefault(p.ty(t)["adt"], (t, False))
        c.ob("readers", sum(1 for t, sh_ in done.values() if sh_) >= 2 and len(done) >= 5, "only %s found" % sorted(done))
        for n, (t, sh_) in sorted(done.items()):
            bad = shared_state(p, t, sh_)
            c.ob("state." + n.replace("osm_io::osm::", ""), not bad, "%s %s: %s" % (n, "can be changed by using it" if sh_ else "shares what it changes with others", ["%s: %s" % (".".join(q), x) for q, x in bad][:3]))
        for n in sorted(p.adts):
            if n in done or not n.startswith("osm_io::"): continue
            for t in p.adt_ty.get(n, ())[:1]:
                bad = [(q, x) for q, x in shared_state(p, t, False) if CURSOR.match(re.sub(r"<.*", "", x))]
                c.ob("position." + n.replace("osm_io::osm::", ""), not bad, "%s shares the position in a file with others: %s" % (n, ["%s: %s" % (".".join(q), x) for q, x in bad][:3]))
    c.guard("types", types)
    # statics
    users = {}
    for k, b in p.bodies.items():
        if not b.get("body") or not re.match(r"<?osm_io::osm::", k): continue
        for a in allocs_of(b["body"]):
            g = p.allocs.get(str(a)) or {}
            if isinstance(g, dict) and "static" in g: users.setdefault(g["static"], set()).add(k)
    def statics():
        n = 0
        for s in p.statics:
            nm = s["name"]
            if nm not in users or "__rust_std_internal" in nm or "{constant" in nm: continue
            n += 1; bad = shared_state(p, s["ty"], True)
            c.ob("static." + nm.replace("osm_io::osm::", ""), not bad or counter(p, nm, users[nm]), "%s can be changed and is used by %s: objects influence each other" % (nm, sorted(flt.short(x) for x in users[nm])[:3]))
        c.ob("statics", n > 0, "no static was found")
    c.guard("statics", statics)
    tot = [0]; written = {}; keyed = set()
    for k in flt.entries(p):
        if p.bodies[k]["def"] not in p.public and not k.endswith("::execute"): continue
        if k.endswith("::execute"): continue                       # runs on a thread of a pool, see the entries that hand it over
        def one(k=k): entry(c, k, tot, written, keyed)
        c.guard("entry." + flt.short(k), one)
    for n in keyed:
        for key, k, x in written.get(n, ()):
            c.ob(key + ":others", False, "%s overwrites what other objects keep in %s of the calling thread: %s" % (flt.short(k), str(n).split("::")[-1], sh(x, 5)))
    c.metrics["thread_local_uses"] = tot[0]
    # effects on the process
    n = 0
    for k, b in p.bodies.items():
        if not b.get("body") or not re.match(r"<?osm_io::osm::", k): continue
        for ci in b["calls"].values():
            n += 1; d = ci.get("def") or ""
            if d.endswith("fs::File::try_clone"): c.ob("process.%s/%s" % (flt.short(k), d), False, "%s makes a second handle that shares the position in the file" % flt.short(k))
            if GLOBAL.search(d): c.ob("process.%s/%s" % (flt.short(k), d), False, "%s calls %s, which concerns the whole process" % (flt.short(k), d))
    c.metrics["calls"] = n
    c.ob("process", n > 1000, "only %d calls were looked at" % n)

def allocs_of(body):
    out = set()
    def go(x):
        if isinstance(x, dict):
            if "provenance" in x and isinstance(x["provenance"], dict):
                for y in x["provenance"].get("ptrs", ()): out.add(y[1])
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(body)
    return out

def counter(p, nm, ks):
    """the functions that use the static do nothing but one atomic step forward with it"""
    for k in ks:
        defs = [ci.get("def") or "" for ci in p.bodies[k]["calls"].values() if "atomic::Atomic" in (ci.get("def") or "")]
        if not defs or not all(d.endswith("::fetch_add") for d in defs): return False
    return True

def touches_tls(p):
    calls = flt.calls_of(p)
    direct = {k for k, b in p.bodies.items() if b.get("body") and any("LocalKey" in (ci.get("def") or "") for ci in b["calls"].values())}
    rev = {}
    for k, xs in calls.items():
        for x in xs: rev.setdefault(x, set()).add(k)
    for k in p.bodies:
        if "{closure" in k: rev.setdefault(k, set()).add(k.split("::{closure")[0])
    todo = list(direct); out = set(direct)
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in out: out.add(y); todo.append(y)
    return out

def entry(c, k, tot, written, keyed):
    p = c.prog
    if not hasattr(p, "_tls_users"): p._tls_users = touches_tls(p)
    if k not in p._tls_users:
        c.ob("entry." + flt.short(k), True, ""); return
    def setup(A):
        pw.setup(A); A.e.orpc = False
        e = A.e; depth = [0]
        def inside(s, cc, f, args):
            tag, e.tls_tag = e.tls_tag, e.tls_tag + "'"; depth[0] += 1
            try:
                if depth[0] <= 4: e.call_value(s.copy(), f, args, cc) if not isinstance(f, str) else e.run_fn(f, args, s.copy(), e.ctx(cc.ctx, "thread", f))
            finally: e.tls_tag = tag; depth[0] -= 1
        def everywhere(e, s, cc):
            inside(s, cc, cc.args[1], []); s = s.copy(); e.event(s, "in_all_threads", cc, cc.args[0], cc.args[1])
            return [(s, UNIT)]
        def submitted(e, s, cc):
            s = s.copy(); e.event(s, "submit", cc, cc.args[0], cc.args[1])       # nothing of it runs on the caller's thread
            return [(s, UNIT)]
        e.intercepts["command_executor::thread_pool::ThreadPool::in_all_threads"] = everywhere
        e.intercepts["command_executor::thread_pool::ThreadPool::submit"] = submitted
    A = Ana(c, k, setup=setup); F = A.F
    own = {}
    for n, tag, ctx, fn_ in A.e.tls_uses:
        tot[0] += 1
        if not tag: own.setdefault(n, set()).add(fn_ or k)
    for n, fns in own.items():
        key = "own thread.%s/%s" % (flt.short(k), str(n).split("::")[-1])
        if n is None: c.ob(key, False, "%s uses a thread local that could not be identified" % flt.short(k)); continue
        st = mk("static", "tls:" + n); root = ("S", "tls:" + n); bad = None; seen = [x for ev in A.e.log for x in ev["args"]] + [l[0] for ev in A.e.log for l in ev["pc"]]
        for s, v in A.outs:
            after = s.mem.get(root)
            if after is not None:
                after = F.N(after); x = misused(after, st)
                x = x if x is not None else overwritten(after, st)
                if x is not None: written.setdefault(n, []).append((key, k, x))
            seen += [v] + [l[0] for l in s.pc] + [t for r, t in s.mem.items() if r != root and r[0] in ("X", "S")]
        for t in seen:
            if not isinstance(t, T): continue
            t = F.N(t); bad = bad or misused(t, st, False)
            if st in set(walk(t)): keyed.add(n)
        c.ob(key, bad is None, "%s depends on what other objects used on the calling thread left in %s: %s" % (flt.short(k), str(n).split("::")[-1], sh(bad, 5) if bad is not None else ""))
    c.ob("entry." + flt.short(k), True, "")

def misused(t, st, top=True):
    """a use of the map st that is not at a key of the object itself"""
    if t is st: return None if top else t
    if t.op in ("ins", "rem", "haskey", "mapval") and own_key(t.a[1]):
        xs = [(t.a[0], True)] + [(x, False) for x in t.a[1:]]
    elif t.op == "sel":
        xs = [(x, top) for g, x in t.a[0]] + [(l[0], False) for g, x in t.a[0] for l in g]
    else: xs = [(x, False) for x in I.children(t)]
    for x, tp in xs:
        if isinstance(x, T):
            r = misused(x, st, tp)
            if r is not None: return r
    return None
def overwritten(t, st):
    """a value that the map is replaced with"""
    if t is st: return None
    if t.op in ("ins", "rem"): return overwritten(t.a[0], st)
    if t.op == "sel": return next((r for r in (overwritten(x, st) for g, x in t.a[0]) if r is not None), None)
    if t.op == "cell" or t.op == "deref": return next((r for r in (overwritten(x, st) for x in I.children(t)) if r is not None), None)
    return t
def own_key(k): return any(x.op == "sym" for x in walk(k)) and not any(x.op in ("static", "call", "ev") for x in walk(k))
