"""No call and no thread of a pool ever waits for itself, directly or through other threads (C34)."""
import re
from rulelib import *
import rules_pw as pw
import rules_faults as flt

GUARDS = ("std::cell::Ref", "std::cell::RefMut")
def is_guard(n): return n in GUARDS or n.startswith("std::sync::") and n.endswith("Guard")

class Guards:
    """per function: which variables may own a guard at each call, and where that guard was made"""
    def __init__(self, p): self.p = p; self.has_ = {}; self.live = {}; self.rets = {}
    def has(self, ty, d=6):
        """values of this type may own a guard"""
        if ty is None: return False
        if ty in self.has_: return self.has_[ty]
        t = self.p.ty(ty); k = t["k"]; r = False
        self.has_[ty] = False
        if d > 0:
            if k == "tuple": r = any(self.has(x, d - 1) for x in t["elems"])
            elif k == "closure": r = any(self.has(x, d - 1) for x in t.get("upvars", []))
            elif k == "adt":
                r = is_guard(t["adt"]) or any(self.has(x, d - 1) for x in t.get("args") or [] if isinstance(x, int))
                if not r and t["adt"].startswith("osm_io"): r = any(self.has(f[1], d - 1) for v in t.get("variants") or [] for f in v["fields"])
        self.has_[ty] = r
        return r
    def moved(self, x):
        """local variables moved away by an operand or rvalue"""
        if isinstance(x, dict):
            if set(x) == {"Move"} and isinstance(x["Move"], dict): yield x["Move"]["local"]
            else:
                for y in x.values(): yield from self.moved(y)
        elif isinstance(x, list):
            for y in x: yield from self.moved(y)
    def analyse(self, key):
        if key in self.live: return self.live[key]
        body = self.p.bodies[key]["body"]; loc_ = body["locals"]; blocks = body["blocks"]
        own = {i for i, l in enumerate(loc_) if self.has(l["ty"])}
        live = self.live[key] = {}; self.rets[key] = frozenset()
        if not own: return live
        start = {i: frozenset([("param", i)]) for i in own if 1 <= i <= body["arg_count"]}
        ins = {0: start}; todo = [0]
        def join(b, s):
            o = ins.get(b)
            if o is None: ins[b] = s; todo.append(b); return
            n = dict(o)
            for l, cs in s.items(): n[l] = n.get(l, frozenset()) | cs
            if n != o: ins[b] = n; todo.append(b)
        while todo:
            b = todo.pop(); s = dict(ins[b])
            for st in blocks[b]["statements"]:
                kd = st["kind"]
                if isinstance(kd, str): continue
                (n, v), = kd.items()
                if n == "StorageDead": s.pop(v if isinstance(v, int) else v.get("local"), None)
                elif n == "Assign":
                    pl, rv = v
                    got = frozenset()
                    for l in self.moved(rv): got |= s.pop(l, frozenset())
                    if pl["local"] in own:
                        if not pl["projection"]: s.pop(pl["local"], None)
                        if got: s[pl["local"]] = s.get(pl["local"], frozenset()) | got
            k, v = I.term_kind(blocks[b]["terminator"])
            if k == "Return":
                self.rets[key] |= s.get(0, frozenset()); continue
            if k == "Goto": join(v["target"], s)
            elif k == "Drop":
                live[b] = dict(s); s2 = dict(s); s2.pop(v["place"]["local"], None); join(v["target"], s2)
            elif k == "Assert": join(v["target"], s)
            elif k == "SwitchInt":
                for x in v["targets"]["branches"]: join(x[1], s)
                join(v["targets"]["otherwise"], s)
            elif k == "Call":
                got = frozenset(); gone = set()
                for l in self.moved(v["args"]):
                    got |= s.pop(l, frozenset()); gone.add(l)
                live[b] = dict(s); live[b, "args"] = got
                d = v["destination"]["local"]
                if d in own:
                    if not v["destination"]["projection"]: s.pop(d, None)
                    s[d] = s.get(d, frozenset()) | got | {("call", b)}
                if v.get("target") is not None: join(v["target"], s)
        return live

class Holds:
    """what is held when something is taken, in one abstract interpretation"""
    def __init__(self, A, G):
        self.A = A; self.e = A.e; self.G = G
        self.by_ctx = {}
        for a in self.e.acquires: self.by_ctx.setdefault(a["ctx"], []).append(a)
        self.below = {}
        for a in self.e.acquires:
            for f in self.frames(a["ctx"]): self.below.setdefault(f, []).append(a)
        self.scoped = {cx: l for cx, l in self.by_ctx.items() if self.scope(l[0])}
    def scope(self, a):
        t = I.term_kind(self.A.p.bodies[a["fn"]]["body"]["blocks"][self.e.ctxinfo[a["ctx"]][2]]["terminator"]) if a["fn"] in self.A.p.bodies and len(self.e.ctxinfo.get(a["ctx"], ())) == 3 else None
        b = self.A.p.bodies.get(a["fn"])
        ci = b["calls"].get(str(self.e.ctxinfo[a["ctx"]][2]), {}) if b and t else {}
        return "::with_borrow" in (ci.get("def") or "")
    def frames(self, cx):
        """[(frame, function, block)] of the calls around a context, innermost first"""
        out = []; e = self.e
        while cx in e.ctxinfo:
            ps = e.ctxinfo[cx]
            if len(ps) == 3 and isinstance(ps[1], str) and ps[1] in e.p.bodies and isinstance(ps[2], int): out.append((ps[0], ps[1], ps[2]))
            cx = ps[0]
        return out
    def resolve(self, fr, creation, up, d=8):
        """acquisitions whose guard this is"""
        fid, key, _ = fr
        if d == 0: return []
        if creation[0] == "call":
            cx = self.e.ctxs.get((fid, key, creation[1]))
            got = list(self.by_ctx.get(cx, []))
            for a in self.below.get((fid, key, creation[1]), []):
                if a["ctx"] == cx: continue
                ok = True
                for f in self.frames(a["ctx"]):
                    if f == (fid, key, creation[1]): break
                    self.G.analyse(f[1])
                    if ("call", f[2]) not in self.G.rets.get(f[1], ()): ok = False; break
                if ok: got.append(a)
            return got
        out = []
        if up:
            f = up[0]; self.G.analyse(f[1])
            for cr in self.G.live.get(f[1], {}).get((f[2], "args"), ()): out += self.resolve(f, cr, up[1:], d - 1)
        return out
    def held(self, what):
        """[(acquisition, crossed into another thread)] that are held when something happens; of one place that takes something
        in turn (a loop over several), the last time before"""
        got = self.held_in(what["ctx"]); last = {}
        for b, cr in got:
            if b["seq"] <= what["seq"]: last[b["ctx"]] = max(last.get(b["ctx"], 0), b["seq"])
        return [(b, cr) for b, cr in got if b["seq"] == last.get(b["ctx"], b["seq"])]
    def held_in(self, cx):
        out = []; fs = self.frames(cx); crossed = False
        spawned = getattr(self.A, "spawned", {})
        cur = cx; pos = 0
        chain = []
        while cur in self.e.ctxinfo:
            chain.append(cur); cur = self.e.ctxinfo[cur][0]
        idx = 0
        for cur in chain:
            if cur in spawned: crossed = True
            ps = self.e.ctxinfo[cur]
            if not (len(ps) == 3 and isinstance(ps[1], str) and ps[1] in self.e.p.bodies and isinstance(ps[2], int)): continue
            fr = fs[idx]; up = fs[idx + 1:]; idx += 1
            if cur != cx and cur in self.scoped: out += [(a, crossed) for a in self.scoped[cur]]
            lv = self.G.analyse(fr[1]).get(fr[2], {})
            for l, crs in lv.items():
                for cr in crs:
                    for a in self.resolve(fr, cr, up): out.append((a, crossed))
        return out

def cells(e, t):
    """places that a reference to a lock or cell denotes"""
    r = set()
    for g, x in alts(t):
        n = 0
        while x.op == "adt" and x.a[0] in ("box", "arc") and x.a[2] and n < 4: x = x.a[2][0]; n += 1
        if x.op == "ref": r.add((x.a[0], tuple(x.a[1])))
        elif x.op != "undef": r.add((("X", x), ()))
    return r
def own_cell(c): return c[0][0] == "S" and str(c[0][1]).startswith("tls:")
def shc(c):
    r = c[0]
    return str(r[1]).split("::")[-1].rstrip("'") if r[0] == "S" else sh(r[1], 4) if r[0] == "X" and isinstance(r[1], T) else "a lock of the call"

def analyse_root(c, k, G, workers=False):
    """conflicts among what one entry point (and the threads it waits for) takes"""
    p = c.prog
    def st(A):
        pw.setup(A); A.e.orpc = False; A.spawned = {}
        e = A.e; depth = [0]
        def inside(e, s, cc, f, args, pool):
            """another thread runs f before the call is certain to return"""
            s = s.copy(); c2 = I.Call(); c2.__dict__.update(cc.__dict__)
            c2.ctx = e.ctx(cc.ctx, "thread", f); A.spawned[c2.ctx] = pool
            tag, e.tls_tag = e.tls_tag, e.tls_tag + "'"
            n = len(e.log), len(e.panics); depth[0] += 1
            try:
                if depth[0] <= 4: e.call_value(s, f, args, c2) if not isinstance(f, str) else e.run_fn(f, args, s, e.ctx(c2.ctx, "fn", f))
            finally: e.tls_tag = tag; depth[0] -= 1; del e.log[n[0]:]; del e.panics[n[1]:]
        def everywhere(e, s, cc):
            inside(e, s, cc, cc.args[1], [], cc.args[0])
            s = s.copy(); e.event(s, "in_all_threads", cc, deref_all(e, s, cc.args[0]), cc.args[1])
            return [(s, UNIT)]
        def submitted(e, s, cc):
            cmd = cc.args[1]
            for g, x in alts(cmd, s.pc):
                n = 0
                while x.op == "adt" and x.a[0] == "box" and n < 3: x = x.a[2][0]; n += 1
                y = e.load(s, x) if x.op == "ref" else x
                ks = p.find("<%s as command_executor::command::Command>::execute" % y.a[0]) if y.op == "adt" else []
                for kk in ks[:1]: inside(e, s, cc, kk, [x if x.op == "ref" else e.ref_to(x)], cc.args[0])
            s = s.copy(); e.event(s, "submit", cc, deref_all(e, s, cc.args[0]), e.snap(s, cmd, 3))
            return [(s, UNIT)]
        e.intercepts["command_executor::thread_pool::ThreadPool::in_all_threads"] = everywhere
        e.intercepts["command_executor::thread_pool::ThreadPool::submit"] = submitted
    A = Ana(c, k, setup=st)
    H = Holds(A, G)
    n = 0
    for a in A.e.acquires:
        if a["optional"]: continue
        for b, crossed in H.held(a):
            if b is a or b["ctx"] == a["ctx"]: continue
            n += 1
            if a["mode"] == "r" and b["mode"] == "r": continue
            if I.contradicts(a["pc"], b["pc"]): continue
            same = [x for x in cells(A.e, a["cell"]) & cells(A.e, b["cell"]) if not (crossed and own_cell(x))]
            for x in same:
                c.ob("held.%s/%s" % (flt.short(a["fn"]), shc(x)), False, "%s: %s takes %s while %s still holds it%s" % (flt.short(k), flt.short(a["fn"]), shc(x), flt.short(b["fn"]), " and waits for the thread" if crossed else ""))
    c.ob("entry." + flt.short(k), True, "")
    return A, H, n

def run_locks(c):
    c.rule("the variables that own a guard of a lock or cell are tracked through every function; at every acquisition reached from an entry point, no guard of the same lock or cell is alive in the calls around it unless both only read; this includes the threads a call waits for while it holds something")
    c.rule("threads of one stage wait only for later stages: the relation 'hands work to, or waits for' between pools has no circle, and nobody waits for a pool while holding a lock that the pool's threads need")
    p = c.prog; G = Guards(p)
    ks = flt.roots(p); calls = flt.calls_of(p); called = set()
    for k, xs in calls.items():
        if "{closure" in k or not (k.startswith("osm_io::") or k.startswith("<osm_io::")): continue
        called |= {x for x in xs if x != k}
    tot = [0, 0]
    reach = uses_guards(p, G, calls)
    for k in ks:
        if k in called and not k.endswith("::execute"): continue
        if k not in reach: continue
        def one(k=k):
            A, H, n = analyse_root(c, k, G)
            tot[0] += len(A.e.acquires); tot[1] += n
        c.guard("entry." + flt.short(k), one)
    c.metrics["acquisitions"] = tot[0]; c.metrics["held_pairs"] = tot[1]
    c.ob("acquisitions", tot[0] >= 20, "only %d acquisitions of locks and cells were found" % tot[0])
    c.guard("pools", pools, c, G)

def uses_guards(p, G, calls):
    """functions that may take a lock or cell, directly or in what they call, or hand work to a pool"""
    direct = set()
    for k, b in p.bodies.items():
        if "body" not in b: continue
        if any(G.has(l["ty"]) for l in b["body"]["locals"]): direct.add(k); continue
        if any(re.search(r"LocalKey|ThreadPool|RefCell|Mutex|RwLock", ci.get("def") or "") for ci in b["calls"].values()): direct.add(k)
    rev = {}
    for k, xs in calls.items():
        for x in xs: rev.setdefault(x, set()).add(k)
    for k in p.bodies:
        if "{closure" in k: rev.setdefault(k, set()).add(k.split("::{closure")[0])
    todo = list(direct); out = set(direct)
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in out: out.add(y); todo.append(y)
    return out

# ---- waiting between pools
WAITS = ("submit", "in_all_threads", "shutdown", "join", "set_tls")
def pools(c, G):
    p = c.prog; m = pw.PWModel(c)
    T, flow = pw.stages(c, m)
    name = {}; work = {}
    for i, (q, cs) in enumerate(flow):
        name.setdefault(q, "stage %d" % i)
        for n in cs:
            k = pw.execute_of(p, n)
            if k not in work.setdefault(q, []): work[q].append(k)
    acq = {q: [] for q in name}; to = {q: set() for q in name}; waits = []
    def look(key, resolve, who, extra=()):
        A = Ana(c, key, setup=lambda A: setattr(pw.setup(A) or A.e, "orpc", False)) if isinstance(key, str) else key
        H = Holds(A, G)
        out = []
        for a in A.e.acquires:
            for x in cells(A.e, a["cell"]):
                q = resolve(A, x)
                if q is not None: out.append((q, a["mode"], a))
        ev = []
        for x in A.e.log:
            if x["kind"] in WAITS:
                q = resolve(A, (("X", x["args"][0]), ()))
                hs = []
                for b, cr in H.held(x):
                    for y in cells(A.e, b["cell"]):
                        z = resolve(A, y)
                        if z is not None: hs.append((z, b["mode"], b))
                if q is not None: ev.append((q, x, hs))
        return A, out, ev
    def worker_res(pool): return lambda A, x: T.next_pool(pool, term_of(A, x))
    def caller_res(A, x):
        return T.pool_of(term_of(A, x), mk("deref", A.args[0]))
    for q, ks in work.items():
        for k in ks:
            A, o, ev = look(k, worker_res(q), q)
            acq[q] += o
            for (q2, x, hs) in ev: to[q].add(q2); waits.append((k, q, q2, x, hs))
    n = 0
    for fnn in sorted(k for k in p.bodies if re.match(r"osm_io::osm::pbf::parallel_writer::ParallelWriter::\w+$", k) and p.bodies[k].get("body")):
        b = p.bodies[fnn]["body"]
        if not b["arg_count"] or "ParallelWriter" not in p.tys(b["locals"][1]["ty"]): continue
        A, o, ev = look(fnn, caller_res, None)
        for (q2, x, hs) in ev:
            waits.append((fnn, None, q2, x, hs)); n += 1
            if x["kind"] == "in_all_threads":
                for s, v in A.outs[:1]:
                    B = Sub(c, A, s, x["args"][1])
                    _, o2, ev2 = look(B, worker_res(q2), q2)
                    acq.setdefault(q2, []); acq[q2] += o2
                    for (q3, y, h3) in ev2: to.setdefault(q2, set()).add(q3); waits.append((fnn, q2, q3, y, h3))
    c.ob("waits", n >= 4, "only %d places that wait for threads were found" % n)
    def closure(q):
        out = set(); todo = [q]
        while todo:
            y = todo.pop()
            if y in out: continue
            out.add(y); todo += to.get(y, ())
        return out
    for q in to:
        bad = [y for y in to[q] if q in closure(y)]
        c.ob("circle." + name.get(q, "?"), not bad, "the threads of %s hand work to %s, which waits for %s again: with full queues they block each other for ever" % (name.get(q, "?"), [name.get(y) for y in bad], name.get(q)))
    for k, who, q, x, hs in waits:
        for (lk, md, b) in hs:
            for r in closure(q):
                for (l2, m2, a) in acq.get(r, ()):
                    bad = l2 is lk and not (md == "r" and m2 == "r")
                    c.ob("lock.%s.%s" % (flt.short(k), x["kind"]), not bad, "%s waits (%s) for %s while holding the lock of %s, which the threads need (%s)" % (flt.short(k), x["kind"], name.get(q), name.get(lk), flt.short(a["fn"])))
    c.metrics["pool_waits"] = len(waits)
def term_of(A, x):
    r, path = x
    if r[0] == "X": t = r[1]
    else: t = A.e.default(r)
    return t
class Sub:
    """what a function value does on another thread"""
    def __init__(self, c, A, s, f):
        self.A0 = A; self.p = A.p; self.args = A.args
        e = A.e
        n = len(e.log), len(e.acquires)
        run_callable(A, s, f, ())
        self.e = View(e, e.log[n[0]:], e.acquires[n[1]:])
        del e.log[n[0]:]; del e.acquires[n[1]:]
class View:
    def __init__(self, e, log, acq): self._e = e; self.log = log; self.acquires = acq
    def __getattr__(self, n): return getattr(self._e, n)
