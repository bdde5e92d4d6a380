"""Thread local accumulators (C37)."""
from rulelib import *
from seqs import Cons
from rules_pbf import walk

TLA = "pbf::thread_local_accumulator::ThreadLocalAccumulator::"
UNIQUE = ("new_v4", "now_v7", "new_v7", "fetch_add", "now_v1")

class Acc:
    """the map behind an accumulator, before and after a call"""
    def __init__(self, c, name):
        p = c.prog; self.c = c; self.name = name
        self.key = find1(p, TLA + name)
        self.A = Ana(c, self.key, paths=True); self.F = self.A.F; self.C = Cons(self.F)
        if not self.A.outs: raise Finding("%s never returns" % self.key)
        self.bad = []
        for x in self.A.e.panics: self.bad.append("panics at line %s" % x[2])
    def maps(self, s):
        """terms of the thread local map after the call: {root: term}"""
        return {r: v for r, v in s.mem.items() if r[0] == "S"}
    def base(self, t):
        """(root, keys written, innermost map) of a chain of updates"""
        ks = []
        while t.op in ("ins", "rem"): ks.append(t.a[1]); t = t.a[0]
        return ks, t
    def content(self, t, k, pc):
        """tokens of the entry of k, or None when it depends on something else"""
        if t.op == "ins": return self.C.toks(t.a[2]) if t.a[1] is k else self.content(t.a[0], k, pc)
        if t.op == "rem": return [] if t.a[1] is k else self.content(t.a[0], k, pc)
        if t.op == "static":
            for x, v, pos in pc:
                if x.op == "haskey" and x.a[0] is t and x.a[1] is k: return [("seq", mk("mapval", t, k))] if bool(v) == bool(pos) else []
            return [("maybe", mk("mapval", t, k))]
        return None

def keys_of(v):
    return {x.a[1] for x in walk(v) if x.op in ("ins", "rem", "haskey", "mapval")}
def expand_out(F, s, v):
    for g, x in F.expand(v):
        g = g | s.pc
        if not contradicts(g, NOG) and I.feasible(F.NG(g)): yield g, x

def run_accumulator(c):
    c.rule("adding appends the element to the accumulator's own entry of the calling thread's map and touches no other entry; taking returns all of that entry in order and leaves it empty; the entry's key is set once, from a source that never repeats")
    p = c.prog; keys = {}
    def one(name, check):
        a = Acc(c, name); F = a.F; n = 0
        c.ob(name + ":total", not a.bad, "%s %s" % (loc(p, a.key), a.bad[:2]))
        for s, v in a.A.outs:
            ms = a.maps(s); touched = {r: t for r, t in ms.items() if not (t.op == "static")}
            used = set()
            for t in list(ms.values()) + [v] + [l[0] for l in s.pc]: used |= keys_of(t) if isinstance(t, T) else set()
            for k in used: keys.setdefault(k, name)
            c.ob(name + ":one entry", len(used) <= 1, "%s uses the entries %s" % (loc(p, a.key), [sh(k) for k in used]))
            if len(used) != 1: continue
            k = next(iter(used))
            statics = {x for t in list(ms.values()) + [v] + [l[0] for l in s.pc] if isinstance(t, T) for x in walk(t) if x.op == "static"}
            c.ob(name + ":thread local", len(statics) == 1 and all(str(x.a[0]).startswith("tls:") for x in statics), "%s keeps elements in %s" % (loc(p, a.key), [str(x.a[0]) for x in statics]))
            if len(statics) != 1: continue
            m0 = next(iter(statics))
            ts = [t for t in ms.values() if m0 in set(walk(t))] or [m0]
            c.ob(name + ":map", len(ts) == 1, "several maps")
            for g, m1 in expand_out(F, s, ts[0]):
                for g2, r in expand_out(F, s, v):
                    gg = g | g2
                    if contradicts(gg, NOG): continue
                    kw, inner = a.base(m1)
                    if inner is not m0: c.fail(name + ":other entries", "%s: the map becomes %s" % (loc(p, a.key), sh(m1))); continue
                    before = a.content(m0, k, gg); after = a.content(m1, k, gg)
                    n += 1; check(a, gg, before, after, r)
        c.ob(name + ":cases", n > 0, "%s: no outcome was analysed" % a.key)
    def eq(a, x, y): return a.C.norm(a.C.reduce(x)) == a.C.norm(a.C.reduce(y))
    def add(a, g, before, after, r):
        c.ob("add:appends", eq(a, after, before + [("item", a.A.args[1])]), "%s: the elements become %s, and were %s" % (loc(p, a.key), a.C.show(after), a.C.show(before)))
    def take(a, g, before, after, r):
        got = a.C.toks(r)
        if before and before[0][0] == "maybe": before = [("seq", before[0][1])]
        c.ob("elements:all", eq(a, got, before), "%s returns %s of the accumulated %s" % (loc(p, a.key), a.C.show(got), a.C.show(before)))
        c.ob("elements:empty", not after, "%s leaves %s" % (loc(p, a.key), a.C.show(after)))
    c.guard("add", one, "add", add); c.guard("elements", one, "elements", take)
    def ident():
        c.ob("key:same", len(keys) == 1, "adding and taking use different entries: %s" % [sh(k) for k in keys])
        A = Ana(c, find1(p, TLA + "new")); F = A.F
        for k in keys:
            roots = {x for x in walk(k) if x.op == "sym"}
            for s, v in A.outs:
                k2 = subst_self(F, A, k, v)
                us = [x for x in walk(k2) if x.op in ("call", "ev", "fn") and any(u in str(x.a[0]) for u in UNIQUE)]
                us += [x for x in walk(k2) if x.op == "static" and not str(x.a[0]).startswith("tls:") and counted(A, x)]
                c.ob("key:unique", bool(us), "the entry of a new accumulator is %s, which another accumulator may use too" % sh(k2))
                c.ob("key:fixed", not [x for x in walk(k) if x.op in ("call", "ev", "static")], "the entry is %s, which may change" % sh(k))
    c.guard("key", ident)

def counted(A, x):
    """every creation moves this static on by one atomic step, and nothing else writes it here"""
    ups = [e["args"] for e in A.e.log if e["kind"] == "atomic" and e["args"][1].op == "ref" and e["args"][1].a[0] == ("S", x.a[0])]
    return len(ups) == 1 and ups[0][0] in ("fetch_add", "fetch_sub")

def subst_self(F, A, k, v):
    """the key in terms of a freshly made accumulator"""
    def go(t):
        if t.op == "deref" and t.a[0].op == "sym": return v
        if t.op == "fld":
            x = go(t.a[0])
            if x is not t.a[0]: return I.proj_fld(x, t.a[1], t.a[2], t.a[3] if len(t.a) > 3 else None)
        return rebuild1(t, go)
    def rebuild1(t, f):
        if not t.a: return t
        na = tuple(f(y) if isinstance(y, T) else tuple(f(z) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y for y in t.a)
        return t if na == t.a else mk(t.op, *na)
    return go(k)
