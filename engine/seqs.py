"""Conservation of sequences: normal forms of concatenations of sequence values, and
inductive proofs that loops move items between sequences without losing, duplicating
or reordering them."""
from rulelib import *
from flow import padd
from fractions import Fraction

class Cons:
    """token lists over a Flow. expand_ev(ev) -> token list of an event of the trace (or [] when irrelevant)"""
    def __init__(self, F, expand_ev=None):
        self.F = F; self.expand_ev = expand_ev; self.proved = {}; self.active = set()
        self.obligations = 0; self.ctx = None
    def under(self, g):
        """facts about the state after the loops, for the sequences that are reduced next"""
        g = self.F.NG(g)
        if g != self.ctx: self.ctx = g; self.proved = {}
    # ---- token lists (choices already expanded)
    def toks(self, t):
        if t is EMPTY or t.op == "undef": return []
        if t.op == "push": return self.toks(t.a[0]) + self.item(t.a[1])
        if t.op == "pushf": return self.item(t.a[1]) + self.toks(t.a[0])
        if t.op == "cat": return self.toks(t.a[0]) + self.toks(t.a[1])
        if t.op == "adt" and t.a[0] == "array": return [x for y in t.a[2] for x in self.item(y)]
        if t.op == "fn":
            n, a = t.a[0], t.a[1]
            if n in ("poprest_f", "poprest_b", "prefix", "suffix"): return [(n,) + tuple(a)]
            if n == "sorted":
                x = self.reduce(self.toks(a[0]))
                return [] if not x else [("sorted", tuple(x))]
            if n == "collect" or n == "to_vec": return self.toks(a[0])
        if t.op == "valiter": return self.toks(t.a[0])
        if t.op == "phi" and t in self.F.e.phis: return [("phi", t)]
        return [("seq", t)]
    def item(self, v):
        if v.op == "ev": return self.expand_ev(v) if self.expand_ev else []
        return [("item", v)]
    # ---- reduction
    def reduce(self, l):
        l = list(l); N = self.F.N
        ch = True
        while ch:
            ch = False
            for i in range(len(l) - 1):
                a, b = l[i], l[i + 1]
                if a[0] == "item" and b[0] == "poprest_f" and N(a[1]) is N(mk("elem", b[1], INT(0))):
                    l[i:i + 2] = self.toks(b[1]); ch = True; break
                if a[0] == "poprest_b" and b[0] == "item" and N(b[1]) is N(mk("elem", a[1], INT(-1))):
                    l[i:i + 2] = self.toks(a[1]); ch = True; break
                if a[0] == "prefix" and b[0] == "suffix" and a[1] is b[1] and N(a[2]) is N(b[2]):
                    l[i:i + 2] = self.toks(a[1]); ch = True; break
            if ch: continue
            # loop-carried runs
            i = 0
            while i < len(l):
                if l[i][0] != "phi": i += 1; continue
                key = self.key(l[i][1]); j = i
                while j < len(l) and l[j][0] == "phi" and self.key(l[j][1]) == key: j += 1
                done = False
                for a in range(i, j):
                    for b in range(j, a, -1):
                        r = self.run(tuple(x[1] for x in l[a:b]))
                        if r is not None:
                            l[a:b] = r; done = True; break
                    if done: break
                if done: ch = True; break
                i = j
        return l
    def key(self, ph): return (self.F.e.phis[ph]["key"], ph.a[3])
    def alts_of(self, terms, g0=NOG):
        """jointly expanded alternatives of several terms"""
        for g, t in self.F.expand(mk("adt", "tuple", 0, tuple(terms))):
            if not contradicts(g, g0): yield g | g0, t.a[2]
    def run(self, phis):
        """tokens the concatenation of these loop-carried values always equals, or None"""
        if phis in self.proved: return self.proved[phis]
        if phis in self.active: return None
        self.active.add(phis)
        try: r = self.run1(phis)
        finally: self.active.discard(phis)
        self.proved[phis] = r
        return r
    def run1(self, phis):
        F = self.F; want = [("phi", x) for x in phis]
        info = [F.e.phis[x] for x in phis]
        if any(not i["step"] for i in info):
            steps = []
        else: steps = [tuple(i["step"][0] for i in info)]
        inits = list(self.alts_of([i["init"] for i in info], info[0].get("initpc", NOG)))
        ok = True
        for st in steps:
            for g, ts in self.alts_of(st, info[0].get("steppc", NOG)):
                self.obligations += 1
                if any(self.same(v, want) for v in self.variants(ts, g)): continue
                ok = False
        if ok:
            il = [self.reduce(self.flat(ts, g)) for g, ts in inits]
            if not il or any(x != il[0] for x in il): return None
            return il[0]
        # accumulation: one sequence grows by the items of a source walked to its end
        if len(phis) == 1 and len(steps) == 1:
            alts_ = list(self.alts_of(steps[0], info[0].get("steppc", NOG)))
            srcs = F.loop_walk(self.key(phis[0])[0], self.ctx)
            if srcs:
                common = frozenset.intersection(*srcs)
                for src, idx in common:
                    el = F.N(mk("elem", src, idx))
                    if all(self.same([("item", F.N(x[1])) if x[0] == "item" else x for x in self.flat(ts, g)], want + [("item", el)]) for g, ts in alts_):
                        il = [self.reduce(self.flat(ts, g)) for g, ts in inits]
                        if not il or any(x != il[0] for x in il): return None
                        return il[0] + self.toks(src)
        return None
    def variants(self, ts, g=NOG):
        """token lists of the concatenation; a sequence known to be empty may be left out or not"""
        g = self.F.NG(g); out = [[]]
        for t in ts:
            for x in self.toks(t):
                if self.is_empty(x, g) and len(out) <= 8: out = [o + [x] for o in out] + out
                else: out = [o + [x] for o in out]
        return out
    def flat(self, ts, g=NOG):
        g = self.F.NG(g)
        out = []
        for t in ts:
            out += self.toks(t)
        return [x for x in out if not self.is_empty(x, g)]
    def is_empty(self, x, g):
        if x[0] not in ("phi", "seq"): return False
        L = self.F.N(mk("bin", "Eq", mk("len", x[1]), INT(0)))
        for (t, k, p) in g:
            if t.op == "bin" and t.a[0] == "Eq" and bool(k) == bool(p):
                if t is L: return True
            if t.op == "len" and t.a[0] is self.F.N(x[1]) and k == 0 and p: return True
            if t.op == "has" and t.a[0] is self.F.N(x[1]) and t.a[1] is INT(0) and bool(k) != bool(p): return True
        return False
    def same(self, a, b): return self.norm(self.reduce(a)) == self.norm(b)
    def norm(self, l):
        return [(x[0],) + tuple(self.F.N(y) if isinstance(y, T) else y for y in x[1:]) for x in l]
    def show(self, l): return "[%s]" % ", ".join("sorted(%s)" % self.show(x[1]) if x[0] == "sorted" else "%s %s" % (x[0], sh(x[1], 3)) for x in l)
