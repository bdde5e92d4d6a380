"""Every call comes to an end: loops and recursive calls make progress on something finite (C41)."""
import re
from rulelib import *
import rules_pw as pw
import rules_faults as flt
from rules_apird import rewrite
from rules_pbf import walk, position, reval, from_file, off
from fractions import Fraction

def holds(g, t, k):
    return any(x is t and (kk == k and p or kk is (not k) and not p) for x, kk, p in g) if isinstance(k, bool) else any(x is t and kk == k and p for x, kk, p in g)
def nonzero(g, t): return any(x is t and (kk == 0 and not p or kk is not False and isinstance(kk, int) and kk > 0 and p) for x, kk, p in g)
def mentions(t, phis):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in phis: return True
        todo += [y for a in x.a for y in flat(a)]
    return False
def flat(x):
    if isinstance(x, T): yield x
    elif isinstance(x, (tuple, frozenset)):
        for y in x: yield from flat(y)
def took(F, g, new, old):
    """does `new` denote a stream or sequence `old` after something was taken from it?"""
    n = 0; some_ = False
    while new is not old and n < 40:
        n += 1
        if new.op != "consumed": return False
        d = new.a[1]
        if d.op == "readdata":
            if d.a[0] == "read_exact":
                k = F.N(d.a[3]); some_ = some_ or k.op == "int" and k.a[0] > 0
            else: some_ = some_ or any(x.op == "nread" and x.a[0] is d and k == 0 and not p or x.op == "len" and x.a[0] is d and k == 0 and not p for x, k, p in g)
        new = new.a[0]
    return some_ and new is old

def moves(F, g, ph, y, phis):
    """why a variable that goes from ph to y cannot do so for ever"""
    if older(F, g, y, ph)[1]: return "iterator"
    if shrunk(F, g, y, ph)[1]: return "collection"
    if y.op == "rem" and y.a[0] is ph and any(t.op == "haskey" and t.a[0] is ph and t.a[1] is y.a[1] and (kk is True) == (p is True) for t, kk, p in g): return "collection"
    if y.op == "iter" and y.a[0] == "opaque" and y.a[1] is ph and y.a[2].op == "int" and y.a[2].a[0] > 0 and any(t.op == "has" and t.a[0] is ph and t.a[1].op == "int" and t.a[1].a[0] < y.a[2].a[0] and (kk is True) == (p is True) for t, kk, p in g): return "sequence"
    if y.op not in ("adt", "push", "iter", "sel", "consumed", "cat"):
        P = F.poly(F.N(ph))
        d = least(F, padd(F.poly(F.N(y)), P, -1), phis)
        if set(d) == {()} and d[()] != 0:
            k = d[()]
            if k > 0 and any(bounds(F, l, P, ph, phis) for l in g): return "position"
            for t, kk, p in g:
                if t.op == "has" and t.a[1] is ph and k > 0 and (kk is True) == (p is True) and not mentions(t.a[0], phis): return "sequence"
                if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq") and (t.a[1] is ph or t.a[2] is ph):
                    o = t.a[0]; other = t.a[2] if t.a[1] is ph else t.a[1]
                    if t.a[2] is ph: o = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(o, o)
                    if not ((kk is True or kk == 1) == bool(p)): o = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Ne": "Eq", "Eq": "Ne"}[o]
                    if not mentions(other, phis) and (o in ("Lt", "Le") and k > 0 or o in ("Gt", "Ge") and k < 0 or o == "Ne" and abs(k) == 1): return "counter"
    for x in ([y] if y.op == "consumed" else y.a[2] if y.op == "adt" else ()):
        for z in [x] + (list(x.a[2]) if x.op == "adt" else []):
            old = ph if z is y else None
            if z.op == "consumed":
                r = z
                while r.op == "consumed": r = r.a[0]
                if mentions(r, {ph}) and not any(q.op == "sought" for q in walk(mk("tuple1", r))) and took(F, g, z, r): return "stream"
    return None
def bounds(F, l, P, ph, phis):
    """the literal says that a position not before P is below a bound that stays"""
    t, k, p = l; yes = (k is True or k == 1) == bool(p)
    if t.op == "has":
        if not yes: return False
        d = padd({(mk("len", t.a[0]),): 1}, F.poly(t.a[1]), -1)
    elif t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
        o, a, b = t.a
        if o in ("Gt", "Ge"): a, b = b, a
        d = padd(F.poly(b), F.poly(a), -1)
        if not yes: d = {m: -c for m, c in d.items()}
    else: return False
    # d is not negative; with e = d + P the position is at most e, whose other parts may only lower it
    e = least(F, {m: -c for m, c in padd(d, P).items() if c}, phis)
    def stays(x):
        if x.op == "phi": return x in F.e.phis and ph in F.e.phis and not within(F, F.e.phis[x]["key"], F.e.phis[ph]["key"])
        if x.op == "idx": return ph in F.e.phis and not within(F, x.a[0][0], F.e.phis[ph]["key"])
        return x.op not in ("pull", "readdata", "nread")
    return all(stays(x) for m in e for y in m for x in walk(y)) and not any(mentions(y, phis) for m in e for y in m)
def within(F, kx, kp):
    """loop kx is loop kp or runs inside one turn of it"""
    if kx == kp: return True
    if kp[1] == "consume" or kx[1] == "consume": return True
    f, b = kx[0], kx[2]; n = 0
    while f != kp[0] and n < 200:
        if f not in F.e.ctxinfo: return False
        f, _, b = F.e.ctxinfo[f][0], 0, F.e.ctxinfo[f][-1]; n += 1
    if f != kp[0]: return False
    return b in I.CFG(F.e.p.bodies[kp[1]]["body"]).loops.get(kp[2], {b})
def shrunk(F, g, t, old, seen=()):
    """(no longer, shorter) whether collection t is what is left of `old`"""
    if t is old: return True, False
    if t in seen: return True, False
    if t.op == "fn" and t.a[0] in ("poprest_f", "poprest_b"):
        x = t.a[1][0]; r, s = shrunk(F, g, x, old, seen)
        return r, r and (s or holds_not(g, mk("len", x), 0))
    if t.op in ("pushf", "push"):
        x = t.a[0]; end = {"pushf": ("poprest_f", 0), "push": ("poprest_b", -1)}[t.op]
        # put back what was taken just before
        if x.op == "fn" and x.a[0] == end[0] and F.N(t.a[1]) is F.N(mk("elem", x.a[1][0], INT(end[1]))): return shrunk(F, g, x.a[1][0], old, seen)
        return False, False
    if t.op == "sorted": return shrunk(F, g, t.a[0], old, seen)
    if t.op == "phi" and t in F.e.phis:
        i = F.e.phis[t]; r, s = shrunk(F, g, i["init"], old, seen + (t,))
        if not r: return False, False
        strict = bool(i["step"])
        pc = F.NG(i.get("steppc", NOG))
        for q in i["step"]:
            for h, x in F.expand(q):
                a, b = shrunk(F, F.NG(h) | pc, x, t, seen + (t,))
                if not a: return False, False
                strict = strict and b
        if not s and i["init"] is old and holds_not(g, mk("len", old), 0) and holds(g, mk("len", t), 0): s = True
        return True, s or strict and turned(F, g, t)
    return False, False
def holds_not(g, t, k): return any(x is t and (kk == k and not p or isinstance(kk, int) and kk != k and p) for x, kk, p in g)
def turned(F, g, t):
    """the loop of which t is a variable was gone through at least once"""
    i = F.e.phis[t]
    for q, j in F.e.phis.items():
        if j["key"] != i["key"] or q is t: continue
        # a collection that the loop fills is not empty any more
        if j["init"].op == "empty" and j["step"] and holds_not(g, mk("len", q), 0): return True
        # a counter arrived at a bound above its start
        for x, k, p in g:
            if x.op == "bin" and x.a[0] == "Lt" and (k is True or k == 1) != bool(p) and F.e.positive(x.a[2]):
                if x.a[1] is q and j["init"].op == "int" and j["init"].a[0] <= 0: return True
                if x.a[1] is mk("len", q) and j["init"].op == "empty": return True
    return False

def least(F, d, phis, n=6):
    """a lower bound of a difference: counters of inner loops only grow from where they started"""
    for m, k in list(d.items()):
        if len(m) == 1 and k > 0 and m[0].op in ("idx", "len"): return least(F, {q: c for q, c in d.items() if q != m}, phis, n)
        if len(m) == 1 and k == 1 and m[0].op == "phi" and m[0] not in phis and m[0] in F.e.phis and n:
            i = F.e.phis[m[0]]; ok = bool(i["step"])
            for x in i["step"]:
                for g, y in alts(x):
                    if y.op in ("adt", "push", "iter", "cat", "consumed"): ok = False; break
                    s = padd(F.poly(y), F.poly(m[0]), -1)
                    if not (set(s) <= {()} and s.get((), 0) >= 0): ok = False
            if ok: return least(F, padd({q: c for q, c in d.items() if q != m}, F.poly(i["init"])), phis, n - 1)
    return {m: k for m, k in d.items() if k}

def splits(x):
    return x.op == "sel" or x.op == "adt" and any(splits(y) for y in x.a[2])
def cases(y, cap=96):
    """alternatives of a value, with those inside the structures it is made of"""
    out = []
    for g, x in alts(y):
        if x.op == "adt" and any(splits(a) for a in x.a[2]):
            ps = [(g, ())]
            for a in x.a[2]:
                ps = [(h | g2, xs + (z,)) for h, xs in ps for g2, z in (cases(a, cap) if splits(a) else [(NOG, a)]) if not contradicts(h, g2)]
                if len(ps) > cap: ps = None; break
            out += [(g, x)] if ps is None else [(h, mk("adt", x.a[0], x.a[1], xs)) for h, xs in ps]
        else: out.append((g, x))
    return out
def turns(A, b, phimap):
    """[(guard, {loop variable: value after the turn})]; only variables that may show progress are split by case"""
    F = A.F; e = A.e
    mine = [(ph, k2) for k2, (ph, init) in phimap.items() if k2[0] == b.part]
    val = {ph: (e.read_raw(b, k2[1], k2[2]) if k2[1] in b.mem or k2[1][0] not in "LTH" else ph) for ph, k2 in mine if k2[1] != ("TRACE",)}
    out = [(b.pc, {})]
    for ph, y in val.items():
        al = cases(y)
        out = [(h | g, {**m, ph: x}) for h, m in out for g, x in al if not contradicts(h, g)]
        if len(out) > 512: raise Finding("too many cases")
    return [(implied(g), m) for g, m in out if I.feasible(g)]
def implied(g):
    """the literals with those added that every remaining alternative of a literal about a choice has in common"""
    for _ in range(4):
        new = set()
        for t, k, p in g:
            if t.op != "sel": continue
            rest = []
            for h, x in alts(t):
                if contradicts(h, g): continue
                if x.op in ("int", "bool"):
                    if (x.a[0] == k) == bool(p): rest.append(h)
                else: rest.append(h | {(x, k, p)})
            if rest: new |= frozenset.intersection(*map(frozenset, rest)) - g
        if not new: return g
        g = g | new
    return g

def lexicographic(A, b, phimap, family):
    F = A.F; R = Ranking(A.p, F, family)
    R.fixed = {ph for ph, init in phimap.values()}
    for g, m in turns(A, b, phimap):
        comp = {}
        for ph, y in m.items():
            if y is not ph and F.N(y) is not F.N(ph): R.parts(g, (ph.id,), ph, y, comp)
        R.out.append(("a turn", g, comp, ()))
    return R.prove()

# ------------------------------------------------ calls: recursion, and iterators called until they end
NEXT = re.compile(r"^<(osm_io::.*) as std::iter::Iterator>::next$")
def sccs(nodes, edges):
    """groups of nodes that reach each other"""
    reach = {}
    for n in nodes:
        seen = set(); todo = [n]
        while todo:
            for y in edges.get(todo.pop(), ()):
                if y in nodes and y not in seen: seen.add(y); todo.append(y)
        reach[n] = seen
    out = []; done = set()
    for n in nodes:
        if n in done: continue
        s = {m for m in nodes if m == n or m in reach[n] and n in reach[m]}
        done |= s; out.append((s, n in reach[n]))
    return out
def recursive(p):
    """a function of every cycle of calls in the crate"""
    calls = {k: v for k, v in flt.calls_of(p).items() if k.startswith(("osm_io::osm::", "<osm_io::osm::"))}
    # a closure is called by whoever contains it
    for k in list(calls):
        if "::{closure" in k: calls.setdefault(k[:k.rindex("::{closure")], set()).add(k)
    out = []
    for s, cyclic in sccs(sorted(calls), calls):
        if not cyclic: continue
        for k in sorted(s, key=lambda k: ("{closure" in k, k)):
            rest = sorted(s - {k})
            if not any(cy for _, cy in sccs(rest, calls)): out.append(k); break
        else: raise Finding("calls in circles among %s" % ", ".join(sorted(s)))
    return out

def older(F, g, t, old, seen=()):
    """(later, strictly) whether iterator or stream state t comes after `old`"""
    t = F.N(t)
    if t is old: return True, False
    if t in seen: return True, False
    if t.op == "fn" and t.a[0] == "after":
        y = F.N(t.a[1][0]); r, s = older(F, g, y, old, seen)
        return r, s or holds(g, mk("discr", F.N(fn("pull", y))), 1)
    i = loop_value(F, t)
    if i is not None:
        r, s = older(F, g, i[0], old, seen + (t,))
        if not r: return False, False
        for h, x in i[1]:
            if not older(F, h, x, t, seen + (t,))[0]: return False, False
        return True, s
    return False, False
def loop_value(F, t):
    """(value before the loop, [(guard, value after a turn)]) of a loop variable or of a part of one"""
    path = []
    while t.op == "fld": path.append(t.a[1:]); t = t.a[0]
    i = F.e.phis.get(t) if t.op == "phi" else None
    if i is None: return None
    def part(x):
        for q in reversed(path): x = I.proj_fld(x, *q)
        return x
    out = []
    for q in i["step"]:
        for h, x in alts(part(q)): out.append((h, F.N(x)))
    return F.N(part(i["init"])), out
def false(F, l):
    """a literal that cannot hold: constants, settings that are positive"""
    t, k, p = l
    if t.op == "len" and t.a[0] is EMPTY: t = INT(0)
    if t.op in ("int", "bool"): return (t.a[0] == k) != bool(p)
    if t.op != "bin" or t.a[0] not in ("Lt", "Le", "Gt", "Ge"): return False
    o, a, b = t.a; yes = (k is True or k == 1) == bool(p)
    if o in ("Gt", "Ge"): a, b = b, a; o = {"Gt": "Lt", "Ge": "Le"}[o]
    d = {m: c for m, c in padd(F.poly(b), F.poly(a), -1).items() if c and m != (mk("len", EMPTY),)}     # b - a
    least_ = d.get((), 0); most = d.get((), 0)
    for m, c in d.items():
        if not m: continue
        if len(m) != 1: return False
        low = 1 if F.e.positive(m[0]) else 0 if m[0].op in ("len", "idx") else None
        if low is None: return False
        if c > 0: most = None; least_ = None if least_ is None else least_ + c * low
        else: least_ = None; most = None if most is None else most + c * low
    if yes: return most is not None and (most <= 0 if o == "Lt" else most < 0)
    return least_ is not None and (least_ > 0 if o == "Lt" else least_ >= 0)
CONSTANT = ("int", "bool", "str", "float", "empty")
class Ranking:
    """transitions between states, [(what, guard, {part of the state: (old, new)}, new state)], that cannot follow each other for ever"""
    def __init__(self, p, F, family, k=None): self.p = p; self.F = F; self.family = family; self.k = k; self.out = []
    def forward(self, g, S): return False
    # ---- ranking
    def rel(self, g, old, new, changed):
        """'strict', 'same' or None"""
        F = self.F
        if new is old: return "same"
        r, s = older(F, g, new, old)
        if r: return "strict" if s else "same"
        r, s = shrunk(F, g, new, old)
        if r: return "strict" if s else "same"
        return "strict" if moves(F, g, old, new, changed) else None
    fixed = frozenset()
    def prove(self):
        """(what the progress rests on, transitions without progress)"""
        depth = 1; todo = list(self.out); rests = []; changed = {o for w, g, comp, vs in todo for o, n in comp.values() if o.op not in CONSTANT} | self.fixed
        while todo:
            left = self.once(todo, changed, rests)
            if left is None:
                # take the last turn of the loops inside apart, once
                new = [x for tr in todo for x in self.refine(tr)] if depth else None
                if new is None or len(new) > 512 or new == todo: return rests, todo
                depth -= 1; left = new; changed |= {o for w, g, comp, vs in new for o, n in comp.values() if o.op not in CONSTANT}
            todo = left
        return rests, []
    def refine(self, tr):
        """a transition through a loop: the loop was not entered, or its last turn came after earlier ones"""
        w, g, comp, vs = tr; F = self.F
        phs = {y for o, n in comp.values() for y in walk(n) if y.op == "phi" and y in F.e.phis and y not in self.fixed}
        keys = {F.e.phis[y]["key"] for y in phs}
        if len(keys) != 1: return [tr]
        phs = sorted((y for y in F.e.phis if F.e.phis[y]["key"] in keys), key=lambda y: y.id)
        if any(len(F.e.phis[y]["step"]) != 1 for y in phs): return [tr]
        out = []
        pc = frozenset().union(*[F.NG(F.e.phis[y].get("steppc", NOG)) for y in phs])
        for first in (True, False):
            vals = [F.e.phis[y]["init" if first else "step"] for y in phs]
            for h, tup in F.expand(mk("adt", "tuple", 0, tuple(v if first else v[0] for v in vals))):
                m = dict(zip(phs, tup.a[2])); memo = {}
                g2 = set(h) | (set() if first else pc); ok = True
                for t, k, p in g:
                    t2 = F.N(rewrite(t, m.get, memo))
                    if t2.op == "discr" and t2.a[0].op == "adt": t2 = INT(t2.a[0].a[1])
                    if t2.op in ("int", "bool"):
                        if (t2.a[0] == k) != bool(p): ok = False; break
                    else: g2.add((t2, k, p))
                g2 = F.NG(frozenset(g2))
                if not ok or any(contradicts(frozenset([l]), g2) for l in g2) or not I.feasible(g2): continue
                try: ds = I.dnf(g2)
                except I.Limit: ds = [g2]
                if all(any(false(F, l) for l in F.NG(d)) for d in ds): continue
                c2 = {}
                for q, (o, n) in comp.items(): self.parts(g2, q, o, F.N(rewrite(n, m.get, memo)), c2)
                out.append((w, g2, c2, vs))
        return out
    def once(self, todo, changed, rests):
        paths = sorted({q for w, g, comp, vs in todo for q in comp}, key=str)
        for q in paths:
            left = []; ok = True
            for tr in todo:
                w, g, comp, vs = tr
                if q in comp: r = self.rel(g, *comp[q], changed)
                elif any(q[:i] in comp for i in range(1, len(q))) or any(z[:len(q)] == q for z in comp): r = None
                else: r = "same"
                if r is None: ok = False; break
                if r == "same": left.append(tr)
            if ok and len(left) < len(todo): rests.append(q); return left
        for q in paths:
            # the alternatives of an enumeration follow each other without returning
            olds = {comp[q][0] for w, g, comp, vs in todo if q in comp}
            if len(olds) != 1: continue
            o = olds.pop(); nodes = set(); edges = {}; mine = {}
            news = [comp[q][1] for w, g, comp, vs in todo if q in comp]
            if not all(x.op == "adt" for x in news) or not news: continue
            n = len(variants_or(self.p, news[0].a[0]))
            if n < 2: continue
            for i, (w, g, comp, vs) in enumerate(todo):
                fr = allowed_variants(g, o, n)
                if q in comp: es = {(a, comp[q][1].a[1]) for a in fr}
                elif any(q[:i] in comp for i in range(1, len(q))) or any(z[:len(q)] == q for z in comp): es = {(a, b) for a in fr for b in range(n)}
                else: es = {(a, a) for a in fr}
                mine[i] = es
                for a, b in es: nodes |= {a, b}; edges.setdefault(a, set()).add(b)
            group = {m: j for j, (s, _) in enumerate(sccs(sorted(nodes), edges)) for m in s}
            left = [tr for i, tr in enumerate(todo) if any(group[a] == group[b] for a, b in mine[i])]
            if len(left) < len(todo): rests.append(q); return left
        left = [tr for tr in todo if not (len(tr[3]) and self.forward(tr[1], tr[3][0]))]
        if len(left) < len(todo) and not left: rests.append("position"); return left
        return None
    def parts(self, g, path, old, new, comp):
        """how the parts of the state change: path -> (old, new)"""
        if new is old: return
        b = self.renewed(old, new)
        if b is not None: comp[path] = (old, b)
        elif new.op == "adt" and new.a[0] != "tuple" and len(variants_or(self.p, new.a[0])) == 1:
            for j, x in enumerate(new.a[2]):
                self.parts(g, path + (j,), self.F.N(I.proj_fld(old, 0, j, self.p.ty(self.p.adt_ty[new.a[0]][0])["variants"][0]["fields"][j][0])), x, comp)
        else:
            comp[path] = (old, new)
            if new.op == "adt" and new.a[0] != "tuple" and holds(g, mk("discr", old), new.a[1]):
                fs = self.p.ty(self.p.adt_ty[new.a[0]][0])["variants"][new.a[1]]["fields"]
                for j, x in enumerate(new.a[2]): self.parts(g, path + ((new.a[1], j),), self.F.N(I.proj_fld(old, new.a[1], j, fs[j][0])), x, comp)
    def renewed(self, old, new):
        """the state of an iterator of the crate after it was pulled, when only parts that its own progress does not rest on were overwritten"""
        p = self.p
        if new.op != "adt": return None
        k = "<%s as std::iter::Iterator>::next" % new.a[0]
        if not NEXT.match(k) or k == self.k or k not in p.bodies: return None
        fs = p.ty(p.adt_ty[new.a[0]][0])["variants"][0]["fields"]
        bases = [x.a[0] for x in new.a[2] if x.op == "fld"]
        for b in bases:
            if not (b.op == "fn" and b.a[0] == "after"): continue
            kept = {j for j, x in enumerate(new.a[2]) if x is self.F.N(I.proj_fld(b, 0, j, fs[j][0]))}
            over = set(range(len(new.a[2]))) - kept
            if len(kept) >= 1 and not over & self.family.rests_on(k): return b
        return None

class Moves(Ranking):
    """what a call does to the state it is given: transitions that are followed by another call"""
    def __init__(self, c, k, family):
        p = c.prog; self.k = k; self.family = family; self.rec = []
        its = {m for m in p.bodies if NEXT.match(m) and "body" in p.bodies[m]}
        self.iterator = k in its
        def setup(A):
            A.e.orpc = True
            for m in its - {k}: A.e.intercepts[m] = pulled
            def again(e, st, cc):
                vs = tuple(e.load(st, a) if a.op == "ref" else a for a in cc.args)
                self.rec.append((st.copy(), vs)); s = st.copy()
                for a, v in zip(cc.args, vs):
                    if a.op == "ref": e.store(s, a, fn("later", v))
                return [(s, fn("again", vs[0]))]
            A.e.intercepts[k] = again
        A = self.A = Ana(c, k, paths=True, setup=setup); F = A.F
        Ranking.__init__(self, p, F, family, k)
        self.olds = [mk("deref", a) if p.ty(a.a[1])["k"] == "ref" else a for a in A.args]
        self.out = []
        for st, vs in self.rec: self.add("a call of itself", st.pc, vs)
        if self.iterator:
            for s, v in A.outs:
                S = A.e.read(s, ("X", A.args[0]))
                for g, x in alts(v):
                    if x.op == "adt" and x.a[1] == 0 or x.op == "fn" and x.a[0] == "again": continue
                    self.add("an item", g | s.pc, (S,))
    def add(self, what, pc, vs):
        F = self.F; olds = self.olds[:len(vs)]
        for h, tup in F.expand(mk("adt", "tuple", 0, tuple(vs))):
            if contradicts(h, pc): continue
            for d in I.dnf(F.NG(h | pc)):
                if not I.feasible(d): continue
                g = F.NG(d); comp = {}
                for i, (o, x) in enumerate(zip(olds, tup.a[2])): self.parts(g, (i,), F.N(o), F.N(x), comp)
                self.out.append((what, g, comp, tup.a[2]))
    def nests(self):
        """a call of itself that can be followed by the same again, so that the input decides how deep calls nest"""
        F = self.F; ts = [t for t in self.out if t[0] == "a call of itself"]; edges = {}
        for i, (w, g, comp, vs) in enumerate(ts):
            m = {o: F.N(v) for o, v in zip(map(F.N, self.olds), vs)}; memo = {}
            for j, (w2, g2, comp2, vs2) in enumerate(ts):
                ok = True; h = set(g)
                for t, k, p in g2:
                    t2 = F.N(rewrite(t, m.get, memo))
                    if t2.op == "discr" and t2.a[0].op == "adt": t2 = INT(t2.a[0].a[1])
                    if t2.op in ("int", "bool"):
                        if (t2.a[0] == k) != bool(p): ok = False; break
                    else: h.add((t2, k, p))
                if ok and not any(contradicts(frozenset([l]), g) for l in h) and I.feasible(frozenset(h)): edges.setdefault(i, set()).add(j)
        for group, cyclic in sccs(list(range(len(ts))), edges):
            if cyclic:
                w, g, comp, vs = ts[min(group)]
                return "the input decides how deep its calls of itself nest, which may exhaust the stack (changed: %s)" % ("; ".join(sorted({"%s to %s" % (sh(o, 3), sh(n, 3)) for o, n in comp.values()})) or "nothing")
        return None
    def forward(self, g, S):
        """the position in a file at which the next read happens has moved on"""
        F = self.F; reads = sorted({y for t, k, q in g for y in walk(t) if y.op == "readdata"} | {y for y in walk(S) if y.op == "readdata"}, key=lambda y: y.id)
        D = self.olds[0]; lens = [F.poly(y.a[3]) for y in reads if y.a[0] == "read_exact"]
        for y in reads:
            P = position(F, y.a[1])
            if any(z.op in ("readdata", "decoded") for m in P for a in m for z in walk(a)): continue
            if not any(D in walk(a) for m in P for a in m): continue
            d = padd(reval(F, P, D, S), P, -1)
            if d and all(c > 0 for c in d.values()) and d.get((), 0) > 0 and all(self.nonneg(g, a, lens) for m in d for a in m): return True
        return False
    def nonneg(self, g, x, lens):
        b = unnarrow(x, 16)
        if x.op == "len" or any(set(q) == {(x,)} for q in lens): return True
        for t, k, q in g:
            if t.op == "discr" and t.a[0].op == "tryconv" and (k == 0) == bool(q) and self.F.N(unnarrow(t.a[0].a[0], 16)) is b and "u" in t.a[0].a[1].a[0]: return True
            if t.op == "bin" and t.a[0] in ("Lt", "Ge", "Gt", "Le"):
                o = t.a[0]; yes = bool(k) == bool(q)
                if self.F.N(unnarrow(t.a[1], 16)) is b and t.a[2].op == "int" and (o == "Lt" and not yes or o == "Ge" and yes) and t.a[2].a[0] >= 0: return True
                if self.F.N(unnarrow(t.a[2], 16)) is b and t.a[1].op == "int" and (o == "Gt" and not yes or o == "Le" and yes) and t.a[1].a[0] >= 0: return True
        return False

class Family:
    def __init__(self, c):
        self.c = c; self.done = {}
    def of(self, k):
        if k not in self.done:
            self.done[k] = None
            M = Moves(self.c, k, self)
            self.done[k] = (M,) + M.prove()
        return self.done[k]
    def rests_on(self, k):
        """the parts of an iterator's state that its progress rests on"""
        r = self.of(k)
        if r is None: raise Finding("iterators depend on each other in circles")
        M, rests, left = r; out = set()
        for q in rests:
            if q == "position":
                for w, g, comp, vs in M.out:
                    for y in walk(vs[0]):
                        if y.op in ("consumed", "sought"): out |= {p[1] for p, (o, n) in comp.items() if len(p) > 1 and (y in walk(n) or n.op != "adt")}
            elif len(q) > 1: out.add(q[1])
        return out
def variants_or(p, name):
    ids = p.adt_ty.get(name)
    return p.ty(ids[0])["variants"] if ids and p.ty(ids[0]).get("variants") else {"std::option::Option": (0, 1), "std::result::Result": (0, 1)}.get(name, (0, 0))
def pulled(e, st, cc):
    r = cc.args[0]; v = e.load(st, r); s = st.copy(); e.store(s, r, fn("after", v))
    pl = fn("pull", v); d = mk("discr", pl)
    return [(s, sel([(frozenset([(d, 1, True)]), SOME(I.proj_fld(pl, 1, 0, "0"))), (frozenset([(d, 0, True)]), NONE)]))]

# ------------------------------------------------ the check
def analysed(c, k, orpc):
    its = iterators(c.prog)
    def setup(A):
        A.e.orpc = orpc; A.e.positive = lambda t: False
        for m in its - {k}: A.e.intercepts[m] = pulled
    return Ana(c, k, setup=setup)
def judged(A, k, family):
    for key, l in A.e.loops_done.items():
        for bb, phimap in l[-1:]:
            for b in bb:
                why, left = lexicographic(A, b, phimap, family)
                yield k, key, b, None if left else why, left, phimap
class Settings:
    """what the threads of a pool are told to use: which of these numbers can be 0"""
    def __init__(self, c): self.p = c.prog; self.given = {}; self.tls = pw.tls_table(c.prog)
    def add(self, A):
        for ev in A.events("set_tls"): self.given.setdefault(ev["args"][1].a[0], []).append((A.F, ev["pc"], ev["args"][2]))
    def positive(self, t):
        if t.op == "int": return t.a[0] > 0
        n = pw.tls_of(t) if t.op == "static" else None
        if n is None or n not in self.tls or n not in self.given: return False
        for F, pc, v in self.given[n]:
            for h, x in F.expand(v):
                x = F.N(x); g = F.NG(pc | h)
                if x.op == "int":
                    if x.a[0] <= 0: return False
                elif not above0(g, x): return False
        return True
def above0(g, x):
    if x.op == "fn" and x.a[0] == "max" and any(y.op == "int" and y.a[0] > 0 or above0(g, y) for y in x.a[1]): return True
    for t, k, p in g:
        if t is x and (k == 0 and not p or isinstance(k, int) and k is not False and k > 0 and p): return True
        if t.op != "bin": continue
        o, a, b = t.a[0], t.a[1], t.a[2]; yes = (k is True or k == 1) == bool(p)
        if b is x: a, b = b, a; o = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(o, o)
        if a is not x or b.op != "int": continue
        if not yes: o = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Ne": "Eq", "Eq": "Ne"}.get(o)
        n = b.a[0]
        if o == "Ne" and n == 0 or o == "Gt" and n >= 0 or o in ("Ge", "Eq") and n > 0: return True
    return False
def explore(c, family):
    p = c.prog; seen = set(); S = Settings(c)
    ks = sorted(set(flt.entries(p)) | iterators(p)); As = {}
    for k in ks:
        As[k] = A = analysed(c, k, False); S.add(A)
    def look(k):
        A = As[k] if k in As else analysed(c, k, False)
        for o in (False, True):
            if o: A = analysed(c, k, True)
            A.e.positive = S.positive
            out = list(judged(A, k, family))
            if all(x[3] is not None for x in out): break
        for x in out: seen.add(x[1][1])
        return out
    for k in ks: yield from look(k)
    # functions that repeat something and that none of these calls reaches as far as the analysis can tell
    for k in sorted(p.bodies):
        if k not in seen and k.startswith(("osm_io::osm::", "<osm_io::osm::")) and "body" in p.bodies[k] and I.CFG(p.bodies[k]["body"]).loops: yield from look(k)
def iterators(p): return {m for m in p.bodies if NEXT.match(m) and "body" in p.bodies[m]}

def named(key): return key.replace("osm_io::osm::", "").replace(" as std::iter::Iterator", "")
def run_ends(c):
    p = c.prog
    c.rule("every turn of every loop makes progress on something finite: a counter towards a bound that stays, a position in a collection that is not refilled, a stream that was read from, an iterator of the crate that gave an item; ranked lexicographically over all paths of the loop body")
    c.rule("every function that calls itself, and every call of an iterator of the crate that gives an item, leaves a state that is later in a well-founded order: streams and collections used up, alternatives of an enumeration that never come back, positions in the file that only grow")
    family = Family(c)
    c.guard("loops", ends_loops, c, family)
    c.guard("calls", ends_calls, c, family)
def ends_loops(c, family):
    n = 0
    res = {}
    for k, key, b, why, left, phimap in explore(c, family):
        n += 1
        at = ("iteration in " + named(k)) if key[0] == "consume" else named(key[1])
        o = res.setdefault(at, [True, ""])
        if why is None:
            o[0] = False
            ns = sorted({"%s" % sh(n_, 4) for o_, n_ in left[0][2].values()})
            o[1] = "%s: a turn of the loop makes no progress towards its end (new values: %s)" % (at, "; ".join(ns[:4])[:300] or "none")
    for at in sorted(res): c.ob("loop:%s" % at, *res[at])
    c.metrics["loop_bodies"] = n
def ends_calls(c, fam):
    p = c.prog
    rs = recursive(p)
    for k in sorted(set(rs) | iterators(p)):
        M, rests, left = fam.of(k)
        why = ""
        if left:
            w, g, comp, vs = left[0]
            why = "%s: %s leaves the state without progress (changed: %s)" % (named(k), w, "; ".join(sorted({"%s to %s" % (sh(o, 3), sh(n, 3)) for o, n in comp.values()})) or "nothing")
        c.ob("call:%s" % named(k), not left, why)
        if k in rs:
            deep = M.nests()
            c.ob("depth:%s" % named(k), deep is None, "%s: %s" % (named(k), deep))
        c.ob("call:%s transitions" % named(k), bool(M.out) or not M.iterator, "%s never gives an item" % named(k))
