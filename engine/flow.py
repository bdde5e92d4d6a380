"""Queries over value-flow terms: numeric normal forms, definition closures of
phi-derived values, loop-item recognition, guarded equality."""
from fractions import Fraction
from terms import *
from interp import *
import interp as I

class Loop:
    def __init__(self, owner, key):
        self.owner = owner; self.key = key; self.alts = []; self.src = None

class Flow:
    def __init__(self, eng):
        self.e = eng
        self._n = {}
        self._x = {}
        self._loops = {}

    # ---------- definitions of phi-derived values
    def defs(self, t):
        """[(kind, guard, term)] one-step definitions of a phi or of a projection of one; None if not derived"""
        if t.op == "phi":
            i = self.e.phis.get(t)
            if i is None: return None
            out = [("init", i.get("initpc", NOG), i["init"])]
            for s in i["step"]: out.append(("step", self.steppc(i), s))
            return self._flat(out)
        if t.op in ("fld", "elem", "mapval", "deref") and isinstance(t.a[0], T):
            d = self.defs(t.a[0])
            if d is None: return None
            out = []
            for k, g, x in d:
                if x is t.a[0]:
                    out.append((k, g, t)); continue
                if t.op == "fld": y = I.proj_fld(x, t.a[1], t.a[2], t.a[3])
                elif t.op == "elem": y = I.proj_elem(x, t.a[1])
                elif t.op == "mapval": y = I.proj_key(x, t.a[1])
                else: y = self.e.read(State(), ("X", x))
                out.append((k, g, y))
            return self._flat(out)
        return None
    def steppc(self, i):
        return i.get("steppc", NOG)
    def root_phi(self, t):
        while t.op in ("fld", "elem", "mapval", "deref") and isinstance(t.a[0], T): t = t.a[0]
        return t if t.op == "phi" and t in self.e.phis else None
    def loop_of(self, t):
        """(key, part) of the loop whose head defines the phi-derived value t"""
        r = self.root_phi(t)
        return (self.e.phis[r]["key"], r.a[3]) if r is not None else None
    def absent(self, t, g):
        """guard g excludes that the projection t exists (a wrapping Option/enum variant is not there)"""
        while t.op in ("fld", "elem", "mapval", "deref") and isinstance(t.a[0], T):
            if t.op == "fld":
                b, vi = t.a[0], t.a[1]
                for (x, k, p) in g:
                    if x.op == "discr" and x.a[0] is b and (p and k != vi or not p and k == vi): return True
            t = t.a[0]
        return False
    def const_of(self, t, seen=None):
        """the constant a phi-derived value always has (all reaching definitions agree), or None"""
        if not self._derived(t): return None
        if seen is None: seen = set()
        if t in seen: return None
        seen.add(t)
        val = None
        todo = [t]; vis = {t}
        while todo:
            x = todo.pop()
            for k, g, v in self.defs(x) or []:
                if self.absent(x, g) and False: continue
                if v in vis: continue
                if v.op in ("int", "bool", "str", "float", "char") or v is NONE:
                    if val is None: val = v
                    elif val is not v: return None
                elif v.op in ("cast",):
                    return None
                elif self._derived(v):
                    vis.add(v); todo.append(v)
                    if len(vis) > 40: return None
                else: return None
        return val
    def loop_src(self, key):
        """(sequence, index phi) when every exit of the loop is exhaustion of one sequence walked from 0; else None"""
        w = self.loop_walk(key)
        if not w: return None
        srcs = frozenset.intersection(*w)
        if not srcs: return None
        return sorted(srcs, key=lambda x: x[0].id)[0]
    def exits(self, key):
        return self.e.loop_exits.get(key[0] if isinstance(key, tuple) and len(key) == 2 and key[0] in self.e.loop_exits else key) or []
    def loop_walk(self, key, ctx=None, images=False):
        """per exit of the loop: the {(sequence, index)} it can be the exhaustion of (walked from 0 in steps of one);
        with ctx, only the exits compatible with these facts about the state after the loop"""
        kk = key[0] if isinstance(key, tuple) and len(key) == 2 and key[0] in self.e.loop_exits else key
        out = []
        for pc in self.exits(key):
            here = set(); g = self.NG(pc)
            if ctx and not I.feasible(g | ctx): continue
            for (t, k, p) in g:
                if t.op == "has" and (k is False and p or k is True and not p):
                    i = t.a[1]
                    if i.op == "idx": i0 = i.a[0]
                    else: continue
                    if i0[0] == kk if isinstance(i0, tuple) else True:
                        here.add((t.a[0], i))
                        if images: here |= {(s, i) for s in self.image_of(t.a[0], g)}
            out.append(frozenset(here))
        return out
    def walks(self, key, allowed):
        """index when the loop walks one or several of the (parallel) sequences and stops only when one of them ends"""
        w = self.loop_walk(key, images=True)
        if not w: return None
        al = {self.N(s) for s in allowed}
        idx = set()
        for ex in w:
            h = {i for s, i in ex if s in al}
            if not h: return None
            idx |= h
        return next(iter(idx)) if len(idx) == 1 else None

    def image_of(self, s, g):
        """the sequences of which this one is a pointwise image, complete in the situation g"""
        out = set()
        while s.op == "phi":
            r = self.pointwise(s)
            if r is None or (self.N(mk("has", r[0], r[1])), True, True) in g: break
            s = self.N(r[0])
            if s in out: break
            out.add(s)
        return out
    # ---------- iteration-shape normal form of a sequence
    def shape(self, v, base=None):
        """[(guard, [node])]; node: ("item", t) | ("loop", Loop) | ("splice", t) | ("reset",)"""
        if v is base: return [(NOG, [])]
        if v.op == "sel":
            out = []
            for g, x in v.a[0]:
                out += [(g | h, n) for h, n in self.shape(x, base) if not contradicts(g, h)]
            return out
        if v is EMPTY or v.op == "str" and v.a[0] == "" : return [(NOG, [] if base is None else [("reset",)])]
        if v.op == "push":
            return [(g, n + [("item", v.a[1])]) for g, n in self.shape(v.a[0], base)]
        if v.op == "adt" and v.a[0] == "array":
            return [(NOG, ([] if base is None else [("reset",)]) + [("item", x) for x in v.a[2]])]
        if v.op == "cat":
            out = []
            for g, n in self.shape(v.a[0], base):
                for h, m in self.shape(v.a[1], None):
                    if not contradicts(g, h): out.append((g | h, n + m))
            return out
        if self._derived(v):
            cur = self.loop_of(base) if base is not None else None
            lk = self.loop_of(v)
            if cur is not None and lk == cur: return [(NOG, [("splice", v)])]
            return [(g, n + [("loop", self.loop(v))]) for g, n in self.shape_init(v, base)]
        return [(NOG, [("splice", v)])]
    def shape_init(self, v, base):
        out = []
        for k, g, x in self.defs(v):
            if k != "init": continue
            out += [(g | h, n) for h, n in self.shape(x, base) if not contradicts(g, h)]
        if not out: out = [(NOG, [] if base is None else [("reset",)])]
        return out
    def loop(self, owner):
        r = self._loops.get(owner)
        if r is None:
            r = self._loops[owner] = Loop(owner, self.loop_of(owner))
            r.src = self.loop_src(r.key[0])
            for k, g, x in self.defs(owner):
                if k != "step": continue
                for h, n in self.shape(x, owner):
                    if contradicts(g, h): continue
                    gg = g | h
                    if n and n[0] == ("reset",) and self.absent(owner, gg): n = n[1:]; gg = gg | frozenset([(mk("fresh"), True, True)])
                    r.alts.append((gg, n))
        return r
    def _flat(self, l):
        out = []
        for k, g, x in l:
            for h, y in alts(x):
                if y.op == "undef": continue
                if contradicts(g, h): continue
                out.append((k, g | h, y))
        return out

    # ---------- counters / loop items
    def counter(self, t):
        """(loop key, start) when t is a counter phi stepping by one"""
        if t.op != "phi": return None
        i = self.e.phis.get(t)
        if i is None or len(i["step"]) != 1: return None
        s = i["step"][0]
        if s.op == "bin" and s.a[0] == "Add" and s.a[1] is t and s.a[2] is INT(1) and i["init"].op == "int":
            return (i["key"], t.a[3]), i["init"].a[0]
        return None
    def canon_idx(self, t):
        c = self.counter(t)
        if c is None: return None
        return I.binop1("Add", mk("idx", c[0]), INT(c[1])) if c[1] else mk("idx", c[0])

    # ---------- canonical rewriting (sel-free on top unless kept)
    def N(self, t):
        r = self._n.get(t)
        if r is None:
            r = self._n[t] = t  # recursion guard
            r = self._norm(t)
            self._n[t] = r
        return r
    def _norm(self, t):
        op = t.op
        if op == "phi":
            c = self.canon_idx(t)
            if c is not None: return self.poly_t(self.poly(c)) if c.op == "bin" else c
            d = self.collapse(t)
            return d if d is not None else t
        if op in ("bin", "cast", "un"):
            p = self.poly(t)
            return self.poly_t(p)
        if op in ("int", "float"):
            return self.poly_t(self.poly(t))
        if op in ("bool", "str", "sym", "char", "bytes", "empty", "undef", "static", "idx"): return t
        if op == "fld":
            b = self.N(t.a[0])
            if b.op in ("adt",): return I.proj_fld(b, t.a[1], t.a[2], t.a[3])
            c = self.const_of(t)
            if c is not None: return self.N(c)
            return mk("fld", b, *t.a[1:])
        if op == "adt":
            return mk("adt", t.a[0], t.a[1], tuple(self.N(x) for x in t.a[2]))
        if op == "sel":
            return sel([(self.NG(g), self.N(v)) for g, v in t.a[0]])
        if op == "fn":
            return mk("fn", t.a[0], tuple(self.N(x) if isinstance(x, T) else x for x in t.a[1]))
        if op == "elem":
            s = self.N(t.a[0]); i = self.N(t.a[1])
            while i.op == "fn" and i.a[0] == "narrow" and i.a[1][0].a[0] in ("i32", "u32"): i = i.a[1][1]   # list positions fit 32 bits
            m = self.map_elem(t.a[0], i)
            if m is not None: return m
            return mk("elem", s, i)
        out = []
        for x in t.a:
            out.append(self.NX(x))
        return mk(op, *out)
    def NX(self, x):
        if isinstance(x, T): return self.N(x)
        if isinstance(x, tuple): return tuple(self.NX(y) for y in x)
        if isinstance(x, frozenset): return self.NG(x)
        return x
    def NG(self, g):
        return frozenset(self.NL(t, k, p) for t, k, p in g)
    def NL(self, t, k, p):
        """normal form of a guard literal; `i < len(s)` is written has(s, i)"""
        n = self.N(t)
        if n.op == "bin" and n.a[0] == "Lt" and n.a[2] is INT(0):
            pl = self.poly(n.a[1])
            ls = [m for m, c in pl.items() if len(m) == 1 and m[0].op == "len"]
            if len(ls) == 1 and pl[ls[0]] == -1:
                i = padd(pl, {ls[0]: Fraction(1)})
                if all(c.denominator == 1 for c in i.values()):
                    return (mk("has", ls[0][0].a[0], self.poly_t(i)), bool(k) == bool(p), True)
        return (n, k, p)
    def collapse(self, t):
        """phi whose every definition is one same value (or itself)"""
        i = self.e.phis.get(t)
        if i is None: return None
        vals = set()
        for x in [i["init"]] + i["step"]:
            for g, y in alts(x):
                if y is t or y.op == "undef": continue
                vals.add(y)
        if len(vals) == 1:
            v = next(iter(vals))
            if v.op != "phi" or v is not t:
                # only loop-invariant values may be collapsed
                if not self.mentions_loop(v, i["key"]): return self.N(v)
        return None
    def mentions_loop(self, v, key, seen=None, d=0):
        if seen is None: seen = set()
        if v in seen: return False
        seen.add(v)
        if v.op == "phi":
            i = self.e.phis.get(v)
            return i is not None and i["key"] == key or v.a[0] == key
        return any(self.mentions_loop(c, key, seen) for c in children(v))

    # an element of a sequence that is a pointwise image of another one
    def map_elem(self, s, idx):
        if s.op != "phi": return None
        r = self.pointwise(s)
        if r is None: return None
        src, ph, val = r
        return self.N(self.subst(val, ph, idx))
    def pointwise(self, s):
        """s = [f(src[0]), f(src[1]), ...] complete and unconditional: (src, counter phi, f-term)"""
        i = self.e.phis.get(s)
        if i is None or i["init"] is not EMPTY or len(i["step"]) != 1: return None
        st = i["step"][0]
        if st.op != "push" or st.a[0] is not s: return None
        ex = self.e.loop_exits.get(i["key"])
        if not ex: return None
        srcs = set()
        for pc in ex:
            for (t, k, p) in pc:
                if t.op == "has" and k is False and p and self.counter(t.a[1]) and self.counter(t.a[1])[0][0] == i["key"]:
                    srcs.add((t.a[0], t.a[1]))
        if len(srcs) != 1 or len(ex) != 1: return None
        src, ph = next(iter(srcs))
        return src, ph, st.a[1]
    def subst(self, t, a, b, memo=None):
        if memo is None: memo = {}
        if t is a: return b
        r = memo.get(t)
        if r is not None: return r
        def go(x):
            if isinstance(x, T): return self.subst(x, a, b, memo)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            if isinstance(x, frozenset): return frozenset((go(y), k, p) for y, k, p in x)
            return x
        if t.op in ("phi",): r = t
        elif t.op == "bin": r = I.binop1(t.a[0], go(t.a[1]), go(t.a[2]))
        else:
            na = tuple(go(x) for x in t.a)
            r = t if all(x is y or x == y for x, y in zip(na, t.a)) else mk(t.op, *na)
        memo[t] = r
        return r

    # ---------- numeric polynomials over the rationals
    WIDE = ("i64", "u64", "usize", "isize", "i128", "u128")
    def poly(self, t):
        op = t.op
        if op == "int": return {(): Fraction(t.a[0])} if t.a[0] else {}
        if op == "float":
            try: f = Fraction(repr(t.a[0]))
            except (ValueError, OverflowError): return {(t,): Fraction(1)}
            return {(): f} if f else {}
        if op == "phi":
            c = self.canon_idx(t)
            if c is not None:
                if c.op == "bin": return padd(self.poly(c.a[1]), self.poly(c.a[2]))
                return {(c,): Fraction(1)}
        if op == "bin":
            o, a, b = t.a
            if o == "Add": return padd(self.poly(a), self.poly(b))
            if o == "Sub": return padd(self.poly(a), self.poly(b), -1)
            if o == "Mul": return pmul(self.poly(a), self.poly(b))
            if o in ("Div",):
                pb = self.poly(b)
                if set(pb) == {()} and (self.is_float(a) or self.is_float(b)):
                    return {m: c / pb[()] for m, c in self.poly(a).items()}
                if self.is_float(a) or self.is_float(b):
                    return pmul(self.poly(a), {(fn("inv", self.poly_t(pb)),): Fraction(1)})
                return {(fn("idiv", self.poly_t(self.poly(a)), self.poly_t(pb)),): Fraction(1)}
            if o == "Shl" and b.op == "int": return {m: c * (1 << b.a[0]) for m, c in self.poly(a).items()}
            x, y = self.N(a), self.N(b)
            if o in ("Eq", "BitAnd", "BitOr", "BitXor") and x.id > y.id: x, y = y, x
            if o == "Lt":
                # a < b  ->  sign of a-b
                d = padd(self.poly(a), self.poly(b), -1)
                return {(mk("bin", "Lt", self.poly_t(d), INT(0)),): Fraction(1)} if not (self.is_float(a) or self.is_float(b)) else {(mk("bin", "Lt", x, y),): Fraction(1)}
            return {(mk("bin", o, x, y),): Fraction(1)}
        if op == "un" and t.a[0] == "Neg": return {m: -c for m, c in self.poly(t.a[1]).items()}
        if op == "cast":
            k, n, x = t.a
            if k == "i":
                if n in self.WIDE: return self.poly(x)
                p = self.poly(x)
                if set(p) <= {()}: return p
                return {(fn("narrow", STR(n), self.poly_t(p)),): Fraction(1)}
            if k == "if":
                if n == "f64" and x.op == "cast" and x.a[0] == "i" and x.a[1] in ("u64", "usize", "u128") and not self.never_negative(x.a[2]):
                    return {(fn("narrow", STR(x.a[1]), self.poly_t(self.poly(x))),): Fraction(1)}
                return self.narrowf(n, self.poly(x))
            if k == "f": return self.narrowf(n, self.poly(x))
            if k == "fi":
                p = self.poly(x)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0].op == "fn" and m[0].a[0] in ("round", "trunc", "floor", "ceil"):
                        return self.narrowf(n, p)
                return self.narrowf(n, {(fn("trunc", self.poly_t(p)),): Fraction(1)})
        if op == "fn" and t.a[0] in ("round", "trunc", "floor", "ceil", "round_ties_even") and len(t.a[1]) == 1:
            return {(fn(t.a[0], self.poly_t(self.poly(t.a[1][0]))),): Fraction(1)}
        if op == "un":
            return {(mk("un", t.a[0], self.N(t.a[1])),): Fraction(1)}
        n = self.N(t)
        if n.op == "poly":
            return {m: c for m, c in n.a[0]}
        if n.op == "int": return {(): Fraction(n.a[0])} if n.a[0] else {}
        return {(n,): Fraction(1)}
    def never_negative(self, x):
        while x.op == "cast" and x.a[0] == "i": x = x.a[2]
        return x.op == "len" or x.op == "int" and x.a[0] >= 0
    def narrowf(self, n, p):
        """a conversion to n of a number: from a float it is exact (whole numbers of the size of coordinates) only for wide signed types"""
        return p if n in ("i64", "isize", "i128", "f64") else {(fn("narrow", STR(n), self.poly_t(p)),): Fraction(1)}
    def is_float(self, t):
        if t.op == "float": return True
        if t.op == "cast": return t.a[0] in ("if", "f") or t.a[0] == "Transmute" and t.a[1][0] == "f"
        if t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Div", "Rem"): return self.is_float(t.a[1]) or self.is_float(t.a[2])
        if t.op == "un": return self.is_float(t.a[1])
        if t.op == "fn" and t.a[0] in ("round", "trunc", "floor", "ceil", "abs", "max", "min", "powi"): return self.is_float(t.a[1][0])
        return False
    def poly_t(self, p):
        p = {m: c for m, c in p.items() if c}
        if not p: return INT(0)
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return INT(int(c)) if c.denominator == 1 else mk("rat", str(c))
            if c == 1 and len(m) == 1: return m[0]
        return mk("poly", tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))))

    # ---------- choice expansion
    def expand(self, t, cap=1024):
        """[(guard, term without choices)]"""
        r = self._x.get(t)
        if r is None:
            r = self._expand(t, cap, {})
            self._x[t] = r
        return r
    def has_sel(self, t, memo):
        r = memo.get(t)
        if r is None:
            if t.op == "sel": r = True
            elif t.op in ("phi",): r = False
            else: r = any(self.has_sel(c, memo) for c in children(t))
            memo[t] = r
        return r
    def _expand(self, t, cap, memo):
        if not self.has_sel(t, memo): return [(NOG, t)]
        if t.op == "sel":
            out = []
            for g, v in t.a[0]:
                for h, x in self._expand(v, cap, memo):
                    if not contradicts(g, h): out.append((g | h, x))
                if len(out) > cap: raise Limit("expand")
            return out
        # rebuild with expanded children
        def parts(x):
            if isinstance(x, T): return self._expand(x, cap, memo)
            if isinstance(x, tuple):
                acc = [(NOG, ())]
                for y in x:
                    ys = parts(y) if isinstance(y, (T, tuple)) else [(NOG, y)]
                    acc = [(g | h, p + (z,)) for g, p in acc for h, z in ys if not contradicts(g, h)]
                    if len(acc) > cap: raise Limit("expand")
                return acc
            return [(NOG, x)]
        out = []
        for g, a in parts(tuple(t.a)):
            out.append((g, self.rebuild(t.op, a)))
        return out
    def rebuild(self, op, a):
        if op == "bin": return I.binop1(*a)
        if op == "fld": return I.proj_fld(a[0], *a[1:]) if a[0].op == "adt" else mk(op, *a)
        if op == "elem": return I.proj_elem(*a)
        if op == "adt" and a[2] and isinstance(a[2][0], T) and a[2][0].op == "fld" and all(isinstance(x, T) and x.op == "fld" and x.a[0] is a[2][0].a[0] and x.a[1] == a[1] and x.a[2] == i for i, x in enumerate(a[2])):
            v = a[2][0].a[0]
            if v.op in ("phi", "fld", "deref") and a[0] in self.e.p.adt_ty:
                vs = self.e.p.ty(self.e.p.adt_ty[a[0]][0]).get("variants") or []
                if a[1] < len(vs) and len(vs[a[1]]["fields"]) == len(a[2]): return v
        return mk(op, *a)

    def leaves(self, t):
        """[(normal guard, normal leaf)]"""
        return [(self.NG(g), self.N(x)) for g, x in self.expand(t)]

    def geq(self, a, b, assume=NOG):
        """guarded equality: None when equal, else (guard, left, right)"""
        la, lb = self.leaves(a), self.leaves(b)
        for g, x in la:
            if contradicts(g, assume): continue
            for h, y in lb:
                if contradicts(g, h) or contradicts(h, assume): continue
                if x is y: continue
                if self.eq(x, y): continue
                return (g | h, x, y)
        return None
    def eq(self, x, y):
        return x is y or self.N(x) is self.N(y)

    # ---------- sequences
    def seq_records(self, t, stop=None):
        """closure of the definitions of a sequence value:
        [(owner, kind, guard, base, [items])]"""
        out = []; todo = [t]; seen = {t}
        first = True
        while todo:
            o = todo.pop(0)
            ds = None if o is t and not self._derived(o) else self.defs(o)
            if ds is None: ds = self._flat([("value", NOG, o)])
            for k, g, v in ds:
                for g2, base, items in self.peel(v):
                    if contradicts(g, g2): continue
                    out.append((o, k, g | g2, base, items))
                    if base not in seen and self._derived(base) and not (stop and stop(base)):
                        seen.add(base); todo.append(base)
        return out
    def _derived(self, t):
        while t.op in ("fld", "elem", "mapval", "deref") and isinstance(t.a[0], T): t = t.a[0]
        return t.op == "phi" and t in self.e.phis
    def peel(self, v):
        """[(guard, base, items)] of a sequence built by push/cat"""
        if v.op == "sel":
            out = []
            for g, x in v.a[0]:
                out += [(g | h, b, i) for h, b, i in self.peel(x) if not contradicts(g, h)]
            return out
        if v.op == "push":
            return [(g, b, i + [v.a[1]]) for g, b, i in self.peel(v.a[0])]
        if v.op == "adt" and v.a[0] == "array":
            return [(NOG, EMPTY, list(v.a[2]))]
        if v.op == "cat":
            out = []
            for g, b, i in self.peel(v.a[0]):
                for h, b2, i2 in self.peel(v.a[1]):
                    if contradicts(g, h): continue
                    if b2 is EMPTY: out.append((g | h, b, i + i2))
                    else: out.append((g | h, b, i + [mk("splice", b2)] + i2))
            return out
        return [(NOG, v, [])]

    # ---------- recurrences
    def prev_of(self, p, x, inits=(0,)):
        """p is 'the value of x in the previous iteration' (initially a constant in inits or undefined).
        Returns list of (kind, guard, def) or None"""
        if not self._derived(p): return None
        ds = self.defs(p)
        nx = self.N(x)
        for k, g, v in ds:
            if v is p: continue
            if k == "init":
                if v.op == "int" and v.a[0] in inits: continue
                # initial value may itself be an outer carried value: not accepted
                return None
            if self.geq(v, x, g) is None: continue
            return None
        return ds

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]: del r[m]
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * d
            if not r[k]: del r[k]
    return r
