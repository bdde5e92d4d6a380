"""Evaluation of comparison-only value-flow terms over a finite set of order types.

A function that looks at its inputs through comparisons only is decided for
all inputs by the finitely many orderings its inputs can have.  Terms outside
of that fragment (arithmetic, opaque calls) raise, and the obligation fails."""
from terms import *

class Outside(Exception): pass
ORD = "std::cmp::Ordering"

def ev(t, env):
    if t in env: return env[t]
    op = t.op
    if op in ("int", "bool", "float", "str", "char"): return t.a[0]
    if op == "sel":
        hit = [ev(v, env) for g, v in t.a[0] if holds(g, env)]
        if not hit: raise Outside("no case applies")
        if any(h != hit[0] for h in hit): raise Outside("ambiguous choice")
        return hit[0]
    if op == "adt":
        if t.a[0].endswith("cmp::Ordering"): return t.a[1] - 1
        if t.a[0].endswith("option::Option"):
            return None if t.a[1] == 0 else ("some", ev(t.a[2][0], env))
        return ("adt", t.a[0].split("::")[-1], t.a[1]) + tuple(ev(x, env) for x in t.a[2])
    if op == "discr":
        v = ev(t.a[0], env)
        if isinstance(v, tuple) and v[0] == "some": return 1
        if v is None: return 0
        if isinstance(v, tuple) and v[0] == "adt": return v[2]
        if v in (-1, 0, 1): return v
        raise Outside("discriminant of " + show(t.a[0], 4))
    if op == "fld":
        v = ev(t.a[0], env)
        if isinstance(v, tuple) and v[0] == "some": return v[1]
        if isinstance(v, tuple) and v[0] == "adt" and v[2] == t.a[1]: return v[3 + t.a[2]]
        raise Outside("field of " + show(t.a[0], 4))
    if op == "bin":
        o, a, b = t.a
        if o in ("Cmp", "Lt", "Le", "Gt", "Ge", "Eq", "Ne", "BitAnd", "BitOr", "BitXor"):
            x, y = ev(a, env), ev(b, env)
            if o == "Cmp": return (x > y) - (x < y)
            if o == "Lt": return x < y
            if o == "Le": return x <= y
            if o == "Gt": return x > y
            if o == "Ge": return x >= y
            if o == "Eq": return x == y
            if o == "Ne": return x != y
            if isinstance(x, bool) and isinstance(y, bool):
                return {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[o]
        raise Outside(show(t, 4))
    if op == "un":
        x = ev(t.a[1], env)
        if t.a[0] == "Not" and isinstance(x, bool): return not x
        raise Outside(show(t, 4))
    if op == "ordtest":
        x = ev(t.a[1], env)
        return {"Lt": x < 0, "Le": x <= 0, "Gt": x > 0, "Ge": x >= 0}[t.a[0].a[0]]
    if op == "poly":
        r = 0
        for m, k in t.a[0]:
            x = k
            for y in m: x = x * ev(y, env)
            r += x
        return r
    if op == "fn" and t.a[0] in ("min", "max"):
        xs = [ev(x, env) for x in t.a[1]]
        return min(xs) if t.a[0] == "min" else max(xs)
    raise Outside(show(t, 5))

def holds(g, env):
    unknown = None
    for t, k, p in g:
        try: v = any_holds(t.a[0], env) if t.op == "or" else ev(t, env)
        except Outside as x: unknown = x; continue
        if isinstance(k, int) and not isinstance(k, bool) and k > 127 and t.op == "discr": k = k - 256 if k < 256 else k - (1 << 64)
        if (v == k) != bool(p): return False
    if unknown: raise unknown
    return True

def any_holds(gs, env):
    unknown = None
    for g in gs:
        try:
            if holds(g, env): return True
        except Outside as x: unknown = x
    if unknown: raise unknown
    return False

def outcome(outs, env):
    """value of the one path that applies"""
    vals = []
    for s, v in outs:
        if holds(s.pc, env): vals.append(ev(v, env))
    if not vals: return ("diverges",)
    if any(x != vals[0] for x in vals): raise Outside("several outcomes")
    return vals[0]
