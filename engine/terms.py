"""Hash-consed value terms (the abstract domain: provenance/value-flow graphs)."""
import itertools

class T:
    __slots__ = ("op", "a", "id", "_h", "depth")
    def __repr__(self):
        return show(self, 6)
    def __lt__(self, o):
        return self.id < o.id
    def __hash__(self):
        return self.id

_tab = {}
_cnt = itertools.count()

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = a; t.id = next(_cnt)
        _tab[k] = t
    return t

def INT(v): return mk("int", v)
def STR(s): return mk("str", s)
TRUE = mk("bool", True); FALSE = mk("bool", False)
UNIT = mk("adt", "tuple", 0, ())
EMPTY = mk("empty")
UNDEF = mk("undef")
def BOOL(b): return TRUE if b else FALSE
def ADT(name, vi, fields): return mk("adt", name, vi, tuple(fields))
def TUP(*f): return mk("adt", "tuple", 0, tuple(f))
def SOME(v): return mk("adt", "std::option::Option", 1, (v,))
NONE = mk("adt", "std::option::Option", 0, ())
def OK(v): return mk("adt", "std::result::Result", 0, (v,))
def ERR(v): return mk("adt", "std::result::Result", 1, (v,))
def REF(root, path=()): return mk("ref", root, tuple(path))
def PUSH(s, v): return mk("push", s, v)
def CAT(a, b):
    if b is EMPTY: return a
    if a is EMPTY: return b
    return mk("cat", a, b)
def fn(name, *args): return mk("fn", name, tuple(args))

NOG = frozenset()

def contradicts(g, h):
    """g, h: frozensets of literals (term, key, polarity)"""
    if not g or not h: return False
    if len(g) > len(h): g, h = h, g
    for (t, k, p) in g:
        if (t, k, not p) in h: return True
        if p:
            for (t2, k2, p2) in h:
                if t2 is t and p2 and k2 != k: return True
    return False

MAXALT = 256

def sel(alts):
    """alts: list of (guard, val); flattening choice"""
    out = []
    for g, v in alts:
        if v is UNDEF: continue
        if v.op == "sel":
            for g2, v2 in v.a[0]:
                if contradicts(g, g2): continue
                out.append((g | g2, v2))
        else:
            out.append((g, v))
    if not out:
        return UNDEF
    # group same values
    by = {}
    order = []
    for g, v in out:
        if v in by:
            by[v].append(g)
        else:
            by[v] = [g]; order.append(v)
    if len(order) == 1:
        return order[0]
    res = []
    for v in order:
        gs = by[v]
        gg = []
        for g in gs:
            if any(h <= g for h in gg): continue
            gg = [h for h in gg if not g <= h]
            gg.append(g)
        # resolution of complementary literals: {A,c},{A,!c} -> {A}
        changed = True
        while changed and len(gg) > 1 and len(gg) < 24:
            changed = False
            for i in range(len(gg)):
                for j in range(i + 1, len(gg)):
                    r = _resolve(gg[i], gg[j])
                    if r is not None:
                        ng = [g for n, g in enumerate(gg) if n not in (i, j)]
                        if not any(h <= r for h in ng):
                            ng = [h for h in ng if not r <= h] + [r]
                        gg = ng; changed = True; break
                if changed: break
        if len(gg) > 8:
            c = frozenset.intersection(*gg)
            gg = [c]
        for g in gg:
            res.append((g, v))
    if len(res) > MAXALT:
        # keep distinct values with intersected guards
        by2 = {}
        for g, v in res:
            by2[v] = by2[v] & g if v in by2 else g
        res = [(g, v) for v, g in by2.items()]
    # same-constructor ADTs: push the choice inside
    v0 = res[0][1]
    if v0.op == "adt" and len(v0.a[2]) > 0 and all(v.op == "adt" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for g, v in res):
        fs = []
        for i in range(len(v0.a[2])):
            fs.append(sel([(g, v.a[2][i]) for g, v in res]))
        return ADT(v0.a[0], v0.a[1], fs)
    # group same-variant alternatives of an enum
    if any(v.op == "adt" for g, v in res):
        groups = {}; rest = []
        keyorder = []
        for g, v in res:
            if v.op == "adt" and len(v.a[2]) > 0:
                k = (v.a[0], v.a[1], len(v.a[2]))
                if k not in groups:
                    groups[k] = []; keyorder.append(k)
                groups[k].append((g, v))
            else:
                rest.append((g, v))
        if any(len(x) > 1 for x in groups.values()):
            new = []
            for k in keyorder:
                x = groups[k]
                if len({id(v) for g, v in x}) == 1:
                    new.extend(x); continue
                c = frozenset.intersection(*[g for g, v in x])
                fs = [sel([(g - c, v.a[2][i]) for g, v in x]) for i in range(k[2])]
                merged = ADT(k[0], k[1], fs)
                # alternatives keep each guard (disjunction) for the merged value
                gs = {g for g, v in x}
                gl = _reduce(list(gs))
                for g in gl: new.append((g, merged))
            res = new + rest
    res.sort(key=lambda gv: (gv[1].id, sorted((t.id, str(k), p) for t, k, p in gv[0])))
    if len(res) == 1 or len({v for g, v in res}) == 1: return res[0][1]
    return mk("sel", tuple(res))

def _reduce(gg):
    gg = list(gg)
    out = []
    for g in gg:
        if any(h <= g for h in out): continue
        out = [h for h in out if not g <= h]
        out.append(g)
    gg = out
    changed = True
    while changed and 1 < len(gg) < 24:
        changed = False
        for i in range(len(gg)):
            for j in range(i + 1, len(gg)):
                r = _resolve(gg[i], gg[j])
                if r is not None:
                    ng = [g for n, g in enumerate(gg) if n not in (i, j)]
                    if not any(h <= r for h in ng):
                        ng = [h for h in ng if not r <= h] + [r]
                    gg = ng; changed = True; break
            if changed: break
    if len(gg) > 8:
        return [frozenset.intersection(*gg)]
    return gg

def _resolve(g, h):
    # also {A,c} , {!c} -> {A},{!c} : drop literal c from the larger (absorption)
    d1 = g - h; d2 = h - g
    if len(d1) == 1 and len(d2) == 1:
        (t, k, p), = d1
        (t2, k2, p2), = d2
        if t is t2 and k == k2 and p != p2:
            return g & h
    return None

def prune(v, pc):
    if v.op != "sel": return v
    keep = [(g, x) for g, x in v.a[0] if not contradicts(g, pc)]
    if len(keep) == len(v.a[0]):
        # drop literals already implied by pc
        if pc and any(g & pc for g, _ in keep):
            return sel([(g - pc, x) for g, x in keep])
        return v
    if not keep: return UNDEF
    return sel([(g - pc, x) for g, x in keep])

def alts(v, pc=NOG):
    """list of (guard, leaf) compatible with pc"""
    if v.op == "sel":
        return [(g, x) for g, x in v.a[0] if not contradicts(g, pc)]
    return [(NOG, v)]

def mapsel(v, f, pc=NOG):
    if v.op != "sel": return f(v)
    return sel([(g, f(x)) for g, x in alts(v, pc)])

def parts(t):
    """subterms including the conditions of choices"""
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T): yield x
        elif isinstance(x, (tuple, frozenset)): todo += x
def children(t):
    op = t.op
    if op == "sel":
        for g, v in t.a[0]:
            yield v
        return
    if op == "adt":
        for x in t.a[2]: yield x
        return
    for x in t.a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T): yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T): yield w

def show(t, d=8, phis=None):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + " & ".join(showlit(l, d) for l in sorted(t, key=lambda l: (l[0].id, str(l[1])))) + "}"
        return str(t)
    if d <= 0: return "…"
    op, a = t.op, t.a
    if op == "int": return str(a[0])
    if op in ("bool", "float"): return str(a[0])
    if op == "str": return repr(a[0])
    if op == "sym": return f"${a[0]}"
    if op == "fld": return f"{show(a[0], d)}.{a[3]}" + (f"@{a[1]}" if a[1] else "")
    if op == "deref": return f"*{show(a[0], d)}"
    if op == "adt":
        return f"{a[0].split('::')[-1]}#{a[1]}(" + ", ".join(show(x, d - 1) for x in a[2]) + ")"
    if op == "bin": return f"({show(a[1], d-1)} {a[0]} {show(a[2], d-1)})"
    if op == "sel": return "SEL[" + " | ".join(f"{show(g, min(d-1,3))}=>{show(v, d - 1)}" for g, v in a[0]) + "]"
    if op == "phi": return f"φ{t.id}"
    if op == "idx": return f"i{t.id}"
    if op == "ref": return f"&{rootname(a[0], d-1)}" + "".join("." + stepname(s, d-1) for s in a[1])
    if op == "elem": return f"{show(a[0], d-1)}[{show(a[1], d-1)}]"
    if op == "fn" : return f"{a[0]}(" + ", ".join(show(x, d - 1) for x in a[1]) + ")"
    return f"{op}(" + ", ".join(show(x, d - 1) for x in a) + ")"

def rootname(r, d):
    return "/".join(show(x, d) if isinstance(x, T) else str(x).split("::")[-1] for x in r)
def stepname(s, d):
    return "/".join(show(x, d) if isinstance(x, T) else str(x) for x in s[:3])
def showlit(l, d=4):
    t, k, p = l
    return f"{'' if p else '!'}{show(t, d - 1)}={k}"
