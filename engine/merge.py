"""Joining sorted tables: what an iterator over parent rows does with the rows of a child table, decided for every
pattern of child rows by exploring the extracted loops over the finitely many relations a child row can have to the
parent row (rows of sorted, referentially complete tables)."""
from rulelib import *

BASE = 1000          # position at the head of a loop after some number of iterations
ORDER = {"eq": (0, 0), "id<": (1, -1), "id=": (1, 0), "id>": (1, 1), "ver": (0, 1)}   # child key compared to parent key
CLS = ["eq", "id<", "id=", "id>", "ver"]

def discriminant(x):
    return x.a[1] - 1 if x.a[0].endswith("cmp::Ordering") else x.a[1]

class NeedRow(Exception):
    def __init__(self, r): self.r = r
class NeedLoop(Exception):
    def __init__(self, k): self.k = k

class W:
    """one case: what is known of child rows, values of loop-carried variables after the loops already explored"""
    def __init__(self, rows=(), env=()): self.rows = dict(rows); self.env = dict(env)
    def key(self): return (tuple(sorted(self.rows.items())), tuple(sorted((k.id, v.id) for k, v in self.env.items())))

def rows_in(t, T_, out=None, seen=None):
    """child rows a term mentions"""
    if out is None: out = set(); seen = set()
    if t in seen: return out
    seen.add(t)
    if t.op == "col" and t.a[0].a[0] == T_: out.add(t.a[1]); return out
    for x in children(t): rows_in(x, T_, out, seen)
    return out

class Join:
    def __init__(self, A, child, parent, keys, has_parent=True):
        """keys: [(child column, parent column)] of the reference, most significant first"""
        self.A = A; self.e = A.e; self.F = A.F; self.T = child; self.P = parent; self.keys = keys
        self.R_ = mk("sym", "rows", child); self.pos = mk("sym", "pos", child)
        self.hasp = has_parent; self.mine = {}
        self.stats = [0, 0]

    # ------------------------------------------------ evaluation
    def about(self, key):
        """the loop deals with rows of the child table"""
        r = self.mine.get(key)
        if r is None:
            r = False
            for ph, i in self.e.phis.items():
                if i["key"] != key: continue
                ts = [x for x in i["step"] if x is not ph] + [x for l in i.get("steppc", ()) for x in [l[0]]]
                for x in ts:
                    if self.mentions(x, ph): r = True
            self.mine[key] = r
        return r
    def mentions(self, t, ph, seen=None):
        """the term reads child rows itself (not through earlier results)"""
        seen = set() if seen is None else seen
        if t in seen: return False
        seen.add(t)
        if t.op == "has" and t.a[0] is self.R_:
            return any(x.op == "phi" and self.e.phis.get(x, {}).get("key") == self.e.phis[ph]["key"] for x in self.sub(t.a[1]))
        return any(self.mentions(x, ph, seen) for x in parts(t))
    def sub(self, t):
        out = [t]
        for x in children(t): out += self.sub(x)
        return out

    def R(self, t, w, memo=None):
        memo = {} if memo is None else memo
        r = memo.get(t)
        if r is None: r = memo[t] = self.R1(t, w, memo)
        return r
    def R1(self, t, w, memo):
        op = t.op
        if t in w.env: return w.env[t]
        if t is self.pos: return INT(0)
        if op in ("int", "bool", "str", "sym", "char", "float", "undef", "static", "idx", "bytes", "seg", "item"): return t
        if op == "empty": return mk("list")
        if not self.touched(t): return t
        if op == "phi":
            i = self.e.phis.get(t)
            if i is None: return t
            pw = self.F.pointwise(t)
            if pw is not None:
                src, ph, val = pw
                s = self.R(src, w)
                if s.op == "list": return mk("list", *[self.image(x, src, ph, val, w) for x in s.a])
                return t
            if self.about(i["key"]): raise NeedLoop(i["key"])
            if all(x is t for q in i["step"] for _, x in alts(q)): return self.R(i["init"], w, memo)
            return t
        if op == "sel":
            live = []
            for g, x in t.a[0]:
                b = self.tri(g, w, memo)
                if b is True: return self.R(x, w, memo)
                if b is None: live.append((g, x))
            rs = [(self.guard(g, w, memo), self.R(x, w, memo)) for g, x in live]
            if len({x for _, x in rs}) == 1: return rs[0][1]
            return mk("sel", tuple(rs)) if rs else mk("undef")
        if op == "push":
            s = self.R(t.a[0], w, memo)
            if s.op == "list": return mk("list", *s.a, self.R(t.a[1], w, memo))
        if op == "concat" or op == "cat":
            a, b = self.R(t.a[0], w, memo), self.R(t.a[1], w, memo)
            if a.op == b.op == "list": return mk("list", *a.a, *b.a)
        if op == "has" and t.a[0] is self.R_:
            i = self.R(t.a[1], w, memo)
            if i.op == "int": return BOOL(self.row(i.a[0], w) != "end")
            return mk("has", t.a[0], i)
        if op == "has" and t.a[0] is mk("sym", "rows", self.P) and t.a[1] is mk("sym", "pos", self.P):
            return BOOL(self.hasp)
        if op == "adt": return mk("adt", t.a[0], t.a[1], tuple(self.R(x, w, memo) for x in t.a[2]))
        def go(x):
            if isinstance(x, T): return self.R(x, w, memo)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        if op == "elem":
            s, i = self.R(t.a[0], w, memo), self.R(t.a[1], w, memo)
            if s.op == "list" and i.op == "item":
                return i.a[0]
            return I.proj_elem(s, i)
        if op == "fld":
            return self.fld(self.R(t.a[0], w, memo), t)
        if op == "discr":
            x = self.R(t.a[0], w, memo)
            if x.op == "adt": return INT(discriminant(x))
            if x.op == "sel" and all(y.op == "adt" for _, y in x.a[0]) and len({y.a[1] for _, y in x.a[0]}) == 1: return INT(discriminant(x.a[0][0][1]))
            return mk("discr", x)
        if op == "bin":
            a, b = self.R(t.a[1], w, memo), self.R(t.a[2], w, memo)
            if a.op == b.op == "int" and t.a[0] in ("Add", "Sub"): return INT(a.a[0] + b.a[0] if t.a[0] == "Add" else a.a[0] - b.a[0])
            self.op = t.a[0]; s = self.cmp(a, b, w)
            if s is not None:
                o = t.a[0]
                if o == "Cmp": return mk("adt", "std::cmp::Ordering", s + 1, ())
                r = {"Eq": s == 0, "Ne": s != 0, "Lt": s < 0, "Le": s <= 0, "Gt": s > 0, "Ge": s >= 0}.get(o)
                if r is not None: return BOOL(r)
            return I.binop1(t.a[0], a, b)
        if op == "un" and t.a[0] == "Not":
            x = self.R(t.a[1], w, memo)
            if x.op == "bool": return BOOL(not x.a[0])
            return mk("un", "Not", x)
        if op == "or": return t
        if op == "ref": return t if t.a[0][0] != "V" else mk("ref", ("V", self.R(t.a[0][1], w, memo)), *t.a[1:]) if t.a[1] else self.R(t.a[0][1], w, memo)
        return mk(op, *[go(x) for x in t.a])
    def touched(self, t):
        """the value depends on rows or on something carried by a loop"""
        r = self.mine.get(("touch", t))
        if r is None:
            if t.op in ("phi", "sel", "seg", "item", "list"): r = True
            elif t.op in ("col", "has"): r = True
            elif t.op == "sym": r = t is self.pos
            else: r = any(self.touched(x) for x in children(t))
            self.mine["touch", t] = r
        return r
    def guard(self, g, w, memo):
        """what is left to be decided of a guard"""
        out = set()
        for t, k, p in g:
            if self.lit(t, k, p, w, memo) is True: continue
            out.add((t if t.op == "or" else self.R(t, w, memo), k, p))
        return frozenset(out)
    def fld(self, x, t):
        if x.op == "adt": return I.proj_fld(x, t.a[1], t.a[2], t.a[3])
        if x.op == "sel":
            rs = [(g, self.fld(y, t)) for g, y in x.a[0] if not (y.op == "adt" and y.a[1] != t.a[1])]
            if len({y for _, y in rs}) == 1: return rs[0][1]
            return mk("sel", tuple(rs)) if rs else mk("undef")
        return mk("fld", x, *t.a[1:])
    def image(self, x, src, ph, val, w):
        """element of a list mapped pointwise"""
        if x.op == "seg": return mk("seg", self.image(x.a[0], src, ph, val, w), *x.a[1:])
        env = dict(w.env); env[ph] = mk("item", x)
        return self.R(val, W(w.rows, env))
    def cmp(self, a, b, w):
        """order of a key column of a child row and the same key column of the parent row"""
        def key(t, off=0):
            while t.op == "bin" and t.a[0] in ("Add", "Sub") and (t.a[2].op == "int" or t.a[0] == "Add" and t.a[1].op == "int"):
                x, n = (t.a[1], t.a[2]) if t.a[2].op == "int" else (t.a[2], t.a[1])
                off += n.a[0] if t.a[0] == "Add" else -n.a[0]; t = x
            if t.op != "fn" or t.a[0] != "parse" or t.a[1][1].op != "col": return None
            T_, r, n = t.a[1][1].a
            if t.a[1][0].a[0] not in ("i64", "i128", "isize"): return None
            for j, (cc, pc) in enumerate(self.keys):
                if T_.a[0] == self.T and n.a[0] == cc and r.op == "int": return "c", j, r.a[0], off
                if T_.a[0] == self.P and n.a[0] == pc and r is mk("sym", "pos", self.P): return "p", j, None, off
        x, y = key(a), key(b)
        if x is None or y is None or x[1] != y[1] or x[0] == y[0]: return None
        sgn = 1 if x[0] == "c" else -1
        c, q = (x, y) if x[0] == "c" else (y, x)
        k = self.row(c[2], w)
        if k == "end": return None
        d = ORDER[k][x[1]]; off = c[3] - q[3]           # the child's key is the parent's, or 1 or more away from it
        if d == 0: return sgn * ((off > 0) - (off < 0))
        if d * off >= 0: return sgn * d
        if d * off == -1:                               # at least the same: decides <, >= (or >, <=)
            if self.op in ("Lt", "Ge") and sgn * d > 0: return 0
            if self.op in ("Gt", "Le") and sgn * d < 0: return 0
        return None
    def row(self, r, w):
        if r in w.rows: return w.rows[r]
        if w.rows.get(r - 1) == "end": return "end"
        raise NeedRow(r)
    def lit(self, t, k, p, w, memo):
        if t.op == "or":
            rs = [self.tri(g, w, memo) for g in t.a[0]]
            v = True if True in rs else (False if all(x is False for x in rs) else None)
            return None if v is None else (v == bool(k)) == bool(p)
        if t.op == "haskey": return bool(k) == bool(p)       # every reference has its target
        if self.logs(t): return None
        if t.op == "sel":
            rs = set()
            for g, x in t.a[0]:
                b = self.tri(g, w, memo)
                if b is False: continue
                r = self.lit(x, k, p, w, memo)
                if b is True: return r
                rs.add(r)
            return next(iter(rs)) if len(rs) == 1 else None
        x = self.R(t, w, memo)
        if x.op in ("int", "bool"): return (x.a[0] == k) == bool(p)
        if x.op == "sel":
            vs = {y for _, y in x.a[0]}
            if all(y.op in ("int", "bool") for y in vs):
                rs = {(y.a[0] == k) == bool(p) for y in vs}
                if len(rs) == 1: return next(iter(rs))
        return None
    def tri(self, g, w, memo=None):
        r = True; later = None
        for l in sorted(g, key=lambda l: (l[0].op == "or", l[0].id)):
            try: v = self.lit(l[0], l[1], l[2], w, {} if memo is None else memo)
            except (NeedRow, NeedLoop) as x:
                later = later or x; continue
            if v is False: return False
            if v is None: r = None
        if later is not None: raise later
        return r

    def logs(self, t):
        """a condition about whether to log"""
        r = self.mine.get(("log", t))
        if r is None:
            ats = self.atoms(t)
            r = self.mine["log", t] = bool(ats) and all(self.logatom(a) for a in ats)
        return r
    def atoms(self, t):
        if t.op == "or": return [a for g in t.a[0] for l in g for a in self.atoms(l[0])]
        return [t]
    def logatom(self, t):
        if t.op == "sym": return t.a[0] == "log_max_level"
        if t.op == "adt": return t.a[0].startswith("log::") and not t.a[2]
        return t.op in ("bin", "un", "discr", "cast") and all(self.logatom(x) for x in t.a if isinstance(x, T))

    # ------------------------------------------------ loops
    def forks(self, w, f):
        """f(case) in every case, splitting cases as questions come up: [(case, result)]"""
        todo = [w]; out = []
        while todo:
            w = todo.pop()
            self.stats[0] += 1
            if self.stats[0] > 60000: raise Finding("joining %s: too many cases" % self.T)
            try: out.append((w, f(w)))
            except NeedRow as x:
                for k in (CLS if x.r < 0 else CLS + ["end"]):
                    n = W(w.rows, w.env); n.rows[x.r] = k; todo.append(n)
            except NeedLoop as x: todo += self.loop(x.k, w)
        return out
    def head(self, key):
        """the loop-carried variable that is the position in the child table"""
        cand = set()
        def find(t, seen):
            if t in seen: return
            seen.add(t)
            if t.op == "has" and t.a[0] is self.R_:
                for x in self.sub(t.a[1]):
                    if x.op == "phi" and self.e.phis.get(x, {}).get("key") == key: cand.add(x)
            for x in parts(t): find(x, seen)
        seen = set()
        for ph, i in self.e.phis.items():
            if i["key"] != key: continue
            for x in i["step"]: find(x, seen)
            for l in i.get("steppc", ()): find(l[0], seen)
        if len(cand) != 1: raise Finding("joining %s: a loop reads it at %d positions" % (self.T, len(cand)))
        return next(iter(cand))
    def loop(self, key, w):
        """cases at the exits of a loop"""
        e = self.e
        phis = [ph for ph, i in e.phis.items() if i["key"] == key]
        P = self.head(key)
        pc = NOG
        for ph in phis:
            before = frozenset(e.phis[ph].get("initpc", ()))
            pc = pc | frozenset(l for l in e.phis[ph].get("steppc", ()) if l not in before and not self.logs(l[0]))
        def init(w):
            for ph in phis: self.R(e.phis[ph]["init"], w)       # questions first
            return {ph: self.R(e.phis[ph]["init"], w) for ph in phis}
        todo = [(W(v.rows, {**v.env, **d})) for v, d in self.forks(w, init)]
        seen = set(); out = {}
        while todo:
            h = todo.pop()
            if h.key() in seen: continue
            seen.add(h.key()); self.stats[1] += 1
            if len(seen) > 400: raise Finding("joining %s: %s depends on more than the row just read and the row before" % (self.T, key[1] if len(key) > 1 else key))
            if h.env[P].op != "int": raise Finding("joining %s: a loop starts at an unknown position (%s)" % (self.T, sh(h.env[P])))
            def step(v):
                r = self.tri(pc, v)
                if r is False: return None
                if r is None: raise Finding("joining %s: whether the next row is taken is decided by something else than its key: %s" % (self.T, self.undecided(pc, v)))
                d = {}
                for ph in phis:
                    st = e.phis[ph]["step"]
                    xs = {self.R(x, v) for x in st}
                    if len(xs) != 1: raise Finding("joining %s: a loop has several outcomes" % self.T)
                    d[ph] = next(iter(xs))
                if d[P].op == "undef": return None       # no way back to the head in this case
                return d
            for v, d in self.forks(h, step):
                if d is None: out[v.key()] = v; continue
                todo.append(self.shift(W(v.rows, {**v.env, **d}), phis, P))
        return list(out.values())
    def undecided(self, g, w):
        for l in g:
            if self.lit(l[0], l[1], l[2], w, {}) is None: return sh(self.R(l[0], w, {}), 6)
        return "?"
    def shift(self, w, phis, P):
        """rename rows after an iteration: the position is BASE again"""
        p = w.env[P]
        if p.op != "int": raise Finding("joining %s: a loop moves to an unknown position (%s)" % (self.T, sh(p)))
        d = BASE - p.a[0]
        mv = lambda r: r + d if r >= p.a[0] - 2 else r
        def row(t):
            if t.op == "col" and t.a[0].a[0] == self.T and t.a[1].op == "int": return mk("col", t.a[0], INT(mv(t.a[1].a[0])), t.a[2])
        env = {}
        for ph, v in w.env.items():
            if ph in phis: v = INT(BASE) if ph is P else self.relist(v, w, row, mv)
            env[ph] = v
        rows = {r: k for r, k in w.rows.items() if r < BASE // 2}
        for r, k in w.rows.items():
            if r >= p.a[0] - 2: rows[mv(r)] = k
        return W(rows, env)
    def relist(self, v, w, row, mv):
        from rules_apird import rewrite
        if v.op != "list":
            if v.op == "int": return v
            return rewrite(v, row)
        if not v.a: return v
        seg = self.segment(v, w)
        if seg is None: return mk("list", *[rewrite(x, row) if x.op != "seg" else x for x in v.a])
        t, a, b, ok = seg
        return mk("list", mk("seg", t, INT(a) if a < BASE // 2 else INT(mv(a)), INT(mv(b)), BOOL(ok)))
    def segment(self, v, w):
        """a list as consecutive child rows: (image of a row, first, last + 1, all have the parent's key)"""
        from rules_apird import rewrite
        t = a = b = None; ok = True
        for x in v.a:
            if x.op == "seg": u, c, d, o = x.a[0], x.a[1].a[0], x.a[2].a[0], x.a[3].a[0]
            else:
                rs = rows_in(x, self.T)
                if len(rs) != 1 or next(iter(rs)).op != "int": return None
                r = next(iter(rs)); c, d = r.a[0], r.a[0] + 1
                u = rewrite(x, lambda y: mk("col", y.a[0], mk("sym", "row"), y.a[2]) if y.op == "col" and y.a[0].a[0] == self.T else None)
                o = w.rows.get(c) == "eq"
            if t is None: t, a, b, ok = u, c, d, o
            elif u is t and c == b: b = d; ok = ok and o
            else: return None
        return t, a, b, ok

MARK = mk("seg", mk("sym", "so far"))

class Text(Join):
    """What a function from text to text that looks at characters one after the other does, compared with a
    transducer: the function's loops are explored over the classes of characters it or the transducer tells apart.
    spec: state -> char or None for any other -> (next state, output: text, or None for the character itself)"""
    def __init__(self, A, arg, spec, final, alphabet):
        super().__init__(A, "text", "text", ())
        self.arg = arg; self.spec = spec; self.final = final
        self.alphabet = set(alphabet)
        self.seqs = set()
        def find(t, seen):
            if t in seen: return
            seen.add(t)
            if t.op == "fn" and t.a[0] in ("chars", "bytes") or t.op == "chars": self.seqs.add(t)
            if t.op == "char": self.alphabet.add(t.a[0] if isinstance(t.a[0], str) else chr(t.a[0]))
            if t.op == "elem": self.lits(t)
            for x in parts(t): find(x, seen)
        seen = set()
        for i in self.e.phis.values():
            for x in [i["init"]] + i["step"]: find(x, seen)
            for l in i.get("steppc", ()):
                find(l[0], seen)
        for s, v in A.outs:
            find(v, seen)
            for l in s.pc: find(l[0], seen)
        self.seqs = {s for s in self.seqs if self.text_of(s)}
        if len(self.seqs) != 1: raise Finding("%s does not walk over the characters of its text" % A.key)
        self.R_ = next(iter(self.seqs))
        self.other = mk("sym", "some other character")
    def lits(self, t): pass
    def text_of(self, s):
        x = s.a[1][0] if s.op == "fn" else s.a[0]
        while x.op in ("deref", "ref"):
            x = x.a[0] if x.op == "deref" else x.a[0][1] if x.a[0][0] == "V" else None
            if x is None: return False
        return x is self.arg
    def row(self, r, w):
        if r in w.rows: return w.rows[r]
        if w.rows.get(r - 1) == "end": return "end"
        raise NeedRow(r)
    def classes(self, w): return sorted(self.alphabet) + ["other", "end"]
    def forks(self, w, f):
        todo = [w]; out = []
        while todo:
            w = todo.pop()
            self.stats[0] += 1
            if self.stats[0] > 60000: raise Finding("%s: too many cases" % self.A.key)
            try: out.append((w, f(w)))
            except NeedRow as x:
                for k in self.classes(w):
                    n = W(w.rows, w.env); n.rows[x.r] = k; todo.append(n)
            except NeedLoop as x: todo += self.loop(x.k, w)
        return out
    def touched(self, t): return True
    def cmp(self, a, b, w):
        x = self.chr(a, w), self.chr(b, w)
        if None in x: return None
        if self.other in x: return None if x[0] is x[1] else 2
        return (x[0] > x[1]) - (x[0] < x[1])
    def chr(self, t, w):
        if t.op == "char": return t.a[0] if isinstance(t.a[0], str) else chr(t.a[0])
        if t.op == "str" and len(t.a[0]) == 1: return t.a[0]
        if t.op == "elem" and t.a[0] is self.R_ and t.a[1].op == "int":
            k = self.row(t.a[1].a[0], w)
            return self.other if k == "other" else k if k != "end" else None
        return None
    def lit(self, t, k, p, w, memo):
        if t.op == "elem" and t.a[0] is self.R_:
            x = self.chr(self.R(t, w, memo), w)
            if x is None: return None
            k = chr(k) if isinstance(k, int) else k
            return (x == k if x is not self.other else False) == bool(p) if isinstance(k, str) else None
        return super().lit(t, k, p, w, memo)
    def R1(self, t, w, memo):
        op = t.op
        if t in w.env: return w.env[t]
        if op == "str": return mk("list", *[STR(c) for c in t.a[0]])
        if op == "empty": return mk("list")
        if op == "char": return t
        if t is self.R_: return t
        if op == "elem" and t.a[0] is self.R_: return mk("elem", t.a[0], self.R(t.a[1], w, memo))
        if op == "fmt":
            out = []
            for part in t.a[0]:
                if isinstance(part, T) and part.op == "str": out += [STR(c) for c in part.a[0]]; continue
                if not (isinstance(part, tuple) and part[0] == "arg" and part[1] == "display"): return t
                v = self.R(part[2], w, memo)
                if v.op == "list": out += v.a
                elif v.op == "char": out.append(STR(v.a[0] if isinstance(v.a[0], str) else chr(v.a[0])))
                elif v.op == "elem" and v.a[0] is self.R_: out.append(v)
                else: return t
            return mk("list", *out)
        return super().R1(t, w, memo)
    def out(self, v, w):
        """tokens of an output, characters of known class written out"""
        if v.op != "list": raise Finding("%s: output is not determined: %s" % (self.A.key, sh(v)))
        o = []
        for x in v.a:
            if x.op == "elem":
                k = self.row(x.a[1].a[0], w)
                o.append(STR(k) if k not in ("other", "end") else x)
            else: o.append(x)
        return o
    def feed(self, state, lo, hi, w):
        """the transducer over the characters at lo .. hi-1"""
        o = []
        for r in range(lo, hi):
            k = self.row(r, w)
            if k == "end": break
            state, y = self.spec(state, None if k == "other" else k)
            if y is None: o.append(STR(k) if k != "other" else mk("elem", self.R_, INT(r)))
            else: o += [STR(c) for c in y]
        return state, o
    STATE = mk("sym", "transducer")
    def shift(self, w, phis, P):
        raise NotImplementedError
    def loop(self, key, w):
        e = self.e
        phis = [ph for ph, i in e.phis.items() if i["key"] == key]
        P = self.head(key)
        pc = NOG
        for ph in phis:
            before = frozenset(e.phis[ph].get("initpc", ()))
            pc = pc | frozenset(l for l in e.phis[ph].get("steppc", ()) if l not in before)
        def init(w):
            return {ph: self.R(e.phis[ph]["init"], w) for ph in phis}
        todo = []
        for v, d in self.forks(w, init):
            h = W(v.rows, {**v.env, **d}); h.env[self.STATE] = STR("normal")
            if h.env[P] is not INT(0): raise Finding("%s: does not start with the first character" % self.A.key)
            todo.append(self.normal(h, phis, P, 0))
        seen = set(); out = {}
        while todo:
            h = todo.pop()
            if h.key() in seen: continue
            seen.add(h.key()); self.stats[1] += 1
            if len(seen) > 300: raise Finding("%s: depends on more than the characters just read" % self.A.key)
            def step(v):
                r = self.tri(pc, v)
                if r is False: return None
                if r is None: raise Finding("%s: whether to go on is decided by something else than the characters: %s" % (self.A.key, self.undecided(pc, v)))
                d = {}
                for ph in phis:
                    xs = {self.R(x, v) for x in e.phis[ph]["step"]}
                    if len(xs) != 1: raise Finding("%s: a loop has several outcomes" % self.A.key)
                    d[ph] = next(iter(xs))
                if d[P].op == "undef": return None       # no way back to the head in this case
                for ph in phis:
                    if d[ph].op == "list": self.out(d[ph], v)
                self.row(d[P].a[0] - 1, v) if d[P].op == "int" else None
                return d
            for v, d in self.forks(h, step):
                if d is None: out[v.key()] = v; continue
                n = W(v.rows, {**v.env, **d})
                if n.env[P].op != "int": raise Finding("%s: moves to an unknown position" % self.A.key)
                n = self.normal(n, phis, P, BASE)
                if n is not None: todo.append(n)
        return list(out.values())
    def normal(self, w, phis, P, start):
        """at a loop head: what was produced is what the transducer produced, positions are renamed"""
        p = w.env[P].a[0]
        state, o = self.feed(w.env[self.STATE].a[0], start if start else p, p, w)
        if state not in self.final and w.rows.get(p) == "end": return None      # not a legal text
        env = {}
        for ph, v in w.env.items():
            if ph is P: v = INT(BASE)
            elif ph is self.STATE: v = STR(state)
            elif ph in phis and v.op == "list":
                got = self.out(v, w); base = [MARK] if start else []
                if got == base + o: v = mk("list", MARK)
                else:
                    def key(x): return x.a[0] if x.op == "str" else "?" if x is MARK else "c"
                    raise Finding("%s: text %s gives %s instead of %s" % (self.A.key, self.word(w, start, p), [key(x) for x in got if x is not MARK], [key(x) for x in o]))
            elif ph in phis and v.op == "elem" and v.a[0] is self.R_ and v.a[1].op == "int": v = mk("elem", self.R_, INT(v.a[1].a[0] - p + BASE))
            env[ph] = v
        rows = {}
        for r, k in w.rows.items():
            if not isinstance(r, int): rows[r] = k
            elif r >= p - 1: rows[r - p + BASE] = k
        return W(rows, env)
    def word(self, w, a, b): return "".join(w.rows.get(r, "?") if len(w.rows.get(r, "?")) == 1 else "<%s>" % w.rows[r] for r in range(a, b))
    def run(self):
        """problems found"""
        bad = []
        def f(w):
            live = []
            for s, v in self.A.outs:
                for g, x in alts(v):
                    if self.tri(s.pc | g, w) is not False: live.append(self.R(x, w))
            if not live: return None
            return live
        def whole(w):
            r = f(w)
            if r is None: return [("diverges", w)]
            out = []
            for v in set(r):
                if self.STATE in w.env: state, p, base = w.env[self.STATE].a[0], BASE, [MARK]
                else: state, p, base = "normal", 0, []
                n = 0
                while self.row(p + n, w) != "end":
                    n += 1
                    if n > 3: raise Finding("%s: does not look at all characters" % self.A.key)
                state, o = self.feed(state, p, p + n, w)
                got = self.out(v, w)
                if state not in self.final: continue
                if got != base + o: out.append((self.word(w, p, p + n), w))
            return out
        for w, r in self.forks(W(), whole):
            for x, _ in r: bad.append(x)
        return bad

def copy_text(state, ch):
    """reading a column in COPY text format"""
    if state == "normal":
        return ("escape", "") if ch == "\\" else ("normal", None)
    return "normal", {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(ch)
