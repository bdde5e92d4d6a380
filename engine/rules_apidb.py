"""Writing of dumps: rows, text columns, current tables, closing (C25-C28)."""
from rulelib import *
import fineval, json, re
from rules_pbf import walk
from rules_read import ok_outs

WRITER = "osm_io::osm::apidb_dump::write::writer::Writer"

# ---------------------------------------------------------------- the dump's own declaration
def alloc_bytes(p, a):
    """bytes a reference-like constant allocation points to"""
    ptr = a["provenance"]["ptrs"]
    if not ptr: return bytes(x or 0 for x in a["bytes"])
    n = int.from_bytes(bytes(a["bytes"][8:16]), "little")
    m = p.allocs[str(ptr[0][1])] if str(ptr[0][1]) in p.allocs else p.allocs[ptr[0][1]]
    return bytes(x or 0 for x in m["mem"]["bytes"][:n])
def static_content(p, t):
    """content of the static or constant a term denotes"""
    while t.op == "deref": t = t.a[0]
    if t.op == "bytes": return bytes(t.a[0])
    if t.op == "str": return t.a[0].encode()
    n = next((y.a[0] for y in walk(t) if y.op == "static"), None)
    if n is None: raise Finding("content %s is not a constant" % sh(t, 3))
    for s in p.statics:
        if s["name"] == n: return alloc_bytes(p, s["alloc"])
    raise Finding("static %s has no known content" % n)
def toc_tables(toc):
    """{table: ([columns], data file)} declared by a directory-format table of contents"""
    out = {}
    for m in re.finditer(rb"COPY ([^ ]+) \(([^)]*)\) FROM stdin;?(.*?)(\d+\.dat)", toc, re.S):
        if b"COPY " in m.group(3): raise Finding("table %s has no data file in the table of contents" % m.group(1).decode())
        out[m.group(1).decode()] = ([x.strip().strip('"') for x in m.group(2).decode().split(",")], m.group(4).decode())
    if len(out) < 10: raise Finding("the table of contents declares only %d tables" % len(out))
    return out

# ---------------------------------------------------------------- rows
class Need(Exception):
    def __init__(self, atom, vals): self.atom = atom; self.vals = vals
class Ambig(Finding): pass

class Env(dict): pass

class Rows:
    """what a trace writes to each stream, as lines of text, under an assignment of the atoms"""
    def __init__(self, F, table): self.F = F; self.table = table; self.memo = {}
    def tri(self, g, env):
        r = True
        for t, k, p in self.F.NG(g):
            try: v = fineval.holds(frozenset([(t, k, p)]), env)
            except fineval.Outside: r = None; continue
            if not v: return False
        return r
    def pick(self, al, env, what):
        """the one value of the alternatives that can apply"""
        live = [(g, x, self.tri(g, env)) for g, x in al]
        live = [x for x in live if x[2] is not False]
        sure = [x for x in live if x[2]]
        return sure[:1] or live
    def toks(self, t, env, open_=()):
        F = self.F
        key = (t, id(env), open_); r = self.memo.get(key)
        if r is not None: return r
        if t is EMPTY: r = ()
        elif t.op == "push":
            r = self.toks(t.a[0], env, open_) + self.ev(t.a[1], env)
        elif t.op == "cat": r = self.toks(t.a[0], env, open_) + self.toks(t.a[1], env, open_)
        elif t.op == "sel":
            rs = {self.toks(x, env, open_) for g, x, k in self.pick(t.a[0], env, "events")}
            if len(rs) > 1:
                ats = [a for g, x in t.a[0] for a in self.atoms(g, env)]
                if ats: raise Need(*ats[0])
                raise Ambig("what is written depends on %s" % [showlit(l, 4) for g, x in t.a[0] for l in F.NG(g)][:4])
            if not rs: raise Ambig("no case applies")
            r = next(iter(rs))
        elif t.op == "phi" and t in F.e.phis:
            if t in open_: r = (("self", t),)
            else:
                i = F.e.phis[t]
                bodies = set()
                for s in i["step"]:
                    b = self.toks(s, env, open_ + (t,))
                    if not b or b[0] != ("self", t): raise Ambig("a loop drops events")
                    bodies.add(b[1:])
                if len(bodies) > 1: raise Ambig("a loop writes different things")
                b = next(iter(bodies)) if bodies else ()
                r = self.toks(i["init"], env, open_) + ((("loop", t, b),) if b else ())
        else: raise Ambig("events of a path are not a plain sequence: %s" % sh(t, 3))
        self.memo[key] = r
        return r
    def ev(self, v, env):
        if v.op != "ev" or v.a[0] != "write": return ()
        tb = self.table(self.F.N(v.a[2][1]))
        if tb is None: return ()
        return (("data", tb, v.a[2][2]),)
    def atoms(self, g, env):
        for t, k, p in self.F.NG(g):
            for y in self.leaf(t, env): yield y
    def leaf(self, t, env):
        """undetermined inputs of a guard term"""
        if t.op == "or":
            for g in t.a[0]:
                for y in self.atoms(g, env): yield y
            return
        if t.op == "discr" and t not in env and self.path(t.a[0]): yield (t, (0, 1))
        elif self.path(t) and t not in env: yield (t, (False, True))
        elif t.op == "sel":
            for g, x in t.a[0]:
                for y in self.atoms(g, env): yield y
                for y in self.leaf(x, env): yield y
    def path(self, t):
        while t.op in ("fld", "deref", "elem"): t = t.a[0]
        return t.op == "sym"
    def per(self, toks):
        """{table: tokens} keeping the loop structure"""
        out = {}
        for x in toks:
            if x[0] == "data": out.setdefault(x[1], []).append(x)
            elif x[0] == "loop":
                for tb, b in self.per(x[2]).items(): out.setdefault(tb, []).append(("loop", x[1], b))
            else: raise Ambig("unrecognised event %s" % (x,))
        return {k: tuple(v) for k, v in out.items()}
    def split(self, term, atomenvs=({},)):
        """[(env, {table: tokens})] over the assignments of the inputs the events depend on"""
        todo = [Env(x) for x in atomenvs]; out = []; n = 0
        self.keep = getattr(self, "keep", [])
        while todo:
            e = todo.pop(0); n += 1; self.keep.append(e)
            if n > 300: raise Finding("too many cases")
            try: out.append((e, self.per(self.toks(term, e))))
            except Need as q:
                for v in q.vals: todo.append(Env({**e, q.atom: v}))
        return out

class Dump:
    """the dump writer as a transition system: states are writer values, inputs are elements"""
    def __init__(self, c):
        self.c = c; p = self.p = c.prog
        def st(A): A.e.orpc = True; A.e.nofail = A.e.pureio = True
        self.A = A = Ana(c, find1(p, WRITER + "::new"), setup=st); self.F = A.F; self.e = A.e
        oks = [(s, v) for s, g, v in ok_outs(A)]
        if len({v for s, v in oks}) != 1: raise Finding("a new dump writer has %d shapes" % len(oks))
        self.s0, self.w0 = oks[0]
        self.n = 0
        self.R = Rows(self.F, self.table)
        self.names = {}
        w = [y for ev in A.events("fs_write") for y in [ev["args"]] if "toc.dat" in [z.a[0] for z in walk(y[0]) if z.op == "str"]]
        if len(w) != 1: raise Finding("the table of contents is not written once to toc.dat (%s)" % WRITER)
        if A.args[0] not in set(walk(self.F.N(w[0][0]))): raise Finding("the table of contents is not written into the output directory")
        self.tables = toc_tables(static_content(p, w[0][1]))
        self.streams = {}
        self.collect(self.w0)
    def collect(self, v):
        for y in walk(v):
            if y.op == "file":
                n = self.table(self.F.N(y))
                self.streams.setdefault(n, set()).add(y)
    def table(self, w):
        """table whose data file a stream writes to"""
        r = self.names.get(w) if hasattr(self, "names") else None
        if r: return r
        fs = [y for y in walk(w) if y.op == "file"]
        if len(fs) != 1: raise Finding("data is written to an unrecognised stream %s" % sh(w, 4))
        f = fs[0]
        path = f.a[1]
        ks = [z for z in walk(path) if z.op == "str" and z.a[0].startswith("public.")]
        maps = [z for z in walk(path) if z.op == "static" or z.op == "bytes"]
        if len({k.a[0] for k in ks}) != 1: raise Finding("a data file has an unrecognised name %s" % sh(path, 5))
        if self.A.args[0] not in set(walk(path)): raise Finding("%s is not created in the output directory" % ks[0].a[0])
        if f.a[0].a[0] not in ("create", "create_new"): raise Finding("%s is opened with %s" % (ks[0].a[0], f.a[0].a[0]))
        r = ks[0].a[0]
        if maps:
            d = json.loads(static_content(self.p, maps[0]))
            want = self.tables.get(r, (None, None))[1]
            if d.get(r) != want: raise Finding("%s is written to %s, the table of contents names %s" % (r, d.get(r), want))
        else: raise Finding("%s has no file name" % r)
        self.names[w] = r
        return r
    def run(self, key, self_v, *args):
        """(final writer value, state) of one call on a writer in the given state"""
        e = self.e; self.n += 1
        st = self.s0.copy()
        for r in [r for r in st.mem if r == ("TRACE",)]: del st.mem[r]
        st.pc = NOG
        root = ("H", ("dump", self.n), "self")
        st.mem[root] = self_v
        outs = e.run_fn(key, [I.REF(root, ())] + list(args), st, e.ctx(None, "dump", self.n))
        e.visited = set(e.analysed); self.c.use_engine(e)
        if len(outs) != 1: raise Finding("%s has %d outcomes" % (key, len(outs)))
        s, v = outs[0]
        for g, x in alts(v):
            if x.op == "adt" and x.a[1] == 1: raise Finding("%s fails although everything it calls succeeds: %s" % (key, sh(x, 4)))
        return s.mem[root], s.mem.get(("TRACE",), EMPTY)
    def element(self, kind, name):
        ty = adt_def(self.p, ELEMENT); vi = vindex(self.p, ELEMENT, kind)
        f = ty["variants"][vi]["fields"][0]
        x = mk("sym", name, f[1])
        return mk("adt", ELEMENT, vi, (x,)), x
    def get(self, kind, name, x):
        key = find1(self.p, "osm_io::osm::model::%s::%s::%s" % (kind.lower(), kind, name))
        return self.F.N(self.A.call(key, x))

def lines(d, toks, env, table):
    """[(loop context, [cell])] of the token list: whole lines, each a list of cells (piece lists)"""
    out = []
    F = d.F
    def go(toks, ctx):
        cur = []
        def flush(last=False):
            nonlocal cur
            cs = [[]]
            for q in cur:
                if isinstance(q, T) and q.op == "str":
                    parts = re.split(r"([\t\n])", q.a[0])
                    for s in parts:
                        if s == "\t": cs.append([])
                        elif s == "\n": out.append((ctx, cs)); cs = [[]]
                        elif s: cs[-1].append(s)
                else: cs[-1].append(q)
            cur = [] if cs == [[]] else None
            if cur is None: raise Finding("%s: a line does not end with a line break" % table)
        for x in toks:
            if x[0] == "data":
                cur += pieces(d, x[2], env)
            else:
                flush()
                V = spliced(d, x)
                if V is not None:
                    for lctx, item in content(d, V, env):
                        go([("data", table, item)] if not lctx else [], ctx) if not lctx else go_item(item, ctx + lctx)
                else: go(x[2], ctx + (x[1],))
        flush()
    def go_item(item, ctx): go((("data", table, item),), ctx)
    go(toks, ())
    return out

def pieces(d, v, env):
    v = resolve(d, v, env)
    if v.op == "str": return [v]
    if v.op == "fmt":
        out = []
        for q in v.a[0]: out.append(q)
        return out
    if v.op == "cat": return pieces(d, v.a[0], env) + pieces(d, v.a[1], env)
    return [("arg", "display", v)]

def resolve(d, v, env):
    """the alternative of a value that applies"""
    v = v if v.op != "sel" else v
    while v.op == "sel":
        live = [(g, x) for g, x in v.a[0] if d.R.tri(g, env) is not False]
        xs = {x for g, x in live}
        if len(xs) != 1: raise Finding("ambiguous value %s" % sh(v, 3))
        v = next(iter(xs))
    return v

def settle(d, v, env):
    """a value with every choice inside of it resolved"""
    v = resolve(d, v, env)
    if v.op == "adt": return mk("adt", v.a[0], v.a[1], tuple(settle(d, x, env) for x in v.a[2]))
    if v.op == "fld":
        b = settle(d, v.a[0], env)
        if b is not v.a[0]: return I.proj_fld(b, *v.a[1:])
    return v

def spliced(d, tok):
    """the list whose items the loop writes one by one, in order and completely"""
    phi, body = tok[1], tok[2]
    if len(body) != 1 or body[0][0] != "data": return None
    v = body[0][2]
    if v.op != "elem": return None
    key = d.F.e.phis[phi]["key"]
    idx = d.F.walks((key, phi.a[3]), [v.a[0]]) or d.F.walks(key, [v.a[0]])
    if idx is None or d.F.N(v.a[1]) is not d.F.N(idx): return None
    return v.a[0]

def content(d, V, env):
    """[(loops, item)] of a list"""
    out = []
    V = resolve(d, V, env)
    if V is EMPTY: return []
    if V.op == "push": return content(d, V.a[0], env) + [((), V.a[1])]
    if V.op == "phi":
        i = d.F.e.phis[V]
        if len(i["step"]) != 1: raise Finding("a list is built in several ways")
        s = resolve(d, i["step"][0], env)
        if s.op != "push" or s.a[0] is not V: raise Finding("a list of lines is not built line by line: %s" % sh(s, 3))
        return content(d, i["init"], env) + [((V,), s.a[1])]
    raise Finding("unrecognised list of lines %s" % sh(V, 4))

# ---------------------------------------------------------------- cells
OTHER = "\ue000"
ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
CLASSES = ["\\", "\b", "\f", "\n", "\r", "\t", "\v", "N", ".", "b", "f", "n", "r", "t", "v", "x", "0", "7", '"', OTHER]

def litchars(F, t):
    return {y.a[0] for y in walk(t) if y.op == "char"} | {k for y in walk(t) if y.op == "sel" for g, x in y.a[0] for (z, k, q) in g if isinstance(k, str) and len(k) == 1}

def hom(F, t, d=4):
    """(source string, f) when t is the source with every character c replaced by the text f(c)"""
    t0 = t
    if d == 0: raise Finding("text is transformed in an unrecognised way: %s" % sh(t, 4))
    if t.op == "fn" and t.a[0] == "str.replace":
        pat, rep = t.a[1][1], t.a[1][2]
        if pat.op in ("char", "str") and len(pat.a[0]) == 1 and rep.op == "str":
            src, f = hom(F, t.a[1][0], d)
            return src, lambda c: f(c).replace(pat.a[0], rep.a[0])
        raise Finding("text is transformed in an unrecognised way: %s" % sh(t, 4))
    if t.op == "phi" and t in F.e.phis:
        i = F.e.phis[t]
        src = {y.a[0] for s in i["step"] for y in walk(s) if y.op == "elem" and y.a[0].op in ("chars", "fn") and ("chars" in (y.a[0].op, y.a[0].a[0]))}
        if len(src) != 1 or i["init"] not in (EMPTY, STR("")) or len(i["step"]) != 1: raise Finding("text is transformed in an unrecognised way: %s" % sh(t, 4))
        cs = next(iter(src))
        el = {y for y in walk(i["step"][0]) if y.op == "elem" and y.a[0] is cs}
        idx = F.walks((i["key"], t.a[3]), [cs]) or F.walks(i["key"], [cs])
        if idx is None or {F.N(y.a[1]) for y in el} != {F.N(idx)}: raise Finding("a text is not transformed character by character to its end")
        el = next(iter(el)); step = i["step"][0]
        def f(c):
            v = step
            while v.op == "sel":
                hit = {x for g, x in v.a[0] if fineval.holds(g, {el: c})}
                if len(hit) != 1: raise Finding("ambiguous replacement of %r" % c)
                v = next(iter(hit))
            if v is t: return ""
            if v.op != "fmt" or not (isinstance(v.a[0][0], tuple) and v.a[0][0][2] is t): raise Finding("text is transformed in an unrecognised way: %s" % sh(v, 4))
            out = ""
            for q in v.a[0][1:]:
                if isinstance(q, T) and q.op == "str": out += q.a[0]
                elif isinstance(q, tuple) and q[2] is el: out += c
                elif isinstance(q, tuple) and q[1] in ("display", "str"):
                    try: x = fineval.ev(q[2], {el: c})
                    except fineval.Outside: raise Finding("text is transformed in an unrecognised way: %s" % sh(q[2], 4))
                    if not isinstance(x, str): raise Finding("text is transformed in an unrecognised way: %s" % sh(q[2], 4))
                    out += x
                else: raise Finding("text is transformed in an unrecognised way: %s" % sh(v, 4))
            return out
        s2, g = hom(F, string_of(cs), d - 1)
        if s2 is string_of(cs): return s2, f
        return s2, lambda c: "".join(f(x) for x in g(c))
    return t0, lambda c: c

def string_of(cs):
    """the string whose characters a sequence is"""
    return cs.a[0] if cs.op == "chars" else cs.a[1][0]

def copy_decode(s):
    """what the COPY text format reads from a cell; None for a null or an ill-formed cell"""
    if s == "\\N": return None
    out = ""; i = 0
    while i < len(s):
        c = s[i]; i += 1
        if c in "\t\n\r": return None
        if c != "\\": out += c; continue
        if i >= len(s): return None
        e = s[i]; i += 1
        if e in "01234567x": return None
        out += ESC.get(e, e)
    return out

def check_escape(f, extra=()):
    for c in sorted(set(CLASSES) | set(extra)):
        if copy_decode(f(c)) != c: return "the character %r is written as %r, which is read back as %r" % (c, f(c), copy_decode(f(c)))
        for e in sorted(set(CLASSES) | set(extra)):
            if copy_decode(f(c) + f(e)) != c + e: return "%r is written as %r, which is read back as %r" % (c + e, f(c) + f(e), copy_decode(f(c) + f(e)))
    return None

class Bits:
    """64 bit values as bits: 0, 1 or the origin of the bit"""
    def __init__(self, F, leaf): self.F = F; self.leaf = leaf
    def const(self, n): return tuple((n >> i) & 1 for i in range(64))
    def num(self, v):
        if isinstance(v, int): return v
        if all(x in (0, 1) for x in v): return sum(x << i for i, x in enumerate(v))
        return None
    def ev(self, t, env):
        if t in env: return env[t]
        l = self.leaf(t)
        if l is not None: return tuple((l, i) if i < 16 else 0 for i in range(64))
        op = t.op
        if op == "int": return self.const(t.a[0] & ((1 << 64) - 1))
        if op == "cast" and t.a[0] == "i" and t.a[1] in I.WIDTH:
            x = self.ev(t.a[-1], env); w = I.WIDTH[t.a[1]]
            return x if w >= 64 or not isinstance(x, tuple) or len(x) != 64 else x[:w] + ((x[w - 1] if t.a[1][0] == "i" else 0),) * (64 - w)
        if op == "iter":
            if t.a[0] == "items": return ("list", t.a[1])
            if t.a[0] == "rev":
                x = self.ev(t.a[1], env); return ("list", tuple(reversed(x[1])))
            if t.a[0] in ("opaque", "vals"):
                x = self.ev(t.a[1], env); return ("list", x[1][t.a[2].a[0]:])
        if op == "elem":
            x = self.ev(t.a[0], env); n = self.num(self.ev(t.a[1], env))
            return self.ev(x[1][n], env)
        if op == "has":
            x = self.ev(t.a[0], env); n = self.num(self.ev(t.a[1], env))
            return n < len(x[1])
        if op == "phi" and t in self.F.e.phis: return self.loop(t, env)
        if op == "bin":
            o = t.a[0]; a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
            na, nb = self.num(a), self.num(b)
            if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and na is not None and nb is not None:
                s = lambda n: n - (1 << 64) if n >> 63 else n
                na, nb = s(na), s(nb)
                return {"Lt": na < nb, "Le": na <= nb, "Gt": na > nb, "Ge": na >= nb, "Eq": na == nb, "Ne": na != nb}[o]
            if o in ("Shl", "ShlUnchecked") and nb is not None: return ((0,) * nb + a)[:64]
            if o in ("Shr", "ShrUnchecked") and nb is not None: return a[nb:] + (0,) * nb
            if na is not None and nb is not None and o in ("Add", "Sub", "Mul", "Div", "Rem"):
                return self.const({"Add": na + nb, "Sub": na - nb, "Mul": na * nb, "Div": na // nb if nb else 0, "Rem": na % nb if nb else 0}[o] & ((1 << 64) - 1))
            if o == "Mul" and nb is not None and nb and nb & (nb - 1) == 0: k = nb.bit_length() - 1; return ((0,) * k + a)[:64]
            if o in ("BitAnd", "BitOr", "BitXor", "Add"):
                out = []
                for x, y in zip(a, b):
                    if x == 0 or y == 0:
                        z = x if y == 0 else y
                        out.append(0 if o == "BitAnd" else z)
                    elif o == "BitAnd" and 1 in (x, y): out.append(y if x == 1 else x)
                    elif x == y and o in ("BitAnd", "BitOr"): out.append(x)
                    else: raise Finding("bits are combined in an unrecognised way")
                return tuple(out)
        raise Finding("unrecognised bit operation %s" % sh(t, 4))
    def loop(self, t, env):
        F = self.F; i0 = F.e.phis[t]; key = i0["key"]
        phis = [x for x, i in F.e.phis.items() if i["key"] == key and x.a[3] == t.a[3] and i["path"] == i["path"]]
        cur = {}
        for x in phis:
            try: cur[x] = self.ev(F.e.phis[x]["init"], env)
            except Finding: pass
        exits = F.exits((key, t.a[3])) or F.exits(key)
        for n in range(200):
            e2 = {**env, **cur}
            if any(self.hold(pc, e2) for pc in exits): return cur[t]
            nxt = {}
            for x in cur:
                s = F.e.phis[x]["step"]
                if len(s) != 1: raise Finding("unrecognised loop")
                nxt[x] = self.ev(s[0], e2)
            cur = nxt
        raise Finding("a bit loop does not end")
    def hold(self, pc, env):
        for t, k, p in pc:
            if t.op == "has" or t.op == "bin":
                if (self.ev(t, env) == k) != bool(p): return False
        return True

class Cells:
    """decides that a cell of a line holds what its column stands for"""
    def __init__(self, d): self.d = d; self.F = d.F; self.esc = {}
    def one(self, cell, env, what):
        """the value shown in a cell, or its constant text"""
        if all(isinstance(q, str) for q in cell): return STR("".join(cell))
        if len(cell) != 1 or not isinstance(cell[0], tuple) or cell[0][1] not in ("display", "str"): raise Finding("%s is written as %s" % (what, [sh(q[2], 3) if isinstance(q, tuple) else q for q in cell]))
        v = resolve(self.d, cell[0][2], env)
        return v
    def show(self, cell): return "".join(q if isinstance(q, str) else "{%s}" % sh(q[2], 5) for q in cell)
    def check(self, cell, spec, env, what):
        F = self.F; k = spec[0]
        bad = lambda v=None: Finding("%s is written as %s" % (what, self.show(cell)))
        if k == "null":
            if "".join(q if isinstance(q, str) else "?" for q in cell) != "\\N": raise bad()
            return
        if k == "const":
            if not all(isinstance(q, str) for q in cell):
                v = self.one(cell, env, what)
                if v.op in ("str", "char") and v.a[0] == spec[1]: return
                raise bad()
            if "".join(q if isinstance(q, str) else "?" for q in cell) != spec[1]: raise bad()
            return
        if k == "any":
            if not cell: raise Finding("%s is written as an empty text" % what)
            for q in cell:
                if isinstance(q, str) and "\\" in q and q != "\\N": raise bad()
            return
        v = self.one(cell, env, what)
        if k == "val":
            if F.N(v) is not F.N(spec[1]) or as_unsigned(v): raise bad()
        elif k == "bool":
            want = env[spec[1]]
            if not (v.op in ("char", "str") and v.a[0] == ("t" if want else "f")): raise bad()
        elif k == "scaled":
            x = unnarrow(F.N(v))
            if as_unsigned(v): raise bad()
            if not (x.op == "fn" and x.a[0] == "round" and F.poly(x.a[1][0]) == F.poly(F.N(I.binop1("Mul", spec[1], mk("float", 10000000.0)))) or x.op == "round" and F.poly(x.a[0]) == F.poly(F.N(I.binop1("Mul", spec[1], mk("float", 10000000.0))))): raise bad()
        elif k == "time":
            if not self.sqltime(v, spec[1]): raise bad()
        elif k == "now":
            ok = any(y.op == "fn" and "now" in str(y.a[0]) for y in walk(v))
        elif k == "source":
            x = F.N(spec[1])
            try: ok = F.N(settle(self.d, hom(F, v)[0], env)) is x
            except Finding: ok = x in set(self.deep(v))
            if not ok: raise bad()
        elif k == "text":
            src, f = hom(F, v)
            src = settle(self.d, src, env)
            if F.N(src) is not F.N(spec[1]): raise bad()
            r = check_escape(f, litchars(F, v))
            if r: raise Finding("%s: %s" % (what, r))
        elif k == "tile":
            self.tile(v, spec, what, bad)
        elif k == "ordinal":
            if F.N(v) is not F.N(I.binop1("Add", spec[1], INT(1))): raise bad()
        else: raise Finding("unknown column kind %s" % k)
    def deep(self, v):
        """every part of a value, through loops"""
        F = self.F; seen = set(); todo = [F.N(v)]
        while todo:
            for y in walk(todo.pop()):
                if y in seen: continue
                seen.add(y)
                if y.op == "phi" and y in F.e.phis: todo += [F.N(z) for z in [F.e.phis[y]["init"]] + list(F.e.phis[y]["step"])]
        return seen
    def sqltime(self, v, ms):
        """date and time of the instant, separated by a blank, without zone"""
        F = self.F; subs = []
        while v.op == "fn" and v.a[0] == "str.replace":
            if any(x.op not in ("char", "str") for x in v.a[1][1:3]): return False
            subs.append((v.a[1][1].a[0], v.a[1][2].a[0])); v = v.a[1][0]
        if not (v.op == "fn"): return False
        if v.a[0].endswith(".to_rfc3339_opts"):
            if sorted(subs) != [("T", " "), ("Z", "")]: return False
            if v.a[1][2] is not mk("bool", True) and F.N(v.a[1][2]) is not F.N(mk("bool", True)): return False
            t = v.a[1][0]
        elif v.a[0].endswith(".format") and not subs:
            if not (v.a[1][1].op == "str" and v.a[1][1].a[0] in ("%Y-%m-%d %H:%M:%S", "%F %T", "%Y-%m-%d %T", "%F %H:%M:%S", "%Y-%m-%d %H:%M:%S%.f", "%Y-%m-%d %H:%M:%S%.3f")): return False
            t = v.a[1][0]
        else: return False
        if t.op == "fld": t = t.a[0]
        return t.op == "fn" and t.a[0].endswith("from_timestamp_millis") and F.N(t.a[1][-1]) is F.N(ms)
    def tile(self, v, spec, what, bad):
        F = self.F
        px = self.scale(spec[2], 180, 360); py = self.scale(spec[1], 90, 180)
        seen = set()
        def leaf(t):
            x = t
            while x.op == "cast" and x.a[1] not in ("u8", "i8", "i16", "f32"): x = x.a[-1]
            if x is t and x.op == "round" or x.op == "fn" and x.a[0] == "round" or x.op == "round":
                q = F.poly(x.a[1][0] if x.op == "fn" else x.a[0])
                for n, w in (("x", px), ("y", py)):
                    if self.near(q, w): seen.add(n); return n
                raise Finding("%s is computed from %s" % (what, sh(x, 6)))
            return None
        b = Bits(F, leaf).ev(v, {})
        want = tuple((("y" if i % 2 == 0 else "x"), i // 2) if i < 32 else 0 for i in range(64))
        if tuple(b) != want: raise Finding("%s does not interleave the 16 bits of longitude and latitude (bit %d)" % (what, next(i for i in range(64) if b[i] != want[i])))
    def scale(self, t, off, span):
        F = self.F
        return F.poly(I.binop1("Div", I.binop1("Mul", I.binop1("Add", t, mk("float", float(off))), mk("float", 65535.0)), mk("float", float(span))))
    def near(self, a, b):
        return set(a) == set(b) and all(abs(float(a[m]) - float(b[m])) <= 1e-9 * max(1.0, abs(float(b[m]))) for m in a)

# ---------------------------------------------------------------- specification
KINDS = ("Node", "Way", "Relation")
class MEnv(Env):
    """assignment that also fixes the kind of every member of a relation"""
    def __init__(self, d, members=None, kind=None): super().__init__(d); self.members = members; self.kind = kind
    def hit(self, t): return self.members is not None and isinstance(t, T) and t.op == "discr" and t.a[0].op == "elem" and t.a[0].a[0] is self.members
    def __contains__(self, t): return dict.__contains__(self, t) or self.hit(t)
    def __getitem__(self, t): return self.kind if self.hit(t) and not dict.__contains__(self, t) else dict.__getitem__(self, t)

def spec(d, kind, x):
    """{table: (list walked or None, columns(item, position) -> {column: kind of content})} for an element"""
    F = d.F; p = d.p
    g = lambda n: d.get(kind, n, x)
    base = {"id": ("val", g("id")), "changeset_id": ("val", g("changeset")), "visible": ("bool", g("visible")), "timestamp": ("time", g("timestamp")),
            "version": ("val", g("version")), "redaction_id": ("null",)}
    if kind == "Node":
        co = g("coordinate"); get = lambda n: F.N(d.A.call(find1(p, COORD + "::" + n), co))
        lat, lon = get("lat"), get("lon")
        base.update({"latitude": ("scaled", lat), "longitude": ("scaled", lon), "tile": ("tile", lat, lon)})
    own = kind.lower() + "_id"
    base[own] = base["id"]
    def tag(it, i):
        get = lambda n: F.N(d.A.call(find1(p, TAG + "::" + n), it))
        return {own: base["id"], "version": base["version"], "k": ("text", get("k")), "v": ("text", get("v"))}
    k = kind.lower()
    out = {"public.%ss" % k: (None, lambda it, i: base), "public.current_%ss" % k: (None, lambda it, i: base),
           "public.%s_tags" % k: (g("tags"), tag), "public.current_%s_tags" % k: (g("tags"), tag)}
    if kind == "Way":
        def ref(it, i): return {own: base["id"], "version": base["version"], "node_id": ("val", it), "sequence_id": ("ordinal", i)}
        out["public.way_nodes"] = out["public.current_way_nodes"] = (g("refs"), ref)
    if kind == "Relation":
        vs = variants(p, MEMBER)
        def mem(it, i, mk_):
            pl = payload(p, it, MEMBER, vs[mk_])
            get = lambda n: F.N(d.A.call(find1(p, "osm_io::osm::model::relation::MemberData::" + n), pl))
            return {own: base["id"], "version": base["version"], "member_type": ("const", vs[mk_]), "member_id": ("val", get("id")),
                    "member_role": ("text", get("role")), "sequence_id": ("ordinal", i)}
        out["public.relation_members"] = out["public.current_relation_members"] = (g("members"), mem)
    return out

def envs_for(d, kind, x, env, table):
    """the assignment, once per kind of member where lines describe members"""
    if table.endswith("relation_members"):
        m = d.get("Relation", "members", x)
        return [(MEnv(env, m, k), k) for k in range(len(variants(d.p, MEMBER)))]
    return [(env, None)]

def written(d, trace, env, mem=None):
    """{table: tokens} of a trace"""
    e = MEnv(env, *mem) if mem else env if isinstance(env, MEnv) else MEnv(env)
    d.R.keep = getattr(d.R, "keep", []); d.R.keep.append(e)
    return d.R.per(d.R.toks(trace, e)), e

class Judge:
    """compares lines written with the lines an element stands for"""
    def __init__(self, c, d, text=True, other=True): self.c = c; self.d = d; self.C = Cells(d); self.text = text; self.other = other
    def table(self, tag, kind, x, trace, env, table, want=True):
        """the trace writes to the table exactly the lines of the element (nothing when not wanted)"""
        d = self.d; F = d.F
        src, cols = spec(d, kind, x)[table]
        ms = envs_for(d, kind, x, env, table)
        for menv, mk_ in ms:
            per, e = written(d, trace, env, (menv.members, menv.kind) if mk_ is not None else None)
            ls = lines(d, per.get(table, ()), e, table)
            end = [i for i, l in enumerate(ls) if "".join(q if isinstance(q, str) else "?" for cell in l[1] for q in cell) == "\\."]
            if end: ls = ls[:end[0]]
            self.lines(tag, kind, ls, src, cols, e, table, mk_, want)
    def lines(self, tag, kind, ls, src, cols, env, table, mk_, want):
        d = self.d; F = d.F; c = self.c
        if not want:
            if ls: raise Finding("%s: a line is written to %s" % (tag, table))
            return
        if len(ls) != 1: raise Finding("%s: %d kinds of lines are written to %s" % (tag, len(ls), table))
        ctx, cells = ls[0]
        it = i = None
        if src is None:
            if ctx: raise Finding("%s: the line of %s is written in a loop" % (tag, table))
        else:
            if len(ctx) != 1: raise Finding("%s: %s gets no line for every item" % (tag, table))
            ph = ctx[0]; key = F.e.phis[ph]["key"]
            i = F.walks((key, ph.a[3]), [src]) or F.walks(key, [src])
            if i is None: raise Finding("%s: the lines of %s are not written for every item in order" % (tag, table))
            i = F.N(i); it = F.N(mk("elem", src, i))
        names = d.tables[table][0] if table in d.tables else None
        if names is None: raise Finding("%s is not in the table of contents" % table)
        if len(names) != len(cells): raise Finding("%s: lines of %s have %d columns, declared are %d" % (tag, table, len(cells), len(names)))
        sp = cols(it, i, mk_) if mk_ is not None else cols(it, i)
        for n, cell in zip(names, cells):
            if n not in sp: raise Finding("%s has an unknown column %s" % (table, n))
            if sp[n][0] != "text" and not self.other: continue
            q = ("source", sp[n][1]) if sp[n][0] == "text" and not self.text else sp[n]
            try: self.C.check(cell, q, env, "%s.%s" % (table, n)); ok = True; why = ""
            except Finding as x: ok = False; why = str(x)
            c.ob("%s:%s.%s" % (tag, table, n), ok, why)

HIST = {"Node": ("public.nodes", "public.node_tags"), "Way": ("public.ways", "public.way_tags", "public.way_nodes"), "Relation": ("public.relations", "public.relation_tags", "public.relation_members")}
CURR = {k: tuple(t.replace("public.", "public.current_") for t in v) for k, v in HIST.items()}

def env_of(d, *els):
    """assignment of ids and visibilities: (kind, element, id, visible)..."""
    env = Env()
    for kind, x, i, v in els:
        env[d.get(kind, "id", x)] = i; env[d.get(kind, "visible", x)] = v
    return env

def rows(c, text, other):
    """every line written for an element, to its own tables and to the current tables"""
    d = Dump(c); J = Judge(c, d, text, other)
    we = find1(d.p, WRITER + "::write_element"); cl = find1(d.p, WRITER + "::close")
    for kind in KINDS:
        el, x = d.element(kind, "e")
        w, tr = d.run(we, d.w0, el)
        for v in (True, False):
            env = env_of(d, (kind, x, 5, v))
            for tb in HIST[kind]: c.guard("rows:%s" % tb, J.table, "line", kind, x, tr, env, tb)
            per, e = written(d, tr, env)
            for tb in per:
                if other: c.ob("rows:%s:%s" % (kind, tb), tb in HIST[kind], "a %s is also written to %s" % (kind.lower(), tb))
        env = env_of(d, (kind, x, 5, True))
        w2, tr2 = d.run(cl, settle(d, w, env))
        for tb in CURR[kind]: c.guard("rows:%s" % tb, J.table, "current", kind, x, tr2, env, tb)
        el3, x3 = d.element(kind, "f")
        w3, tr3 = d.run(we, settle(d, w, env), el3)
        env3 = env_of(d, (kind, x, 5, True), (kind, x3, 6, True))
        for tb in CURR[kind]: c.guard("rows:%s" % tb, J.table, "current", kind, x, tr3, env3, tb)
        per, e = written(d, tr3, env3)
        for tb in per:
            if other: c.ob("rows:%s:%s" % (kind, tb), tb in HIST[kind] + CURR[kind], "a %s is also written to %s" % (kind.lower(), tb))
    return d

def run_rows(c):
    c.rule("every line of a data file has exactly the columns the dump's own table of contents declares for that table, in that order, each holding the attribute of the element it is named after: ids and versions verbatim, coordinates rounded to 1e-7 degrees, booleans t/f, instants as date and time, positions counted from one, the tile interleaving 16 bits of longitude and latitude")
    c.rule("every table is written to the data file its table of contents entry names")
    def go():
        d = rows(c, False, True)
        for t in d.tables: c.ob("file:%s" % t, t in d.streams, "%s is declared but no data file is created for it" % t)
        for t in d.streams: c.ob("declared:%s" % t, t in d.tables and len(d.streams[t]) == 1, "%s has %d data files" % (t, len(d.streams[t])))
    c.guard("rows", go)

def run_text(c):
    c.rule("every text column is written through a character by character escape whose result, read by the COPY text rules, is the original text: decided for every pair of character classes the escape distinguishes")
    c.guard("rows", lambda: rows(c, True, False))
    c.guard("users", users_text, c)

def run_current(c):
    c.rule("the current tables receive, for every object, exactly the lines of its last version and only if that is visible: the states of the writer form a closed finite set under any further version of the same or any later object, decided for every ordering of ids and both visibilities; closing writes what is still held back")
    c.guard("current", current, c)

def same(F, a, b):
    """equality of values up to the identity of loops and the order of cases"""
    pair = {}
    def go(x, y):
        if x is y: return True
        if isinstance(x, T) != isinstance(y, T): return False
        if not isinstance(x, T):
            if isinstance(x, (tuple, list)): return isinstance(y, (tuple, list)) and len(x) == len(y) and all(go(p, q) for p, q in zip(x, y))
            return x == y
        if (x, y) in pair: return pair[(x, y)]
        if x.op != y.op: return False
        pair[(x, y)] = True
        if x.op == "phi" and x in F.e.phis and y in F.e.phis:
            i, j = F.e.phis[x], F.e.phis[y]
            r = go(i["init"], j["init"]) and len(i["step"]) == len(j["step"]) and all(any(go(p, q) for q in j["step"]) for p in i["step"])
        elif x.op == "sel":
            r = len(x.a[0]) == len(y.a[0]) and all(any(guards(g, h) and go(p, q) for h, q in y.a[0]) for g, p in x.a[0])
        elif x.op == "or": r = len(x.a[0]) == len(y.a[0]) and all(any(guards(g, h) for h in y.a[0]) for g in x.a[0])
        else: r = len(x.a) == len(y.a) and all(go(p, q) for p, q in zip(x.a, y.a))
        pair[(x, y)] = r
        return r
    def guards(g, h): return len(g) == len(h) and all(any(l[1] == m[1] and l[2] == m[2] and go(l[0], m[0]) for m in h) for l in g)
    return go(a, b)

def leaves(v, path=()):
    if v.op == "adt" and v.a[0] != "array":
        for i, x in enumerate(v.a[2]):
            for y in leaves(x, path + (i,)): yield y
    else: yield path, v
def put(v, path, x):
    if not path: return x
    a = list(v.a[2]); a[path[0]] = put(a[path[0]], path[1:], x)
    return mk("adt", v.a[0], v.a[1], tuple(a))
def maps_of(d):
    """[(path, key, value)] of the collections that grow with every element written"""
    out = []
    for kind in KINDS:
        el, x = d.element(kind, "e")
        w, tr = d.run(find1(d.p, WRITER + "::write_element"), d.w0, el)
        for path, v in leaves(w):
            if v.op == "ins": out.append((kind, x, path, v))
    return out

ORDERS = [(-3, -3), (-3, -2), (-3, 0), (0, 0), (0, 4), (4, 4), (4, 5), (-3, 4)]

def current(c):
    d = Dump(c); F = d.F; p = d.p; J = Judge(c, d, False, True)
    we = find1(p, WRITER + "::write_element"); cl = find1(p, WRITER + "::close")
    grow = {path for k, x, path, v in maps_of(d)}
    def clean(w):
        for path in grow: w = put(w, path, EMPTY)
        return w
    def step(w, el, env): 
        w2, tr = d.run(we, w, el)
        return w2, tr
    cases = 0
    for others in (None, True, False):
        for kind in KINDS:
            # the state the other kinds of elements leave behind
            B = d.w0; oe = []
            if others is not None:
                for k in KINDS:
                    if k == kind: continue
                    el, x = d.element(k, "o%s" % k); oe.append((k, x))
                    B, tr = step(B, el, None)
                    bs = {settle(d, B, env_of(d, *[(k2, x2, i, others) for k2, x2 in oe])) for i in (-9, 0, 9)}
                    if len(bs) != 1: raise Finding("the state after one %s depends on its id" % k.lower())
                    B = clean(next(iter(bs)))
            el1, x1 = d.element(kind, "e1"); el0, x0 = d.element(kind, "e0")
            oenv = lambda i: [(k, x, i, others) for k, x in oe]
            # what one element leaves behind
            wA, trA = step(B, el1, None)
            after = {}
            for v in (True, False):
                ss = {settle(d, wA, env_of(d, (kind, x1, i, v), *oenv(j))) for i in (-5, 0, 5) for j in (-9, 0, 9)}
                if len(ss) != 1: raise Finding("the state after the first %s depends on its id" % kind.lower())
                after[v] = clean(next(iter(ss)))
                for i in (-5, 0, 5):
                    for tb in CURR[kind]: J.table("first:%s:%s" % (kind, others), kind, x1, trA, env_of(d, (kind, x1, i, v), *oenv(9)), tb, want=False); cases += 1
            w0_, tr0 = step(B, el0, None)
            for v0 in (True, False):
                S0 = clean(settle(d, w0_, env_of(d, (kind, x0, 5, v0), *oenv(9))))
                w1, tr1 = step(S0, el1, None)
                for (i0, i1) in ORDERS:
                    for v1 in (True, False):
                        for j in ((-9, 9) if others is not None else (0,)):
                            env = env_of(d, (kind, x0, i0, v0), (kind, x1, i1, v1), *oenv(j))
                            tag = "%s:%s:%s%s" % (kind, "same object" if i0 == i1 else "next object", "visible" if v0 else "deleted", "" if others is None else ":after others")
                            J2 = Judge(Quiet(), d, False, True)
                            for tb in CURR[kind]:
                                cases += 1
                                try: J2.table(tag, kind, x0, tr1, env, tb, want=v0 and i1 > i0); ok = not J2.c.bad; why = "; ".join(J2.c.bad[:2])
                                except Finding as x: ok = False; why = str(x)
                                J2.c.bad.clear()
                                c.ob("emit:%s:%s" % (tag, tb), ok, why)
                            per, e = written(d, tr1, env)
                            for tb in per:
                                if "current" in tb: c.ob("emit:%s:%s" % (tag, tb), tb in CURR[kind], "writing a %s adds lines to %s" % (kind.lower(), tb))
                            S1 = clean(settle(d, w1, env))
                            c.ob("state:%s" % tag, same(F, S1, after[v1]), "what the writer remembers after a %s depends on what came before it: %s" % (kind.lower(), diff(F, S1, after[v1])))
                            cases += 1
    # closing
    import itertools
    for combo in ((True, True, True), (False, False, False), (None, None, None), (True, False, None), (None, True, False), (False, None, True)):
        w = d.w0; els = []
        for kind, v in zip(KINDS, combo):
            if v is None: continue
            el, x = d.element(kind, "c%s" % kind); els.append((kind, x, 7, v))
            w, tr = step(w, el, None); w = clean(settle(d, w, env_of(d, *els)))
        w2, tr = d.run(cl, w)
        env = env_of(d, *els)
        for kind, v in zip(KINDS, combo):
            x = next((e[1] for e in els if e[0] == kind), None)
            if x is None: el, x = d.element(kind, "c%s" % kind)
            J2 = Judge(Quiet(), d, False, True)
            for tb in CURR[kind]:
                cases += 1
                try: J2.table("close", kind, x, tr, env, tb, want=bool(v)); ok = not J2.c.bad; why = "; ".join(J2.c.bad[:2])
                except Finding as y: ok = False; why = str(y)
                J2.c.bad.clear()
                c.ob("close:%s:%s" % (tb, "visible" if v else "deleted" if v is False else "none"), ok, why)
    c.metrics["cases"] = cases

def run_close(c):
    c.rule("every data file the table of contents declares is a whole COPY stream once the dump is closed: whole lines, then exactly one end-of-data line as the last line, then a flush of that file")
    c.rule("every user id that owns an element gets a row in the users table under the name of that user, and every changeset of an element gets a row in the changesets table owned by that element's user; each is written once, whatever the number of elements")
    c.guard("close", lambda: closing(c, Dump(c), True, False))

def users_text(c):
    closing(c, Dump(c), False, True)

def enter(d):
    """leaves of the writer state that remember who owns what: {leaf path: (key, value) of every kind of element}"""
    F = d.F; we = find1(d.p, WRITER + "::write_element")
    out = {}
    for kind in KINDS:
        el, x = d.element(kind, "e")
        w, tr = d.run(we, d.w0, el)
        old = dict(leaves(d.w0))
        for path, v in leaves(w):
            if v.op != "ins": continue
            if v.a[0] is not old.get(path): raise Finding("writing a %s forgets what %s remembered" % (kind.lower(), path))
            out.setdefault(path, {})[kind] = (F.N(uncast(v.a[1])), F.N(uncast(v.a[2])), x)
    return out
def uncast(t):
    return unnarrow(t, 64)
def as_unsigned(t):
    """is a signed number shown as an unsigned one?"""
    return t.op == "cast" and t.a[1][0] == "u"

def closing(c, d, struct, text):
    F = d.F; we = find1(d.p, WRITER + "::write_element"); cl = find1(d.p, WRITER + "::close")
    ent = enter(d)
    role = {}
    for path, ks in ent.items():
        for n, key, val in (("user", "uid", "user"), ("changeset", "changeset", "uid")):
            if set(ks) == set(KINDS) and all(k is d.get(kind, key, x) and v is d.get(kind, val, x) for kind, (k, v, x) in ks.items()): role[n] = path
    for n in ("user", "changeset"):
        if struct: c.ob("remember:%s" % n, n in role, "not every element's %s is remembered until the dump is closed" % n)
        if n not in role: raise Finding("the %s of an element is not remembered" % n)
    marks = {n: mk("sym", "all:%s" % n, None) for n in role}
    w = d.w0; els = []
    for kind in KINDS:
        el, x = d.element(kind, "last%s" % kind); els.append((kind, x, 7, True))
        w, _ = d.run(we, w, el); w = settle(d, w, env_of(d, *els))
    for n, path in role.items(): w = put(w, path, marks[n])
    w2, tr = d.run(cl, w)
    per, e = written(d, tr, MEnv(env_of(d, *els), d.get("Relation", "members", els[2][1]), 0))
    J = Cells(d)
    if struct:
        # footers
        evs = [v for v in events(tr, F) ]
        for tb in d.tables:
            if tb not in per: c.ob("footer:%s" % tb, False, "no end-of-data line is written to %s" % tb); continue
            try:
                ls = lines(d, per[tb], e, tb)
                txt = ["".join(q if isinstance(q, str) else "?" for cell in l[1] for q in cell) for l in ls]
                ok = txt[-1:] == ["\\."] and txt.count("\\.") == 1 and not ls[-1][0]
                c.ob("footer:%s" % tb, ok, "closing does not end %s with exactly one end-of-data line" % tb)
            except Finding as x: c.ob("footer:%s" % tb, False, str(x))
            mine = [v.a[0] for v in evs if v.a[0] in ("write", "flush") and d.table(F.N(v.a[2][1])) == tb]
            c.ob("flush:%s" % tb, mine[-1:] == ["flush"], "%s is not flushed after its last line when the dump is closed" % tb)
    def table(tb, n, want):
        ls = [l for l in lines(d, per.get(tb, ()), e, tb) if l[0]]
        tops = [l for l in lines(d, per.get(tb, ()), e, tb) if not l[0]]
        if struct: c.ob("rows:%s" % tb, len(tops) <= 1, "%s gets a line that stands for nothing" % tb)
        if not ls: raise Finding("no line is written to %s for every %s" % (tb, n))
        names = d.tables[tb][0]
        for ctx, cells in ls:
            if len(ctx) != 1: raise Finding("%s is not written in a single pass" % tb)
            if len(cells) != len(names): raise Finding("lines of %s have %d columns, declared are %d" % (tb, len(cells), len(names)))
            key = F.e.phis[ctx[0]]["key"]
            ms = {y.a[0] for cell in cells for q in cell if isinstance(q, tuple) for y in walk(q[2]) if y.op == "mapkey"}
            good = None
            for M in ms:
                idx = F.walks((key, ctx[0].a[3]), [M]) or F.walks(key, [M])
                if idx is not None and covers(d, M, marks[n]): good = (M, F.N(idx))
            if struct: c.ob("all:%s" % tb, good is not None, "%s does not get a line for every %s remembered" % (tb, n))
            if good is None: raise Finding("%s does not get a line for every %s" % (tb, n))
            M, idx = good
            k = mk("mapkey", M, idx); v = mk("mapval", M, k)
            for nm, cell in zip(names, cells):
                sp = want(nm, k, v)
                if sp is None: continue
                if (sp[0] == "text") != text: continue
                try: J.check(cell, sp, e, "%s.%s" % (tb, nm)); ok = True; why = ""
                except Finding as x: ok = False; why = str(x)
                c.ob("%s.%s" % (tb, nm), ok, why)
        return ls
    c.guard("users", lambda: table("public.users", "user", lambda nm, k, v: {"id": ("val", k), "display_name": ("text", v)}.get(nm)))
    if text:
        d2 = lambda nm, k, v: ("text", v) if nm == "description" else None
        c.guard("users", lambda: table("public.users", "user", d2))
        return
    def once(tb, n): 
        ls = [l for l in lines(d, per.get(tb, ()), e, tb) if l[0]]
        c.ob("once:%s" % tb, len(ls) == 1, "%s gets %d lines for each %s" % (tb, len(ls), n))
    c.guard("users", once, "public.users", "user")
    c.guard("changesets", lambda: table("public.changesets", "changeset", lambda nm, k, v: {"id": ("val", k), "user_id": ("val", v)}.get(nm)))
    c.guard("changesets", once, "public.changesets", "changeset")
    c.guard("changesets", lambda: table("public.changeset_tags", "changeset", lambda nm, k, v: {"changeset_id": ("val", k)}.get(nm)))

def covers(d, M, L):
    """the map holds every entry of another one"""
    F = d.F
    if M is L: return True
    if M.op == "phi" and M in F.e.phis:
        i = F.e.phis[M]
        if len(i["step"]) != 1: return False
        s = i["step"][0]
        if s.op != "ins" or s.a[0] is not M: return False
        idx = F.walks((i["key"], M.a[3]), [L]) or F.walks(i["key"], [L])
        if idx is None: return covers(d, i["init"], L)
        k = mk("mapkey", L, F.N(idx))
        return F.N(s.a[1]) is F.N(k) and F.N(s.a[2]) is F.N(mk("mapval", L, k))
    if M.op == "ins": return covers(d, M.a[0], L)
    return False

def events(t, F):
    """events of a trace, loops flattened, in order"""
    if t is EMPTY: return []
    if t.op == "push": return events(t.a[0], F) + [t.a[1]]
    if t.op == "cat": return events(t.a[0], F) + events(t.a[1], F)
    if t.op == "phi" and t in F.e.phis:
        i = F.e.phis[t]; out = events(i["init"], F)
        for s in i["step"]:
            stop = dict()
            out += above(s, t)
        return out
    if t.op == "sel":
        out = []
        for g, x in t.a[0]: out += [y for y in events(x, F) if y not in out]
        return out
    return []
def above(s, base):
    out = []
    while s is not base and s.op == "push": out.insert(0, s.a[1]); s = s.a[0]
    return out

class Quiet:
    def __init__(self): self.bad = []
    def ob(self, k, ok, why=""):
        if not ok: self.bad.append("%s %s" % (k, why))

def diff(F, a, b):
    la, lb = dict(leaves(a)), dict(leaves(b))
    return [(k, sh(la[k], 3) if k in la else None, sh(lb[k], 3) if k in lb else None) for k in sorted(set(la) | set(lb)) if k not in la or k not in lb or not same(F, la[k], lb[k])][:2]
