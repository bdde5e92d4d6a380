"""Writers and parallel passes work with the settings they were given (C42)."""
from rulelib import *
import rules_pw as pw
from rules_apird import rewrite
from rules_pbf import walk
from rules_write import trace
from rules_read import instances, PFE

COMPRESSION = "osm_io::osm::pbf::compression_type::CompressionType"
WR = "pbf::writer::Writer::"; PWR = "pbf::parallel_writer::ParallelWriter::"

def param(p, key, ty, n=0):
    """the n-th argument of a type"""
    b = p.bodies[key]["body"]
    out = [mk("sym", "a%d" % i, b["locals"][i]["ty"]) for i in range(1, b["arg_count"] + 1) if p.ty(b["locals"][i]["ty"])["s"] == ty]
    if len(out) <= n: raise Finding("%s takes no %s" % (key, ty))
    return out[n]
def compressions(p): return {k: v for k, v in ((n, p.adt_ty[n][0]) for n in p.adt_ty) if k.endswith("::CompressionType")}
def created(c, key):
    """[(state, guard, value)] of what a constructor returns"""
    A = Ana(c, find1(c.prog, key), paths=True, setup=pw.setup); out = []
    for s, v in A.outs:
        for g, x in alts(v):
            if x.op == "adt" and x.a[0] == "std::result::Result":
                if x.a[1] == 0: out.append((s, x.a[2][0]))
            else: raise Finding("unrecognised result %s" % sh(x, 3))
    if not out: raise Finding("%s never succeeds" % key)
    return A, out
def same(F, t, want):
    al = [F.N(x) for h, x in F.expand(t)]
    return bool(al) and all(x is F.N(want) for x in al)
def kind(p):
    ks = list(compressions(p))
    if len(ks) != 1: raise Finding("expected one type of compression settings, found %s" % ks)
    return ks[0]

def run_settings(c):
    c.rule("the compression with which each block is encoded, followed back through the writer's fields or its threads' state to the call that created it, is the argument of that call")
    c.rule("the parallel writer hands a block on before it is closed only on paths that established that the ordering buffer holds more elements than the buffer size given, and whenever it does hold more; blocks are limited by the block size given; both numbers are followed through the state of the threads that use them to the arguments of the constructor")
    c.rule("a parallel pass uses a pool of as many threads as the caller asked for")
    c.guard("sequential", sequential, c)
    c.guard("parallel", parallel, c)
    c.guard("tasks", tasks, c)

def sequential(c):
    p = c.prog; ty = kind(p); ctors = []
    for fn_ in ("from_file_info", "new"):
        key = find1(p, WR + fn_)
        A, outs = created(c, WR + fn_)
        ctors += [(fn_, A, s, W, param(p, key, ty)) for s, W in outs]
    for fn_ in ("write_header", "write_file_block", "write_element", "write_elements", "close"):
        A = Ana(c, find1(p, WR + fn_), setup=pw.setup); D = mk("deref", A.args[0]); n = 0
        for ev in A.events("serialize"):
            n += 1
            for name, A2, s, W, want in ctors:
                got = rewrite(A.F.N(ev["args"][1]), {D: deref_all(A2.e, s, W)}.get)
                c.ob("sequential.%s.%s" % (fn_, name), same(A2.F, got, want), "%s of a writer created by %s encodes with %s, expected the compression it was created with" % (fn_, name, sh(got, 3)))
        c.ob("sequential.%s" % fn_, n >= 1, "%s encodes no block" % fn_)

class Wired:
    """terms of code that runs on the threads of a pool, in terms of the constructor's arguments"""
    def __init__(self, m, T): self.m = m; self.T = T; self.D = None
    def value(self, pool, t, D=None):
        def one(x):
            if x.op != "static" or not isinstance(x.a[0], str): return None
            n = x.a[0][4:] if x.a[0].startswith("tls:") else x.a[0]
            if n not in self.m.tls or n == self.m.buf: return None
            v = self.T.wire.get((pool, n))
            if v is None: v = self.m.tls[n][1] if self.m.p.ty(self.m.tls[n][0])["s"] in ("usize", "u32", "u64", "i32", "i64", "isize") or self.m.p.ty(self.m.tls[n][0])["s"].endswith("CompressionType>") else None
            return v
        return self.T.A.F.N(rewrite(t, one))

def above(F, lits, size, totals):
    """(more elements wait than the size, at most as many wait) according to the literals"""
    more = most = False
    for t, k, p in lits:
        yes = (k is True or k == 1) == bool(p)
        if t.op == "discr" and t.a[0].op == "bin" and t.a[0].a[0] == "Cmp" and k in (-1, 1):      # the result of a comparison
            t = mk("bin", "Lt", *(t.a[0].a[1:] if k == -1 else t.a[0].a[:0:-1])); yes = bool(p)
        if t.op == "has": d = padd({(F.N(mk("len", t.a[0])),): 1}, F.poly(t.a[1]), -1); o = "Lt"      # i < len
        elif t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            o, a, b = t.a
            if o in ("Gt", "Ge"): a, b = b, a; o = {"Gt": "Lt", "Ge": "Le"}[o]
            d = padd(F.poly(b), F.poly(a), -1)              # a < b: d >= 1;  a <= b: d >= 0
        else: continue
        d = joined(F, d)
        d, low = (d, 1 if o == "Lt" else 0) if yes else (neg(d), 0 if o == "Lt" else 1)
        for tot in totals:
            x = padd(tot, {(size,): 1}, -1)                 # how many more wait than the size
            r = padd(x, d, -1)
            if not set(r) - {()} and low + r.get((), 0) >= 1: more = True
            r = padd(x, d, 1)
            if not set(r) - {()} and low - r.get((), 0) >= 0: most = True
    return more, most
def joined(F, d):
    """lengths of joined collections are the sums of their parts' """
    for m in list(d):
        if len(m) == 1 and m[0].op == "len" and m[0].a[0].op == "cat":
            k = d[m]; d = {q: c for q, c in d.items() if q != m}
            for x in m[0].a[0].a[:2]: d = padd(d, F.poly(F.N(mk("len", x))), k)
            return joined(F, d)
    return d
def neg(d): return {m: -k for m, k in d.items()}

def parallel(c):
    p = c.prog; ty = kind(p)
    m = pw.PWModel(c); T, st = pw.stages(c, m); R = Wired(m, T)
    key = T.A.key
    size, block = param(p, key, "usize", 0), param(p, key, "usize", 1)
    comp = param(p, key, ty)
    # compression of the data blocks
    n = 0
    for pool, cmds in st:
        for name in cmds:
            X = pw.Exec(c, name)
            for ev in X.A.events("serialize"):
                n += 1; got = R.value(pool, X.F.N(ev["args"][1]))
                c.ob("compression.%s" % name.split("::")[-1], same(T.A.F, got, comp), "%s encodes with %s, expected the compression the writer was created with" % (name.split("::")[-1], sh(got, 4)))
    c.ob("compression", n >= 1, "no block is encoded by the threads of the parallel writer")
    # compression of the header
    A = Ana(c, find1(p, PWR + "write_header"), setup=pw.setup); D = mk("deref", A.args[0]); n = 0
    W = deref_all(T.A.e, T.s, T.W)
    for s, v in A.outs:
        for ev in trace(s):
            if ev.a[0] != "in_all_threads": continue
            mark = len(A.e.log); run_callable(A, s, ev.a[2][1])
            for e in A.e.log[mark:]:
                if e["kind"] != "serialize": continue
                n += 1; got = T.A.F.N(rewrite(A.F.N(e["args"][1]), {D: W}.get))
                c.ob("compression.header", same(T.A.F, got, comp), "the header is encoded with %s, expected the compression the writer was created with" % sh(got, 4))
    c.ob("compression.header.written", n >= 1, "the parallel writer writes no header")
    # the ordering buffer and the size of blocks
    pool, cmds = st[0]; nb = 0
    for name in cmds:
        X = pw.Exec(c, name); F = X.F; tag = name.split("::")[-1]; root = pw.tkey(m.buf)
        base = m.tterm(m.buf)
        lb = F.N(mk("len", base))
        totals = [padd({(lb,): 1}, carried(m, X), 1)]
        totals += [{(F.N(mk("len", ph)),): 1} for ph, i in F.e.phis.items() if i["root"] == root and F.N(i["init"]) is F.N(base) and grows(F, ph, i)]
        for ph, i in F.e.phis.items():            # a loop that hands blocks on
            if i["root"] == root and all(F.poly(mk("len", y)) in totals for h, y in F.expand(i["init"])): totals.append({(F.N(mk("len", ph)),): 1})
        def facts(pc):
            def one(g): return above(F, [(R.value(pool, t), k, q) for t, k, q in g if t.op in ("bin", "has", "discr")], size, totals)
            r = one(F.NG(pc))
            if any(r): return [r]
            return [one(F.NG(d)) for d in I.dnf(F.NG(pc))]
        k = 0
        for ev in X.A.events("submit"):
            k += 1; fs = facts(ev["pc"])
            c.ob("buffer.%s" % tag, all(f[0] for f in fs), "%s hands a block on without having established that more elements wait than the buffer size given" % tag)
        c.ob("buffer.%s.cuts" % tag, k >= 1, "%s never cuts a block" % tag)
        for s, v in X.A.outs:
            for g, r in alts(v):
                if r.op == "adt" and r.a[1] == 1: continue
                if plain_cut(s.mem.get(("TRACE",), EMPTY)): continue
                fs = facts(s.pc | g)
                c.ob("buffer.%s.kept" % tag, all(f[1] for f in fs), "%s keeps all elements back although more may wait than the buffer size given" % tag)
        nb += limits(c, m, R, pool, tag, F, X.A.events("submit"), block)
    A = Ana(c, find1(p, PWR + "close"), setup=pw.setup)
    for s, v in A.outs[:1]:
        for ev in A.events("in_all_threads"):
            mark = len(A.e.log); run_callable(A, s, ev["args"][1])
            sub = [e for e in A.e.log[mark:] if e["kind"] == "submit"]
            if sub: nb += limits(c, m, R, pool, "closing", A.F, sub, block)
    c.ob("blocks", nb >= 2, "only %d places cut blocks" % nb)

def grows(F, ph, i):
    """every step appends one item"""
    return all(y.op == "push" and y.a[0] is ph for t in i["step"] for h, y in F.expand(t))
def carried(m, X):
    """how many elements a command carries, as a polynomial"""
    F = X.F; n = {}
    for tok in pw.content(m.p, pw.mkcons(m, F), X.ty, X.D):
        n = padd(n, {(): 1} if tok[0] == "item" else {(F.N(mk("len", tok[1])),): 1}, 1)
    return n

def plain_cut(t):
    """a block was handed on for certain"""
    if t.op == "push": return t.a[1].op == "ev" and t.a[1].a[0] == "submit" or plain_cut(t.a[0])
    if t.op == "cat": return plain_cut(t.a[0]) or plain_cut(t.a[1])
    if t.op == "sel": return all(plain_cut(x) for h, x in t.a[0])
    return False

def limits(c, m, R, pool, tag, F, subs, block):
    """the number that bounds a block is the block size given"""
    p = m.p; seen = set(); n = 0
    for ev in subs:
        for g, x in F.expand(ev["args"][1]):
            for V in [y for y in walk(x) if y.op == "phi" and y in F.e.phis and F.e.phis[y]["init"] is EMPTY]:
                if V in seen: continue
                seen.add(V); i = F.e.phis[V]
                for t in i["step"]:
                    for h, y in F.expand(t):
                        if not (y.op == "push" and y.a[0] is V): continue
                        n += 1
                        rooms = [pw.room(F, V, i, *l) for l in F.NG(h | i.get("steppc", NOG))]
                        ok = any(r is not None and resolve(F, R, pool, r) == {(block,): 1} for r in rooms)
                        c.ob("limit.%s" % tag, ok, "%s: a block is not limited by the block size given" % tag)
    return n
def resolve(F, R, pool, r):
    """a polynomial in terms of the constructor's arguments"""
    out = {}
    for mm, n in r.items():
        q = {(): n}
        for x in mm: q = pmul(q, F.poly(R.value(pool, x)))
        out = padd(out, q)
    return {k: v for k, v in out.items() if v != 0}

def tasks(c):
    p = c.prog; n = 0
    for key in instances(p, PFE):
        A = Ana(c, key, setup=pw.setup); want = param(p, key, "usize")
        for ev in A.events("pool_build"):
            n += 1; got = setting(A, ev["args"][0], "with_tasks")
            c.ob("tasks", got is not None and same(A.F, got, want), "a parallel pass over a file uses %s threads, expected as many as asked for" % ("a default number of" if got is None else sh(got, 3)))
    c.ob("tasks.pool", n >= 1, "a parallel pass over a file builds no pool of threads")
def setting(A, x, name):
    while x.op in ("poolcfg", "deref", "ref"):
        if x.op == "deref": x = x.a[0]; continue
        if x.op == "ref":
            r = x.a[0]
            if r[0] not in ("X", "V"): return None
            x = r[1]; continue
        if x.a[1] == name: return x.a[2]
        x = x.a[0]
    return None
