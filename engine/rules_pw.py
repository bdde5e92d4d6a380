"""ParallelWriter: conservation of elements (C14), block order (C13), order guard (C15)."""
import os
from rulelib import *
from seqs import Cons
from rules_pbf import pieces, written_roots, be_len, final_self, restrict, walk
from rules_write import FILEBLOCK, VEC_EL, cut_serialize, block_elements, trace, serializers
import itertools

PW = "osm_io::osm::pbf::parallel_writer::ParallelWriter"
SEQS = ("std::vec::Vec<%s>" % ELEMENT, "std::collections::VecDeque<%s>" % ELEMENT)
WRAP = ("std::sync::Mutex", "std::cell::RefCell", "std::sync::Arc", "std::boxed::Box", "std::cell::Cell", "std::sync::RwLock", "std::rc::Rc")

def tls_table(p):
    """{thread local path: (type of its content, initial value or None)}"""
    out = {}
    e = make_engine(p)
    for s in p.statics:
        if "::__RUST_STD_INTERNAL_VAL" not in s["name"]: continue
        path = s["name"].split("::{constant#0}")[0]
        def inner(ty, v):
            t = p.ty(ty)
            if t.get("adt") in ("std::cell::RefCell", "std::cell::Cell"):
                x = v.a[2][-1] if v is not None and v.op == "adt" and t["adt"].endswith("RefCell") else (v.a[2][0] if v is not None and v.op == "adt" else None)
                if x is not None: x = x.a[2][0] if x.op == "adt" and x.a[2] else None
                return t["args"][0], x
            for a in t.get("args") or []:
                if p.ty(a)["k"] != "adt": continue
                w = v
                if w is not None:
                    while w is not None and w.op == "adt" and not w.a[0].endswith("RefCell") and not w.a[0].endswith("cell::Cell"): w = w.a[2][0] if w.a[2] else None
                r = inner(a, w)
                if r: return r
            return None
        v = e.decode(s["alloc"], 0, s["ty"]) if s["alloc"] else None
        r = inner(s["ty"], v)
        if r is None: continue
        ty, x = r
        lazy = [k for k in p.bodies if k.startswith(path + "::__rust_std_internal_init_fn") and "body" in p.bodies[k]]
        if lazy:
            outs = make_engine(p)
            try:
                o = outs.run_fn(lazy[0], [], State(), outs.ctx(None, "root", lazy[0]))
                x = o[0][1] if len(o) == 1 else None
            except Exception: x = None
        if path not in out or out[path][1] is None: out[path] = (ty, x)
    return out

def tkey(path): return ("S", "tls:" + path)

def cut_cmp(A):
    """element comparison as one step (its meaning is decided by C16)"""
    def f(e, st, cc): return fn("ecmp", *[deref_all(e, st, a, 3) for a in cc.args])
    for k in A.p.find("<%s as std::cmp::Ord>::cmp" % ELEMENT): A.e.intercepts[k] = f

def setup(A): cut_cmp(A); cut_serialize(A); A.e.orpc = True
def setup_works(A): setup(A); A.e.nofail = True          # what happens when nothing fails (failures: C17)

def content(p, K, tyid, v, d=6):
    """tokens of the elements held by a value of the given type"""
    t = p.ty(tyid)
    if t["s"] == ELEMENT: return [("item", v)]
    if t["s"] in SEQS: return K.toks(v)
    if d == 0 or t["k"] not in ("adt", "tuple"): return []
    if t["k"] == "tuple":
        return [x for i, e in enumerate(t["elems"]) for x in content(p, K, e, I.proj_fld(v, 0, i, str(i)), d - 1)]
    if t["adt"] in WRAP: return content(p, K, t["args"][0], v, d - 1)
    if t["adt"] == "std::option::Option":
        if not holds_elements(p, t["args"][0]): return []
        if v.op == "adt": return content(p, K, t["args"][0], v.a[2][0], d - 1) if v.a[1] == 1 else []
        return content(p, K, t["args"][0], some(v), d - 1)
    if t["adt"].startswith("std::") or len(t.get("variants") or []) != 1: return []
    out = []
    for i, f in enumerate(t["variants"][0]["fields"]):
        if holds_elements(p, f[1]): out += content(p, K, f[1], I.proj_fld(v, 0, i, f[0]), d - 1)
    return out
def holds_elements(p, tyid, d=6):
    t = p.ty(tyid)
    if t["s"] == ELEMENT or t["s"] in SEQS: return True
    if d == 0: return False
    if t["k"] == "tuple": return any(holds_elements(p, e, d - 1) for e in t["elems"])
    if t["k"] != "adt": return False
    if t["adt"] in WRAP or t["adt"] == "std::option::Option": return holds_elements(p, t["args"][0], d - 1)
    if t["adt"].startswith("std::") or len(t.get("variants") or []) != 1: return False
    return any(holds_elements(p, f[1], d - 1) for f in t["variants"][0]["fields"])

def fields_of(p, tyid, v, want, d=5):
    """values of the fields (structs, Mutex) of type `want`"""
    t = p.ty(tyid)
    if t["s"] == want: return [v]
    if d == 0 or t["k"] != "adt": return []
    if t["adt"] in WRAP: return fields_of(p, t["args"][0], v, want, d - 1)
    if t["adt"].startswith("std::") or len(t.get("variants") or []) != 1: return []
    return [x for i, f in enumerate(t["variants"][0]["fields"]) for x in fields_of(p, f[1], I.proj_fld(v, 0, i, f[0]), want, d - 1)]

def cmd_type(p, v):
    if v.op != "adt" or v.a[0] not in p.adt_ty: raise Finding("a submitted command is not recognised: %s" % sh(v, 3))
    return p.adt_ty[v.a[0]][0]
def execute_of(p, name): return find1(p, "<%s as command_executor::command::Command>::execute" % name)

class Exec:
    """one analysis of a command's execute"""
    def __init__(self, c, name, paths=True):
        p = c.prog
        self.name = name; self.key = execute_of(p, name); self.ty = p.adt_ty[name][0]
        self.A = Ana(c, self.key, paths=paths, setup=setup_works); self.F = self.A.F
        self.D = mk("deref", self.A.args[0])
    def self2(self, s): return final_self(self.A, s)

def submits(ts):
    return [x for x in ts if x.a[0] == "submit"]

class PWModel:
    def __init__(self, c):
        p = c.prog; self.c = c; self.p = p
        self.tls = tls_table(p)
        if len(self.tls) < 4: raise Finding("thread local state of the parallel writer not found")
        self.buffers = [k for k, (ty, v) in self.tls.items() if p.ty(ty)["s"] in SEQS and "parallel_writer" in k]
        if len(self.buffers) != 1: raise Finding("expected one thread local element buffer, found %s" % self.buffers)
        self.buf = self.buffers[0]
    def tterm(self, path):
        e = make_engine(self.p)
        return e.default(tkey(path))

def expand_ev_for(m, K, bad):
    """tokens of submitted commands: the elements they carry"""
    def f(ev):
        if ev.a[0] != "submit": return []
        cmd = ev.a[2][1]
        try: ty = cmd_type(m.p, cmd)
        except Finding as x: bad.append(str(x)); return [("seq", cmd)]
        return content(m.p, K, ty, cmd)
    return f
def mkcons(m, F):
    bad = []
    K = Cons(F)
    K.expand_ev = expand_ev_for(m, K, bad); K.bad = bad
    return K

def entries(c, m):
    """commands submitted by the public write calls: {command type: [public function]}"""
    p = m.p; out = {}
    for fnn, kind in (("write_element", "item"), ("write_elements", "seq")):
        A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::" + fnn), setup=setup)
        K = mkcons(m, A.F)
        n = 0
        for s, v in A.outs:
            for g, (t, r) in K.alts_of([s.mem.get(("TRACE",), EMPTY), v], s.pc):
                if r.op == "adt" and r.a[1] == 1: continue
                n += 1
                got = K.reduce(K.flat([t], g)); want = [(kind, A.args[1])]
                c.ob("enqueue." + fnn, got == want or not got and K.is_empty(want[0], A.F.NG(g)), "%s returns success having handed over %s" % (fnn, K.show(got)))
                for ev in walk(t):
                    if ev.op == "ev" and ev.a[0] == "submit":
                        ty = ev.a[2][1]
                        if ty.op == "adt": out.setdefault(ty.a[0], []).append((fnn, ev.a[2][0]))
        for ph, i in A.e.phis.items():
            for t in i["step"]:
                for ev in walk(t):
                    if ev.op == "ev" and ev.a[0] == "submit" and ev.a[2][1].op == "adt": out.setdefault(ev.a[2][1].a[0], []).append((fnn, ev.a[2][0]))
        c.ob("enqueue.%s.returns" % fnn, n >= 1, "%s never returns success" % fnn)
    return out

def conserve(c, m, tag, F, outs, before, self_after=None, want_empty=False):
    """on every path: events ++ buffer == before (possibly sorted); returns the expanded final alternatives"""
    K = mkcons(m, F)
    res = []
    for s, v in outs:
        tr = s.mem.get(("TRACE",), EMPTY); bf = s.mem.get(tkey(m.buf)) or m.tterm(m.buf)
        for g, (t, b, r) in K.alts_of([tr, bf, v], s.pc):
            if r.op == "adt" and r.a[0] == "std::result::Result" and r.a[1] == 1: continue
            K.under(g)
            sub = K.flat([t], g); rest = K.flat([b], g)
            if self_after: rest = rest + self_after(s, g, K)
            want = K.norm(before(K)); okk = False; tot = n = None
            for vv in K.variants([t, b], g):
                r2 = K.reduce(vv + (self_after(s, g, K) if self_after else []))
                n2 = K.norm(r2)
                o2 = n2 == want or len(n2) == 1 and n2[0][0] == "sorted" and K.norm(list(n2[0][1])) == want
                if tot is None or o2: tot = r2; n = n2
                if o2: okk = True; break
            c.ob("conserve." + tag, okk, "%s: elements handed on plus elements kept are %s, expected exactly %s" % (tag, K.show(tot), K.show(before(K))))
            if sub: c.ob("sorted." + tag, len(n) == 1 and n[0][0] == "sorted" or any(x[0] == "sorted" for x in n), "%s: a block is cut from elements that were not sorted: %s" % (tag, K.show(tot)))
            if want_empty: c.ob("drained." + tag, not K.reduce(rest), "%s: %s stays in the ordering buffer" % (tag, K.show(K.reduce(rest))))
            res.append((s, g, t, b, K))
    for b in K.bad: c.fail("command." + tag, b)
    c.metrics["loop_invariant_steps"] = c.metrics.get("loop_invariant_steps", 0) + K.obligations
    return res

def kind_facts(F, g, x, V):
    """the guard says that x has the kind of an element of V, or V is empty"""
    Vn = F.N(V); x = F.N(x)
    def elem_of_V(t): return t.op == "elem" and t.a[0] is Vn
    kx = kv = None
    K = Cons(F)
    if K.is_empty(("phi", V), g): return True
    for t, k, p in g:
        if t.op == "bin" and t.a[0] == "Eq" and bool(k) == bool(p):
            a, b = t.a[1], t.a[2]
            if a.op == "discr" and b.op == "discr":
                l = [a.a[0], b.a[0]]
                if x in l and any(elem_of_V(y) for y in l): return True
        if t.op == "discr" and p:
            if t.a[0] is x: kx = k
            elif elem_of_V(t.a[0]): kv = k
    return kx is not None and kx == kv

def blocks_pure(c, m, tag, F):
    """every sequence submitted as a block holds one kind and at most the configured number of elements"""
    p = m.p
    Vs = {}
    allterms = []
    for ph, i in F.e.phis.items(): allterms += i["step"]
    for ev in F.e.log:
        if ev["kind"] != "submit": continue
        cmd = ev["args"][1]
        for g, x in F.expand(cmd):
            K = Cons(F)
            for tk in content(p, K, cmd_type(p, x), x): Vs.setdefault(tk, x)
    n = 0
    for tk in Vs:
        if tk[0] != "phi":
            c.fail("block." + tag, "%s: a block is made of %s, whose elements are not known to be of one kind" % (tag, tk)); continue
        V = tk[1]; i = F.e.phis[V]; n += 1
        c.ob("block.init." + tag, i["init"] is EMPTY, "%s: a block starts as %s" % (tag, sh(i["init"], 3)))
        for t in i["step"]:
            for g, x in F.expand(t):
                gg = F.NG(g | i.get("steppc", NOG))
                if x is V: continue
                if not (x.op == "push" and x.a[0] is V): c.fail("block." + tag, "%s: a block becomes %s" % (tag, sh(x, 3))); continue
                bad = [d for d in I.dnf(gg) if not kind_facts(F, F.NG(d), x.a[1], V)]
                c.ob("block.kind." + tag, not bad, "%s: an element is added to a block without being of the kind of its first element" % tag)
                c.ob("block.size." + tag, bounded(F, m, V, i, gg), "%s: nothing bounds the number of elements of a block" % tag)
    return n
def room(F, V, i, t, k, p):
    """R such that the literal says that fewer than R elements were added to V (a polynomial), or None"""
    if t.op == "bin" and t.a[0] in ("Lt", "Eq", "Le", "Gt", "Ge", "Ne"):
        o, a, b = t.a; yes = bool(k) == bool(p)
        if o in ("Gt", "Ge"): a, b = b, a; o = {"Gt": "Lt", "Ge": "Le"}[o]
        d = padd(F.poly(b), F.poly(a), -1)
        if o in ("Eq", "Ne"):
            if yes == (o == "Eq"): return None
            ds = [padd(d, {(): 1}, -1), padd({mm: -c for mm, c in d.items()}, {(): 1}, -1)]      # counts step by one from zero
        elif yes: ds = [padd(d, {(): 1}, -1) if o == "Lt" else d]                                  # d >= 0
        else: ds = [padd({mm: -c for mm, c in d.items()}, {(): 0 if o == "Lt" else 1}, -1)]
    elif t.op == "has" and bool(k) == bool(p): ds = [padd(padd({(mk("len", t.a[0]),): 1}, F.poly(t.a[1]), -1), {(): 1}, -1)]
    else: return None
    for d in ds:
        for mm, c in d.items():
            if len(mm) != 1: continue
            x = mm[0]
            if c == -1 and (x.op == "idx" and x.a[0][0] == i["key"] or x.op == "len" and x.a[0] is F.N(V)):
                return padd(padd(d, {mm: 1}), {(): 1})                                            # R - x - 1 >= 0
            ph = F.e.phis.get(x) if x.op == "phi" else None
            if c == 1 and set(d) <= {mm, ()} and d.get((), 0) <= 0 and ph and ph["key"] == i["key"]:  # counts down
                steps = [y for t2 in ph["step"] for h, y in F.expand(t2)]
                if steps and all(padd(F.poly(y), {mm: 1}, -1) == {(): -1} for y in steps):
                    return padd(F.poly(ph["init"]), {(): d.get((), 0) + 1})
    return None
def bounded(F, m, V, i, g):
    """a counter of the loop (or the block's length) is below a thread local limit when an element is added"""
    for t, k, p in g:
        R = room(F, V, i, t, k, p)
        if R is None: continue
        rest = [mm for mm in R if mm]
        if len(rest) == 1 and R[rest[0]] == 1 and len(rest[0]) == 1 and rest[0][0].op == "static" and R.get((), 0) <= 0: return True
    return False


def seq_list(t):
    """events of a plain trace"""
    if t is EMPTY: return []
    if t.op == "push": return seq_list(t.a[0]) + [t.a[1]]
    if t.op == "cat": return seq_list(t.a[0]) + seq_list(t.a[1])
    if t.op == "phi": raise Finding("pools are used inside a loop")
    raise Finding("events are not a plain sequence: %s" % sh(t, 3))

class Topo:
    """pools of a new ParallelWriter, their settings and the thread local values set on them"""
    def __init__(self, c, m):
        p = m.p
        A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::from_file_info"), setup=setup, paths=True)
        self.A = A; res = []
        for s, v in A.outs:
            for g, x in alts(v):
                if x.op == "adt" and x.a[0] == "std::result::Result" and x.a[1] == 0: res.append((s, x.a[2][0]))
        if len(res) != 1: raise Finding("the constructor has %d successful outcomes" % len(res))
        s, W = res[0]
        self.W = W; self.s = s
        self.field = {}
        for i, x in enumerate(W.a[2]):
            y = self.strip(deref_all(A.e, s, self.unarc(x)))
            if self.is_pool(y): self.field[i] = y
        self.wire = {}
        for ev in trace(s):
            if ev.a[0] == "set_tls":
                self.wire[self.strip(ev.a[2][0]), ev.a[2][1].a[0]] = ev.a[2][2]
        self.built = [self.strip(ev.a[2][0]) for ev in trace(s) if ev.a[0] == "pool_build"]
    def unarc(self, x):
        if x.op == "adt" and x.a[0] == "arc": return self.unarc(x.a[2][0])
        return x
    def strip(self, x):
        while True:
            if x.op == "deref": x = x.a[0]
            elif x.op == "adt" and x.a[0] == "arc": x = deref_all(self.A.e, self.s, x.a[2][0])
            elif x.op == "ref": x = self.A.e.load(self.s, x)
            else: return x
    def is_pool(self, x): return x.op in ("poolcfg", "pool")
    def setting(self, pool, name, default):
        x = pool
        while x.op in ("poolcfg", "deref", "ref"):
            if x.op == "deref": x = x.a[0]; continue
            if x.op == "ref":
                r = x.a[0]
                if r[0] in ("X", "V"): x = r[1]
                else: x = self.A.e.load(self.s, x)
                continue
            if x.a[1] == name: return x.a[2]
            x = x.a[0]
        return default
    def tasks(self, pool): return self.setting(pool, "with_tasks", INT(1))
    def mode(self, pool):
        v = self.setting(pool, "with_shutdown_mode", None)
        return v.a[1] if v is not None and v.op == "adt" else 0
    def pool_of(self, term, base):
        """the constructor's pool that a pool term of a method of self denotes"""
        for x in walk(term):
            if x.op == "fld" and x.a[0] is base and x.a[2] in self.field: return self.field[x.a[2]]
        return None
    def next_pool(self, pool, term):
        """pool denoted by a term read from thread local state of the threads of `pool`"""
        for x in walk(term):
            if x.op == "static" and isinstance(x.a[0], str):
                n = x.a[0][4:] if x.a[0].startswith("tls:") else x.a[0]
                v = self.wire.get((pool, n))
                if v is None: continue
                if v.op == "adt" and v.a[0] == "std::option::Option" and v.a[1] == 1: v = v.a[2][0]
                y = self.strip(deref_all(self.A.e, self.s, self.unarc(v)))
                if self.is_pool(y): return y
        return None

def stages(c, m):
    """[(pool, {command types})] in flow order, following submits through thread local wiring"""
    T = Topo(c, m)
    ent = {}
    P0 = set()
    for fnn in ("write_element", "write_elements"):
        A = Ana(c, find1(m.p, "pbf::parallel_writer::ParallelWriter::" + fnn), setup=setup)
        D = mk("deref", A.args[0])
        evs = A.events("submit")
        c.ob("pool." + fnn, len(evs) >= 1, "%s submits nothing" % fnn)
        for ev in evs:
            P0.add(T.pool_of(ev["args"][0], D))
            for g, x in A.F.expand(ev["args"][1]): ent[x.a[0]] = 1
    if len(P0) != 1 or None in P0: raise Finding("elements are handed to %d different pools" % len(P0))
    out = [(next(iter(P0)), sorted(ent))]
    for _ in range(4):
        pool, cmds = out[-1]
        nxt = {}; pools = set()
        for n in cmds:
            X = Exec(c, n)
            for ev in X.A.events("submit"):
                pools.add(T.next_pool(pool, ev["args"][0]))
                for g, x in X.F.expand(ev["args"][1]): nxt[x.a[0]] = 1
        if not nxt: break
        if len(pools) != 1 or None in pools: raise Finding("the pool receiving %s is not wired on every thread that submits to it" % sorted(nxt))
        out.append((next(iter(pools)), sorted(nxt)))
    return T, out

def run_conservation(c):
    p = c.prog
    c.rule("every element handed to the parallel writer is carried by a submitted command; executing the command moves it into the ordering buffer or a block handed on; loops are proved to move elements without loss, duplication or reordering (inductive step on every path)")
    c.rule("blocks are cut from the front of the sorted buffer, hold one kind of element and at most the configured number; encoding hands exactly the block's bytes on")
    c.rule("closing flushes the ordering buffer completely before that pool is shut down, then waits for each stage before the next one")
    m = PWModel(c)
    ent = entries(c, m)
    c.ob("entries", len(ent) >= 1, "no command is submitted by the write calls")
    T, st = stages(c, m)
    c.ob("stages", len(st) == 3, "elements flow through %d stages" % len(st))
    for name in st[0][1]:
        def one(name=name):
            X = Exec(c, name)
            tag = name.split("::")[-1]
            def before(K): return [("seq", m.tterm(m.buf))] + content(p, K, X.ty, X.D)
            conserve(c, m, tag, X.F, X.A.outs, before)
            blocks_pure(c, m, tag, X.F)
        c.guard("stage." + name.split("::")[-1], one)
    c.guard("close", close_drain, c, m, T, st)
    for name in st[1][1] if len(st) > 1 else []:
        c.guard("encode." + name.split("::")[-1], encode_stage, c, m, name)
    for i, (pool, cmds) in enumerate(st):
        c.ob("pending.%d" % i, T.mode(pool) == 1, "stage %d drops commands that are still queued when it is shut down" % i)

def close_drain(c, m, T, st):
    p = m.p
    A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::close"), setup=setup)
    K = mkcons(m, A.F)
    D = mk("deref", A.args[0])
    flow = [pool for pool, cmds in st]
    n = 0
    for s, v in A.outs:
        for g, (t, r) in K.alts_of([s.mem.get(("TRACE",), EMPTY), v], s.pc):
            if r.op == "adt" and r.a[1] == 1: continue
            n += 1
            seq = [(ev.a[0], T.pool_of(ev.a[2][0], D), ev) for ev in seq_list(t) if ev.a[0] in ("in_all_threads", "shutdown", "join")]
            names = [x[0] + ":" + str(flow.index(x[1]) if x[1] in flow else "?") for x in seq]
            at = lambda kind, q: [i for i, x in enumerate(seq) if x[0] == kind and x[1] is q]
            for i, q in enumerate(flow):
                c.ob("close.wait.%d" % i, at("shutdown", q) and at("join", q) and min(at("shutdown", q)) < max(at("join", q)), "closing returns without shutting down and waiting for stage %d: %s" % (i, names))
                if i and at("shutdown", q) and at("join", flow[i - 1]):
                    c.ob("close.order.%d" % i, min(at("shutdown", q)) > min(at("join", flow[i - 1])), "stage %d is shut down before stage %d has finished: %s" % (i, i - 1, names))
            fl = [i for i in at("in_all_threads", flow[0]) if at("shutdown", flow[0]) and i < min(at("shutdown", flow[0]))]
            ok = False
            for i in fl:
                f = seq[i][2].a[2][1]
                outs = run_callable(A, s, f)
                def before(K): return [("seq", m.tterm(m.buf))]
                if outs: conserve(c, m, "flush", A.F, outs, before, want_empty=True); ok = True
            c.ob("close.flush", ok, "closing does not flush the ordering buffer on the pool that fills it before shutting that pool down: %s" % names)
    blocks_pure(c, m, "flush", A.F)
    c.ob("close.returns", n >= 1, "close never returns success")

def encode_stage(c, m, name):
    p = m.p
    X = Exec(c, name, paths=True); tag = name.split("::")[-1]
    K = mkcons(m, X.F)
    want = K.norm(content(p, K, X.ty, X.D)); n = 0
    for s, v in X.A.outs:
        for g, r in alts(v):
            if r.op == "adt" and r.a[1] == 1: continue
            n += 1
            ser = [ev for ev in trace(s) if ev.a[0] == "serialize"]
            sub = submits(trace(s))
            if not c.ob("encode.once", len(ser) == 1 and len(sub) == 1, "%s succeeds having encoded %d blocks and handed on %d" % (tag, len(ser), len(sub))): continue
            blk = [b for b in ser[0].a[2] if b.op == "adt" and b.a[0] == FILEBLOCK]
            el = block_elements(p, blk[0]) if blk else "?"
            got = K.norm(K.reduce(K.toks(el))) if isinstance(el, T) else el
            c.ob("encode.elements", got == want, "%s encodes %s, expected the elements it was given" % (tag, got))
            cmd = sub[0].a[2][1]
            by = fields_of(p, cmd_type(p, cmd), cmd, "std::vec::Vec<u8>")
            cx = ser[0].a[1]
            c.ob("encode.bytes", set(by) == {mk("hdr", cx), mk("bdy", cx)} and len(by) == 2, "%s hands on %s, expected the encoded header and body" % (tag, [sh(b, 3) for b in by]))
    c.ob("encode.returns", n >= 1, "%s never succeeds" % tag)

# ------------------------------------------------------------------ C13
def affine(F, t):
    """replace loop counters (phi stepping by one from any start) by start + iteration number"""
    ch = True
    while ch:
        ch = False
        for x in list(walk(t)):
            if x.op != "phi" or x not in F.e.phis: continue
            i = F.e.phis[x]
            tw = twin(F, x, i)
            if tw is not None: t = repl(F, t, x, tw); ch = True; break
            if len(i["step"]) == 1 and F.N(i["step"][0]) is F.N(I.binop1("Add", x, INT(1))) and not any(y is x for y in walk(i["init"])):
                r = I.binop1("Add", i["init"], mk("idx", (i["key"], x.a[3])))
                t = repl(F, t, x, r); ch = True; break
    return F.N(t)
def twin(F, x, i):
    """another value of the same loop that starts equal and is always stepped to the same value"""
    if len(i["step"]) != 1: return None
    for y, j in F.e.phis.items():
        if y is x or j["key"] != i["key"] or y.a[3] != x.a[3] or len(j["step"]) != 1: continue
        if F.N(j["init"]) is F.N(i["init"]) and F.N(j["step"][0]) is F.N(i["step"][0]) and any(z is y for z in walk(j["step"][0])): return y
    return None
def repl(F, t, a, b):
    memo = {}
    def go(x):
        if isinstance(x, T):
            if x is a: return b
            if x in memo: return memo[x]
            if x.op == "phi": r = x
            elif x.op == "bin": r = I.binop1(x.a[0], go(x.a[1]), go(x.a[2]))
            else:
                na = tuple(go(y) for y in x.a)
                r = mk(x.op, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if isinstance(x, frozenset): return frozenset(go(y) for y in x)
        return x
    return go(t)

def run_order(c):
    p = c.prog
    c.rule("the thread that cuts blocks numbers them consecutively: every block handed on carries the current number and the number grows by one per block, on every path and in every loop iteration")
    c.rule("numbers pass through encoding unchanged; the writing thread stores a block under its number, writes exactly the blocks numbered next, next+1, ... that are present, each once and whole, and remembers the first missing number")
    c.rule("both counters start equal, cutting and writing each happen on one thread, and the file starts with the header block")
    m = PWModel(c)
    T, st = stages(c, m)
    c.ob("stages", len(st) == 3, "elements flow through %d stages" % len(st))
    for i in (0, len(st) - 1):
        t = T.tasks(st[i][0])
        c.ob("threads.%d" % i, t is INT(1), "stage %d runs on %s threads, its ordering state is per thread" % (i, sh(t, 3)))
    ctr = {}
    for name in st[0][1]:
        def one(name=name):
            X = Exec(c, name)
            for s, v in X.A.outs: numbering(c, m, name.split("::")[-1], X.F, s, v, ctr)
        c.guard("number." + name.split("::")[-1], one)
    def fl():
        A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::close"), setup=setup)
        D = mk("deref", A.args[0]); k = 0
        s = A.outs[0][0]
        fs = {ev["args"][1] for ev in A.events("in_all_threads") if T.pool_of(ev["args"][0], D) is st[0][0]}
        for f in fs:
            for s2, v in run_callable(A, s, f): numbering(c, m, "flush", A.F, s2, v, ctr); k += 1
        c.ob("flush", k >= 1, "closing does not flush")
    c.guard("number.flush", fl)
    c.ob("one-counter", len(ctr) == 1, "blocks are numbered from %d different counters" % len(ctr))
    nxt = {}
    for name in st[1][1]: c.guard("pass." + name.split("::")[-1], pass_number, c, m, name)
    for name in st[-1][1]: c.guard("write." + name.split("::")[-1], write_stage, c, m, name, nxt)
    c.ob("one-next", len(nxt) == 1, "%d counters decide which block is written next" % len(nxt))
    if len(ctr) == 1 and len(nxt) == 1:
        a = m.tls[next(iter(ctr))][1]; b = m.tls[next(iter(nxt))][1]
        c.ob("same-start", a is not None and a is b, "blocks are numbered from %s but writing starts at %s" % (a and sh(a), b and sh(b)))
    c.guard("header", header_first, c, m, T, st)

def tls_of(t):
    for x in walk(t):
        if x.op == "static" and isinstance(x.a[0], str): return x.a[0][4:] if x.a[0].startswith("tls:") else x.a[0]
    return None

def numbering(c, m, tag, F, s, v, ctr):
    p = m.p
    K = Cons(F)
    # the counters: thread local integers that change
    cand = [path for path, (ty, v0) in m.tls.items() if p.ty(ty)["s"] == "usize"]
    idx_terms = []
    for t in [s.mem.get(("TRACE",), EMPTY)] + [x for i in F.e.phis.values() for x in i["step"]]:
        for ev in walk_deep(t):
            if ev.op == "ev" and ev.a[0] == "submit":
                for g, cmd in F.expand(ev.a[2][1]):
                    n = fields_of(p, cmd_type(p, cmd), cmd, "usize")
                    if len(n) != 1: raise Finding("a block command carries %d numbers" % len(n))
                    idx_terms.append(n[0])
    roots = set()
    for t in idx_terms:
        for x in walk(t):
            if x.op == "phi" and x in F.e.phis and F.e.phis[x]["root"][0] == "S": roots.add(F.e.phis[x]["root"][1][4:])
            n = tls_of(x) if x.op == "static" else None
            if n in cand: roots.add(n)
    if not idx_terms: return
    if len(roots) != 1: raise Finding("block numbers come from %d counters" % len(roots))
    path = next(iter(roots)); ctr[path] = 1
    root = tkey(path)
    fin = s.mem.get(root); fin = fin if fin is not None else m.tterm(path)
    nob = [0]
    def number_of(cmd):
        n = fields_of(p, cmd_type(p, cmd), cmd, "usize")
        return n[0]
    def walk_tr(t, cur, seen):
        """counter value after the trace t, starting from cur at its beginning; checks every number on the way"""
        if t is EMPTY: return cur
        if t.op == "push":
            cur = walk_tr(t.a[0], cur, seen)
            ev = t.a[1]
            if ev.op == "ev" and ev.a[0] == "submit":
                n = number_of(ev.a[2][1]); nob[0] += 1
                c.ob("number.%s" % tag, F.N(n) is F.N(cur), "%s: a block is handed on with number %s where %s is due" % (tag, sh(n, 4), sh(cur, 4)))
                return I.binop1("Add", cur, INT(1))
            return cur
        if t.op == "phi":
            i = F.e.phis[t]
            ip = phi_for(F, t, root)
            if t in seen: return cur_of[t]
            seen = seen | {t}
            # value at the loop head
            if ip is None:
                head = cur; init_i = None
            else:
                head = ip; init_i = F.e.phis[ip]["init"]
            for g, (tt, ii) in K.alts_of([i["init"], init_i if init_i is not None else UNDEF], i.get("initpc", NOG)):
                r = walk_tr(tt, cur, seen)
                if ip is not None: c.ob("number.start.%s" % tag, F.N(r) is F.N(ii), "%s: numbering entering a loop is %s, expected %s" % (tag, sh(ii, 4), sh(r, 4)))
                elif F.N(r) is not F.N(cur): head = r
            cur_of[t] = head
            stp = i["step"]
            for x in stp:
                istep = F.e.phis[ip]["step"][0] if ip is not None and F.e.phis[ip]["step"] else head
                for g, (tt, ii) in K.alts_of([x, istep], i.get("steppc", NOG)):
                    r = walk_tr(tt, head, seen)
                    c.ob("number.step.%s" % tag, F.N(r) is F.N(ii), "%s: after an iteration the next number is %s, expected %s" % (tag, sh(ii, 4), sh(r, 4)))
            return head
        raise Finding("events of %s are not a sequence: %s" % (tag, sh(t, 3)))
    cur_of = {}
    for g, (t, f) in K.alts_of([s.mem.get(("TRACE",), EMPTY), fin], s.pc):
        r = walk_tr(t, m.tterm(path), frozenset())
        c.ob("number.final.%s" % tag, F.N(r) is F.N(f), "%s: the next number becomes %s, expected %s" % (tag, sh(f, 4), sh(r, 4)))
    c.metrics["numbered_submits"] = c.metrics.get("numbered_submits", 0) + nob[0]

def phi_for(F, ph, root):
    key = (F.e.phis[ph]["key"], ph.a[3])
    for x, i in F.e.phis.items():
        if (i["key"], x.a[3]) == key and i["root"] == root and i["path"] == (): return x
    return None
def walk_deep(t): return walk(t)

def pass_number(c, m, name):
    p = m.p
    X = Exec(c, name, paths=True); tag = name.split("::")[-1]
    mine = fields_of(p, X.ty, X.D, "usize")
    n = 0
    for s, v in X.A.outs:
        for ev in submits(trace(s)):
            cmd = ev.a[2][1]
            their = fields_of(p, cmd_type(p, cmd), cmd, "usize"); n += 1
            c.ob("pass", len(mine) == 1 and len(their) == 1 and X.F.N(their[0]) is X.F.N(mine[0]), "%s hands its block on as number %s" % (tag, [sh(x, 3) for x in their]))
            by = fields_of(p, cmd_type(p, cmd), cmd, "std::vec::Vec<u8>")
            c.ob("pass.bytes", len(by) == 2 and by[0].op == "hdr" and by[1].op == "bdy" or len(by) == 2 and by[0].op == "bdy" and by[1].op == "hdr", "%s hands on %s" % (tag, [sh(b, 3) for b in by]))
            c.metrics["bytes_order"] = [b.op for b in by]
    c.ob("pass.any", n >= 1, "%s hands nothing on" % tag)

def write_stage(c, m, name, nxt):
    p = m.p
    X = Exec(c, name); F = X.F; tag = name.split("::")[-1]
    K = Cons(F)
    by = fields_of(p, X.ty, X.D, "std::vec::Vec<u8>"); mine = fields_of(p, X.ty, X.D, "usize")
    if len(by) != 2 or len(mine) != 1: raise Finding("the writing command carries %d byte strings and %d numbers" % (len(by), len(mine)))
    order = c.metrics.get("bytes_order") or ["hdr", "bdy"]
    h, b = (by[0], by[1]) if order[0] == "hdr" else (by[1], by[0])
    maps = [k for k, (ty, v) in m.tls.items() if "Map<usize" in p.ty(ty)["s"]]
    if len(maps) != 1: raise Finding("expected one thread local table of blocks, found %s" % maps)
    M = tkey(maps[0])
    c.ob("table.empty", m.tls[maps[0]][1] is EMPTY, "the table of waiting blocks does not start empty")
    mphis = [x for x, i in F.e.phis.items() if i["root"] == M and i["path"] == ()]
    if len(mphis) != 1: raise Finding("the writing stage has %d loops over waiting blocks, expected one" % len(mphis))
    ph = mphis[0]; info = F.e.phis[ph]; key = info["key"]
    # entry: the block is stored under its own number
    for g, x in F.expand(info["init"]):
        ok = x.op == "ins" and F.N(x.a[0]) is F.N(m.tterm(maps[0])) and F.N(x.a[1]) is F.N(mine[0])
        c.ob("store", ok, "a block is stored as %s, expected under its own number" % sh(x, 4))
        val = x.a[2] if x.op == "ins" else UNDEF
    # iteration: the block numbered K is taken out and written
    if len(info["step"]) != 1: raise Finding("the writing loop never continues")
    Ks = set()
    wphis = [x for x, i in F.e.phis.items() if i["key"] == key and i["root"][0] == "S" and i["root"][1].startswith("tls:") and "Writer" in p.ty(m.tls[i["root"][1][4:]][0])["s"]]
    if len(wphis) != 1: raise Finding("blocks are written to %d writers" % len(wphis))
    w = wphis[0]
    for g, (ms, ws) in K.alts_of([info["step"][0], F.e.phis[w]["step"][0]], info.get("steppc", NOG)):
        gg = F.NG(g)
        if not c.ob("take", ms.op == "rem" and ms.a[0] is ph, "an iteration turns the table of waiting blocks into %s" % sh(ms, 4)): continue
        k = ms.a[1]; Ks.add(k)
        has = any(t.op == "haskey" and t.a[0] is F.N(ph) and t.a[1] is F.N(k) and bool(kk) == bool(pp) for t, kk, pp in gg)
        c.ob("present", has, "the loop continues although block %s is not there" % sh(k, 4))
        got = []
        for y, bb in written_roots(ws): got += pieces(y, bb)
        mv = I.proj_key(ph, k)
        comp = {}
        if val.op == "adt":
            for i, x in enumerate(val.a[2]): comp[x] = I.proj_fld(mv, val.a[1], i, str(i))
        hh = pick(F, val, mv, h); bbb = pick(F, val, mv, b)
        ok = hh is not None and bbb is not None and len(got) == 3 and be_len(F, got[0]) is F.N(mk("len", hh)) and F.N(got[1]) is F.N(hh) and F.N(got[2]) is F.N(bbb)
        c.ob("written", ok, "an iteration appends %s to the file, expected the length of the header, the header and the body of the block" % [sh(x, 4) for x in got])
    if len(Ks) != 1: raise Finding("an iteration takes one of %d blocks" % len(Ks))
    k = next(iter(Ks))
    ak = affine(F, k)
    # first number looked at = the remembered next number
    cands = [path for path, (ty, v0) in m.tls.items() if p.ty(ty)["s"] == "usize"]
    base = None
    for path in cands:
        if ak is F.N(I.binop1("Add", m.tterm(path), mk("idx", (key, ph.a[3])))): base = path
    c.ob("consecutive", base is not None, "the numbers written are %s, expected consecutive numbers from the remembered next one" % sh(ak, 5))
    if base is None: return
    nxt[base] = 1
    # exits: block k missing; remembered number becomes k
    ex = F.exits(key)
    lim = 0
    good = []           # when the command succeeds
    for s, v in X.A.outs:
        for h, r in F.expand(v):
            if not (r.op == "adt" and r.a[0] == "std::result::Result" and r.a[1] == 1): good += I.dnf(F.NG(h | s.pc))
    for pc in ex:
        g = F.NG(pc)
        if not any(I.feasible(g | h) for h in good): continue          # the command fails
        miss = any(t.op == "haskey" and t.a[0] is F.N(ph) and affine(F, t.a[1]) is ak and bool(kk) != bool(pp) for t, kk, pp in g)
        cap = any(is_cap(F, t) and bool(kk) != bool(pp) for t, kk, pp in g)
        c.ob("exit", miss or cap, "the loop stops although the next block may be waiting: %s" % [showlit(l, 3) for l in list(g)[:4]])
        lim += miss
    c.ob("exit.missing", lim >= 1, "the loop does not stop at the first missing block")
    for s, v in X.A.outs:
        fin = s.mem.get(tkey(base)); fin = fin if fin is not None else m.tterm(base)
        for g, (f, mt, r) in K.alts_of([fin, s.mem.get(M, m.tterm(maps[0])), v], s.pc):
            if r.op == "adt" and r.a[0] == "std::result::Result" and r.a[1] == 1: continue
            capped = any(is_cap(F, t) and bool(kk) != bool(pp) for t, kk, pp in F.NG(g))
            if capped or not I.feasible(F.NG(g)): continue
            c.ob("remember", affine(F, f) is ak, "the number to write next becomes %s, expected the first missing one %s" % (sh(f, 4), sh(ak, 4)))
            ok = mt is ph or mt.op == "rem" and mt.a[0] is ph and affine(F, mt.a[1]) is ak
            c.ob("keep", ok, "waiting blocks become %s after the loop" % sh(mt, 4))
def is_cap(F, t):
    """`number < largest number` (the end of a counting range; 2^64 blocks are out of reach)"""
    return t.op == "bin" and t.a[0] == "Lt" and F.poly(I.binop1("Sub", t.a[1], t.a[2])).get((), 0) <= -((1 << 63))
def pick(F, val, mv, x):
    """component of the stored value mv that holds x"""
    if F.N(val) is F.N(x): return mv
    if val.op == "adt":
        for i, y in enumerate(val.a[2]):
            r = pick(F, y, I.proj_fld(mv, val.a[1], i, str(i)), x)
            if r is not None: return r
    return None

def header_first(c, m, T, st):
    p = m.p
    A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::write_header"), setup=setup_works)
    D = mk("deref", A.args[0]); n = 0
    wr = [k for k, (ty, v) in m.tls.items() if "pbf::writer::Writer" in p.ty(ty)["s"]]
    if len(wr) != 1: raise Finding("expected one thread local file writer")
    root = tkey(wr[0])
    c.ob("header.none", m.tls[wr[0]][1] is NONE, "the file writer exists before the header was written")
    for s, v in A.outs:
        evs = [ev for ev in trace(s) if ev.a[0] == "in_all_threads"]
        c.ob("header.pool", len(evs) == 1 and T.pool_of(evs[0].a[2][0], D) is st[-1][0], "the header is not written by the threads that write blocks")
        for ev in evs:
            for s2, r in run_callable(A, s, ev.a[2][1]):
                w0 = m.tterm(wr[0])
                K = Cons(A.F)
                for g, x in A.F.expand(s2.mem.get(root, w0)):
                    if contradicts(g, s2.pc): continue
                    if x is w0:
                        none = any(t.op == "discr" and t.a[0] is w0 and (k == 1 and pp or k == 0 and not pp) for t, k, pp in A.F.NG(g | s2.pc))
                        c.ob("header.kept", none, "the file writer may stay missing after writing the header"); continue
                    n += 1
                    none = any(t.op == "discr" and t.a[0] is w0 and (k == 0 and pp or k == 1 and not pp) for t, k, pp in A.F.NG(g | s2.pc))
                    c.ob("header.once", none, "an existing file writer is replaced when the header is written again")
                    if not (x.op == "adt" and x.a[1] == 1): c.fail("header.writer", "the file writer becomes %s" % sh(x, 3)); continue
                    got = []
                    for y, bb in written_roots(x): got += pieces(y, bb)
                    okp = len(got) == 3 and got[1].op == "hdr" and got[2].op == "bdy" and got[1].a[0] == got[2].a[0] and be_len(A.F, got[0]) is A.F.N(mk("len", got[1]))
                    c.ob("header.bytes", okp, "the file starts with %s, expected exactly the header block" % [sh(z, 3) for z in got])
                    ser = [e2 for e2 in A.e.log if e2["kind"] == "serialize"]
                    blk = [q for e2 in ser if okp and e2["ctx"] == got[1].a[0] for q in e2["args"] if q.op == "adt" and q.a[0] == FILEBLOCK]
                    c.ob("header.kind", bool(blk) and all(q.a[1] == vindex(p, FILEBLOCK, "Header") for q in blk), "the first block is not a header block")
    c.ob("header", n >= 1, "writing the header creates no file writer")

# ------------------------------------------------------------------ C15
def run_guard(c):
    p = c.prog
    c.rule("an element enters the ordering buffer only on paths that established it is the end marker, or that no block was cut yet, or that it is not smaller than the remembered last element of the last block; after cutting blocks that element is remembered")
    m = PWModel(c)
    T, st = stages(c, m)
    mins = [k for k, (ty, v) in m.tls.items() if p.ty(ty)["s"] == "std::option::Option<%s>" % ELEMENT]
    if len(mins) != 1: raise Finding("expected one remembered element, found %s" % mins)
    mn = mins[0]; m0 = m.tterm(mn)
    c.ob("none-first", m.tls[mn][1] is NONE, "the remembered element does not start absent")
    n = 0
    for name in st[0][1]:
        def one(name=name):
            X = Exec(c, name); F = X.F; tag = name.split("::")[-1]
            K = mkcons(m, F)
            els = content(p, K, X.ty, X.D)
            cnt = admitted(c, m, X, F, tag, m0)
            c.ob("admits." + tag, cnt >= 1, "%s never admits an element" % tag)
            for s, v in X.A.outs: remembered(c, m, tag, F, s, v, mn)
        c.guard("guard." + name.split("::")[-1], one)
    def fl():
        A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::close"), setup=setup)
        D = mk("deref", A.args[0]); s = A.outs[0][0]
        for f in {ev["args"][1] for ev in A.events("in_all_threads") if T.pool_of(ev["args"][0], D) is st[0][0]}:
            for s2, v in run_callable(A, s, f): remembered(c, m, "flush", A.F, s2, v, mn)
    c.guard("guard.flush", fl)

def admitted(c, m, X, F, tag, m0):
    """every insertion into the ordering buffer happens under the guard"""
    root = tkey(m.buf)
    sites = []
    b0 = m.tterm(m.buf)
    def collect(t, g, seen):
        for h, x in F.expand(t):
            if contradicts(g, h): continue
            while True:
                if x.op == "push" or x.op == "pushf":
                    sites.append((x.a[1], g | h)); x = x.a[0]
                elif x.op == "cat":
                    sites.append((mk("every", x.a[1]), g | h)); x = x.a[0]
                elif x.op == "fn" and x.a[0] in ("sorted", "poprest_f", "poprest_b", "prefix", "suffix"): x = x.a[1][0]
                else: break
            if x.op == "phi" and x in F.e.phis and x not in seen:
                seen.add(x)
                i = F.e.phis[x]
                collect(i["init"], i.get("initpc", NOG), seen)
                for y in i["step"]: collect(y, i.get("steppc", NOG), seen)
    for s, v in X.A.outs:
        if root in s.mem: collect(s.mem[root], s.pc, set())
    n = 0
    for x, g in sites:
        if x.op == "every":
            n += 1
            c.ob("ordered." + tag, looked_at(m, F, F.NG(g), F.N(x.a[0]), m0), "%s adds several elements at once without looking at each" % tag)
            continue
        if own_item(F, x, b0): continue
        n += 1
        bad = [d for d in I.dnf(F.NG(g)) if not in_order(m, F, F.NG(d), x, m0)]
        if bad and os.environ.get("DEN"):
            print("SITE", sh(x,4))
            for l in sorted(bad[0], key=str): print("   ", showlit(l,6))
        c.ob("ordered." + tag, not bad, "%s: an element enters the ordering buffer on a path that does not establish it belongs behind the last block" % tag)
    return n
def own_item(F, x, b0):
    """an element taken from the front of the buffer and put back"""
    return x.op == "elem" and (x.a[1] is INT(0)) and any(y is b0 for z in [x.a[0]] for y in closure_terms(F, z))
def closure_terms(F, t):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y in seen: continue
            seen.add(y)
            if y.op == "phi" and y in F.e.phis:
                i = F.e.phis[y]; todo += [i["init"]] + i["step"]
    return seen
def looked_at(m, F, g, s, m0):
    """a loop that went over all of s went on only behind an element that belongs there"""
    for t, k, p in g:
        if not (t.op == "has" and t.a[0] is s and (k is True) != bool(p) and t.a[1].op == "idx"): continue
        key = t.a[1].a[0][0]; js = [j for j in F.e.phis.values() if j["key"] == key]
        for j in js:
            if all(in_order(m, F, F.NG(d), mk("elem", s, t.a[1]), m0) for d in I.dnf(F.NG(j.get("steppc", NOG)))): return True
    return False
def in_order(m, F, g, x, m0):
    p = m.p
    x = F.N(x); cur = F.N(some(m0))
    sent = vindex(p, ELEMENT, "Sentinel"); rel = {}
    for t, k, pp in g:
        if t.op == "discr" and t.a[0] is m0 and (k == 0 and pp or k == 1 and not pp): return True
        if t.op == "discr" and t.a[0] is x and k == sent and pp: return True
        if t.op == "discr" and t.a[0].op == "fn" and t.a[0].a[0] == "ecmp": rel.setdefault(t.a[0], []).append(("is", k, pp))
        if t.op == "ordtest" and t.a[1].op == "fn" and t.a[1].a[0] == "ecmp": rel.setdefault(t.a[1], []).append(("test", t.a[0].a[0], (k is True) == bool(pp)))
        if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            for y in walk(t):
                if y.op == "fn" and y.a[0] == "ecmp": rel.setdefault(y, []).append(("bin", t, bool(k) == bool(pp)))
    for cm, fs in rel.items():
        a, b = F.N(cm.a[1][0]), F.N(cm.a[1][1])
        if {a, b} != {x, cur}: continue
        poss = []
        for v in (-1, 0, 1):
            okv = True
            for f in fs:
                if f[0] == "is":
                    vv = {255: -1, -1: -1, 0: 0, 1: 1}.get(f[1])
                    if (vv == v) != bool(f[2]): okv = False
                elif f[0] == "test":
                    if {"Lt": v < 0, "Le": v <= 0, "Gt": v > 0, "Ge": v >= 0, "Eq": v == 0, "Ne": v != 0}.get(f[1], f[2]) != f[2]: okv = False
                else:
                    e = ev_bin(F, f[1], cm, v)
                    if e is not None and e != f[2]: okv = False
            if okv: poss.append(v)
        if a is x and -1 not in poss or a is cur and 1 not in poss: return True
    return False
def ev_bin(F, t, cm, v):
    def one(q):
        if q.op == "adt" and q.a[0].endswith("cmp::Ordering"): return q.a[1] - 1
        if q is cm or q.op == "discr" and q.a[0] is cm: return v
        return None
    def pl(q):
        r = one(q)
        return r if r is not None else sum(cc * (1 if mm == () else v if mm in ((cm,), (mk("discr", cm),)) else 10**6) for mm, cc in F.poly(q).items())
    a, b = pl(t.a[1]), pl(t.a[2])
    if abs(a) > 10**5 or abs(b) > 10**5: return None
    return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[t.a[0]]

def remembered(c, m, tag, F, s, v, mn):
    """after the events, the remembered element is the last element of the last non-empty block"""
    p = m.p; K = mkcons(m, F); root = tkey(mn); m0 = m.tterm(mn)
    def last(V): return SOME(mk("elem", V, INT(-1)))
    def walk_tr(t, cur, g, seen):
        if t is EMPTY: return cur
        if t.op == "push":
            cur = walk_tr(t.a[0], cur, g, seen)
            ev = t.a[1]
            if ev.op == "ev" and ev.a[0] == "submit":
                l = content(p, K, cmd_type(p, ev.a[2][1]), ev.a[2][1])
                if len(l) != 1 or l[0][0] not in ("phi", "seq"): raise Finding("a block is made of %s" % K.show(l))
                if K.is_empty(("phi", l[0][1]), F.NG(g)): return cur
                return last(l[0][1])
            return cur
        if t.op == "phi":
            i = F.e.phis[t]
            ip = phi_for(F, t, root)
            head = ip if ip is not None else cur
            for gg, (tt, ii) in K.alts_of([i["init"], F.e.phis[ip]["init"] if ip is not None else cur], i.get("initpc", NOG)):
                r = walk_tr(tt, cur, gg, seen)
                c.ob("remember.start." + tag, F.N(r) is F.N(ii), "%s: entering a loop the remembered element is %s, expected %s" % (tag, sh(ii, 4), sh(r, 4)))
            for x in i["step"]:
                for gg, (tt, ii) in K.alts_of([x, F.e.phis[ip]["step"][0] if ip is not None and F.e.phis[ip]["step"] else head], i.get("steppc", NOG)):
                    if tt is t: continue
                    r = walk_tr(peel_phi(tt, t), head, gg, seen)
                    c.ob("remember.step." + tag, F.N(r) is F.N(ii), "%s: after cutting a block the remembered element is %s, expected %s" % (tag, sh(ii, 4), sh(r, 4)))
            return head
        if t.op == "mark": return cur
        raise Finding("events of %s are not a sequence" % tag)
    fin = s.mem.get(root); fin = fin if fin is not None else m0
    for g, (t, f) in K.alts_of([s.mem.get(("TRACE",), EMPTY), fin], s.pc):
        r = walk_tr(t, m0, g, frozenset())
        c.ob("remember." + tag, F.N(r) is F.N(f), "%s: the remembered element is %s, expected the last element of the last block %s" % (tag, sh(f, 4), sh(r, 4)))
def peel_phi(t, ph):
    if t is ph: return mk("mark")
    if t.op == "push": return mk("push", peel_phi(t.a[0], ph), t.a[1])
    return t
