"""A failed read (C18) or write (C17) never goes unnoticed: every operation that can fail is made to fail,
one at a time, in every entry point that contains it; what the entry point returns in that case is decided
by the value flow of its code."""
import re
from rulelib import *

WRITE = re.compile(r"io::Write::|prost::encode|Encoder|File::create|File::modify|fs::write|fs::rename|fs::copy|BufWriter|LineWriter")
READ = re.compile(r"io::Read::|io::BufRead::|io::Seek::|prost::decode|Decoder|File::open|File::metadata|fs::read|fs::metadata|text_file_sort|BtreeIndex::get|BtreeIndex::range")
CLEANUP = re.compile(r"fs::remove_")

def is_own(k): return (k.startswith("osm_io::osm::") or k.startswith("<osm_io::osm::")) and "::tests::" not in k and "{closure" not in k
def self_type(k):
    m = re.match(r"<?(osm_io::osm::[\w:]+?)(?: as .*)?>?::\w+$", k.replace("{impl#", "{")) if k.startswith("<") else re.match(r"(osm_io::osm::[\w:]+)::\w+$", k)
    return m.group(1) if m else None

def calls_of(p):
    """function -> functions of the crate it calls directly (closures count separately)"""
    out = {}
    for k, b in p.bodies.items():
        if "body" not in b: continue
        out[k] = {ci["inst"] for ci in b["calls"].values() if ci.get("inst") in p.bodies}
        out[k] |= {x for x in fn_values(p, b["body"]["blocks"]) if x in p.bodies}
    return out
def fn_values(p, x):
    """functions that a constant in the code names"""
    if isinstance(x, dict):
        c = x.get("const_")
        if isinstance(c, dict) and isinstance(c.get("ty"), int):
            t = p.ty(c["ty"])
            if t["k"] == "fndef" and t.get("inst"): yield t["inst"]
        for y in x.values(): yield from fn_values(p, y)
    elif isinstance(x, list):
        for y in x: yield from fn_values(p, y)

def roots(p):
    ks = [k for k in sorted(p.bodies) if is_own(k) and p.bodies[k].get("body")]
    ks = [k for k in ks if not re.search(r" as std::(fmt::|ops::Drop|clone|cmp|hash|default)", k)]
    return ks

def entries(p):
    """what users (and the threads of a pool) call; and what is called through a trait"""
    calls = calls_of(p); called = set()
    for k, xs in calls.items():
        if not (k.startswith("osm_io::") or k.startswith("<osm_io::")): continue
        called |= {x for x in xs if x != k}
    return [k for k in roots(p) if p.bodies[k]["def"] in p.public or k.endswith("::execute") or " as " in k and k not in called]

class Root:
    def __init__(self, c, k):
        self.k = k; self.worker_panics = []
        self.worker = k.endswith("command_executor::command::Command>::execute")
        def st(A):
            e = A.e
            e.fault_site = lambda e, cc, n: not CLEANUP.search(n); e.onefault = True
            e.intercepts["command_executor::thread_pool::ThreadPool::in_all_threads"] = self.everywhere
        A = self.A = Ana(c, k, setup=st)
        self.sites = {}
        for h in A.e.fault_hits: self.sites["fault|" + "|".join(map(str, h))] = h
        self.out = {t: set() for t in self.sites}; self.ends = {t: [] for t in self.sites}
        F = A.F
        for s, v in A.outs:
            fs = [q for q in s.part if q.startswith("fault|")]
            if not fs: continue
            for g, x in heads(v):
                if contradicts(g, s.pc) or not I.feasible(F.NG(g | s.pc)): continue
                kd = kind(x)
                for q in fs:
                    self.out.setdefault(q, set()).add(kd)
                    if kd != "error": self.ends.setdefault(q, []).append((s, x))
        for pn in A.e.panics:
            for z in pn[4]:
                if z.startswith("fault|"): self.out.setdefault(z, set()).add("panic")
        for pn in self.worker_panics:
            for z in pn[4]:
                if z.startswith("fault|"): self.out.setdefault(z, set()).add("worker panic")
    def everywhere(self, e, st, cc):
        """the function runs on the threads of the pool before the call returns"""
        n = len(e.panics)
        st = st.copy(); e.event(st, "in_all_threads", cc, cc.args[0], cc.args[1])
        res = e.call_value(st, cc.args[1], [], cc)
        self.worker_panics += e.panics[n:]
        return [(s, UNIT) for s, v in res]
def heads(v, d=2):
    """[(guard, value)]: choices are resolved only as deep as the kind of the outcome needs"""
    if v.op == "sel": return [(g | h, x) for g, y in v.a[0] for h, x in heads(y, d) if not contradicts(g, h)]
    if v.op == "adt" and v.a[0] == "std::option::Option" and v.a[1] == 1 and d > 0:
        return [(g, mk("adt", v.a[0], 1, (x,) + tuple(v.a[2][1:]))) for g, x in heads(v.a[2][0], d - 1)]
    return [(NOG, v)]
def kind(x):
    if x.op == "adt" and x.a[0] == "std::result::Result": return "error" if x.a[1] == 1 else "success"
    if x.op == "adt" and x.a[0] == "std::option::Option":
        if x.a[1] == 1 and kind(x.a[2][0]) == "error": return "error"
        return "end" if x.a[1] == 0 else "a value"
    return "a value"

def remembers(c, R, s):
    """a method of the same object returns the error afterwards"""
    p = c.prog; ty = self_type(R.k)
    if ty is None: return None
    for k in p.bodies:
        if not (is_own(k) and self_type(k) == ty and k != R.k and p.bodies[k].get("body")): continue
        b = p.bodies[k]["body"]
        if b["arg_count"] != 1 or not p.tys(b["locals"][0]["ty"]).startswith("std::result::Result<()"): continue
        outs = run_callable_fn(R.A, s, k)
        if outs and all(kind(x) == "error" for s2, v in outs for g, x in heads(v) if I.feasible(R.A.F.NG(g | s2.pc))): return k
    return None
def run_callable_fn(A, s, k):
    e = A.e
    fs, e.fault_site = e.fault_site, None
    try: return e.run_fn(k, [A.args[0]], s.copy(), e.ctx(None, "remembered", k))
    finally: e.fault_site = fs

def short(k): return re.sub(r"osm_io::osm::|command_executor::command::|std::iter::", "", k)

def analyse(c, want_write):
    p = c.prog
    ks = roots(p); ent = set(entries(p))
    n = nr = 0
    rs = []; writers = set(); readers = set()
    for k in ks:
        def collect(k=k):
            R = Root(c, k)
            R.w = any(WRITE.search(h[2]) for h in R.sites.values())
            R.r = any(READ.search(h[2]) for h in R.sites.values())
            if self_type(k):
                if R.w: writers.add(self_type(k))
                if R.r: readers.add(self_type(k))
            rs.append(R)
        c.guard("root." + short(k), collect)
    seen = {(h[0], h[2]) for R in rs if R.k in ent for h in R.sites.values()}
    for R in rs:
        k = R.k; ty = self_type(k)
        w = R.w or (not R.r and ty in writers); r = R.r or (not R.w and ty not in writers) or (not R.w and ty in readers)
        def mine(h, w=w, r=r):
            """the other operations (threads, directories, indexes) belong to what the entry point or its object does"""
            if WRITE.search(h[2]): return want_write
            if READ.search(h[2]): return not want_write
            return w if want_write else r
        # inside the crate, only what no entry point reaches is judged by itself
        sites = {t: h for t, h in R.sites.items() if mine(h) and (k in ent or (h[0], h[2]) not in seen)}
        if want_write:
            for ev in R.A.events("write_partial"):
                c.ob("whole.%s" % short(k), False, "%s: a write may store only a part of the data and still report success" % short(k))
        if not sites: continue
        def one(R=R, k=k, sites=sites):
            nonlocal n, nr
            nr += 1
            for t, h in sorted(sites.items()):
                n += 1
                o = R.out.get(t, set())
                key = "%s/%s/%s" % (short(k), short(h[0]), h[2])
                bad = o - {"error", "panic"}
                if bad == {"end"} and R.ends.get(t) and all(remembers(c, R, s) for s, x in R.ends[t]): bad = set()
                c.ob("noticed." + key, not bad, "%s: when %s fails in %s, the result is %s" % (short(k), h[2], short(h[0]), " or ".join(sorted(bad))))
                c.ob("alive." + key, not (R.worker and "panic" in o), "%s: when %s fails in %s, the thread of the pool dies by a panic: later calls block for ever" % (short(k), h[2], short(h[0])))
                c.ob("outcome." + key, bool(o), "%s: nothing is known about the outcome when %s fails in %s" % (short(k), h[2], short(h[0])))
        c.guard("root." + short(k), one)
    c.metrics["entry_points"] = nr; c.metrics["failing_operations"] = n
    return n
def run_writes(c):
    c.rule("every operation that creates, encodes, compresses, writes or flushes output, or starts or joins a thread pool, is made to fail, one at a time, in every entry point of the crate that contains it: the entry point returns an error or panics, it never returns success")
    c.rule("work handed to a thread pool returns the error to the pool instead of panicking on its thread")
    analyse(c, True)
def run_reads(c):
    c.rule("every operation that opens, seeks, reads, decompresses, decodes or sorts input is made to fail, one at a time, in every entry point of the crate that contains it: the entry point returns an error or panics (an iterator may end when the same object keeps the error and returns it), it never returns success, a value or a normal end")
    c.rule("work handed to a thread pool returns the error to the pool instead of panicking on its thread")
    analyse(c, False)
