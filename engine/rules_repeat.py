"""What is read and written depends on the input alone: not on the clock, chance, the environment, addresses or the order of hash collections (C40)."""
import re
from rulelib import *
import rules_pw as pw
import rules_faults as flt
from rules_pbf import walk

SOURCES = re.compile(r"::now(_utc|_local)?$|(^|::)elapsed$|^(rand|getrandom|fastrand|oorandom|nanorand)\w*::|uuid::.*::(new_v[0-9]|now_v[0-9])|^std::env::(var|vars|var_os|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)$"
    r"|^std::thread::(current|available_parallelism)$|Thread::(id|name)$|^std::process::id$|^num_cpus::|^hostname::|::hash_one$|Metadata::(modified|accessed|created|ino|uid|mtime|atime|ctime)$|MetadataExt|addr_of|::expose_provenance|::addr$|^std::hash::Hasher::finish$|std::alloc::")
CLOCK = re.compile(r"::now(_utc|_local)?$|::elapsed$")
ORDERLESS = ("has", "len", "haskey", "holds?", "contains", "subset", "setdiff")
DONE = re.compile(r"io::(Write|Read|Seek|BufRead)::|std::fs::|BtreeIndex|prost::|index_insert|text_file_sort|ThreadPool|^file_|^fs_|^chrono\.")
OUTPUT = {"write": "written", "fs_write": "written", "encode": "encoded", "callf": "handed to the caller", "index_insert": "kept in an index", "set_tls": "given to the threads", "submit": "handed to a thread"}

def source(t):
    """the name of the outside influence a term stands for"""
    if t.op in ("call", "fn") and isinstance(t.a[0], str):
        n = t.a[0].replace(".", "::")
        if SOURCES.search(re.sub(r"::<.*", "", n) if n.endswith(">") else n): return n
    if t.op == "sym" and t.a[0] == "num_cpus": return "the number of processors"
    if t.op == "cast" and any("Expose" in str(x) for x in t.a if not isinstance(x, T)): return "an address"
    if t.op == "fmtarg" and t.a[0] == "pointer": return "an address"
    return None

def inside(x):
    """the terms directly below a term, those in guards and formats included"""
    if isinstance(x, T): yield x
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x: yield from inside(y)

class Taint:
    def __init__(self, F): self.F = F; self.memo = {}
    def parts(self, t, order):
        """what a term depends on"""
        if t.op in ("poolcfg", "fsort"): return []                    # how the work is shared out
        if t.op == "discr" and t.a[0].op in ("call", "fn") and DONE.search(str(t.a[0].a[0])): return []      # whether it succeeded
        if order:
            if t.op in ORDERLESS or t.op == "fn" and (t.a[0] in ORDERLESS or str(t.a[0]).startswith("sort")): return []
            if t.op == "ins": return [t.a[0]]
        out = [y for x in t.a for y in inside(x)]
        if t.op == "phi" and t in self.F.e.phis:
            i = self.F.e.phis[t]
            out += [i["init"]] + list(i["step"]) + [l[0] for l in i.get("steppc", ())]
        return out
    def find(self, roots, order):
        """an outside influence the terms depend on, or None"""
        seen = set(); todo = [x for x in roots if isinstance(x, T)]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            if order:
                if t.op == "fn" and t.a[0] == "unordered": return t
            elif source(t): return t
            todo += self.parts(t, order)
        return None

def name(t): return "the order of a hash collection" if t.op == "fn" and t.a[0] == "unordered" else source(t)

def run_repeat(c):
    c.rule("nothing that is written, encoded, returned, stored in an object or handed to a callback depends, as a value or as a condition, on the clock, random numbers, the process, the environment, addresses, or the order in which a hash collection is passed through; the only exception are the columns of a dump that tell when its users and changesets were listed")
    p = c.prog; n = [0, 0]
    for k in flt.entries(p):
        if "ThreadLocalAccumulator" in k: continue                    # a random name tells accumulators apart (C37)
        def one(k=k): entry(c, k, n)
        c.guard("entry." + flt.short(k), one)
    c.metrics["outputs"] = n[0]
    c.ob("outputs", n[0] >= 100 and n[1] >= 100, "only %d outputs of %d entry points were found" % (n[0], n[1]))
    c.guard("dump", dump, c)

def entry(c, k, n):
    def st(A): A.e.unordered = True
    A = Ana(c, k, setup=st); F = A.F; X = Taint(F); short = flt.short(k); n[1] += 1
    dumped = k.endswith("apidb_dump::write::writer::Writer::close")
    for i, ev in enumerate(A.e.log):
        if ev["kind"] not in OUTPUT: continue
        n[0] += 1
        args = [x for x in ev["args"] if isinstance(x, T)]; pc = [l[0] for l in ev["pc"]]
        own = ev["kind"] in ("write", "index_insert") and args and X.find(args[:2], True) is not None    # every entry has an output of its own
        for order in (False, True):
            if dumped and not order and ev["kind"] == "write": continue        # decided column by column
            if order and (own or ev["kind"] == "index_insert"): continue
            r = X.find(args, order) or X.find(pc, order)
            c.ob("%s.%s/%s" % (short, ev["kind"], flt.short(ev["fn"] or "?")), r is None, "%s: what is %s in %s depends on %s" % (loc(c.prog, k), OUTPUT[ev["kind"]], flt.short(ev["fn"] or "?"), name(r) if r is not None else ""))
    for s, v in A.outs:
        good = []
        for g, x in flt.heads(v):
            if flt.kind(x) == "error": continue
            good += [x] + [l[0] for l in g]
        if not good: continue
        good += [t for r, t in s.mem.items() if r[0] in ("X", "S") or r in [a.a[0] for a in A.args if a.op == "ref"]]
        for order in (False, True):
            if dumped and not order: continue
            r = X.find(good, order)
            c.ob("%s.result" % short, r is None, "%s: the result depends on %s" % (loc(c.prog, k), name(r) if r is not None else ""))

LISTED = {"public.users": ("creation_time",), "public.changesets": ("created_at", "closed_at")}
def dump(c):
    """closing a dump: every cell of every line it writes, by column"""
    from rules_apidb import Dump, WRITER, KINDS, MEnv, env_of, settle, written, lines
    d = Dump(c); F = d.F; X = Taint(F)
    we = find1(d.p, WRITER + "::write_element"); cl = find1(d.p, WRITER + "::close")
    w = d.w0; els = []
    for kind in KINDS:
        el, x = d.element(kind, "last%s" % kind); els.append((kind, x, 7, True))
        w, _ = d.run(we, w, el); w = settle(d, w, env_of(d, *els))
    w2, tr = d.run(cl, w)
    per, e = written(d, tr, MEnv(env_of(d, *els), d.get("Relation", "members", els[2][1]), 0))
    for tb in sorted(d.tables):
        names = d.tables[tb][0]; ls = lines(d, per.get(tb, ()), e, tb)
        c.ob("close:%s" % tb, bool(ls), "closing a dump writes nothing to %s" % tb)
        for ctx, cells in ls:
            for i, cell in enumerate(cells):
                r = X.find([q[2] for q in cell if isinstance(q, tuple)], False)
                nm = names[i] if len(names) == len(cells) else "?"
                c.ob("close:%s.%s" % (tb, nm), r is None or nm in LISTED.get(tb, ()) and bool(CLOCK.search(source(r))), "%s.%s depends on %s" % (tb, nm, name(r) if r is not None else ""))
            r = X.find([l[0] for ph in ctx for l in F.e.phis[ph].get("steppc", ())], False)
            c.ob("close:%s lines" % tb, r is None, "whether a line is written to %s depends on %s" % (tb, name(r) if r is not None else ""))
