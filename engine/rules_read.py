"""Reading: sequential and parallel iteration, features, header fidelity, counting, bounding boxes of files."""
from rulelib import *
from seqs import Cons
from rules_pbf import final_self, walk, restrict, call_failed, lit_failed
from rules_write import trace, FILEBLOCK
from rules_pw import content, cmd_type, fields_of, Topo, seq_list, holds_elements

DESC = "osm_io::osm::pbf::blob_desc::BlobDesc"
BI = "osm_io::osm::pbf::blob_iterator::BlobIterator"
FBI = "osm_io::osm::pbf::file_block_iterator::FileBlockIterator"
EI = "osm_io::osm::pbf::element_iterator::ElementIterator"
BBOX = "osm_io::osm::model::bounding_box::BoundingBox"
import os
DEBUG = os.environ.get("DEN")
FILEINFO = "osm_io::osm::pbf::file_info::FileInfo"

def next_of(p, ty):
    k = "<%s as std::iter::Iterator>::next" % ty
    if k not in p.bodies: raise Finding("anchor %s: not found" % k)
    return k

def cut_pull(A, ty):
    """`next` of an iterator as one step: pull(state), with the new state after(state)"""
    def f(e, st, cc):
        r = cc.args[0]
        v = e.load(st, r); s = st.copy(); e.store(s, r, fn("after", v))
        pl = fn("pull", v); d = mk("discr", pl)
        return [(s, sel([(frozenset([(d, 1, True)]), SOME(some(pl))), (frozenset([(d, 0, True)]), NONE)]))]
    A.e.intercepts[next_of(A.p, ty)] = f

def cut_block(A):
    """decoding the block of a blob as one (fallible) step"""
    k = find1(A.p, "pbf::file_block::FileBlock::from_blob_desc")
    def f(e, st, cc):
        d = e.snap(st, cc.args[0]); d = deref_all(e, st, d)
        st = st.copy(); e.event(st, "block", cc, d)
        return [(st, e.fallible(st, cc, "from_blob_desc", okval=fn("blockof", d))[0][1])] if A.e.fault_site is None else e.fallible(st, cc, "from_blob_desc", okval=fn("blockof", d))
    A.e.intercepts[k] = f

def lit_num(F, g, t, ks):
    """value of discr(t) under the guard, None when open"""
    t = F.N(t); r = set(ks)
    for x, k, p in g:
        if x.op == "discr" and x.a[0] is t:
            r = r & {k} if p else r - {k}
    return next(iter(r)) if len(r) == 1 else None

class Split(Exception):
    """the proof has to distinguish these cases"""
    def __init__(self, lits): Exception.__init__(self, "split"); self.lits = lits

class Den:
    """What is still to come: token lists denoting sequences of items, modulo what a guard says.
    ("item", v)  ("from", V, cur)  ("src", iterator state)  ("tr", event trace)  ("opt", optional sequence)"""
    def __init__(self, F, out, ev=None):
        self.F = F; self.out = out; self.ev = ev or (lambda e: []); self.steps = 0
    # ---- normal form under a guard
    def norm(self, l, g):
        F = self.F; out = []; todo = list(l); n = 0
        while todo:
            n += 1
            if n > 400: raise Finding("a sequence does not normalise")
            x = todo.pop(0); k = x[0]
            if k == "item": out.append(("item", F.N(x[1])))
            elif k == "opt":
                v = F.N(x[1])
                if v.op == "adt": todo = (self.it(v.a[2][0]) if v.a[1] == 1 else []) + todo; continue
                d = lit_num(F, g, v, (0, 1))
                if d == 0: continue
                if d == 1: todo = self.it(some(v)) + todo; continue
                out.append(("opt", v))
            elif k == "peek":
                # the item taken last, if any, and what comes after it
                v = F.N(x[1])
                al = [y for h, y in F.expand(v) if not contradicts(F.NG(h), g)] if v.op == "sel" else [v]
                if len(al) == 1: v = F.N(al[0])
                elif al and v.op == "sel": raise Split([F.NG(h) for h, y in F.expand(v) if not contradicts(F.NG(h), g)])
                d = v.a[1] if v.op == "adt" else lit_num(F, g, v, (0, 1))
                if d == 0: continue
                if d == 1: todo = [("item", v.a[2][0] if v.op == "adt" else some(v))] + self.it(F.N(x[2])) + todo; continue
                out.append(("peek", v, F.N(x[2])))
            elif k == "from":
                V, cur = F.N(x[1]), F.N(x[2])
                if V.op == "iter" and cur is INT(0): todo = self.it(V) + todo; continue
                if cur.op == "sel":
                    al = [(F.NG(h), y) for h, y in F.expand(cur) if not contradicts(F.NG(h), g)]
                    if len({y for h, y in al}) == 1: cur = al[0][1]
                    elif al: raise Split([h for h, y in al])
                if V is EMPTY: continue
                h = self.has(g, V, cur)
                if h is False: continue
                if h is True:
                    todo = [("item", mk("elem", V, cur)), ("from", V, I.binop1("Add", cur, INT(1)))] + todo; continue
                out.append(("from", V, cur))
            elif k == "src":
                t = F.N(x[1]); pl = F.N(fn("pull", t)); d = lit_num(F, g, pl, (0, 1))
                if d == 0: continue
                if d == 1:
                    o = self.out(some(pl), g)
                    if isinstance(o, Split): raise o
                    todo = o + [("src", fn("after", t))] + todo; continue
                out.append(("src", t))
            elif k == "st":
                v = F.N(x[1])
                d = v.a[1] if v.op == "adt" else lit_num(F, g, v, (0, 1))
                if d == 0: continue
                if d == 1: todo = self.it(some(v) if v.op != "adt" else v.a[2][0]) + [("src", x[2])] + todo; continue
                out.append(("st", v, F.N(x[2])))
            elif k == "tr":
                t = x[1]
                if t is EMPTY: continue
                if t.op == "sel":
                    al = [(F.NG(h), x) for h, x in t.a[0] if not contradicts(F.NG(h), g)]
                    if len(al) == 1: todo = [("tr", al[0][1])] + todo; continue
                    raise Split([h for h, x in al])
                if t.op == "push": todo = [("tr", t.a[0])] + self.ev(t.a[1]) + todo; continue
                if t.op == "cat": todo = [("tr", t.a[0]), ("tr", t.a[1])] + todo; continue
                out.append(("tr", t))
            else: out.append(x)
        return out
    def it(self, v):
        if v.op == "iter":
            if v.a[0] in ("vals", "opaque"): return [("from", v.a[1], v.a[2])]
            raise Finding("unrecognised iterator %s" % sh(v, 3))
        return [("from", v, INT(0))]
    def has(self, g, V, cur):
        F = self.F
        for t, k, p in g:
            if t.op == "has" and t.a[0] is V and t.a[1] is cur: return bool(k) == bool(p)
            if cur is INT(0) and t.op == "len" and t.a[0] is V and k == 0: return not p
            if cur is INT(0) and t.op == "bin" and t.a[0] == "Eq" and t is F.N(mk("bin", "Eq", mk("len", V), INT(0))): return bool(k) != bool(p)
        return None
    # ---- loops
    def loops(self, g, terms):
        """loops whose variables occur in the guard or the terms, outermost (first entered) first"""
        F = self.F; keys = {}
        seen = set(); todo = [t for t, k, p in g] + list(terms)
        while todo:
            for y in walk(todo.pop()):
                if y in seen: continue
                seen.add(y)
                if y.op == "phi" and y in F.e.phis:
                    i = F.e.phis[y]; k = (i["key"], y.a[3])
                    keys[k] = min(keys.get(k, 1 << 60), y.id)
                    todo.append(i["init"])
        return sorted(keys, key=lambda k: keys[k])
    def tmap(self, x, phis, g):
        """token with its state replaced by the loop variable that starts from it"""
        F = self.F
        def m(t, root=None):
            if root == "v" and t.op == "fld":
                b = m(t.a[0], "v")
                if b is not t.a[0]: return I.proj_fld(b, *t.a[1:])
            for p in phis:
                if root and (F.e.phis[p]["root"] == ("TRACE",)) != (root == "tr"): continue
                al = {F.N(v) if root != "tr" else v for h, v in F.expand(F.e.phis[p]["init"]) if not contradicts(h, g)}
                if root == "tr":
                    if len(al) == 1 and self.norm([("tr", next(iter(al)))], g) == self.norm([("tr", t)], g): return p
                elif al == {F.N(t)} and t.op != "int": return p
            return t
        if x[0] == "tr": return ("tr", m(x[1], "tr"))
        if x[0] in ("src", "opt"): return (x[0], m(x[1], "v"))
        if x[0] == "st":
            return (x[0], m(x[1], "v"), m(x[2], "v"))
        if x[0] == "from":
            V = m(x[1], "v"); cur = x[2]
            for p in phis:
                i = F.e.phis[p]
                if i["path"] and i["path"][-1] in (("it", 2),):
                    al = {F.N(v) for h, v in F.expand(i["init"]) if not contradicts(h, g)}
                    if al == {F.N(cur)}: cur = p
            return ("from", V, cur)
        return x
    def through(self, l, L, g):
        """the same items expressed at the head of loop L; proves that an iteration preserves them"""
        F = self.F
        phis = [x for x, i in F.e.phis.items() if (i["key"], x.a[3]) == L]
        m = [self.tmap(x, phis, g) for x in l]
        if m == l: return l
        used = {x[1] for x in m} | {x[2] for x in m if x[0] == "from"}
        ns = max(len(F.e.phis[x]["step"]) for x in phis)
        order = list(phis)
        for si in range(ns):
            terms = [F.e.phis[x]["step"][si] if si < len(F.e.phis[x]["step"]) else x for x in order]
            pc = F.e.phis[order[0]].get("steppc", NOG)
            for h, tup in F.expand(mk("adt", "tuple", 0, tuple(terms))):
                if contradicts(h, pc): continue
                gg = F.NG(h | pc); sub = dict(zip(order, tup.a[2]))
                memo = {}
                new = [tuple(self.sub(y, sub, memo) if isinstance(y, T) else y for y in x) for x in m]
                for d in I.dnf(gg):
                    dg = F.NG(d)
                    self.steps += 1
                    if not self.eq(m, new, dg, skip=L): return None
        return m
    def peeled(self, l, L, g):
        """the same at the head of a loop before which the first item was already taken into a variable"""
        F = self.F
        phis = [x for x, i in F.e.phis.items() if (i["key"], x.a[3]) == L]
        opts = [x for x in phis if all(y.op == "adt" and y.a[0] == "std::option::Option" for h, y in F.expand(F.e.phis[x]["init"]))]
        def base(t):
            while t.op == "fn" and t.a[0] == "after": t = F.N(t.a[1][0])
            return t
        for o in opts:
            m = []
            for x in self.norm(l, g):
                if x[0] == "from": ps = [("peek", o, y) for y in phis if F.e.phis[y]["init"].op == "iter" and F.e.phis[y]["init"].a[1] is x[1]]
                elif x[0] == "src": ps = [("src", y) for y in phis if base(F.N(F.e.phis[y]["init"])) is base(x[1])] or [x]
                else: ps = [x]
                if len(ps) != 1: m = None; break
                m.append(ps[0])
            if not m or not any(x[0] == "peek" for x in m): continue
            def same(terms, old, pc):
                for h, tup in F.expand(mk("adt", "tuple", 0, tuple(terms))):
                    if contradicts(h, pc): continue
                    sub = dict(zip(phis, tup.a[2])); memo = {}
                    new = [tuple(self.sub(y, sub, memo) if isinstance(y, T) else y for y in x) for x in m]
                    for d in I.dnf(F.NG(h | pc)):
                        self.steps += 1
                        if not self.eq(old, new, F.NG(d), skip=L): return False
                return True
            if not same([F.e.phis[x]["init"] for x in phis], l, g): continue
            if all(same([F.e.phis[x]["step"][i] if i < len(F.e.phis[x]["step"]) else x for x in phis], m, F.e.phis[phis[0]].get("steppc", NOG)) for i in range(max(len(F.e.phis[x]["step"]) for x in phis))): return m
        return None
    def sub(self, t, m, memo):
        r = m.get(t)
        if r is not None: return r
        if t.op == "phi": return t
        r = memo.get(t)
        if r is None:
            def go(x):
                if isinstance(x, T): return self.sub(x, m, memo)
                if isinstance(x, tuple): return tuple(go(y) for y in x)
                return x
            na = tuple(go(x) for x in t.a)
            r = memo[t] = t if na == t.a else self.F.rebuild(t.op, na)
        return r
    def eq(self, old, new, g, skip=None, depth=0):
        """do both denote the same items on every run that satisfies the guard?"""
        if DEBUG: print("EQ", self.show(old), "|", self.show(new), "|", [showlit(l, 3) for l in g])
        try: return self.eq1(old, new, g, skip)
        except Split as x:
            if depth > 6: raise Finding("an item is used without looking at its kind")
            return all(contradicts(g, l) or self.eq(old, new, g | l, skip, depth + 1) for l in x.lits)
    def eq1(self, old, new, g, skip=None):
        g = self.F.NG(g)
        if self.norm(old, g) == self.norm(new, g): return True
        cur = list(old)
        Ls = self.loops(g, [y for x in new for y in x[1:] if isinstance(y, T)])
        for L in Ls + (Ls if len(Ls) > 1 else []):
            if L == skip: continue
            nx = self.through(cur, L, g)
            if nx == cur:
                nc = self.norm(cur, g); nx = self.through(nc, L, g)
                if nx == nc: nx = None
            if nx is None: nx = self.peeled(cur, L, g)
            if nx is None: continue
            cur = nx
            if self.norm(cur, g) == self.norm(new, g): return True
        return False
    def show(self, l): return "[%s]" % ", ".join("%s %s" % (x[0], sh(x[1], 4)) for x in l)

# ------------------------------------------------------------------ block contents
def block_out(c, A):
    """items a decoded block contributes, once its kind is known"""
    p = c.prog; F = A.F
    kd, kh = vindex(p, FILEBLOCK, "Data"), vindex(p, FILEBLOCK, "Header")
    def f(b, g):
        k = lit_num(F, g, b, (kd, kh))
        if k is None: return Split([frozenset([(mk("discr", b), x, True)]) for x in (kd, kh)])
        if k != kd: return []
        return [("from", data_elements(c, A, b), INT(0))]
    return f
def data_elements(c, A, b):
    """element list of a data block (the value its public accessor gives)"""
    p = c.prog
    kd = vindex(p, FILEBLOCK, "Data"); r = []
    for i, f in enumerate(adt_def(p, FILEBLOCK)["variants"][kd]["fields"]):
        from rules_write import typed, VEC_EL
        r += typed(p, f[1], I.proj_fld(b, kd, i, f[0]), VEC_EL)
    if len(r) != 1: raise Finding("a data block holds %d element lists" % len(r))
    return A.F.N(r[0][1])

def is_iter_elems(p, tyid):
    s = p.tys(tyid)
    return s in ("std::vec::IntoIter<%s>" % ELEMENT, "std::vec::Vec<%s>" % ELEMENT, "std::collections::VecDeque<%s>" % ELEMENT, "std::collections::vec_deque::IntoIter<%s>" % ELEMENT)
def ei_tokens(p, v):
    """(optional/current parts, source) of an element iterator value"""
    cur, src = [], []
    for i, f in enumerate(adt_def(p, EI)["variants"][0]["fields"]):
        x = I.proj_fld(v, 0, i, f[0]); s = p.tys(f[1]); t = p.ty(f[1])
        if s == FBI: src.append(("src", x))
        elif is_iter_elems(p, f[1]): cur.append(("iter", x))
        elif t.get("adt") == "std::option::Option" and is_iter_elems(p, t["args"][0]): cur.append(("opt", x))
        elif holds_elements(p, f[1]) or "Iterator" in s or "IntoIter" in s: raise Finding("the element iterator keeps elements in a %s" % s)
    if len(src) != 1 or len(cur) != 1: raise Finding("the element iterator has %d current blocks and %d sources" % (len(cur), len(src)))
    return cur, src
def ei_items(D, p, v):
    """what an element iterator in state v still has to give"""
    cur, src = ei_tokens(p, v)
    k, x = cur[0]
    if k == "opt": return [("st", x, src[0][1])]
    return D.it(x) + src

# ------------------------------------------------------------------ C20
def run_sequential(c):
    p = c.prog
    c.rule("every call of the element iterator either hands out the first item of what was still to come and keeps exactly the rest, or reports the end when nothing was to come; what is to come is the rest of the current block followed by the elements of all later data blocks (loops and the recursive call by induction)")
    c.rule("the block iterator yields the decoded block of every blob in turn and ends only with the blobs; iteration starts at the first blob of the reader's own file")
    c.guard("next", seq_next, c)
    c.guard("ends", seq_ends, c)
    c.guard("start", seq_start, c)
    c.guard("blocks", seq_blocks, c)
    c.guard("path", seq_path, c)

def setup_ei(c):
    p = c.prog
    def f(A):
        cut_pull(A, FBI); A.e.orpc = True
        k = next_of(p, EI)
        def rec(e, st, cc):
            r = cc.args[0]; v = e.load(st, r); s = st.copy(); e.store(s, r, fn("after", v))
            return [(s, fn("rec", v))]
        A.e.intercepts[k] = rec
    return f

def ended(D, t, g):
    """t = after(x) where pulling x gave nothing"""
    while t.op == "fn" and t.a[0] == "after":
        if lit_num(D.F, g, D.F.N(fn("pull", t.a[1][0])), (0, 1)) == 0: return True
        break
    return False

def seq_next(c):
    p = c.prog
    A = Ana(c, next_of(p, EI), paths=True, setup=setup_ei(c)); F = A.F
    D = Den(F, block_out(c, A)); S0 = mk("deref", A.args[0])
    old = ei_items(D, p, S0); n = 0
    for s, v in A.outs:
        for g, tup in F.expand(mk("adt", "tuple", 0, (v, final_self(A, s)))):
            if contradicts(g, s.pc): continue
            for d in I.dnf(F.NG(g | s.pc)):
                gg = F.NG(d); r, S = tup.a[2]; n += 1
                if r.op == "fn" and r.a[0] == "rec": new = ei_items(D, p, r.a[1][0])
                elif r.op == "adt" and r.a[0] == "std::option::Option":
                    new = [("item", r.a[2][0])] + ei_items(D, p, S) if r.a[1] == 1 else []
                elif lit_num(F, gg, r, (0, 1)) is not None: new = [("item", some(r))] + ei_items(D, p, S) if lit_num(F, gg, r, (0, 1)) else []
                else: raise Finding("unrecognised result %s" % sh(r, 3))
                new = [x for x in new if not (x[0] == "src" and ended(D, x[1], gg))]
                ok = D.eq(old, new, gg)
                c.ob("next", ok, "a call that returns %s leaves %s to come, but what was to come is %s" % (sh(r, 3), D.show(D.norm(new, gg)), D.show(D.norm(old, gg))))
    c.metrics["loop_invariant_steps"] = D.steps
    c.ob("next.outcomes", n >= 2, "the element iterator has %d outcomes" % n)

def seq_ends(c):
    """every loop of the element iterator's next ends, so that what it leaves to come is handed out at all"""
    import rules_ends as E
    k = next_of(c.prog, EI); fam = E.Family(c); A = E.analysed(c, k, True)
    for k, key, b, why, left, phimap in E.judged(A, k, fam):
        c.ob("ends", why is not None, "a turn of the loop in %s makes no progress" % E.named(key[1]))

def seq_start(c):
    """elements() has everything after the first block of the reader's file to come"""
    p = c.prog
    A = Ana(c, find1(p, "pbf::reader::Reader::elements"), paths=True, setup=setup_ei(c)); F = A.F
    D = Den(F, block_out(c, A)); n = 0
    kd, kh = vindex(p, FILEBLOCK, "Data"), vindex(p, FILEBLOCK, "Header")
    for s, v in A.outs:
        for g, S in F.expand(v):
            if contradicts(g, s.pc) or not (S.op == "adt" and S.a[1] == 0): continue
            S = S.a[2][0]
            for d in I.dnf(F.NG(g | s.pc)):
                bis = {y for y in deep(F, S) if y.op == "adt" and y.a[0] == BI}
                ps = set().union(*[opened(y) for y in bis]) if bis else set()
                c.ob("path.elements", len(ps) == 1 and ps <= reader_paths(p, mk("deref", A.args[0])), "elements() iterates over %s, expected the reader's own file" % [sh(z, 3) for z in ps])
                c.ob("fresh.elements", len(bis) == 1 and all(fresh_bi(c, A, y) for y in bis), "elements() starts from %s" % [sh(y, 4) for y in bis])
                fb = {y for y in deep(F, S) if y.op == "adt" and y.a[0] == FBI}
                if len(fb) != 1: raise Finding("elements() uses %d block iterators" % len(fb))
                src = fb.pop(); first = F.N(fn("pull", src))
                # the first block of a file is its header (checked when the reader is created)
                h = frozenset([(mk("discr", first), 1, True), (mk("discr", some(first)), kh, True)])
                if contradicts(d, h): continue
                n += 1; gg = F.NG(d | h)
                new = [x for x in ei_items(D, p, S) if not (x[0] == "src" and ended(D, x[1], gg))]
                c.ob("start", D.eq([("src", src)], new, gg), "elements() has %s to come, expected everything after the header" % D.show(D.norm(new, gg)))
    c.ob("start.outcomes", n >= 1, "creating an element iterator has no outcome")

def seq_blocks(c):
    p = c.prog
    def st(A): cut_pull(A, BI); cut_block(A)
    A = Ana(c, next_of(p, FBI), paths=True, setup=st); F = A.F
    S0 = mk("deref", A.args[0])
    bi = [I.proj_fld(S0, 0, i, f[0]) for i, f in enumerate(adt_def(p, FBI)["variants"][0]["fields"]) if p.tys(f[1]) == BI]
    if len(bi) != 1: raise Finding("the block iterator has %d sources" % len(bi))
    pl = F.N(fn("pull", bi[0])); n = 0
    for s, v in A.outs:
        S = final_self(A, s)
        for g, tup in F.expand(mk("adt", "tuple", 0, (v, S))):
            if contradicts(g, s.pc): continue
            r, S1 = tup.a[2]; gg = F.NG(g | s.pc)
            nb = [F.N(I.proj_fld(S1, 0, i, f[0])) for i, f in enumerate(adt_def(p, FBI)["variants"][0]["fields"]) if p.tys(f[1]) == BI]
            k = lit_num(F, gg, pl, (0, 1))
            if r is NONE:
                c.ob("blocks.end", k == 0, "the block iterator ends although a blob was there")
                errors_kept(c, A, s, g, "iteration over blocks ends as if the file did")
            elif r.op == "adt" and r.a[1] == 1:
                n += 1
                c.ob("blocks.item", k == 1 and F.N(r.a[2][0]) is F.N(fn("blockof", some(pl))), "the block iterator yields %s, expected the block of the next blob" % sh(r, 4))
                c.ob("blocks.state", len(nb) == 1 and same_under(F, nb[0], F.N(fn("after", bi[0])), gg), "the block iterator goes on from %s" % sh(nb[0], 4))
            else: raise Finding("unrecognised result %s" % sh(r, 3))
    c.ob("blocks.some", n >= 1, "the block iterator yields nothing")

def same_under(F, a, b, g):
    """equal values, given the guard: a value rebuilt from b's fields, a variant without payload where the guard says b is of it"""
    if a is b: return True
    if a.op == "adt" and not a.a[2]: return lit_num(F, g, b, range(8)) == a.a[1]
    if a.op != "adt": return False
    d = adt_def(F.e.p, a.a[0]) if a.a[0] in F.e.p.adt_ty else None
    if d is None or len(d["variants"]) != 1: return False
    return all(same_under(F, F.N(x), F.N(I.proj_fld(b, a.a[1], i, f[0])), g) for i, (x, f) in enumerate(zip(a.a[2], d["variants"][0]["fields"])))

def deep(F, t):
    """subterms, loop variables included from their initial values"""
    seen = set(); todo = [t]
    while todo:
        for y in walk(todo.pop()):
            if y in seen: continue
            seen.add(y)
            if y.op == "phi" and y in F.e.phis: todo.append(F.e.phis[y]["init"])
    return seen
def opened(t):
    return {x.a[1] for x in walk(t) if x.op == "file"}
def seq_path(c):
    """the iterators open the reader's path; a new reader's path is the one it was given"""
    p = c.prog
    for nm in ("blocks",):
        def st(A):
            cut_pull(A, FBI)
        A = Ana(c, find1(p, "pbf::reader::Reader::" + nm), setup=st); F = A.F; n = 0
        D = mk("deref", A.args[0])
        for s, v in A.outs:
            for g, x in F.expand(v):
                if x.op == "adt" and x.a[1] == 0:
                    n += 1
                    bis = {y for y in deep(F, x) if y.op == "adt" and y.a[0] == BI}
                    for y in bis:
                        c.ob("path." + nm, opened(y) <= reader_paths(p, D) and len(opened(y)) == 1, "%s() iterates over %s, expected the reader's own file" % (nm, [sh(z, 3) for z in opened(y)]))
                    fr = [fresh_bi(c, A, y) for y in bis]
                    c.ob("fresh." + nm, len(bis) == 1 and all(fr), "%s() starts from %s" % (nm, [sh(y, 4) for y in bis]))
        c.ob("path.%s.ok" % nm, n >= 1, "%s() never succeeds" % nm)
    def st2(A): cut_pull(A, BI); cut_block(A)
    A = Ana(c, find1(p, "pbf::reader::Reader::new"), setup=st2, paths=True); n = 0
    for s, v in A.outs:
        for g, x in A.F.expand(v):
            if contradicts(g, s.pc): continue
            if x.op == "adt" and x.a[1] == 0:
                n += 1
                ps = {deref_all(A.e, s, y) for y in reader_paths(p, x.a[2][0])}
                c.ob("path.new", {A.F.N(y) for y in ps} == {A.F.N(mk("deref", A.args[0]))}, "a new reader reads %s, expected the path it was given" % [sh(y, 3) for y in ps])
    c.ob("path.new.ok", n >= 1, "creating a reader never succeeds")
def reader_paths(p, R):
    READER = "osm_io::osm::pbf::reader::Reader"
    return {I.proj_fld(R, 0, i, f[0]) for i, f in enumerate(adt_def(p, READER)["variants"][0]["fields"]) if p.tys(f[1]) == "std::path::PathBuf"}
def fresh_bi(c, A, y):
    """same state as a newly created blob iterator"""
    p = c.prog
    if not hasattr(c, "_fresh"):
        B = Ana(c, find1(p, "pbf::blob_iterator::BlobIterator::new"))
        c._fresh = [x.a[2][0] for s, v in B.outs for g, x in B.F.expand(v) if x.op == "adt" and x.a[1] == 0]
    for z in c._fresh:
        ok = True
        for i, f in enumerate(adt_def(p, BI)["variants"][0]["fields"]):
            a, b = I.proj_fld(y, 0, i, f[0]), I.proj_fld(z, 0, i, f[0])
            if a.op == "file" and b.op == "file" or p.tys(f[1]) == "std::path::PathBuf": continue
            if A.F.N(a) is not A.F.N(b): ok = False
        if ok: return True
    return False

# ------------------------------------------------------------------ C19
PFE = "osm_io::osm::pbf::reader::Reader::parallel_for_each"
def run_parallel(c):
    c.rule("parallel iteration submits one command per blob of the reader's file, each blob exactly once (loop induction), to one pool it shuts down in complete-pending mode and joins, and succeeds only if the join does")
    c.rule("a command calls the callback with every element of its data block in order and then once with the end marker, nothing for a header block, and succeeds only if decoding and all the calls did")
    c.guard("submit", par_submit, c)
    c.guard("command", par_command, c)

def instances(p, path):
    ks = sorted(k for k in p.bodies if (k == path or k.startswith(path + "::<") and ">::{" not in k) and p.has_body(k))
    if not ks: raise Finding("anchor %s: not found" % path)
    return ks

def simple_pool(x):
    """(builder settings, identity) of a pool term"""
    st = {}
    while True:
        if x.op in ("deref", "ref"):
            if x.op == "ref" and x.a[0][0] not in ("X", "V"): return st, x
            x = x.a[0] if x.op == "deref" else x.a[0][1]
        elif x.op == "poolcfg": st[x.a[1]] = x.a[2] if len(x.a) > 2 else None; x = x.a[0]
        else: return st, x

def par_submit(c):
    p = c.prog; n = 0
    for k in instances(p, PFE):
        def st(A): cut_pull(A, BI); A.e.orpc = True
        A = Ana(c, k, paths=True, setup=st); F = A.F; me = mk("deref", A.args[0])
        for s, g, x in ok_outs(A):
                n += 1
                cmds = submission(c, A, s, g, reader_paths(p, me))
                c.ob("callback", len(cmds) >= 1 and all(A.args[2] in set(walk(deref_all(A.e, s, cmd))) or any(y is A.args[2] for r in refs_in(cmd) for y in walk(deref_all(A.e, s, r))) for cmd in cmds), "a command does not call the given callback")
    c.ob("submit.ok", n >= 1, "parallel iteration never succeeds")
def submission(c, A, s, g, paths):
    """on this successful outcome one command was submitted for every blob of the file, and all of them have succeeded; the commands"""
    p = c.prog; F = A.F
    def ev(e):
        if e.a[0] != "submit": return []
        # the blob(s) the command works on
        t = e.a[2][1]; r = []
        for h, x in F.expand(t):
            r.append(tuple(fields_of(p, cmd_type(p, x), x, DESC)))
        if len(set(r)) != 1 or len(r[0]) != 1: raise Finding("a submitted command works on %d blobs" % (len(r[0]) if r else 0))
        return [("item", r[0][0])]
    D = Den(F, lambda b, g: [("item", b)], ev)
    t = s.mem.get(("TRACE",), EMPTY)
    bis = {y for y in deep(F, t) if y.op == "adt" and y.a[0] == BI}
    for i in A.e.phis.values(): bis |= {y for y in walk(i["init"]) if y.op == "adt" and y.a[0] == BI}
    good = [y for y in bis if opened(y) <= paths and len(opened(y)) == 1 and fresh_bi(c, A, y)]
    c.ob("submit.file", len(good) >= 1, "parallel work takes blobs from %s, expected all blobs of the file" % [sh(y, 4) for y in bis])
    okb = False; why = "nothing"
    for b in sorted(good, key=lambda y: show(y, 8)):
        okb = okb or all([D.eq([("tr", EMPTY), ("src", b)], [("tr", t)], F.NG(d)) for d in I.dnf(F.NG(g | s.pc))])
    if good and not okb:
        d = F.NG(I.dnf(F.NG(g | s.pc))[0]); why = D.show(D.norm([("tr", t)], d))
    if good: c.ob("submit.all", okb, "the commands submitted are %s, expected one for each of %s" % (why, D.show([("src", good[0])])))
    pools, cmds = set(), set()
    for e in deep(F, t):
        if e.op == "ev" and e.a[0] in ("submit", "shutdown", "join"):
            pools.add(simple_pool(e.a[2][0])[1])
            if e.a[0] == "submit": cmds |= {x for g2, x in F.expand(e.a[2][1])}
    for i in A.e.phis.values():
        for q in i["step"]:
            for e in deep(F, q):
                if e.op == "ev" and e.a[0] == "submit":
                    pools.add(simple_pool(e.a[2][0])[1]); cmds |= {x for g2, x in F.expand(e.a[2][1])}
    c.ob("pool.one", len(pools) == 1, "commands are submitted to, and waited for on, %d pools" % len(pools))
    names = [e.a[0] for e in tail(t) if e.a[0] in ("submit", "shutdown", "join", "in_all_threads")]
    c.ob("pool.wait", names[-2:] == ["shutdown", "join"], "parallel work succeeds after %s, expected a shutdown and a join at the end" % names)
    md = [simple_pool(e.a[2][0])[0].get("with_shutdown_mode") for e in tail(t) if e.a[0] == "join"]
    c.ob("pool.mode", all(m is not None and m.op == "adt" and m.a[1] == 1 for m in md), "the pool drops pending commands at shutdown")
    hs = [simple_pool(e.a[2][0])[0].get("with_join_error_handler") for e in tail(t) if e.a[0] == "join"]
    c.ob("pool.handler", bool(hs) and all(h is not None and handler_returns(A, s, h) for h in hs), "joining the pool panics when a command failed (its error handler does not return), where an error is expected")
    js = [x for x, kk, pp in F.NG(g | s.pc) if x.op == "discr" and x.a[0].op == "call" and "join" in str(x.a[0].a[0]) and ((kk == 0) == bool(pp))]
    c.ob("pool.errors", len(js) >= 1, "parallel work succeeds whatever the join says")
    errors_kept(c, A, s, g)
    return cmds
def errors_kept(c, A, s, g, what="parallel work succeeds"):
    """on this successful outcome the blobs ended because the file did: the final state of the blob iterator was looked at,
    and what was seen there cannot be when reading the file failed"""
    p = c.prog; F = A.F
    lits = []
    for l in sorted(F.NG(g | s.pc), key=lambda l: l[0].id):
        fs = [y for y in walk(l[0]) if y.op == "fn" and y.a[0] == "after"]
        ps = [y for y in walk(l[0]) if y.op == "fn" and y.a[0] == "pull"]
        if fs and not ps: lits.append((l, fs[0]))
    B = Ana(c, next_of(p, BI), paths=True); D = mk("deref", B.args[0])
    def said(new):
        out = set()
        for (t, k, pol), a in lits:
            x = B.F.N(F.subst(t, a, new))
            if x.op == "discr" and x.a[0].op == "adt": x = INT(x.a[0].a[1])
            if x.op in ("int", "bool"):
                if (x.a[0] == k) != bool(pol): return None
            else: out.add((x, k, pol))
        return frozenset(out)
    was = said(D); ok = True; lost = []
    for bs, v in B.outs:
        for h, x in alts(v):
            now = said(restrict(final_self(B, bs), h))
            if x is NONE and call_failed(B.F, h | bs.pc):
                if now is not None: lost += [str(l[0].a[0].a[0]) if l[0].op == "discr" and l[0].a[0].op == "call" else "a number out of range" for l in B.F.NG(h | bs.pc) if lit_failed(l)]
            elif now != was: ok = False
    c.ob("blobs.error", not lost, what + " although reading the next blob failed (%s): the rest of the file is left out" % ", ".join(sorted(set(lost))))
    c.ob("blobs.end", ok, "not so (%s) although the end of the file was reached" % what)
def handler_returns(A, s, h):
    """the error handler of a pool comes back to the thread that joins the pool"""
    m = len(A.e.panics)
    outs = run_callable(A, s, h, [mk("sym", "name"), mk("sym", "message")])
    return bool(outs) and len(A.e.panics) == m
def ok_outs(A):
    """successful outcomes: (state, guard, value); an opaque result counts as a success when its discriminant says so"""
    F = A.F
    for s, v in A.outs:
        for g, x in F.expand(v):
            if contradicts(g, s.pc): continue
            if x.op == "adt":
                if x.a[1] == 0: yield s, g | s.pc, x.a[2][0]
            else:
                d = (mk("discr", x), 0, True)
                if not contradicts(g | s.pc, frozenset([d])): yield s, g | s.pc | {d}, I.proj_fld(x, 0, 0, "0")
def tail(t):
    """events after the last loop"""
    out = []
    while t.op in ("push", "cat"):
        if t.op == "cat": out = tail(t.a[1]) + out
        elif isinstance(t.a[1], T) and t.a[1].op == "ev": out.insert(0, t.a[1])
        t = t.a[0]
    return out
def refs_in(t): return [x for x in walk(t) if x.op == "ref"]

def par_command(c):
    p = c.prog; ks = set()
    # the commands that parallel iteration submits
    for k in instances(p, PFE):
        def st0(A): cut_pull(A, BI)
        B = Ana(c, k, setup=st0)
        for ev in B.events("submit"):
            for g, x in B.F.expand(ev["args"][1]): ks.add(x.a[0])
    kd, kh = vindex(p, FILEBLOCK, "Data"), vindex(p, FILEBLOCK, "Header")
    n = 0
    for ty in sorted(ks):
        k = "<%s as command_executor::command::Command>::execute" % ty
        if not p.has_body(k): raise Finding("anchor %s: not found" % k)
        def st(A): cut_block(A); A.e.orpc = True
        A = Ana(c, k, paths=True, setup=st); F = A.F; me = mk("deref", A.args[0])
        ds = [I.proj_fld(me, 0, i, f[0]) for i, f in enumerate(adt_def(p, ty)["variants"][0]["fields"]) if p.tys(f[1]) == DESC]
        if len(ds) != 1: raise Finding("%s works on %d blobs" % (ty, len(ds)))
        b = F.N(fn("blockof", ds[0]))
        def ev(e):
            if e.a[0] != "callf": return []
            a = e.a[2][1]; a = a if isinstance(a, tuple) else (a,)
            if len(a) != 1: raise Finding("the callback gets %d values" % len(a))
            return [("item", a[0])]
        D = Den(F, lambda x, g: [], ev)
        sent = mk("adt", ELEMENT, vindex(p, ELEMENT, "Sentinel"), ())
        fns = {F.N(e["args"][0]) for e in A.events("callf")}
        c.ob("callback.own", all(me in set(walk(x)) or any(y is me for y in walk(x)) for x in fns) and len(fns) == 1, "the command calls %s" % [sh(x, 3) for x in fns])
        ok = 0
        for s, g, x in ok_outs(A):
                t = s.mem.get(("TRACE",), EMPTY)
                for d in I.dnf(F.NG(g | s.pc)):
                    for kk in (kd, kh):
                        l = (mk("discr", b), kk, True)
                        if contradicts(d, frozenset([l])): continue
                        ok += 1; gg = F.NG(d | {l})
                        want = [("from", data_elements(c, A, b), INT(0)), ("item", sent)] if kk == kd else []
                        c.ob("calls", D.eq([("tr", EMPTY)] + want, [("tr", t)], gg), "the callback gets %s, expected %s" % (D.show(D.norm([("tr", t)], gg)), D.show(want)))
                        errs(c, A, t, gg)
        c.ob("command.ok", ok >= 2, "the command has %d successful outcomes" % ok); n += ok

def errs(c, A, t, g):
    """a run that succeeds has seen every callback and the decoding succeed"""
    F = A.F
    def good(e, g):
        if e.a[0] != "callf": return True
        # the result of this call
        for x, k, pp in g:
            if x.op == "discr" and x.a[0].op == "fn" and x.a[0].a[0] == "callf" or x.op == "discr" and x.a[0].op == "callf":
                if F.N(x.a[0].a[0] if x.a[0].op == "callf" else x.a[0].a[1][0]) is not None and e.a[1] in [y for y in flat(x.a[0])] and (k == 0) == bool(pp): return True
        return False
    def flat(x):
        for y in x.a:
            if isinstance(y, tuple):
                for z in y: yield z
            else: yield y
    for h, x in F.expand(t):
      if contradicts(F.NG(h), g): continue
      for e in tail(x): c.ob("callback.error", good(e, g | F.NG(h)), "the command succeeds although a call of the callback failed")
    seen = set()
    for ph, i in A.e.phis.items():
        if i["root"] != ("TRACE",): continue
        for q in i["step"]:
            for h, x in F.expand(q):
                for d in I.dnf(F.NG(h | i.get("steppc", NOG))):
                    for e in walk(x):
                        if e.op == "ev": c.ob("callback.error", good(e, F.NG(d)), "the command goes on although a call of the callback failed")

# ------------------------------------------------------------------ C23
def run_counts(c):
    c.rule("counting iterates over all elements with a callback that raises exactly the counter of the element's own kind by one with a single atomic step, and returns the node, way and relation counters in that order after the iteration")
    c.guard("counts", counts, c)

def counts(c):
    p = c.prog; got = []
    READER = "osm_io::osm::pbf::reader::Reader"
    def havoc(v, tag):
        if v.op == "int": return fn("cnt", tag, v)
        if v.op == "adt": return mk("adt", v.a[0], v.a[1], tuple(havoc(x, mk("fld", tag, 0, i, str(i))) for i, x in enumerate(v.a[2])))
        return v
    def cells(e, s, v, acc):
        for x in walk(v):
            if x.op == "ref" and x.a[0][0] == "H" and x.a[0] not in acc:
                acc[x.a[0]] = 1
                if x.a[0] in s.mem: cells(e, s, s.mem[x.a[0]], acc)
    def setup(A):
        for k in instances(p, PFE):
            def f(e, st, cc):
                acc = {}; s = st.copy()
                cells(e, s, e.snap(s, cc.args[2]) if cc.args[2].op == "ref" else cc.args[2], acc)
                for r in acc:
                    if r in s.mem: s.mem[r] = havoc(s.mem[r], mk("sym", "cell:%s" % (r,)))
                got.append((s, cc.args, tuple(acc)))
                return e.fallible(s, cc, "parallel_for_each", okval=UNIT)
            A.e.intercepts[k] = f
    A = Ana(c, find1(p, "pbf::reader::Reader::count_objects"), paths=True, setup=setup); F = A.F
    c.ob("iterate", len(got) == 1, "counting iterates over the elements %d times" % len(got))
    if len(got) != 1: return
    s0, args, acc = got[0]
    c.ob("iterate.self", args[0] is A.args[0] or F.N(mk("deref", args[0])) is F.N(mk("deref", A.args[0])) or A.e.load(s0, args[0]) is A.e.load(s0, A.args[0]), "counting iterates over another file")
    res = None; n = 0
    for s, g, x in ok_outs(A):
            n += 1
            if x.op != "adt": raise Finding("the counts are not recognised: %s" % sh(x, 3))
            r = [[y for y in walk(F.N(z)) if y.op == "fn" and y.a[0] == "cnt"] for z in x.a[2]]
            c.ob("result", all(len(y) == 1 for y in r) and len(r) == 3, "the counts returned are %s, expected what the counters hold after the iteration" % sh(x, 5))
            if any(len(y) != 1 for y in r): return
            r = [y[0] for y in r]
            c.ob("distinct", len(set(r)) == 3, "two counts come from one counter")
            c.ob("zero", all(y.a[1][1] is INT(0) for y in r), "a counter does not start at zero")
            for z, y in zip(x.a[2], r):
                m = [u for u in walk(z) if u.op == "bin" and u.a[0] not in ("Add",)]
                c.ob("value", F.poly(F.N(z)) == F.poly(y) or unnarrow(F.N(z), 64) is y, "a count is %s, not what its counter holds" % sh(z, 4))
            ok = [x for x, kk, pp in F.NG(g) if x.op == "discr" and x.a[0].op == "call" and x.a[0].a[0] == "parallel_for_each" and (kk == 0) == bool(pp)]
            c.ob("errors", len(ok) == 1, "counting succeeds although the iteration failed")
            res = r
    c.ob("counts.ok", n >= 1, "counting never succeeds")
    if res is None: return
    kinds = ["Node", "Way", "Relation", "Sentinel"]
    vs = [v["name"] for v in adt_def(p, ELEMENT)["variants"]]
    c.ob("kinds", sorted(vs) == sorted(kinds), "the element kinds are %s" % vs)
    def leaves(v):
        if v.op == "adt": return [y for x in v.a[2] for y in leaves(x)]
        return [v]
    for i, k in enumerate(kinds):
        vi = vindex(p, ELEMENT, k); nf = len(adt_def(p, ELEMENT)["variants"][vi]["fields"])
        el = mk("adt", ELEMENT, vi, tuple(mk("sym", "payload%d" % j) for j in range(nf)))
        mark = len(A.e.log)
        outs = run_callable(A, s0, args[2], [el])
        c.ob("callback.%s" % k, len(outs) >= 1, "the callback has no outcome for a %s" % k)
        for s, v in outs:
            for h, y in F.expand(v):
                c.ob("callback.ok", y.op == "adt" and y.a[1] == 0, "the callback fails for a %s" % k)
            for r in acc:
                if r not in s0.mem: continue
                for a, b in zip(leaves(s0.mem[r]), leaves(s.mem[r])):
                    inc = 1 if i < 3 and a is res[i] else 0
                    c.ob("step.%s" % k, F.poly(F.N(b)) == F.poly(I.binop1("Add", a, INT(inc)) if inc else a), "a %s changes a counter from %s to %s" % (k, sh(a, 3), sh(b, 4)))
        ops = [e["args"][0] for e in A.e.log[mark:] if e["kind"] == "atomic"]; lk = [e for e in A.e.log[mark:] if e["kind"] == "lock"]
        if i < 3: c.ob("atomic.%s" % k, len(lk) == 1 and not ops or not lk and len(ops) == 1 and ops[0].startswith("fetch_"), "a counter is updated in the separate steps %s, so that concurrent updates get lost" % ops)

# ------------------------------------------------------------------ C21
KNOWN_FEATURES = {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"}
READER = "osm_io::osm::pbf::reader::Reader"
def run_features(c):
    c.rule("a reader is created exactly when the first block of the file is a header whose required features are all in the reader's list of supported features (membership of an arbitrary element, by loop induction or set inclusion), and the list names only features the decoder implements")
    c.guard("features", features, c)

class Members:
    """facts about an arbitrary element of R being in the constant set S"""
    def __init__(self, A, s, R, S):
        self.A = A; self.F = A.F; self.s = s; self.R = A.F.N(R); self.S = S; self.busy = set()
    def val(self, t): return self.F.N(deref_all(self.A.e, self.s, t)) if t.op in ("ref", "deref") else self.F.N(t)
    def consts(self, t):
        """strings in a constant set or list"""
        t = self.val(t)
        if t is EMPTY: return set()
        if t.op == "str": return {t.a[0]}
        if t.op in ("ins", "push"):
            a = self.consts(t.a[0]); b = self.val(t.a[1])
            return None if a is None or b.op != "str" else a | {b.a[0]}
        if t.op == "adt" and t.a[0] in ("array", "tuple"):
            vs = [self.val(x) for x in t.a[2]]
            return {v.a[0] for v in vs} if all(v.op == "str" for v in vs) else None
        if t.op == "cat":
            a, b = self.consts(t.a[0]), self.consts(t.a[1])
            return None if a is None or b is None else a | b
        if t.op in ("map", "fn", "iter") : return None
        return None
    def elems(self, t):
        """"R" when t holds exactly the elements of R"""
        t = self.val(t)
        if t is self.R: return True
        if t.op == "phi" and t in self.F.e.phis:
            i = self.F.e.phis[t]
            if self.val(i["init"]) is not EMPTY: return False
            if not self.whole(i, t, [l[0] for l in self.F.NG(i.get("steppc", NOG)) if l[0].op == "has" and bool(l[1]) == bool(l[2])]): return False
            for q in i["step"]:
                for h, x in self.F.expand(q):
                    if x.op not in ("ins", "push") or x.a[0] is not t or self.elem_of(x.a[1]) is None: return False
            return bool(i["step"])
        return False
    def whole(self, i, t, over):
        """the loop that makes t stops only at the end of what it walks"""
        return self.F.walks((i["key"], t.a[3]), [self.F.N(l.a[0]) for l in over]) is not None
    def elem_of(self, t):
        v = self.val(t)
        while v.op == "deref": v = v.a[0]
        if v.op == "elem" and self.elems(v.a[0]): return v
        return None
    def difference(self, t):
        """t = elements of R outside S"""
        t = self.val(t)
        if t.op == "fn" and t.a[0] == "setdiff":
            a, b = t.a[1]
            return self.elems(a) and self.consts(b) == self.S
        return False
    def says(self, alt):
        """{True: some element of R is stated to be in S, False: stated not to be, "all": all are, "some": one is not}"""
        out = set(); no = {}
        for t, k, p in alt:
            pos = (k is True or k == 1) == bool(p) if isinstance(k, bool) or k in (0, 1) else bool(p)
            q = t.a[1] if t.op == "fn" and t.a[0] in ("contains", "haskey") else t.a if t.op in ("contains", "haskey") else None
            if q is not None:
                if self.elem_of(q[1]) is not None:
                    cs = self.consts(q[0])
                    if cs is None: raise Finding("membership in %s is tested" % sh(q[0], 3))
                    if pos and cs <= self.S: out.add(True)
                    if not pos and cs >= self.S: out.add(False)
            elif t.op == "fn" and t.a[0] == "subset":
                if self.elems(t.a[1][0]):
                    cs = self.consts(t.a[1][1])
                    if cs is None: raise Finding("inclusion in %s is tested" % sh(t.a[1][1], 3))
                    if pos and cs <= self.S: out.add("all")
                    if not pos and cs >= self.S: out.add("some")
            elif isinstance(k, str) and self.elem_of(t) is not None:
                if p and k in self.S: out.add(True)
                if not p: no.setdefault(t, set()).add(k)
            elif t.op == "len" and k == 0:
                w = self.collected(t.a[0])
                if w and p: out.add("all")
                if w and not p: out.add("some")
            elif t.op == "has" and p == (not k):
                # a finished traversal of R (or of the difference): every iteration went round
                if self.elems(t.a[0]) and self.round_all(t): out.add("all")
            elif t.op == "has" and self.difference(t.a[0]) and (bool(k) == bool(p)): out.add("some")
        if any(v >= self.S for v in no.values()): out.add(False)
        return out
    def loops_over(self, seq):
        """counters of traversals of seq: {loop key: steppc}"""
        r = {}
        for ph, i in self.F.e.phis.items():
            for l in i.get("steppc", ()):
                if l[0].op == "has" and bool(l[1]) == bool(l[2]) and (self.val(l[0].a[0]) is self.val(seq) or seq is self.R and self.elems(l[0].a[0])): r[i["key"], ph.a[3]] = i["steppc"]
        return r
    def round_all(self, t):
        """an element of R outside S would have ended the traversal whose end this literal states"""
        for key, pc in self.loops_over(self.R).items():
            ix = {self.F.N(l[0].a[1]) for l in self.F.NG(pc) if l[0].op == "has" and self.elems(l[0].a[0])}
            if self.F.N(t.a[1]) not in ix or key in self.busy: continue
            self.busy.add(key)
            al = [self.says(a) for a in I.dnf(self.F.NG(pc))]
            self.busy.discard(key)
            if al and all(True in a for a in al): return True
        return False
    def collected(self, t):
        """t collects exactly the elements of R outside S"""
        t = self.val(t)
        while t.op == "fn" and t.a[0] in ("sorted", "sorted_by"): t = self.val(t.a[1][0])
        if self.difference(t): return True
        if not (t.op == "phi" and t in self.F.e.phis): return False
        i = self.F.e.phis[t]
        if self.val(i["init"]) is not EMPTY: return False
        pc = i.get("steppc", NOG)
        over = [l[0] for l in self.F.NG(pc) if l[0].op == "has" and bool(l[1]) == bool(l[2])]
        if not self.whole(i, t, over): return False
        ind = [l for l in over if self.difference(l.a[0])]
        for q in i["step"]:
            for h, x in self.F.expand(q):
                for a in I.dnf(self.F.NG(h | pc)):
                    pushed = x.op in ("push", "ins") and x.a[0] is t
                    y = x.a[1] if pushed else None
                    while y is not None and y.op == "deref": y = y.a[0]
                    if y is not None and y.op == "skipitem": pushed = False; x = t         # filtered out
                    if not pushed and x is not t: return False
                    if ind:
                        if not pushed: return False
                        continue
                    sy = self.says(a)
                    if pushed and False not in sy: return False
                    if not pushed and True not in sy: return False
        return bool(ind) or any(self.elems(l.a[0]) for l in over)

def features(c):
    p = c.prog
    def st(A): cut_pull(A, BI); cut_block(A); A.e.orpc = True
    A = Ana(c, find1(p, "pbf::reader::Reader::new"), paths=True, setup=st); F = A.F
    kh = vindex(p, FILEBLOCK, "Header"); oks = errs_ = 0; S = None
    outs = []
    for s, v in A.outs:
        for g, x in F.expand(v):
            if contradicts(g, s.pc): continue
            for d in I.dnf(F.NG(g | s.pc)): outs.append((s, F.NG(d), x))
    def get(s, name, v):
        return F.N(deref_all(A.e, s, A.call(find1(p, name), v, st=s)))
    first = None
    for s, g, x in outs:
        if x.op == "adt" and x.a[1] == 0:
            R = x.a[2][0]
            sup = get(s, "pbf::reader::Reader::supported_features", R)
            cs = Members(A, s, EMPTY, set()).consts(sup)
            if cs is None: raise Finding("the supported features are not a constant list: %s" % sh(sup, 4))
            if S is not None and cs != S: raise Finding("the list of supported features varies")
            S = cs
            info = get(s, "pbf::reader::Reader::info", R)
            fb = {y for y in walk(info) if y.op == "fn" and y.a[0] == "blockof"}
            bi = {y for y in walk(info) if y.op == "adt" and y.a[0] == BI}
            if len(fb) != 1 or len(bi) != 1: raise Finding("the information of a reader comes from %s" % sh(info, 4))
            b = fb.pop(); bb = bi.pop()
            c.ob("first", F.N(b) is F.N(fn("blockof", some(fn("pull", bb)))) and fresh_bi(c, A, bb), "the information of a reader is read from %s, expected the first block of the file" % sh(b, 4))
            c.ob("header", lit_num(F, g, b, (0, 1)) == kh, "a reader is created although the first block is not a header")
            first = (b, info)
    c.ob("new.ok", S is not None, "creating a reader never succeeds")
    if S is None: return
    c.ob("known", S <= KNOWN_FEATURES, "the reader claims to support %s" % sorted(S - KNOWN_FEATURES))
    b, info = first
    for s, g, x in outs:
        R = get(s, "pbf::file_info::FileInfo::required_features", info)
        if DEBUG: print("OUT", sh(x,3), Members(A, s, R, S).says(g), [showlit(l,4) for l in g])
        M = Members(A, s, R, S); says = M.says(g)
        if x.op == "adt" and x.a[1] == 0:
            oks += 1
            c.ob("required", "all" in says, "a reader is created although a required feature may be missing from the supported ones")
        else:
            other = any(t.op == "discr" and ((t.a[0].op == "call" and (k == 1) == bool(pp)) or (t.a[0] is F.N(b) and lit_num(F, g, b, (0, 1)) != kh) or (t.a[0].op == "fn" and t.a[0].a[0] == "pull" and (k == 0) == bool(pp))) for t, k, pp in g)
            bad = "some" in says or (False in says and any(t.op == "has" and M.F.N(t.a[0]) is M.R and bool(k) == bool(pp) for t, k, pp in g))
            if "all" in says and "some" not in says and False not in says and not other and not bad:
                pass
            # contradictory outcome: all features are supported and one is not
            if "all" in says and bad: continue
            errs_ += 1
            c.ob("rejected", other or bad, "creating a reader fails although every required feature is supported")
    c.ob("new.outcomes", oks >= 1 and errs_ >= 3, "creating a reader has %d successful and %d failing outcomes" % (oks, errs_))

# ------------------------------------------------------------------ C22
HDR = "osm_io::osm::pbf::osm_header::OsmHeader"
HB = PB + "HeaderBlock"
INFO = ["required_features", "optional_features", "writingprogram", "source", "osmosis_replication_timestamp",
        "osmosis_replication_sequence_number", "osmosis_replication_base_url"]
EDGES = ["left", "bottom", "right", "top"]
def run_header(c):
    c.rule("every header field and every edge of the header box is moved unchanged (boxes scaled by 10^9 and rounded) between the file information and the header message in both directions; both writers store the given file information and put exactly it in the header block of the file at the given path")
    c.guard("read", header_read, c); c.guard("write", header_write, c); c.guard("info", header_info, c)
    c.guard("writer", header_writer, c); c.guard("new", header_new, c); c.guard("default", header_default, c); c.guard("parallel", header_parallel, c)

def eqv(F, a, b, g=NOG, d=8):
    """a and b are the same value under g: case by case, field by field"""
    a, b = F.N(a), F.N(b)
    if a is b: return True
    if d == 0: return False
    if a.op == "sel" or b.op == "sel":
        n = 0
        for h, x in F.expand(a):
            for k, y in F.expand(b):
                gg = F.NG(h | k | g)
                for al in I.dnf(gg):
                    al = F.NG(al)
                    if contradicts(al, NOG): continue
                    n += 1
                    x2, y2 = F.N(x), F.N(y)
                    if x2.op == "sel" or y2.op == "sel": return False
                    if not eqv(F, x2, y2, al, d - 1): return False
        return n > 0
    if b.op == "adt" and a.op != "adt": a, b = b, a
    if a.op == "adt":
        if b.op == "adt":
            return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and all(eqv(F, x, y, g, d - 1) for x, y in zip(a.a[2], b.a[2]))
        if a.a[0] == "std::option::Option" and lit_num(F, g, b, (0, 1)) != a.a[1]: return False
        return all(eqv(F, x, I.proj_fld(b, a.a[1], i, str(i)), g, d - 1) for i, x in enumerate(a.a[2])) if a.a[0] == "std::option::Option" else False
    return F.poly(a) == F.poly(b)

def info_get(A, s, v, name): return A.F.N(deref_all(A.e, s, A.call(find1(A.p, "pbf::file_info::FileInfo::" + name), v, st=s)))
def box_get(A, s, v, name): return A.F.N(deref_all(A.e, s, A.call(find1(A.p, "model::bounding_box::BoundingBox::" + name), v, st=s)))
def ok_alts(A):
    for s, v in A.outs:
        for g, x in A.F.expand(v):
            g = A.F.NG(g | s.pc)
            if contradicts(g, NOG): continue
            if x.op == "adt" and x.a[1] == 0: yield s, g, x.a[2][0]
            elif x.op != "adt": raise Finding("%s returns %s" % (A.key, sh(x, 3)))
def opt_alts(F, v, g):
    """cases of an optional value: (guard, None or payload)"""
    for h, x in F.expand(v):
        h = F.NG(h | g)
        for al in I.dnf(h):
            al = F.NG(al)
            if contradicts(al, NOG): continue
            x = F.N(x)
            if x.op == "adt": yield al, (x.a[2][0] if x.a[1] == 1 else None)
            else:
                k = lit_num(F, al, x, (0, 1))
                if k is None or k == 0: yield al | frozenset([(mk("discr", x), 0, True)]), None
                if k is None or k == 1: yield al | frozenset([(mk("discr", x), 1, True)]), some(x)

def header_read(c):
    p = c.prog
    A = Ana(c, find1(p, "pbf::osm_header::OsmHeader::from_bytes")); F = A.F
    n = 0; seen = set()
    for s, g, h in ok_alts(A):
        n += 1
        info = A.call(find1(p, "pbf::osm_header::OsmHeader::info"), h, st=s)
        msg = [q for q in walk(info) if q.op == "decoded" and q.a[0] == HB]
        if len(set(msg)) != 1: raise Finding("a header is decoded from %d messages" % len(set(msg)))
        m = msg[0]
        c.ob("read.bytes", F.N(m.a[1]) is F.N(A.args[0]), "the header message is decoded from %s" % sh(m.a[1], 3))
        for f in INFO:
            v, w = info_get(A, s, info, f), F.N(field(p, m, HB, f))
            c.ob("read." + f, eqv(F, v, w, g), "%s of a read header is %s" % (f, sh(v, 4)))
        bb = info_get(A, s, info, "bounding_box"); wb = F.N(field(p, m, HB, "bbox"))
        for al, x in opt_alts(F, bb, g):
            d = lit_num(F, al, wb, (0, 1)); seen.add(x is not None)
            c.ob("read.bbox", d == (0 if x is None else 1), "the box of a read header is %s although the message %s one" % ("absent" if x is None else "present", "may have" if x is None else "may lack"))
            if x is None: continue
            for e in EDGES:
                v = box_get(A, s, x, e); w = field(p, some(wb), PB + "HeaderBBox", e)
                c.ob("read.bbox." + e, scaled(F, v, w, -9), "the %s edge of a read box is %s" % (e, sh(v, 5)))
    c.ob("read.bbox.cases", seen == {True, False}, "a header box is %s" % ("never read" if True not in seen else "always present"))
    c.ob("read", n >= 1, "a header is never read")

def scaled(F, v, w, e):
    """v = w * 10^e"""
    from fractions import Fraction
    pv, pw = F.poly(v), F.poly(w)
    k = Fraction(10) ** e
    return {m: Fraction(x) for m, x in pv.items() if x} == {m: Fraction(x) * k for m, x in pw.items() if x}

def header_write(c):
    p = c.prog
    A = Ana(c, find1(p, "pbf::osm_header::OsmHeader::serialize")); F = A.F
    info = A.call(find1(p, "pbf::osm_header::OsmHeader::info"), mk("deref", A.args[0]))
    n = 0; seen = set()
    for s, g, x in ok_alts(A):
        x = F.N(x)
        if not (x.op == "fn" and x.a[0] == "encoded" and x.a[1][0] is STR(HB)): raise Finding("a header serialises to %s" % sh(x, 3))
        n += 1; m = x.a[1][1]
        for f in INFO:
            v = F.N(field(p, m, HB, f)); w = info_get(A, s, info, f)
            c.ob("write." + f, eqv(F, v, w, g), "%s of a written header is %s" % (f, sh(v, 4)))
        bb = info_get(A, s, info, "bounding_box")
        for al, y in opt_alts(F, field(p, m, HB, "bbox"), g):
            d = lit_num(F, al, bb, (0, 1)); seen.add(y is not None)
            c.ob("write.bbox", d == (0 if y is None else 1), "a written header %s a box although the file information %s one" % ("lacks" if y is None else "has", "may have" if y is None else "may lack"))
            if y is None: continue
            for e in EDGES:
                v = F.N(field(p, y, PB + "HeaderBBox", e)); w = box_get(A, s, some(bb), e)
                c.ob("write.bbox." + e, nanodeg(F, v, w), "the %s edge of a written box is %s" % (e, sh(v, 5)))
    c.ob("write.bbox.cases", seen == {True, False}, "a header box is %s" % ("never written" if True not in seen else "always written"))
    c.ob("write", n >= 1, "a header is never serialised")
def nanodeg(F, v, w):
    """v is the integer nearest to w * 10^9"""
    v = F.N(v)
    v = unnarrow(v, 64)
    if v.op == "fn" and v.a[0] == "round":
        return scaled(F, v.a[1][0], w, 9)
    return False

def header_info(c):
    """the setters and the constructor of the file information"""
    p = c.prog
    A = Ana(c, find1(p, "pbf::file_info::FileInfo::new")); F = A.F
    for s, v in A.outs:
        for i, f in enumerate(["bounding_box"] + INFO):
            x = info_get(A, s, v, f)
            c.ob("new." + f, eqv(F, x, A.args[i]), "%s of new file information is %s" % (f, sh(x, 4)))
    for f in ["bounding_box"] + INFO:
        A = Ana(c, find1(p, "pbf::file_info::FileInfo::with_" + f)); F = A.F
        old = mk("deref", A.args[0])
        for s, v in A.outs:
            fin = final_self(A, s)
            for q in ["bounding_box"] + INFO:
                x = info_get(A, s, fin, q); w = mk("deref", A.args[1]) if q == f else info_get(A, s, old, q)
                c.ob("with_%s.%s" % (f, q), eqv(F, x, w), "after setting %s, %s is %s" % (f, q, sh(x, 4)))

def uncopy(F, t):
    """the sequence a loop copied element by element"""
    t = F.N(t)
    if t.op != "phi" or t not in F.e.phis: return t
    i = F.e.phis[t]; al = []; idx = set()
    if F.N(i["init"]) is not EMPTY or not i["step"]: return t
    for q in i["step"]:
        for h, x in F.expand(q):
            if x.op != "push" or x.a[0] is not t: return t
            v = F.N(x.a[1])
            while v.op in ("ref", "deref"): v = F.N(v.a[0])
            if v.op != "elem": return t
            idx.add(v.a[1]); al.append((h, v.a[0]))
    if len(idx) != 1: return t
    return uncopy(F, al[0][1] if len(al) == 1 else sel(al))

def info_field(p, key, ty, v):
    r = typed_fields(p, ty, v, FILEINFO)
    if len(r) != 1: raise Finding("%s holds %d file informations" % (key, len(r)))
    return r[0]
def typed_fields(p, ty, v, want):
    from rules_write import typed
    return typed(p, ty, v, want)
def header_blocks(c, A, tag, s, evs, want, g):
    """the blocks serialised are one header block with this file information"""
    p = c.prog; F = A.F
    from rules_write import typed
    blks = [q for ev in evs for q in ev if q.op == "adt" and q.a[0] == FILEBLOCK]
    vi = vindex(p, FILEBLOCK, "Header")
    if len(blks) != 1 or blks[0].a[1] != vi:
        c.fail(tag + ".block", "%d blocks are serialised for the header" % len(blks)); return 0
    r = []
    for i, f in enumerate(adt_def(p, FILEBLOCK)["variants"][vi]["fields"]): r += typed(p, f[1], blks[0].a[2][i], FILEINFO)
    if len(r) != 1: raise Finding("a header block holds %d file informations" % len(r))
    got = r[0][1]
    for f in ["bounding_box"] + INFO:
        x, w = info_get(A, s, got, f), info_get(A, s, want, f)
        c.ob("%s.%s" % (tag, f), eqv(F, x, w, g), "%s of the written header is %s, expected %s" % (f, sh(x, 3), sh(w, 3)))
    return 1
def self_ty(A, i=1):
    t = A.p.ty(A.p.bodies[A.key]["body"]["locals"][i]["ty"])
    return t["to"] if t["k"] == "ref" and "to" in t else t

def header_writer(c):
    p = c.prog
    from rules_write import typed, cut_serialize, trace, WRITER
    wt = p.adt_ty[WRITER][0]
    A = Ana(c, find1(p, "pbf::writer::Writer::from_file_info")); F = A.F; n = 0; path = None
    for s, g, w in ok_alts(A):
        n += 1; fi = typed(p, wt, w, FILEINFO)
        if len(fi) != 1: raise Finding("a writer holds %d file informations" % len(fi))
        path = fi[0][0]
        c.ob("writer.info", F.N(fi[0][1]) is F.N(A.args[1]), "a writer keeps the file information %s" % sh(fi[0][1], 3))
        fl = [q for q in walk(w) if q.op == "file"]
        c.ob("writer.file", len(set(fl)) == 1 and fl[0].a[0] is STR("create") and F.N(fl[0].a[1]) is F.N(A.args[0]), "a writer writes to %s, expected a new file at the given path" % [sh(q, 3) for q in fl])
    c.ob("writer.from", n >= 1, "a writer is never created")
    def st(A): cut_serialize(A)
    A = Ana(c, find1(p, "pbf::writer::Writer::write_header"), setup=st); F = A.F; n = 0
    from rules_write import at
    want = at(mk("deref", A.args[0]), path)
    for s, v in A.outs:
        for g, x in F.expand(v):
            g = F.NG(g | s.pc)
            if contradicts(g, NOG) or x.op != "adt" or x.a[1] != 0: continue
            n += 1
            header_blocks(c, A, "writer.header", s, [e["args"] for e in A.e.log if e["kind"] == "serialize"], want, g)
    c.ob("writer.header", n >= 1, "the header is never written")

def header_new(c):
    p = c.prog
    from rules_write import typed, WRITER
    wt = p.adt_ty[WRITER][0]
    A = Ana(c, find1(p, "pbf::writer::Writer::new")); F = A.F; n = 0
    a = A.args; D = lambda t: mk("deref", t)
    M = Members(A, A.st0(), EMPTY, set()); seen = set()
    for s, g, w in ok_alts(A):
        fi = typed(p, wt, w, FILEINFO)[0][1]
        want = {"bounding_box": a[7], "writingprogram": SOME(D(a[1])), "source": SOME(D(a[2])), "osmosis_replication_timestamp": a[3],
                "osmosis_replication_sequence_number": a[4], "osmosis_replication_base_url": a[5]}
        for f, y in want.items():
            x = info_get(A, s, fi, f); n += 1
            c.ob("create." + f, eqv(F, x, y, g), "%s of a new writer is %s" % (f, sh(x, 4)))
        for h, x in F.expand(uncopy(F, info_get(A, s, fi, "required_features"))):
            h = F.NG(h | g)
            if contradicts(h, NOG): continue
            cs = M.consts(x)
            if cs is None: raise Finding("the required features are %s" % sh(x, 4))
            hist = {k if pp else (not k) for t, k, pp in h if t is F.N(a[8])}
            for b in hist or {True, False}:
                seen.add(bool(b))
                w2 = {"OsmSchema-V0.6", "DenseNodes"} | ({"HistoricalInformation"} if b else set())
                c.ob("create.required", cs == w2, "a new writer %s history requires %s" % ("with" if b else "without", sorted(cs)))
        for h, x in F.expand(uncopy(F, info_get(A, s, fi, "optional_features"))):
            c.ob("create.optional", M.consts(x) == {"Sort.Type_then_ID"}, "a new writer announces %s" % sh(x, 4))
    c.ob("create", n >= 1 and seen == {True, False}, "a new writer is never created")

def header_default(c):
    """file information by default: nothing but the features that are always used"""
    p = c.prog
    ks = [k for k in p.find("Default>::default", "osm_io") if p.bodies[k]["body"]["arg_count"] == 0 and p.tys(p.bodies[k]["body"]["locals"][0]["ty"]) == FILEINFO]
    if len(ks) != 1: raise Finding("file information has %d defaults" % len(ks))
    A = Ana(c, ks[0]); F = A.F; M = Members(A, A.st0(), EMPTY, set()); n = 0
    for s, v in A.outs:
        n += 1
        for f, want in (("required_features", {"OsmSchema-V0.6", "DenseNodes"}), ("optional_features", {"Sort.Type_then_ID"})):
            for h, x in F.expand(uncopy(F, info_get(A, s, v, f))):
                cs = M.consts(x)
                if cs is None: raise Finding("the %s by default are %s" % (f, sh(x, 4)))
                c.ob("default." + f, cs == want, "the %s by default are %s" % (f, sorted(cs)))
        for f in ["bounding_box"] + INFO[2:]:
            x = info_get(A, s, v, f)
            c.ob("default." + f, F.N(x) is NONE, "%s by default is %s" % (f, sh(x, 4)))
    c.ob("default", n >= 1, "there is no default file information")

def header_parallel(c):
    p = c.prog
    from rules_write import typed, at
    from rules_pw import setup as pwsetup
    PWT = "osm_io::osm::pbf::parallel_writer::ParallelWriter"
    wt = p.adt_ty[PWT][0]
    A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::from_file_info")); F = A.F; n = 0; ipath = ppath = None
    PATH = "std::path::PathBuf"
    for s, g, w in ok_alts(A):
        n += 1; fi = typed(p, wt, w, FILEINFO); pt = typed(p, wt, w, PATH)
        if len(fi) != 1 or len(pt) != 1: raise Finding("a parallel writer holds %d file informations and %d paths" % (len(fi), len(pt)))
        ipath, ppath = fi[0][0], pt[0][0]
        i, q = [k for k, t in enumerate(A.args) if p.ty(p.bodies[A.key]["body"]["locals"][k + 1]["ty"])["s"] in (FILEINFO, PATH)]
        if p.ty(p.bodies[A.key]["body"]["locals"][i + 1]["ty"])["s"] == FILEINFO: i, q = q, i
        c.ob("parallel.info", F.N(fi[0][1]) is F.N(A.args[q]), "a parallel writer keeps the file information %s" % sh(fi[0][1], 3))
        c.ob("parallel.path", F.N(pt[0][1]) is F.N(A.args[i]), "a parallel writer keeps the path %s" % sh(pt[0][1], 3))
    c.ob("parallel.from", n >= 1, "a parallel writer is never created")
    A = Ana(c, find1(p, "pbf::parallel_writer::ParallelWriter::write_header"), setup=pwsetup); F = A.F; n = 0
    D = mk("deref", A.args[0]); want = at(D, ipath); path = at(D, ppath)
    for s, v in A.outs:
        for ev in trace(s):
            if ev.a[0] != "in_all_threads": continue
            mark = len(A.e.log)
            outs = run_callable(A, s, ev.a[2][1])
            log = A.e.log[mark:]
            fc = [F.N(deref_all(A.e, s, e["args"][0])) for e in log if e["kind"] == "file_create"]
            c.ob("parallel.file", bool(fc) and all(x is F.N(path) for x in fc), "the header goes to the file at %s" % [sh(x, 3) for x in fc])
            for s2, r in outs[:1]:
                n += header_blocks(c, A, "parallel.header", s2, [e["args"] for e in log if e["kind"] == "serialize"], want, NOG)
    c.ob("parallel.header", n >= 1, "the parallel writer writes no header")
