"""Sequential Writer: block accumulation and closing (C12)."""
from rulelib import *
from rules_pbf import pieces, written_roots, be_len, final_self, restrict, walk
import itertools

WRITER = "osm_io::osm::pbf::writer::Writer"
VEC_EL = "std::vec::Vec<osm_io::osm::model::element::Element>"
FILEBLOCK = "osm_io::osm::pbf::file_block::FileBlock"

def serializers(p):
    """the functions that turn one block into (header bytes, body bytes)"""
    out = []
    for k, b in p.bodies.items():
        if "body" not in b or b["krate"] != "osm_io" or "{closure" in k: continue
        L = b["body"]["locals"]; n = b["body"]["arg_count"]
        rt = p.ty(L[0]["ty"])["s"]
        if not rt.startswith("std::result::Result<(std::vec::Vec<u8>, std::vec::Vec<u8>)"): continue
        if any(p.ty(L[i]["ty"])["s"].lstrip("&") == FILEBLOCK for i in range(1, n + 1)): out.append(k)
    if not out: raise Finding("no function turns a file block into header and body bytes")
    return out

def cut_serialize(A):
    """treat the encoding of a block as one step: event `serialize` with the block"""
    p = A.p
    def f(e, st, cc):
        st = st.copy()
        b = [e.snap(st, a) for a in cc.args]
        blk = [x for x in b if x.op == "adt" and x.a[0] == FILEBLOCK or x.op != "adt"]
        e.event(st, "serialize", cc, *b)
        return e.fallible(st, cc, "serialize", okval=TUP(mk("hdr", cc.ctx), mk("bdy", cc.ctx)))
    for k in serializers(p): A.e.intercepts[k] = f

def typed(p, tyid, v, want, d=5, path=()):
    """[(path, value)] of the fields (recursively, structs and Option payloads) whose type is `want`"""
    t = p.ty(tyid)
    if t["s"] == want: return [(path, v)]
    if d == 0 or t["k"] not in ("adt", "tuple"): return []
    out = []
    if t["k"] == "adt":
        if t["adt"].startswith("std::") or len(t.get("variants") or []) != 1: return []
        for i, f in enumerate(t["variants"][0]["fields"]):
            out += typed(p, f[1], I.proj_fld(v, 0, i, f[0]), want, d - 1, path + ((0, i, f[0]),))
    return out
def at(v, path):
    for vi, i, n in path: v = I.proj_fld(v, vi, i, n)
    return v
def block_elements(p, blk):
    """element list of a data block value"""
    vi = vindex(p, FILEBLOCK, "Data")
    if not (blk.op == "adt" and blk.a[0] == FILEBLOCK): return None
    if blk.a[1] != vi: return "header"
    r = []
    for i, f in enumerate(adt_def(p, FILEBLOCK)["variants"][vi]["fields"]):
        r += typed(p, f[1], blk.a[2][i], VEC_EL)
    if len(r) != 1: raise Finding("a data block holds %d element lists" % len(r))
    return r[0][1]

def trace(s):
    t = s.mem.get(("TRACE",), EMPTY); out = []
    def go(t):
        if t is EMPTY: return []
        if t.op == "push": return go(t.a[0]) + [t.a[1]]
        if t.op == "cat": return go(t.a[0]) + go(t.a[1])
        raise Finding("events of a path are not a plain sequence: %s" % sh(t, 3))
    return go(t)

class Seqs:
    """sequence terms over one base sequence B and one element e"""
    def __init__(self, F, base, elem): self.F = F; self.base = base; self.elem = elem
    def tokens(self, t):
        t = self.F.N(t)
        if t is self.base: return ("B",)
        if t is EMPTY: return ()
        if t.op == "push": return self.tokens(t.a[0]) + (("e",) if t.a[1] is self.elem else ("?" + sh(t.a[1], 3),))
        if t.op == "cat": return self.tokens(t.a[0]) + self.tokens(t.a[1])
        if t.op == "adt" and t.a[0] == "array": return tuple("e" if x is self.elem else "?" + sh(x, 3) for x in t.a[2])
        return ("?" + sh(t, 4),)

def num(F, t, env):
    """integer value of a term under env (lengths, constants), or None"""
    if t in env: return env[t]
    if t.op == "len" and t.a[0] is env.get("B"): return env["n"]
    if t.op == "int": return t.a[0]
    r = 0
    try: pl = F.poly(t)
    except Exception: return None
    if set(pl) == {(t,)}: return None
    for m, c in pl.items():
        x = c
        for a in m:
            v = num(F, a, env)
            if v is None: return None
            x = x * v
        r += x
    return r

def lit_value(F, lit, env):
    """True / False / None (unknown) for one literal"""
    t, k, pol = lit
    if isinstance(k, T): k = k.a[0]
    if t.op == "has" and t.a[0] is env.get("B"):
        i = num(F, t.a[1], env)
        return None if i is None else ((i < env["n"]) == k) == bool(pol)
    if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        a, b = num(F, t.a[1], env), num(F, t.a[2], env)
        if a is None or b is None: return None
        r = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[t.a[0]]
        return (r == k) == bool(pol)
    v = num(F, t, env)
    if v is not None and not isinstance(k, bool): return (v == k) == bool(pol)
    return None

def feasible(F, lits, env, kinds):
    """kinds: {term: kind index} of the values whose discriminant is known"""
    for lit in lits:
        t, k, pol = lit
        if t.op == "discr" and t.a[0] in kinds:
            if (kinds[t.a[0]] == k) != bool(pol): return False
            continue
        if t.op == "discr" and t.a[0].op == "elem" and t.a[0].a[0] is env.get("B") and env.get("bk") is not None:
            if (env["bk"] == k) != bool(pol): return False
            continue
        if lit_value(F, lit, env) is False: return False
    return True

def run_writer(c):
    p = c.prog
    c.rule("every element given to the sequential writer is written exactly once and in order: what is written plus what stays buffered equals what was buffered plus the new element, on every path; closing writes all that is left")
    c.rule("every written block holds at most 8000 elements, all of one kind: an inductive invariant over buffer length, buffer kind and accumulator state, established by construction and preserved by every path")
    c.rule("every encoded block is appended to the output file, in order, before success is returned")
    c.guard("writer", writer, c)

def ok_outs(A):
    for s, v in A.outs:
        for g, x in alts(v):
            if x.op == "adt" and x.a[0] == "std::result::Result" and x.a[1] == 0: yield s, g, x
            elif x.op != "adt": raise Finding("unrecognised result %s" % sh(x, 3))

def writer(c):
    p = c.prog
    new = Ana(c, find1(p, "pbf::writer::Writer::from_file_info"), paths=True)
    W0 = [x.a[2][0] for s, g, x in ok_outs(new)]
    if len(set(W0)) != 1: raise Finding("a new writer has %d different states" % len(set(W0)))
    W0 = W0[0]
    key = find1(p, "pbf::writer::Writer::write_element")
    A = Ana(c, key, paths=True, setup=cut_serialize); F = A.F
    C = Ana(c, find1(p, "pbf::writer::Writer::close"), args=[A.args[0]], paths=True, setup=cut_serialize)
    D = mk("deref", A.args[0]); el = A.args[1]
    wty = p.adt_ty[WRITER][0]
    bufs = typed(p, wty, D, VEC_EL)
    if not c.ob("buffer", len(bufs) == 1, "the writer holds %d element buffers" % len(bufs)): return
    bpath, B = bufs[0]; B = F.N(B)
    c.ob("initially-empty", F.N(at(W0, bpath)) is EMPTY, "a new writer already holds %s" % sh(at(W0, bpath)))
    S = Seqs(F, B, el)
    kinds = variants(p, ELEMENT)
    # integer fields that never change
    const = {}
    outs_all = [(A, o) for o in A.outs] + [(C, o) for o in C.outs]
    for lits in [F.NG(s.pc) for (X, (s, v)) in outs_all]:
        for t, k, pol in lits:
            for y in walk(t):
                if y.op == "fld" and D in set(walk(y)):
                    v0 = F.N(F.subst(y, D, W0))
                    if v0.op == "int" and all(F.N(F.subst(y, D, final_self(X, s2))) is F.N(y) for X, (s2, v2) in outs_all):
                        const[F.N(y)] = v0.a[0]
    # modes: enumerations of the writer looked at by the code
    modes = {}
    for X, (s, v) in outs_all:
        for t, k, pol in F.NG(s.pc):
            if t.op == "discr" and D in set(walk(t)) and t.a[0].op == "fld" and B not in set(walk(t)):
                modes[t.a[0]] = None
    modes = [m for m in modes if m.op == "fld"]
    def mode_of(v, m, cur):
        x = F.N(F.subst(m, D, v))
        if x.op == "adt": return x.a[1]
        if x is m: return cur
        return None
    def sel_self(X, s, g): return restrict(final_self(X, s), F.NG(g | s.pc))
    paths = []
    for s, g, x in ok_outs(A): paths.append(path_of(c, p, A, F, S, s, g, D, bpath, sel_self(A, s, g)))
    cpaths = []
    for s, g, x in ok_outs(C): cpaths.append(path_of(c, p, C, F, S, s, g, D, bpath, sel_self(C, s, g)))
    LIMIT = 8000
    lens = sorted({0, 1, 2, 3} | {x + d for x in list(const.values()) + [LIMIT] for d in (-3, -2, -1, 0, 1) if 0 <= x + d})
    caps = [v for v in const.values() if v > 1]
    # the inductive bound: buffered elements stay below the smallest declared capacity
    N = min([v for v in caps if v <= LIMIT] or [LIMIT])
    m0 = tuple(mode_of(W0, m, None) for m in modes)
    if any(x is None for x in m0): raise Finding("the initial accumulator state is unknown")
    start = (m0, None, -1)
    todo = [start]; seen = {start}; nst = 0
    sent = kinds.index("Sentinel")
    while todo:
        st = todo.pop(); md, bk, last = st; nst += 1
        ns = [0] if bk is None else [n for n in lens if 0 < n < N] + list(range(1, N) if c.tier == "thorough" else [])
        for ek in range(len(kinds)):
            name = "%s after %s" % (kinds[ek], kinds[last] if last >= 0 else "nothing")
            for n in ns:
                env = dict(const); env.update({"B": B, "n": n, "bk": bk})
                kk = {el: ek}; kk.update(dict(zip(modes, md)))
                hit = False
                for P in paths:
                    if not feasible(F, P.lits, env, kk): continue
                    hit = True
                    if ek != sent and last >= 0 and ek < last:
                        c.fail("out-of-order", "%s is accepted silently" % name); return
                    allt = [t for t in itertools.chain(*P.blocks, P.rest) if not (t == "B" and n == 0)]
                    want = ([] if n == 0 else ["B"]) + ([] if ek == sent else ["e"])
                    if allt != want:
                        c.fail("conservation", "%s with %d elements buffered: blocks %s, still buffered %s; the elements must be written or kept exactly once, in order" % (name, n, P.blocks, P.rest)); return
                    for toks in P.blocks:
                        size = sum(n if t == "B" else 1 for t in toks)
                        if size > LIMIT: c.fail("block-size", "%s: a block of %d elements is written" % (name, size)); return
                        ks = {bk if t == "B" else ek for t in toks if not (t == "B" and n == 0)}
                        if len(ks) > 1: c.fail("block-kind", "%s: a block mixing %s is written" % (name, [kinds[k] for k in ks])); return
                    n2 = sum(n if t == "B" else 1 for t in P.rest)
                    if n2 >= N: c.fail("buffer-bound", "%s: %d elements stay buffered, blocks would exceed the limit" % (name, n2)); return
                    ks = {bk if t == "B" else ek for t in P.rest if not (t == "B" and n == 0)}
                    if len(ks) > 1: c.fail("buffer-kind", "%s: the buffer mixes %s" % (name, [kinds[k] for k in ks])); return
                    md2 = tuple(mode_of(P.self2, m, cur) for m, cur in zip(modes, md))
                    if None in md2: c.fail("state", "%s: accumulator state becomes unknown" % name); return
                    st2 = (md2, (ks.pop() if ks else None) if n2 else None, max(last, ek) if ek != sent else last)
                    if st2 not in seen: seen.add(st2); todo.append(st2)
                if not hit and (ek == sent or ek >= last):
                    c.fail("accepted", "%s with %d elements buffered is never accepted" % (name, n)); return
        # closing in this state
        for n in ns:
            env = dict(const); env.update({"B": B, "n": n, "bk": bk})
            hit = False
            for P in cpaths:
                if not feasible(F, P.lits, env, dict(zip(modes, md))): continue
                hit = True
                allt = [t for t in itertools.chain(*P.blocks) if not (t == "B" and n == 0)]
                if allt != ([] if n == 0 else ["B"]): c.fail("close", "closing with %d elements buffered writes %s" % (n, P.blocks)); return
                if sum(n if t == "B" else 1 for t in P.rest): c.fail("close.rest", "after closing, %s is still buffered and would be written again" % (P.rest,)); return
            if not hit: c.fail("close.accepted", "closing with %d elements buffered is never successful" % n); return
    for k in ("conservation", "block-size", "block-kind", "buffer-bound", "buffer-kind", "out-of-order", "accepted", "close", "close.rest"): c.ob(k, True)
    c.metrics["abstract_states"] = nst; c.metrics["paths"] = len(paths) + len(cpaths)
    c.ob("kinds-reached", {s[1] for s in seen} >= {None, 0, 1, 2}, "not every kind of buffer is reachable: %s" % {s[1] for s in seen})

class Path: pass
def path_of(c, p, X, F, S, s, g, D, bpath, self2):
    P = Path()
    P.lits = F.NG(g | s.pc); P.self2 = self2
    P.rest = S.tokens(at(self2, bpath))
    P.blocks = []
    want = []
    c.ob("write:all", not X.events("write_partial"), "a partial write() is used")
    for ev in trace(s):
        if ev.a[0] == "serialize":
            blk = [b for b in ev.a[2] if b.op == "adt" and b.a[0] == FILEBLOCK]
            if len(blk) != 1: raise Finding("a block is encoded from %s" % [sh(b, 3) for b in ev.a[2]])
            els = block_elements(p, blk[0])
            if els == "header": continue
            P.blocks.append(S.tokens(els))
            want.append(ev.a[1])
    ws = written_roots(self2)
    got = []
    for y, b in ws: got.append(pieces(y, b))
    flat = [x for l in got for x in (l or [mk("sym", "?")])]
    exp = []
    for cx in want: exp += [("len", mk("hdr", cx)), mk("hdr", cx), mk("bdy", cx)]
    ok = len(flat) == len(exp) and all((be_len(F, a) is F.N(mk("len", b[1]))) if isinstance(b, tuple) else a is b for a, b in zip(flat, exp)) and len(ws) <= 1
    c.ob("appended", ok, "%d blocks are encoded but the file gets %s" % (len(want), [sh(x, 3) for x in flat]))
    return P
