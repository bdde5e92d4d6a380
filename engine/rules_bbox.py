"""Bounding boxes of element lists, blocks and files (C24)."""
from rulelib import *
from rules_read import *
from rules_model import run_boxes_model
from fineval import ev, holds, Outside
import itertools

def run_boxes(c):
    run_boxes_model(c)
    c.rule("every loop that accumulates a box keeps result = box joined with the coordinates of exactly the nodes seen so far (inductive step decided for every order type of the values), runs over all elements, and is combined with the shared cell in one locked step; the box of a file is the cell after all commands succeeded")
    c.guard("data", box_data, c); c.guard("compute", box_compute, c); c.guard("command", box_command, c); c.guard("calc", box_calc, c)

class Boxes:
    """order types of boxes and coordinates"""
    def __init__(self, c, A):
        self.c = c; p = self.p = c.prog; self.A = A; self.F = A.F
        e = make_engine(p); S = [mk("sym", n, "f64") for n in EDGES]
        b = call(e, find1(p, "model::bounding_box::BoundingBox::new"), *S)
        if b.op != "adt": raise Finding("a bounding box is not a plain structure")
        self.pos = []
        for x in b.a[2]:
            if x not in S: raise Finding("a bounding box stores %s" % sh(x, 3))
            self.pos.append(S.index(x))
    def box(self, l, b, r, t): return ("some", ("adt", "BoundingBox", 0) + tuple((l, b, r, t)[i] for i in self.pos))
    def un(self, v):
        if v is None: return None
        if not (isinstance(v, tuple) and v[0] == "some"): raise Outside("not an optional box")
        x = v[1][3:]; o = [0] * 4
        for i, y in zip(self.pos, x): o[i] = y
        return tuple(o)
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        return self.box(*[f(x, y) for f, x, y in zip((min, min, max, max), self.un(a), self.un(b))])
    def states(self): return [None] + [self.box(l, b, r, t) for l, r in ((1, 1), (1, 3)) for b, t in ((1, 1), (1, 3))]

def phis_in(F, ts):
    """loop variables a value depends on, through their steps"""
    out = []; todo = list(ts); seen = set()
    while todo:
        for y in walk(todo.pop()):
            if y in seen: continue
            seen.add(y)
            if y.op == "phi" and y in F.e.phis: out.append(y)
    return out

def strip(F, g, aux):
    """literals other than those already assumed"""
    return frozenset(l for l in F.NG(g) if not aux(l))

def value(alts, env):
    hit = [ev(v, env) for g, v in alts if holds(g, env)]
    if not hit: raise Outside("no case applies")
    if any(h != hit[0] for h in hit): raise Outside("ambiguous")
    return hit[0]

def lit_terms(g):
    for t, k, p in g:
        if t.op == "or":
            for h in t.a[0]: yield from lit_terms(h)
        else: yield t
def inner(g):
    """terms in a guard, disjunctions included"""
    for t in lit_terms(g): yield from walk(t)

def accumulates(c, A, tag, outs, seq, cell=None, fixed={}):
    """outs [(guard, optional box)]: result = cell joined with the coordinates of the nodes of seq; `fixed`: what else is assumed"""
    p = c.prog; F = A.F; B = Boxes(c, A); seq = F.N(seq)
    R = [(F.NG(g), F.N(v)) for g, v in outs]
    ph = []; seen = set(); todo = [y for g, v in R for y in list(inner(g)) + [v]]
    while todo:
        for y in walk(todo.pop()):
            if y in seen: continue
            seen.add(y)
            if y.op == "phi" and y in F.e.phis and not any(t.op == "has" and y is t.a[1] for t in seen): ph.append(y)
    loops = {(F.e.phis[x]["key"], x.a[3]) for x in ph}
    if len(loops) != 1: raise Finding("the box comes from %d loops" % len(loops))
    ix = F.walks(F.e.phis[ph[0]]["key"], [seq])
    c.ob(tag + ".all", ix is not None, "the box may be finished before all the elements were seen, or looks at other elements")
    if ix is None: return
    ph = [x for x in ph if F.N(x) is not ix]
    if not ph: raise Finding("the box does not come from a loop over the elements")
    el = F.N(mk("elem", seq, ix))
    nd = payload(p, el, ELEMENT, "Node")
    co = A.call(find1(p, "model::node::Node::coordinate"), nd)
    LAT = F.N(A.call(find1(p, "model::coordinate::Coordinate::lat"), co)); LON = F.N(A.call(find1(p, "model::coordinate::Coordinate::lon"), co))
    kinds = [v["name"] for v in adt_def(p, ELEMENT)["variants"]]
    doms = {}
    def dom(x):
        i = F.N(F.e.phis[x]["init"])
        if i.op == "adt" and i.a[0].endswith("option::Option"): return B.states()
        if i.op == "bool": return [False, True]
        if i.op in ("float", "int"): return [1, 2, 3]
        raise Finding("the loop keeps a %s" % sh(i, 3))
    steps = {}; fix = {F.N(k): v for k, v in fixed.items()}
    for x in ph:
        doms[x] = dom(x); st = []
        for q in F.e.phis[x]["step"]:
            for h, y in F.expand(q):
                g = F.NG(h | F.e.phis[x].get("steppc", NOG))
                if contradicts(g, NOG): continue
                st.append((g, F.N(y)))
        steps[x] = st
    has = F.N(mk("has", seq, ix))
    for g, v in R + [z for st in steps.values() for z in st]:
        for t in list(lit_terms(g)):
            if t.op == "discr" and t.a[0].op == "call" and t not in fix: fix[t] = 0
    cells = [None, B.box(2, 2, 2, 2), B.box(0, 1, 3, 4)] if cell is not None else [None]
    n = 0
    def at(env):
        e2 = dict(env); e2[has] = False; return value(R, e2)
    for cv in cells:
        base = dict(fix)
        if cell is not None: base[F.N(cell)] = cv
        env = dict(base)
        for x in ph: env[x] = ev(F.N(F.e.phis[x]["init"]), {})
        c.ob(tag + ".start", at(env) == cv, "without any nodes the box is %s instead of %s" % (at(env), cv))
        for vals in itertools.product(*[doms[x] for x in ph]):
            env = dict(base); env.update(zip(ph, vals)); r0 = at(env)
            for k, kn in enumerate(kinds):
                for lat, lon in (itertools.product(range(5), repeat=2) if kn == "Node" else ((0, 0),)):
                    e2 = dict(env); e2[mk("discr", el)] = k; e2[has] = True
                    if kn == "Node": e2[LAT] = lat; e2[LON] = lon
                    e3 = dict(base)
                    for x in ph: e3[x] = value(steps[x], e2)
                    r1 = at(e3); n += 1
                    want = B.join(r0, B.box(lon, lat, lon, lat)) if kn == "Node" else r0
                    if r1 != want:
                        c.fail(tag + ".step", "after a %s at lat %d lon %d the box %s becomes %s, expected %s" % (kn, lat, lon, r0, r1, want)); return
    c.ob(tag + ".step", n >= 50, "the loop was not decided")
    c.metrics["order_types"] = c.metrics.get("order_types", 0) + n
    return fix

OSMDATA = "osm_io::osm::pbf::osm_data::OsmData"
def data_fields(p, v):
    from rules_write import typed, VEC_EL
    ty = p.adt_ty[OSMDATA][0]
    e = typed(p, ty, v, VEC_EL); b = typed(p, ty, v, "std::option::Option<%s>" % BBOX)
    if len(e) != 1 or len(b) > 1: raise Finding("block data holds %d element lists and %d boxes" % (len(e), len(b)))
    return e[0][1], b[0][1] if b else None
def box_data(c):
    p = c.prog
    A = Ana(c, find1(p, "pbf::osm_data::OsmData::recompute_bounding_box"), setup=lambda A: setattr(A.e, "orpc", True))
    el, _ = data_fields(p, mk("deref", A.args[0]))
    outs = [(h | s.pc, x) for s, v in A.outs for h, x in A.F.expand(v) if not contradicts(A.F.NG(h), A.F.NG(s.pc))]
    accumulates(c, A, "recompute", outs, el)
def box_compute(c):
    """stored box if there is one, otherwise the recomputed one; a header block has the box of its header"""
    p = c.prog
    cut = find1(p, "pbf::osm_data::OsmData::recompute_bounding_box")
    def st(A):
        def f(e, s, cc): return [(s, fn("boxof", e.load(s, cc.args[0])))]
        A.e.intercepts[cut] = f
    A = Ana(c, find1(p, "pbf::osm_data::OsmData::compute_bounding_box"), setup=st); F = A.F
    me = mk("deref", A.args[0]); _, stored = data_fields(p, me); n = 0
    for s, v in A.outs:
        for h, x in F.expand(v):
            for d in I.dnf(F.NG(h | s.pc)):
                k = lit_num(F, F.NG(d), stored, (0, 1)) if stored is not None else 0; n += 1
                if k == 1: c.ob("compute.stored", eqv(F, x, stored, d), "the box of block data is %s although one is stored" % sh(x, 3))
                else: c.ob("compute.new", k == 0 and F.N(x) is F.N(fn("boxof", me)), "the box of block data is %s, expected the recomputed one" % sh(x, 3))
    c.ob("compute", n >= 1, "the box of block data is never computed")

def cmd_cell(p, ty, v):
    """the shared cell of a box command: (field index, its value)"""
    r = [(i, I.proj_fld(v, 0, i, f[0])) for i, f in enumerate(adt_def(p, ty)["variants"][0]["fields"]) if BBOX in p.tys(f[1])]
    if len(r) != 1: raise Finding("%s shares %d boxes" % (ty, len(r)))
    return r[0]
def box_commands(c):
    p = c.prog; ks = set()
    def st0(A): cut_pull(A, BI); cut_block(A)
    B = Ana(c, find1(p, "pbf::bounding_box_calculator::BoundingBoxCalculator::calc"), setup=st0)
    for ev_ in B.events("submit"):
        for g, x in B.F.expand(ev_["args"][1]):
            cmd_type(p, x); ks.add(x.a[0])
    if not ks: raise Finding("the box calculation submits no commands")
    return sorted(ks)
def precise(A): cut_block(A); A.e.orpc = True
def box_command(c):
    p = c.prog
    kd, kh = vindex(p, FILEBLOCK, "Data"), vindex(p, FILEBLOCK, "Header")
    for ty in box_commands(c):
        k = "<%s as command_executor::command::Command>::execute" % ty
        if not p.has_body(k): raise Finding("anchor %s: not found" % k)
        A = Ana(c, k, setup=precise); F = A.F; me = mk("deref", A.args[0])
        ds = [I.proj_fld(me, 0, i, f[0]) for i, f in enumerate(adt_def(p, ty)["variants"][0]["fields"]) if p.tys(f[1]) == DESC]
        if len(ds) != 1: raise Finding("%s works on %d blobs" % (ty, len(ds)))
        b = F.N(fn("blockof", ds[0])); el = data_elements(c, A, b)
        ci, cf = cmd_cell(p, ty, me)
        cell0 = A.e.load(A.e_st0 if hasattr(A, "e_st0") else State(), cf)
        data = []; n = 0
        for s, g, x in ok_outs(A):
            n += 1; gg = g | s.pc
            fin = A.e.load(s, cf)
            for h, y in F.expand(fin): data.append((h | gg, y))
            for r in [r for r in s.mem if r[0] == "S"]: c.fail("command.state", "the command keeps state between blobs")
        c.ob("command.ok", n >= 1, "the command never succeeds")
        kb = mk("discr", b)
        fix = accumulates(c, A, "command", data, el, cell0, {kb: kd})
        if fix is None: return
        # a block that is not decoded is an error; a header block changes nothing
        B = Boxes(c, A)
        calls = [t for t in fix if t.op == "discr" and t.a[0].op == "call" and "from_blob_desc" in str(t.a[0].a[0])]
        c.ob("command.decode", len(calls) >= 1, "the command succeeds whether or not its block can be decoded")
        for t in calls:
            env = dict(fix); env[t] = 1; r = True
            for s, g, x in ok_outs(A):
                try: r = not holds(F.NG(g | s.pc), env)
                except Outside: r = False
            c.ob("command.error", r, "the command succeeds although its block cannot be decoded")
        for cv in B.states():
            env = dict(fix); env[F.N(kb)] = kh; env[F.N(cell0)] = cv
            try: r = value([(F.NG(g), F.N(v)) for g, v in data], env)
            except Outside as x: r = "(%s)" % x
            c.ob("command.header", r == cv, "a header block changes the box %s to %s" % (cv, r))
        # one locked step
        lk = [e for e in A.e.log if e["kind"] == "lock"]
        c.ob("command.lock", bool(lk) and all(F.N(e["args"][1]) is F.N(cf) or A.e.load(State(), e["args"][1]) is cell0 for e in lk), "the command locks %s" % [sh(e["args"][1], 3) for e in lk])
        B2 = Ana(c, k, setup=cut_block, paths=True)
        for s, v in B2.outs:
            m = [e for e in tail(s.mem.get(("TRACE",), EMPTY)) if e.a[0] == "lock"]
            c.ob("command.once", len(m) <= 1, "the shared box is read and written in %d locked steps" % len(m))

def arc(t):
    while t.op == "adt" and t.a[0] in ("arc", "std::sync::Arc", "mutex") and len(t.a[2]) == 1: t = t.a[2][0]
    return t
def box_calc(c):
    p = c.prog; CALC = "pbf::bounding_box_calculator::BoundingBoxCalculator::"
    def st(A):
        cut_pull(A, BI); cut_block(A); A.e.orpc = True
        def hook(e, s):
            for r in list(s.mem):
                if r[0] == "H": s.mem[r] = fn("shared", mk("sym", "cell:%s" % (r,)), s.mem[r])
        A.e.join_hook = hook
    A = Ana(c, find1(p, CALC + "calc"), paths=True, setup=st); F = A.F; me = mk("deref", A.args[0]); n = 0
    CT = [k for k in p.adt_ty if k.endswith("bounding_box_calculator::BoundingBoxCalculator")][0]
    paths = {I.proj_fld(me, 0, i, f[0]) for i, f in enumerate(adt_def(p, CT)["variants"][0]["fields"]) if p.tys(f[1]) == "std::path::PathBuf"}
    for s, g, x in ok_outs(A):
        n += 1; gg = F.NG(g | s.pc)
        cmds = submission(c, A, s, g, paths)
        cells = set()
        for s1, q in A.e.submitted:
            for h, q in F.expand(q):
                while q.op == "ref": q = A.e.load(s1, q)
                for h2, q in F.expand(q):
                    cmd_type(p, q); cells |= {arc(cmd_cell(p, q.a[0], q)[1])}
        c.ob("calc.cell", len(cells) == 1 and all(y.op == "ref" and y.a[0][0] == "H" for y in cells), "the commands share %s" % [sh(y, 3) for y in cells])
        for y in cells:
            if y.op != "ref": continue
            want = [z for z in walk(x) if z.op == "fn" and z.a[0] == "shared" and z.a[1][0] is mk("sym", "cell:%s" % (y.a[0],))]
            c.ob("calc.result", bool(want) and F.N(x) is F.N(some(want[0])), "the box of a file is %s, expected what the commands accumulated" % sh(x, 4))
            if want:
                c.ob("calc.start", F.N(want[0].a[1][1]) is NONE, "the accumulation starts from %s" % sh(want[0].a[1][1], 3))
                c.ob("calc.some", all(lit_num(F, F.NG(d), want[0], (0, 1)) == 1 for d in I.dnf(gg)), "a box is returned although no node was seen")
    c.ob("calc.ok", n >= 1, "the box of a file is never computed")
    A = Ana(c, find1(p, CALC + "new"))
    for s, v in A.outs:
        ps = {A.F.N(deref_all(A.e, s, I.proj_fld(v, 0, i, f[0]))) for i, f in enumerate(adt_def(p, CT)["variants"][0]["fields"]) if p.tys(f[1]) == "std::path::PathBuf"}
        c.ob("calc.path", ps == {A.F.N(mk("deref", A.args[0]))}, "the calculation reads %s, expected the path it was given" % [sh(y, 3) for y in ps])
