"""Model objects: element order (C16), bounding boxes (part of C24), accessors."""
from rulelib import *
from fineval import ev, holds, outcome, Outside
import itertools

BB = "osm_io::osm::model::bounding_box::BoundingBox"

def run_order(c):
    p = c.prog
    c.rule("for every pair of kinds and every ordering of (id, version), cmp/partial_cmp/eq/ne/lt/le/gt/ge give the result of the order Node < Way < Relation < Sentinel, then id, then version")
    kinds = variants(p, ELEMENT)
    rank = {"Node": 0, "Way": 1, "Relation": 2, "Sentinel": 3}
    c.ob("kinds", set(kinds) == set(rank), "element kinds are %s" % kinds)
    mods = {"Node": "node", "Way": "way", "Relation": "relation"}
    fns = [("cmp", "<%s as std::cmp::Ord>::cmp" % ELEMENT, True), ("partial_cmp", "<%s as std::cmp::PartialOrd>::partial_cmp" % ELEMENT, True),
           ("eq", "<%s as std::cmp::PartialEq>::eq" % ELEMENT, True)]
    for n in ("ne", "lt", "le", "gt", "ge"):
        fns.append((n, "<%s as std::cmp::%s>::%s" % (ELEMENT, "PartialEq" if n == "ne" else "PartialOrd", n), False))
    fns += [("same_type", "model::element::Element::same_type", True)] + [("is_" + k.lower(), "model::element::Element::is_" + k.lower(), True) for k in rank]
    for name, key, must in fns:
        ks = p.find(key)
        if not ks and not must: continue
        def do(name=name, key=key):
            A = Ana(c, find1(p, key), paths=True)
            E = [mk("deref", a) for a in A.args]
            atoms = []
            for x in E:
                d = {}
                for k in kinds:
                    if k in mods:
                        pl = payload(p, x, ELEMENT, k)
                        for f in ("id", "version"): d[k, f] = call(A.e, find1(p, "model::%s::%s::%s" % (mods[k], k, f)), pl)
                atoms.append(d)
            n = 0
            for ks2 in itertools.product(kinds, repeat=len(E)):
                for vals in itertools.product((0, 1), repeat=2 * len(E)):
                    env = {}
                    key_ = []
                    for i, x in enumerate(E):
                        env[mk("discr", x)] = kinds.index(ks2[i])
                        iv = vals[2 * i: 2 * i + 2]
                        if ks2[i] in mods:
                            env[atoms[i][ks2[i], "id"]] = iv[0] + 10
                            env[atoms[i][ks2[i], "version"]] = iv[1] + 20
                            key_.append((rank[ks2[i]],) + iv)
                        else: key_.append((rank[ks2[i]],))
                    try: r = outcome(A.outs, env)
                    except Outside as x:
                        c.fail("%s" % name, "%s of %s looks at its arguments other than by comparing type, id and version: %s" % (name, ks2, x)); return
                    if len(E) == 2:
                        a, b = key_
                        o = (a > b) - (a < b)
                        want = {"cmp": o, "partial_cmp": ("some", o), "eq": o == 0, "ne": o != 0, "lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0, "same_type": ks2[0] == ks2[1]}[name]
                    else: want = "is_" + ks2[0].lower() == name
                    n += 1
                    if r != want or type(r) != type(want):
                        c.fail(name, "%s of %s with (id, version) orders %s is %s, expected %s" % (name, " and ".join(ks2), key_, r, want)); return
            c.metrics["order_types"] = c.metrics.get("order_types", 0) + n
            c.ob(name, True)
        c.guard(name, do)

def run_boxes_model(c):
    """merge_point / merge_bounding_box / from_point"""
    p = c.prog
    c.rule("BoundingBox::merge_point, merge_bounding_box and from_point compute exactly the minimum/maximum of each side, for every ordering of the values involved")
    g = lambda n: find1(p, "model::bounding_box::BoundingBox::" + n)
    sides = ("left", "bottom", "right", "top")
    S = lambda n: mk("sym", n, "f64")
    def box(e, pre): return call(e, g("new"), *[S(pre + s) for s in sides])
    def coord(e): return call(e, find1(p, "model::coordinate::Coordinate::new"), S("lat"), S("lon"))
    def after(name, other):
        e0 = make_engine(p)
        key = g(name)
        st = State()
        bx = box(e0, "a_"); oth = coord(e0) if other == "point" else box(e0, "b_")
        A = Ana.__new__(Ana)
        A.c = c; A.p = p; A.key = key; A.e = e0; A.F = Flow(e0)
        r = REF(e0.alloc(st, e0.ctx(None, "root", key), "self", bx), ())
        o = e0.ref_to(oth)
        e0.paths = True
        outs = e0.run_fn(key, [r, o], st, e0.ctx(None, "root", key))
        e0.paths = False
        e0.visited = set(e0.analysed); c.use_engine(e0)
        res = []
        for s, v in outs: res.append((s, e0.load(s, r)))
        return e0, res
    def check(name, other):
        e, res = after(name, other)
        names = ["a_" + s for s in sides] + (["lat", "lon"] if other == "point" else ["b_" + s for s in sides])
        proj = {s: [(st, call(e, g(s), v)) for st, v in res] for s in sides}
        n = 0
        # sides are independent of each other: vary the pair that matters, hold the rest at several places
        for s in sides:
            on = ("lon" if s in ("left", "right") else "lat") if other == "point" else "b_" + s
            lo = s in ("left", "bottom")
            for x, y in ((0, 1), (1, 0), (1, 1)):
                for rest in itertools.product((-1, 0, 1, 2), repeat=2):
                    env = {}
                    for i, nm in enumerate(names): env[S(nm)] = rest[i % 2] if nm not in ("a_" + s, on) else None
                    env[S("a_" + s)] = x; env[S(on)] = y
                    r = outcome(proj[s], env)
                    want = min(x, y) if lo else max(x, y)
                    n += 1
                    if r != want:
                        c.fail("%s.%s" % (name, s), "%s: %s becomes %s where it was %d and the merged value is %d" % (name, s, r, x, y)); return
            c.ob("%s.%s" % (name, s), True)
        c.metrics["order_types"] = c.metrics.get("order_types", 0) + n
    c.guard("merge_point", check, "merge_point", "point")
    c.guard("merge_bounding_box", check, "merge_bounding_box", "box")
    def fp():
        e = make_engine(p)
        b = call(e, g("from_point"), coord(e))
        for s in sides:
            v = call(e, g(s), b)
            c.ob("from_point." + s, v is S("lon" if s in ("left", "right") else "lat"), "from_point: %s is %s" % (s, sh(v)))
    c.guard("from_point", fp)
