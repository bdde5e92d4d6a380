"""Model values and header information report exactly what they were given (C36)."""
from rulelib import *
from rules_read import eqv
from fineval import outcome, Outside
import itertools, re

M = "osm_io::osm::model::"
INFO = ["id", "version", "timestamp", "changeset", "uid", "user", "visible"]
TYPES = {
 "Node": (M + "node::Node", ["id", "version", "coordinate", "timestamp", "changeset", "uid", "user", "visible", "tags"]),
 "Way": (M + "way::Way", ["id", "version", "timestamp", "changeset", "uid", "user", "visible", "refs", "tags"]),
 "Relation": (M + "relation::Relation", ["id", "version", "timestamp", "changeset", "uid", "user", "visible", "members", "tags"]),
 "MemberData": (M + "relation::MemberData", ["id", "role"]),
 "Tag": (M + "tag::Tag", ["k", "v"]),
 "Coordinate": (M + "coordinate::Coordinate", ["lat", "lon"]),
 "BoundingBox": (M + "bounding_box::BoundingBox", ["left", "bottom", "right", "top"]),
 "FileInfo": ("osm_io::osm::pbf::file_info::FileInfo", ["bounding_box", "required_features", "optional_features", "writingprogram", "source",
              "osmosis_replication_timestamp", "osmosis_replication_sequence_number", "osmosis_replication_base_url"]),
}
COPIES = ["Node", "Way", "Relation", "MemberData", "Tag", "Coordinate", "BoundingBox", "FileInfo"]

def made(c, name):
    """(key of constructor, parameter symbols, value it returns)"""
    p = c.prog; path, fs = TYPES[name]
    A = Ana(c, find1(p, path[len("osm_io::osm::"):] + "::new"))
    if len(A.args) != len(fs): raise Finding("%s::new takes %d values, %d are expected" % (name, len(A.args), len(fs)))
    if len(A.outs) != 1: raise Finding("%s::new does not always return" % name)
    return A, A.args, A.outs[0][1]

def obj(A, st, v):
    """a value in memory of its own: (state, reference)"""
    st = st.copy()
    return st, REF(A.e.alloc(st, A.e.ctx(None, "obj", A.key), "self", v), ())

def run1(A, key, args, st):
    n = len(A.e.log)
    outs = A.e.run_fn(key, args, st, A.e.ctx(None, "get", key, tuple(args)))
    A.e.visited = set(A.e.analysed); A.c.use_engine(A.e)
    if len(outs) != 1: raise Finding("%s has %d outcomes" % (key, len(outs)))
    return outs[0]

def values_of(c, name):
    """every getter of a value made by its constructor gives what the constructor was given"""
    p = c.prog; path, fs = TYPES[name]; short = path[len("osm_io::osm::"):]
    def do():
        A, syms, v = made(c, name); F = A.F
        def get(f, st, r):
            s, x = run1(A, find1(p, short + "::" + f), [r], st)
            return F.N(deref_all(A.e, s, x))
        for f, y in zip(fs, syms):
            st, r = obj(A, A.outs[0][0], v)
            x = get(f, st, r)
            c.ob("%s.%s" % (name, f), eqv(F, x, y), "%s: %s() of a new %s is %s" % (loc(p, find1(p, short + "::" + f)), f, name, sh(x)))
        for k in sorted(p.bodies):
            if not k.endswith("::take_" + k.split("::take_")[-1]) or not k.endswith(short.split("::")[-1] + "::take_" + k.split("::take_")[-1]) or short not in k: continue
            f = k.split("::take_")[-1]
            if f not in fs: continue
            st, r = obj(A, A.outs[0][0], v)
            s, x = run1(A, k, [r], st)
            x = F.N(deref_all(A.e, s, x))
            c.ob("%s.take_%s" % (name, f), eqv(F, x, syms[fs.index(f)]), "%s returns %s instead of the value" % (loc(p, k), sh(x)))
            for g, y in zip(fs, syms):
                if g == f: continue
                c.ob("%s.take_%s keeps %s" % (name, f, g), eqv(F, get(g, s, r), y), "%s changes %s to %s" % (loc(p, k), g, sh(get(g, s, r))))
        if name == "Coordinate":
            for f, y in (("lat7", syms[0]), ("lon7", syms[1])):
                st, r = obj(A, A.outs[0][0], v)
                x = get(f, st, r)
                c.ob("Coordinate.%s" % f, nearest(F, x, y), "%s is %s instead of the value in units of 1e-7 degrees, rounded to the nearest" % (loc(p, find1(p, short + "::" + f)), sh(x)))
        cl = p.bodies.get("<%s as std::clone::Clone>::clone" % path)
        if cl:
            st, r = obj(A, A.outs[0][0], v)
            s, x = run1(A, "<%s as std::clone::Clone>::clone" % path, [r], st)
            st2, r2 = obj(A, s, x)
            for f, y in zip(fs, syms):
                g = get(f, st2, r2)
                c.ob("%s clone %s" % (name, f), eqv(F, g, y), "%s of a clone is %s" % (f, sh(g)))
        else: c.fail("%s clone" % name, "%s cannot be cloned" % name)
    c.guard("values:" + name, do)

def nearest(F, x, y):
    """x is round(y * 1e7) as an integer"""
    want = F.N(I.castv("fi", "i64", fn("round", I.binop1("Mul", y, mk("float", 10000000.0)))))
    return unnarrow(F.N(x)) is want     # 180e7 fits 32 bits

def setters(c):
    """every with_* changes its own field to the given value and no other one"""
    p = c.prog; path, fs = TYPES["FileInfo"]; short = path[len("osm_io::osm::"):]
    def do():
        A, syms, v = made(c, "FileInfo"); F = A.F
        def get(f, st, r):
            s, x = run1(A, find1(p, short + "::" + f), [r], st)
            return F.N(deref_all(A.e, s, x))
        ks = [k for k in sorted(p.bodies) if re.search(r"::FileInfo::with_\w+$", k)]
        c.ob("FileInfo setters", len(ks) >= len(fs), "setters of a file information: %s" % ks)
        for k in ks:
            f = k.split("::with_")[-1]; base = f if f in fs else f[:-4] if f.endswith("_str") and f[:-4] in fs else None
            if base is None: continue
            st, r = obj(A, A.outs[0][0], v)
            ty = p.bodies[k]["body"]["locals"][2]["ty"]
            given = mk("sym", "given", ty)
            arg = given
            t = p.ty(ty)
            if t["k"] == "ref" and not p.ty(t["elem"])["k"] in ("str", "slice"): arg = A.e.ref_to(mk("sym", "given", t["elem"]))
            s, _ = run1(A, k, [r, arg], st)
            for g, y in zip(fs, syms):
                x = get(g, s, r)
                if g != base: c.ob("FileInfo.with_%s keeps %s" % (f, g), eqv(F, x, y), "%s changes %s to %s" % (loc(p, k), g, sh(x)))
                else:
                    w = F.N(deref_all(A.e, s, arg))
                    ok = eqv(F, x, w) or f != base and x.op == "adt" and x.a[1] == 1 and len(x.a[2]) == 1 and F.N(x.a[2][0]) in (w, F.N(mk("deref", w)))
                    if not ok and x.op == "deref" and F.N(x.a[0]) is F.N(arg): ok = True
                    c.ob("FileInfo.with_%s" % f, ok, "%s: the field becomes %s instead of the given %s" % (loc(p, k), sh(x), sh(w)))
    c.guard("setters", do)

def features_asked(c):
    """asking for a feature answers whether the list of that name holds it"""
    from rules_read import Members
    p = c.prog
    def do(f):
        key = find1(p, "pbf::file_info::FileInfo::" + f)
        A = Ana(c, key, paths=True); F = A.F
        L = call(A.e, find1(p, "pbf::file_info::FileInfo::%s_features" % f), mk("deref", A.args[0]))
        L = F.N(L if L.op != "ref" else deref_all(A.e, A.outs[0][0], L)); q = A.args[1]
        def is_q(s, t):
            t = deref_all(A.e, s, t) if t.op == "ref" else t
            while t.op == "deref": t = t.a[0]
            return F.N(t) is F.N(q)
        def asks(s, t):
            """t states that L holds the feature"""
            if t.op == "fn" and t.a[0] in ("contains", "holds?", "haskey"): l, x = t.a[1]
            elif t.op in ("contains", "holds?", "haskey"): l, x = t.a
            else: return False
            l = F.N(deref_all(A.e, s, l)) if l.op == "ref" else F.N(l)
            return is_q(s, x) and (l is L or t.op == "haskey" and Members(A, s, L, set()).elems(l))
        ok = len(A.outs) > 0
        for s, v in A.outs:
            for g, x in F.expand(v):
                if contradicts(g, s.pc): continue
                if asks(s, x): continue
                lits = [(l[0], (l[1] is True or l[1] == 1) == bool(l[2])) for l in F.NG(g | s.pc) if asks(s, l[0])]
                if x.op != "bool" or not any(pos == x.a[0] for _, pos in lits):
                    ok = False; c.fail("FileInfo.%s" % f, "%s answers %s, not whether the feature is in the list" % (loc(p, key), sh(x)))
        if ok: c.ob("FileInfo.%s" % f, True)
    for f in ("required", "optional"): c.guard("FileInfo.%s" % f, do, f)

def equality(c):
    """two values are equal exactly when all they were made of is equal"""
    p = c.prog
    def run(name, path, parts, kinds=None):
        ks = p.find("<%s as std::cmp::PartialEq>::eq" % path)
        if not ks: return
        A = Ana(c, ks[0], paths=True)
        E = [mk("deref", a) for a in A.args]
        def val(x, f, vi=None):
            v = payload(p, x, path, vi) if vi is not None else x
            return call(A.e, find1(p, parts[0] + "::" + f), v)
        n = len(parts[1])
        for kk in itertools.product(kinds or [None], repeat=2):
            for vals in itertools.product((0, 1), repeat=2 * n):
                env = {}
                for i, x in enumerate(E):
                    if kinds: env[mk("discr", x)] = variants(p, path).index(kk[i])
                    if kinds: env[payload(p, x, path, kk[i])] = ("adt", name, 0) + vals[i * n: i * n + n]
                    for j, f in enumerate(parts[1]): env[val(x, f, kk[i])] = 10 * (j + 1) + vals[i * n + j]
                want = kk[0] == kk[1] and vals[:n] == vals[n:]
                try: r = outcome(A.outs, env)
                except Outside as x: c.fail(name + " equality", "%s looks at more than the parts of the values: %s" % (loc(p, ks[0]), x)); return
                if r is not want: c.fail(name + " equality", "%s: %s%s and %s%s are %sequal" % (loc(p, ks[0]), kk[0] or "", vals[:n], kk[1] or "", vals[n:], "" if r else "not ")); return
        c.ob(name + " equality", True)
    for name in ("Tag", "MemberData", "Coordinate"):
        path, fs = TYPES[name]
        c.guard(name + " equality", run, name, path, (path[len("osm_io::osm::"):], fs))
    c.guard("Member equality", run, "Member", MEMBER, ("model::relation::MemberData", ["id", "role"]), variants(p, MEMBER))

def clones(c, path):
    """a clone of an element or member is of the same kind with the same content"""
    p = c.prog
    def do():
        key = find1(p, "<%s as std::clone::Clone>::clone" % path)
        A = Ana(c, key); F = A.F; x = mk("deref", A.args[0]); vs = variants(p, path); seen = set()
        for s, v in A.outs:
            v = deref_all(A.e, s, v)
            for g, y in F.expand(v):
                g = g | s.pc
                if contradicts(g, NOG): continue
                y = F.N(y)
                if y is x: seen |= set(range(len(vs))); continue
                if y.op != "adt": raise Finding("%s returns %s" % (loc(p, key), sh(y)))
                al = allowed_variants(F.NG(g), x, len(vs)); k = y.a[1]; seen |= al
                fs = adt_def(p, path)["variants"][k]["fields"]
                ok = al == {k} and all(eqv(F, z, I.proj_fld(x, k, i, fs[i][0]), F.NG(g)) for i, z in enumerate(y.a[2]))
                c.ob("%s clone %s" % (path.split("::")[-1], vs[k]), ok, "%s: a clone of %s is %s" % (loc(p, key), [vs[i] for i in al], sh(y)))
        c.ob("%s clone" % path.split("::")[-1], seen == set(range(len(vs))), "kinds that can be cloned: %s" % [vs[i] for i in seen])
    c.guard("%s clone" % path.split("::")[-1], do)

PARTS = {"node": ["Node", "Coordinate", "Tag"], "way": ["Way", "Tag"], "relation": ["Relation", "MemberData", "Tag"], "info": ["FileInfo", "BoundingBox"], "box": ["BoundingBox", "Coordinate"]}
def values(c, *kinds):
    """the part of C36 another property relies on"""
    c.rule("the values the elements are made of and report are the same (constructors, getters, clones)")
    for n in sorted({x for k in kinds for x in PARTS[k]}): values_of(c, n)
    if set(kinds) & {"node", "way", "relation"}: clones(c, ELEMENT)
    if "relation" in kinds: clones(c, MEMBER)

def run_values(c):
    c.rule("for every value type of the data model and for the header information: each getter of a value made by the constructor, and of a clone of it, gives the constructor's argument of that name; a take_* gives the value and leaves the other fields; a with_* sets its own field to its argument and leaves the others; asking for a feature answers whether the list of that name holds it; fixed point coordinates are the nearest integers")
    for n in TYPES: values_of(c, n)
    setters(c); features_asked(c); equality(c); clones(c, ELEMENT); clones(c, MEMBER)
