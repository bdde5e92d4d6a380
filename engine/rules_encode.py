"""C01-C03, C06, C07: the encoder (elements -> PrimitiveBlock)."""
from rulelib import *

class Enc:
    pass

def encode(c):
    p = c.prog
    key = find1(p, "pbf::osm_data::OsmData::serialize")
    A = Ana(c, key)
    F = A.F; e = A.e
    m = Enc(); m.c = c; m.p = p; m.A = A; m.F = F; m.e = e; m.key = key
    blks = set()
    for s, v in A.outs:
        for g, x in alts(v):
            if x.op == "adt" and x.a[1] == 0:
                pv = x.a[2][0]
                if pv.op == "fn" and pv.a[0] == "encoded" and pv.a[1][0] is STR(PB + "PrimitiveBlock"): blks.add(pv.a[1][1])
                else: c.fail("block:returns-encoding", "a success return of %s yields %s, not the encoding of a primitive block" % (loc(p, key), sh(pv)))
    if len(blks) != 1: raise Finding("%s does not return the encoding of one primitive block" % key)
    m.blk = next(iter(blks))
    m.elements = call(e, find1(p, "pbf::osm_data::OsmData::elements"), mk("deref", A.args[0]))
    b = lambda n: field(p, m.blk, PB + "PrimitiveBlock", n)
    def num(n, dflt):
        v = F.N(b(n))
        if v is NONE: return dflt
        if v.op == "adt" and v.a[1] == 1 and v.a[2][0].op == "int": return v.a[2][0].a[0]
        raise Finding("the %s recorded in the block is %s, not a constant" % (n, sh(v)))
    m.gran = num("granularity", 100); m.dgran = num("date_granularity", 1000)
    m.lat_off = num("lat_offset", 0); m.lon_off = num("lon_offset", 0)
    m.table = field(p, b("stringtable"), PB + "StringTable", "s")
    m.groups = b("primitivegroup")
    m.trec = None; m.only = None
    G = PB + "PrimitiveGroup"
    fields = [f[0] for f in adt_def(p, G)["variants"][0]["fields"]]
    m.content = {}
    m.galts = F.shape(m.groups)
    for g, nodes in m.galts:
        for n in nodes:
            if n[0] != "item" or n[1].op != "adt": raise Finding("a group of the block is %s" % (sh(n[1]) if n[0] == "item" else n[0]))
            for i, f in enumerate(fields):
                v = n[1].a[2][i]
                if v is EMPTY or v is NONE or F.N(v) is EMPTY or F.N(v) is NONE: continue
                # a Some(..) holding default-empty lists counts as content too
                m.content.setdefault(f, {}).setdefault(v, []).append(g)
    return m

def norm_items(F, n):
    return n

# ---------------------------------------------------------------- string table
def table_records(m):
    if m.trec is None:
        m.trec = [(o, k, m.F.NG(g), b, [m.F.N(x) for x in items]) for o, k, g, b, items in m.F.seq_records(m.table)]
        m.tbases = {r[3] for r in m.trec} | {r[0] for r in m.trec}
    return m.trec

def pos_ok(m, K, x, g):
    """x is the position at which K is appended to the block's string table under guard g"""
    F = m.F
    recs = table_records(m)
    pl = F.poly(drop_casts(x))
    t = None; j = 0
    for mon, cf in pl.items():
        if mon == (): j = cf
        elif len(mon) == 1 and cf == 1 and mon[0].op == "len" and t is None: t = mon[0].a[0]
        else: return False
    if t is None or j < 0 or j != int(j): return False
    j = int(j)
    Kn = F.N(K)
    hit = False
    for o, k, h, b, items in recs:
        if F.N(b) is not F.N(t): continue
        if contradicts(g, h): continue
        if not items and not h: continue       # the table is handed on unchanged to a later loop
        if len(items) <= j or items[j] is not Kn and F.geq(items[j], Kn, F.NG(g | h)) is not None: return False
        hit = True
    return hit

def map_ok(m, mp, seen=None):
    """every entry of the map is a valid (string -> table position) pair"""
    F = m.F
    if seen is None: seen = m.__dict__.setdefault("_maps", {})
    if mp in seen: return seen[mp]
    seen[mp] = True
    r = _map_ok(m, mp, seen)
    seen[mp] = r
    return r
def _map_ok(m, mp, seen):
    F = m.F
    for g, x in alts(mp):
        if x.op == "ins":
            base, K, V = x.a
            for gv, v in F.expand(V):
                if contradicts(gv, g): continue
                if not pos_ok(m, K, v, F.NG(g | gv | m.ctxg)): return False
            if not map_ok(m, base, seen): return False
        elif F._derived(x):
            for k, gd, y in F.defs(x):
                if y is x: continue
                old = m.ctxg; m.ctxg = gd
                ok = map_ok(m, y, seen) if y.op != "ins" else _ins_ok(m, y, gd, seen)
                m.ctxg = old
                if not ok: return False
        elif is_empty_map(x): pass
        else: return False
    return True
def _ins_ok(m, x, gd, seen):
    F = m.F
    while x.op == "ins":
        base, K, V = x.a
        for gv, v in F.expand(V):
            if contradicts(gv, gd): continue
            if not pos_ok(m, K, v, F.NG(gd | gv)): return False
        x = base
    return map_ok(m, x, seen)
def is_empty_map(x):
    if x is EMPTY: return True
    if x.op == "adt" and x.a[0].split("::")[-1] in ("HashMap", "BTreeMap"):
        return True
    return False

def idxof(m, S):
    F = m.F
    def isx(x, g):
        ok = True
        for gx, v in F.expand(x):
            if contradicts(gx, g): continue
            v = strip_int(v)
            if v.op == "mapval":
                if not F.eq(v.a[1], S): return False
                for gy, y in alts(v.a[0]):
                    gg = F.NG(g | gx | gy)
                    if contradicts(gx, gy) or contradicts(g, gy): continue
                    if not (_ins_ok(m, y, gg, m.__dict__.setdefault("_maps", {})) if y.op == "ins" else map_ok(m, y)): return False
            elif not pos_ok(m, S, v, F.NG(g | gx)): return False
        return ok
    return isx
INDEX_TY = ("i32", "u32", "i64", "u64", "usize", "isize", "i128", "u128")
def drop_casts(t, memo=None):
    """integer casts removed (list positions are assumed to fit the index type)"""
    if t.op == "cast" and t.a[0] == "i" and t.a[1] in INDEX_TY: return drop_casts(t.a[2])
    if t.op == "bin": return I.binop1(t.a[0], drop_casts(t.a[1]), drop_casts(t.a[2]))
    return t
def strip_int(v):
    while v.op == "cast" and v.a[0] == "i" and v.a[1] in INDEX_TY: v = v.a[2]
    return v

# ---------------------------------------------------------------- columns
def exactly(m, X, nv=None):
    F = m.F
    def isx(x, g):
        for gx, v in F.expand(x):
            if contradicts(gx, g): continue
            if F.geq(v, X, F.NG(g | gx)) is not None: return False
        return True
    return isx

def is_delta(m, V, g, L, isx, fresh, why):
    """V (pushed under g in loop L) is x - previous x, or x itself at the start"""
    F = m.F
    for gv, v in F.expand(V):
        if contradicts(gv, g): continue
        gg = F.NG(g | gv)
        pl = F.poly(v)
        prev = [mon[0] for mon, cf in pl.items() if cf == -1 and len(mon) == 1 and F.loop_of(mon[0]) == L.key]
        prev = [x for x in prev if not F.counter(x)]
        if len(prev) > 1: return "difference against more than one carried value: " + sh(v)
        if not prev:
            if not isx(v, gg): return "the value is %s" % sh(F.N(v))
            if not fresh: return "an absolute value is emitted where a difference to the previous element is required: %s" % sh(F.N(v))
            continue
        P = prev[0]
        y = F.poly_t(padd(pl, {(P,): 1}))
        if not isx_poly(m, y, v, P, isx, gg): return "the minuend is %s" % sh(y)
        r = carried(m, P, L, isx)
        if r: return r
    return None

def isx_poly(m, y, v, P, isx, g):
    F = m.F
    if isx(y, g): return True
    # v is syntactically y' - P
    if v.op == "bin" and v.a[0] == "Sub": return F.eq(v.a[2], P) and isx(v.a[1], g)
    if v.op == "cast" and v.a[0] == "i" and I.WIDTH.get(v.a[1], 0) >= 64: return isx_poly(m, y, v.a[2], P, isx, g)
    return False

def carried(m, P, L, isx):
    """P always holds the previous iteration's x (0 or nothing before the first)"""
    F = m.F
    pg = [g for g, n in L.alts if n]
    for k, g, v in F.defs(P):
        g = F.NG(g)
        if v is P:
            for h in pg:
                if not contradicts(F.NG(h), g): return "the carried value %s can stay unchanged when an element is emitted" % sh(P)
            continue
        if k == "init":
            if v.op == "int" and v.a[0] == 0: continue
            return "the carried value starts as %s, not 0" % sh(v)
        if not isx(v, g): return "the carried value becomes %s" % sh(F.N(v))
    return None

def col_delta(m, isx):
    def chk(L, g, n, fresh):
        if len(n) != 1 or n[0][0] != "item": return "expected one value per element, found %s" % descr(m, n)
        r = is_delta(m, n[0][1], g, L, isx, fresh, "")
        return r
    return chk
def col_plain(m, isx):
    def chk(L, g, n, fresh):
        if len(n) != 1 or n[0][0] != "item": return "expected one value per element, found %s" % descr(m, n)
        if not isx(n[0][1], m.F.NG(g)): return "the value is %s" % sh(m.F.N(n[0][1]))
        return None
    return chk
def descr(m, n):
    return "[" + ", ".join(x[0] if x[0] != "item" else "item " + sh(m.F.N(x[1]), 4)[:120] for x in n) + "]"

def loop_err(m, L, src, chk, adt=None, vname=None):
    """the loop walks src completely and in order, and chk holds of what each item (of the variant) adds"""
    F = m.F
    if L.src is None: return "the loop can stop before the input is exhausted"
    if not F.eq(L.src[0], src): return "it iterates over %s, expected %s" % (sh(F.N(L.src[0])), sh(F.N(src)))
    if not L.alts: return "nothing is ever appended"
    nv = len(variants(m.p, adt)) if adt else 0
    vi = vindex(m.p, adt, vname) if adt else None
    item = F.N(mk("elem", F.N(src), L.src[1]))
    hit = 0
    for g, n in L.alts:
        gn = F.NG(g)
        fresh = any(t.op == "fresh" for t, k, p in g) or first_pass(F, L, g)
        if adt:
            av = allowed_variants(gn, item, nv)
            if vi not in av:
                if n: return "an element of another kind adds %s" % descr(m, n)
                continue
            if av != {vi}: return "handling does not distinguish the kind of the element (%s)" % sh(gn, 4)
        m.c.metrics["cases"] = m.c.metrics.get("cases", 0) + 1
        r = chk(L, gn, n, fresh, item)
        if r: return "%s [when %s]" % (r, show(gn, 4)[:300])
        hit += 1
    if not hit: return "no case emits anything"
    return None

def seq_err(m, seq, src, chk, adt=None, vname=None):
    F = m.F
    shp = F.shape(seq)
    if not shp: return "no definition found"
    for g0, nodes in shp:
        if len(nodes) != 1 or nodes[0][0] != "loop": return "not built by one pass over the input: %s" % descr(m, nodes)
        r = loop_err(m, nodes[0][1], src, chk, adt, vname)
        if r: return r
    return None

def first_pass(F, L, g):
    """guard says the sequence under construction is still empty / absent"""
    if F.absent(L.owner, g): return True
    return any(t.op == "len" and t.a[0] is L.owner and k == 0 and p for (t, k, p) in g)

def get(m, key, v):
    """value of a public getter on v (memoised)"""
    d = m.__dict__.setdefault("_get", {})
    k = (key, v)
    if k not in d: d[k] = call(m.e, find1(m.p, key), v)
    return d[k]

# ---------------------------------------------------------------- the properties
def tag_loop(m, item_of, what, emit):
    pass

def group_rule(m, kind, key):
    """every element of the kind reaches the block through exactly one group, whatever other kinds are present"""
    c, F = m.c, m.F
    cont = m.content.get(kind)
    if not cont: return c.fail(key, "no group of the block carries %s" % kind)
    if len(cont) != 1: return c.fail(key, "several different values are used as %s: %s" % (kind, [sh(x, 4) for x in cont]))
    v = next(iter(cont))
    probe = some(v) if kind == "dense" else v
    gfields = [f[0] for f in adt_def(m.p, PB + "PrimitiveGroup")["variants"][0]["fields"]]
    for g, nodes in m.galts:
        k = sum(1 for n in nodes if n[1].a[2][gfields.index(kind)] is v)
        if k > 1: return c.fail(key, "the %s group is emitted %d times" % (kind, k))
        if k == 0 and not F.absent(probe, g) and not empty_guard(F, v, g):
            return c.fail(key, "%s elements are left out of the block when %s" % (kind, show(g, 4)[:300]))
        for n in nodes:
            others = [f for f, x in zip(gfields, n[1].a[2]) if x is not EMPTY and x is not NONE and f != kind]
            if n[1].a[2][gfields.index(kind)] is v and others:
                return c.fail(key, "one primitive group carries %s and %s" % (kind, others))
    c.ob(key, True)
    return v
def empty_guard(F, v, g):
    return any(t.op == "len" and F.eq(t.a[0], v) and k == 0 and p for (t, k, p) in g)

def want(m, name): return m.only is None or name in m.only

def run_nodes(c, m=None):
    m = m or encode(c); p, F = m.p, m.F
    m.ctxg = NOG
    if m.only is None: c.rule("every node of the block's element list adds exactly one entry to each dense column; other kinds add none; the pass over the list is complete")
    if m.only is None: c.rule("delta columns hold x - (x of the previous node), or x itself for the first")
    d = c.guard("group:dense", group_rule, m, "dense", "group:dense")
    if not isinstance(d, T): return
    D = some(d); DN = PB + "DenseNodes"; DI = PB + "DenseInfo"
    info = some(field(p, D, DN, "denseinfo"))
    def nd(item): return payload(p, item, ELEMENT, "Node")
    def g_(name):
        return lambda item: get(m, "model::node::Node::" + name, nd(item))
    def coord(name): return lambda item: get(m, "model::coordinate::Coordinate::" + name, get(m, "model::node::Node::coordinate", nd(item)))
    def deg(name, off):
        def f(item):
            x = coord(name)(item)
            return I.castv("fi", "i64", fn("round", I.binop1("Div", I.binop1("Sub", I.binop1("Mul", x, mk("float", 1e9)), mk("float", float(off))), mk("float", float(m.gran)))))
        return f
    def ts(item): return I.binop1("Div", g_("timestamp")(item), INT(m.dgran))
    cols = [
        ("id", field(p, D, DN, "id"), "delta", lambda it: exactly(m, g_("id")(it))),
        ("lat", field(p, D, DN, "lat"), "delta", lambda it: exactly(m, deg("lat", m.lat_off)(it))),
        ("lon", field(p, D, DN, "lon"), "delta", lambda it: exactly(m, deg("lon", m.lon_off)(it))),
        ("version", field(p, info, DI, "version"), "plain", lambda it: exactly(m, g_("version")(it))),
        ("timestamp", field(p, info, DI, "timestamp"), "delta", lambda it: exactly(m, ts(it))),
        ("changeset", field(p, info, DI, "changeset"), "delta", lambda it: exactly(m, g_("changeset")(it))),
        ("uid", field(p, info, DI, "uid"), "delta", lambda it: exactly(m, g_("uid")(it))),
        ("user_sid", field(p, info, DI, "user_sid"), "delta", lambda it: idxof(m, g_("user")(it))),
        ("visible", field(p, info, DI, "visible"), "plain", lambda it: exactly(m, g_("visible")(it))),
    ]
    for name, seq, mode, isx in cols:
        if not want(m, name): continue
        def chk(L, g, n, fresh, item, isx=isx, mode=mode):
            f = (col_delta if mode == "delta" else col_plain)(m, isx(item))
            return f(L, g, n, fresh)
        def do(name=name, seq=seq, chk=chk):
            r = seq_err(m, seq, m.elements, chk, ELEMENT, "Node")
            c.ob("dense." + name, r is None, "dense %s: %s" % (name, r))
        c.guard("dense." + name, do)
    def kv(L, g, n, fresh, item):
        if len(n) != 2 or n[0][0] != "loop" or n[1][0] != "item" or F.N(n[1][1]) is not INT(0):
            return "keys_vals of one node must be its tags followed by one 0 delimiter, found %s" % descr(m, n)
        return loop_err(m, n[0][1], g_("tags")(item), tag_pair(m))
    def dokv():
        r = seq_err(m, field(p, D, DN, "keys_vals"), m.elements, kv, ELEMENT, "Node")
        c.ob("dense.keys_vals", r is None, "dense keys_vals: %s" % r)
    c.guard("dense.keys_vals", dokv)

def tag_pair(m):
    def chk(L, g, n, fresh, item):
        if [x[0] for x in n] != ["item", "item"]: return "one tag adds %s, expected its key and value indexes" % descr(m, n)
        for x, gt in zip(n, ("k", "v")):
            if not idxof(m, get(m, "model::tag::Tag::" + gt, item))(x[1], m.F.NG(g)): return "%s index of a tag is %s" % (gt, sh(m.F.N(x[1])))
        return None
    return chk
def tag_one(m, gt):
    def chk(L, g, n, fresh, item):
        if [x[0] for x in n] != ["item"]: return "one tag adds %s, expected one index" % descr(m, n)
        if not idxof(m, get(m, "model::tag::Tag::" + gt, item))(n[0][1], m.F.NG(g)): return "%s index of a tag is %s" % (gt, sh(m.F.N(n[0][1])))
        return None
    return chk

def obj_rules(m, kind, vname, model, adt, extra):
    c, p, F = m.c, m.p, m.F
    m.ctxg = NOG
    v = c.guard("group:" + kind, group_rule, m, kind, "group:" + kind)
    if not isinstance(v, T): return
    IN = PB + "Info"
    def g_(item, name): return get(m, "model::%s::%s::%s" % (model, vname, name), payload(p, item, ELEMENT, vname))
    errs = {}
    def one(name, f):
        def chk(L, g, n, fresh, item):
            if len(n) != 1 or n[0][0] != "item": return "expected one entry per element, found %s" % descr(m, n)
            return f(n[0][1], item, g)
        if not want(m, name): return
        def do():
            r = seq_err(m, v, m.elements, chk, ELEMENT, vname)
            c.ob("%s.%s" % (kind, name), r is None, "%s %s: %s" % (kind, name, r))
        c.guard("%s.%s" % (kind, name), do)
    def eqf(get_actual, get_expected):
        def f(w, item, g):
            a = get_actual(w)
            x = F.geq(a, get_expected(item), F.NG(g))
            return None if x is None else "the value is %s, expected %s" % (sh(x[1]), sh(x[2]))
        return f
    def info(w, n):
        return some(field(p, some(field(p, w, adt, "info")), IN, n))
    def present(w, n):
        return field(p, some(field(p, w, adt, "info")), IN, n)
    one("id", eqf(lambda w: field(p, w, adt, "id"), lambda it: g_(it, "id")))
    for n in ("version", "changeset", "uid", "visible"):
        one("info." + n, eqf(lambda w, n=n: present(w, n), lambda it, n=n: SOME(g_(it, n))))
    one("info.timestamp", eqf(lambda w: present(w, "timestamp"), lambda it: SOME(I.binop1("Div", g_(it, "timestamp"), INT(m.dgran)))))
    def user(w, item, g):
        x = info(w, "user_sid")
        return None if idxof(m, g_(item, "user"))(x, F.NG(g)) else "the user index is %s" % sh(F.N(x))
    one("info.user_sid", user)
    for fld_, gt in (("keys", "k"), ("vals", "v")):
        one(fld_, lambda w, item, g, fld_=fld_, gt=gt: seq_err(m, field(p, w, adt, fld_), g_(item, "tags"), tag_one(m, gt)))
    extra(m, one, g_, adt)

def run_ways(c, m=None):
    m = m or encode(c)
    if m.only is None: c.rule("every way adds exactly one message whose fields are that way's values; its node references are delta coded from 0 within the way")
    def extra(m, one, g_, adt):
        def refs(w, item, g):
            def chk(L, g, n, fresh, it): return col_delta(m, exactly(m, it))(L, g, n, fresh)
            return seq_err(m, field(m.p, w, adt, "refs"), g_(item, "refs"), chk)
        one("refs", refs)
    obj_rules(m, "ways", "Way", "way", PB + "Way", extra)

def member_data(m, item, i):
    d = adt_def(m.p, MEMBER)["variants"][i]["fields"][0]
    return I.proj_fld(item, i, 0, d[0])

def run_relations(c, m=None):
    m = m or encode(c); p, F = m.p, m.F
    if m.only is None: c.rule("every relation adds exactly one message; memids/types/roles advance in lockstep, one entry per member, member ids delta coded from 0 within the relation")
    codes = {"Node": 0, "Way": 1, "Relation": 2}
    def by_variant(item, expect):
        vs = variants(p, MEMBER)
        def isx(x, g):
            for gx, v in F.expand(x):
                if contradicts(gx, g): continue
                gg = F.NG(g | gx)
                av = allowed_variants(gg, F.N(item), len(vs))
                if not av: continue
                for i in av:
                    if not expect(i, vs[i])(v, gg if len(av) == 1 else gg | {(mk("discr", F.N(item)), i, True)}): return False
            return True
        return isx
    def extra(m, one, g_, adt):
        def memids(w, item, g):
            def chk(L, g, n, fresh, it):
                isx = by_variant(it, lambda i, nm: exactly(m, get(m, "model::relation::MemberData::id", member_data(m, it, i))))
                return col_delta(m, isx)(L, g, n, fresh)
            return seq_err(m, field(p, w, adt, "memids"), g_(item, "members"), chk)
        one("memids", memids)
        def types(w, item, g):
            def chk(L, g, n, fresh, it):
                return col_plain(m, by_variant(it, lambda i, nm: exactly(m, INT(codes[nm]))))(L, g, n, fresh)
            return seq_err(m, field(p, w, adt, "types"), g_(item, "members"), chk)
        one("types", types)
        def roles(w, item, g):
            def chk(L, g, n, fresh, it):
                return col_plain(m, by_variant(it, lambda i, nm: idxof(m, get(m, "model::relation::MemberData::role", member_data(m, it, i)))))(L, g, n, fresh)
            return seq_err(m, field(p, w, adt, "roles_sid"), g_(item, "members"), chk)
        one("roles_sid", roles)
    obj_rules(m, "relations", "Relation", "relation", PB + "Relation", extra)

def run_table(c):
    m = encode(c); p, F = m.p, m.F; m.ctxg = NOG
    c.rule("entry 0 of the string table is blank; every other entry is appended together with the index remembered for that very string; the index map never holds another position")
    def t0():
        for g, nodes in F.shape(m.table):
            first = nodes[0] if nodes else None
            ok = first is not None and first[0] == "item" and first[1] in (STR(""), EMPTY)
            c.ob("table.blank0", ok, "the string table starts with %s, not a blank string" % descr(m, nodes))
            c.ob("table.pass", len(nodes) == 2 and nodes[1][0] == "loop" and nodes[1][1].src is not None and F.eq(nodes[1][1].src[0], m.elements), "the string table is not built by one complete pass over the elements: %s" % descr(m, nodes))
    c.guard("table.blank0", t0)
    def t1():
        n = 0
        for o, k, g, b, items in table_records(m):
            for x in items:
                n += 1
                c.ob("table.entry:%s" % ptr(F, x), all(y is STR("") or is_input_string(m, y) for g2, y in F.expand(x)), "the table receives %s" % sh(x))
        c.metrics["table_appends"] = n
        if not n: c.fail("table.entries", "nothing is appended")
    c.guard("table.entries", t1)
    c.rule("every string column (user, tag keys and values, roles) holds the position at which exactly that string was appended")
    m.only = {"user_sid", "keys_vals", "info.user_sid", "keys", "vals", "roles_sid"}
    run_nodes(c, m); run_ways(c, m); run_relations(c, m)
def ptr(F, x):
    t = x; names = []
    while t.op in ("fld", "elem", "deref") and isinstance(t.a[0], T):
        if t.op == "fld": names.append(str(t.a[3]))
        t = t.a[0]
    return ".".join(reversed(names)) or t.op
def is_input_string(m, x):
    t = x
    while t.op in ("fld", "elem", "deref") and isinstance(t.a[0], T): t = t.a[0]
    return t.op == "sym"
