"""C04, C05: the decoder (PrimitiveBlock -> elements)."""
from rulelib import *
from rules_encode import descr, ptr
from fractions import Fraction

class Dec: pass
PBLOCK = PB + "PrimitiveBlock"

def decode(c):
    p = c.prog; m = Dec(); m.c = c; m.p = p
    m.key = find1(p, "pbf::osm_data::OsmData::new")
    m.A = Ana(c, m.key, setup=lambda A: setattr(A.e, "orpc", True)); m.F = m.A.F; m.e = m.A.e
    m.blk = mk("decoded", PBLOCK, m.A.args[0])
    oks = set()
    for s, v in m.A.outs:
        for g, x in alts(v):
            if x.op == "adt" and x.a[1] == 0: oks.add(x.a[2][0])
    if len(oks) != 1: raise Finding("%s does not return one kind of success value" % loc(p, m.key))
    m.elements = call(m.e, find1(p, "pbf::osm_data::OsmData::elements"), next(iter(oks)))
    m.blk = find_decoded(m.elements, m.F, m.blk)
    b = lambda n: field(p, m.blk, PBLOCK, n)
    m.gran = opt(b("granularity"), INT(100)); m.dgran = opt(b("date_granularity"), INT(1000))
    m.lat_off = opt(b("lat_offset"), INT(0)); m.lon_off = opt(b("lon_offset"), INT(0))
    m.table = field(p, b("stringtable"), PB + "StringTable", "s")
    m.groups = b("primitivegroup")
    m.getd = {}
    return m

def find_decoded(t, F, dflt):
    return dflt

def opt(v, dflt):
    """value of an optional message field with its schema default"""
    return sel([(frozenset([(mk("discr", v), 0, True)]), dflt), (frozenset([(mk("discr", v), 1, True)]), some(v))])

def get(m, key, v):
    k = (key, v)
    if k not in m.getd: m.getd[k] = call(m.e, find1(m.p, key), v)
    return m.getd[k]

def with_present(g, *opts):
    """guard g plus `each optional field is there`"""
    return frozenset(g) | frozenset((mk("discr", o), 1, True) for o in opts)
def with_absent(g, o): return frozenset(g) | frozenset([(mk("discr", o), 0, True)])

# ------------------------------------------------ running sums
def phis_in(t, out=None, seen=None):
    if out is None: out = []; seen = set()
    if t in seen: return out
    seen.add(t)
    if t.op == "phi":
        out.append(t); return out
    for c in children(t): phis_in(c, out, seen)
    return out

def unsum(m, v, L, idx, cols, assume):
    """replace every carried value that is the running sum of one of cols over the earlier iterations of L"""
    F = m.F
    for P in phis_in(v):
        if F.loop_of(P) != L.key or F.counter(P): continue
        for D in cols:
            d = F.N(mk("elem", F.N(D), idx))
            if running(m, P, d, assume):
                v = F.subst(v, P, I.binop1("Sub", mk("cum", F.N(D), idx), d))
                break
    return F.N(v)

def mentions(t, key, memo):
    r = memo.get(t)
    if r is None:
        memo[t] = False
        if t.op == "idx": r = t.a[0] == key
        elif t.op == "phi": r = t.a[0] == key[0]
        else: r = any(mentions(x, key, memo) for x in children(t))
        memo[t] = r
    return r
def invariant(F, assume, key):
    """the literals that do not change from one iteration of the loop to the next"""
    memo = {}
    return frozenset(l for l in assume if not mentions(l[0], key, memo))

def running(m, P, d, assume):
    """P is 0 before the first iteration and P + d after each one (as long as `assume` holds)"""
    F = m.F
    assume = invariant(F, assume, F.loop_of(P))
    hit = False
    for k, g, v in F.defs(P):
        g = F.NG(g)
        if contradicts(g, assume): continue
        if v is P and k == "step":
            return False
        for h, x in F.leaves(v):
            if contradicts(h, assume) or contradicts(h, g): continue
            if k == "init":
                if x.op == "int" and x.a[0] == 0: continue
                return False
            pl = padd(F.poly(x), {(d,): Fraction(1)}, -1)
            if pl != {(P,): Fraction(1)}: return False
            hit = True
    return hit

def always(m, v, val, assume, seen=None):
    """under `assume`, v is always val (through carried values)"""
    F = m.F
    if seen is None: seen = set()
    for g, x in F.leaves(v):
        if contradicts(g, assume): continue
        if x is val: continue
        if x in seen: continue
        if F._derived(x):
            seen.add(x)
            inv = invariant(F, assume, F.loop_of(x))
            for k, h, y in F.defs(x):
                if contradicts(F.NG(h), inv): continue
                if not always(m, y, val, inv | F.NG(h), seen): return False
            continue
        return False
    return True

def cum(m, D, idx): return mk("cum", m.F.N(D), idx)

def known_bool(F, want, g):
    """the truth values of the flag that the guard leaves open"""
    res = set(); w = F.N(want)
    def about(l): return l[0].op != "or" or any(y is want or F.N(y) is w for a in l[0].a[0] for t, k, p in a for y in (t,))
    for h in dnf([l for l in g if about(l)]):
        if contradicts(h, NOG): continue
        ks = {k if p else not k for t, k, p in h if isinstance(k, bool) and (t is want or F.eq(t, want))}
        res |= ks or {False, True}
    return res
def differs(m, v, want, assume, L=None, idx=None, cols=()):
    """None when v equals want wherever assume holds"""
    F = m.F; assume = F.NG(assume)
    n = 0
    for g, x in F.expand(v):
        g = F.NG(g)
        if contradicts(g, assume): continue
        if L is not None: x = unsum(m, x, L, idx, cols, assume | g)
        r = F.geq(x, want, assume | g)
        if r is not None and x.op == "bool" and known_bool(F, want, assume | g) == {x.a[0]}: r = None
        if r is not None: return "the value is %s, expected %s [%s]" % (sh(r[1]), sh(r[2]), show(r[0] - assume, 4)[:200])
        n += 1
    return None if n else "no value"

# ------------------------------------------------ structure
def kind_loops(m, kind):
    """the pass over one kind of message inside the pass over all groups:
    [(loop, sequence, guard)]"""
    F = m.F
    shp = F.shape(m.elements)
    res = []
    seqs = {}
    for g0, nodes in shp:
        if len(nodes) != 1 or nodes[0][0] != "loop": return "the element list is not built by one pass over the groups: %s" % descr(m, nodes)
        G = nodes[0][1]
        gi = F.walks(G.key, [m.groups])
        if gi is None: return "not every group of the block is visited in order"
        grp = mk("elem", F.N(m.groups), gi)
        GN = PB + "PrimitiveGroup"
        f = lambda n: field(m.p, grp, GN, n)
        dense = f("dense"); D = some(dense); DN = PB + "DenseNodes"
        allowed = {"dense": [field(m.p, D, DN, x) for x in ("id", "lat", "lon")], "nodes": [f("nodes")], "ways": [f("ways")], "relations": [f("relations")], "changesets": [f("changesets")]}
        m.dense_opt = F.N(dense)
        for g, n in G.alts:
            gn = F.NG(g)
            hit = 0
            for x in n:
                if x[0] != "loop": return "a group adds %s" % descr(m, [x])
                ks = [k for k, a in allowed.items() if F.walks(x[1].key, a) is not None]
                if len(ks) != 1: return "a pass inside of a group does not walk one of its lists from the first to the last entry (%s)" % where(m, x[1])
                if ks[0] == kind:
                    hit += 1
                    res.append((x[1], allowed[kind], F.walks(x[1].key, allowed[kind]), gn))
            if hit == 0 and not (kind == "dense" and contradicts(gn, with_present(NOG, m.dense_opt))):
                return "%s of a group are not visited when %s" % (kind, show(gn, 4)[:200])
            if hit > 1: return "%s of a group are visited %d times" % (kind, hit)
    if not res: return "no pass over %s" % kind
    return res

def where(m, L):
    return "loop in %s" % (L.key[0][1] if isinstance(L.key[0], tuple) and len(L.key[0]) > 1 else "?")

def each(m, kind, vname, chk):
    """chk(payload, message, idx, L, guard) for the element every message of the kind becomes"""
    F = m.F
    ls = kind_loops(m, kind)
    if isinstance(ls, str): return ls
    vi = vindex(m.p, ELEMENT, vname)
    seen = set()
    for L, seqs, idx, g0 in ls:
        if L.key in seen: continue
        seen.add(L.key)
        msg = F.N(mk("elem", F.N(seqs[0]), idx)) if kind != "dense" else seqs
        if not L.alts: return "nothing is appended"
        for g, n in L.alts:
            if len(n) != 1 or n[0][0] != "item": return "expected one element per message, found %s" % descr(m, n)
            for h, x in alts(n[0][1]):
                if contradicts(h, g): continue
                if x.op != "adt" or x.a[1] != vi: return "a message of kind %s becomes %s" % (kind, sh(F.N(x), 3))
                m.c.metrics["cases"] = m.c.metrics.get("cases", 0) + 1
                r = chk(payload(m.p, x, ELEMENT, vname), msg, idx, L, F.NG(g | h))
                if r: return r
    return None

def lookup(m, i): return mk("elem", m.table, i)

def tags_by_columns(m, tags, keys, vals):
    F = m.F
    for g0, nodes in F.shape(tags):
        if len(nodes) != 1 or nodes[0][0] != "loop": return "tags: not built by one pass over keys and vals: %s" % descr(m, nodes)
        L = nodes[0][1]
        idx = F.walks(L.key, [keys, vals])
        if idx is None: return "tags: the pass over keys and vals is not complete (%s)" % where(m, L)
        r = rows(m, L, idx, lambda x, g: tag_is(m, x, lookup(m, mk("elem", keys, idx)), lookup(m, mk("elem", vals, idx)), g))
        if r: return "tags: " + r
    return None
def tag_is(m, x, k, v, g):
    return differs(m, get(m, "model::tag::Tag::k", x), k, g) or differs(m, get(m, "model::tag::Tag::v", x), v, g)
def rows(m, L, idx, chk):
    if not L.alts: return "nothing is appended"
    for g, n in L.alts:
        if len(n) != 1 or n[0][0] != "item": return "expected one entry per position, found %s" % descr(m, n)
        r = chk(n[0][1], m.F.NG(g))
        if r: return r
    return None

def tags_dense(m, tags, kv, outer):
    """key/value index pairs up to the next 0; the position is carried on from node to node"""
    F = m.F
    kvn = F.N(kv)
    for g0, nodes in F.shape(tags):
        if len(nodes) != 1 or nodes[0][0] != "loop": return "not built by one pass: %s" % descr(m, nodes)
        L = nodes[0][1]
        if not L.alts: return "nothing is appended"
        pos = None
        for g, n in L.alts:
            if len(n) != 1 or n[0][0] != "item": return "expected one tag per step, found %s" % descr(m, n)
            x = n[0][1]
            k = F.N(get(m, "model::tag::Tag::k", x))
            if not (k.op == "elem" and F.eq(k.a[0], m.table) and F.eq(strip(k.a[1]).a[0], kvn) if strip(k.a[1]).op == "elem" else False):
                return "the key of a tag is %s" % sh(k)
            q = strip(k.a[1]).a[1]
            if q.op != "phi" or F.loop_of(q) != L.key: return "the position of a key is %s" % sh(q)
            if pos is not None and pos is not q: return "several positions"
            pos = q
            nxt = F.poly_t(padd(F.poly(q), {(): Fraction(1)}))
            r = tag_is(m, x, lookup(m, mk("elem", kvn, q)), lookup(m, mk("elem", kvn, nxt)), F.NG(g))
            if r: return r
            if not any(t.op == "elem" and t.a[0] is kvn and t.a[1] is q and k2 == 0 and not p2 for t, k2, p2 in F.NG(g)):
                return "a tag is read without testing for the 0 delimiter"
        two = F.poly_t(padd(F.poly(pos), {(): Fraction(2)}))
        one = F.poly_t(padd(F.poly(pos), {(): Fraction(1)}))
        carry = set()
        for k, g, v in F.defs(pos):
            if k == "step":
                if F.N(v) is not two: return "after a tag the position becomes %s" % sh(F.N(v))
            else: carry.add(v)
        for pc in F.exits(L.key):
            pc = F.NG(pc)
            end = any(t.op == "has" and t.a[0] is kvn and t.a[1] is pos and (k is False and p or k is True and not p) for t, k, p in pc)
            zero = any(t.op == "elem" and t.a[0] is kvn and t.a[1] is pos and k == 0 and p for t, k, p in pc)
            if not end and not zero: return "the tags of a node can end elsewhere than at the 0 delimiter"
        for Q in carry:
            if not F._derived(Q) or F.loop_of(Q) != outer.key: return "the tags of a node start at %s, not where those of the previous node ended" % sh(Q)
            for k, g, v in F.defs(Q):
                for h, y in F.leaves(v):
                    if contradicts(h, F.NG(g)): continue
                    gg = h | F.NG(g)
                    if k == "init":
                        if y is not INT(0): return "the tags of the first node start at %s" % sh(y)
                    elif any(t.op == "has" and t.a[0] is kvn and t.a[1] is pos and (kk is False and p or kk is True and not p) for t, kk, p in gg): continue
                    elif y is not one: return "the tags of the next node start at %s, expected just behind the delimiter" % sh(y)
    return None
def strip(t):
    return unnarrow(t)

def ob(m, name, f):
    def do():
        r = f()
        m.c.ob(name, r is None, "%s: %s" % (name, r))
    m.c.guard(name, do)

# ------------------------------------------------ the properties
def run_nodes(c):
    m = decode(c); p, F = m.p, m.F
    c.rule("every entry of a dense group and every plain node message becomes exactly one node, in order; columns are running sums from 0; strings are looked up by index; coordinates are (offset + granularity * value) / 1e9; dense tags are the index pairs up to the next 0")
    DN = PB + "DenseNodes"; DI = PB + "DenseInfo"
    G = lambda n, x: get(m, "model::node::Node::" + n, x)
    CO = lambda n, x: get(m, "model::coordinate::Coordinate::" + n, G("coordinate", x))
    def deg(off, val):
        return I.binop1("Div", I.castv("if", "f64", I.binop1("Add", off, I.binop1("Mul", m.gran, val))), mk("float", 1e9))
    # dense
    def dense(name, f):
        def chk(node, seqs, idx, L, g):
            idt, latt, lont = seqs
            D = idt.a[0]
            info_o = field(p, D, DN, "denseinfo"); info = some(info_o)
            return f(node, D, info_o, info, idx, L, g)
        ob(m, "dense." + name, lambda: each(m, "dense", "Node", chk))
    def col(n, getter, scale=None):
        def f(node, D, info_o, info, idx, L, g):
            C = field(p, info, DI, n)
            w = cum(m, C, idx)
            return differs(m, getter(node), scale(w) if scale else w, with_present(g, F.N(info_o)), L, idx, [C])
        return f
    def plain(n, getter):
        def f(node, D, info_o, info, idx, L, g):
            return differs(m, getter(node), mk("elem", field(p, info, DI, n), idx), with_present(g, F.N(info_o)))
        return f
    def did(node, D, info_o, info, idx, L, g):
        C = field(p, D, DN, "id")
        return differs(m, G("id", node), cum(m, C, idx), g, L, idx, [C])
    dense("id", did)
    for n, off in (("lat", "lat_off"), ("lon", "lon_off")):
        def f(node, D, info_o, info, idx, L, g, n=n, off=off):
            C = field(p, D, DN, n)
            return differs(m, CO(n, node), deg(getattr(m, off), cum(m, C, idx)), g, L, idx, [field(p, D, DN, x) for x in ("lat", "lon", "id")])
        dense(n, f)
    dense("timestamp", col("timestamp", lambda x: G("timestamp", x), lambda w: I.binop1("Mul", w, m.dgran)))
    dense("changeset", col("changeset", lambda x: G("changeset", x)))
    dense("uid", col("uid", lambda x: G("uid", x)))
    dense("user", col("user_sid", lambda x: G("user", x), lambda w: lookup(m, w)))
    dense("version", plain("version", lambda x: G("version", x)))
    def vis(node, D, info_o, info, idx, L, g):
        V = field(p, info, DI, "visible")
        has = mk("has", F.N(V), idx)
        pr = with_present(g, F.N(info_o))
        for gx, x in F.expand(G("visible", node)):
            gx = F.NG(gx)
            if not contradicts(gx, pr | {(has, True, True)}) and not F.eq(x, mk("elem", V, idx)):
                if not (x is BOOL(True) and not_longer(gx, V, idx, F)): return "visible is %s where the column has an entry" % sh(F.N(x))
            for ab in (pr | {(has, False, True)}, F.NG(with_absent(g, F.N(info_o)))):
                if not contradicts(gx, ab) and not always(m, x, BOOL(True), ab | gx): return "visible is %s where the column has no entry" % sh(F.N(x))
        return None
    dense("visible", vis)
    dense("tags", lambda node, D, info_o, info, idx, L, g: tags_dense(m, G("tags", node), field(p, D, DN, "keys_vals"), L))
    # plain nodes
    def one(name, f):
        ob(m, "nodes." + name, lambda: each(m, "nodes", "Node", f))
    NN = PB + "Node"
    one("id", lambda x, msg, idx, L, g: differs(m, G("id", x), field(p, msg, NN, "id"), g))
    one("lat", lambda x, msg, idx, L, g: differs(m, CO("lat", x), deg(m.lat_off, field(p, msg, NN, "lat")), g))
    one("lon", lambda x, msg, idx, L, g: differs(m, CO("lon", x), deg(m.lon_off, field(p, msg, NN, "lon")), g))
    common(m, one, "node", "Node", NN)

def not_longer(gx, V, idx, F): return False

def common(m, one, mod, model, adt):
    p, F = m.p, m.F
    G = lambda n, x: get(m, "model::%s::%s::%s" % (mod, model, n), x)
    IN = PB + "Info"
    def meta(n, f, getter=None):
        def chk(x, msg, idx, L, g):
            io = field(p, msg, adt, "info"); fo = field(p, some(io), IN, n)
            return differs(m, G(getter or n, x), f(some(fo)), with_present(g, F.N(io), F.N(fo)))
        one(getter or n, chk)
    meta("version", lambda v: v); meta("changeset", lambda v: v); meta("uid", lambda v: v)
    meta("timestamp", lambda v: I.binop1("Mul", v, m.dgran))
    meta("user_sid", lambda v: lookup(m, v), "user")
    def vis(x, msg, idx, L, g):
        io = field(p, msg, adt, "info"); fo = field(p, some(io), IN, "visible")
        a = differs(m, G("visible", x), some(fo), with_present(g, F.N(io), F.N(fo)))
        if a: return a
        for ab in (with_absent(g, F.N(io)), with_absent(with_present(g, F.N(io)), F.N(fo))):
            r = differs(m, G("visible", x), BOOL(True), ab)
            if r: return "where visibility is not recorded: " + r
    one("visible", vis)
    one("tags", lambda x, msg, idx, L, g: tags_by_columns(m, G("tags", x), field(p, msg, adt, "keys"), field(p, msg, adt, "vals")))

def run_ways_relations(c):
    m = decode(c); p, F = m.p, m.F
    c.rule("every way and relation message becomes exactly one element, in order; references and member ids are running sums from 0 within the message; member type 0/1/2 is node/way/relation; strings are looked up by index")
    W = PB + "Way"; R = PB + "Relation"
    def way(name, f): ob(m, "ways." + name, lambda: each(m, "ways", "Way", f))
    def rel(name, f): ob(m, "relations." + name, lambda: each(m, "relations", "Relation", f))
    way("id", lambda x, msg, idx, L, g: differs(m, get(m, "model::way::Way::id", x), field(p, msg, W, "id"), g))
    common(m, way, "way", "Way", W)
    def refs(x, msg, idx, L, g):
        C = field(p, msg, W, "refs")
        for g0, nodes in F.shape(get(m, "model::way::Way::refs", x)):
            if len(nodes) != 1 or nodes[0][0] != "loop": return "not built by one pass: %s" % descr(m, nodes)
            K = nodes[0][1]; i = F.walks(K.key, [C])
            if i is None: return "the pass over refs is not complete"
            r = rows(m, K, i, lambda y, h: differs(m, y, cum(m, C, i), h, K, i, [C]))
            if r: return r
    way("refs", refs)
    rel("id", lambda x, msg, idx, L, g: differs(m, get(m, "model::relation::Relation::id", x), field(p, msg, R, "id"), g))
    common(m, rel, "relation", "Relation", R)
    codes = {"Node": 0, "Way": 1, "Relation": 2}
    vs = variants(p, MEMBER)
    def members(x, msg, idx, L, g):
        ids, types, roles = (field(p, msg, R, n) for n in ("memids", "types", "roles_sid"))
        for g0, nodes in F.shape(get(m, "model::relation::Relation::members", x)):
            if len(nodes) != 1 or nodes[0][0] != "loop": return "not built by one pass: %s" % descr(m, nodes)
            K = nodes[0][1]; i = F.walks(K.key, [ids, types, roles])
            if i is None: return "the pass over the members is not complete"
            ty = F.N(mk("elem", types, i))
            seen = set()
            def chk(y, h):
                for hh, z in alts(y):
                    gg = F.NG(h | hh)
                    if contradicts(F.NG(hh), h): continue
                    if z.op != "adt": return "a member is %s" % sh(z)
                    code = codes[vs[z.a[1]]]
                    cs = [k for t, k, pol in gg if (t is ty or t.op == "cast" and t.a[2] is ty) and pol]
                    excl = {k for t, k, pol in gg if t is ty and not pol}
                    if cs:
                        if cs != [code] and set(cs) != {code}: return "member type %s becomes Member::%s" % (cs, vs[z.a[1]])
                    elif set(codes.values()) - excl != {code}: return "a member becomes Member::%s without its type being %d" % (vs[z.a[1]], code)
                    seen.add(code)
                    d = z.a[2][0]
                    r = differs(m, get(m, "model::relation::MemberData::id", d), cum(m, ids, i), gg, K, i, [ids])
                    if r: return "id: " + r
                    r = differs(m, get(m, "model::relation::MemberData::role", d), lookup(m, mk("elem", roles, i)), gg)
                    if r: return "role: " + r
            r = rows(m, K, i, chk)
            if r: return r
            if seen != {0, 1, 2}: return "member types %s are not handled" % sorted({0, 1, 2} - seen)
    rel("members", members)
