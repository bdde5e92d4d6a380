"""Reading API database dumps."""
from rulelib import *
from models import deep
from rules_write import trace
from fractions import Fraction

READER = "osm_io::osm::apidb_dump::read::reader::Reader"
EI = "osm_io::osm::apidb_dump::read::element_iterator::ElementIterator"
FIELD = "text_file_sort::field::Field"
GET = "regex::regex::string::Captures::<'h>::get"
AS_STR = "regex::regex::string::Match::<'h>::as_str"

SCHEMA = {
    "public.nodes": ["node_id", "latitude", "longitude", "changeset_id", "visible", '"timestamp"', "tile", "version", "redaction_id"],
    "public.node_tags": ["node_id", "version", "k", "v"],
    "public.ways": ["way_id", "changeset_id", '"timestamp"', "version", "visible", "redaction_id"],
    "public.way_nodes": ["way_id", "node_id", "version", "sequence_id"],
    "public.way_tags": ["way_id", "k", "v", "version"],
    "public.relations": ["relation_id", "changeset_id", '"timestamp"', "version", "visible", "redaction_id"],
    "public.relation_members": ["relation_id", "member_type", "member_id", "member_role", "version", "sequence_id"],
    "public.relation_tags": ["relation_id", "k", "v", "version"],
    "public.changesets": ["id", "user_id", "created_at", "min_lat", "max_lat", "min_lon", "max_lon", "closed_at", "num_changes"],
    "public.users": ["email", "id", "pass_crypt", "creation_time", "display_name", "data_public", "description", "home_lat", "home_lon", "home_zoom", "pass_salt", "email_valid", "new_email", "creation_ip", "languages", "status", "terms_agreed", "consider_pd", "auth_uid", "preferred_editor", "terms_seen", "description_format", "changesets_count", "traces_count", "diary_entries_count", "image_use_gravatar", "auth_provider", "home_tile", "tou_agreed"],
}

def cols(T_): return mk("sym", "columns", T_)
def rows(T_): return mk("sym", "rows", T_)

class Opened:
    """Reader::new for a table of contents with one entry, of a given table: where the data is expected, which
    columns it has, how it is sorted"""
    def __init__(self, c, name, fails=False):
        self.name = name
        def st(A):
            A.e.orpc = True; A.e.nofail = A.e.pureio = not fails
            def get(e, s, cc):
                i = deep(e, s, cc.args[1])
                if i.op != "int": return None
                return [(s, SOME(mk("match", i.a[0], deep(e, s, cc.args[0]))))]
            def as_str(e, s, cc, m=None):
                m = deep(e, s, cc.args[0]) if m is None else m
                if m.op == "match":
                    self.matches.append(m)
                    return [(s, e.ref_to(STR(name) if m.a[0] == 1 else cols(name)))]
            def at(e, s, cc):
                if len(cc.args) != 2: return None
                x, i = deep(e, s, cc.args[0]), deep(e, s, cc.args[1])
                y = x.a[0] if x.op == "fld" else x
                if i.op != "int" or y.op != "call" or not (isinstance(y.a[0], str) and y.a[0].endswith("Regex::captures")): return None
                return as_str(e, s, cc, mk("match", i.a[0], x))
            A.e.intercepts[GET] = get; A.e.intercepts[AS_STR] = as_str; A.e.intercepts["std::ops::Index::index"] = at
        self.matches = []
        A = self.A = Ana(c, find1(c.prog, "apidb_dump::read::reader::Reader::new"), setup=st)
        F = self.F = A.F
        self.ok = [(F.NG(s.pc | g), F.N(x)) for s, v in A.outs for g, x in F.expand(v) if x.op == "adt" and x.a[1] == 0]
        self.entries = []        # (phi, guard, key, value)
        for ph, i in A.e.phis.items():
            for q in i["step"]:
                for h, x in F.expand(q):
                    if x.op == "ins" and F.N(x.a[0]) is ph: self.entries.append((ph, h, F.N(x.a[1]), x.a[2]))

def rewrite(t, rule, memo=None):
    """a value with every part for which rule(part) is not None replaced"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    r = rule(t)
    if r is None:
        def go(x):
            if isinstance(x, T): return rewrite(x, rule, memo)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            if isinstance(x, frozenset): return frozenset((go(y), k, p) for y, k, p in x)
            return x
        if t.op == "phi": r = t
        elif t.op == "bin": r = I.binop1(t.a[0], go(t.a[1]), go(t.a[2]))
        elif t.op == "fld": r = I.proj_fld(go(t.a[0]), *t.a[1:])
        else:
            na = tuple(go(x) for x in t.a)
            r = t if na == t.a else mk(t.op, *na)
    memo[t] = r
    return r

def plain(v):
    while v.op == "ref" and v.a[0][0] == "V" and not v.a[1]: v = v.a[0][1]
    return v

def copied(o, t):
    """sequences copied element by element are the sequence"""
    F = o.F
    if t.op != "phi": return None
    r = F.pointwise(t)
    if r is None: return None
    src, ph, val = r
    val = plain(F.N(val)); idx = F.N(ph)
    while True:
        if val.op == "elem" and F.N(val.a[1]) is idx: src = val.a[0]; break
        if val.op == "deref": val = plain(val.a[0]); continue
        if val.op == "ref" and val.a[0][0] == "V" and len(val.a[1]) == 1 and val.a[1][0][0] == "e" and F.N(val.a[1][0][1]) is idx: src = val.a[0][1]; break
        return None
    return copied(o, src) or src

def toc_elem(t):
    """t is part of an entry of the parsed table of contents: (list, position, part)"""
    t = plain(t)
    if t.op == "fld" and plain(t.a[0]).op == "elem": return plain(t.a[0]).a[0], plain(t.a[0]).a[1], t.a[2]
    return None

def table(c, name):
    """the definition of a table, in terms of its columns, its data file and the two directories"""
    o = Opened(c, name)
    if len(o.entries) != 1: return o, None
    def rule(t):
        if t.op == "phi": return copied(o, t)
        x = toc_elem(t)
        if x is not None and x[0].op == "phi": return mk("sym", "toc", name, x[2])
        return None
    o.rule = rule
    o.value = rewrite(o.entries[0][3], rule)
    o.sorts = []
    ph, key = o.entries[0][0], o.entries[0][2]
    def of(t):
        if t.op == "mapval" and t.a[0] is ph: return o.value
        return None
    for x in o.A.events("file_sort"):
        v = x["args"][0]
        v = rewrite(o.F.N(v), of)
        if v.op == "fsort": o.sorts.append((v.a[0], v.a[1], dict((k, a) for k, a in v.a[2]), x))
    return o, o.value

def slice_of(t):
    """(bytes, from, to) of a part of a byte sequence; to is None at its end"""
    t = plain(t)
    if t.op == "fn" and t.a[0] == "slice" and t.a[1][1].op == "adt":
        r = t.a[1][1]
        if r.a[0].endswith("RangeFrom"): return t.a[1][0], r.a[2][0], None
        if r.a[0].endswith("::Range") or r.a[0] == "Range": return t.a[1][0], r.a[2][0], r.a[2][1]
    return None
def scan_toc(c, owner):
    """the function that cuts the table of contents into (header, data file): what it hands out lies between the words that
    mark it, the file name is the whole number before the extension, and no part of the text is passed over"""
    A = Ana(c, owner, paths=True); F = A.F; e = A.e; n = 0
    def marks(g, x):
        out = []
        for t, k, p in g:
            if t.op == "fn" and t.a[0] == "str.starts_with" and (k is True) == (p is True):
                q = slice_of(t.a[1][0])
                if q and q[2] is None and F.N(q[0]) is x and t.a[1][1].op == "str": out.append((F.poly(q[1]), t.a[1][1].a[0]))
        return out
    def diff(a, b):
        d = {m: v for m, v in padd(a, b, -1).items() if v}
        return d.get((), 0) if set(d) <= {()} else None
    def clean(poly): return all(not m or len(m) == 1 and m[0].op in ("phi", "idx") for m in poly)
    todo = []
    for ph, i in e.phis.items():
        if i["init"] is not EMPTY: continue
        for t in i["step"]:
            for h, y in F.expand(t):
                if y.op != "push" or y.a[0] is not ph: continue
                it = plain(F.N(y.a[1]))
                if it.op != "adt" or it.a[0] != "tuple" or len(it.a[2]) != 2: continue
                a, b = slice_of(it.a[2][0]), slice_of(it.a[2][1])
                if not a or not b or a[2] is None or b[2] is None or F.N(a[0]) is not F.N(b[0]): continue
                todo.append((ph, i, F.NG(h | i.get("steppc", NOG)), F.N(a[0]), F.poly(a[1]), F.poly(a[2]), F.poly(b[1]), F.poly(b[2])))
    for ph, i, g, x, a, b, f, t in todo:
        ms = marks(g, x)
        if not ms or not all(map(clean, (a, b, f, t))): continue          # found in another way: not judged
        n += 1
        c.ob("contents:header", any(w == "COPY " and diff(a, q) is not None and 0 <= diff(a, q) <= len(w) for q, w in ms) and any(w.strip().startswith("FROM stdin") and diff(b, q) == 0 for q, w in ms),
            "the header of a table is not what stands between COPY and FROM stdin")
        ends = [(q, w) for q, w in ms if w.endswith(".dat") and diff(t, q) == len(w)]
        c.ob("contents:file", bool(ends), "the name of a data file does not end with its extension")
        if ends: digits(c, A, x, f, ends[0][0], diff)
        for q in i["step"]:
            for h, y in F.expand(q):
                if y is not ph: continue
                g2 = F.NG(h | i.get("steppc", NOG))
                c.ob("contents:every", not any(w.endswith(".dat") for _, w in marks(g2, x)), "a table found in the table of contents is left out")
        # the positions of the scan
        pos = {q for q in e.phis if any(l[0].op == "has" and l[0].a[0] is x and (q,) in F.poly(l[0].a[1]) for j in (e.phis[q],) for l in list(F.NG(j.get("steppc", NOG))) + [z for pc in e.loop_exits.get(j["key"], ()) for z in F.NG(pc)])}
        for q in pos:
            j = e.phis[q]; me = {(q,): 1}
            pats = {w for st in [F.NG(j.get("steppc", NOG))] + [F.NG(h) for z in j["step"] for h, y in F.expand(z)] + [F.NG(z) for z in e.loop_exits.get(j["key"], ())]
                    for l in st if l[0].op == "fn" and l[0].a[0] == "str.starts_with" and slice_of(l[0].a[1][0]) and diff(F.poly(slice_of(l[0].a[1][0])[1]), me) == 0 for w in [l[0].a[1][1].a[0]] if isinstance(w, str)}
            room = max([len(w) for w in pats] + [1]) - 1
            for pc in e.loop_exits.get(j["key"], ()):
                gg = F.NG(pc)
                over = [diff(F.poly(l[0].a[1]), me) for l in gg if l[0].op == "has" and l[0].a[0] is x and (l[1] is True) != (l[2] is True)]
                over = [d for d in over if d is not None]
                c.ob("contents:end", not over or min(over) <= room, "the scan of the table of contents stops %s bytes before its end" % (min(over) if over else 0))
            for z in j["step"] + [j["init"]]:
                for h, y in F.expand(z):
                    gg = F.NG(h | (j.get("initpc", NOG) if z is j["init"] else j.get("steppc", NOG))); P = F.poly(y)
                    for m in [m for m in P if len(m) == 1 and m[0] in pos and P[m] == 1]:
                        k = diff(P, {m: 1})
                        if k is None or k <= 1: continue
                        c.ob("contents:skip", any(diff(r, {m: 1}) is not None and k - diff(r, {m: 1}) <= len(w) + 1 for r, w in marks(gg, x)), "the scan of the table of contents passes over %d bytes" % k)
    c.metrics["contents_entries"] = n
def digits(c, A, x, f, end, diff):
    """the number before the extension starts after the last byte that is no digit"""
    F = A.F; e = A.e
    for m in [m for m in f if len(m) == 1 and m[0] in e.phis]:
        q = m[0]; j = e.phis[q]; el = F.N(mk("elem", x, q))
        steps = [diff(F.poly(y), {m: 1}) for z in j["step"] for h, y in F.expand(z)]
        exits = [F.NG(pc) for pc in e.loop_exits.get(j["key"], ())]
        def test(t):
            if t.op not in ("fn", "call") or not t.a[0].split("::")[-1].startswith("is_ascii_") or not any(y is el for z in t.a[-1] for y in [F.N(plain(z))]): return None
            return t.a[0].split("::")[-1]
        tests = {test(l[0]) for g in exits for l in g} - {None}
        if steps != [-1] or not tests: continue
        c.ob("contents:number", tests == {"is_ascii_digit"}, "the name of a data file goes back over bytes that are %s" % ", ".join(sorted(tests)))
        for g in exits:
            no = any(test(l[0]) in tests and (l[1] is True) != (l[2] is True) for l in g)
            low = any(l[0].op == "bin" and set(mm for mm in padd(F.poly(l[0].a[1]), F.poly(l[0].a[2]), -1) if mm) == {m} for l in g)
            c.ob("contents:digits", no or low, "the name of a data file can start in the middle of its number")
        c.ob("contents:start", diff(f, {m: 1}) == 1 and diff(F.poly(j["init"]), end) == -1, "the name of a data file does not start with its first digit")

def reader(c, names=SCHEMA):
    """a Reader that knows all tables"""
    m = EMPTY; ok = None; os = {}
    for n in names:
        o, v = table(c, n)
        if v is None: raise Finding("Reader::new: a table of contents entry for %s adds %d tables" % (n, len(o.entries)))
        os[n] = o; m = mk("ins", m, STR(n), v)
        if len(o.ok) != 1: raise Finding("Reader::new: %d ways of succeeding" % len(o.ok))
        ok = o.ok[0][1]; ph = o.entries[0][0]
    r = rewrite(I.proj_fld(ok, 0, 0, "0"), lambda t: m if t is ph else None)
    return r, os

class Feed:
    """The sorted tables as streams of rows: opening the sorted file of a table starts its stream, reading a line takes the next row"""
    def __init__(self, A, os):
        self.paths = {}
        for n, o in os.items():
            for s in o.sorts: self.paths[s[1]] = n
        self.opened = []
        e = A.e
        def op(e, s, cc):
            t = e.snap(s, cc.args[-1])
            n = self.paths.get(t)
            if n is None: return None
            self.opened.append(n)
            return [(s, OK(ADT("stream", 0, (STR(n), INT(0)))))]
        def rl(e, s, cc):
            v = e.load(s, cc.args[0])
            if v.op != "adt" or v.a[0] != "stream": return None
            n, pos = v.a[2]
            R = rows(n.a[0]); more = mk("has", R, pos); out = []
            line = mk("elem", R, pos)
            s1 = s.assume([(more, True, True)]); s0 = s.assume([(more, False, True)])
            if s1 is not None:
                s1 = s1.assume([(I.binop1("Eq", fn("linelen", line), INT(0)), False, True)])
            if s1 is not None:
                s1 = s1.copy()
                e.store(s1, cc.args[0], ADT("stream", 0, (n, I.binop1("Add", pos, INT(1)))))
                e.update(s1, cc.args[1], lambda old: line if old is STR("") or old is EMPTY else CAT(old, line))
                out.append((s1, OK(fn("linelen", line))))
            if s0 is not None: out.append((s0, OK(INT(0))))
            return out
        e.intercepts["std::fs::File::open"] = op
        e.intercepts["std::io::BufRead::read_line"] = rl
        parsers(A)

def parsers(A):
    """functions of the crate that turn one text into a value: values of that text here, looked at one by one elsewhere"""
    p = A.p
    for key, b in p.bodies.items():
        if b["krate"] != "osm_io" or "body" not in b or b["body"]["arg_count"] != 1: continue
        if "apidb_dump" not in key or "::read::reader::" in key: continue
        ls = b["body"]["locals"]; t = p.ty(ls[1]["ty"])
        if t["k"] != "ref" or p.ty(t["elem"])["k"] != "str": continue
        rt = p.ty(ls[0]["ty"])
        if not p_value(p, rt): continue
        def f(e, s, cc, key=key, rt=rt):
            x = deep(e, s, cc.args[0])
            v = fn("of", STR(key), x)
            if rt.get("adt") == "std::result::Result":
                d = mk("discr", v)
                return [(s, sel([(frozenset([(d, 0, True)]), OK(I.proj_fld(v, 0, 0, "0"))), (frozenset([(d, 1, True)]), ERR(I.proj_fld(v, 1, 0, "0")))]))]
            return [(s, v)]
        A.e.intercepts[key] = f

def p_value(p, t):
    """a type of values that text stands for: truth values, texts, instants, kinds"""
    if t.get("adt") in ("std::result::Result", "std::option::Option"): return p_value(p, p.ty(t["args"][0]))
    if t["k"] == "bool": return True
    if t["k"] != "adt": return False
    a = t["adt"]
    if a.endswith("string::String") or a.startswith("chrono::"): return True
    return a.startswith("osm_io::") and len(t.get("variants") or ()) > 1
TI = "osm_io::osm::apidb_dump::read::table_reader::TableIterator"
NULLABLE = {"redaction_id", "min_lat", "max_lat", "min_lon", "max_lon", "home_lat", "home_lon", "home_zoom", "pass_salt", "new_email", "creation_ip", "languages", "terms_agreed", "auth_uid", "preferred_editor", "auth_provider", "home_tile", "tou_agreed"}

BIG = {"node_id", "changeset_id", "tile", "version", "way_id", "relation_id", "member_id", "id", "user_id"}
INTS = BIG | {"latitude", "longitude", "redaction_id", "sequence_id", "min_lat", "max_lat", "min_lon", "max_lon", "num_changes", "home_zoom", "changesets_count", "traces_count", "diary_entries_count", "home_tile"}
SMALL = {"home_zoom"}
DOMAINS = {}
BOOLS = {"visible", "data_public", "email_valid", "consider_pd", "terms_seen", "image_use_gravatar"}
TIMES = {'"timestamp"', "created_at", "closed_at", "creation_time", "terms_agreed", "tou_agreed"}
STATUS = ("pending", "active", "confirmed", "suspended", "deleted")
FORMAT = ("html", "markdown", "text")
MEMBERS = {"n": "Node", "Node": "Node", "w": "Way", "Way": "Way", "r": "Relation", "Relation": "Relation"}

def width(table, name):
    """bits of an integer column"""
    if name in SMALL: return 16
    if name == "sequence_id" and table == "public.way_nodes": return 64
    if name == "home_tile": return 64
    return 64 if name in BIG else 32

def wide_enough(table, name, ty):
    if name in ("home_lat", "home_lon"): return ty in ("f64", "f32")
    if name not in INTS: return False
    b = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}.get(ty)
    return b is not None and b >= width(table, name)

def column(t):
    """(table, row, column name) when t is one field of one row"""
    while t.op == "deref" or (t.op == "ref" and t.a[0][0] == "V" and not t.a[1]): t = t.a[0] if t.op == "deref" else t.a[0][1]
    if t.op == "ref" and t.a[0][0] == "V" and len(t.a[1]) == 1 and t.a[1][0][0] == "e": S, P = t.a[0][1], t.a[1][0][1]
    elif t.op == "elem": S, P = t.a
    else: return None
    if P.op != "fn" or P.a[0] != "position": return None
    names, name = P.a[1]
    if name.op != "str" or names.op != "fn" or names.a[0] != "str.split" or names.a[1][0].op != "sym" or names.a[1][0].a[0] != "columns" or names.a[1][1] not in (STR(", "),): return None
    if S.op != "fn" or S.a[0] != "str.split" or S.a[1][1] not in (mk("char", 9), mk("char", "\t"), STR("\t")): return None
    l = S.a[1][0]
    if l.op == "fn" and l.a[0] == "str.trim_end_matches" and l.a[1][1] in (mk("char", 10), mk("char", "\n"), STR("\n")): l = l.a[1][0]
    elif l.op == "fn" and l.a[0] == "str.strip_suffix" and l.a[1][1] in (mk("char", 10), mk("char", "\n"), STR("\n")): l = l.a[1][0]
    else: return None
    if l.op != "elem" or l.a[0].op != "sym" or l.a[0].a[0] != "rows" or l.a[0].a[1] != names.a[1][0].a[1]: return None
    return mk("col", STR(l.a[0].a[1]), l.a[1], name)
def col(t, row, name): return mk("col", STR(t), row, STR(name))

def canon(F, v): return rewrite(F.N(v), column)

class Valid:
    """what is known of the rows of a well formed dump"""
    def __init__(self, F, more): self.F = F; self.more = more
    def fact(self, t):
        """the value of a scalar term on every valid row: a python value, a set of possible values, or None when unknown"""
        op = t.op
        if op in ("bool", "int"): return t.a[0]
        if op == "has":
            s, i = t.a
            if s.op == "sym" and s.a[0] == "rows": return self.more
            if i.op == "fn" and i.a[0] == "position" and column(mk("elem", canon_seq(self.F, s), i)) is not None: return True
            if i.op == "idx": return {True, False} if False else "exit"
        if op == "discr":
            x = t.a[0]
            if x.op == "fn" and x.a[0] == "parse?": x = x.a[1][0]
            elif x.op == "parse?": x = x.a[0]
            if x.op == "fn" and x.a[0] in ("parse", "of") and x.a[1][1].op == "col":
                T_, row, name = x.a[1][1].a
                if name.a[0] in NULLABLE: return {0, 1}
                if x.a[0] == "of" or wide_enough(T_.a[0], name.a[0], x.a[1][0].a[0]): return 0
        if op == "fn" and t.a[0] == "linelen": return "positive"
        if op == "len" and self.line(t.a[0]): return "positive"
        if op == "fn" and t.a[0] == "str.starts_with" and self.line(t.a[1][0]):
            x = t.a[1][1]
            if x.op in ("str", "char"):
                x = x.a[0] if isinstance(x.a[0], str) else chr(x.a[0])
                if x.startswith("\\.") or x.startswith("\n"): return False
                if x == "": return True
        if op == "bin" and t.a[0] == "Eq":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y is INT(0) and self.fact(x) == "positive": return False
                if self.line(x) and y.op == "str" and y.a[0] in ("", "\n", "\\.", "\\.\n"): return False
                if y is INT(0) and self.more is False and x is INT(0): return True
        if op == "un" and t.a[0] == "Not":
            r = self.fact(t.a[1])
            if isinstance(r, bool): return not r
        return None
    def line(self, t): return t.op == "elem" and t.a[0].op == "sym" and t.a[0].a[0] == "rows"
    def lit(self, t, k, p, env):
        if t in env: return (env[t] == k) == bool(p)
        if t.op == "or":
            r = [self.tri(g, env) for g in t.a[0]]
            v = True if True in r else (False if all(x is False for x in r) else None)
            return v if v is None else (v == bool(k)) == bool(p)
        if t.op == "sel":
            r = {self.same(v, k, p, env) if gv is True or gv is None else None for g, v in t.a[0] for gv in [self.tri(g, env)] if gv is not False}
            return next(iter(r)) if len(r) == 1 else None
        return self.same(t, k, p, env)
    def same(self, t, k, p, env):
        if t in env: return (env[t] == k) == bool(p)
        if t.op in ("sel", "or"): return self.lit(t, k, p, env)
        f = self.fact(t)
        if f is None or isinstance(f, set): return None
        if f == "exit": return True if bool(k) != bool(p) else None
        if f == "positive": return (not p) if k == 0 else None
        if isinstance(f, bool) != isinstance(k, bool): return (int(f) == int(k)) == bool(p)
        return (f == k) == bool(p)
    def tri(self, g, env={}):
        r = True
        for t, k, p in g:
            v = self.lit(t, k, p, env)
            if v is False: return False
            if v is None: r = None
        return r
    def atoms(self, x, out):
        """undetermined atoms below a term"""
        if isinstance(x, T):
            if x.op == "discr" and isinstance(self.fact(x), set): out.add(x); return
            for y in x.a: self.atoms(y, out)
        elif isinstance(x, (tuple, frozenset)):
            for y in x: self.atoms(y, out)
    def simp(self, v):
        """choices which valid rows decide are made"""
        memo = {}
        def go(x):
            if x in memo: return memo[x]
            if x.op == "sel":
                live = [(g, y) for g, y in x.a[0] if self.tri(g) is not False]
                sure = [y for g, y in live if self.tri(g) is True]
                if sure: r = go(sure[0])
                elif len(live) == 1: r = go(live[0][1])
                else: r = sel([(g, go(y)) for g, y in live])
            elif x.op == "adt": r = mk("adt", x.a[0], x.a[1], tuple(go(y) for y in x.a[2]))
            else: r = x
            memo[x] = r
            return r
        return go(v)
    def stuck(self, g):
        """a literal of the guard that is not implied by the row being valid, with the assignment that refutes it"""
        for l in g:
            ats = set(); self.atoms(l, ats); ats = sorted(ats)
            if len(ats) > 10: return l, ()
            for n in range(1 << len(ats)):
                env = {a: (n >> i) & 1 for i, a in enumerate(ats)}
                v = self.lit(l[0], l[1], l[2], env)
                if v is not True: return l, tuple((a, e) for a, e in env.items())
        return None

def canon_seq(F, s):
    """the sequence of which s is a complete copy"""
    if s.op == "phi":
        r = copied(type("o", (), {"F": F}), s)
        if r is not None: return r
    return s

class Records:
    """what the next row of a table is turned into"""
    def __init__(self, c, os):
        self.c = c; self.os = os; self.got = {}
        self.key = "<%s as std::iter::Iterator>::next" % TI
        if self.key not in c.prog.bodies: raise Finding("anchor %s: not found" % self.key)
    def stream(self, v):
        if v.op == "adt":
            if v.a[0] == "stream": return v
            for x in v.a[2]:
                r = self.stream(x)
                if r is not None: return r
        return None
    def of(self, v):
        """the analysis of `next` for the table read by iterator value v"""
        st = self.stream(v)
        if st is None: raise Finding("%s: reads from something that is not a sorted table" % self.key)
        n = st.a[2][0].a[0]
        if n not in self.got:
            v = rewrite(v, lambda t: ADT("stream", 0, (STR(n), mk("sym", "pos", n))) if t is st else None)
            s = State(); root = ("L", "self"); s.mem[root] = v
            def setup(A):
                A.e.orpc = True; A.e.nofail = A.e.pureio = True
                Feed(A, self.os)
            A = Ana(self.c, self.key, [REF(root, ())], s, setup=setup)
            F = A.F; outs = []
            for more in (True, False):
                V = Valid(F, more)
                for s, x in A.outs:
                    pc = frozenset((canon(F, t), k, p) for t, k, p in s.pc)
                    if V.tri(pc) is False: continue
                    outs.append((more, pc, V.stuck(pc), V.simp(canon(F, x)), V.simp(canon(F, s.mem[root]))))
            self.got[n] = (A, outs)
        return n, st.a[2][1]
    def record(self, n, pos):
        r = [x for x in self.got[n][1] if x[0]]
        if len(r) != 1: raise Finding("%s: %d ways of reading a row of %s" % (self.key, len(r), n))
        return rewrite(r[0][3], lambda t: pos if t is mk("sym", "pos", n) else None)

    def cut(self, A):
        def nx(e, s, cc):
            v = e.load(s, cc.args[0])
            n, pos = self.of(v); st = self.stream(v); out = []
            more = mk("has", rows(n), pos)
            s1 = s.assume([(more, True, True)]); s0 = s.assume([(more, False, True)])
            if s1 is not None:
                s1 = s1.copy()
                nst = ADT("stream", 0, (st.a[2][0], I.binop1("Add", pos, INT(1))))
                e.store(s1, cc.args[0], rewrite(v, lambda t: nst if t is st else None))
                out.append((s1, self.record(n, pos)))
            if s0 is not None: out.append((s0, NONE))
            return out
        A.e.intercepts[self.key] = nx
        parsers(A)

def elements(c, r, os, RC):
    """the state in which iteration starts"""
    key = find1(c.prog, "apidb_dump::read::reader::Reader::elements")
    s = State(); root = ("L", "self"); s.mem[root] = r
    def st(A):
        A.e.orpc = True; A.e.nofail = A.e.pureio = True
        A.feed = Feed(A, os); RC.cut(A)
    return Ana(c, key, [REF(root, ())], s, setup=st)

# ------------------------------------------------ iterating over elements
import merge
KINDS = [
    ("public.nodes", "node", [("public.node_tags", (("node_id", "node_id"), ("version", "version")))]),
    ("public.ways", "way", [("public.way_nodes", (("way_id", "way_id"), ("version", "version"))), ("public.way_tags", (("way_id", "way_id"), ("version", "version")))]),
    ("public.relations", "relation", [("public.relation_members", (("relation_id", "relation_id"), ("version", "version"))), ("public.relation_tags", (("relation_id", "relation_id"), ("version", "version")))]),
]
def sympos(n): return mk("sym", "pos", n)
def streams(v, out=None):
    """position of every table stream in a value"""
    out = {} if out is None else out
    if v.op == "adt":
        if v.a[0] == "stream": out[v.a[2][0].a[0]] = v.a[2][1]
        else:
            for x in v.a[2]: streams(x, out)
    return out

class Iteration:
    """what each call of `next` does, from every state iteration can reach"""
    def __init__(self, c):
        self.c = c; p = self.p = c.prog
        self.r, self.os = reader(c)
        self.RC = Records(c, self.os)
        A = self.A0 = elements(c, self.r, self.os, self.RC)
        oks = [(s, A.F.N(x)) for s, v in A.outs for g, x in A.F.expand(v) if x.op == "adt" and x.a[1] == 0]
        if len(oks) != 1: raise Finding("Reader::elements: %d ways of succeeding" % len(oks))
        ei = I.proj_fld(oks[0][1], 0, 0, "0")
        self.start = {n: x for n, x in streams(ei).items()}
        self.index = {}
        def gen(t):
            if t.op == "adt" and t.a[0] == "stream": return ADT("stream", 0, (t.a[2][0], sympos(t.a[2][0].a[0])))
            if t.op == "phi":
                n = "index %d" % len(self.index); n = self.index.setdefault(t, n)
                return mk("sym", n)
        self.ei = rewrite(ei, gen)
        self.key = "<%s as std::iter::Iterator>::next" % EI
        if self.key not in p.bodies: raise Finding("anchor %s: not found" % self.key)
        self.runs = {}; self.joins = {}; self.cases = self.heads = 0
        self.phases = {}       # state -> phase
        self.templates = {}; self.made = {}
        self.problems = []     # (kind of obligation, table or phase, text)
        self.explore()

    def isstruct(self, v):
        return v.op == "adt" and v.a[0] != "stream" and len((adt_def(self.p, v.a[0]).get("variants") if v.a[0] in self.p.adt_ty else None) or ()) == 1
    def flat(self, v, path=(), out=None):
        out = {} if out is None else out
        if self.isstruct(v):
            for i, x in enumerate(v.a[2]): self.flat(x, path + (i,), out)
        else: out[path] = v
        return out
    def put(self, v, path, x):
        if not path: return x
        fs = list(v.a[2]); fs[path[0]] = self.put(fs[path[0]], path[1:], x)
        return ADT(v.a[0], v.a[1], fs)

    def run(self, ei):
        r = self.runs.get(ei)
        if r is None:
            s = State(); root = ("L", "self"); s.mem[root] = ei
            def st(B):
                B.e.orpc = True; B.e.nofail = B.e.pureio = True; self.RC.cut(B)
            B = Ana(self.c, self.key, [REF(root, ())], s, setup=st)
            r = self.runs[ei] = (B, root)
        return r

    def result(self, J, B, root, w):
        """(value, state afterwards) in one case"""
        live = []
        for s, v in B.outs:
            for g, x in alts(v):
                b = J.tri(s.pc | g, w)
                if b is False: continue
                live.append((s, x))
        if not live: return None
        vs = {J.R(x, w) for s, x in live}
        if len(vs) == 1: v = next(iter(vs))
        else:
            h = {(x.op, x.a[:2]) for x in vs}
            if len(h) == 1 and next(iter(h))[0] == "adt": v = next(iter(vs))
            else: raise Finding("%s: several results in one situation" % self.key)
        sts = {J.R(s.mem[root], w) for s, x in live}
        if len(sts) != 1: raise Finding("%s: several states afterwards in one situation" % self.key)
        return v, next(iter(sts))

    def explore(self):
        todo = [(self.ei, 0)]
        while todo:
            ei, ph = todo.pop()
            if ei in self.phases:
                if self.phases[ei] != ph: self.problem("order", ph, "one state of the iteration stands for two stages")
                continue
            self.phases[ei] = ph
            if len(self.phases) > 60: raise Finding("%s: too many states" % self.key)
            B, root = self.run(ei)
            if ph == 3:
                J = merge.Join(B, "none", "none", ())
                v, st = self.result(J, B, root, merge.W())
                if v is not NONE: self.problem("order", 3, "after the relations: %s" % sh(v))
                elif self.generic(st, {}) is not ei: self.problem("order", 3, "the end of iteration is left again")
                continue
            parent, kind, children_ = KINDS[ph]
            # no more rows
            J = merge.Join(B, "none", parent, (), False)
            r = self.result(J, B, root, merge.W())
            self.end(ei, ph, r, todo)
            # one more row, child table by child table
            new = {}
            for child, keys in children_:
                J = merge.Join(B, child, parent, keys, True)
                for w, res in J.forks(merge.W(), lambda w: self.one(J, B, root, w, ei, child)):
                    if res is None: continue
                    for path, x in res.items(): new.setdefault(path, set()).add(x)
                self.cases += J.stats[0]; self.heads += J.stats[1]
            states = [ei]
            for path, xs in sorted(new.items()):
                states = [self.put(s, path, x) for s in states for x in sorted(xs, key=lambda x: x.id)]
            todo += [(s, ph) for s in states]
    def problem(self, kind, what, text):
        if (kind, what, text) not in self.problems: self.problems.append((kind, what, text))
    def generic(self, st, rowpos):
        def gen(t):
            if t.op == "adt" and t.a[0] == "stream": return ADT("stream", 0, (t.a[2][0], sympos(t.a[2][0].a[0])))
            if t.op == "list" and not t.a: return EMPTY
        return rewrite(st, gen)
    def end(self, ei, ph, r, todo):
        parent, kind, ch = KINDS[ph]
        if r is None: self.problem("order", ph, "no result when the rows of %s are used up" % parent); return
        v, st = r
        sentinel = SOME(ADT(ELEMENT, vindex(self.p, ELEMENT, "Sentinel"), ()))
        if v is not sentinel: self.problem("order", ph, "when the rows of %s are used up: %s" % (parent, sh(v)))
        for n, x in streams(st).items():
            x = mk("int", 0) if x is sympos(n) else x
            if x is not INT(0) and x is not sympos(n):
                self.problem("order", ph, "reads rows of %s when the rows of %s are used up" % (n, parent))
        st = self.generic(st, {})
        for path, x in self.flat(st).items():       # every child row has found its parent
            if any(merge.rows_in(x, n) for n, _ in ch): st = self.put(st, path, self.flat(self.ei)[path])
        todo.append((st, ph + 1))

    def one(self, J, B, root, w, ei, child):
        """the element made of a parent row and the pending rows of one child table; state changes"""
        ph = self.phases[ei]; parent, kind, ch = KINDS[ph]
        r = self.result(J, B, root, w)
        if r is None: self.problem("join", child, "no element for a row of %s (%s)" % (parent, self.case(w))); return None
        v, st = r
        x = payload(self.p, some(v), ELEMENT, kind.capitalize()) if v.op == "adt" and v.a[1] == 1 and some(v).op == "adt" and some(v).a[1] == vindex(self.p, ELEMENT, kind.capitalize()) else None
        if x is None: self.problem("order", ph, "a row of %s gives %s" % (parent, sh(v))); return None
        pos = streams(st); child_pos = pos.pop(child)
        mine = {n for n, _ in ch}
        for n, q in pos.items():
            if n in mine: continue
            want = mk("int", 0) if False else I.binop1("Add", sympos(n), INT(1)) if n == parent else sympos(n)
            if B.F.N(q) is not B.F.N(want): self.problem("join", child, "position in %s after an element: %s" % (n, sh(q)))
        if child_pos.op != "int": raise Finding("%s: position in %s is not determined: %s" % (self.key, child, sh(child_pos)))
        P = child_pos.a[0]
        old = self.flat(ei); new = self.flat(st)
        held0 = {q for t in old.values() if not (t.op == "adt" and t.a[0] == "stream") for q in merge.rows_in(t, child)}
        q0 = -1 if held0 else 0
        out = {}; held = set()
        for path, t in new.items():
            if t.op == "adt" and t.a[0] == "stream": continue
            held |= merge.rows_in(t, child)
            if t.op == "sel" and merge.rows_in(t, child) and not self.other(t.a[0][0][1], mine - {child}):
                self.problem("join", child, "whether a row is kept for later is decided by something else than the order of its key (%s)" % self.case(w))
            if self.other(t, mine - {child}): continue
            g = rewrite(t, lambda y: mk("col", y.a[0], I.binop1("Sub", sympos(child), INT(1)), y.a[2]) if y.op == "col" and y.a[0].a[0] == child else (EMPTY if y.op == "list" and not y.a else None))
            if path not in old: raise Finding("%s: the state changes its form" % self.key)
            out[path] = g
        bad = [q for q in held if q is not INT(P - 1)]
        if bad: self.problem("join", child, "a row other than the one just read is kept for later (%s)" % self.case(w))
        q1 = P - 1 if held else P
        seq = J.R(self.seq(J, x, kind, child), w)
        self.check(J, seq, child, q0, q1, w)
        self.made.setdefault(kind, []).append((J, w, x))
        # only paths that belong to this table
        return {path: g for path, g in out.items() if self.belongs(path, child, ch, ei, g, old)}
    def belongs(self, path, child, ch, ei, g, old):
        if g is not old[path]: return True
        return merge.rows_in(g, child) != set()
    def other(self, t, names):
        if t.op in ("sel", "undef"): return True
        return any(merge.rows_in(t, n) for n in names)
    def case(self, w):
        n = {"eq": "matching", "end": "no", "ver": "later version's", "id<": "later object's", "id=": "later object's", "id>": "later object's"}
        return ", ".join("%s row" % n[k] for r, k in sorted(w.rows.items()))
    def seq(self, J, x, kind, child):
        f = {"public.node_tags": "node::Node::tags", "public.way_tags": "way::Way::tags", "public.relation_tags": "relation::Relation::tags", "public.way_nodes": "way::Way::refs", "public.relation_members": "relation::Relation::members"}[child]
        return deref_all(J.e, State(), call(J.e, find1(self.p, "model::" + f), x))
    def check(self, J, seq, child, q0, q1, w):
        if seq.op != "list":
            self.problem("join", child, "what becomes of its rows is not determined: %s" % sh(seq)); return
        if not seq.a:
            if q0 != q1: self.problem("join", child, "rows are passed over (%s)" % self.case(w))
        else:
            s = J.segment(seq, w)
            if s is None: self.problem("join", child, "rows are not taken one by one in order (%s)" % self.case(w)); return
            t, a, b, ok = s
            self.templates.setdefault(child, set()).add(t)
            if a != q0: self.problem("join", child, "the first pending row is not taken (%s)" % self.case(w))
            if b != q1: self.problem("join", child, "rows are lost or used twice (%s)" % self.case(w))
            if not ok: self.problem("join", child, "takes a row of another object or version (%s)" % self.case(w))
        k = w.rows.get(q1)
        if k is None and w.rows.get(q1 - 1) == "end": k = "end"
        if k is None: self.problem("join", child, "stops without having looked at the next row (%s)" % self.case(w))
        elif k == "eq": self.problem("join", child, "a matching row is left behind (%s)" % self.case(w))


STAGES = ["nodes", "ways", "relations", "end"]

def parse_fn(t, table, row, name):
    """the crate's own function that turns the text of one column into value t"""
    while t.op == "fld": t = t.a[0]
    if t.op == "fn" and t.a[0] == "of" and t.a[1][1] is mk("col", STR(table), row, STR(name)): return t.a[1][0].a[0]
    return None
def textual(t, table, row, name):
    return t.op == "fn" and t.a[0] == "of" and t.a[1][1] is mk("col", STR(table), row, STR(name))

def number(table, row, name, kind="i64"): return fn("parse", STR(kind), mk("col", STR(table), row, STR(name)))

# C29 ------------------------------------------------------------------------
HEADERS = {n: "%s (%s)" % (n, ", ".join(v)) for n, v in SCHEMA.items()}
SORT_BY = {
    "public.nodes": ["node_id", "version"], "public.node_tags": ["node_id", "version"],
    "public.ways": ["way_id", "version"], "public.way_nodes": ["way_id", "version", "sequence_id"], "public.way_tags": ["way_id", "version"],
    "public.relations": ["relation_id", "version"], "public.relation_members": ["relation_id", "version", "sequence_id"], "public.relation_tags": ["relation_id", "version"],
}
HARMLESS = {"with_tmp_dir", "with_intermediate_files", "with_tasks", "with_concurrent_merge", "with_chunk_size_bytes", "with_chunk_size_mb", "with_fields", "add_field", "with_ignore_empty", "with_ignore_lines"}

def run_tables(c):
    import re
    c.rule("Reader::new is analysed for a table of contents with one entry per table: the entry's name, columns and data file are followed into the table definition, the sorter and the record reader")
    p = c.prog; outs = {}; scans = set()
    for n in SCHEMA:
        def one(n=n):
            o, v = table(c, n); F = o.F
            c.use_engine(o.A.e)
            c.ob("entry:%s" % n, len(o.entries) == 1 and o.entries[0][2] is STR(n), "the table of contents entry of %s adds %d tables under %s" % (n, len(o.entries), [sh(x[2]) for x in o.entries]))
            if v is None: return
            # one and the same entry of the table of contents gives name, columns and data file
            hay = {}
            for m in o.matches:
                x = m.a[1]; pats = [y for y in subterms(x) if y.op == "regex" or y.op == "fn" and y.a[0] == "regex"]
                es = [toc_elem(y) for y in subterms(x) if toc_elem(y) is not None]
                hay.setdefault(m.a[0], set()).update((e[0], F.N(e[1])) for e in es)
                for e in es: c.ob("entry:%s header" % n, e[2] == 0, "the header of %s is not taken from the first part of its entry" % n)
                for y in pats:
                    pat = y.a[0] if y.op == "regex" else y.a[1][0]
                    pat = pat.a[0] if isinstance(pat, T) else pat
                    g = re.search(pat, HEADERS[n])
                    c.ob("entry:%s pattern" % n, g is not None and g.group(1) == n and g.group(2) == ", ".join(SCHEMA[n]), "pattern %s does not find name and columns of %s" % (pat, n))
            raw = [toc_elem(y) for y in subterms(o.entries[0][3]) if toc_elem(y) is not None]
            es = {(e[0], F.N(e[1])) for e in raw}
            ok = len(es) == 1 and all(es <= hay.get(k, set()) for k in (1, 2)) and all(e[2] == 1 for e in raw)
            c.ob("entry:%s file" % n, ok, "name, columns and data file of %s do not come from one and the same entry" % n)
            odd = conditional(n, o.entries[0][1], o.entries[0][0])
            c.ob("entry:%s always" % n, odd is None, "whether %s is read depends on %s" % (n, odd and sh(odd, 4)))
            ends = {(F.N(l), F.N(i)) for l, i, _ in raw}
            for l in {l for l, i, _ in raw}: scans.add(o.A.e.phis[l]["key"][1])
            c.ob("entry:%s every entry" % n, o.ok and all(any(t.op == "has" and (t.a[0], t.a[1]) in ends and (k is True) != (q is True) for t, k, q in g) for g, _ in o.ok),
                "opening can succeed without having looked at every entry of the table of contents")
            # sorting
            c.ob("sort:%s" % n, len(o.sorts) == 1, "%s is sorted %d times" % (n, len(o.sorts)))
            for ins, out, opt, ev in o.sorts:
                l = I.seq_items(plain(ins))
                want = fn("pathjoin", S_arg(o, 1), mk("sym", "toc", n, 1))
                c.ob("sort:%s input" % n, l is not None and len(l) == 1 and same_path(l[0], o, n), "%s is sorted from %s instead of its own data file" % (n, sh(ins)))
                outs.setdefault(out, []).append(n)
                extra = sorted(k for k in opt if k not in HARMLESS)
                c.ob("sort:%s options" % n, not extra, "%s is sorted with %s" % (n, ", ".join(extra)))
                check_keys(c, n, opt)
                check_lines(c, n, opt, re)
                ph = o.entries[0][0]
                lk = [k for k in ev["loops"]]
                tested = [F.walks(k, [ph]) for k in lk] if lk else []
                if lk:
                    before = next((i["initpc"] for i in o.A.e.phis.values() if i["key"] == lk[-1] and "initpc" in i), frozenset())
                    odd = [l for l in ev["pc"] if l not in before and l[0].op != "has" and I.feasible(before | I.negation(l))]
                    c.ob("sort:%s always" % n, not odd, "whether %s is sorted depends on %s" % (n, odd and sh(odd[0][0], 4)))
                c.ob("sort:%s all" % n, any(x is not None for x in tested), "not every table is sorted before the dump is read")
        c.guard("entry:%s" % n, one)
    for k in sorted(scans): c.guard("contents", scan_toc, c, k)
    for out, ns in outs.items(): c.ob("output:%s" % ",".join(ns), len(ns) == 1, "%s are sorted into the same file" % ", ".join(ns))
    def other():
        o = Opened(c, "public.other")
        c.ob("other tables", len(o.entries) == 0 and len(o.ok) == 1, "a table that is not read is not passed over")
    c.guard("other tables", other)
    def read():
        it = Iteration(c)
        opened = it.A0.feed.opened
        for n in SCHEMA:
            c.ob("open:%s" % n, n in opened, "the sorted rows of %s are not read" % n)
            if n in it.start: c.ob("start:%s" % n, it.start[n] is INT(0), "rows of %s are used up before the first element" % n)
        c.metrics["tables"] = len(SCHEMA)
    c.guard("open", read)
    c.assumptions.append("the table of contents scanner returns the COPY header and the data file name of each table (foreign binary format, not analysed)")
    c.assumptions.append("text_file_sort writes the lines of its inputs sorted by the given fields")

def conditional(n, g, ph):
    """a condition on which entering the definition of table n depends, given a well formed table of contents"""
    def known(t):
        if t.op == "contains" or t.op == "fn" and t.a[0] == "contains":
            l, x = t.a if t.op == "contains" else t.a[1]
            xs = I.seq_items(plain(l)); x = plain(x)
            if xs is not None and x.op == "str" and all(plain(y).op == "str" for y in xs): return x in [plain(y) for y in xs]
        if t.op == "fn" and t.a[0] == "holds?" and plain(t.a[1][1]).op == "str": return plain(t.a[1][1]).a[0] in SCHEMA[n]
        if t.op == "haskey" and t.a[0] is ph: return False if plain(t.a[1]) is STR(n) else None
        if t.op == "discr" and t.a[0].op == "call" and "captures" in str(t.a[0].a[0]): return 1
        if t.op == "discr" and t.a[0].op == "fn" and "captures" in str(t.a[0].a): return 1
        if t.op == "bin" and t.a[0] == "Eq" and plain(t.a[1]).op == plain(t.a[2]).op == "str": return plain(t.a[1]) is plain(t.a[2])
        return None
    def lit(l):
        t, k, p = l
        if t.op == "or":
            r = [tri(x) for x in t.a[0]]
            v = True if True in r else False if all(x is False for x in r) else None
            return v if v is None else (v == bool(k)) == bool(p)
        if t.op == "has" and t.a[1].op in ("phi", "idx"): return True
        v = known(t)
        return None if v is None else (v == k) == bool(p)
    def tri(g):
        r = [lit(l) for l in g]
        return False if False in r else None if None in r else True
    for l in sorted(g, key=lambda l: l[0].id):
        if lit(l) is not True: return l[0]
    return None

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    out = []; todo = [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); out.append(x); todo += children(x)
    return out
def S_arg(o, i): return o.A.args[0]
def same_path(t, o, n):
    t = plain(t)
    if t.op == "fn" and t.a[0] == "pathjoin":
        a, b = plain(t.a[1][0]), plain(t.a[1][1])
        return a is o.A.args[0] and b is mk("sym", "toc", n, 1)
    if t.op == "pathjoin":
        return plain(t.a[0]) is o.A.args[0] and plain(t.a[1]) is mk("sym", "toc", n, 1)
    return False
def check_keys(c, n, opt):
    fs = opt.get("with_fields"); l = None
    if fs is not None: l = I.seq_items(plain(fs[0] if isinstance(fs, tuple) else fs))
    l = list(l or []) if l is not None else ([] if fs is None else None)
    if l is None: c.fail("sort:%s key" % n, "sort key of %s is not determined: %s" % (n, sh(fs if isinstance(fs, T) else fs[0]))); return
    got = []
    ix = {k: findex(c.prog, FIELD, k) for k in ("index", "field_type")} if FIELD in c.prog.adt_ty else {"index": 1, "field_type": 2}
    for f in l:
        f = plain(f)
        if f.op != "adt": got.append(("?", None, ())); continue
        i = f.a[2][ix["index"]]; pos = None
        for y in subterms(i):
            if y.op == "fn" and y.a[0] == "position": pos = y
        name = None
        if pos is not None and pos.a[1][1].op == "str":
            x = column(mk("elem", fn("str.split", fn("str.trim_end_matches", mk("elem", rows(n), INT(0)), STR("\n")), STR("\t")), pos))
            if x is not None and poly_is(i, pos): name = pos.a[1][1].a[0]
        got.append((name, f.a[2][ix["field_type"]], tuple(y for j, y in enumerate(f.a[2]) if j not in (0, ix["index"], ix["field_type"]))))
    want = SORT_BY.get(n)
    if want is None: return          # the order of rows does not matter
    names = [g[0] for g in got]
    c.ob("sort:%s key" % n, names[:len(want)] == want, "%s is sorted by %s" % (n, names))
    for (name, ty, flags), w in zip(got, want):
        c.ob("sort:%s %s numeric" % (n, w), ty is not None and ty.op == "adt" and ty.a[1] == 1, "%s is not sorted by %s as a number" % (n, w))
        c.ob("sort:%s %s flags" % (n, w), all(x.op == "bool" and not x.a[0] for x in flags), "%s is sorted by %s in an unexpected way" % (n, w))
def poly_is(i, pos):
    """one more than a position"""
    F = flow_of()
    return F.poly(i) == F.poly(I.binop1("Add", pos, INT(1)))
_F = []
def flow_of():
    if not _F: _F.append(Flow(type("E", (), {"phis": {}, "loop_exits": {}})()))
    return _F[0]
def check_lines(c, n, opt, re):
    pat = opt.get("with_ignore_lines"); pat = pat[0] if isinstance(pat, tuple) and pat else pat
    s = None
    if pat is not None:
        for y in subterms(plain(pat)):
            if y.op == "regex": s = y.a[0]
            elif y.op == "fn" and y.a[0] == "regex": s = y.a[1][0]
    s = s.a[0] if isinstance(s, T) else s
    if s is None: c.fail("lines:%s" % n, "lines of %s beginning with # are not read, and its end marker is" % n); return
    data = ["1\t2\t3", "#1\t2", "\\N\t1", "a\\.\tb", "\\.\t1", "1\t\\.", "-1\t", "\\\\.\t1", "1.5\t2", "\tx"]
    bad = [d for d in data if re.search(s, d)]
    c.ob("lines:%s" % n, not bad and re.search(s, "\\.") is not None, "with pattern %s %s" % (s, "rows such as %r are dropped" % bad[0] if bad else "the end marker is read as a row"))

# C30 / C32 --------------------------------------------------------------------
def run_join(c):
    c.rule("the element iterator is run on every state it can reach; its loops over child rows are explored over the relations a child row can have to the parent row (same object and version, later version, later object, no row), and every case must give the element exactly the pending rows with its own id and version and keep the first other row for later")
    it = Iteration(c); c.use_engine(it.A0.e)
    for B, _ in it.runs.values(): c.use_engine(B.e)
    for ph, (parent, kind, ch) in enumerate(KINDS):
        for child, keys in ch:
            bad = [x[2] for x in it.problems if x[0] == "join" and x[1] == child]
            c.ob("join:%s" % child, not bad, "; ".join(bad[:3]))
            c.ob("used:%s" % child, child in it.templates, "rows of %s never become part of an element" % child)
        bad = [x[2] for x in it.problems if x[0] == "join" and x[1] == parent]
        c.ob("parent:%s" % parent, not bad, "; ".join(bad[:3]))
        c.ob("states:%s" % parent, any(v == ph for v in it.phases.values()), "no rows of %s are read" % parent)
        for child, keys in ch: c.ob("start:%s" % child, it.start.get(child) is INT(0), "reading %s does not start with its first row" % child)
        c.ob("start:%s" % parent, it.start.get(parent) is INT(0), "reading %s does not start with its first row" % parent)
    c.metrics.update({"states": len(it.phases), "cases": it.cases, "loop_states": it.heads})
    c.assumptions.append("tables are sorted by object id and version (C29) and every child row has its parent row")

def run_sequence(c):
    c.rule("the reachable states of the element iterator form the stages nodes, ways, relations, end: in each stage a row of the stage's table gives an element of that kind and the same stage, the end of the table gives the marker and the next stage, and the end is never left")
    it = Iteration(c); c.use_engine(it.A0.e)
    for B, _ in it.runs.values(): c.use_engine(B.e)
    for ph, n in enumerate(STAGES):
        bad = [x[2] for x in it.problems if x[0] == "order" and x[1] == ph]
        c.ob("stage:%s" % n, not bad, "; ".join(bad[:3]))
        c.ob("reached:%s" % n, ph in it.phases.values(), "iteration never comes to the stage of the %s" % n)
    for ph, (parent, kind, ch) in enumerate(KINDS):
        c.ob("kind:%s" % kind, kind in it.made, "no %s is ever returned" % kind)
        bad = [x[2] for x in it.problems if x[0] == "join" and x[1] in [parent] + [k for k, _ in ch] and "position in" in x[2]]
        c.ob("one row:%s" % kind, not bad, "; ".join(bad[:2]))
    c.metrics.update({"states": len(it.phases)})

# C31 ----------------------------------------------------------------------------
def run_fields(c):
    c.rule("every field of the elements returned is followed back to the column of the row it comes from, and the user and changeset indexes to the rows they are filled from")
    it = Iteration(c); p = c.prog; c.use_engine(it.A0.e)
    A = it.A0; F = A.F
    # indexes
    roles = {}
    for ph, name in it.index.items():
        def idx(ph=ph, name=name):
            i = A.e.phis.get(ph)
            if i is None or i["init"] is not EMPTY or len(i["step"]) != 1: raise Finding("an index is not filled in one pass over one table")
            s = i["step"][0]
            if s.op != "ins" or s.a[0] is not ph: raise Finding("an index does not get an entry for every row: %s" % sh(s))
            ks = subterms(s.a[1]); t = {x.a[0].a[0] for x in ks if x.op == "col"}
            if len(t) != 1: raise Finding("index key %s" % sh(s.a[1]))
            t = next(iter(t)); row = {x.a[1] for x in ks if x.op == "col"}
            row = next(iter(row))
            ex = A.e.loop_exits.get(i["key"]) or []
            done = all(any(l[0].op == "has" and l[0].a[0] is rows(t) and F.N(l[0].a[1]) is F.N(row) and (l[1] is False) == bool(l[2]) for l in pc) for pc in ex)
            c.ob("index:%s complete" % t, bool(ex) and done, "not every row of %s is entered" % t)
            j = A.e.phis.get(row)
            c.ob("index:%s start" % t, (j is not None and j["init"] is INT(0) and [F.N(x) for x in j["step"]] == [F.N(I.binop1("Add", row, INT(1)))]) or F.counter(row) is not None or row.op == "idx", "rows of %s are passed over" % t)
            if s.a[1] is not number(t, row, "id"): raise Finding("rows of %s are found by %s" % (t, sh(s.a[1])))
            if t == "public.changesets": ok = s.a[2] is number(t, row, "user_id")
            else: ok = t == "public.users" and textual(s.a[2], t, row, "display_name")
            c.ob("index:%s value" % t, ok, "what is found in %s is %s" % (t, sh(s.a[2])))
            roles[t] = mk("sym", name)
        c.guard("index", idx)
    for t in ("public.changesets", "public.users"): c.ob("index:%s" % t, t in roles, "rows of %s cannot be found by id" % t)
    if len(roles) != 2: return
    for ph, (T_, kind, ch) in enumerate(KINDS):
        row = sympos(T_)
        col_ = lambda n: mk("col", STR(T_), row, STR(n))
        idn = kind + "_id"
        cs = number(T_, row, "changeset_id"); uid = mk("mapval", roles["public.changesets"], cs)
        seen = set()
        for J, w, x in it.made.get(kind, []):
            get = lambda f: J.R(deref_all(J.e, State(), call(J.e, find1(p, "model::%s::%s::%s" % (kind, kind.capitalize(), f)), x)), w)
            N = F.N
            vals = {f: get(f) for f in ("id", "version", "timestamp", "changeset", "uid", "user", "visible")}
            if kind == "node": vals["coordinate"] = get("coordinate")
            key = tuple(v.id for v in vals.values())
            if key in seen: continue
            seen.add(key)
            def is_(f, want): c.ob("%s:%s" % (kind, f), N(vals[f]) is N(want), "%s of a %s is %s" % (f, kind, sh(vals[f])))
            is_("id", number(T_, row, idn))
            is_("version", fn("narrow", STR("i32"), number(T_, row, "version"))) if False else c.ob("%s:version" % kind, narrowed(vals["version"]) is number(T_, row, "version"), "version of a %s is %s" % (kind, sh(vals["version"])))
            is_("changeset", cs)
            c.ob("%s:uid" % kind, narrowed(vals["uid"]) is uid, "user id of a %s is %s" % (kind, sh(vals["uid"])))
            is_("user", mk("mapval", roles["public.users"], uid))
            def visible():
                for s, want in (("t", True), ("f", False)):
                    v = value_for(c, F, vals["visible"], T_, row, "visible", s)
                    c.ob("%s:visible %s" % (kind, s), v is BOOL(want), "visibility of a %s whose row says %s is %s" % (kind, s, sh(v)))
            c.guard("%s:visible" % kind, visible)
            def instant():
                t = vals["timestamp"]
                ok = t.op == "fn" and t.a[0].endswith("timestamp_millis") and t.a[1][0].op == "fn" and t.a[1][0].a[0].endswith("and_utc")
                c.ob("%s:timestamp" % kind, ok, "timestamp of a %s is %s" % (kind, sh(t)))
                if not ok: return
                x = t.a[1][0].a[1][0]; f = parse_fn(x, T_, row, '"timestamp"')
                if f is not None: fm = formats([v for s, v in Ana(c, f).outs])
                else: fm = formats([x]) if mk("col", STR(T_), row, STR('"timestamp"')) in subterms_g(x) else set()
                c.ob("%s:instant" % kind, whole(fm), "the instant of a %s is read as %s" % (kind, sorted(fm) or sh(x)))
            c.guard("%s:timestamp" % kind, instant)
            if kind == "node":
                for side, cn in (("lat", "latitude"), ("lon", "longitude")):
                    v = call(J.e, find1(p, "model::coordinate::Coordinate::" + side), vals["coordinate"])
                    want = {(number(T_, row, cn, "i32"),): Fraction(1, 10**7)}; want64 = {(number(T_, row, cn),): Fraction(1, 10**7)}
                    c.ob("node:%s" % side, F.poly(N(v)) in (want, want64), "%s of a node is %s" % ("latitude" if side == "lat" else "longitude", sh(v)))
        c.ob("%s" % kind, bool(seen), "no %s is returned" % kind)
    r = mk("sym", "row")
    for t in ("public.node_tags", "public.way_tags", "public.relation_tags"):
        for x in it.templates.get(t, ()):
            e = it.made["node"][0][0].e if "node" in it.made else A.e
            for f in ("k", "v"):
                v = deref_all(e, State(), call(e, find1(p, "model::tag::Tag::" + f), x))
                c.ob("%s:%s" % (t, f), textual(v, t, r, f), "%s of a tag from %s is %s" % ("key" if f == "k" else "value", t, sh(v)))
        c.ob(t, t in it.templates, "no tags from %s" % t)
    t = "public.way_nodes"
    for x in it.templates.get(t, ()): c.ob("%s:reference" % t, x is number(t, r, "node_id"), "a reference of a way is %s" % sh(x))
    c.ob(t, t in it.templates, "no references from %s" % t)
    t = "public.relation_members"
    for x in it.templates.get(t, ()):
        for g, y in alts(x):
            if y.op != "adt": c.fail("%s:member" % t, "a member is %s" % sh(y)); continue
            e = A.e; d = payload(p, y, MEMBER, variants(p, MEMBER)[y.a[1]])
            mid = call(e, find1(p, "model::relation::MemberData::id"), d); role = deref_all(e, State(), call(e, find1(p, "model::relation::MemberData::role"), d))
            c.ob("%s:id" % t, mid is number(t, r, "member_id"), "id of a member is %s" % sh(mid))
            c.ob("%s:role" % t, textual(role, t, r, "member_role"), "role of a member is %s" % sh(role))
    for text, kind in (("Node", "Node"), ("Way", "Way"), ("Relation", "Relation")):
        def mem(text=text, kind=kind):
            for x in it.templates.get(t, ()):
                v = value_for(c, F, x, t, r, "member_type", text)
                got = {y.a[1] for g, y in alts(v) if y.op == "adt"}
                c.ob("%s:kind %s" % (t, text), got == {vindex(p, MEMBER, kind)}, "a member of type %s becomes %s" % (text, [variants(p, MEMBER)[k] for k in got]))
        c.guard("%s:kind %s" % (t, text), mem)
    c.ob(t, t in it.templates, "no members from %s" % t)
    c.assumptions.append("numbers in the columns fit the types the model uses for them")
def narrowed(t):
    if t.op == "fn" and t.a[0] == "narrow": return t.a[1][1]
    if t.op == "narrow": return t.a[1]
    if t.op == "cast": return t.a[-1] if isinstance(t.a[-1], T) else t
    return t
def subterms_g(t):
    """subterms, also inside of guards"""
    seen = set(); out = []; todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x); out.append(x); todo += list(x.a)
        elif isinstance(x, (tuple, frozenset)): todo += list(x)
    return out
def value_for(c, F, v, table, row, name, text):
    """a value when one column holds a given text"""
    C = mk("col", STR(table), row, STR(name))
    def rule(t):
        if t is C: return STR(text)
        if t.op == "fn" and t.a[0] == "of" and t.a[1][1] is C:
            u = literal(c, t.a[1][0].a[0], text, False)
            if u is None: raise Finding("%s is refused for %s" % (text, name))
            return u
        if t.op == "discr":
            x = rewrite(t.a[0], rule)
            if x.op == "adt": return INT(x.a[1])
        return None
    v = rewrite(v, rule)
    V = Valid(F, True)
    V.fact_ = V.fact
    def fact(t):
        if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
            x, y = plain(t.a[1]), plain(t.a[2])
            if x.op == y.op == "str": return (x is y) == (t.a[0] == "Eq")
        if t.op == "str": return t.a[0]
        return V.fact_(t)
    V.fact = fact
    def lit(t, k, p, env):
        if isinstance(k, str): return (t.a[0] == k) == bool(p) if t.op == "str" else None
        return Valid.lit(V, t, k, p, env)
    V.lit = lit
    r = V.simp(F.N(v))
    if r.op in ("bin", "un"):
        b = V.fact(r)
        if isinstance(b, bool): r = BOOL(b)
    return r
def literal(c, key, text, ok=True):
    """the value one of the crate's functions gives for a text, None when it refuses it"""
    A = Ana(c, key, [REF(("V", STR(text)), ())])
    vs = {x for s, v in A.outs for g, x in alts(v)}
    vs = {A.F.N(x) for x in vs}
    if len(vs) != 1: raise Finding("%s(%r) is not determined" % (key, text))
    v = next(iter(vs))
    if v.op == "adt" and v.a[0] == "std::result::Result": return (v.a[2][0] if ok else v) if v.a[1] == 0 else None
    return v

# C33 ---------------------------------------------------------------------------------
LITERALS = {"member_type": ("Node", "Way", "Relation"), "status": STATUS, "description_format": FORMAT}
def run_literals(c):
    c.rule("for every table, the way from a line to a record is followed for rows that are legal in the API database's schema: no legal value may be refused, and the functions that turn texts into values are decided on the legal literals or, for texts, as transducers over all characters")
    it = Iteration(c); p = c.prog
    used = {}
    for n in SCHEMA:
        if n not in it.RC.got:
            c.ob("row:%s" % n, False, "rows of %s are not read" % n); continue
        A, outs = it.RC.got[n]; c.use_engine(A.e)
        rs = [x for x in outs if x[0]]
        why = ""
        if len(rs) != 1: why = "%d outcomes for a legal row" % len(rs)
        elif rs[0][2] is not None:
            l, env = rs[0][2]
            why = "a legal row of %s is refused: %s%s" % (n, showlit(l, 5)[:200], "".join(" with %s" % showcol(a) for a, e in env if e)[:200])
        elif not (rs[0][3].op == "adt" and rs[0][3].a[1] == 1): why = "a legal row of %s gives %s" % (n, sh(rs[0][3]))
        c.ob("row:%s" % n, not why, why)
        ends = [x for x in outs if not x[0]]
        c.ob("end:%s" % n, len(ends) == 1 and ends[0][3] is NONE and ends[0][2] is None, "the end of %s is not recognised" % n)
        st = it.RC.stream(rs[0][4]) if rs else None
        c.ob("next:%s" % n, st is not None and A.F.N(st.a[2][1]) is A.F.N(I.binop1("Add", mk("sym", "pos", n), INT(1))), "a call reads another number of rows than one")
        for x in rs[:1]:
            for y in subterms_g(x[3]) + subterms_g(x[1]):
                if y.op == "fn" and y.a[0] == "of" and y.a[1][1].op == "col" and y.a[1][1].a[0].a[0] == n:
                    used.setdefault(y.a[1][0].a[0], set()).add((n, y.a[1][1].a[2].a[0]))
        for s, v in A.outs:
            for y in subterms_g(canon(A.F, v)):
                if y.op == "fn" and y.a[0] == "of" and y.a[1][1].op == "col" and y.a[1][1].a[0].a[0] == n:
                    used.setdefault(y.a[1][0].a[0], set()).add((n, y.a[1][1].a[2].a[0]))
    kinds = {}
    for key, cs in used.items():
        for t, n in cs:
            k = "bool" if n in BOOLS else "time" if n in TIMES else "literal" if n in LITERALS else "text"
            kinds.setdefault(key, {}).setdefault(k, set()).add((t, n))
    texts = [("public.%s_tags" % k, f) for k in ("node", "way", "relation") for f in ("k", "v")] + [("public.relation_members", "member_role"), ("public.users", "display_name")]
    for key, ks in sorted(kinds.items()):
        short = key.split("::")[-1] if not key.startswith("<") else key.split(" as ")[0].split("::")[-1]
        for k, cs in sorted(ks.items()):
            if k == "bool":
                for s, want in (("t", True), ("f", False)):
                    c.guard("%s:%s" % (short, s), lambda: c.ob("%s:%s" % (short, s), literal(c, key, s) is BOOL(want), "%s is read as %s" % (s, lit_show(c, key, s))))
            elif k == "time": c.guard("%s:time" % short, time_format, c, key, short)
            elif k == "literal":
                for n in sorted({n for _, n in cs}):
                    vals = []
                    for s in LITERALS[n]:
                        def one(s=s, n=n):
                            v = literal(c, key, s); vals.append(v)
                            c.ob("%s:%s" % (short, s), v is not None, "%s is refused for %s" % (s, n))
                        c.guard("%s:%s" % (short, s), one)
                    c.ob("%s:%s distinct" % (short, n), len(set(vals)) == len(LITERALS[n]), "different texts for %s mean the same" % n)
            else:
                mine = sorted(x for x in cs if x in texts)
                if not mine: continue
                def tx():
                    A = Ana(c, key)
                    T_ = merge.Text(A, A.args[0], merge.copy_text, ("normal",), "\\bfnrtvN0x1")
                    bad = T_.run()
                    c.metrics["character_cases"] = c.metrics.get("character_cases", 0) + T_.stats[0]
                    for t, n in mine: c.ob("text:%s.%s" % (t, n), not bad, "text %s is read differently" % (bad[:1] or ""))
                c.guard("text:%s" % short, tx)
    for t, n in texts: c.ob("text:%s.%s read" % (t, n), any((t, n) in cs for cs in used.values()), "%s of %s is not read by the rules of the COPY text format" % (n, t))
    c.assumptions.append("rows are legal in the API database's schema; the number of columns is that of the header")
def showcol(a):
    for y in subterms_g(a):
        if y.op == "col": return "%s empty" % y.a[2].a[0]
    return sh(a, 3)
def lit_show(c, key, s):
    v = literal(c, key, s)
    return "nothing" if v is None else sh(v)
def time_format(c, key, short):
    A = Ana(c, key)
    fm = formats([v for s, v in A.outs])
    c.ob("%s:time" % short, whole(fm), "times are read as %s" % (sorted(fm) or sh(A.outs[0][1])))
def formats(vs):
    """format strings by which instants are read"""
    fm = set()
    for v in vs:
        for y in subterms_g(v):
            if y.op == "fn" and "parse_from_str" in y.a[0] or y.op == "call" and "parse_from_str" in str(y.a[0]):
                for z in subterms_g(y):
                    if z.op == "str" and "%" in z.a[0]: fm.add(z.a[0])
    return fm
def whole(fm): return {f.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S") for f in fm} == {"%Y-%m-%d %H:%M:%S%.f"}
