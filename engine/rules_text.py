"""Boxes and instants as text (C35)."""
import itertools
from rulelib import *
from rules_pbf import walk
import fineval as fe

BOX = "osm_io::osm::model::bounding_box::BoundingBox"
SIDES = ("left", "bottom", "right", "top")
LIMIT = {"left": 180.0, "right": 180.0, "bottom": 90.0, "top": 90.0}

def plain(t):
    while True:
        if t.op == "deref": t = t.a[0]
        elif t.op == "ref" and t.a[0][0] == "V":
            x = t.a[0][1]
            for q in t.a[1]:
                if not (isinstance(q, tuple) and q[0] in ("e", "i") and isinstance(q[1], (T, int))): return t
                x = mk("elem", x, q[1] if isinstance(q[1], T) else INT(q[1]))
            t = x
        else: return t
def part(t, arg):
    """number of the part between commas whose trimmed text this is"""
    t = plain(t); trimmed = False
    while t.op == "fn" and t.a[0].startswith("str.trim"): trimmed = t.a[0] == "str.trim" or trimmed; t = plain(t.a[1][0])
    if not trimmed or t.op not in ("elem", "index") or t.a[1].op != "int": return None
    s = plain(t.a[0])
    if s.op == "fn" and s.a[0] in ("str.split", "seq") and plain(s.a[1][0]) is arg and s.a[1][1] in (CHAR(","), STR(",")): return t.a[1].a[0]
    return None
def CHAR(x): return mk("char", x)

def precise(A): A.e.orpc = True

def run_text(c):
    c.rule("a box is made from text exactly when each of its first four parts between commas is a number within the limits of its side, decided for every order of number and limit; its sides are these numbers")
    c.rule("the text made of a box names each side before its value; the text of an instant is that instant in UTC, to the second")
    p = c.prog
    def parse():
        k = find1(p, "BoundingBox as std::str::FromStr>::from_str"); A = Ana(c, k, setup=precise); F = A.F
        c.ob("parse:total", not A.e.panics, "%s panics: %s" % (loc(p, k), A.e.panics[:1]))
        arg = mk("deref", A.args[0]); outs = []; oks = 0; atoms = {}
        def number(t):
            if t.op == "fn" and t.a[0] == "parse" and t.a[1][0] is STR("f64"): return part(t.a[1][1], plain(arg))
            return None
        for s, v in A.outs:
            for g, x in F.expand(v):
                g = F.NG(g | s.pc)
                if contradicts(g, NOG): continue
                g = frozenset(l for l in g if not any(y.op == "has" for y in walk(l[0])))
                x = F.N(x)
                for t in [l[0] for l in g] + [x]:
                    for y in walk(t):
                        i = number(y)
                        if i is not None: atoms[y] = ("value", i)
                        elif y.op == "discr" and y.a[0].op == "parse?" and number(y.a[0].a[0]) is not None: atoms[y] = ("fails", number(y.a[0].a[0]))
                        elif y.op == "len": atoms[y] = ("count", 0)
                outs.append((g, x))
                if x.a[1] == 0:
                    oks += 1; b = x.a[2][0]
                    for side in SIDES:
                        t = field(p, b, BOX, side) if b.op == "adt" else b; i = number(t)
                        c.ob("side." + side, i == SIDES.index(side), "%s: %s is %s" % (loc(p, k), side, "part %d of the text" % i if i is not None else sh(t, 6)))
        if not oks: raise Finding("%s never succeeds" % k)
        def env(vals, fails=(), count=4):
            return {t: vals[a[1]] if a[0] == "value" else (1 if a[1] in fails else 0) if a[0] == "fails" else count for t, a in atoms.items() if a[0] == "count" or a[1] < 4}
        def result(e):
            r = {x.a[1] for g, x in outs if fe.holds(g, e)}
            if len(r) != 1: raise Finding("%s: the cases do not decide: %s" % (k, r))
            return r.pop()
        choices = []
        for side in SIDES:
            m = LIMIT[side]; choices.append([(v, -m <= v <= m) for v in (-m - 0.5, -m, 0.25, m, m + 0.5)])
        bad = {}; n = 0
        for combo in itertools.product(*choices):
            n += 1; want = 0 if all(x[1] for x in combo) else 1
            if result(env([x[0] for x in combo])) != want:
                out = [s for s, x in zip(SIDES, combo) if not x[1]]
                bad.setdefault((want, out[0] if len(out) == 1 else ""), [x[0] for x in combo])
        for side in SIDES:
            b = bad.get((1, side)); c.ob("limit." + side, b is None, "%s accepts %s" % (loc(p, k), b))
        b = bad.get((0, "")); c.ob("limit.inside", b is None, "%s refuses %s" % (loc(p, k), b))
        good = [0.25] * 4
        for i, side in enumerate(SIDES):
            c.ob("number." + side, result(env(good, {i})) == 1, "%s accepts a %s that is no number" % (loc(p, k), side))
        c.ob("count.few", result(env(good, (), 3)) == 1, "%s accepts three numbers" % loc(p, k))
        c.ob("count.four", result(env(good, (), 4)) == 0, "%s refuses four numbers" % loc(p, k))
        c.metrics["cases"] = n + 6
    c.guard("parse", parse)
    def display():
        k = find1(p, "BoundingBox as std::fmt::Display>::fmt"); A = Ana(c, k); F = A.F
        text = []
        for x in A.e.log:
            if x["kind"] in ("fmtwrite", "fmt_write"):
                t = [y for y in x["args"] if isinstance(y, T) and y.op in ("fmt", "str")]
                for y in t: text += list(y.a[0]) if y.op == "fmt" else [y.a[0]]
        seen = []; before = ""
        for y in text:
            if isinstance(y, T) and y.op == "str": y = y.a[0]
            if isinstance(y, str): before += y; continue
            if not isinstance(y, tuple): raise Finding("%s shows %s" % (k, sh(y, 4)))
            v = plain(F.N(y[2])); sides = [s for s in SIDES if v is plain(field(p, mk("deref", A.args[0]), BOX, s))]
            names = [s for s in SIDES if s in before.lower()]
            c.ob("display.%d" % len(seen), len(sides) == 1 and names == sides, "%s: %s is shown as %s" % (loc(p, k), sh(v, 4), before.strip()))
            seen += sides; before = ""
        c.ob("display.all", sorted(seen) == sorted(SIDES), "%s shows %s" % (loc(p, k), seen))
    c.guard("display", display)
    def instant():
        k = find1(p, "converters::timestamp_to_iso8601_seconds"); A = Ana(c, k); F = A.F; n = 0
        for s, v in A.outs:
            for g, x in F.expand(v):
                g = F.NG(g | s.pc); x = F.N(x)
                if contradicts(g, NOG): continue
                at = [y for l in g for y in walk(l[0]) if y.op in ("call", "fn") and str(y.a[0]).endswith("from_timestamp_micros")]
                if x.a[1] == 1:
                    c.ob("instant:refused", len(g) == 1 and bool(at), "%s refuses an instant when %s" % (loc(p, k), [sh(l[0], 4) for l in g])); continue
                n += 1; y = x.a[2][0]; y = plain(y)
                us = [z for z in walk(y) if z.op in ("call", "fn") and "DateTime.from_" in str(z.a[0])]
                ok = len(us) == 1 and str(us[0].a[0]).endswith("from_timestamp_micros") and us[0].a[1][0] is A.args[0] and rfc3339(y, us[0])
                c.ob("instant:text", ok, "%s: the text is %s" % (loc(p, k), sh(y, 6)))
        c.ob("instant:some", n > 0, "%s never succeeds" % k)
    c.guard("instant", instant)

FORMATS = ("%Y-%m-%dT%H:%M:%SZ", "%FT%TZ", "%Y-%m-%dT%TZ", "%FT%H:%M:%SZ")
def rfc3339(y, at):
    if y.op == "fmt" and len(y.a[0]) == 1 and isinstance(y.a[0][0], tuple) and y.a[0][0][1] == "display":
        y = plain(y.a[0][0][2])
        return y.op in ("call", "fn") and str(y.a[0]).endswith("DateTime.format") and plain(y.a[1][0]) is at and y.a[1][1].op == "str" and y.a[1][1].a[0] in FORMATS
    if y.op not in ("call", "fn") or plain(y.a[1][0]) is not at: return False
    nm = str(y.a[0]).split(".")[-1]
    if nm == "to_rfc3339_opts": return y.a[1][1].op == "adt" and y.a[1][1].a[0].endswith("SecondsFormat") and y.a[1][1].a[1] == 0 and y.a[1][2] is TRUE
    return False
