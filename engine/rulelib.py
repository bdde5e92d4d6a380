"""Helpers shared by the rules."""
from terms import *
from interp import *
import interp as I
from models import make_engine
from flow import Flow, Loop, padd, pmul
from core import Finding

class Ana:
    """one abstract interpretation of one entry point"""
    def __init__(self, c, key, args=None, st=None, paths=False, fault=None, setup=None, **opts):
        self.c = c; self.p = c.prog
        self.key = key
        self.e = make_engine(self.p, **opts)
        self.F = Flow(self.e)
        if args is None: args = sym_args(self.p, key)
        self.args = args
        st = st or State()
        self.e.paths = paths
        if fault: self.e.fault_site = fault
        if setup: setup(self)
        self.outs = self.e.run_fn(key, args, st, self.e.ctx(None, "root", key))
        self.e.paths = False
        self.e.visited = set(self.e.analysed)
        c.use_engine(self.e)
    def st0(self): return self.outs[0][0] if self.outs else State()
    def call(self, key, *vals, st=None):
        return call(self.e, key, *vals, st=st)
    def events(self, kind): return [x for x in self.e.log if x["kind"] == kind]

def find1(p, suffix, krate="osm_io"):
    ks = p.find(suffix, krate)
    if len(ks) != 1:
        raise Finding("anchor %s: expected one function, found %d" % (suffix, len(ks)))
    return ks[0]

def sym_args(p, key):
    b = p.bodies[key]["body"]
    return [mk("sym", "a%d" % i, b["locals"][i]["ty"]) for i in range(1, b["arg_count"] + 1)]

def call(e, key, *vals, st=None):
    """value returned by a pure function applied to values (passed by reference where the signature wants one)"""
    b = e.p.bodies[key]["body"]
    s = (st or State()).copy()
    args = []
    for i, v in enumerate(vals):
        ty = e.p.ty(b["locals"][i + 1]["ty"])
        if ty["k"] == "ref" and not (v.op == "ref"): args.append(e.ref_to(v))
        else: args.append(v)
    log = len(e.log)
    outs = e.run_fn(key, args, s, e.ctx(None, "call", key, tuple(vals)))
    del e.log[log:]
    if len(outs) != 1: raise Finding("%s does not evaluate to one outcome" % key)
    s, v = outs[0]
    return deref_all(e, s, v)

def unnarrow(x, bits=32):
    """without integer conversions that keep at least that many bits"""
    while True:
        if x.op == "fn" and x.a[0] == "narrow" and x.a[1][0].a[0] not in ("u64", "usize", "u128") and I.WIDTH.get(x.a[1][0].a[0], 0) >= bits: x = x.a[1][1]
        elif x.op == "cast" and I.WIDTH.get(x.a[1], 0) >= bits and (x.a[0] == "i" or x.a[0] == "fi" and x.a[1][0] == "i"): x = x.a[2]
        else: return x

def deref_all(e, s, v, d=6):
    if d == 0: return v
    if v.op == "sel": return mapsel(v, lambda x: deref_all(e, s, x, d))
    if v.op == "ref": return deref_all(e, s, e.load(s, v), d - 1)
    return v

def adt_def(p, name):
    ids = p.adt_ty.get(name)
    if not ids: raise Finding("type %s not found" % name)
    return p.ty(ids[0])
def variants(p, name): return [v["name"] for v in adt_def(p, name)["variants"]]
def vindex(p, adt, vname):
    vs = variants(p, adt)
    if vname not in vs: raise Finding("variant %s::%s not found" % (adt, vname))
    return vs.index(vname)
def findex(p, adt, fname, vi=0):
    fs = [f[0] for f in adt_def(p, adt)["variants"][vi]["fields"]]
    if fname not in fs: raise Finding("field %s.%s not found" % (adt, fname))
    return fs.index(fname)
def field(p, v, adt, fname, vi=0):
    i = findex(p, adt, fname, vi)
    return I.proj_fld(v, vi, i, fname)
def payload(p, v, adt, vname, i=0):
    vi = vindex(p, adt, vname)
    f = adt_def(p, adt)["variants"][vi]["fields"][i]
    return I.proj_fld(v, vi, i, f[0])
def some(v): return I.proj_fld(v, 1, 0, "0")

def allowed_variants(g, t, n):
    """variant numbers of t compatible with guard g"""
    r = set(range(n))
    for (x, k, p) in g:
        if x.op == "discr" and x.a[0] is t:
            if p: r &= {k}
            else: r -= {k}
    return r

def loc(p, key):
    b = p.bodies.get(key)
    return "%s (%s)" % (key, b["file"]) if b else key

def sh(t, d=7): return show(t, d)[:420]

ELEMENT = "osm_io::osm::model::element::Element"
MEMBER = "osm_io::osm::model::relation::Member"
NODE = "osm_io::osm::model::node::Node"
WAY = "osm_io::osm::model::way::Way"
REL = "osm_io::osm::model::relation::Relation"
TAG = "osm_io::osm::model::tag::Tag"
COORD = "osm_io::osm::model::coordinate::Coordinate"
PB = "osm_io::osmpbf::"

def run_callable(A, s, fval, args=()):
    """outcomes of calling a function value (closure, fn item) found in state s, from a fresh trace"""
    e = A.e
    c = I.Call(); c.eng = e; c.args = list(args); c.argtys = [None] * len(args); c.defn = "callable"; c.inst = None; c.targs = []
    c.ctx = e.ctx(None, "callable", fval); c.key = A.key; c.bi = 0; c.line = None; c.file = None; c.destty = None
    st = s.copy()
    for r in [r for r in st.mem if r == ("TRACE",) or r[0] == "S"]: del st.mem[r]
    st.pc = NOG
    outs = e.call_value(st, fval, list(args), c)
    e.visited = set(e.analysed); A.c.use_engine(e)
    return outs
