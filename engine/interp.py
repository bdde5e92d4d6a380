"""Abstract interpreter over monomorphic MIR.

Domain: value-flow terms (terms.py) with gated choices at joins and phi nodes
at loop heads (value/step recurrences found by a fixpoint over modified
places).  Functional memory: root -> term; references are (root, path).
No input is ever supplied and no solver is called."""
import json, sys, struct, itertools
from terms import *
import terms as TM

sys.setrecursionlimit(20000)

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]; self.bodies = d["bodies"]; self.allocs = d["allocs"]
        self.items = d["items"]; self.generic = d["generic"]; self.impls = d["impls"]
        self.adts = d["adts"]; self.statics = d["statics"]; self.public = set(d["public"])
        self._cfg = {}
        self.adt_ty = {}
        for k, t in self.types.items():
            if t["k"] == "adt":
                self.adt_ty.setdefault(t["adt"], []).append(int(k))
        self.by_name = {t["s"]: int(k) for k, t in self.types.items()}

    def ty(self, i):
        return self.types[str(i)]
    def tys(self, i):
        return self.types[str(i)]["s"]
    def is_box(self, i):
        t = self.types[str(i)]
        return t["k"] == "adt" and t.get("is_box")
    def elem(self, i):
        return self.types[str(i)].get("elem")
    def has_body(self, key):
        b = self.bodies.get(key)
        return b is not None and "body" in b
    def find(self, suffix, krate="osm_io"):
        """body keys whose def path ends with ::suffix"""
        r = []
        for k, b in self.bodies.items():
            if b["krate"] == krate and "body" in b and (k == suffix or k.endswith("::" + suffix) or k.endswith(suffix) and suffix.startswith("<")):
                r.append(k)
        return r
    def variant_name(self, tyid, vi):
        t = self.ty(tyid)
        if t["k"] == "adt" and vi < len(t["variants"]):
            return t["variants"][vi]["name"]
        return str(vi)
    def field_name(self, tyid, vi, fi):
        t = self.ty(tyid)
        if t["k"] == "adt" and vi < len(t["variants"]) and fi < len(t["variants"][vi]["fields"]):
            return t["variants"][vi]["fields"][fi][0]
        return str(fi)
    def field_ty(self, tyid, vi, fi):
        t = self.ty(tyid)
        if t["k"] == "adt":
            return t["variants"][vi]["fields"][fi][1]
        if t["k"] == "tuple": return t["elems"][fi]
        if t["k"] == "closure": return t["upvars"][fi]
        return None
    def nfields(self, tyid, vi):
        t = self.ty(tyid)
        if t["k"] == "adt": return len(t["variants"][vi]["fields"]) if vi < len(t["variants"]) else None
        if t["k"] == "tuple": return len(t["elems"])
        if t["k"] == "closure": return len(t.get("upvars", []))
        return None
    def ctor_name(self, tyid):
        t = self.ty(tyid)
        if t["k"] == "adt": return t["adt"]
        if t["k"] == "tuple": return "tuple"
        if t["k"] == "closure": return "closure:" + t["def"] + "|" + str(t.get("inst"))
        if t["k"] == "array": return "array"
        return t["s"]

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = CFG(self.bodies[key]["body"])
            self._cfg[key] = c
        return c

def term_kind(term):
    k = term["kind"]
    if isinstance(k, str): return k, {}
    (n, v), = k.items()
    return n, v

class CFG:
    def __init__(self, body):
        self.body = body
        blocks = body["blocks"]
        n = len(blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            k, v = term_kind(b["terminator"])
            if k == "Goto": s = [v["target"]]
            elif k == "SwitchInt":
                s = [t for _, t in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
            elif k in ("Drop", "Assert"): s = [v["target"]]
            elif k == "Call": s = [v["target"]] if v["target"] is not None else []
            else: s = []
            seen = []
            for x in s:
                if x not in seen: seen.append(x)
            self.succ[i] = seen
        # RPO from 0
        seen = set(); post = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if v not in seen:
                    seen.add(v); stack.append((v, iter(self.succ[v]))); adv = True; break
            if not adv:
                post.append(u); stack.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new; changed = True
        self.idom = idom
        ret = set(b for b in self.rpo if term_kind(blocks[b]["terminator"])[0] == "Return")
        todo = list(ret)
        while todo:
            for p in pred[todo.pop()]:
                if p not in ret: ret.add(p); todo.append(p)
        self.ret = ret
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x)
                        st.extend(pred[x])
    def can_return(self, b): return b in self.ret
    def _inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]: a = idom[a]
            while self.num[b] > self.num[a]: b = idom[b]
        return a
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]

class State:
    __slots__ = ("mem", "pc", "part")
    def __init__(self, mem=None, pc=NOG, part=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.part = part
    def copy(self):
        return State(dict(self.mem), self.pc, self.part)
    def assume(self, lits):
        """returns None if contradictory"""
        lits = frozenset(lits)
        if contradicts(lits, self.pc): return None
        s = self.copy()
        s.pc = self.pc | lits
        return s

class Limit(Exception):
    pass

def proj_fld(v, vi, fi, name):
    def f(x):
        if x.op == "adt":
            if x.a[0] == "box": return proj_fld(x.a[2][0], vi, fi, name)
            if x.a[1] != vi or fi >= len(x.a[2]): return UNDEF
            return x.a[2][fi]
        if x.op == "undef": return UNDEF
        return mk("fld", x, vi, fi, name)
    return mapsel(v, f)

def seq_items(s):
    """list of items when the sequence is completely known, else None"""
    out = []
    while True:
        if s.op == "push":
            out.append(s.a[1]); s = s.a[0]
        elif s is EMPTY:
            return out[::-1]
        elif s.op == "adt" and s.a[0] == "array":
            return list(s.a[2]) + out[::-1]
        elif s.op == "cat":
            r = seq_items(s.a[1])
            if r is None: return None
            l = seq_items(s.a[0])
            if l is None: return None
            return l + r + out[::-1]
        else:
            return None

def proj_elem(v, idx):
    def f(x):
        if x.op == "undef": return UNDEF
        if idx.op == "int":
            it = seq_items(x)
            if it is not None:
                i = idx.a[0]
                if i < 0: i += len(it)
                return it[i] if 0 <= i < len(it) else UNDEF
        if x.op == "repeat": return x.a[0]
        if x.op == "upd" and x.a[1] is idx: return x.a[2]
        return mk("elem", x, idx)
    return mapsel(v, f)

def proj_key(v, k):
    def f(x):
        y = x
        while y.op == "ins":
            if y.a[1] is k: return y.a[2]
            if y.a[1].op == "str" and k.op == "str": y = y.a[0]; continue
            break
        return mk("mapval", y if (k.op == "str" and y is not x) else x, k)
    if v.op == "sel" and all(f(x).op == "mapval" for _, x in v.a[0]): return mk("mapval", v, k)
    return mapsel(v, f)

class Engine:
    def __init__(self, prog, models=None, opts=None):
        self.p = prog
        self.models = models or {}
        self.ctxs = {}
        self.ctxinfo = {}
        self.phis = {}           # phi term -> dict(init, step, key)
        self.loopM = {}
        self.loop_exits = {}     # loop key -> list of exit path conditions (relative to the loop head)
        self.stack = []          # inlining stack of fn keys
        self.unordered = False   # whether the order of hash collections is marked in the values taken from them
        self.opaque = {}         # unmodelled callees -> count
        self.analysed = set()
        self.callsites = 0
        self.log = []            # ghost event log (rolled back on loop re-runs)
        self.fault_site = None   # predicate(call) -> bool
        self.fault_hits = set(); self.nofail = False; self.pureio = False; self.onefault = False
        self.opts = opts or {}
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 3_000_000)
        self.acquires = []; self.clock = 0; self.loops_done = {}; self.tls_tag = ""; self.tls_uses = []; self.panics = []
        self.max_depth = self.opts.get("max_depth", 60)
        self.intercepts = {}     # fn key substring -> python fn(eng, st, call)
        self.loop_stack = []
        self.paths = False       # keep the paths of loop-free code apart instead of joining them
        self.orpc = False        # keep disjunctions of joined path conditions as guard literals
        self.dvals = {}

    # ---------- contexts
    def ctx(self, *parts):
        c = self.ctxs.get(parts)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[parts] = c
            self.ctxinfo[c] = parts
        return c
    def ctx_chain(self, c):
        out = []
        while c is not None and c in self.ctxinfo:
            p = self.ctxinfo[c]
            out.append(p[1:])
            c = p[0]
        return out

    # ---------- memory
    def default(self, root):
        k = root[0]
        if k == "X": return mk("deref", root[1])
        if k == "V": return root[1]
        if k == "C": return self.const_alloc(root[1], root[2])
        if k == "S": return mk("static", root[1])
        if k == "TRACE": return EMPTY
        return UNDEF
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        return v
    def read(self, st, root, path=()):
        v = self.read_root(st, root)
        if v.op == "sel": v = prune(v, st.pc)
        for s in path:
            v = self.step(v, s)
            if v.op == "sel": v = prune(v, st.pc)
        return v
    def step(self, v, s):
        k = s[0]
        if k == "f": return proj_fld(v, s[1], s[2], self.p.field_name(s[3], s[1], s[2]) if s[3] is not None else str(s[2]))
        if k == "e": return proj_elem(v, s[1])
        if k == "k": return proj_key(v, s[1])
        if k == "sub": return fn("subslice", v, s[1], s[2])
        raise Exception("step " + str(s))
    def write(self, st, root, path, val, weak=NOG):
        if root[0] == "V":
            return
        if not path:
            if weak:
                old = self.read_root(st, root)
                val = sel([(weak, val), (NOG, old)])
            st.mem[root] = val
            return
        base = self.read_root(st, root)
        if base.op == "sel": base = prune(base, st.pc)
        st.mem[root] = self.setp(base, path, val, st.pc, weak)
    def setp(self, base, path, val, pc, weak=NOG):
        if not path:
            if weak: return sel([(weak, val), (NOG, base)])
            return val
        s = path[0]
        if base.op == "sel":
            out = []
            for g, x in alts(base, pc):
                if s[0] == "f" and x.op == "adt" and x.a[0] != "box" and x.a[1] != s[1]:
                    out.append((g, x)); continue
                if x.op == "undef": continue
                out.append((g, self.setp(x, path, val, pc | g, weak)))
            return sel(out)
        if s[0] == "f":
            _, vi, fi, ty = s
            if base.op == "adt" and base.a[1] == vi and fi < len(base.a[2]):
                fs = list(base.a[2]); name = base.a[0]
            else:
                n = self.p.nfields(ty, vi) if ty is not None else fi + 1
                if n is None: n = fi + 1
                name = self.p.ctor_name(ty) if ty is not None else "?"
                if base is UNDEF:
                    fs = [UNDEF] * n
                else:
                    fs = [mk("fld", base, vi, i, self.p.field_name(ty, vi, i) if ty is not None else str(i)) for i in range(n)]
                if fi >= n: fs += [UNDEF] * (fi + 1 - n)
            fs[fi] = self.setp(fs[fi], path[1:], val, pc, weak)
            return ADT(name, vi, fs)
        if s[0] == "e":
            inner = self.setp(self.step(base, s), path[1:], val, pc, weak)
            it = seq_items(base)
            if it is not None and s[1].op == "int" and 0 <= s[1].a[0] < len(it):
                it[s[1].a[0]] = inner
                if base.op == "adt": return ADT(base.a[0], base.a[1], it)
                r = EMPTY
                for x in it: r = PUSH(r, x)
                return r
            if base.op == "upd" and base.a[1] is s[1]: base = base.a[0]
            return mk("upd", base, s[1], inner)
        if s[0] == "k":
            inner = self.setp(self.step(base, s), path[1:], val, pc, weak)
            return self.map_insert(base, s[1], inner)
        return mk("fn", "setp", (base, val))
    def map_insert(self, m, k, v):
        if m.op == "ins" and m.a[1] is k: return mk("ins", m.a[0], k, v)
        return mk("ins", m, k, v)

    # refs
    def targets(self, v, st=None):
        """alternatives (guard, root, path) a pointer-like value may refer to"""
        out = []
        for g, x in alts(v, st.pc if st else NOG):
            if x.op == "ref":
                out.append((g, x.a[0], x.a[1]))
            elif x.op == "adt" and x.a[0] == "box":
                out.append((g, ("V", x.a[2][0]), ()))
            elif x.op == "str":
                out.append((g, ("V", x), ()))
            elif x.op == "undef":
                continue
            else:
                out.append((g, ("X", x), ()))
        return out
    def load(self, st, ref):
        """value behind a reference"""
        ts = self.targets(ref, st)
        if len(ts) == 1: return self.read(st, ts[0][1], ts[0][2])
        return sel([(g, self.read(st, r, p)) for g, r, p in ts])
    def store(self, st, ref, val):
        ts = self.targets(ref, st)
        if len(ts) == 1:
            self.write(st, ts[0][1], ts[0][2], val)
        else:
            for g, r, p in ts:
                self.write(st, r, p, val, weak=g or frozenset([(mk("weak", ref), True, True)]))
    def update(self, st, ref, f):
        """in-place update of the value behind ref with f(old)->new"""
        ts = self.targets(ref, st)
        for g, r, p in ts:
            old = self.read(st, r, p)
            if len(ts) == 1: self.write(st, r, p, f(old))
            else: self.write(st, r, p, f(old), weak=g or frozenset([(mk("weak", ref), True, True)]))
    def subref(self, ref, step, st=None):
        return sel([(g, REF(r, p + (step,))) for g, r, p in self.targets(ref, st)])
    def snap(self, st, v, depth=4):
        """argument snapshot: references replaced by the values behind them"""
        if depth == 0: return v
        if v.op == "sel": return mapsel(v, lambda x: self.snap(st, x, depth), st.pc)
        if v.op == "ref": return self.snap(st, self.load(st, v), depth - 1)
        if v.op == "adt" and v.a[2]:
            return ADT(v.a[0], v.a[1], [self.snap(st, x, depth - 1) for x in v.a[2]])
        return v
    def ref_to(self, v):
        """shared reference to an immutable value"""
        return REF(("V", v), ())
    def alloc(self, st, ctx, tag, v):
        root = ("H", ctx, tag)
        st.mem[root] = v
        return root

    # ---------- constants
    def const(self, c):
        ty = c["ty"]; kind = c["kind"]
        t = self.p.ty(ty)
        if kind == "ZeroSized" or t["k"] in ("fndef",):
            return self.zst(ty)
        if isinstance(kind, dict) and "Allocated" in kind:
            a = kind["Allocated"]
            return self.decode(a, 0, ty)
        if isinstance(kind, dict) and "Ty" in kind:
            return fn("constty", STR(json.dumps(kind["Ty"])[:60]))
        return fn("const", STR(json.dumps(kind)[:80]))
    def zst(self, ty):
        t = self.p.ty(ty)
        if t["k"] == "fndef":
            return mk("fnitem", t.get("inst") or t["def"], ty)
        if t["k"] == "tuple" and not t["elems"]: return UNIT
        if t["k"] == "closure": return ADT(self.p.ctor_name(ty), 0, ())
        if t["k"] == "array": return ADT("array", 0, ())
        if t["k"] == "adt":
            vs = t["variants"]
            if len(vs) >= 1:
                return ADT(t["adt"], 0, [self.zst(f[1]) for f in vs[0]["fields"]])
        return fn("zst", STR(t["s"]))
    def size_of(self, ty):
        t = self.p.ty(ty); k = t["k"]
        if k == "bool": return 1
        if k == "char": return 4
        if k in ("int", "uint", "float"):
            n = t["n"].lower()
            return {"isize": 8, "usize": 8, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "i128": 16, "u128": 16, "f32": 4, "f64": 8}[n]
        if k in ("ref", "ptr"):
            e = self.p.ty(t["elem"])["k"]
            return 16 if e in ("str", "slice", "dyn") else 8
        if k == "fnptr": return 8
        if "size" in t: return t["size"]
        return 0
    def prov_at(self, a, off):
        for o, p in a["provenance"]["ptrs"]:
            if o == off: return p
        return None
    def rawint(self, a, off, n):
        bs = a["bytes"][off:off + n]
        if any(b is None for b in bs) or len(bs) < n: return None
        return int.from_bytes(bytes(bs), "little")
    def decode(self, a, off, ty):
        t = self.p.ty(ty); k = t["k"]
        if k == "bool": return BOOL(self.rawint(a, off, 1) == 1)
        if k == "char": return mk("char", chr(self.rawint(a, off, 4)))
        if k in ("int", "uint"):
            n = self.size_of(ty)
            v = self.rawint(a, off, n)
            if v is None: return UNDEF
            if k == "int" and v >= 1 << (8 * n - 1): v -= 1 << (8 * n)
            return INT(v)
        if k == "float":
            n = self.size_of(ty)
            v = self.rawint(a, off, n)
            return mk("float", struct.unpack("<d" if n == 8 else "<f", v.to_bytes(n, "little"))[0])
        if k in ("ref", "ptr"):
            pv = self.prov_at(a, off)
            et = self.p.ty(t["elem"])
            if pv is None:
                if et["k"] in ("str", "slice"): return REF(("V", STR("") if et["k"] == "str" else ADT("array", 0, ())), ())
                return fn("ptr", INT(self.rawint(a, off, 8) or 0))
            g = self.p.allocs.get(str(pv)) or {}
            addend = self.rawint(a, off, 8) or 0
            if et["k"] in ("str", "slice"):
                ln = self.rawint(a, off + 8, 8)
                if "mem" in g:
                    m = g["mem"]
                    if et["k"] == "str":
                        bs = m["bytes"][addend:addend + ln]
                        return REF(("V", STR(bytes(bs).decode("utf8", "replace"))), ())
                    et2 = et["elem"]
                    if self.p.ty(et2)["k"] == "uint" and self.size_of(et2) == 1:
                        return REF(("V", mk("bytes", bytes(x or 0 for x in m["bytes"][addend:addend + ln]))), ())
                    sz = self.size_of(et2)
                    return REF(("V", ADT("array", 0, [self.decode(m, addend + i * sz, et2) for i in range(ln)])), ())
            if "fn" in g: return mk("fnitem", g["fn"], -1)
            if "static" in g: return REF(("S", g["static"]), ())
            if "mem" in g:
                if addend == 0: return REF(("C", pv, t["elem"]), ())
                return REF(("V", self.decode(g["mem"], addend, t["elem"])), ())
            return fn("ptr", STR(json.dumps(g)[:80]))
        if k == "fnptr":
            pv = self.prov_at(a, off)
            g = self.p.allocs.get(str(pv)) or {}
            if "fn" in g: return mk("fnitem", g["fn"], -1)
            return fn("fnptr")
        if k == "tuple":
            offs = self.foffs(t)
            return ADT("tuple", 0, [self.decode(a, off + o, e) for o, e in zip(offs, t["elems"])])
        if k == "array":
            n = t.get("len") or 0
            sz = self.size_of(t["elem"])
            if self.p.ty(t["elem"])["k"] == "uint" and sz == 1:
                return mk("bytes", bytes(x or 0 for x in a["bytes"][off:off + n]))
            return ADT("array", 0, [self.decode(a, off + i * sz, t["elem"]) for i in range(n)])
        if k == "closure":
            offs = self.foffs(t)
            return ADT(self.p.ctor_name(ty), 0, [self.decode(a, off + o, e) for o, e in zip(offs, t.get("upvars", []))])
        if k == "adt":
            vs = t["variants"]
            lv = t.get("lvar")
            if t["adt"] == "std::vec::Vec": return EMPTY
            if t["adt"] == "std::string::String": return STR("")
            if lv is None: return fn("constadt", STR(t["s"]))
            if isinstance(lv, dict) and "Single" in lv:
                vi = lv["Single"]["index"]
                if not vs: return fn("constadt", STR(t["s"]))
                return ADT(t["adt"], vi, [self.decode(a, off + o, f[1]) for o, f in zip(self.foffs(t), vs[vi]["fields"])])
            if isinstance(lv, dict) and "Multiple" in lv:
                m = lv["Multiple"]
                toff = self.foffs(t)[m["tag_field"]] if self.foffs(t) else 0
                prim = json.dumps(m["tag"])
                sz = 1
                if "Pointer" in prim: sz = 8
                for s, n in (("I8", 1), ("I16", 2), ("I32", 4), ("I64", 8)):
                    if '"' + s + '"' in prim: sz = n
                tag = self.rawint(a, off + toff, sz)
                if tag is None and self.prov_at(a, off + toff) is None: return fn("constadt", STR(t["s"]))
                te = m["tag_encoding"]
                if te == "Direct":
                    vi = None
                    for i, v in enumerate(vs):
                        if (int(v["discr"]) & ((1 << (8 * sz)) - 1)) == tag: vi = i
                else:
                    nz = te["Niche"]
                    nv = nz["niche_variants"]
                    lo, hi = (nv["start"], nv["end"]) if isinstance(nv, dict) else (nv[0], nv[1])
                    if self.prov_at(a, off + toff) is not None: vi = nz["untagged_variant"]
                    else:
                        rel = (tag - int(nz["niche_start"])) & ((1 << (8 * sz)) - 1)
                        vi = lo + rel if lo + rel <= hi else nz["untagged_variant"]
                if vi is None: return fn("constadt", STR(t["s"]))
                offs = [o.get("num_bits", 0) // 8 if isinstance(o, dict) else o for o in m["variants"][vi]["offsets"]]
                return ADT(t["adt"], vi, [self.decode(a, off + o, f[1]) for o, f in zip(offs, vs[vi]["fields"])])
        return fn("const", STR(t["s"]))
    def foffs(self, t):
        fo = t.get("foff")
        if isinstance(fo, dict) and "Arbitrary" in fo:
            return [o.get("num_bits", 0) // 8 if isinstance(o, dict) else o for o in fo["Arbitrary"]["offsets"]]
        return []
    def const_alloc(self, aid, ty):
        g = self.p.allocs.get(str(aid))
        if g and "mem" in g: return self.decode(g["mem"], 0, ty)
        return fn("alloc", INT(aid))

    # ---------- places
    def place(self, st, fid, body, pl):
        """returns (list of (guard, root, path), tyid)"""
        ty = body["locals"][pl["local"]]["ty"]
        cur = [(NOG, ("L", fid, pl["local"]), ())]
        vi = None
        boxp = False
        for e in pl["projection"]:
            if e == "Deref":
                if boxp:
                    boxp = False
                    ty = self.boxelem
                    continue
                new = []
                if self.p.is_box(ty):
                    ty = self.p.ty(ty)["args"][0]
                    for g, r, p in cur:
                        v = self.read(st, r, p)
                        # a box is its content, unless the value is an explicit reference
                        for g2, x in alts(v, st.pc):
                            if x.op == "ref": new.append((g | g2, x.a[0], x.a[1]))
                            else: new.append((g | g2, r, p)) if (g, r, p) not in new else None
                    cur = _dedup(new); vi = None; continue
                for g, r, p in cur:
                    v = self.read(st, r, p)
                    for g2, r2, p2 in self.targets(v, st):
                        if contradicts(g, g2): continue
                        new.append((g | g2, r2, p2))
                cur = new
                ty = self.p.elem(ty) if self.p.elem(ty) is not None else ty
                vi = None
            elif isinstance(e, dict) and "Field" in e:
                fi, fty = e["Field"]
                if boxp:
                    continue
                if self.p.is_box(ty) and fi == 0:
                    boxp = True
                    self.boxelem = self.p.ty(ty)["args"][0]
                    continue
                v = vi if vi is not None else 0
                cur = [(g, r, p + (("f", v, fi, ty),)) for g, r, p in cur]
                ty = fty; vi = None
            elif isinstance(e, dict) and "Downcast" in e:
                vi = e["Downcast"]
            elif isinstance(e, dict) and "Index" in e:
                idx = self.read(st, ("L", fid, e["Index"]), ())
                cur = [(g, r, p + (("e", idx),)) for g, r, p in cur]
                ty = self.p.elem(ty); vi = None
            elif isinstance(e, dict) and "ConstantIndex" in e:
                ci = e["ConstantIndex"]
                off = ci["offset"] if not ci["from_end"] else -ci["offset"]
                cur = [(g, r, p + (("e", INT(off)),)) for g, r, p in cur]
                ty = self.p.elem(ty); vi = None
            elif isinstance(e, dict) and "Subslice" in e:
                ss = e["Subslice"]
                cur = [(g, r, p + (("sub", INT(ss["from"]), INT(ss["to"] if not ss["from_end"] else -ss["to"])),)) for g, r, p in cur]
                vi = None
            else:
                # OpaqueCast etc.
                if isinstance(e, dict) and "OpaqueCast" in e: ty = e["OpaqueCast"]
        if boxp:
            return ("boxptr", cur), ty
        if len(cur) > 1: cur = _dedup(cur)
        return cur, ty

    def read_place(self, st, fid, body, pl):
        cur, ty = self.place(st, fid, body, pl)
        if isinstance(cur, tuple) and cur[0] == "boxptr":
            return sel([(g, REF(r, p)) for g, r, p in cur[1]])
        if len(cur) == 1:
            return self.read(st, cur[0][1], cur[0][2])
        return sel([(g, self.read(st, r, p)) for g, r, p in cur])
    def write_place(self, st, fid, body, pl, val):
        if not pl["projection"]:
            st.mem[("L", fid, pl["local"])] = val
            return
        cur, ty = self.place(st, fid, body, pl)
        if isinstance(cur, tuple): return
        if len(cur) == 1:
            self.write(st, cur[0][1], cur[0][2], val)
        else:
            for g, r, p in cur:
                self.write(st, r, p, val, weak=g or frozenset([(mk("weak", STR(str(r))), True, True)]))

    def operand(self, st, fid, body, op):
        (k, v), = op.items() if isinstance(op, dict) else ((op, None),)
        if k in ("Copy", "Move"): return self.read_place(st, fid, body, v)
        if k == "Constant": return self.const(v["const_"])
        return FALSE
    def operand_ty(self, st, fid, body, op):
        (k, v), = op.items() if isinstance(op, dict) else ((op, None),)
        if k in ("Copy", "Move"):
            if not v["projection"]: return body["locals"][v["local"]]["ty"]
            return self.place_ty(body, v)
        if k == "Constant": return v["const_"]["ty"]
        return None
    def place_ty(self, body, pl):
        ty = body["locals"][pl["local"]]["ty"]
        for e in pl["projection"]:
            if e == "Deref":
                if self.p.is_box(ty): ty = self.p.ty(ty)["args"][0]
                else: ty = self.p.elem(ty) if self.p.elem(ty) is not None else ty
            elif isinstance(e, dict) and "Field" in e: ty = e["Field"][1]
            elif isinstance(e, dict) and ("Index" in e or "ConstantIndex" in e):
                ty = self.p.elem(ty) if self.p.elem(ty) is not None else ty
        return ty

    # ---------- arithmetic
    def binop(self, op, a, b, fold=True):
        op = op.replace("Unchecked", "")
        if a.op == "sel" or b.op == "sel":
            aa, bb = alts(a), alts(b)
            if len(aa) * len(bb) <= 40:
                out = []
                for g, x in aa:
                    for h, y in bb:
                        if contradicts(g, h): continue
                        out.append((g | h, self.binop(op, x, y)))
                return sel(out)
        return binop1(op, a, b)

    def unop(self, op, a):
        return mapsel(a, lambda x: unop1(op, x))

    def discr(self, v, ty):
        t = self.p.ty(ty) if ty is not None else None
        def f(x):
            if x.op not in ("adt", "undef"):
                d = mk("discr", x)
                if t and t["k"] == "adt": self.dvals[d] = [int(v["discr"]) for v in t["variants"]]
                return d
            if x.op == "adt":
                if t and t["k"] == "adt" and x.a[1] < len(t["variants"]):
                    return INT(int(t["variants"][x.a[1]]["discr"]))
                return INT(x.a[1])
            if x.op == "undef": return UNDEF
            return mk("discr", x)
        return mapsel(v, f)

    # ---------- rvalues
    def rvalue(self, st, fid, body, rv, ctx):
        (k, v), = rv.items()
        if k == "Use": return self.operand(st, fid, body, v[0])
        if k == "CopyForDeref": return self.read_place(st, fid, body, v)
        if k in ("Ref", "AddressOf", "Reborrow"):
            pl = v[-1]
            cur, ty = self.place(st, fid, body, pl)
            if isinstance(cur, tuple): cur = cur[1]
            return sel([(g, REF(r, p)) for g, r, p in cur])
        if k == "Aggregate":
            ak, ops = v
            vals = [self.operand(st, fid, body, o) for o in ops]
            if ak == "Tuple": return ADT("tuple", 0, vals)
            (n, x), = ak.items()
            if n == "Array":
                return ADT("array", 0, vals)
            if n == "Adt":
                name = self.adtname(x, st, fid, body, rv)
                vi = x[1]
                if name == "std::vec::Vec": return EMPTY
                if name == "std::string::String": return STR("")
                if x[4] is not None: return ADT(name, vi, [UNDEF] * x[4] + vals)
                return eta(ADT(name, vi, vals), self)
            if n == "Closure":
                ty = self.agg_ty
                return ADT(self.p.ctor_name(ty), 0, vals)
            if n == "RawPtr": return vals[0]
            return fn("agg", *vals)
        if k == "BinaryOp":
            a = self.operand(st, fid, body, v[1]); b = self.operand(st, fid, body, v[2])
            return self.binop(v[0], a, b)
        if k == "CheckedBinaryOp":
            a = self.operand(st, fid, body, v[1]); b = self.operand(st, fid, body, v[2])
            return TUP(self.binop(v[0], a, b), FALSE)
        if k == "UnaryOp":
            a = self.operand(st, fid, body, v[1])
            if v[0] == "PtrMetadata":
                return seqlen(self.load(st, a))
            return self.unop(v[0], a)
        if k == "Cast":
            kind, op, ty = v
            a = self.operand(st, fid, body, op)
            kn = kind if isinstance(kind, str) else next(iter(kind))
            if kn in ("PointerCoercion", "PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr", "BoxDerefTransmute"):
                if kn == "Transmute":
                    t = self.p.ty(ty)
                    if t["k"] in ("int", "uint", "float"): return mapsel(a, lambda x: castv("Transmute", t["n"].lower(), x))
                return a
            t = self.p.ty(ty)
            n = t.get("n", t["s"]).lower()
            src = self.operand_ty(st, fid, body, op)
            sn = self.p.ty(src).get("n", "").lower() if src is not None else ""
            return mapsel(a, lambda x: castv(kn, n, x, sn))
        if k == "Discriminant":
            cur, ty = self.place(st, fid, body, v)
            val = sel([(g, self.read(st, r, p)) for g, r, p in cur]) if len(cur) != 1 else self.read(st, cur[0][1], cur[0][2])
            return self.discr(val, ty)
        if k == "Len":
            return seqlen(self.read_place(st, fid, body, v))
        if k == "Repeat":
            a = self.operand(st, fid, body, v[0])
            return mk("repeat", a, INT(self.tyconst(v[1])))
        if k == "ThreadLocalRef":
            return REF(("S", "tlref:" + str(v)), ())
        return fn("rv:" + k)
    def tyconst(self, c):
        try:
            k = c["kind"]
            if "Value" in k:
                a = k["Value"][1]
                return int.from_bytes(bytes(a["bytes"]), "little")
        except Exception:
            pass
        return -1
    def adtname(self, x, st, fid, body, rv):
        return self.p.ty(self.agg_ty)["adt"] if self.agg_ty is not None and self.p.ty(self.agg_ty)["k"] == "adt" else "adt%s" % x[0]

    # ---------- merging
    def merge(self, states):
        if len(states) == 1: return states[0]
        common = frozenset.intersection(*[s.pc for s in states])
        # drop literals that hold in all but were resolved: {c},{!c}
        gs = [s.pc - common for s in states]
        roots = {}
        for s in states:
            for r in s.mem: roots[r] = 1
        if self.orpc:
            o = or_literal(gs)
            if o is not None: common = common | {o}
        out = State({}, common, states[0].part)
        for r in roots:
            vals = []
            first = None; same = True
            for s in states:
                v = s.mem.get(r)
                if v is None:
                    if r[0] in ("L", "T", "H"):
                        continue
                    v = self.default(r)
                if first is None: first = v
                elif v is not first: same = False
                vals.append((s, v))
            if same:
                out.mem[r] = first
            else:
                vals = self.eta(vals)
                out.mem[r] = mergev([(gs[states.index(s)], v) for s, v in vals])
        return out
    def eta(self, vals):
        """write an opaque value out field by field next to alternatives that are written out"""
        like = next((v for s, v in vals if v.op == "adt" and v.a[2] and v.a[0] in self.p.adt_ty), None)
        if like is None or all(v.op == "adt" for s, v in vals): return vals
        if len({v.a[1] for s, v in vals if v.op == "adt" and v.a[2]}) > 1: return vals
        return [(s, self.eta1(v, like, s.pc)) for s, v in vals]
    def eta1(self, v, like, pc):
        if v.op not in ("phi", "fld", "deref") or like.op != "adt" or like.a[0] not in self.p.adt_ty: return v
        vs = self.p.ty(self.p.adt_ty[like.a[0]][0]).get("variants") or []
        k = like.a[1]
        if k >= len(vs) or len(vs[k]["fields"]) != len(like.a[2]): return v
        if len(vs) > 1 and (mk("discr", v), k, True) not in pc: return v
        return ADT(like.a[0], k, [self.eta1(proj_fld(v, k, i, f[0]), y, pc) for i, (f, y) in enumerate(zip(vs[k]["fields"], like.a[2]))])
    def merge_parts(self, states):
        by = {}
        for s in states: by.setdefault(s.part, []).append(s)
        return [self.merge(x) for x in by.values()]

    # ---------- loops (generic)
    def fix_loop(self, entries, key, run):
        """entries: states at loop head; run(list of states)->(backs, exits).
        Returns exits. Fixpoint over modified places; phi init/step recorded."""
        entries = self.merge_parts(entries)
        ent = {s.part: s for s in entries}
        # concrete unrolling for loops over completely known sequences
        M = self.loopM.setdefault(key, {})
        if not M:
            r = self.try_unroll(entries, run)
            if r is not None: return r
        for rnd in range(60):
            for (root, path) in list(M):
                n = len(path)
                for s in ent.values():
                    v = s.mem.get(root)
                    if v is None:
                        if root[0] in ("L", "T", "H"): continue
                        v = self.default(root)
                    k = 0
                    for q in path:
                        if isinstance(q, tuple): ok = v.op == "iter" and q[1] < len(v.a) and isinstance(v.a[q[1]], T)
                        else: ok = v.op == "adt" and q < len(v.a[2])
                        if not ok: break
                        v = v.a[q[1]] if isinstance(q, tuple) else v.a[2][q]
                        k += 1
                    n = min(n, k)
                if n < len(path):
                    del M[(root, path)]
                    if not any(rt == root and path[:n][:len(pp)] == pp for (rt, pp) in M):
                        for k2 in [k2 for k2 in M if k2[0] == root and k2[1][:n] == path[:n]]: del M[k2]
                        M[(root, path[:n])] = 1
            heads = []
            phimap = {}
            for part, s in ent.items():
                h = s.copy()
                for (root, path) in M:
                    if root not in s.mem and root[0] in ("L", "T", "H"): continue
                    ph = mk("phi", key, root, path, part)
                    init = self.read_raw(s, root, path)
                    phimap[(part, root, path)] = (ph, init)
                    self.write_raw(h, root, path, ph)
                heads.append(h)
            mark = len(self.log); pm = len(self.panics)
            # register provisional phi info (init) so that models can consult it
            for (part, root, path), (ph, init) in phimap.items():
                o = self.phis.get(ph)
                self.phis[ph] = {"init": init, "step": o["step"] if o else [], "key": key, "root": root, "path": path, "initpc": ent[part].pc}
            self.loop_stack.append(key)
            backs, exits = run([h.copy() for h in heads])
            self.loop_stack.pop()
            bb = self.merge_parts(backs) if backs else []
            changed = False
            steps = {}
            for b in bb:
                if b.pc:
                    for root, v in list(b.mem.items()):
                        h0 = ent[b.part].mem.get(root) if b.part in ent else None
                        if v is not h0 and v.op in ("sel", "adt", "iter"):
                            nv = deep_prune(v, b.pc)
                            if nv is not v: b.mem[root] = nv
            for b in bb:
                if b.part not in ent:
                    ent[b.part] = b.copy(); changed = True
                    continue
                h = [x for x in heads if x.part == b.part][0]
                for root, v in list(b.mem.items()):
                    if root[0] == "V": continue
                    hv = h.mem.get(root)
                    if hv is None:
                        if root[0] in ("L", "T", "H"): continue
                        hv = self.default(root)
                    if hv is v: continue
                    for path in diff(hv, v):
                        # differing place; is it phi already?
                        if any(rt == root and path[:len(pp)] == pp for (rt, pp) in M): continue
                        for (rt, pp) in [k for k in M if k[0] == root and k[1][:len(path)] == path]:
                            del M[(rt, pp)]
                        M[(root, path)] = 1
                        changed = True
            if not changed:
                for b in bb:
                    for (root, path) in M:
                        k2 = (b.part, root, path)
                        if k2 in phimap:
                            ph, init = phimap[k2]
                            self.phis[ph]["step"] = [self.read_raw(b, root, path)] if root in b.mem or root[0] not in ("L", "T", "H") else []
                            self.phis[ph]["steppc"] = b.pc
                hp = frozenset.intersection(*[h.pc for h in heads]) if heads else NOG
                xs = []
                for x in exits:
                    if isinstance(x, tuple) and x[0] == "div": continue
                    xx = x[2] if isinstance(x, tuple) else x
                    xs.append(xx.pc - hp)
                self.loop_exits[key] = xs
                self.loops_done.setdefault(key, []).append((bb, phimap))
                if len(heads) == len(bb) == 1 and len(self.log) == mark: exits = self.found(exits, heads[0], bb[0], phimap)
                return exits
            del self.log[mark:]; del self.panics[pm:]
        raise Limit("loop fixpoint " + str(key))

    def found(self, exits, head, back, phimap):
        """leaving a loop that only looks for the first element equal to a value: its position"""
        phs = {}
        for ph, init in phimap.values():
            if init is not INT(0) or self.phis[ph]["step"] != [binop1("Add", ph, INT(1))]: return exits
            phs[ph] = 1
        go = back.pc - head.pc
        h = [l for l in go if l[0].op == "has" and l[0].a[1] in phs and l[1:] == (True, True)]
        if len(h) != 1 or len(go) != 2: return exits
        q = next(l for l in go if l is not h[0])
        S, i = h[0][0].a
        E = (mk("elem", S, i), REF(("V", mk("elem", S, i)), ()))
        if q[0].op == "bin" and q[0].a[0] == "Eq" and (q[1] is True) != (q[2] is True):
            x, y = q[0].a[1:]
            if y in E: x, y = y, x
            same = lambda l: (l[1] is True) == (l[2] is True)
        elif q[2] is False and type(q[1]) in (str, int):
            x = q[0]; y = STR(q[1]) if type(q[1]) is str else INT(q[1])
            same = lambda l: l[2] if l[1] == q[1] else None
        else: return exits
        if x not in E: return exits
        if S.op in ("adt", "push", "empty", "sel") or any(mentioned(t, phs) for t in (S, y)): return exits
        holds = mk("fn", "holds?", (S, y)); pos = mk("fn", "position", (S, y)); memo = {}
        def sub(t):
            if t in phs: return pos
            r = memo.get(t)
            if r is None: r = memo[t] = rebuilt(t, sub)
            return r
        def one(s):
            if any(l[0] is q[0] and same(l) for l in s.pc): hit = True
            elif (h[0][0], False, True) in s.pc or (h[0][0], True, False) in s.pc: hit = False
            else: return s
            n = s.copy()
            n.pc = frozenset(l for l in s.pc if l[0] is not h[0][0] and l[0] is not q[0])
            if hit:
                n.pc = frozenset((sub(l[0]),) + tuple(l[1:]) for l in n.pc)
                for r, v in n.mem.items(): n.mem[r] = sub(v)
            n.pc = n.pc | {(holds, hit, True)}
            return n
        return [x[:2] + (one(x[2]),) + x[3:] if isinstance(x, tuple) and len(x) > 2 and isinstance(x[2], State) else one(x) if isinstance(x, State) else x for x in exits]
    def read_raw(self, st, root, path):
        v = st.mem.get(root)
        if v is None: v = self.default(root)
        for s in path:
            if isinstance(s, tuple): v = v.a[s[1]] if v.op == "iter" and s[1] < len(v.a) and isinstance(v.a[s[1]], T) else UNDEF
            else: v = v.a[2][s] if v.op == "adt" and s < len(v.a[2]) else UNDEF
        return v
    def write_raw(self, st, root, path, val):
        v = st.mem.get(root)
        if v is None: v = self.default(root)
        def go(x, p):
            if not p: return val
            if isinstance(p[0], tuple):
                fs = list(x.a); fs[p[0][1]] = go(fs[p[0][1]], p[1:])
                return mk("iter", *fs)
            fs = list(x.a[2]); fs[p[0]] = go(fs[p[0]], p[1:])
            return ADT(x.a[0], x.a[1], fs)
        st.mem[root] = go(v, path)

    def try_unroll(self, entries, run):
        if not any(has_concrete_iter(s) for s in entries): return None
        mark = len(self.log); pm = len(self.panics)
        exits_all = []
        cur = [s.copy() for s in entries]
        for n in range(80):
            self.sym_next = False; self.conc_next = False
            before = cur
            backs, exits = run([s.copy() for s in cur])
            if n == 0 and (not self.conc_next or self.sym_next_here(before, backs)):
                del self.log[mark:]; del self.panics[pm:]
                return None
            exits_all += exits
            if not backs:
                return exits_all
            cur = self.merge_parts(backs)
        del self.log[mark:]; del self.panics[pm:]
        return None
    def sym_next_here(self, before, backs):
        # did some concrete iterator that was live at the head advance?
        if not backs: return False
        b = backs[0]
        h = before[0]
        for root, v in h.mem.items():
            if v.op == "iter" and root in b.mem and b.mem[root] is not v and iter_concrete(v) and iter_concrete(b.mem[root]):
                return False
        return True

    # ---------- executing a function body
    def run_fn(self, key, args, st, ctx):
        """interpret local function; returns list of (state, retval)"""
        p = self.p
        b = p.bodies[key]
        body = b["body"]
        cfg = p.cfg(key)
        self.analysed.add(key)
        fid = ctx
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        self.stack.append(key)
        try:
            res = {"ret": []}
            exits, backs = self.region(key, fid, body, cfg, 0, [st], None, None, res)
        finally:
            self.stack.pop()
        outs = []
        groups = {}
        for s in res["ret"]:
            groups.setdefault(s.part, []).append(s)
        for part, ss in groups.items():
            m = self.merge(ss)
            rv = m.mem.get(("L", fid, 0), UNIT)
            if rv.op == "sel": rv = prune(rv, m.pc)
            for r in [r for r in m.mem if r[0] == "L" and r[1] == fid]:
                del m.mem[r]
            outs.append((m, rv))
        return outs

    def region(self, key, fid, body, cfg, entry, states, blocks, head, res):
        """execute blocks (None = all) from entry; returns (exits {block:[states]}, backs)"""
        pending = {entry: list(states)}
        exits = {}; backs = []
        first = True
        for bi in cfg.rpo:
            if blocks is not None and bi not in blocks: continue
            ss = pending.pop(bi, None)
            if not ss: continue
            ss = self.merge_parts(ss)
            if bi in cfg.loops and not (bi == head and first):
                L = cfg.loops[bi]
                lkey = (fid, key, bi)
                def run(heads, L=L, bi=bi):
                    inner_res = {"ret": []}
                    ex, bk = self.region(key, fid, body, cfg, bi, heads, L, bi, inner_res)
                    exl = [("blk" if cfg.can_return(t) else "div", t, s) for t, sl in ex.items() for s in sl] + [("ret", None, s) for s in inner_res["ret"]]
                    return bk, exl
                exl = self.fix_loop(ss, lkey, run)
                for kind, t, s in exl:
                    if kind == "ret": res["ret"].append(s)
                    elif blocks is not None and t == head: backs.append(s)
                    elif blocks is not None and t not in blocks: exits.setdefault(t, []).append(s)
                    else: pending.setdefault(t, []).append(s)
                continue
            first = False
            for s in ss:
                for t, s2 in self.block(key, fid, body, bi, s, res):
                    if head is not None and t == head: backs.append(s2)
                    elif blocks is not None and t not in blocks: exits.setdefault(t, []).append(s2)
                    else: pending.setdefault(t, []).append(s2)
        return exits, backs

    def block(self, key, fid, body, bi, st, res):
        self.steps += 1
        if self.steps > self.max_steps: raise Limit("steps")
        blk = body["blocks"][bi]
        st = st.copy()
        for si, stm in enumerate(blk["statements"]):
            k = stm["kind"]
            if isinstance(k, str): continue
            (n, v), = k.items()
            if n == "Assign":
                pl, rv = v
                self.agg_ty = self.place_ty(body, pl)
                if pl["projection"] and any(isinstance(e, dict) and "Downcast" in e for e in pl["projection"]): pass
                val = self.rvalue(st, fid, body, rv, (fid, key, bi, si))
                self.write_place(st, fid, body, pl, val)
            elif n == "SetDiscriminant":
                pl = v["place"]
                self.write_place(st, fid, body, pl, fn("setdiscr", INT(v["variant_index"])))
        k, v = term_kind(blk["terminator"])
        if k == "Goto": return [(v["target"], st)]
        if k == "Return":
            res["ret"].append(st); return []
        if k in ("Unreachable", "Resume", "Abort"): return []
        if k == "Drop":
            return [(v["target"], st)]
        if k == "Assert":
            return [(v["target"], st)]
        if k == "SwitchInt":
            d = self.operand(st, fid, body, v["discr"])
            dty = self.operand_ty(st, fid, body, v["discr"])
            out = self.switch(st, d, dty, v["targets"])
            if self.paths and not self.loop_stack and len(out) > 1:
                for n, (t, s2) in enumerate(out):
                    s2.part = tuple(sorted(set(s2.part) | {"p|%s|%d|%d" % (fid, bi, n)}))
            return out
        if k == "Call":
            return self.call_term(key, fid, body, bi, st, v)
        return []

    def switch(self, st, d, dty, targets):
        br = targets["branches"]; oth = targets["otherwise"]
        t = self.p.ty(dty) if dty is not None else {"k": "int"}
        isb = t["k"] == "bool"
        nbits = 8 * self.size_of(dty) if dty is not None and t["k"] in ("int", "uint") else 128
        def norm(val):
            if isb: return bool(val)
            if t["k"] == "char": return chr(val)
            return val
        def cv(x):
            if x.op == "bool": return x.a[0]
            if x.op == "int": return x.a[0] & ((1 << nbits) - 1) if nbits < 128 else x.a[0]
            if x.op == "char": return x.a[0]
            return None
        vals = [norm(b[0]) for b in br]
        out = []
        al = alts(d, st.pc)
        edges = [(norm(b[0]), b[1]) for b in br] + [(None, oth)]
        for val, tgt in edges:
            matched = []
            for g, x in al:
                if x.op == "undef": continue
                c = cv(x)
                if val is not None:
                    if c is not None:
                        if c == val: matched.append(g)
                    else:
                        l = lit(x, val, True)
                        if l is None: continue
                        gg = g | l
                        if not contradicts(gg, st.pc): matched.append(gg)
                else:
                    if c is not None:
                        if c not in vals: matched.append(g)
                    else:
                        ls = NOG
                        bad = False
                        if isb:
                            l = lit(x, not vals[0], True) if vals else NOG
                            if l is None: bad = True
                            else: ls = l
                        else:
                            for vv in vals:
                                l = lit(x, vv, False)
                                ls = ls | l
                            rem = self.remaining(x, vals)
                            if rem is not None:
                                if len(rem) == 0: bad = True
                                elif len(rem) == 1: ls = lit(x, rem[0], True)
                        if bad: continue
                        gg = g | ls
                        if not contradicts(gg, st.pc): matched.append(gg)
            if not matched: continue
            if len(matched) > 1:
                common = frozenset.intersection(*matched)
                if d.op == "sel" and not any(m <= common | st.pc for m in matched):
                    dd = prune(d, st.pc)
                    ls = None
                    if dd.op == "sel":
                        if val is not None: ls = lit(dd, val, True)
                        elif isb and vals: ls = lit(dd, not vals[0], True)
                        else: ls = frozenset().union(*[lit(dd, vv, False) for vv in vals]) if vals else NOG
                    if ls:
                        if contradicts(ls, st.pc): continue
                        common = common | ls
            else: common = matched[0]
            s2 = st.copy()
            s2.pc = st.pc | common
            out.append((tgt, s2))
        return out

    def remaining(self, x, vals):
        """remaining discriminant values of an opaque enum value, if its type is known 2-variant"""
        dv = self.dvals.get(x)
        if dv is not None:
            return [v for v in dv if v not in vals]
        return None

    # ---------- calls
    def call_term(self, key, fid, body, bi, st, v):
        b = self.p.bodies[key]
        ci = b["calls"].get(str(bi), {})
        args = [self.operand(st, fid, body, a) for a in v["args"]]
        argtys = [self.operand_ty(st, fid, body, a) for a in v["args"]]
        c = Call()
        c.eng = self; c.args = args; c.argtys = argtys
        c.defn = ci.get("def"); c.inst = ci.get("inst"); c.targs = ci.get("targs", [])
        c.ctx = self.ctx(fid, key, bi)
        c.key = key; c.bi = bi
        c.line = b["lines"].get(str(bi)); c.file = b.get("file")
        c.destty = self.place_ty(body, v["destination"])
        if c.defn is None:
            c.fnval = self.operand(st, fid, body, v["func"])
        outs = self.do_call(st, c)
        tgt = v["target"]
        res = []
        if tgt is None: return []
        states = []
        for s, val in outs:
            s = s.copy()
            if val is AGAIN: res.append((bi, s)); continue
            self.write_place(s, fid, body, v["destination"], val)
            states.append(s)
        for s in self.merge_parts(states) if len(states) > 1 else states:
            res.append((tgt, s))
        return res

    def do_call(self, st, c):
        """returns list of (state, value)"""
        self.callsites += 1
        if c.defn is None:
            return self.call_value(st, c.fnval, c.args, c)
        d = c.defn
        ib = self.p.bodies.get(c.inst) if c.inst else None
        for pat, f in self.intercepts.items():
            if d == pat or c.inst == pat:
                r = f(self, st, c)
                if r is not None: return norm_out(st, r)
        local = ib is not None and "body" in ib and ib["krate"] in ("osm_io", "osmio_roots")
        m = self.models.get(d)
        if m is not None and (not local or getattr(m, "force", False)):
            r = m(self, st, c)
            if r is not None: return norm_out(st, r)
        if ib is not None and "body" in ib and not (ib["krate"] == "prost"):
            if local or True:
                if self.stack.count(c.inst) < 2 and len(self.stack) < self.max_depth:
                    return self.run_fn(c.inst, c.args, st, c.ctx)
        for pref, f in self.prefix_models:
            if d.startswith(pref):
                r = f(self, st, c)
                if r is not None: return norm_out(st, r)
        t = self.opaque_call(st, c)
        if self.fault_site is not None and not self.nofail and c.destty is not None and self.p.ty(c.destty).get("adt") == "std::result::Result":
            return self.fallible(st, c, c.defn, okval=mk("fld", t, 0, 0, "ok"))
        return norm_out(st, t)

    prefix_models = []

    def opaque_call(self, st, c, name=None, pure=False):
        nm = name or c.defn or "?"
        self.opaque[nm] = self.opaque.get(nm, 0) + 1
        snaps = tuple(self.snap(st, a) for a in c.args)
        t = mk("call", nm, c.ctx if not pure else 0, snaps)
        # havoc mutable reference arguments
        for i, (a, ty) in enumerate(zip(c.args, c.argtys)):
            if ty is not None and self.p.ty(ty)["k"] == "ref" and self.p.ty(ty)["mut"]:
                for g, r, p in self.targets(a, st):
                    old = self.read(st, r, p)
                    self.write(st, r, p, mk("havoc", nm, c.ctx, i, old), weak=g)
        return t

    def call_value(self, st, f, args, c, spread=True):
        """call a function value (closure, fn item, boxed dyn Fn, opaque)"""
        outs = []
        al = alts(f, st.pc)
        for g, x in al:
            s = st
            if len(al) > 1:
                s = st.assume(g)
                if s is None: continue
            outs += self.call_value1(s, x, args, c)
        return outs
    def call_value1(self, st, x, args, c):
        for _ in range(6):
            if x.op == "ref":
                selfref = x
                y = self.load(st, x)
                if y.op == "adt" and y.a[0].startswith("closure:"):
                    return self.call_closure(st, y, selfref, args, c)
                if y.op == "sel": return self.call_value(st, y, args, c)
                x = y
                continue
            if x.op == "adt" and x.a[0] == "box":
                x = x.a[2][0]; continue
            if x.op == "adt" and x.a[0] == "arc":
                x = REF(x.a[2][0].a[0], ()); continue
            break
        if x.op == "adt" and x.a[0].startswith("closure:"):
            return self.call_closure(st, x, None, args, c)
        if x.op == "fnitem":
            return self.call_fnitem(st, x.a[0], args, c)
        # unknown function value
        snaps = tuple(self.snap(st, a) for a in args)
        self.event(st, "callf", c, x, snaps)
        return [(st, mk("callf", x, c.ctx, snaps))]
    def call_fnitem(self, st, inst, args, c):
        b = self.p.bodies.get(inst)
        c2 = Call(); c2.eng = self; c2.args = args; c2.argtys = [None] * len(args)
        c2.defn = b["def"] if b else inst; c2.inst = inst; c2.targs = b["args"] if b else self.inst_args(inst)
        c2.ctx = self.ctx(c.ctx, "fn", inst); c2.key = c.key; c2.bi = c.bi; c2.line = c.line; c2.file = c.file; c2.destty = None
        # tuple struct / variant constructors
        if b is None or "body" not in b:
            cons = self.ctor(inst, args)
            if cons is not None: return [(st, cons)]
        # trait-method items resolved to impls: try the trait method's model
        d = c2.defn
        if d not in self.models and " as " in d and d.startswith("<"):
            tr = d[d.rindex(" as ") + 4:]
            if ">::" in tr:
                import re
                tn = re.sub(r"<.*>(?=>::)", "", tr)
                base, meth = tn.split(">::", 1)
                base = re.sub(r"<.*", "", base)
                c2.defn = base + "::" + meth
        return self.do_call(st, c2)
    def inst_args(self, inst):
        """type arguments of a function given by name (path::<args>)"""
        i = inst.rfind("::<")
        if i < 0 or not inst.endswith(">"): return []
        out, d, cur = [], 0, ""
        for ch in inst[i + 3:-1]:
            if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
            d += (ch in "<([") - (ch in ">)]"); cur += ch
        out.append(cur.strip())
        tys = [self.p.by_name.get(x) for x in out]
        return [] if None in tys else tys
    def ctor(self, inst, args):
        if inst.startswith("std::option::Option") and inst.endswith("Some"): return SOME(args[0])
        if inst.endswith("::Ok") and "Result" in inst: return OK(args[0])
        if inst.endswith("::Err") and "Result" in inst: return ERR(args[0])
        return None
    def call_closure(self, st, clo, selfref, args, c):
        inst = clo.a[0].split("|", 1)[1]
        if not self.p.has_body(inst):
            snaps = tuple(self.snap(st, a) for a in args)
            return [(st, mk("call", inst, c.ctx, snaps))]
        body = self.p.bodies[inst]["body"]
        t1 = self.p.ty(body["locals"][1]["ty"])
        ctx = self.ctx(c.ctx, "clo", inst)
        if self.stack.count(inst) >= 2 or len(self.stack) >= self.max_depth:
            return [(st, mk("call", inst, ctx, tuple(self.snap(st, a) for a in args)))]
        if t1["k"] == "ref":
            if selfref is None:
                r = ("H", ctx, "clo")
                st = st.copy(); st.mem[r] = clo
                selfref = REF(r, ())
            return self.run_fn(inst, [selfref] + list(args), st, ctx)
        return self.run_fn(inst, [clo] + list(args), st, ctx)

    # ---------- events
    def event(self, st, kind, c, *args):
        e = mk("ev", kind, c.ctx if c else 0, tuple(args))
        st.mem[("TRACE",)] = PUSH(self.read_root(st, ("TRACE",)), e)
        self.clock += 1
        self.log.append({"kind": kind, "seq": self.clock, "args": args, "pc": st.pc, "fn": c.key if c else None, "line": c.line if c else None, "file": c.file if c else None, "ctx": c.ctx if c else None, "part": st.part, "loops": tuple(self.loop_stack), "stack": tuple(self.stack)})
        return e

    def fallible(self, st, c, name, okval=None, args=()):
        """opaque fallible operation returning Result; supports fault partitioning"""
        t = mk("call", name, c.ctx, tuple(args))
        if self.nofail: return [(st, OK(okval if okval is not None else mk("fld", t, 0, 0, "ok")))]
        if self.fault_site is not None and self.fault_site(self, c, name):
            site = (c.key, c.bi, name) + ((c.ctx,) if self.onefault else ())   # one fault at a time: each call path counts separately
            self.fault_hits.add(site)
            s2 = st.copy()
            if self.onefault and any(x.startswith("fault|") for x in st.part): return [(st, OK(okval if okval is not None else mk("fld", t, 0, 0, "ok")))]
            s2.part = tuple(sorted(set(st.part) | {"fault|" + "|".join(map(str, site))}))
            s1 = st.copy()
            return [(s1, OK(okval if okval is not None else mk("fld", t, 0, 0, "ok"))), (s2, ERR(mk("faulterr", t)))]
        ok = okval if okval is not None else mk("fld", t, 0, 0, "ok")
        dl = mk("discr", t)
        return [(st, sel([(frozenset([(dl, 0, True)]), OK(ok)), (frozenset([(dl, 1, True)]), ERR(mk("fld", t, 1, 0, "err")))]))]

AGAIN = mk("again")   # the outcome of a call that leads back to the head of its loop
class Call:
    def argv(self, st, i):
        return self.eng.load(st, self.args[i])

def norm_out(st, r):
    if isinstance(r, T): return [(st, r)]
    return r

def or_literal(gs):
    """the disjunction of the given conjunctions as one guard literal; None when trivial"""
    al = set(gs)
    ch = True
    while ch and frozenset() not in al:
        ch = False
        for a in list(al):
            for l in a:
                b = (a - {l}) | {(l[0], l[1], not l[2])}
                b2 = (a - {l}) | {(l[0], not l[1], l[2])} if isinstance(l[1], bool) else b
                for bb in (b, b2):
                    if bb in al:
                        al.discard(a); al.discard(bb); al.add(a - {l}); ch = True; break
                if ch: break
            if ch: break
        if not ch:
            for a in list(al):
                if any(b < a for b in al): al.discard(a); ch = True
    if frozenset() in al or len(al) < 2 or sum(len(a) for a in al) > 60: return None
    return (mk("or", tuple(sorted(al, key=lambda g: sorted((t.id, str(k), p) for t, k, p in g)))), True, True)

def dnf(lits, cap=256):
    """[plain guard]: alternatives of a guard that may hold disjunctions and choices"""
    units = frozenset(); ch = []
    for l in lits:
        al = dnf_lit(l, cap)
        if len(al) == 1:
            if contradicts(units, al[0]): return []
            units |= al[0]
        else: ch.append(al)
    # unit propagation: what is certain removes alternatives, a single remaining alternative is certain
    while True:
        nx = []; before = units
        for al in ch:
            al = [a - units for a in al if not contradicts(a, units)]
            if not al: return []
            if any(not a for a in al): continue
            if len(al) == 1:
                units |= al[0]
                continue
            nx.append(al)
        ch = nx
        if units == before: break
    ch.sort(key=lambda al: (len(al), sorted(sorted((t.id, str(k), p) for t, k, p in a) for a in al)))
    out = [units]
    for al in ch:
        nx = []
        for g in al:
            for o in out:
                if not contradicts(o, g): nx.append(o | g)
        out = list(dict.fromkeys(nx))
        if len(out) > 4:
            # keep only minimal alternatives
            out = [a for a in out if not any(b < a for b in out)]
        if len(out) > cap: raise Limit("dnf")
    return out

def feasible(lits, budget=20000):
    """whether the literals have a consistent alternative (without enumerating all of them); True when undecided"""
    try: ch = [dnf_lit(l, 4096) for l in lits]
    except Limit: return True
    n = [budget]
    def go(units, ch):
        while True:
            nx = []; before = units
            for al in ch:
                al = [a - units for a in al if not contradicts(a, units)]
                if not al: return False
                if any(not a for a in al): continue
                if len(al) == 1: units |= al[0]
                else: nx.append(al)
            ch = nx
            if units == before: break
        if not ch: return True
        n[0] -= 1
        if n[0] < 0: return True
        ch.sort(key=len)
        return any(go(units | a, ch[1:]) for a in ch[0] if not contradicts(a, units))
    units = frozenset()
    for al in ch:
        if len(al) == 1:
            if contradicts(units, al[0]): return False
            units |= al[0]
    return go(units, [al for al in ch if len(al) != 1])

def negation(l):
    """literals that together say that the given one does not hold"""
    t, k, p = l
    if t.op == "or" and k is True and p:
        return frozenset(x for a in t.a[0] for x in [(mk("or", tuple(frozenset(negation(y)) for y in sorted(a, key=lambda y: (y[0].id, str(y[1:]))))), True, True)])
    return frozenset([(t, not k, p) if isinstance(k, bool) else (t, k, not p)])
def dnf_lit(l, cap):
    t, k, p = l
    if t.op == "or" and k is True and p:
        return [g for a in t.a[0] for g in dnf(a, cap)]
    if t.op == "un" and t.a[0] == "Not" and isinstance(k, bool): return dnf_lit((t.a[1], not k, p), cap)
    if t.op == "bool": return [frozenset()] if (t.a[0] == k) == bool(p) else []
    if t.op == "sel" and isinstance(k, bool):
        return [h for g, v in t.a[0] for x in dnf_lit((v, k, p), cap) for gg in dnf(g, cap) if not contradicts(gg, x) for h in [gg | x]]
    if t.op == "sel" and isinstance(k, int) and all(v.op == "int" for g, v in t.a[0]):
        return [gg for g, v in t.a[0] if (v.a[0] == k) == bool(p) for gg in dnf(g, cap)]
    return [frozenset([l])]

def _dedup(l):
    out = []
    seen = {}
    for g, r, p in l:
        k = (r, p)
        if k in seen:
            i = seen[k]
            out[i] = (out[i][0] & g, r, p)
        else:
            seen[k] = len(out); out.append((g, r, p))
    return out

def eta(t, eng):
    # struct rebuilt field by field from one value is that value
    fs = t.a[2]
    if fs and all(f.op == "fld" and f.a[0] is fs[0].a[0] and f.a[1] == 0 and f.a[2] == i for i, f in enumerate(fs)) and t.a[1] == 0:
        ids = eng.p.adt_ty.get(t.a[0])
        if ids:
            ty = eng.p.ty(ids[0])
            if len(ty["variants"]) == 1 and len(ty["variants"][0]["fields"]) == len(fs) and len(fs) > 0 and (len(fs) > 1 or True):
                names = [f[0] for f in ty["variants"][0]["fields"]]
                if all(f.a[3] == n for f, n in zip(fs, names)):
                    return fs[0].a[0]
    return t

def lit(x, val, pol):
    """normalised literal set for (x == val) == pol ; None if impossible"""
    if x.op == "un" and x.a[0] == "Not" and isinstance(val, bool):
        return lit(x.a[1], not val, pol)
    if isinstance(val, bool) and x.op == "bin" and x.a[0] == "Eq":
        a, b = x.a[1], x.a[2]
        if b.op in ("int", "char", "str"): a, b = b, a
        if a.op in ("int", "char", "str") and b.op not in ("int", "char", "str"):
            return lit(b, a.a[0], val == pol)
    if isinstance(val, bool) and not pol:
        return frozenset([(x, not val, True)])
    return frozenset([(x, val, pol)])

NEG = {"Ne": "Eq", "Ge": "Lt"}
def binop1(op, a, b):
    if op == "Ne": return unop1("Not", binop1("Eq", a, b))
    if op == "Ge": return unop1("Not", binop1("Lt", a, b))
    if op == "Gt": return binop1("Lt", b, a)
    if op == "Le": return unop1("Not", binop1("Lt", b, a))
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        try:
            if op == "Eq": return BOOL(ca == cb)
            if op == "Lt": return BOOL(ca < cb)
            if op == "BitAnd" and isinstance(ca, bool): return BOOL(ca and cb)
            if op == "BitOr" and isinstance(ca, bool): return BOOL(ca or cb)
            if isinstance(ca, int) and not isinstance(ca, bool):
                if op == "Add": return INT(ca + cb)
                if op == "Sub": return INT(ca - cb)
                if op == "Mul": return INT(ca * cb)
                if op == "Div" and cb: return INT(int(ca / cb)) if abs(ca) < 2**50 else mk("bin", op, a, b)
                if op == "Rem" and cb: return INT(ca - cb * int(ca / cb)) if abs(ca) < 2**50 else mk("bin", op, a, b)
                if op == "BitAnd": return INT(ca & cb)
                if op == "BitOr": return INT(ca | cb)
                if op == "Shl" and cb < 128: return INT(ca << cb)
                if op == "Shr" and cb < 128: return INT(ca >> cb)
            if isinstance(ca, float):
                if op == "Add": return mk("float", ca + cb)
                if op == "Sub": return mk("float", ca - cb)
                if op == "Mul": return mk("float", ca * cb)
                if op == "Div" and cb: return mk("float", ca / cb)
        except TypeError:
            pass
    if op == "Cmp" and ca is not None and cb is not None:
        return ADT("std::cmp::Ordering", 0 if ca < cb else (1 if ca == cb else 2), ())
    if op == "Eq":
        if a is b and a.op not in ("float",): return TRUE
        if b.op == "bool": return a if b.a[0] else unop1("Not", a)
        if a.op == "bool": return b if a.a[0] else unop1("Not", b)
        if a.id > b.id: a, b = b, a
    if op in ("BitAnd", "BitOr"):
        if a.op == "bool": return (b if a.a[0] else a) if op == "BitAnd" else (a if a.a[0] else b)
        if b.op == "bool": return (a if b.a[0] else b) if op == "BitAnd" else (b if b.a[0] else a)
    if op == "Sub" and b.op == "int" and b.a[0] == 0: return a
    if op == "Add" and b.op == "int" and b.a[0] == 0: return a
    if op == "Add" and a.op == "int" and a.a[0] == 0: return b
    if op in ("Mul",) and b.op == "int" and b.a[0] == 1: return a
    if op in ("Mul",) and a.op == "int" and a.a[0] == 1: return b
    if op == "Sub" and b.op == "int": return mk("bin", "Add", a, INT(-b.a[0])) if not (a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int") else binop1("Add", a.a[1], INT(a.a[2].a[0] - b.a[0]))
    if op == "Add" and b.op == "int" and a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
        return binop1("Add", a.a[1], INT(a.a[2].a[0] + b.a[0]))
    if op == "Add" and a.op == "int": a, b = b, a
    return mk("bin", op, a, b)

def cval(x):
    if x.op in ("int", "bool", "float", "str", "char", "bytes"): return x.a[0]
    if x is EMPTY: return None
    return None

def unop1(op, x):
    if op == "Not":
        if x.op == "bool": return BOOL(not x.a[0])
        if x.op == "un" and x.a[0] == "Not": return x.a[1]
    if op == "Neg":
        if x.op == "int": return INT(-x.a[0])
        if x.op == "float": return mk("float", -x.a[0])
    return mk("un", op, x)

WIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "char": 32, "bool": 1}
def castv(kind, n, x, sn=""):
    if kind == "IntToInt":
        if x.op == "int" and n in WIDTH:
            w = WIDTH[n]; v = x.a[0] & ((1 << w) - 1)
            if n[0] == "i" and v >= 1 << (w - 1): v -= 1 << w
            return INT(v)
        if x.op == "bool": return INT(int(x.a[0]))
        if x.op == "char": return INT(ord(x.a[0]))
        if n == sn: return x
        return mk("cast", "i", n, x)
    if kind == "IntToFloat":
        if x.op == "int": return mk("float", float(x.a[0]))
        return mk("cast", "if", n, x)
    if kind == "FloatToInt":
        if x.op == "float":
            return INT(int(x.a[0]))
        return mk("cast", "fi", n, x)
    if kind == "FloatToFloat": return mk("cast", "f", n, x)
    return mk("cast", kind, n, x)

def seqlen(v):
    def f(x):
        it = seq_items(x)
        if it is not None: return INT(len(it))
        if x.op == "str": return INT(len(x.a[0].encode()))
        if x.op == "bytes": return INT(len(x.a[0]))
        if x.op == "repeat": return x.a[1]
        if x.op == "push": return binop1("Add", f1(x.a[0]), INT(1))
        if x.op == "upd": return f1(x.a[0])
        if x.op == "undef": return UNDEF
        return mk("len", x)
    def f1(x): return mapsel(x, f)
    return mapsel(v, f)

def diff(a, b):
    """paths (field index tuples) at which two values differ"""
    if a is b: return []
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and len(a.a[2]) > 0 and a.a[0] != "array":
        out = []
        for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
            for p in diff(x, y): out.append((i,) + p)
        return out
    if a.op == "iter" and b.op == "iter" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        out = []
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is y or x == y: continue
            if isinstance(x, T) and isinstance(y, T):
                for p in diff(x, y): out.append((("it", i),) + p)
            else: return [()]
        return out
    return [()]

def mergev(al):
    """merge guarded values structurally"""
    v0 = al[0][1]
    if v0.op == "adt" and len(v0.a[2]) > 0 and all(v.op == "adt" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for g, v in al):
        return ADT(v0.a[0], v0.a[1], [mergev([(g, v.a[2][i]) for g, v in al]) if any(v.a[2][i] is not v0.a[2][i] for g, v in al) else v0.a[2][i] for i in range(len(v0.a[2]))])
    if v0.op == "iter" and all(v.op == "iter" and same_shape(v0, v) for g, v in al):
        return mk("iter", *[mergev([(g, v.a[i]) for g, v in al]) if isinstance(v0.a[i], T) and any(v.a[i] is not v0.a[i] for g, v in al) else v0.a[i] for i in range(len(v0.a))])
    return sel(al)

def same_shape(a, b):
    if len(a.a) != len(b.a): return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            if x is y: continue
            if x.op == "iter" or y.op == "iter":
                if not (x.op == "iter" and y.op == "iter" and same_shape(x, y)): return False
        elif x != y: return False
    return True

def mentioned(t, what, seen=None):
    seen = set() if seen is None else seen
    if t in what: return True
    if t in seen: return False
    seen.add(t)
    return any(mentioned(x, what, seen) for x in parts(t))
def rebuilt(t, f):
    def go(x):
        if isinstance(x, T): return f(x)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if isinstance(x, frozenset): return frozenset(go(y) for y in x)
        return x
    if t.op == "phi": return t
    if t.op == "bin": return binop1(t.a[0], go(t.a[1]), go(t.a[2]))
    na = tuple(go(x) for x in t.a)
    return t if na == t.a else mk(t.op, *na)
def deep_prune(v, pc, d=5):
    if v.op == "sel":
        v = prune(v, pc)
    if v.op == "adt" and d > 0 and v.a[2] and v.a[0] != "array":
        fs = [deep_prune(x, pc, d - 1) for x in v.a[2]]
        if any(a is not b for a, b in zip(fs, v.a[2])): return ADT(v.a[0], v.a[1], fs)
    if v.op == "iter" and d > 0:
        fs = [deep_prune(x, pc, d - 1) if isinstance(x, T) else x for x in v.a]
        if any(a is not b for a, b in zip(fs, v.a)): return mk("iter", *fs)
    return v

def iter_concrete(v):
    if v.op != "iter": return False
    k = v.a[0]
    if k == "items": return True
    if k in ("map", "enumerate", "filter", "cloned", "skip", "take", "chain", "zip", "peekable", "inspect"):
        return all(iter_concrete(x) for x in v.a[1:] if isinstance(x, T) and x.op == "iter")
    return False

def has_concrete_iter(st):
    for r, v in st.mem.items():
        if v.op == "iter" and iter_concrete(v): return True
    return False
