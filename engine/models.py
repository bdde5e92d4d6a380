"""Semantic models of the library functions the analysed crate calls."""
import re
from terms import *
from interp import *
import interp as I

M = {}
PREFIX = []
def model(*names, force=False):
    def d(f):
        for n in names: M[n] = f
        if force: f.force = True
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def tyk(e, ty):
    return e.p.ty(ty) if ty is not None else {"k": "?", "s": "?"}

# ----- identity-like conversions on values behind references
def refid(e, st, c):
    """&A -> &B view of the same storage"""
    return c.args[0]
for n in ["std::string::String::as_str", "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::vec::Vec::<T, A>::as_slice",
          "std::vec::Vec::<T, A>::as_mut_slice", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
          "std::path::Path::display", "std::path::PathBuf::as_path", "std::path::Path::new", "std::string::String::as_mut_str", "core::str::<impl str>::as_str",
          "std::collections::VecDeque::<T, A>::make_contiguous", "std::convert::AsMut::as_mut", "std::path::PathBuf::display",
          "std::ffi::OsString::as_os_str", "std::path::Path::as_os_str", "std::string::String::into_boxed_str", "std::vec::Vec::<T, A>::into_boxed_slice", "std::hint::must_use", "anyhow::__private::must_use",
          "std::hint::black_box", "std::convert::identity", "std::iter::Iterator::by_ref", "std::fs::File::by_ref", "std::io::Write::by_ref", "std::io::Read::by_ref",
          "std::mem::drop_", "std::string::String::into_bytes", "std::iter::Iterator::fuse", "std::iter::Peekable::by_ref", "std::sync::Arc::<T>::as_ref"]:
    M[n] = refid

@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def m_deref(e, st, c):
    ty = tyk(e, c.argtys[0])
    inner = tyk(e, ty.get("elem")) if ty.get("elem") is not None else ty
    n = inner.get("adt", "")
    if n in ("std::string::String", "std::vec::Vec", "std::path::PathBuf", "std::ffi::OsString", "std::boxed::Box"):
        return c.args[0]
    if n in ("std::sync::Arc", "std::rc::Rc"):
        v = e.load(st, c.args[0])
        return arc_ref(e, v)
    if n in ("std::cell::Ref", "std::cell::RefMut", "std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard", "std::sync::poison::mutex::MutexGuard", "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard", "std::borrow::Cow") or n.endswith("Guard"):
        v = e.load(st, c.args[0])
        if n == "std::borrow::Cow": return c.args[0]
        return v
    return c.args[0]

def arc_ref(e, v):
    def f(x):
        if x.op == "adt" and x.a[0] == "arc": return x.a[2][0]
        return REF(("X", x), ())
    return mapsel(v, f)

@model("std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def m_arc_new(e, st, c):
    st = st.copy()
    r = e.alloc(st, c.ctx, "arc", c.args[0])
    return [(st, ADT("arc", 0, (REF(r, ()),)))]

@model("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::pin", "std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new", "std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new",
       "std::sync::atomic::Atomic::<usize>::new", "std::sync::poison::mutex::Mutex::<T>::new", "std::sync::poison::rwlock::RwLock::<T>::new", "std::mem::ManuallyDrop::<T>::new", "std::io::Cursor::<T>::new", "std::io::BufReader::<R>::new", "std::io::BufWriter::<W>::new",
       "std::borrow::Cow::<'_, B>::into_owned", "std::cell::RefCell::<T>::into_inner", "std::sync::OnceLock::<T>::new", "std::iter::Iterator::peekable_")
def m_wrap(e, st, c):
    return c.args[0]

@model("std::mem::discriminant")
def m_discriminant(e, st, c): return mapsel(e.load(st, c.args[0]), lambda x: INT(x.a[1]) if x.op == "adt" else mk("discr", x))

@model("std::mem::drop", "std::mem::forget")
def m_unit(e, st, c): return UNIT

@model("std::boxed::Box::<T>::new_uninit")
def m_box_uninit(e, st, c): return UNDEF

@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec")
def m_into_vec(e, st, c): 
    v = c.args[0]
    return mapsel(v, unwrap_mu)
def unwrap_mu(v):
    # MaybeUninit { value: ManuallyDrop { value: MaybeDangling(x) } } -> x
    n = 0
    while v.op == "adt" and v.a[0] != "array" and n < 6:
        fs = [f for f in v.a[2] if f is not UNDEF]
        if len(fs) != 1: break
        v = fs[0]; n += 1
    return v

@model("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::get_mut", "std::cell::RefCell::<T>::as_ptr")
def m_borrow(e, st, c):
    if "::borrow" in c.defn: acquired(e, st, c, "w" if c.defn.endswith("_mut") else "r", c.args[0])
    return c.args[0]
@model("std::cell::RefCell::<T>::try_borrow", "std::cell::RefCell::<T>::try_borrow_mut")
def m_try_borrow(e, st, c):
    acquired(e, st, c, "w" if c.defn.endswith("_mut") else "r", c.args[0], True)
    return OK(c.args[0])
def acquired(e, st, c, mode, cell, optional=False):
    """a lock or a cell is taken (kept by the guard that the call returns, if any)"""
    e.clock += 1
    e.acquires.append({"mode": mode, "seq": e.clock, "cell": cell, "optional": optional, "ctx": c.ctx, "pc": st.pc, "fn": c.key, "line": c.line, "file": c.file})

@model("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write", "std::sync::poison::mutex::Mutex::<T>::lock", "std::sync::poison::rwlock::RwLock::<T>::read", "std::sync::poison::rwlock::RwLock::<T>::write")
def m_lock(e, st, c):
    st = st.copy()
    acquired(e, st, c, "r" if c.defn.endswith("::read") else "w", c.args[0])
    e.event(st, "lock", c, STR(c.defn.split("::")[-1]), c.args[0])
    return [(st, OK(c.args[0]))]

@model("std::cell::RefCell::<T>::replace", "std::mem::replace", "std::cell::Cell::<T>::replace")
def m_replace(e, st, c):
    st = st.copy()
    if "RefCell" in c.defn: acquired(e, st, c, "w", c.args[0])
    old = e.load(st, c.args[0])
    e.store(st, c.args[0], c.args[1])
    return [(st, old)]
@model("std::cell::Cell::<T>::set")
def m_cset(e, st, c):
    st = st.copy(); e.store(st, c.args[0], c.args[1]); return [(st, UNIT)]
@model("std::cell::Cell::<T>::get")
def m_cget(e, st, c): return e.load(st, c.args[0])
@model("std::mem::swap", "std::cell::RefCell::<T>::swap")
def m_swap(e, st, c):
    st = st.copy()
    a = e.load(st, c.args[0]); b = e.load(st, c.args[1])
    e.store(st, c.args[0], b); e.store(st, c.args[1], a)
    return [(st, UNIT)]
def default_of(e, st, ty):
    t = tyk(e, ty)
    k = t["k"]
    if k in ("int", "uint"): return INT(0)
    if k == "float": return mk("float", 0.0)
    if k == "bool": return FALSE
    if k == "str": return STR("")
    if k == "tuple": return ADT("tuple", 0, [default_of(e, st, x) for x in t["elems"]])
    if k == "adt":
        n = t["adt"]
        if n == "std::option::Option": return NONE
        if n in ("std::string::String",): return STR("")
        if n in ("std::vec::Vec", "std::collections::VecDeque", "std::collections::BTreeMap", "std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeSet", "std::path::PathBuf"): return EMPTY
        if n in ("std::cell::RefCell", "std::cell::Cell", "std::sync::Mutex", "std::boxed::Box", "std::sync::RwLock"):
            return default_of(e, st, t["args"][0])
        # local type: interpret its Default impl
        key = "<%s as std::default::Default>::default" % t["s"]
        if e.p.has_body(key):
            r = e.run_fn(key, [], st, e.ctx(0, "default", key))
            if len(r) == 1: return r[0][1]
    return fn("default", STR(t["s"]))
@model("std::default::Default::default")
def m_default(e, st, c):
    ty = c.targs[0] if c.targs else c.destty
    if c.inst and e.p.has_body(c.inst): return None
    return default_of(e, st, ty)
@model("std::mem::take", "std::cell::RefCell::<T>::take", "std::cell::Cell::<T>::take")
def m_take(e, st, c):
    st = st.copy()
    if "RefCell" in c.defn: acquired(e, st, c, "w", c.args[0])
    old = e.load(st, c.args[0])
    d = default_of(e, st, c.destty if c.destty is not None or not c.targs else c.targs[0])
    e.store(st, c.args[0], d)
    return [(st, old)]

@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec", "std::path::Path::to_path_buf", "core::slice::<impl [T]>::to_vec",
       "std::string::ToString::to_string", "core::str::<impl str>::to_owned", "std::str::<impl str>::to_owned", force=True)
def m_clone(e, st, c):
    if c.defn.endswith("to_string"):
        t = tyk(e, c.argtys[0]); inner = tyk(e, t.get("elem")) if t.get("elem") is not None else t
        # through references
        v = c.args[0]
        n = 0
        while inner["k"] == "ref" and n < 4:
            v = e.load(st, v); inner = tyk(e, inner["elem"]); n += 1
        if inner["k"] == "str" or inner.get("adt") in ("std::string::String",): return e.load(st, v)
        x = e.load(st, v)
        if inner["k"] in ("int", "uint", "bool", "char"):
            return mapsel(x, lambda y: STR(str(y.a[0]).lower() if y.op == "bool" else str(y.a[0])) if y.op in ("int", "bool", "char") else mk("fmt", (("arg", "display", y),)))
        if inner["k"] == "adt" and inner.get("krate") == "osm_io":
            return mk("fmt", (("arg", "display", e.snap(st, x)),))
        return mk("fmt", (("arg", "display", e.snap(st, x)),))
    if c.defn == "std::clone::Clone::clone":
        t = tyk(e, c.argtys[0])
        if t["k"] == "ref" and tyk(e, t["elem"])["k"] == "ref":
            return e.load(st, c.args[0])
    return e.load(st, c.args[0])

@model("std::clone::Clone::clone_from")
def m_clone_from(e, st, c):
    st = st.copy(); e.store(st, c.args[0], e.load(st, c.args[1])); return [(st, UNIT)]

@model("std::convert::From::from", "std::convert::Into::into")
def m_from(e, st, c):
    if c.inst and c.inst in ("<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&mut str>>::from", "<std::string::String as std::convert::From<&std::string::String>>::from"):
        return [(st, e.load(st, c.args[0]))]
    if tyk(e, c.destty).get("adt") in ("std::path::PathBuf", "std::ffi::OsString") and tyk(e, c.argtys[0])["k"] in ("ref", "adt"): return conv(e, st, c.args[0], c.argtys[0], c.destty)
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] != "core": return None
    if c.defn.endswith("::into"):
        k = local_from(e, e.p.tys(c.argtys[0]), e.p.tys(c.destty))
        if k and e.p.bodies[k]["krate"] == "osm_io" and e.stack.count(k) < 2: return e.run_fn(k, c.args, st, c.ctx)
    return conv(e, st, c.args[0], c.argtys[0], c.destty)
def local_from(e, s, d):
    """the crate's own conversion from s to d"""
    memo = e.p.__dict__.setdefault("_local_from", {})
    if (s, d) not in memo: memo[s, d] = local_from1(e, s, d)
    return memo[s, d]
def local_from1(e, s, d):
    k = "<%s as std::convert::From<%s>>::from" % (d, s)
    if e.p.has_body(k): return k
    k = "<impl std::convert::From<%s> for %s>::from" % (s, d)
    return next((x for x in e.p.bodies if x.endswith(k) and e.p.has_body(x)), None)
def conv(e, st, v, sty, dty):
    s = tyk(e, sty); d = tyk(e, dty)
    if d["k"] in ("int", "uint"):
        return mapsel(v, lambda x: castv("IntToInt", d["n"].lower(), x, s.get("n", "").lower()))
    if d["k"] == "float":
        return mapsel(v, lambda x: castv("IntToFloat" if s["k"] in ("int", "uint") else "FloatToFloat", d["n"].lower(), x))
    if d["k"] == "adt" and d["adt"] in ("std::string::String", "std::vec::Vec", "std::path::PathBuf"):
        if s["k"] == "ref": return e.load(st, v)
        return v
    if d["k"] == "adt" and d["adt"] in ("std::option::Option",) and not (s.get("adt") == d["adt"]):
        return SOME(v)
    if d["k"] == "adt" and d["adt"] in ("std::sync::Arc",):
        st2 = st; r = e.alloc(st2, e.ctx(0, "arcfrom", v.id), "arc", v)
        return ADT("arc", 0, (REF(r, ()),))
    if d["k"] == "adt" and ("Error" in d["s"]):
        return fn("err_from", e.snap(st, v))
    if s["s"] == d["s"]: return v
    return v

@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_tryfrom(e, st, c):
    d = tyk(e, c.destty)
    v = c.args[0]
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    if d.get("adt") == "std::result::Result":
        dt = tyk(e, d["args"][0])
        if dt["k"] in ("int", "uint"):
            ok = mapsel(v, lambda x: castv("IntToInt", dt["n"].lower(), x))
        else:
            ok = v
            s = tyk(e, c.argtys[0])
            if s["k"] == "ref" and dt["k"] in ("array",): ok = e.load(st, v)
        l = mk("discr", mk("tryconv", v, STR(dt["s"])))
        return sel([(frozenset([(l, 0, True)]), OK(ok)), (frozenset([(l, 1, True)]), ERR(fn("tryerr", v)))])
    return None

# numeric enum conversions etc. are interpreted from MIR

# ----- comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(e, st, c):
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    a = deep(e, st, c.args[0]); b = deep(e, st, c.args[1])
    r = eqterm(e, a, b)
    return r if c.defn.endswith("eq") else e.unop("Not", r)
def deep(e, st, v):
    n = 0
    while n < 5:
        v2 = mapsel(v, lambda x: e.load(st, x) if x.op == "ref" else x, st.pc)
        if v2 is v: return v
        v = v2; n += 1
    return v
def eqterm(e, a, b):
    def f(x, y):
        if x.op == "adt" and y.op == "adt" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]: return FALSE
            if len(x.a[2]) == len(y.a[2]):
                r = TRUE
                for p, q in zip(x.a[2], y.a[2]):
                    r = e.binop("BitAnd", r, eqterm(e, p, q))
                return r
        if x.op == "str" and y is EMPTY or y.op == "str" and x is EMPTY:
            s = x if x.op == "str" else y
            return BOOL(s.a[0] == "")
        xi, yi = seq_items(x), seq_items(y)
        if xi is not None and yi is not None and len(xi) != len(yi): return FALSE
        return I.binop1("Eq", x, y)
    aa, bb = alts(a), alts(b)
    if len(aa) * len(bb) > 60: return I.binop1("Eq", a, b)
    return sel([(g | h, f(x, y)) for g, x in aa for h, y in bb if not contradicts(g, h)])

@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_cmpop(e, st, c):
    a = deep(e, st, c.args[0]); b = deep(e, st, c.args[1])
    t = tyk(e, c.argtys[0]); n = 0
    while t["k"] == "ref" and n < 4: t = tyk(e, t["elem"]); n += 1
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.defn.split("::")[-1]]
    if t["k"] == "adt" and t.get("krate") == "osm_io":
        k = "<%s as std::cmp::PartialOrd>::partial_cmp" % t["s"]
        if e.p.has_body(k):
            outs = e.run_fn(k, c.args, st, c.ctx)
            res = []
            for s, v in outs:
                def f(x):
                    if x.op == "adt" and x.a[1] == 1: x = x.a[2][0]
                    def g(o):
                        if o.op == "adt":
                            i = o.a[1]  # 0 less 1 equal 2 greater
                            return BOOL({"Lt": i == 0, "Le": i <= 1, "Gt": i == 2, "Ge": i >= 1}[op])
                        return mk("ordtest", STR(op), o)
                    return mapsel(x, g)
                res.append((s, mapsel(v, f)))
            return res
    return e.binop(op, a, b)
@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(e, st, c):
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    a = deep(e, st, c.args[0]); b = deep(e, st, c.args[1])
    r = e.binop("Cmp", a, b)
    return r if c.defn.endswith("::cmp") else SOME(r)
@model("std::cmp::Ord::max", "std::cmp::max", "core::f64::<impl f64>::max", "std::f64::<impl f64>::max", "core::num::f64::<impl f64>::max")
def m_max(e, st, c): return fn("max", *sorted(c.args[:2], key=lambda x: x.id))
@model("std::cmp::Ord::min", "std::cmp::min", "core::f64::<impl f64>::min", "std::f64::<impl f64>::min", "core::num::f64::<impl f64>::min")
def m_min(e, st, c): return fn("min", *sorted(c.args[:2], key=lambda x: x.id))
for _n in ("core", "std"):
    M["%s::f64::<impl f64>::round" % _n] = lambda e, st, c: mapsel(c.args[0], lambda x: fn("round", x))
    for _m in ("floor", "ceil", "trunc", "abs"):
        M["%s::f64::<impl f64>::%s" % (_n, _m)] = (lambda m: lambda e, st, c: mapsel(c.args[0], lambda x: fn(m, x)))(_m)
@model("core::num::<impl i32>::to_be_bytes", "core::num::<impl u32>::to_be_bytes", "core::num::<impl i64>::to_be_bytes", "core::num::<impl u64>::to_be_bytes")
def m_be(e, st, c): return fn("be_bytes", STR(re.search(r"impl (\w+)", c.defn).group(1)), c.args[0])
@model("core::num::<impl i32>::to_le_bytes", "core::num::<impl u32>::to_le_bytes", "core::num::<impl i32>::to_ne_bytes", "core::num::<impl u32>::to_ne_bytes")
def m_le(e, st, c): return fn("le_bytes", STR(re.search(r"impl (\w+)", c.defn).group(1)), c.args[0])
@model("core::num::<impl i32>::from_be_bytes", "core::num::<impl u32>::from_be_bytes")
def m_fbe(e, st, c): return fn("from_be", STR(re.search(r"impl (\w+)", c.defn).group(1)), c.args[0])
@model("core::num::<impl i32>::from_le_bytes", "core::num::<impl u32>::from_le_bytes", "core::num::<impl i32>::from_ne_bytes", "core::num::<impl u32>::from_ne_bytes")
def m_fle(e, st, c): return fn("from_le", STR(re.search(r"impl (\w+)", c.defn).group(1)), c.args[0])

@prefix("core::num::<impl ")
def m_num(e, st, c):
    m = re.match(r"core::num::<impl (\w+)>::(\w+)$", c.defn)
    if not m: return None
    meth = m.group(2)
    ops = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "saturating_add": "Add", "saturating_sub": "Sub", "wrapping_div": "Div", "div_euclid": "DivE", "rem_euclid": "RemE"}
    if meth in ops: return e.binop(ops[meth], c.args[0], c.args[1])
    if meth in ("checked_add", "checked_sub", "checked_mul", "checked_div"):
        op = {"checked_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul", "checked_div": "Div"}[meth]
        v = e.binop(op, c.args[0], c.args[1])
        l = mk("ovf", v)
        return sel([(frozenset([(l, False, True)]), SOME(v)), (frozenset([(l, True, True)]), NONE)])
    if meth in ("abs", "signum", "pow", "is_ascii_digit", "leading_zeros"):
        return fn(meth, *[deep(e, st, a) for a in c.args])
    return None

for tr, op in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr"), ("BitOr::bitor", "BitOr"), ("BitAnd::bitand", "BitAnd"), ("BitXor::bitxor", "BitXor")):
    def _mk(op):
        def f(e, st, c):
            a, b = deep(e, st, c.args[0]), deep(e, st, c.args[1])
            if op == "Add" and tyk(e, c.argtys[0]).get("adt") == "std::string::String": return mapsel(a, lambda x: mapsel(b, lambda y: catstr(x, y)))
            return e.binop(op, a, b)
        return f
    M["std::ops::" + tr] = _mk(op)
for tr, op in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div"), ("BitOrAssign::bitor_assign", "BitOr"), ("BitAndAssign::bitand_assign", "BitAnd")):
    def _mk2(op):
        def f(e, st, c):
            st = st.copy()
            t = tyk(e, c.argtys[0])
            rhs = deep(e, st, c.args[1])
            if tyk(e, t.get("elem")).get("adt") == "std::string::String":
                e.update(st, c.args[0], lambda o: catstr(o, rhs))
            else:
                e.update(st, c.args[0], lambda o: e.binop(op, o, rhs))
            return [(st, UNIT)]
        return f
    M["std::ops::" + tr] = _mk2(op)
@model("std::ops::Not::not")
def m_not(e, st, c): return e.unop("Not", deep(e, st, c.args[0]))
@model("std::ops::Neg::neg")
def m_neg(e, st, c): return e.unop("Neg", deep(e, st, c.args[0]))

# ----- atomics
@prefix("std::sync::atomic::Atomic::<", "std::sync::atomic::AtomicUsize", "core::sync::atomic::Atomic")
def m_atomic(e, st, c):
    meth = c.defn.split("::")[-1]
    st = st.copy()
    e.log.append({"kind": "atomic", "args": (meth, c.args[0]), "pc": st.pc, "fn": c.key, "ctx": c.ctx, "part": st.part, "stack": tuple(e.stack)})
    if meth == "load": return [(st, e.load(st, c.args[0]))]
    if meth == "new": return [(st, c.args[0])]
    if meth == "store":
        e.store(st, c.args[0], c.args[1]); return [(st, UNIT)]
    if meth == "swap":
        old = e.load(st, c.args[0]); e.store(st, c.args[0], c.args[1]); return [(st, old)]
    if meth in ("fetch_add", "fetch_sub"):
        old = e.load(st, c.args[0])
        e.store(st, c.args[0], e.binop("Add" if meth == "fetch_add" else "Sub", old, c.args[1]))
        return [(st, old)]
    return None

# ----- strings
def catstr(a, b):
    def norm(x):
        if x is EMPTY: return ()
        if x.op == "str": return (x,) if x.a[0] else ()
        if x.op == "fmt": return x.a[0]
        return (("arg", "display", x),)
    pa = list(norm(a)); pb = list(norm(b))
    return mkfmt(pa + pb)
def mkfmt(pieces):
    out = []
    for p in pieces:
        if isinstance(p, tuple) and p[0] == "arg" and p[1] == "display" and isinstance(p[2], T):
            v = p[2]
            if v.op == "str": p = v
            elif v.op in ("int",): p = STR(str(v.a[0]))
            elif v.op == "char": p = STR(v.a[0])
            elif v.op == "fmt":
                for q in v.a[0]: out.append(q)
                continue
        out.append(p)
    res = []
    for p in out:
        if isinstance(p, T) and p.op == "str":
            if p.a[0] == "": continue
            if res and isinstance(res[-1], T):
                res[-1] = STR(res[-1].a[0] + p.a[0]); continue
        res.append(p)
    if not res: return STR("")
    if len(res) == 1 and isinstance(res[0], T): return res[0]
    if len(res) == 1 and res[0][1] == "str": return res[0][2]
    return mk("fmt", tuple(res))

@prefix("core::fmt::rt::Argument::<'_>::", "std::fmt::rt::Argument", "core::fmt::rt::Argument")
def m_fmtarg(e, st, c):
    kind = c.defn.split("::")[-1]
    k = {"new_display": "display", "new_debug": "debug", "new_debug_noop": "debug"}.get(kind, kind)
    t = tyk(e, c.argtys[0]); n = 0
    while t["k"] == "ref" and n < 5: t = tyk(e, t["elem"]); n += 1
    isstr = t["k"] == "str" or t.get("adt") in ("std::string::String",)
    v = deep(e, st, c.args[0])
    if not isstr: v = e.snap(st, v)
    disp = None
    if t["k"] == "adt" and t.get("krate") == "osm_io" and k == "display":
        disp = "<%s as std::fmt::Display>::fmt" % t["s"]
    return mk("fmtarg", k if not isstr or k != "display" else "str", v)

def parse_template(bs, args):
    out = []; i = 0; ai = 0
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(STR(bytes(bs[i:i+n]).decode("utf8", "replace"))); i += n
        elif n == 0x80:
            l = bs[i] | (bs[i+1] << 8); i += 2
            out.append(STR(bytes(bs[i:i+l]).decode("utf8", "replace"))); i += l
        else:
            spec = []
            if n & 1: spec.append(("flags", int.from_bytes(bytes(bs[i:i+4]), "little"))); i += 4
            if n & 2: spec.append(("width", int.from_bytes(bytes(bs[i:i+2]), "little"))); i += 2
            if n & 4: spec.append(("prec", int.from_bytes(bytes(bs[i:i+2]), "little"))); i += 2
            if n & 8: ai = bs[i] | (bs[i+1] << 8); i += 2
            a = args[ai] if ai < len(args) else UNDEF
            ai += 1
            if a.op == "fmtarg":
                k = a.a[0]
                v = a.a[1]
            else: k, v = "?", a
            if spec: out.append(("arg", k + "".join(":%s=%d" % s for s in spec), v))
            elif k == "str": out.append(("arg", "display", v))
            else: out.append(("arg", k, v))
    return out
@model("std::fmt::Arguments::<'a>::new")
def m_args_new(e, st, c):
    tv = e.load(st, c.args[0]); av = e.load(st, c.args[1])
    if tv.op == "bytes": bs = tv.a[0]
    elif tv.op == "adt" and tv.a[0] == "array": bs = bytes(x.a[0] for x in tv.a[2])
    else: return fn("fmtargs", tv, av)
    items = seq_items(av)
    if items is None: return fn("fmtargs", tv, av)
    # distribute choices inside arguments into a sel of formats only when small
    return mk("fmtargs", tuple(parse_template(bs, items)))
@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_args_str(e, st, c):
    return mk("fmtargs", (e.load(st, c.args[0]),))
@model("std::fmt::format", "std::fmt::format::format_inner", "std::fmt::Arguments::<'a>::to_string")
def m_format(e, st, c):
    v = c.args[0]
    if v.op == "fmtargs": return mkfmt(v.a[0])
    return v
@model("std::string::String::push_str", "std::string::String::push", "std::string::String::insert_str")
def m_push_str(e, st, c):
    st = st.copy()
    if c.defn.endswith("insert_str"):
        b = deep(e, st, c.args[2]); e.update(st, c.args[0], lambda o: fn("insert_str", o, c.args[1], b)); return [(st, UNIT)]
    b = deep(e, st, c.args[1])
    e.update(st, c.args[0], lambda o: catstr(o, b))
    return [(st, UNIT)]
@model("std::fmt::Write::write_str", "std::fmt::Write::write_fmt")
def m_wstr(e, st, c):
    st = st.copy()
    b = deep(e, st, c.args[1])
    if b.op == "fmtargs": b = mkfmt(b.a[0])
    e.update(st, c.args[0], lambda o: catstr(o, b))
    return [(st, OK(UNIT))]
@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'_>::write_str", "std::fmt::Formatter::<'_>::write_fmt")
def m_fwrite(e, st, c):
    st = st.copy()
    b = deep(e, st, c.args[1])
    if b.op == "fmtargs": b = mkfmt(b.a[0])
    e.event(st, "fmtwrite", c, b)
    return [(st, OK(UNIT))]
@model("std::string::String::from_utf8")
def m_utf8(e, st, c):
    v = c.args[0]
    l = mk("discr", mk("utf8", v))
    return sel([(frozenset([(l, 0, True)]), OK(v)), (frozenset([(l, 1, True)]), ERR(fn("utf8err", v)))])
@model("std::str::from_utf8", "core::str::from_utf8")
def m_utf8r(e, st, c):
    v = e.load(st, c.args[0])
    l = mk("discr", mk("utf8", v))
    return sel([(frozenset([(l, 0, True)]), OK(c.args[0])), (frozenset([(l, 1, True)]), ERR(fn("utf8err", v)))])
@model("std::string::String::from_utf8_lossy", "std::string::String::from_utf8_lossy_owned")
def m_lossy(e, st, c): return e.ref_to(fn("lossy", deep(e, st, c.args[0])))
def strfn(name, pure_args=True, ref=False):
    def f(e, st, c):
        a = [deep(e, st, x) for x in c.args]
        v = a[0]
        if all(x.op in ("str", "char", "bytes") for x in a):
            s = [x.a[0] if isinstance(x.a[0], str) else x.a[0].decode("latin1") for x in a]
            try:
                if name == "starts_with": return BOOL(s[0].startswith(s[1]))
                if name == "ends_with": return BOOL(s[0].endswith(s[1]))
                if name == "contains": return BOOL(s[1] in s[0])
                if name == "trim": return e.ref_to(STR(s[0].strip()))
                if name == "to_lowercase": return STR(s[0].lower())
                if name == "replace": return STR(s[0].replace(s[1], s[2]))
            except Exception: pass
        t = fn("str." + name, *a)
        return e.ref_to(t) if ref else t
    return f
for _p in ("core::str::<impl str>::", "std::str::<impl str>::", "core::slice::<impl [T]>::", "std::slice::<impl [T]>::"):
    for _n in ("starts_with", "ends_with"):
        M[_p + _n] = strfn(_n)
for _p in ("core::str::<impl str>::", "std::str::<impl str>::"):
    M[_p + "contains"] = strfn("contains")
    for _n in ("trim", "trim_end_matches", "trim_start_matches", "trim_end", "trim_start", "trim_matches"):
        M[_p + _n] = strfn(_n, ref=True)
    for _n in ("to_lowercase", "to_uppercase", "replace", "replacen", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case"):
        M[_p + _n] = strfn(_n)
    M[_p + "len"] = lambda e, st, c: seqlen(e.load(st, c.args[0]))
    M[_p + "is_empty"] = lambda e, st, c: isempty(e, e.load(st, c.args[0]))
    def _stripm(which):
        def f(e, st, c):
            a = [deep(e, st, x) for x in c.args]
            l = fn("str." + which + "?", *a)
            return sel([(frozenset([(l, True, True)]), SOME(e.ref_to(fn("str." + which, *a)))), (frozenset([(l, False, True)]), NONE)])
        return f
    M[_p + "strip_prefix"] = _stripm("strip_prefix"); M[_p + "strip_suffix"] = _stripm("strip_suffix")
    def _parse(e, st, c):
        return parse_of(e, st, deep(e, st, c.args[0]), c)
    M[_p + "parse"] = _parse
    def _split(which):
        def f(e, st, c):
            a = [deep(e, st, x) for x in c.args]
            return mk("iter", "refs", ("V", fn("str." + which, *a)), (), INT(0), "ref")
        return f
    for _n in ("split", "lines", "split_whitespace", "splitn", "rsplit", "char_indices", "bytes"):
        M[_p + _n] = _split(_n)
    M[_p + "chars"] = lambda e, st, c: mk("iter", "vals", fn("chars", deep(e, st, c.args[0])), INT(0))
    def _split_once(e, st, c):
        a = [deep(e, st, x) for x in c.args]
        l = fn("str.split_once?", *a)
        q = fn("str.split", *a)
        return sel([(frozenset([(l, True, True)]), SOME(TUP(e.ref_to(mk("elem", q, INT(0))), e.ref_to(mk("elem", q, INT(1)))))), (frozenset([(l, False, True)]), NONE)])
    M[_p + "split_once"] = _split_once
def parse_of(e, st, v, c):
    t = tyk(e, c.destty)
    dt = tyk(e, t["args"][0])["s"] if t.get("adt") == "std::result::Result" else "?"
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    p = fn("parse", STR(dt), v)
    l = mk("discr", mk("parse?", p))
    return sel([(frozenset([(l, 0, True)]), OK(p)), (frozenset([(l, 1, True)]), ERR(fn("parseerr", v)))])
@model("std::str::FromStr::from_str")
def m_fromstr(e, st, c):
    v = deep(e, st, c.args[0])
    t = tyk(e, c.destty)
    dt = tyk(e, t["args"][0])
    if dt.get("adt") in ("std::string::String", "std::path::PathBuf"): return OK(v)
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    return parse_of(e, st, v, c)
@model("std::string::String::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "std::collections::VecDeque::<T, A>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::BTreeMap::<K, V, A>::is_empty")
def m_isempty(e, st, c): return isempty(e, e.load(st, c.args[0]))
def isempty(e, v):
    return e.binop("Eq", seqlen(v), INT(0))
@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::string::String::len", "std::collections::VecDeque::<T, A>::len", "std::collections::HashMap::<K, V, S, A>::len")
def m_len(e, st, c):
    v = e.load(st, c.args[0])
    if v.op == "sel": v = prune(v, st.pc)
    return seqlen(v)
@model("std::string::String::capacity", "std::vec::Vec::<T, A>::capacity")
def m_cap(e, st, c): return fn("capacity", e.load(st, c.args[0]))

# ----- Vec / VecDeque
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity", "std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity",
       "std::collections::HashSet::<T>::new", "std::collections::BTreeMap::<K, V>::new", "std::collections::BTreeSet::<T>::new", "std::path::PathBuf::new")
def m_vecnew(e, st, c): return EMPTY
@model("std::string::String::new", "std::string::String::with_capacity")
def m_strnew(e, st, c): return STR("")
@model("std::vec::from_elem")
def m_from_elem(e, st, c): return mk("repeat", c.args[0], c.args[1])
@model("std::vec::Vec::<T, A>::resize")
def m_resize(e, st, c):
    st = st.copy()
    if e.load(st, c.args[0]) is not EMPTY: return None
    e.store(st, c.args[0], mk("repeat", c.args[2], c.args[1])); return [(st, UNIT)]
@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def m_push(e, st, c):
    st = st.copy()
    e.update(st, c.args[0], lambda o: mapsel(o, lambda x: PUSH(x, c.args[1]), st.pc))
    return [(st, UNIT)]
@model("std::collections::VecDeque::<T, A>::push_front")
def m_pushf(e, st, c):
    st = st.copy()
    def f(x):
        it = seq_items(x)
        if it is not None:
            r = EMPTY
            for y in [c.args[1]] + it: r = PUSH(r, y)
            return r
        return mk("pushf", x, c.args[1])
    e.update(st, c.args[0], lambda o: mapsel(o, f, st.pc))
    return [(st, UNIT)]
@model("std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice", "std::collections::VecDeque::<T, A>::append")
def m_append(e, st, c):
    st = st.copy()
    o = e.load(st, c.args[1])
    e.update(st, c.args[0], lambda x: catseq(x, o))
    if c.defn.endswith("append"): e.store(st, c.args[1], EMPTY)
    return [(st, UNIT)]
def catseq(a, b):
    it = seq_items(b)
    if it is not None and len(it) < 40:
        def f(x):
            for y in it: x = PUSH(x, y)
            return x
        return mapsel(a, f)
    return mapsel(a, lambda x: CAT(x, b))
@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear", "std::collections::VecDeque::<T, A>::clear", "std::collections::HashMap::<K, V, S, A>::clear")
def m_clear(e, st, c):
    st = st.copy()
    t = tyk(e, c.argtys[0])
    e.store(st, c.args[0], STR("") if "String" in c.defn else EMPTY)
    return [(st, UNIT)]
@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def m_trunc(e, st, c):
    st = st.copy()
    e.update(st, c.args[0], lambda o: fn("truncate", o, c.args[1]))
    return [(st, UNIT)]
@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::collections::VecDeque::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact")
def m_nop(e, st, c): return UNIT
def pop_of(e, st, c, back):
    st = st.copy()
    old = e.load(st, c.args[0])
    outs = []
    for g, x in alts(old, st.pc):
        s = st.assume(g) if g else st.copy()
        if s is None: continue
        it = seq_items(x)
        if it is not None:
            if not it: outs.append((s, NONE)); continue
            v = it[-1] if back else it[0]
            rest = it[:-1] if back else it[1:]
            r = EMPTY
            for y in rest: r = PUSH(r, y)
            e.store(s, c.args[0], r); outs.append((s, SOME(v))); continue
        if x.op == "push" and back:
            e.store(s, c.args[0], x.a[0]); outs.append((s, SOME(x.a[1]))); continue
        if x.op == "pushf" and not back:
            e.store(s, c.args[0], x.a[0]); outs.append((s, SOME(x.a[1]))); continue
        el = I.binop1("Eq", seqlen(x), INT(0))
        s0 = s.assume(lit(el, True, True))
        if s0 is not None: outs.append((s0, NONE))
        s1 = s.assume(lit(el, False, True))
        if s1 is not None:
            e.store(s1, c.args[0], fn("poprest_b" if back else "poprest_f", x))
            outs.append((s1, SOME(mk("elem", x, INT(-1) if back else INT(0)))))
    return outs
@model("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back", "std::string::String::pop")
def m_pop(e, st, c): return pop_of(e, st, c, True)
@model("std::collections::VecDeque::<T, A>::pop_front")
def m_popf(e, st, c): return pop_of(e, st, c, False)
def optref(e, st, ref, v, idx):
    """Option<&elem> for first/last/get"""
    def f(x):
        it = seq_items(x)
        if it is not None:
            i = idx.a[0] if idx.op == "int" else None
            if i is not None:
                j = i + len(it) if i < 0 else i
                if 0 <= j < len(it): return SOME(e.subref(ref, ("e", INT(i))))
                return NONE
        if idx.op == "int" and idx.a[0] in (0, -1):
            l = I.binop1("Eq", seqlen(x), INT(0))
            return sel([(lit(l, False, True), SOME(e.subref(ref, ("e", idx)))), (lit(l, True, True), NONE)])
        l = I.binop1("Lt", idx, seqlen(x))
        return sel([(lit(l, True, True), SOME(e.subref(ref, ("e", idx)))), (lit(l, False, True), NONE)])
    return mapsel(v, f)
@model("core::slice::<impl [T]>::first", "std::slice::<impl [T]>::first", "std::collections::VecDeque::<T, A>::front", "core::slice::<impl [T]>::first_mut", "std::collections::VecDeque::<T, A>::front_mut")
def m_first(e, st, c): return optref(e, st, c.args[0], e.load(st, c.args[0]), INT(0))
@model("core::slice::<impl [T]>::last", "std::slice::<impl [T]>::last", "std::collections::VecDeque::<T, A>::back", "core::slice::<impl [T]>::last_mut")
def m_last(e, st, c): return optref(e, st, c.args[0], e.load(st, c.args[0]), INT(-1))
@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "std::collections::VecDeque::<T, A>::get", "std::collections::VecDeque::<T, A>::get_mut")
def m_get(e, st, c):
    if tyk(e, c.argtys[1])["k"] not in ("uint", "int"):
        return None
    return optref(e, st, c.args[0], e.load(st, c.args[0]), c.args[1])
@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(e, st, c):
    t = tyk(e, c.argtys[0]); inner = tyk(e, t.get("elem"))
    it = tyk(e, c.argtys[1])
    if inner.get("adt") in ("std::collections::HashMap", "std::collections::BTreeMap"):
        return e.subref(c.args[0], ("k", deep(e, st, c.args[1])), st)
    if it["k"] in ("uint", "int"):
        return e.subref(c.args[0], ("e", c.args[1]), st)
    if "RangeFull" in it["s"]: return c.args[0]
    v = deep(e, st, c.args[0])
    return e.ref_to(fn("slice", v, e.snap(st, c.args[1])))
def listed(v):
    """the entries of a list that is written out, or None"""
    out = []
    while v.op == "push": out.append(v.a[1]); v = v.a[0]
    if v.op == "adt" and v.a[0] == "array": out += reversed(v.a[2])
    elif v is not EMPTY: return None
    return out[::-1]
@model("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def m_slice_join(e, st, c):
    t = tyk(e, c.destty).get("adt")
    if t not in ("std::string::String", "std::vec::Vec"): return None
    xs = listed(e.load(st, c.args[0]))
    if xs is None: return None
    text = t == "std::string::String"
    sep = deep(e, st, c.args[1]) if len(c.args) > 1 else None
    if not text and sep is not None: return None
    r = STR("") if text else EMPTY
    for n, x in enumerate(xs):
        if n and sep is not None: r = catstr(r, sep)
        r = catstr(r, deep(e, st, x)) if text else catseq(r, deep(e, st, x))
    return r
@model("core::slice::<impl [T]>::contains", "std::slice::<impl [T]>::contains", "std::collections::VecDeque::<T, A>::contains")
def m_contains(e, st, c):
    v = deep(e, st, c.args[0]); x = deep(e, st, c.args[1])
    return fn("contains", v, x)
@model("std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::sort_unstable")
def m_sort(e, st, c):
    st = st.copy()
    e.update(st, c.args[0], lambda o: mapsel(o, lambda x: x if x.op == "undef" else fn("sorted", x)))
    e.event(st, "sort", c, e.load(st, c.args[0]))
    return [(st, UNIT)]
@model("std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by", "core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key")
def m_sortby(e, st, c):
    st = st.copy()
    v = e.load(st, c.args[0])
    it = mk("elem", v, mk("sym", "i%d" % c.ctx, 0)); it2 = mk("elem", v, mk("sym", "j%d" % c.ctx, 0))
    a = [e.ref_to(it)] if "key" in c.defn else [e.ref_to(it), e.ref_to(it2)]
    outs = e.call_value(st, c.args[1], a, c)
    keyv = outs[0][1] if outs else UNDEF
    e.update(st, c.args[0], lambda o: mapsel(o, lambda x: fn("sorted_by", x, e.snap(st, keyv))))
    e.event(st, "sort", c, e.load(st, c.args[0]))
    return [(st, UNIT)]
@model("core::slice::<impl [T]>::reverse")
def m_rev(e, st, c):
    st = st.copy(); e.update(st, c.args[0], lambda o: fn("reversed", o)); return [(st, UNIT)]
@model("std::vec::Vec::<T, A>::split_off")
def m_splitoff(e, st, c):
    st = st.copy(); old = e.load(st, c.args[0])
    e.store(st, c.args[0], fn("prefix", old, c.args[1]))
    return [(st, fn("suffix", old, c.args[1]))]
@model("std::vec::Vec::<T, A>::drain", "std::collections::VecDeque::<T, A>::drain")
def m_drain(e, st, c):
    st = st.copy(); old = e.load(st, c.args[0])
    rt = tyk(e, c.argtys[1])["s"]
    if "RangeFull" in rt:
        e.store(st, c.args[0], EMPTY)
        return [(st, mk_valiter(old))]
    rng = e.snap(st, c.args[1])
    if "RangeTo" in rt and rng.op == "adt":
        e.store(st, c.args[0], fn("suffix", old, rng.a[2][0]))
        return [(st, mk_valiter(fn("prefix", old, rng.a[2][0])))]
    e.store(st, c.args[0], fn("drained", old, rng))
    return [(st, mk_valiter(fn("slice", old, rng)))]
@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_vremove(e, st, c):
    st = st.copy(); old = e.load(st, c.args[0])
    e.store(st, c.args[0], fn("removed", old, c.args[1]))
    return [(st, mk("elem", old, c.args[1]))]
@model("std::vec::Vec::<T, A>::insert")
def m_vinsert(e, st, c):
    st = st.copy()
    e.update(st, c.args[0], lambda o: fn("inserted", o, c.args[1], c.args[2])); return [(st, UNIT)]

# ----- maps
def maphas(m, k):
    def f(x):
        y = x
        while y.op == "ins":
            if y.a[1] is k: return TRUE
            if y.a[1].op == "str" and k.op == "str": y = y.a[0]; continue
            if y.a[1].op != "str" or k.op != "str": return mk("haskey", y, k)
        if y is EMPTY: return FALSE
        if y.op == "rem" and y.a[1] is k: return FALSE
        return mk("haskey", y, k)
    if m.op == "sel" and all(f(x).op == "haskey" for _, x in m.a[0]): return mk("haskey", m, k)
    return mapsel(m, f)
@model("std::collections::HashMap::<K, V, S, A>::contains_key", "std::collections::BTreeMap::<K, V, A>::contains_key", "std::collections::HashSet::<T, S, A>::contains", "std::collections::BTreeSet::<T, A>::contains")
def m_ck(e, st, c): return maphas(e.load(st, c.args[0]), deep(e, st, c.args[1]))
def boolsel(b, t, f):
    """choice on boolean term"""
    out = []
    for g, x in alts(b):
        if x.op == "bool": out.append((g, t if x.a[0] else f))
        else:
            out.append((g | lit(x, True, True), t)); out.append((g | lit(x, False, True), f))
    return sel(out)
@model("std::collections::HashMap::<K, V, S, A>::get", "std::collections::BTreeMap::<K, V, A>::get", "std::collections::HashMap::<K, V, S, A>::get_mut", "std::collections::BTreeMap::<K, V, A>::get_mut")
def m_mget(e, st, c):
    k = deep(e, st, c.args[1])
    if k.op == "adt": k = e.snap(st, k)
    has = maphas(e.load(st, c.args[0]), k)
    return boolsel(has, SOME(e.subref(c.args[0], ("k", k), st)), NONE)
@model("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::BTreeMap::<K, V, A>::insert", "std::collections::HashSet::<T, S, A>::insert")
def m_mins(e, st, c):
    st = st.copy()
    old = e.load(st, c.args[0])
    k = e.snap(st, c.args[1])
    v = c.args[2] if len(c.args) > 2 else UNIT
    has = maphas(old, k)
    e.update(st, c.args[0], lambda o: mapsel(o, lambda x: e.map_insert(x, k, v), st.pc))
    if len(c.args) > 2: return [(st, boolsel(has, SOME(proj_key(old, k)), NONE))]
    return [(st, e.unop("Not", has))]
@model("std::collections::HashSet::<T, S, A>::is_subset", "std::collections::BTreeSet::<T, A>::is_subset")
def m_subset(e, st, c): return fn("subset", e.load(st, c.args[0]), e.load(st, c.args[1]))
@model("std::collections::HashSet::<T, S, A>::is_superset", "std::collections::BTreeSet::<T, A>::is_superset")
def m_superset(e, st, c): return fn("subset", e.load(st, c.args[1]), e.load(st, c.args[0]))
@model("std::collections::HashSet::<T, S, A>::difference", "std::collections::BTreeSet::<T, A>::difference")
def m_setdiff(e, st, c):
    d = fn("setdiff", e.load(st, c.args[0]), e.load(st, c.args[1]))
    return mk("iter", "vals", fn("unordered", d) if hashed(e, c) else d, INT(0))
@model("std::collections::HashMap::<K, V, S, A>::remove", "std::collections::BTreeMap::<K, V, A>::remove")
def m_mrem(e, st, c):
    st = st.copy()
    old = e.load(st, c.args[0]); k = deep(e, st, c.args[1])
    has = maphas(old, k)
    e.update(st, c.args[0], lambda o: mapsel(o, lambda x: mk("rem", x, k), st.pc))
    return [(st, boolsel(has, SOME(proj_key(old, k)), NONE))]
@model("std::collections::HashMap::<K, V, S, A>::entry", "std::collections::BTreeMap::<K, V, A>::entry")
def m_entry(e, st, c):
    return mk("adt", "mapentry", 0, (c.args[0], e.snap(st, c.args[1])))
@prefix("std::collections::hash_map::Entry::<", "std::collections::btree_map::Entry::<")
def m_entry2(e, st, c):
    meth = c.defn.split("::")[-1]
    en = c.args[0]
    if en.op != "adt" or en.a[0] != "mapentry": return None
    mref, k = en.a[2]
    outs = []
    has = maphas(e.load(st, mref), k)
    st = st.copy()
    if meth in ("or_insert", "or_insert_with", "or_default"):
        res = []
        for tv in (True, False):
            b = []
            for g, x in alts(has):
                if x.op == "bool":
                    if x.a[0] == tv: b.append(g)
                else: b.append(g | lit(x, tv, True))
            for g in b:
                s = st.assume(g)
                if s is None: continue
                if not tv:
                    if meth == "or_insert": vs = [(s, c.args[1])]
                    elif meth == "or_default":
                        t = tyk(e, c.destty); vs = [(s, default_of(e, s, t.get("elem")))]
                    else: vs = e.call_value(s, c.args[1], [], c)
                    for s2, v in vs:
                        s2 = s2.copy()
                        e.update(s2, mref, lambda o: e.map_insert(o, k, v))
                        res.append((s2, e.subref(mref, ("k", k), s2)))
                else: res.append((s, e.subref(mref, ("k", k), s)))
        return res
    if meth == "and_modify":
        res = []
        for tv in (True, False):
            for g, x in alts(has):
                if x.op == "bool":
                    if x.a[0] != tv: continue
                else: g = g | lit(x, tv, True)
                s = st.assume(g)
                if s is None: continue
                if not tv: res.append((s, en)); continue
                for s2, v in e.call_value(s, c.args[1], [e.subref(mref, ("k", k), s)], c): res.append((s2, en))
        return res
    if meth == "key": return e.ref_to(k)
    return None

# ----- iterators
def mk_refiter(e, st, ref, mut=False):
    al = e.targets(ref, st)
    if len(al) == 1:
        g, r, p = al[0]
        v = e.read(st, r, p)
        it = seq_items(v)
        if it is not None:
            return mk("iter", "items", tuple(REF(r, p + (("e", INT(i)),)) for i in range(len(it))), INT(0))
        return mk("iter", "refs", r, p, INT(0), "ref")
    v = e.load(st, ref)
    return mk("iter", "refs", ("V", v), (), INT(0), "ref")
def mk_valiter(v):
    it = seq_items(v)
    if it is not None:
        return mk("iter", "items", tuple(it), INT(0))
    return mk("iter", "vals", v, INT(0))
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::<impl [T]>::iter", "std::collections::VecDeque::<T, A>::iter", "std::collections::VecDeque::<T, A>::iter_mut", "std::collections::HashMap::<K, V, S, A>::values_", "std::path::Path::iter")
def m_iter(e, st, c): return mk_refiter(e, st, c.args[0])
def hashed(e, c):
    """the iteration order is that of hash values, and this is of interest"""
    if not e.unordered: return False
    t = tyk(e, c.argtys[0])
    while t["k"] == "ref": t = tyk(e, t["elem"])
    return t.get("adt", "") in ("std::collections::HashMap", "std::collections::HashSet")
def map_iter(kind):
    def f(e, st, c):
        v = e.load(st, c.args[0]) if tyk(e, c.argtys[0])["k"] == "ref" else c.args[0]
        items = map_items(v) if not hashed(e, c) else None
        if hashed(e, c): v = fn("unordered", v)
        if items is not None:
            def it(k, x):
                if kind == "iter": return TUP(e.ref_to(k), e.subref(c.args[0], ("k", k), st))
                if kind == "keys": return e.ref_to(k)
                if kind == "values": return e.subref(c.args[0], ("k", k), st)
                if kind == "into": return TUP(k, x)
                if kind == "intovals": return x
                if kind == "intokeys": return k
            return mk("iter", "items", tuple(it(k, x) for k, x in items), INT(0))
        return mk("iter", "map:" + kind, v, c.args[0], INT(0))
    return f
@model("std::collections::HashSet::<T, S, A>::iter", "std::collections::BTreeSet::<T, A>::iter", "std::collections::HashSet::<T, S>::iter", "std::collections::BTreeSet::<T>::iter")
def m_setiter(e, st, c):
    if hashed(e, c): return mk("iter", "refs", ("V", fn("unordered", e.load(st, c.args[0]))), (), INT(0), "ref")
    return mk_refiter(e, st, c.args[0])
def map_items(v):
    out = []
    while v.op == "ins":
        if any(k is v.a[1] for k, _ in out): v = v.a[0]; continue
        out.append((v.a[1], v.a[2])); v = v.a[0]
    if v is EMPTY: return out[::-1]
    return None
for _b in ("std::collections::HashMap::<K, V, S, A>::", "std::collections::BTreeMap::<K, V, A>::"):
    M[_b + "iter"] = map_iter("iter"); M[_b + "iter_mut"] = map_iter("iter"); M[_b + "keys"] = map_iter("keys"); M[_b + "values"] = map_iter("values"); M[_b + "values_mut"] = map_iter("values")
    M[_b + "into_values"] = map_iter("intovals"); M[_b + "into_keys"] = map_iter("intokeys"); M[_b + "drain"] = lambda e, st, c: map_drain(e, st, c)
def map_drain(e, st, c):
    v = e.load(st, c.args[0])
    st = st.copy(); e.store(st, c.args[0], EMPTY)
    items = map_items(v) if not hashed(e, c) else None
    if hashed(e, c): v = fn("unordered", v)
    if items is not None: return [(st, mk("iter", "items", tuple(TUP(k, x) for k, x in items), INT(0)))]
    return [(st, mk("iter", "map:into", v, c.args[0], INT(0)))]

@model("std::iter::IntoIterator::into_iter")
def m_into_iter(e, st, c):
    t = tyk(e, c.argtys[0])
    v = c.args[0]
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    if v.op == "iter": return v
    if v.op == "adt" and v.a[0].endswith("ops::Range"): return range_iter(v)
    if t["k"] == "ref":
        inner = tyk(e, t["elem"])
        n = inner.get("adt", "")
        if user_next(e, t["elem"]): return mk("iter", "byref", v, t["elem"])
        if n in ("std::collections::HashMap", "std::collections::BTreeMap"): return map_iter("iter")(e, st, c)
        if n == "std::option::Option": return mk_valiter(fn("optseq", e.load(st, v)))
        if hashed(e, c): return mk("iter", "refs", ("V", fn("unordered", e.load(st, v))), (), INT(0), "ref")
        return mk_refiter(e, st, v)
    n = t.get("adt", "")
    if n in ("std::collections::HashMap", "std::collections::BTreeMap"): return map_iter("into")(e, st, c)
    if n in ("std::vec::Vec", "std::collections::VecDeque", "std::collections::HashSet", "std::boxed::Box") or t["k"] == "array":
        if v.op == "sel": v = prune(v, st.pc)
        if hashed(e, c): return mk("iter", "vals", fn("unordered", v), INT(0))
        return mk_valiter(v)
    if n == "std::option::Option":
        return mk("iter", "opt", v, INT(0))
    if n.startswith("std::ops::Range"): return range_iter(v)
    return v   # already an iterator (possibly a local Iterator type or opaque)
def user_next(e, ty):
    """key of the `next` of a local iterator type"""
    t = tyk(e, ty)
    if t["k"] != "adt" or t.get("krate") != "osm_io": return None
    key = "<%s as std::iter::Iterator>::next" % e.p.tys(ty)
    return key if e.p.has_body(key) else None
def range_iter(v):
    if v.op == "adt" and len(v.a[2]) >= 2:
        a, b = v.a[2][0], v.a[2][1]
        incl = "Inclusive" in v.a[0]
        if a.op == "int" and b.op == "int" and b.a[0] - a.a[0] <= 64:
            return mk("iter", "items", tuple(INT(i) for i in range(a.a[0], b.a[0] + (1 if incl else 0))), INT(0))
        return mk("iter", "range", a, b, INT(0), incl)
    if v.op == "adt" and "RangeFrom" in v.a[0]: return mk("iter", "range", v.a[2][0], INF, INT(0), False)
    return v
INF = mk("str", "unbounded")

def adapter(kind):
    def f(e, st, c):
        it = as_iter(e, st, c.args[0], c.argtys[0])
        if it is None: return None
        return mk("iter", kind, it, *c.args[1:])
    return f
def as_iter(e, st, v, ty=None):
    """iterator value; `&mut I` arguments are taken by reference"""
    if v.op == "iter": return v
    if v.op == "ref":
        if ty is not None and tyk(e, ty)["k"] == "ref": return mk("iter", "byref", v, tyk(e, ty)["elem"])
        return mk("iter", "byref", v)
    if v.op == "adt" and "ops::Range" in v.a[0]: return range_iter(v)
    if ty is not None:
        t = tyk(e, ty)
        if t["k"] == "adt" and t.get("krate") == "osm_io":
            return mk("iter", "user", v, ty)
    return mk("iter", "opaque", v, INT(0))
P_IT = "std::iter::Iterator::"
for k in ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "take", "skip", "step_by", "rev", "map_while", "scan"):
    M[P_IT + k] = adapter(k)
M["std::iter::DoubleEndedIterator::rev"] = adapter("rev")
M[P_IT + "cloned"] = adapter("cloned"); M[P_IT + "copied"] = adapter("cloned"); M[P_IT + "flatten"] = lambda e, st, c: m_flatten(e, st, c); M[P_IT + "peekable"] = adapter("peekable")
def m_flatten(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    if it is not None and it.op == "iter" and it.a[0] == "opt" and it.a[2] is INT(0):
        # an optional list: the list, or nothing
        return mk_valiter(sel([(g | h, y) for g, x in alts(it.a[1]) for h, y in optlist(x)]))
    return mk("iter", "flatten", it) if it is not None else None
def optlist(x):
    if x.op == "adt": return [(NOG, x.a[2][0] if x.a[1] == 1 else EMPTY)]
    d = mk("discr", x)
    return [(frozenset([(d, 1, True)]), proj_fld(x, 1, 0, "0")), (frozenset([(d, 0, True)]), EMPTY)]
@model(P_IT + "enumerate")
def m_enum(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    return mk("iter", "enumerate", it, INT(0))
@model(P_IT + "zip", P_IT + "chain")
def m_zip(e, st, c):
    a = as_iter(e, st, c.args[0], c.argtys[0])
    c2 = Call(); c2.__dict__.update(c.__dict__); c2.args = [c.args[1]]; c2.argtys = [c.argtys[1]]; c2.inst = None
    b = m_into_iter(e, st, c2)
    b = as_iter(e, st, b, c.argtys[1]) if b.op != "iter" else b
    return mk("iter", c.defn.split("::")[-1], a, b)

def has_lit(e, st, src, cur):
    return mk("has", src, cur)

def adv(n, k=1):
    return I.binop1("Add", n, INT(k))

def it_next(e, st, it, c):
    """-> list of (state, newiter, item|None)"""
    k = it.a[0]
    if k == "items":
        items, cur = it.a[1], it.a[2]
        if cur.op == "int":
            e.conc_next = True
            if cur.a[0] < len(items): return [(st, mk("iter", "items", items, INT(cur.a[0] + 1)), items[cur.a[0]])]
            return [(st, it, None)]
        # symbolic position in a known list
        l = mk("has", ADT("array", 0, items), cur)
        return split(e, st, l, mk("iter", "items", items, adv(cur)), it, mk("elem", ADT("array", 0, items), cur))
    if k == "refs":
        root, path, cur, md = it.a[1:]
        if cur.op == "sel": cur = prune(cur, st.pc)
        src = e.read(st, root, path)
        return split(e, st, mk("has", src, cur), mk("iter", "refs", root, path, adv(cur), md), it, REF(root, path + (("e", cur),)))
    if k == "vals":
        v, cur = it.a[1:]
        if cur.op == "sel": cur = prune(cur, st.pc)
        return split(e, st, mk("has", v, cur), mk("iter", "vals", v, adv(cur)), it, proj_elem(v, cur))
    if k == "opt":
        v, cur = it.a[1:]
        if cur.op == "int" and cur.a[0] == 0:
            out = []
            for g, x in alts(v, st.pc):
                s = st.assume(g)
                if s is None: continue
                if x.op == "adt":
                    if x.a[1] == 1: out.append((s, mk("iter", "opt", NONE, INT(1)), x.a[2][0]))
                    else: out.append((s, it, None))
                else:
                    d = mk("discr", x)
                    s1 = s.assume([(d, 1, True)]); s0 = s.assume([(d, 0, True)])
                    if s1: out.append((s1, mk("iter", "opt", NONE, INT(1)), proj_fld(x, 1, 0, "0")))
                    if s0: out.append((s0, it, None))
            return out
        return [(st, it, None)]
    if k == "range":
        a, b, cur, incl = it.a[1:]
        pos = I.binop1("Add", a, cur)
        if b is INF:
            e.sym_next = True
            return [(st, mk("iter", "range", a, b, adv(cur), incl), pos)]
        l = I.binop1("Lt", pos, b) if not incl else e.unop("Not", I.binop1("Lt", b, pos))
        return split(e, st, l, mk("iter", "range", a, b, adv(cur), incl), it, pos)
    if k.startswith("map:"):
        kind = k[4:]; v, ref, cur = it.a[1:]
        key = mk("mapkey", v, cur)
        if kind == "iter": item = TUP(e.ref_to(key), e.subref(ref, ("k", key), st))
        elif kind == "keys": item = e.ref_to(key)
        elif kind == "values": item = e.subref(ref, ("k", key), st)
        elif kind == "intovals": item = proj_key(v, key)
        elif kind == "intokeys": item = key
        else: item = TUP(key, proj_key(v, key))
        return split(e, st, mk("has", v, cur), mk("iter", k, v, ref, adv(cur)), it, item)
    if k == "byref":
        ref = it.a[1]
        out = []
        inner = e.load(st, ref)
        for g, x in alts(inner, st.pc):
            s = st.assume(g)
            if s is None: continue
            if x.op == "iter":
                for s2, ni, item in it_next(e, s, x, c):
                    s2 = s2.copy(); e.store(s2, ref, ni)
                    out.append((s2, it, item))
            elif len(it.a) > 2 and user_next(e, it.a[2]):
                for s2, ni, item in it_next(e, s, mk("iter", "user", x, it.a[2]), c):
                    s2 = s2.copy(); e.store(s2, ref, ni.a[1])
                    out.append((s2, it, item))
            else:
                s = s.copy()
                # opaque / user iterator behind a reference
                ni = mk("next", x)
                e.store(s, ref, fn("advanced", x))
                d = mk("discr", ni)
                s1 = s.assume([(d, 1, True)]); s0 = s.assume([(d, 0, True)])
                if s1: out.append((s1, it, mk("fld", ni, 1, 0, "0")))
                if s0: out.append((s0, it, None))
        return out
    if k == "user":
        v, ty = it.a[1:]
        key = "<%s as std::iter::Iterator>::next" % e.p.tys(ty)
        if e.p.has_body(key) and e.stack.count(key) < 2:
            s = st.copy(); r = ("T", c.ctx, "userit"); s.mem[r] = v
            out = []
            cut = e.intercepts.get(key)
            if cut:
                c2 = Call(); c2.__dict__.update(c.__dict__); c2.args = [REF(r, ())]; c2.inst = key
                res = cut(e, s, c2); res = [(s, res)] if isinstance(res, T) else res
            else: res = e.run_fn(key, [REF(r, ())], s, e.ctx(c.ctx, "next", key))
            for s2, val in res:
                nv = s2.mem.get(r, v)
                for g, x in alts(val, s2.pc):
                    s3 = s2.assume(g)
                    if s3 is None: continue
                    if x.op == "adt": out.append((s3, mk("iter", "user", nv, ty), x.a[2][0] if x.a[1] == 1 else None))
                    else:
                        d = mk("discr", x)
                        s1 = s3.assume([(d, 1, True)]); s0 = s3.assume([(d, 0, True)])
                        if s1: out.append((s1, mk("iter", "user", nv, ty), mk("fld", x, 1, 0, "0")))
                        if s0: out.append((s0, mk("iter", "user", nv, ty), None))
            return out
        return split(e, st, mk("has", v, INT(0)), it, it, fn("nextof", v))
    if k == "opaque":
        v, cur = it.a[1:]
        return split(e, st, mk("has", v, cur), mk("iter", "opaque", v, adv(cur)), it, mk("elem", v, cur))
    if k == "map":
        out = []
        for s, ni, x in it_next(e, st, it.a[1], c):
            if x is None: out.append((s, mk("iter", "map", ni, it.a[2]), None)); continue
            for s2, v in call_mut(e, s, it, 2, [x], c):
                out.append((s2[0], mk("iter", "map", ni, s2[1]), v))
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while", "inspect", "map_while"):
        out = []
        for s, ni, x in it_next(e, st, it.a[1], c):
            if x is None: out.append((s, mk("iter", k, ni, it.a[2]), None)); continue
            arg = x if k in ("filter_map", "map_while") else e.ref_to(x)
            for (s2, nf), v in call_mut(e, s, it, 2, [arg], c):
                nit = mk("iter", k, ni, nf)
                if k == "inspect": out.append((s2, nit, x)); continue
                if k in ("filter_map", "map_while"):
                    for g, y in alts(v, s2.pc):
                        s3 = s2.assume(g)
                        if s3 is None: continue
                        if y.op == "adt":
                            if y.a[1] == 1: out.append((s3, nit, y.a[2][0]))
                            else: out.append((s3, nit, SKIP if k == "filter_map" else None))
                        else:
                            d = mk("discr", y)
                            s1 = s3.assume([(d, 1, True)]); s0 = s3.assume([(d, 0, True)])
                            if s1: out.append((s1, nit, proj_fld(y, 1, 0, "0")))
                            if s0: out.append((s0, nit, SKIP if k == "filter_map" else None))
                    continue
                for g, y in alts(v, s2.pc):
                    s3 = s2.assume(g)
                    if s3 is None: continue
                    def emit(s4, tv):
                        if k == "filter": out.append((s4, nit, x if tv else SKIP))
                        elif k == "take_while": out.append((s4, nit, x if tv else None))
                        else: out.append((s4, nit, SKIP if tv else x))
                    if y.op == "bool": emit(s3, y.a[0])
                    else:
                        s1 = s3.assume(lit(y, True, True)); s0 = s3.assume(lit(y, False, True))
                        if s1: emit(s1, True)
                        if s0: emit(s0, False)
        return out
    if k == "scan":
        out = []
        r = ("T", c.ctx, "scan%d" % depth_of(it))
        for s, ni, x in it_next(e, st, it.a[1], c):
            if x is None or x is SKIP: out.append((s, mk("iter", k, ni, it.a[2], it.a[3]), x)); continue
            s = s.copy(); s.mem[r] = it.a[2]
            for (s2, nf), v in call_mut(e, s, it, 3, [REF(r, ()), x], c):
                s2 = s2.copy(); nit = mk("iter", k, ni, s2.mem.pop(r, it.a[2]), nf)
                out += opt_item(s2, nit, v, None)
        return out
    if k in ("flatten", "flat_map"):
        # lists of at most one element
        out = []
        for s, ni, x in it_next(e, st, it.a[1], c):
            if x is None or x is SKIP: out.append((s, mk("iter", k, ni, *it.a[2:]), x)); continue
            for (s2, nf), v in (call_mut(e, s, it, 2, [x], c) if k == "flat_map" else [((s, None), x)]):
                if not all(y.op == "adt" and y.a[0].endswith("option::Option") for g, y in alts(v, s2.pc)): break
                out += opt_item(s2, mk("iter", k, ni, nf) if k == "flat_map" else mk("iter", k, ni), v, SKIP)
            else: continue
            break
        else: return out
    if k == "enumerate":
        out = []
        for s, ni, x in it_next(e, st, it.a[1], c):
            if x is None: out.append((s, mk("iter", "enumerate", ni, it.a[2]), None))
            elif x is SKIP: out.append((s, mk("iter", "enumerate", ni, it.a[2]), SKIP))
            else: out.append((s, mk("iter", "enumerate", ni, adv(it.a[2])), TUP(it.a[2], x)))
        return out
    if k == "cloned":
        return [(s, mk("iter", "cloned", ni), x if x is None or x is SKIP else deep1(e, s, x)) for s, ni, x in it_next(e, st, it.a[1], c)]
    if k == "zip":
        out = []
        for s, na, x in it_next(e, st, it.a[1], c):
            if x is None: out.append((s, it, None)); continue
            for s2, nb, y in it_next(e, s, it.a[2], c):
                if y is None: out.append((s2, mk("iter", "zip", na, nb), None))
                else: out.append((s2, mk("iter", "zip", na, nb), TUP(x, y)))
        return out
    if k == "chain":
        out = []
        for s, na, x in it_next(e, st, it.a[1], c):
            if x is not None: out.append((s, mk("iter", "chain", na, it.a[2]), x)); continue
            for s2, nb, y in it_next(e, s, it.a[2], c):
                out.append((s2, mk("iter", "chain", na, nb), y))
        return out
    if k in ("rev", "skip", "take", "step_by"):
        inner = it.a[1]
        if inner.a[0] == "items" and inner.a[2].op == "int":
            items = inner.a[1][inner.a[2].a[0]:]
            if k == "rev": items = items[::-1]
            elif it.a[2].op == "int":
                n = it.a[2].a[0]
                items = items[n:] if k == "skip" else items[:n] if k == "take" else items[::n]
            else: items = None
            if items is not None: return it_next(e, st, mk("iter", "items", tuple(items), INT(0)), c)
        # opaque transformation of the source sequence
        src = iter_src(e, st, inner)
        if src is not None:
            return it_next(e, st, mk("iter", "refs" if inner.a[0] == "refs" else "vals", *(((("V", fn(k, src, *it.a[2:]))), (), INT(0), "ref") if inner.a[0] == "refs" else (fn(k, src, *it.a[2:]), INT(0)))), c)
        return it_next(e, st, mk("iter", "opaque", fn(k, *[x for x in it.a[1:] if isinstance(x, T)]), INT(0)), c)
    if k == "peekable":
        return [(s, mk("iter", "peekable", ni), x) for s, ni, x in it_next(e, st, it.a[1], c)]
    # flat_map, flatten, ...
    return split(e, st, mk("has", it, INT(0)), it, it, fn("item", it))
def depth_of(it):
    n = 0
    while isinstance(it, T) and it.op == "iter" and it.a and isinstance(it.a[1], T): it = it.a[1]; n += 1
    return n
def opt_item(s, nit, v, other):
    """[(state, iterator, item)] of an optional item"""
    out = []
    for g, y in alts(v, s.pc):
        s3 = s.assume(g)
        if s3 is None: continue
        if y.op == "adt": out.append((s3, nit, y.a[2][0] if y.a[1] == 1 else other)); continue
        d = mk("discr", y)
        s1 = s3.assume([(d, 1, True)]); s0 = s3.assume([(d, 0, True)])
        if s1: out.append((s1, nit, proj_fld(y, 1, 0, "0")))
        if s0: out.append((s0, nit, other))
    return out
def iter_src(e, st, it):
    if it.a[0] == "refs": return e.read(st, it.a[1], it.a[2]) if it.a[3] is INT(0) else None
    if it.a[0] == "vals": return it.a[1] if it.a[2] is INT(0) else None
    return None
def deep1(e, s, x):
    return e.load(s, x)
SKIP = mk("skipitem")
def split(e, st, l, nit, it, item):
    e.sym_next = True
    out = []
    if l.op == "bool":
        return [(st, nit, item)] if l.a[0] else [(st, it, None)]
    s1 = st.assume(lit(l, True, True))
    if s1: out.append((s1, nit, item))
    s0 = st.assume(lit(l, False, True))
    if s0: out.append((s0, it, None))
    return out
def call_mut(e, s, it, pos, args, c):
    """call closure stored in an adapter; yields ((state, newclosure), value)"""
    f = it.a[pos]
    if f.op == "adt" and f.a[0].startswith("closure:"):
        inst = f.a[0].split("|", 1)[1]
        if e.p.has_body(inst):
            body = e.p.bodies[inst]["body"]
            if tyk(e, body["locals"][1]["ty"])["k"] == "ref":
                r = ("T", c.ctx, "clo%d" % pos)
                s = s.copy(); s.mem[r] = f
                return [((s2, s2.mem.get(r, f)), v) for s2, v in e.call_value(s, REF(r, ()), args, c)]
    return [((s2, f), v) for s2, v in e.call_value(s, f, args, c)]

@model(P_IT + "next", "std::iter::DoubleEndedIterator::next_back")
def m_next(e, st, c):
    if c.inst and e.p.has_body(c.inst) and e.p.bodies[c.inst]["krate"] == "osm_io": return None
    v = e.load(st, c.args[0])
    outs = []
    back = c.defn.endswith("next_back")
    for g, x in alts(v, st.pc):
        s = st.assume(g) if g else st
        if s is None: continue
        ty = None
        if c.argtys and c.argtys[0] is not None and tyk(e, c.argtys[0])["k"] == "ref": ty = tyk(e, c.argtys[0])["elem"]
        it = x if x.op == "iter" else as_iter(e, s, x, ty)
        if back:
            it = mk("iter", "rev", it)
        outs += next_noskip(e, s, it, c, c.args[0])
    return outs
def heads_loop(e, c):
    """the call is the head of a loop and nothing is done before it: a skipped element is a turn that does nothing"""
    if c.key is None or not e.p.has_body(c.key) or c.bi not in e.p.cfg(c.key).loops: return False
    for stm in e.p.bodies[c.key]["body"]["blocks"][c.bi]["statements"]:
        k = stm["kind"]
        if isinstance(k, str): continue
        (n, v), = k.items()
        if n == "Assign":
            pl, rv = v
            if pl["projection"] or isinstance(rv, str) or next(iter(rv)) != "Ref": return False
        elif n not in ("StorageLive", "StorageDead", "FakeRead", "PlaceMention"): return False
    return True
def next_noskip(e, s, it, c, ref, depth=0):
    outs = []
    again = heads_loop(e, c)
    for s2, ni, item in it_next(e, s, it, c):
        s2 = s2.copy()
        e.store(s2, ref, ni)
        if item is SKIP and again: outs.append((s2, AGAIN))
        elif item is SKIP:
            # skipped element: the search goes on; summarised as an opaque later element
            outs.append((s2, SOME(fn("later", it)) if depth else fn("nextafter", ni)))
        elif item is None: outs.append((s2, NONE))
        else: outs.append((s2, SOME(item)))
    return outs

def consume(e, st, c, it, acc0, body, tag="it"):
    """generic internal iteration with phi machinery.
    body(state, item, acc) -> list of (state, newacc, stop_value|None)"""
    if it is not None and it.op == "iter" and it.a[0] in ("flatten", "flat_map") and len(tag) < 12:
        return consume_nested(e, st, c, it, acc0, body, tag)
    ri = ("T", c.ctx, tag); ra = ("T", c.ctx, tag + ":acc"); rs = ("T", c.ctx, tag + ":stop")
    s = st.copy(); s.mem[ri] = it; s.mem[ra] = acc0
    def run(heads):
        backs, exits = [], []
        for h in heads:
            itv = h.mem[ri]
            for g, x in alts(itv, h.pc):
                hs = h.assume(g) if g else h
                if hs is None: continue
                for s2, ni, item in it_next(e, hs, x if x.op == "iter" else mk("iter", "opaque", x, INT(0)), c):
                    s2 = s2.copy(); s2.mem[ri] = ni
                    if item is None: exits.append(s2); continue
                    if item is SKIP: backs.append(s2); continue
                    for s3, na, stop in body(s2, item, s2.mem[ra]):
                        s3 = s3.copy(); s3.mem[ra] = na
                        if stop is not None:
                            s3.mem[rs] = stop; exits.append(s3)
                        else: backs.append(s3)
        return backs, exits
    exits = e.fix_loop([s], (c.ctx, "consume", tag), run)
    outs = []
    for x in exits:
        a = x.mem.pop(ra); x.mem.pop(ri, None); stop = x.mem.pop(rs, None)
        outs.append((x, a, stop))
    return outs

def consume_nested(e, st, c, it, acc0, body, tag):
    """a list of lists: each of them is gone through inside the pass over the outer one"""
    rf = ("T", c.ctx, tag + ":fn")
    st = st.copy()
    if it.a[0] == "flat_map": st.mem[rf] = it.a[2]
    def outer(s, x, acc):
        out = []
        for s2, v in (e.call_value(s, REF(rf, ()), [x], c) if it.a[0] == "flat_map" else [(s, x)]):
            for g, y in alts(v, s2.pc):
                s3 = s2.assume(g) if g else s2
                if s3 is not None: out += inside(s3, y, acc)
        return out
    def inside(s, y, acc):
        if y.op == "adt" and y.a[0] == "array": sub = mk("iter", "items", tuple(y.a[2]), INT(0))
        elif y.op == "adt" and y.a[0].endswith("option::Option"): sub = mk("iter", "items", tuple(y.a[2]) if y.a[1] == 1 else (), INT(0))
        elif y.op == "ref": sub = mk("iter", "refs", y.a[0], y.a[1], INT(0), "ref")
        elif y.op == "iter": sub = y
        else: sub = mk_valiter(y)
        if sub.a[0] == "items" and sub.a[2].op == "int":
            cur = [(s, acc)]; out = []
            for item in sub.a[1][sub.a[2].a[0]:]:
                nxt = []
                for s2, a in cur:
                    for s3, na, stop in body(s2, item, a):
                        if stop is not None: out.append((s3, na, stop))
                        else: nxt.append((s3, na))
                cur = nxt
            return out + [(s2, a, None) for s2, a in cur]
        return consume(e, s, c, sub, acc, body, tag + ":n")
    return consume(e, st, c, it.a[1], acc0, outer, tag)

@model(P_IT + "for_each")
def m_foreach(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    f = c.args[1]
    rf = ("T", c.ctx, "fe")
    st = st.copy(); st.mem[rf] = f
    def body(s, item, acc):
        return [(s2, acc, None) for s2, v in e.call_value(s, REF(rf, ()), [item], c)]
    return [(s, UNIT) for s, a, stop in consume(e, st, c, it, UNIT, body)]
@model(P_IT + "try_for_each")
def m_tryforeach(e, st, c):
    it = as_iter(e, st, e.load(st, c.args[0]) if c.args[0].op == "ref" and e.load(st, c.args[0]).op == "iter" else c.args[0], c.argtys[0])
    rf = ("T", c.ctx, "fe"); st = st.copy(); st.mem[rf] = c.args[1]
    def body(s, item, acc):
        out = []
        for s2, v in e.call_value(s, REF(rf, ()), [item], c):
            out += split_try(e, s2, v, acc)
        return out
    return [(s, stop if stop is not None else OK(UNIT)) for s, a, stop in consume(e, st, c, it, UNIT, body)]
def split_try(e, s2, v, acc, okf=None):
    out = []
    for g, y in alts(v, s2.pc):
        s3 = s2.assume(g)
        if s3 is None: continue
        if y.op == "adt":
            if y.a[0].endswith("Option"):
                if y.a[1] == 1: out.append((s3, okf(acc, y.a[2][0]) if okf else acc, None))
                else: out.append((s3, acc, y))
            elif y.a[1] == 0: out.append((s3, okf(acc, y.a[2][0]) if okf else acc, None))
            else: out.append((s3, acc, y))
        else:
            d = mk("discr", y)
            s1 = s3.assume([(d, 0, True)]); s0 = s3.assume([(d, 1, True)])
            if s1: out.append((s1, okf(acc, mk("fld", y, 0, 0, "0")) if okf else acc, None))
            if s0: out.append((s0, acc, ERR(mk("fld", y, 1, 0, "0"))))
    return out
@model(P_IT + "fold")
def m_fold(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    rf = ("T", c.ctx, "fo"); st = st.copy(); st.mem[rf] = c.args[2]
    def body(s, item, acc):
        return [(s2, v, None) for s2, v in e.call_value(s, REF(rf, ()), [acc, item], c)]
    return [(s, a) for s, a, stop in consume(e, st, c, it, c.args[1], body)]
@model(P_IT + "try_fold")
def m_tryfold(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    rf = ("T", c.ctx, "fo"); st = st.copy(); st.mem[rf] = c.args[2]
    def body(s, item, acc):
        out = []
        for s2, v in e.call_value(s, REF(rf, ()), [acc, item], c):
            out += split_try(e, s2, v, acc, okf=lambda a, x: x)
        return out
    opt = tyk(e, c.destty).get("adt") == "std::option::Option"
    return [(s, stop if stop is not None else (SOME(a) if opt else OK(a))) for s, a, stop in consume(e, st, c, it, c.args[1], body)]
def coll_add(kind, acc, x):
    if kind == "map":
        if x.op == "adt" and x.a[0] == "tuple" and len(x.a[2]) == 2: return mk("ins", acc, x.a[2][0], x.a[2][1])
        return mk("ins", acc, x, UNIT)
    if kind == "set": return mk("ins", acc, x, UNIT)
    if kind == "str": return catstr(acc, x)
    return mapsel(acc, lambda y: PUSH(y, x))
def coll_kind(t):
    n = t.get("adt", "")
    if n in ("std::collections::HashMap", "std::collections::BTreeMap"): return "map", EMPTY
    if n in ("std::collections::HashSet", "std::collections::BTreeSet"): return "set", EMPTY
    if n == "std::string::String": return "str", STR("")
    return "vec", EMPTY
@model(P_IT + "collect", "std::iter::FromIterator::from_iter")
def m_collect(e, st, c):
    t = tyk(e, c.destty)
    if c.defn.endswith("from_iter"):
        c2 = Call(); c2.__dict__.update(c.__dict__); c2.inst = None
        iv = m_into_iter(e, st, c2)
        it = as_iter(e, st, iv, c.argtys[0])
    else: it = as_iter(e, st, c.args[0], c.argtys[0])
    if t.get("adt") in ("std::result::Result", "std::option::Option"):
        kind, z = coll_kind(tyk(e, t["args"][0]))
        def body(s, item, acc): return split_try(e, s, item, acc, okf=lambda a, x: coll_add(kind, a, x))
        opt = t["adt"].endswith("Option")
        return [(s, stop if stop is not None else (SOME(a) if opt else OK(a))) for s, a, stop in consume(e, st, c, it, z, body)]
    kind, z = coll_kind(t)
    # trivial: collecting a whole sequence unchanged
    if kind == "vec" and it.a[0] == "vals" and it.a[2] is INT(0): return it.a[1]
    def body(s, item, acc):
        x = item
        if kind == "set": x = e.snap(s, x)
        if kind == "str": x = deep(e, s, x)
        return [(s, coll_add(kind, acc, x), None)]
    return [(s, a) for s, a, stop in consume(e, st, c, it, z, body)]
@model("std::iter::Extend::extend")
def m_extend(e, st, c):
    c2 = Call(); c2.__dict__.update(c.__dict__); c2.args = [c.args[1]]; c2.argtys = [c.argtys[1]]; c2.inst = None
    iv = m_into_iter(e, st, c2)
    it = as_iter(e, st, iv, c.argtys[1])
    t = tyk(e, tyk(e, c.argtys[0])["elem"])
    kind, z = coll_kind(t)
    cur = e.load(st, c.args[0])
    if kind == "vec" and it.a[0] == "vals" and it.a[2] is INT(0):
        st = st.copy(); e.store(st, c.args[0], catseq(cur, it.a[1])); return [(st, UNIT)]
    byref = it
    def body(s, item, acc):
        x = item
        if x.op == "ref" and kind == "vec" and tyk(e, t["args"][0])["k"] not in ("ref",): x = e.load(s, x)
        if kind == "str": x = deep(e, s, x)
        return [(s, coll_add(kind, acc, x), None)]
    outs = []
    for s, a, stop in consume(e, st, c, it, cur, body):
        s = s.copy(); e.store(s, c.args[0], a); outs.append((s, UNIT))
    return outs
@model(P_IT + "unzip")
def m_unzip(e, st, c):
    """two lists at once"""
    it = as_iter(e, st, c.args[0], c.argtys[0]); t = tyk(e, c.destty)
    if it is None or t["k"] != "tuple" or len(t["elems"]) != 2: return None
    (ka, za), (kb, zb) = (coll_kind(tyk(e, x)) for x in t["elems"])
    def body(s, item, acc):
        return [(s, TUP(coll_add(ka, acc.a[2][0], proj_fld(item, 0, 0, "0")), coll_add(kb, acc.a[2][1], proj_fld(item, 0, 1, "1"))), None)]
    return [(s, a) for s, a, stop in consume(e, st, c, it, TUP(za, zb), body)]
@model(P_IT + "count")
def m_count(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    return [(s, a) for s, a, stop in consume(e, st, c, it, INT(0), lambda s, x, acc: [(s, adv(acc), None)])]
@model(P_IT + "sum")
def m_sum(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    return [(s, a) for s, a, stop in consume(e, st, c, it, INT(0), lambda s, x, acc: [(s, e.binop("Add", acc, deep(e, s, x)), None)])]
def m_search(kind):
    def f(e, st, c):
        src = c.args[0]
        it = as_iter(e, st, src, c.argtys[0])
        rf = ("T", c.ctx, "se"); st = st.copy(); st.mem[rf] = c.args[1] if len(c.args) > 1 else UNIT
        if kind == "position":
            q = position_of(e, st, c, it, rf)
            if q is not None: return q
        def body(s, item, acc):
            out = []
            arg = e.ref_to(item) if kind in ("find",) else item
            for s2, v in e.call_value(s, REF(rf, ()), [arg], c):
                if kind == "find_map":
                    for g, y in alts(v, s2.pc):
                        s3 = s2.assume(g)
                        if s3 is None: continue
                        if y.op == "adt": out.append((s3, acc, y if y.a[1] == 1 else None))
                        else:
                            d = mk("discr", y); s1 = s3.assume([(d, 1, True)]); s0 = s3.assume([(d, 0, True)])
                            if s1: out.append((s1, acc, y))
                            if s0: out.append((s0, acc, None))
                    continue
                for g, y in alts(v, s2.pc):
                    s3 = s2.assume(g)
                    if s3 is None: continue
                    def emit(s4, tv):
                        if kind == "any": out.append((s4, acc, TRUE if tv else None))
                        elif kind == "all": out.append((s4, acc, None if tv else FALSE))
                        elif kind == "find": out.append((s4, acc, SOME(item) if tv else None))
                        elif kind == "position": out.append((s4, adv(acc) if not tv else acc, SOME(acc) if tv else None))
                    if y.op == "bool": emit(s3, y.a[0])
                    else:
                        s1 = s3.assume(lit(y, True, True)); s0 = s3.assume(lit(y, False, True))
                        if s1: emit(s1, True)
                        if s0: emit(s0, False)
            return out
        dflt = {"any": FALSE, "all": TRUE}.get(kind, NONE)
        return [(s, stop if stop is not None else dflt) for s, a, stop in consume(e, st, c, it, INT(0) if kind == "position" else UNIT, body)]
    return f
def position_of(e, st, c, it, rf):
    """position of the first element equal to a given value: a function of the sequence and the value"""
    home = None
    if it.op == "iter" and it.a[0] == "byref":
        home = it.a[1]; it = e.load(st, home)
    if it.op != "iter" or it.a[0] not in ("refs", "vals"): return None
    if it.a[0] == "refs": src = e.load(st, REF(it.a[1], it.a[2])); cur = it.a[3]
    else: src = it.a[1]; cur = it.a[2]
    if cur is not INT(0) or src.op in ("adt", "push", "empty", "sel"): return None
    m = mk("sym", "?element", c.ctx)
    log = len(e.log)
    outs = list(e.call_value(st.copy(), REF(rf, ()), [e.ref_to(m) if it.a[0] == "refs" else m], c))
    if len(outs) != 1 or outs[0][1].op != "bin" or outs[0][1].a[0] != "Eq" or len(e.log) != log: return None
    y, z = outs[0][1].a[1], outs[0][1].a[2]
    if z is m: y, z = z, y
    if y is not m or mentions(z, m): return None
    l = fn("holds?", src, z); pos = fn("position", src, z)
    out = []
    for s, v in ((st.assume([(l, True, True)]), SOME(pos)), (st.assume([(l, False, True)]), NONE)):
        if s is None: continue
        if home is not None:
            s = s.copy()
            e.store(s, home, mk("iter", *[adv(pos) if v is not NONE and i == (3 if it.a[0] == "refs" else 2) else x for i, x in enumerate(it.a)]))
        out.append((s, v))
    return out
def mentions(t, m, seen=None):
    seen = set() if seen is None else seen
    if t is m: return True
    if not isinstance(t, (T, tuple)) or (isinstance(t, T) and t.id in seen): return False
    if isinstance(t, T): seen.add(t.id)
    return any(mentions(x, m, seen) for x in (t.a if isinstance(t, T) else t))
for _k in ("any", "all", "find", "position", "find_map"): M[P_IT + _k] = m_search(_k)
@model(P_IT + "last", P_IT + "nth", P_IT + "max", P_IT + "min", P_IT + "max_by", P_IT + "min_by", P_IT + "max_by_key", P_IT + "min_by_key")
def m_lastnth(e, st, c):
    it = as_iter(e, st, c.args[0], c.argtys[0])
    if c.defn.endswith("nth") and c.args[0].op == "ref":
        inner = e.load(st, c.args[0])
        if inner.op == "iter" and inner.a[0] in ("refs",) and inner.a[3] is INT(0):
            root, path, cur, md = inner.a[1:]
            src = e.read(st, root, path)
            st = st.copy(); e.store(st, c.args[0], mk("iter", "refs", root, path, adv(c.args[1]), md))
            l = mk("has", src, c.args[1])
            return [(st, boolsel(l, SOME(REF(root, path + (("e", c.args[1]),))), NONE))]
    t = fn("iter_" + c.defn.split("::")[-1], it, *c.args[1:])
    d = mk("discr", t)
    return sel([(frozenset([(d, 1, True)]), SOME(mk("fld", t, 1, 0, "0"))), (frozenset([(d, 0, True)]), NONE)])
@prefix("std::iter::Peekable::<I>::peek")
def m_peek(e, st, c):
    v = e.load(st, c.args[0])
    if v.op != "iter": return None
    outs = []
    for s, ni, item in it_next(e, st, v.a[1], c):
        outs.append((s, NONE if item is None else SOME(e.ref_to(item))))
    return outs
@model("std::array::<impl [T; N]>::map", "core::array::<impl [T; N]>::map")
def m_arrmap(e, st, c):
    items = seq_items(c.args[0])
    if items is None: return None
    states = [(st, [])]
    rf = ("T", c.ctx, "am")
    for x in items:
        new = []
        for s, acc in states:
            s = s.copy()
            if rf not in s.mem: s.mem[rf] = c.args[1]
            outs = e.call_value(s, REF(rf, ()), [x], c)
            if len(outs) > 1:
                pass
            for s2, v in outs: new.append((s2, acc + [v]))
        states = new
    return [(s, ADT("array", 0, acc)) for s, acc in states]

@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", force=True)
def m_fncall(e, st, c):
    tup = c.args[1]
    if tup.op == "adt": args = list(tup.a[2])
    else:
        t = tyk(e, c.argtys[1]); args = [mk("fld", tup, 0, i, str(i)) for i in range(len(t.get("elems", [])))]
    return e.call_value(st, c.args[0], args, c)

# ----- range contains
@prefix("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def m_rcontains(e, st, c):
    r = e.load(st, c.args[0]); x = deep(e, st, c.args[1])
    incl = "Inclusive" in c.defn
    lo = proj_fld(r, 0, 0, "start"); hi = proj_fld(r, 0, 1, "end")
    a = e.unop("Not", e.binop("Lt", x, lo))
    b = e.unop("Not", e.binop("Lt", hi, x)) if incl else e.binop("Lt", x, hi)
    return e.binop("BitAnd", a, b)
@model("std::ops::RangeInclusive::<Idx>::new")
def m_rinew(e, st, c): return ADT("std::ops::RangeInclusive", 0, (c.args[0], c.args[1], FALSE))

# ----- errors
@model("anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::msg", "anyhow::error::<impl anyhow::Error>::new", "anyhow::Error::msg", "anyhow::Error::new", "anyhow::error::<impl anyhow::Error>::context")
def m_err(e, st, c): return fn("anyhow", *[e.snap(st, a) for a in c.args])
@prefix("anyhow::kind::", "anyhow::__private::kind::")
def m_anykind(e, st, c):
    return fn("anyhow", *[e.snap(st, a) for a in c.args])
@model("anyhow::Context::with_context", "anyhow::Context::context")
def m_ctx(e, st, c):
    v = c.args[0]
    t = tyk(e, c.argtys[0])
    def f(x):
        if x.op == "adt":
            if t.get("adt") == "std::option::Option": return OK(x.a[2][0]) if x.a[1] == 1 else ERR(fn("ctxnone"))
            return x if x.a[1] == 0 else ERR(fn("ctx", x.a[2][0]))
        d = mk("discr", x)
        if t.get("adt") == "std::option::Option":
            return sel([(frozenset([(d, 1, True)]), OK(mk("fld", x, 1, 0, "0"))), (frozenset([(d, 0, True)]), ERR(fn("ctxnone")))])
        return sel([(frozenset([(d, 0, True)]), OK(mk("fld", x, 0, 0, "0"))), (frozenset([(d, 1, True)]), ERR(fn("ctx", mk("fld", x, 1, 0, "0"))))])
    return mapsel(v, f, st.pc)
@prefix("std::rt::panic_fmt", "core::panicking::", "std::rt::begin_panic", "core::option::expect_failed", "core::result::unwrap_failed", "core::option::unwrap_failed", "std::option::unwrap_failed", "std::result::unwrap_failed", "std::option::expect_failed", "std::panicking::", "core::slice::index::", "core::str::slice_error_fail", "std::cell::panic_already", "core::cell::panic_", "std::process::exit", "std::process::abort")
def m_panic(e, st, c):
    e.panics.append((st.pc, c.key, c.line, c.args, st.part))
    return []

# ----- logging
@prefix("log::")
def m_log(e, st, c):
    if c.defn == "log::max_level": return mk("sym", "log_max_level", 0)
    if c.defn.endswith("::log") or c.defn.endswith("loc"): return UNIT
    return None

# ----- thread locals
def tls_name(e, v):
    if v.op == "ref":
        v2 = e.read_root(State(), v.a[0])
        for s in v.a[1]: v2 = e.step(v2, s)
        v = v2
    def find(x, d=0):
        if d > 4: return None
        if x.op == "fnitem": return x.a[0]
        for y in children(x):
            r = find(y, d + 1)
            if r: return r
        return None
    r = find(v)
    if r:
        m = re.search(r"([A-Za-z_0-9:]+?)::\{constant", r)
        return m.group(1) if m else r
    return None
@model("std::thread::LocalKey::<T>::with", "std::thread::LocalKey::<T>::try_with")
def m_with(e, st, c):
    n = tls_name(e, c.args[0])
    root = tls_root(e, c.args[0])
    e.tls_uses.append((n, e.tls_tag, c.ctx, c.key))
    outs = e.call_value(st, c.args[1], [REF(root, ())], c)
    if c.defn.endswith("try_with"): return [(s, OK(v)) for s, v in outs]
    return outs
def tls_root(e, v):
    n = tls_name(e, v)
    return ("S", "tls:" + n + e.tls_tag) if n else ("X", v)
@prefix("std::thread::local::<impl std::thread::LocalKey<std::cell::RefCell<T>>>::", "std::thread::local::<impl std::thread::LocalKey<std::cell::Cell<T>>>::", "std::thread::LocalKey::<std::cell::RefCell<T>>::", "std::thread::LocalKey::<std::cell::Cell<T>>::")
def m_tls_cell(e, st, c):
    meth = c.defn.split("::")[-1]
    r = REF(tls_root(e, c.args[0]), ())
    e.tls_uses.append((tls_name(e, c.args[0]), e.tls_tag, c.ctx, c.key))
    st = st.copy()
    if "RefCell" in c.defn: acquired(e, st, c, "r" if meth == "with_borrow" else "w", r)
    if meth in ("with_borrow", "with_borrow_mut"): return e.call_value(st, c.args[1], [r], c)
    if meth == "set": e.store(st, r, c.args[1]); return [(st, UNIT)]
    if meth == "replace": old = e.load(st, r); e.store(st, r, c.args[1]); return [(st, old)]
    if meth == "get": return [(st, e.load(st, r))]
    if meth == "take":
        old = e.load(st, r); e.store(st, r, default_of(e, st, c.destty)); return [(st, old)]
    return None

# ----- thread pool
@prefix("command_executor::thread_pool::ThreadPool::", "command_executor::thread_pool_builder::")
def m_pool(e, st, c):
    meth = c.defn.split("::")[-1]
    st = st.copy()
    if "builder" in c.defn:
        if meth == "new": return [(st, mk("pool", c.ctx))]
        if meth == "build":
            v = c.args[0] if c.args[0].op != "ref" else e.load(st, c.args[0])
            e.event(st, "pool_build", c, v)
            return e.fallible(st, c, "ThreadPoolBuilder::build", okval=v)
        old = c.args[0]
        return [(st, mk("poolcfg", old, meth, *[e.snap(st, a) for a in c.args[1:]]))]
    pool = deep(e, st, c.args[0])
    if meth == "submit":
        cmd = c.args[1]
        if not hasattr(e, "submitted"): e.submitted = []
        e.submitted.append((st, cmd))
        e.event(st, "submit", c, pool, e.snap(st, cmd, 3))
        return [(st, UNIT)]
    if meth == "in_all_threads":
        e.event(st, "in_all_threads", c, pool, c.args[1])
        return [(st, UNIT)]
    if meth == "set_thread_local":
        n = tls_name(e, c.args[1])
        e.event(st, "set_tls", c, pool, STR(n or "?"), c.args[2])
        return [(st, UNIT)]
    if meth == "shutdown":
        e.event(st, "shutdown", c, pool); return [(st, UNIT)]
    if meth == "join":
        e.event(st, "join", c, pool)
        if getattr(e, "join_hook", None):
            st = st.copy(); e.join_hook(e, st)
        return e.fallible(st, c, "ThreadPool::join", okval=UNIT, args=(pool,))
    return None

# ----- I/O
@model("std::io::Write::write_all", "std::io::Write::write_fmt", "std::io::Write::write")
def m_write(e, st, c):
    st = st.copy()
    w = c.args[0]
    data = deep(e, st, c.args[1])
    if data.op == "fmtargs": data = mkfmt(data.a[0])
    wv = e.load(st, w)
    if is_vec_writer(e, c):
        e.update(st, w, lambda o: catseq(o, data))
        return [(st, OK(UNIT))]
    meth = c.defn.split("::")[-1]
    e.event(st, "write" if meth != "write" else "write_partial", c, w, wv, data)
    outs = e.fallible(st, c, "io::Write::" + meth, okval=UNIT, args=(data,))
    return outs_update(e, outs, w, lambda o: mk("written", strip_io(o), data))
def strip_io(o): return o
def outs_update(e, outs, w, f):
    if e.pureio: return outs
    res = []
    for s, v in outs:
        s = s.copy(); e.update(s, w, f); res.append((s, v))
    return res
def is_vec_writer(e, c):
    t = tyk(e, c.argtys[0])
    n = 0
    while t["k"] == "ref" and n < 4: t = tyk(e, t["elem"]); n += 1
    return t.get("adt") in ("std::vec::Vec", "std::string::String")
@model("std::io::Write::flush", "std::fs::File::sync_all", "std::fs::File::sync_data")
def m_flush(e, st, c):
    st = st.copy()
    if is_vec_writer(e, c): return [(st, OK(UNIT))]
    e.event(st, "flush", c, c.args[0], e.load(st, c.args[0]))
    return outs_update(e, e.fallible(st, c, "io::Write::flush", okval=UNIT), c.args[0], lambda o: mk("flushed", o)) if c.defn.endswith("::flush") else e.fallible(st, c, c.defn, okval=UNIT)
@model("std::fs::File::create", "std::fs::File::open", "std::fs::File::create_new", "std::fs::OpenOptions::open")
def m_open(e, st, c):
    st = st.copy()
    p = e.snap(st, c.args[-1])
    meth = c.defn.split("::")[-1]
    if len(c.args) == 2: meth = open_mode(deep(e, st, c.args[0]))
    e.event(st, "file_" + meth, c, p)
    return e.fallible(st, c, "File::" + meth, okval=mk("file", STR(meth), p, c.ctx), args=(p,))
@model("std::fs::OpenOptions::new", "std::fs::File::options")
def m_opts(e, st, c): return mk("openopts", ())
@prefix("std::fs::OpenOptions::", "std::os::unix::fs::OpenOptionsExt::")
def m_optset(e, st, c):
    meth = c.defn.split("::")[-1]
    if len(c.args) != 2: return None
    st = st.copy(); v = deep(e, st, c.args[1])
    e.update(st, c.args[0], lambda o: mk("openopts", tuple(x for x in o.a[0] if x[0] != meth) + ((meth, v),)) if o.op == "openopts" else mk("openopts", (("unknown", UNIT),)))
    return [(st, c.args[0])]
def open_mode(o):
    """what opening a file with these options amounts to"""
    if o.op != "openopts": return "modify"
    d = dict(o.a[0])
    def on(n): return n in d and d[n] is not FALSE
    def sure(n): return d.get(n) is TRUE
    if "unknown" in d: return "modify"
    if not any(on(n) for n in ("write", "append", "truncate", "create", "create_new")): return "open"
    if sure("create_new"): return "create_new"
    if sure("write") and sure("truncate") and sure("create") and not on("append") and not on("create_new"): return "create"
    return "modify"
@model("std::io::Read::read_exact", "std::io::Read::read_to_end", "std::io::Read::read_to_string", "std::io::Read::read", "std::io::BufRead::read_line", "std::io::BufRead::read_until")
def m_read(e, st, c):
    st = st.copy()
    meth = c.defn.split("::")[-1]
    src = e.load(st, c.args[0])
    bi = 1 if meth != "read_until" else 2
    old = e.load(st, c.args[bi])
    data = mk("readdata", meth, src, c.ctx, seqlen(old) if meth in ("read_exact", "read") else UNIT)
    e.event(st, "read", c, STR(meth), c.args[0], src, data)
    outs = e.fallible(st, c, "io::Read::" + meth, okval=mk("nread", data) if meth != "read_exact" else UNIT, args=(src,))
    res = []
    for s, v in outs:
        s = s.copy()
        e.store(s, c.args[bi], data if meth in ("read_exact", "read") else CAT(old, data) if old is not STR("") else data)
        e.update(s, c.args[0], lambda o: mk("consumed", o, data))
        res.append((s, v))
    return res
@model("std::io::Seek::seek", "std::io::Seek::stream_position", "std::io::Seek::seek_relative")
def m_seek(e, st, c):
    st = st.copy()
    meth = c.defn.split("::")[-1]
    src = e.load(st, c.args[0])
    if meth == "stream_position":
        return e.fallible(st, c, "io::Seek::stream_position", okval=fn("streampos", src))
    to = e.snap(st, c.args[1])
    e.event(st, "seek", c, src, to)
    outs = e.fallible(st, c, "io::Seek::seek", okval=fn("seekpos", src, to), args=(src, to))
    return outs_update(e, outs, c.args[0], lambda o: mk("sought", o, to, STR(meth)))
@model("std::fs::create_dir_all", "std::fs::read", "std::fs::write", "std::fs::remove_file", "std::fs::remove_dir_all", "std::fs::rename", "std::fs::metadata", "std::fs::read_to_string", "std::fs::create_dir",
       "std::fs::copy", "std::fs::hard_link", "std::fs::soft_link", "std::os::unix::fs::symlink", "std::fs::remove_dir", "std::fs::set_permissions", "std::fs::read_dir", "std::fs::canonicalize", "std::fs::read_link", "std::fs::symlink_metadata", "std::fs::exists")
def m_fs(e, st, c):
    st = st.copy()
    meth = c.defn.split("::")[-1]
    a = tuple(e.snap(st, x) for x in c.args)
    e.event(st, "fs_" + meth, c, *a)
    return e.fallible(st, c, "fs::" + meth, okval=UNIT if meth in ("create_dir_all", "write", "remove_file", "remove_dir", "remove_dir_all", "create_dir", "rename", "hard_link", "soft_link", "symlink", "set_permissions") else mk("fsval", meth, a), args=a)
@model("std::fs::File::metadata")
def m_fmeta(e, st, c):
    f = deep(e, st, e.load(st, c.args[0]))
    while f.op in ("sought", "consumed", "flushed"): f = f.a[0]
    return e.fallible(st, c, "std::fs::File::metadata", okval=fn("filemeta", f))
@model("std::fs::Metadata::len")
def m_flen(e, st, c):
    m = deep(e, st, e.load(st, c.args[0]))
    return fn("filelen", m.a[1][0]) if m.op == "fn" and m.a[0] == "filemeta" else fn("metalen", m)
@model("std::path::Path::join", "std::path::PathBuf::join")
def m_pjoin(e, st, c): return fn("pathjoin", deep(e, st, c.args[0]), deep(e, st, c.args[1]))
@model("std::path::Path::with_extension")
def m_pext(e, st, c): return fn("pathext", deep(e, st, c.args[0]), deep(e, st, c.args[1]))
@model("std::path::Path::with_file_name")
def m_pname(e, st, c): return fn("pathname", deep(e, st, c.args[0]), deep(e, st, c.args[1]))
@model("std::path::Path::parent")
def m_pparent(e, st, c):
    p = deep(e, st, c.args[0]); v = fn("pathparent", p); d = mk("discr", mk("has_parent", p))
    return sel([(frozenset([(d, 1, True)]), SOME(e.ref_to(v))), (frozenset([(d, 0, True)]), NONE)])
@model("std::process::Command::new")
def m_process(e, st, c):
    st = st.copy(); a = e.snap(st, c.args[0])
    e.event(st, "process", c, a); return [(st, mk("process", a))]
@model("std::path::PathBuf::push")
def m_ppush(e, st, c):
    st = st.copy(); b = deep(e, st, c.args[1])
    e.update(st, c.args[0], lambda o: fn("pathjoin", o, b)); return [(st, UNIT)]
@model("std::io::BufWriter::<W>::with_capacity", "std::io::BufReader::<R>::with_capacity", "std::io::LineWriter::<W>::new")
def m_bufw(e, st, c): return c.args[-1]
@model("std::io::BufWriter::<W>::get_ref", "std::io::BufWriter::<W>::get_mut", "std::io::Cursor::<T>::get_ref")
def m_getref(e, st, c): return c.args[0]
@model("std::io::Cursor::<T>::into_inner")
def m_curinner(e, st, c): return c.args[0]

# ----- prost
@model("prost::Message::encode_to_vec", "prost::message::Message::encode_to_vec")
def m_enc(e, st, c):
    st = st.copy()
    v = e.load(st, c.args[0])
    t = tyk(e, tyk(e, c.argtys[0]).get("elem"))["s"] if c.argtys[0] is not None else "?"
    r = fn("encoded", STR(t), v)
    e.event(st, "encode", c, STR(t), v)
    return [(st, r)]
@model("prost::Message::encode", "prost::message::Message::encode")
def m_encode(e, st, c):
    st = st.copy()
    v = e.load(st, c.args[0])
    t = tyk(e, tyk(e, c.argtys[0]).get("elem"))["s"]
    r = fn("encoded", STR(t), v)
    e.event(st, "encode", c, STR(t), v)
    e.update(st, c.args[1], lambda o: catseq(o, r))
    return e.fallible(st, c, "prost::encode", okval=UNIT)
@model("prost::Message::encoded_len", "prost::message::Message::encoded_len")
def m_enclen(e, st, c):
    v = e.load(st, c.args[0])
    t = tyk(e, tyk(e, c.argtys[0]).get("elem"))["s"]
    return fn("encoded_len", STR(t), v)
@model("prost::Message::decode", "prost::message::Message::decode", "prost::Message::decode_length_delimited")
def m_decode(e, st, c):
    st = st.copy()
    buf = deep(e, st, c.args[0])
    t = tyk(e, c.destty)
    n = tyk(e, t["args"][0])["s"] if t.get("adt") == "std::result::Result" else "?"
    if buf.op == "ref": buf = deep(e, st, buf)
    v = mk("decoded_delimited" if "delimited" in c.defn else "decoded", n, buf)
    e.event(st, "decode", c, STR(n), buf)
    return e.fallible(st, c, "prost::decode", okval=v, args=(STR(n), buf))

# ----- zlib
@prefix("flate2::")
def m_flate(e, st, c):
    d = c.defn
    st = st.copy()
    meth = d.split("::")[-1]
    if "Encoder" in d:
        if meth == "new": return [(st, mk("zenc", c.args[0], c.args[1]))]
        if meth in ("finish", "flush_finish"):
            return e.fallible(st, c, "ZlibEncoder::finish", okval=fn("zlib", c.args[0] if c.args[0].op != "ref" else e.load(st, c.args[0])))
    if "Decoder" in d:
        if meth == "new": return [(st, fn("zdec", deep(e, st, c.args[0])))]
    if "Compression" in d: return [(st, fn("Compression::" + meth, *c.args))]
    return None

# ----- others with plain provenance semantics
@prefix("escape_string::escape")
def m_escape(e, st, c): return e.ref_to(fn("escape_string", deep(e, st, c.args[0])))
@prefix("unescape::unescape")
def m_unescape(e, st, c):
    v = deep(e, st, c.args[0])
    t = mk("unescape_opt", v)
    d = mk("discr", t)
    return sel([(frozenset([(d, 1, True)]), SOME(fn("unescape", v))), (frozenset([(d, 0, True)]), NONE)])
@model("std::borrow::Cow::<'_, B>::to_string", "std::borrow::Cow::<'_, B>::into_owned")
def m_cow(e, st, c): return deep(e, st, c.args[0])
@prefix("chrono::")
def m_chrono(e, st, c):
    short = re.sub(r"::<[^>]*>", "", c.defn).replace("chrono::", "").split("::")
    nm = ".".join(short[-2:])
    args = [deep(e, st, a) for a in c.args]
    t = tyk(e, c.destty)
    v = fn("chrono." + nm, *args)
    if t.get("adt") == "std::option::Option":
        d = mk("discr", v)
        return sel([(frozenset([(d, 1, True)]), SOME(v)), (frozenset([(d, 0, True)]), NONE)])
    if t.get("adt") == "std::result::Result":
        d = mk("discr", v)
        return sel([(frozenset([(d, 0, True)]), OK(v)), (frozenset([(d, 1, True)]), ERR(fn("chronoerr", v)))])
    return v
@prefix("num_cpus::")
def m_ncpu(e, st, c): return mk("sym", "num_cpus", 0)
@prefix("transient_btree_index::btree::BtreeIndex::<K, V>::")
def m_btree(e, st, c):
    meth = c.defn.split("::")[-1]
    st = st.copy()
    if meth == "with_capacity": return e.fallible(st, c, "BtreeIndex::with_capacity", okval=EMPTY)
    m = e.load(st, c.args[0])
    if meth == "insert":
        k = e.snap(st, c.args[1]); v = c.args[2]
        e.event(st, "index_insert", c, c.args[0], k, v)
        outs = e.fallible(st, c, "BtreeIndex::insert", okval=mk("previdx", m, k))
        res = []
        for s1, x in outs:
            s1 = s1.copy(); e.update(s1, c.args[0], lambda o: e.map_insert(o, k, v)); res.append((s1, x))
        return res
    if meth == "get":
        k = deep(e, st, c.args[1]); k = e.snap(st, k)
        has = maphas(m, k)
        return e.fallible(st, c, "BtreeIndex::get", okval=boolsel(has, SOME(proj_key(m, k)), NONE))
    if meth == "contains_key":
        k = e.snap(st, deep(e, st, c.args[1]))
        return e.fallible(st, c, "BtreeIndex::contains_key", okval=maphas(m, k))
    if meth == "range":
        return e.fallible(st, c, "BtreeIndex::range", okval=mk("iter", "idxrange", m if "RangeFull" in tyk(e, c.argtys[1])["s"] else fn("subrange", m, e.snap(st, c.args[1])), e.snap(st, c.args[1]), INT(0)))
    return None
_old_next = it_next
def it_next2(e, st, it, c):
    if it.a[0] == "idxrange":
        m, rng, cur = it.a[1:]
        k = mk("mapkey", m, cur)
        t = mk("idxitem", m, cur)
        d = mk("discr", t)
        if e.nofail: return split(e, st, mk("has", m, cur), mk("iter", "idxrange", m, rng, adv(cur)), it, OK(TUP(k, proj_key(m, k))))
        item = sel([(frozenset([(d, 0, True)]), OK(TUP(k, proj_key(m, k)))), (frozenset([(d, 1, True)]), ERR(fn("idxerr", t)))])
        return split(e, st, mk("has", m, cur), mk("iter", "idxrange", m, rng, adv(cur)), it, item)
    return _old_next(e, st, it, c)
it_next = it_next2

def make_engine(prog, **opts):
    e = Engine(prog, dict(M), opts)
    e.prefix_models = PREFIX
    return e

# ---- text_file_sort: a sorter is a value (inputs, output, options); sorting is an event
@model("text_file_sort::sort::Sort::new")
def m_sort_new(e, st, c):
    st = st.copy()
    return [(st, mk("fsort", e.snap(st, c.args[0]), e.snap(st, c.args[1]), ()))]
@prefix("text_file_sort::sort::Sort::with_", "text_file_sort::sort::Sort::add_")
def m_sort_with(e, st, c):
    st = st.copy(); meth = c.defn.split("::")[-1]
    args = tuple(e.snap(st, a) for a in c.args[1:])
    def upd(o):
        if o.op != "fsort": return mk("fsort", o, UNIT, ((meth, args),))
        return mk("fsort", o.a[0], o.a[1], tuple(x for x in o.a[2] if x[0] != meth or meth.startswith("add_")) + ((meth, args),))
    e.update(st, c.args[0], upd)
    return [(st, UNIT)]
@model("text_file_sort::sort::Sort::sort", "text_file_sort::sort::Sort::merge")
def m_sort_sort(e, st, c):
    st = st.copy(); v = e.snap(st, c.args[0])
    e.event(st, "file_sort", c, v, STR(c.defn.split("::")[-1]))
    return e.fallible(st, c, c.defn, okval=UNIT, args=(v,))
FIELD = "text_file_sort::field::Field"
@model("text_file_sort::field::Field::new")
def m_field_new(e, st, c):
    return [(st, ADT(FIELD, 0, (STR(""), deep(e, st, c.args[0]), deep(e, st, c.args[1]), FALSE, FALSE, FALSE)))]
@prefix("text_file_sort::field::Field::with_")
def m_field_with(e, st, c):
    names = ["name", "index", "field_type", "ignore_blanks", "ignore_case", "random"]
    meth = c.defn.split("::with_")[-1].replace("str_name", "name")
    v = c.args[0]
    if v.op != "adt" or meth not in names: return None
    i = names.index(meth)
    return [(st, ADT(FIELD, 0, tuple(deep(e, st, c.args[1]) if k == i else x for k, x in enumerate(v.a[2]))))]
@model("regex::regex::string::Regex::new", "regex::Regex::new")
def m_regex_new(e, st, c):
    v = deep(e, st, c.args[0])
    if v.op == "str" and regex_ok(v.a[0]): return [(st, OK(fn("regex", v)))]
    return e.fallible(st, c, c.defn, okval=fn("regex", v), args=(v,))
def regex_ok(s):
    import re
    try: re.compile(s); return True
    except re.error: return False
