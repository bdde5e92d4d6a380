"""Files are created, changed and removed only where the caller said (C39)."""
import re, json
from rulelib import *
import rules_pw as pw
import rules_faults as flt
import rules_apird as ard
import rules_apidb as adb
from rules_pbf import walk

PATHS = {                                   # operation -> positions of the paths it creates, changes or removes
    "file_create": (0,), "file_create_new": (0,), "file_modify": (0,),
    "fs_write": (0,), "fs_create_dir": (0,), "fs_create_dir_all": (0,), "fs_remove_file": (0,), "fs_remove_dir": (0,), "fs_remove_dir_all": (0,),
    "fs_rename": (0, 1), "fs_copy": (1,), "fs_hard_link": (1,), "fs_soft_link": (1,), "fs_symlink": (1,), "fs_set_permissions": (0,),
}
MUTATES = re.compile(r"^std::fs::(File::(create|create_new)|OpenOptions::open|write|create_dir|create_dir_all|remove_\w+|rename|copy|hard_link|soft_link|set_permissions)$|^std::os::unix::fs::symlink$|^text_file_sort::sort::Sort::(sort|merge)$|^std::process::Command::new$")
KEEPS = ("fs_create_dir", "fs_create_dir_all")      # harmless to what a folder holds

def strip(t):
    while True:
        if t.op == "ref" and t.a[0][0] == "V" and not t.a[1]: t = t.a[0][1]
        elif t.op == "deref": t = t.a[0]
        elif t.op == "fn" and t.a[0] in ("as_path", "to_path_buf") : t = t.a[1][0]
        else: return t
def name_of(p, t):
    """text of a file name, when it is a constant (also one looked up in a table embedded in the program)"""
    t = strip(t)
    if t.op == "str": return t.a[0]
    if t.op == "fmt":
        r = ""
        for x in t.a[0]:
            y = x if isinstance(x, str) else name_of(p, x[2]) if isinstance(x, tuple) and isinstance(x[2], T) else None
            if y is None: return None
            r += y
        return r
    ks = {z.a[0] for z in walk(t) if z.op == "str"}; ms = {z for z in walk(t) if z.op in ("static", "bytes")}
    if len(ms) == 1 and ks:
        try: d = json.loads(adb.static_content(p, next(iter(ms))))
        except Exception: return None
        vs = {d[k] for k in ks if isinstance(d.get(k), str)}
        if len(vs) == 1: return vs.pop()
    return None
def inside(s): return s is not None and not s.startswith("/") and ".." not in s.split("/") and "\0" not in s

def below(p, t, base):
    """file names that lead from the folder base to the path; None when it may lie elsewhere"""
    t = strip(t)
    if t is strip(base): return ()
    if t.op == "sel":
        rs = {below(p, x, base) for g, x in t.a[0]}
        return None if None in rs or not rs else max(rs, key=len)
    if t.op == "fn" and t.a[0] in ("pathjoin", "pathext", "pathname"):
        r = below(p, t.a[1][0], base); n = name_of(p, t.a[1][1])
        if r is None or not inside(n): return None
        if t.a[0] == "pathjoin": return r + (n,)
        if not r: return None
        return r[:-1] + ((r[-1] + "." + n) if t.a[0] == "pathext" else n,)
    if t.op == "fn" and t.a[0] == "pathparent":
        r = below(p, t.a[1][0], base)
        return r[:-1] if r and "/" not in r[-1] else None
    if t.op == "fmt" and t.a[0] and isinstance(t.a[0][0], tuple):
        r = below(p, t.a[0][0][2], base); n = name_of(p, mk("fmt", tuple(t.a[0][1:])))
        return r + (n[1:],) if r is not None and n and n.startswith("/") and inside(n[1:]) else None
    return None

def effects(log):
    """[(event, what it does, path or None)]"""
    for x in log:
        k = x["kind"]
        if k in PATHS:
            for i in PATHS[k]: yield x, k.split("_", 1)[1], x["args"][i]
        elif k == "process": yield x, "start a program", None
        elif k == "file_sort":
            v = x["args"][0]
            if v.op != "fsort": yield x, "sort", None; continue
            yield x, "sort into", v.a[1]
            tmp = [a for n, a in v.a[2] if n == "with_tmp_dir"]
            yield x, "sort in pieces in", tmp[-1][0] if tmp else None
            if x["args"][1] is STR("merge"):
                l = I.seq_items(strip(v.a[0]))
                for y in l if l is not None else [None]: yield x, "merge and remove", y

class Entry:
    """one entry point together with all that it hands to other threads"""
    def __init__(self, c, k, base=None, args=None, st=None):
        def setup(A):
            pw.setup(A); e = A.e; e.orpc = False; depth = [0]
            def everywhere(e, s, cc):
                s = s.copy(); e.event(s, "in_all_threads", cc, cc.args[0], cc.args[1])
                return [(s2, UNIT) for s2, v in e.call_value(s, cc.args[1], [], cc)]
            def submitted(e, s, cc):
                for g, x in alts(cc.args[1], s.pc):
                    n = 0
                    while x.op == "adt" and x.a[0] == "box" and n < 3: x = x.a[2][0]; n += 1
                    y = e.load(s, x) if x.op == "ref" else x
                    ks = e.p.find("<%s as command_executor::command::Command>::execute" % y.a[0]) if y.op == "adt" else []
                    for kk in ks[:1]:
                        depth[0] += 1
                        if depth[0] <= 4: e.run_fn(kk, [x if x.op == "ref" else e.ref_to(x)], s.copy(), e.ctx(cc.ctx, "thread", kk))
                        depth[0] -= 1
                s = s.copy(); e.event(s, "submit", cc, cc.args[0], cc.args[1])
                return [(s, UNIT)]
            e.intercepts["command_executor::thread_pool::ThreadPool::in_all_threads"] = everywhere
            e.intercepts["command_executor::thread_pool::ThreadPool::submit"] = submitted
        self.A = Ana(c, k, args=args, st=st, setup=setup)

def path_args(p, k):
    b = p.bodies[k]["body"]
    return [i for i in range(1, b["arg_count"] + 1) if "std::path::Path" in p.tys(b["locals"][i]["ty"])]
def takes_self(p, k, ty):
    b = p.bodies[k]["body"]
    return b["arg_count"] > 0 and re.match(r"(&(mut )?)?%s(<|$)" % re.escape(ty), re.sub(r"&'\S+ ", "&", p.tys(b["locals"][1]["ty"])))
def makers(p, ty):
    """public functions that make a value of a type from scratch"""
    out = []
    for k in flt.entries(p):
        if flt.self_type(k) != ty or p.bodies[k]["def"] not in p.public or " as " in k: continue
        r = p.tys(p.bodies[k]["body"]["locals"][0]["ty"])
        if not takes_self(p, k, ty) and (r == ty or r.startswith("std::result::Result<%s," % ty)): out.append(k)
    return out

# where an object may create files: the folder or file given to the function that makes it
PBF = "osm_io::osm::pbf::"; API = "osm_io::osm::apidb_dump::"
OUTPUT = {PBF + "writer::Writer": "file", PBF + "parallel_writer::ParallelWriter": "file", API + "write::writer::Writer": "folder"}
READS = API + "read::reader::Reader"

def reach(p):
    """functions from which a file could be created, changed or removed"""
    calls = flt.calls_of(p)
    direct = {k for k, b in p.bodies.items() if b.get("body") and is_crate(k) and any(MUTATES.search(ci.get("def") or "") for ci in b["calls"].values())}
    rev = {}
    for k, xs in calls.items():
        if not is_crate(k): continue
        for x in xs: rev.setdefault(x, set()).add(k)
    for k in p.bodies:
        if "{closure" in k: rev.setdefault(k, set()).add(k.split("::{closure")[0])
    for k in p.bodies:                                   # work handed to a pool
        m = re.match(r"<(osm_io::.*) as command_executor::command::Command>::execute$", k)
        if m: rev.setdefault(k, set()).update(x for x in p.bodies if x.startswith(m.group(1) + "::"))
    todo = list(direct); out = set(direct)
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in out: out.add(y); todo.append(y)
    return direct, out
def is_crate(k): return k.startswith("osm_io::osm::") or k.startswith("<osm_io::osm::")

def run_files(c):
    c.rule("in every public entry point, including the work it hands to other threads, each operation that creates, changes, renames or removes a file has a path that is, in terms of the arguments, the output file or lies inside the output folder or the temporary folder; names below a folder are constants without '..'")
    c.rule("output files are created with their previous content removed")
    p = c.prog; direct, may = reach(p)
    pub = [k for k in flt.entries(p) if p.bodies[k]["def"] in p.public]
    done = set(); n = [0]
    made = {}; gone = []
    def judge(k, A, log, base, what, subst=None):
        names = {}; first = None
        for x, op, path in effects(log):
            source = op == "rename" and first is not x; first = x
            n[0] += 1; done.add((x["fn"], x["line"]))
            key = "%s.%s/%s" % (flt.short(k), flt.short(x["fn"] or "?"), op)
            if path is not None:
                path = A.F.N(path)
                if subst: path = subst(path)
            r = below(p, path, base) if path is not None and base is not None else None
            ok = r is not None and (what == "folder" or not r)
            where = sh(path, 6) if path is not None else "the folder for temporary files of the system" if "pieces" in op else "?"
            c.ob("where." + key, ok, "%s: %s in %s uses %s, which is not %s" % (flt.short(k), op, flt.short(x["fn"] or "?"), where, "inside the folder given for it" if what == "folder" else "the file given for it" if base is not None else "something the caller asked to change"))
            if ok and (op.startswith("remove") or source): gone.append((flt.self_type(k), flt.short(k), key, r))
            elif ok and op != "remove": made.setdefault(flt.self_type(k), set()).add(r)
            if ok and op in ("create", "create_new", "write", "sort into", "modify"):
                names.setdefault(r, set()).add(x["ctx"])
            if what and op in ("modify", "create_new", "create") and not k.startswith(READS):
                c.ob("fresh." + key, op == "create", "%s: the output is opened such that %s" % (flt.short(k), "older content may remain" if op == "modify" else "an existing file is an error"))
        for r, xs in names.items():
            c.ob("once.%s/%s" % (flt.short(k), "/".join(r)), len(xs) == 1, "%s creates %s %d times: what was written in between is lost" % (flt.short(k), "/".join(r) or "its file", len(xs)))
    for k in pub:
        def one(k=k):
            ty = flt.self_type(k)
            if k not in may and not (ty in OUTPUT and k in makers(p, ty)):
                c.ob("entry." + flt.short(k), True, ""); return
            if k.startswith(READS + "::") and ty == READS and k in makers(p, ty): return
            what = OUTPUT.get(ty)
            if what and not takes_self(p, k, ty):
                pa = path_args(p, k)
                if k in makers(p, ty) and len(pa) != 1: raise Finding("%s has %d paths" % (flt.short(k), len(pa)))
                E_ = Entry(c, k); A = E_.A
                judge(k, A, A.e.log, A.args[pa[0] - 1] if pa else None, what)
                c.ob("entry." + flt.short(k), True, ""); return
            if what:
                ms = makers(p, ty)
                if not ms: raise Finding("nothing makes a %s" % ty)
                for m in ms:
                    M = Entry(c, m); A = M.A; pa = path_args(p, m)
                    if len(pa) != 1: raise Finding("%s has %d paths" % (flt.short(m), len(pa)))
                    vs = [(s, g, x) for s, v in A.outs for g, x in A.F.expand(v) if not (x.op == "adt" and x.a[0] == "std::result::Result" and x.a[1] == 1)]
                    if not vs: raise Finding("%s never succeeds" % flt.short(m))
                    for s, g, x in vs:
                        if x.op == "adt" and x.a[0] == "std::result::Result": x = x.a[2][0]
                        s2 = s.copy(); s2.pc = s.pc | g
                        b = p.bodies[k]["body"]; byref = p.ty(b["locals"][1]["ty"])["k"] == "ref"
                        n0 = len(A.e.log)
                        A.e.run_fn(k, [A.e.ref_to(x) if byref else x] + sym_args(p, k)[1:], s2, A.e.ctx(None, "method", k, x))
                        judge(k, A, A.e.log[n0:], A.args[pa[0] - 1], what); c.use_engine(A.e)
                c.ob("entry." + flt.short(k), True, ""); return
            E_ = Entry(c, k); judge(k, E_.A, E_.A.e.log, None, None)
            c.ob("entry." + flt.short(k), True, "")
        c.guard("entry." + flt.short(k), one)
    c.guard("dump", dump_reader, c, judge)
    for ty, k, key, r in gone:
        c.ob("kept." + key, r and r in made.get(ty, ()), "%s removes %s, which it has not made" % (k, "/".join(r) if r else "what the caller named"))
    # nothing is left unexamined
    seen = {fn_ for fn_, l in done}
    live = set(); todo = list(pub) + [k for k in p.bodies if k.endswith("Command>::execute") and is_crate(k)]
    calls = flt.calls_of(p)
    while todo:
        k = todo.pop()
        if k in live: continue
        live.add(k); todo += [x for x in calls.get(k, ()) if is_crate(x)]
        todo += [x for x in p.bodies if x.startswith(k + "::{closure")]
    for k in sorted(direct & live):
        for b, ci in p.bodies[k]["calls"].items():
            if MUTATES.search(ci.get("def") or "") and not ci["def"].endswith("OpenOptions::open"):
                l = p.bodies[k]["lines"].get(b)
                c.ob("covered.%s/%s" % (flt.short(k), ci["def"].split("::")[-1]), (k, l) in done, "%s: %s was not reached from an entry point" % (flt.short(k), ci["def"]))
    c.metrics["operations"] = n[0]; c.metrics["entry_points"] = len(pub)

def dump_reader(c, judge):
    """the dump reader sorts into the folder for temporary files; a dump that is not what it seems changes nothing"""
    p = c.prog
    for nm, fails in [(n, False) for n in ard.SCHEMA] + [("public.nodes", True), ("../other/x", False), ("public./../../x", False)]:
        def one(nm=nm, fails=fails):
            o = ard.Opened(c, nm, fails); A = o.A
            pa = path_args(p, A.key)
            if len(pa) != 2: raise Finding("Reader::new takes %d paths" % len(pa))
            base = A.args[pa[1] - 1]
            def rule(t):
                if t.op == "phi": return ard.copied(o, t)
                return None
            known = nm in ard.SCHEMA
            if known and len(o.entries) != 1: raise Finding("a table of contents entry for %s adds %d tables" % (nm, len(o.entries)))
            phs = {e[0] for e in o.entries}
            vals = [ard.rewrite(e[3], rule) for e in o.entries] or [None]
            for v in vals:
                def of(t):
                    if t.op == "mapval" and t.a[0] in phs and v is not None: return v
                    return None
                log = A.e.log
                if v is None:                              # no table: the loop over the tables does nothing
                    ms = {ph for ph, i in A.e.phis.items() if i["init"] is EMPTY and not any(x.op != "phi" for q in i["step"] for h, x in o.F.expand(q))}
                    log = [x for x in log if not any(y.op == "mapval" and y.a[0] in ms for z in x["args"] if isinstance(z, T) for y in walk(z))]
                judge(A.key, A, log, base, "folder", lambda t: ard.rewrite(t, of))
            c.ob("table." + nm + (" failing" if fails else ""), True, "")
        c.guard("table." + nm, one)
