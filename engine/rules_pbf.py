"""Blob framing, compression, header block (PBF file level)."""
from rulelib import *
from fractions import Fraction

FB = "osm_io::osm::pbf::file_block::FileBlock"
DATA = "osm_io::osmpbf::blob::Data"
BLOB = PB + "Blob"
BLOBHEADER = PB + "BlobHeader"

# ---------- positions in a byte stream
def position(F, t):
    """absolute offset of a stream value as a polynomial; the unknown start of an input stream is an atom"""
    if t.op == "flushed": return position(F, t.a[0])
    if t.op == "consumed":
        d = t.a[1]
        if d.op == "readdata" and d.a[0] == "read_exact": return padd(position(F, t.a[0]), F.poly(d.a[3]))
        return padd(position(F, t.a[0]), {(mk("nread", d),): Fraction(1)})
    if t.op == "written": return padd(position(F, t.a[0]), F.poly(mk("len", t.a[1])))
    if t.op == "sought":
        to = t.a[1]
        if t.a[2].a[0] == "seek_relative": return padd(position(F, t.a[0]), off(F, to))
        if to.op == "adt" and to.a[1] == 0: return off(F, to.a[2][0])
        if to.op == "adt" and to.a[1] == 2: return padd(position(F, t.a[0]), off(F, to.a[2][0]))
    if t.op == "file": return {}
    return {(mk("pos0", t),): Fraction(1)}

def off(F, t):
    """polynomial of an offset, with stream positions resolved"""
    out = {}
    for m, c in F.poly(t).items():
        p = {(): c}
        for a in m:
            if a.op == "fn" and a.a[0] == "streampos": q = position(F, a.a[1][0])
            elif a.op == "fn" and a.a[0] == "seekpos": q = position(F, mk("sought", a.a[1][0], a.a[1][1], STR("seek")))
            elif a.op == "fn" and a.a[0] == "narrow": q = {(a,): Fraction(1)}
            else: q = {(a,): Fraction(1)}
            p = pmul(p, q)
        out = padd(out, p)
    return out

def reval(F, p, D, new):
    """polynomial p over the fields of D, evaluated on the object value `new`"""
    out = {}
    for m, c in p.items():
        q = {(): c}
        for a in m:
            if a.op == "pos0": r = position(F, F.N(F.subst(a.a[0], D, new)))
            else:
                b = F.N(F.subst(a, D, new))
                r = off(F, b)
            q = pmul(q, r)
        out = padd(out, q)
    return out

def shp(F, p): return sh(F.poly_t(p), 6)

def io_only(F, g):
    """literals of g other than 'a fallible call succeeded'"""
    out = []
    for t, k, p in F.NG(g):
        if t.op == "discr" and t.a[0].op in ("call", "tryconv"): continue
        out.append((t, k, p))
    return out

def call_failed(F, g):
    """the path was taken because a fallible call failed, or because a number in the file is out of range"""
    return any(lit_failed(l) for l in F.NG(g))
def lit_failed(l):
    t, k, p = l
    if t.op == "discr" and t.a[0].op in ("call", "tryconv"): return (k == 1) == bool(p)
    if t.op == "bin" and t.a[0] in ("Lt", "Ge", "Gt", "Le") and t.op == "bin":
        o, a, b = t.a[0], t.a[1], t.a[2]
        yes = bool(k) == bool(p)
        z = INT(0)
        if b is z and o in ("Lt", "Ge"): return (o == "Lt") == yes and from_file(a)
        if a is z and o in ("Gt", "Le"): return (o == "Gt") == yes and from_file(b)
    return False
def from_file(x):
    """a number the file states"""
    return unnarrow(x, 8).op == "fld" and any(y.op in ("decoded", "readdata") for y in walk(x))

def final_self(A, s): return A.e.load(s, A.args[0]) if A.args[0].op == "ref" else A.e.read(s, ("X", A.args[0]))

def be_len(F, t):
    """n when t is the 4 byte big-endian encoding of n"""
    t = F.N(t)
    if t.op == "fn" and t.a[0] == "be_bytes" and t.a[1][0].a[0] in ("i32", "u32"):
        return unnarrow(t.a[1][1], 16)
    return None

# ---------- reading
def run_framing(c):
    p = c.prog
    c.rule("reading: the blob iterator's state denotes the offset of the next blob; it starts at 0, the next blob is parsed exactly there, and the state afterwards denotes the first byte after that blob's body")
    c.rule("a data or header block is decoded from exactly the bytes [start, start+length) of the file at its own path, and its kind follows the recorded type")
    c.rule("writing: every block is appended as 4-byte big-endian header length, blob header, blob body, with datasize and raw_size equal to the lengths actually written and the type string of the block's kind")
    c.guard("blob-iterator", blob_iterator, c)
    c.guard("block-read", block_read, c)
    c.guard("block-write", block_write, c)
    c.assumptions += ["seek, read_exact, stream_position and write_all behave as documented by the standard library", "no blob is 2 GiB or larger (lengths are 32-bit in the format)"]

def blob_iterator(c):
    p = c.prog
    A = Ana(c, find1(p, "BlobIterator as std::iter::Iterator>::next"), paths=True); F = A.F
    D = mk("deref", A.args[0])
    DESC = "osm_io::osm::pbf::blob_desc::BlobDesc"
    get = lambda n: find1(p, "pbf::blob_desc::BlobDesc::" + n)
    phi = None
    n = 0; ends = []
    for s, v in A.outs:
        for g, x in alts(v):
            if x is NONE:
                ends.append(g | s.pc)
                continue
            if not (x.op == "adt" and x.a[1] == 1): raise Finding("unrecognised result of the blob iterator: %s" % sh(x))
            n += 1
            d = x.a[2][0]
            def G(nm): return F.N(call(A.e, get(nm), d))
            length, start, t = G("length"), G("start"), G("t")
            atoms = list(F.poly(length))
            dec = unnarrow(length)
            ok = dec.op == "fld" and dec.a[0].op == "decoded" and dec.a[0].a[0] == BLOBHEADER and dec is F.N(field(p, dec.a[0], BLOBHEADER, "datasize"))
            if not c.ob("iter:length", ok, "blob length is %s, expected the datasize of the blob header" % sh(length)): return
            H = dec.a[0]
            c.ob("iter:type", t is F.N(field(p, H, BLOBHEADER, "type")), "blob type is %s" % sh(t))
            hb = H.a[1]
            if not c.ob("iter:header-bytes", hb.op == "readdata" and hb.a[0] == "read_exact", "blob header is decoded from %s" % sh(hb)): return
            n2 = unnarrow(F.N(hb.a[3]), 16)
            okb = n2.op == "fn" and n2.a[0] == "from_be" and n2.a[1][0].a[0] in ("i32", "u32") and n2.a[1][1].op == "readdata" and n2.a[1][1].a[0] == "read_exact" and n2.a[1][1].a[3] is INT(4)
            if not c.ob("iter:header-length", okb, "length of the blob header is %s, expected the big-endian value of a 4 byte read" % sh(n2)): return
            lb = n2.a[1][1]
            phi = position(F, lb.a[1])
            want = padd(phi, {(): Fraction(4)})
            c.ob("iter:header-position", position(F, hb.a[1]) == want, "blob header is read at %s, expected %s" % (shp(F, position(F, hb.a[1])), shp(F, want)))
            end = padd(want, F.poly(n2))
            c.ob("iter:start", off(F, start) == end, "blob body starts at %s, expected %s" % (shp(F, off(F, start)), shp(F, end)))
            nxt = padd(end, F.poly(length))
            self2 = final_self(A, s)
            self2 = restrict(self2, g)
            got = reval(F, phi, D, self2)
            c.ob("iter:advance", got == nxt, "after a blob the iterator stands at %s, expected %s" % (shp(F, got), shp(F, nxt)))
            path = G("path")
            c.ob("iter:path", path.op == "fld" and path.a[0] is D, "blob path is %s" % sh(path))
            pathf = path
    c.ob("iter:some", n > 0, "the blob iterator never yields a blob")
    for g in ends:
        c.ob("iter:reached", call_failed(F, g) or at_end(F, g, phi), "the blob iterator ends although nothing failed: %s" % [showlit(l, 5) for l in io_only(F, g)])
    B = Ana(c, find1(p, "pbf::blob_iterator::BlobIterator::new"))
    for s, v in B.outs:
        for g, x in alts(v):
            if x.op == "adt" and x.a[1] == 1:
                c.ob("iter:new", call_failed(B.F, g | s.pc), "iterator creation fails although nothing failed"); continue
            it = x.a[2][0]
            st = reval(B.F, phi, D, it)
            c.ob("iter:initial", st == {}, "a new blob iterator stands at offset %s" % shp(B.F, st))
            po = B.F.N(B.F.subst(pathf, D, it))
            opened = [ev["args"][0] for ev in B.events("file_open")]
            c.ob("iter:same-file", all(B.F.N(o) is po for o in opened) and len(opened) == 1, "opened %s, blobs refer to %s" % ([sh(o) for o in opened], sh(po)))

def at_end(F, g, phi):
    """the guard says that the next blob would start at (or behind) the end of the file"""
    for t, k, p in F.NG(g):
        if t.op != "bin" or k is not True and k is not False: continue
        for a, b, ok in ((t.a[1], t.a[2], {("Eq", True), ("Ge", True), ("Lt", False)}), (t.a[2], t.a[1], {("Eq", True), ("Le", True), ("Gt", False)})):
            if not (b.op == "fn" and b.a[0] == "filelen"): continue
            if off(F, a) == phi and (t.a[0], bool(k) == bool(p)) in ok: return True
    return False

def restrict(v, g):
    """drop the alternatives of v (and of its fields) excluded by g"""
    if v.op == "sel":
        r = [(h, x) for h, x in v.a[0] if not contradicts(g, h)]
        if len({x for h, x in r}) == 1: return restrict(r[0][1], g)
        return mk("sel", tuple(r))
    if v.op == "adt": return ADT(v.a[0], v.a[1], [restrict(x, g) for x in v.a[2]])
    return v

def block_value(c):
    """Ana of reading one block from a blob description"""
    p = c.prog
    A = Ana(c, find1(p, "pbf::file_block::FileBlock::from_blob_desc"), paths=True)
    return A

def payload_of(c, A, buf, d, pcs):
    """check that buf is the (decompressed) content of the blob described by d; per-variant report"""
    p = c.prog; F = A.F
    seen = {}
    get = lambda n: F.N(call(A.e, find1(p, "pbf::blob_desc::BlobDesc::" + n), d))
    for g, x in alts(buf):
        raw = None
        b = None
        for y in walk(x):
            if y.op == "decoded" and y.a[0] == BLOB: b = y; break
        if b is None: c.fail("payload", "block is decoded from %s, not from its blob" % sh(x)); continue
        body = b.a[1]
        src, n = taken(body)
        exact = src is body.a[1] or all(equal(F, F.NG(pc), (F.poly(mk("nread", body)), F.poly(mk("len", body))), F.poly(get("length"))) for pc in pcs)
        c.ob("payload:whole-body", n is not None and F.N(n) is get("length") and exact, "blob is decoded from %s" % sh(body))
        if body.op == "readdata":
            pos = position(F, src)
            c.ob("payload:offset", pos == off(F, get("start")), "blob is read at %s, expected its own start" % shp(F, pos))
            fl = [y for y in walk(src) if y.op == "file"]
            c.ob("payload:file", len(set(fl)) == 1 and F.N(fl[0].a[1]) is get("path"), "blob is read from %s" % [sh(y) for y in fl])
        data = some(field(p, b, BLOB, "data"))
        names = variants(p, DATA)
        al = allowed_variants(F.NG(g), F.N(data), len(names))
        seen.setdefault(x, []).append((al, g, b, data))
    return seen

def taken(d):
    """(stream, number of bytes) that data was read from: as many as asked for, or up to a limit"""
    if d.op != "readdata": return None, None
    if d.a[0] == "read_exact": return d.a[1], d.a[3]
    x = d.a[1]
    if d.a[0] == "read_to_end" and x.op == "call" and x.a[0] == "std::io::Read::take": return next((y for y in x.a if isinstance(y, tuple) and len(y) == 2), (x, None))
    return x, None
def equal(F, g, xs, n):
    """the literals say that one of xs is n"""
    for t, k, p in g:
        if t.op != "bin" or t.a[0] not in ("Eq", "Ne"): continue
        if ((k is True or k == 1) == bool(p)) != (t.a[0] == "Eq"): continue
        ds = [F.poly(unnarrow(t.a[i], 8) if t.a[i].op != "poly" else t.a[i]) for i in (1, 2)]
        if any(ds[i] == x and ds[1 - i] == n or F.poly(t.a[1]) == padd(x, n, -1) and t.a[2] is INT(0) for x in xs for i in (0, 1)): return True
    return False
def walk(t, seen=None):
    if seen is None: seen = set()
    if t in seen: return
    seen.add(t); yield t
    for y in children(t):
        for z in walk(y, seen): yield z

def block_read(c):
    p = c.prog
    A = block_value(c); F = A.F
    d = mk("deref", A.args[0])
    t = F.N(call(A.e, find1(p, "pbf::blob_desc::BlobDesc::t"), d))
    kinds = variants(p, FB)
    expect = {"OSMHeader": ("Header", PB + "HeaderBlock"), "OSMData": ("Data", PB + "PrimitiveBlock")}
    got = {}
    for s, v in A.outs:
        for g, x in alts(v):
            if not (x.op == "adt" and x.a[1] == 0): continue
            for h, b in alts(x.a[2][0]):
                gg = F.NG(g | h | s.pc)
                if contradicts(g, h): continue
                types = [n for n in expect if any(eqlit(l, k, pol, t, n) for l, k, pol in gg)]
                if len(types) != 1: c.fail("kind", "a block is produced without looking at the recorded type: %s" % [showlit(l, 4) for l in gg][:6]); continue
                if not (b.op == "adt" and kinds[b.a[1]] == expect[types[0]][0]): c.fail("kind." + types[0], "type %s gives %s" % (types[0], sh(b, 3))); continue
                got[types[0]] = b
    for n in expect: c.ob("kind." + n, n in got, "no block is produced for type %s" % n)
    bufs = {}; pcs = {}
    for ev in A.events("decode"):
        bufs.setdefault(ev["args"][0].a[0], []).append(ev["args"][1]); pcs.setdefault(ev["args"][1], []).append(ev["pc"])
    for n, (k, m) in expect.items():
        bs = bufs.get(m, [])
        c.ob("decode." + n, len(bs) > 0, "nothing is decoded as %s" % m)
        for b in dict.fromkeys(bs): payload_of(c, A, b, d, pcs[b])

def eqlit(l, k, pol, t, name):
    if l is t and isinstance(k, T): k = k.a[0]
    if l is t: return bool(pol) and k == name
    return l.op == "bin" and l.a[0] == "Eq" and {l.a[1], l.a[2]} == {t, STR(name)} and (k is True) == bool(pol)

# ---------- writing
def pieces(t, base):
    """[data] appended to the stream value base, or None"""
    out = []
    while t is not base:
        if t.op == "flushed": t = t.a[0]; continue
        if t.op != "written": return None
        out.append(t.a[1]); t = t.a[0]
    out.reverse()
    res = []
    for d in out: res += split_cat(d)
    return res
def split_cat(d):
    if d.op == "cat": return split_cat(d.a[0]) + split_cat(d.a[1])
    if d.op == "empty": return []
    return [d]

def block_write(c):
    p = c.prog
    A = Ana(c, find1(p, "pbf::writer::Writer::write_file_block"), paths=True); F = A.F
    D = mk("deref", A.args[0]); blk = A.args[1]
    c.ob("write:all", not A.events("write_partial"), "a partial write() is used")
    for s, v in A.outs:
        self2 = final_self(A, s)
        for g, x in alts(v):
            if not (x.op == "adt" and x.a[1] == 0): continue
            me = restrict(self2, g)
            w = [(y, b) for y, b in written_roots(me) if b.op == "fld" and b.a[0] is D]
            if not c.ob("write:one-file", len(w) == 1, "write_file_block appends to %d streams" % len(w)): return
            ps = pieces(*w[0])
            if not c.ob("write:pieces", ps is not None and len(ps) == 3, "a block is written as %s" % [sh(x, 3) for x in ps or []]): return
            n, H, B = ps[0], ps[1], ps[2]
            c.ob("write:length-prefix", be_len(F, n) is F.N(mk("len", H)), "the length prefix is %s, expected the 4 byte big-endian length of the blob header" % sh(n))
            if not c.ob("write:header", H.op == "fn" and H.a[0] == "encoded" and H.a[1][0] is STR(BLOBHEADER) and B.op == "fn" and B.a[0] == "encoded" and B.a[1][0] is STR(BLOB), "a block is written as %s, %s" % (sh(H, 3), sh(B, 3))): return
            hv, bv = H.a[1][1], B.a[1][1]
            ds = unnarrow(F.N(field(p, hv, BLOBHEADER, "datasize")))
            c.ob("write:datasize", ds is F.N(mk("len", B)), "datasize is %s, expected the length of the blob body" % sh(ds))
            ty = field(p, hv, BLOBHEADER, "type")
            kd = mk("discr", blk)
            vs = variants(p, FB)
            for h, y in alts(ty):
                al = allowed_variants(F.NG(h | g | s.pc), blk, 2)
                c.ob("write:type", y.op == "str" and len(al) == 1 and {"OSMHeader": "Header", "OSMData": "Data"}.get(y.a[0]) == vs[min(al)], "type is %s for block kinds %s" % (sh(y), [vs[i] for i in al]))
            encs = contents(c, A)
            rs = field(p, bv, BLOB, "raw_size")
            for h, y in alts(rs):
                if y is NONE: continue
                z = unnarrow(F.N(y.a[2][0]))
                ok = z.op == "len" and z.a[0] in encs or all(is_len_of(F, zz, encs) for hh, zz in alts(y.a[2][0]))
                c.ob("write:raw_size", ok, "raw_size is %s, expected the length of the encoded block" % sh(y))

def is_len_of(F, z, encs):
    z = unnarrow(F.N(z))
    return z.op == "len" and all(F.N(x) in encs for g, x in alts(z.a[0]))
def contents(c, A):
    """normal forms of the encoded block contents"""
    out = {}
    for ev in A.events("encode"):
        ty = ev["args"][0].a[0]
        if ty in (PB + "PrimitiveBlock", PB + "HeaderBlock"): out[A.F.N(fn("encoded", STR(ty), ev["args"][1]))] = ty
    return out
def written_roots(t, seen=None):
    """[(stream value, base)] of the stream values inside of an object"""
    if t.op in ("written", "flushed"):
        b = t
        while b.op in ("written", "flushed"): b = b.a[0]
        return [(t, b)]
    out = []
    if t.op == "adt":
        for x in t.a[2]: out += written_roots(x)
    if t.op == "sel":
        for g, x in t.a[0]: out += written_roots(x)
    return out

# ---------- compression
def run_compression(c):
    p = c.prog
    c.rule("reading: raw blobs are taken verbatim, zlib blobs are inflated to their recorded size, every other or missing payload is an error and never decoded")
    c.rule("writing: Uncompressed stores the encoded block itself, Zlib stores its deflated bytes together with the size of the uncompressed bytes")
    c.guard("read", comp_read, c)
    c.guard("write", comp_write, c)
    c.assumptions += ["flate2 deflates and inflates correctly"]

def data_literal(F, g, pred):
    return [(t.a[0], k, pol) for t, k, pol in F.NG(g) if t.op == "discr" and pred(t.a[0])]

def comp_read(c):
    p = c.prog
    A = block_value(c); F = A.F
    vs = variants(p, DATA)
    done = {}
    for ev in A.events("decode"):
        ty = ev["args"][0].a[0]
        if ty not in (PB + "PrimitiveBlock", PB + "HeaderBlock"): continue
        for g0, buf in alts(ev["args"][1]):
            g = F.NG(ev["pc"] | g0)
            bl = [y for y in walk(buf) if y.op == "decoded" and y.a[0] == BLOB]
            if not bl: c.fail("read.source", "block decoded from %s" % sh(buf)); continue
            od = F.N(field(p, bl[0], BLOB, "data"))
            data = F.N(some(od))
            al = allowed_variants(g, data, len(vs))
            pres = allowed_variants(g, od, 2)
            if not c.ob("read.present", pres == {1}, "a blob without data is decoded"): continue
            names = [vs[i] for i in al]
            if not c.ob("read.selected", len(al) == 1, "a %s is decoded from a blob stored as any of %s" % (ty, names)): continue
            v = names[0]
            pl = F.N(payload(p, data, DATA, v))
            b = F.N(buf)
            if v == "Raw": ok = b is pl
            elif v == "ZlibData":
                ok = b.op == "readdata" and F.N(b.a[1]) is fn("zdec", pl)
                if ok and b.a[0] == "read_exact": ok = unnarrow(F.N(b.a[3])) is F.N(some(field(p, bl[0], BLOB, "raw_size")))
                elif ok: ok = b.a[0] == "read_to_end"
            else: ok = False
            c.ob("read.%s.%s" % (v, ty.split("::")[-1]), ok, "a blob stored as %s is decoded from %s" % (v, sh(b)))
            done.setdefault(ty, set()).add(v)
    for ty in (PB + "PrimitiveBlock", PB + "HeaderBlock"):
        c.ob("read.handled." + ty.split("::")[-1], done.get(ty) == {"Raw", "ZlibData"}, "%s is decoded from blobs stored as %s" % (ty, sorted(done.get(ty, ()))))

def comp_write(c):
    p = c.prog
    A = Ana(c, find1(p, "pbf::writer::Writer::write_file_block"), paths=True); F = A.F
    D = mk("deref", A.args[0])
    CT = "osm_io::osm::pbf::compression_type::CompressionType"
    cts = variants(p, CT); vs = variants(p, DATA)
    want = {"Uncompressed": "Raw", "Zlib": "ZlibData"}
    for k in cts: c.ob("write.known." + k, k in want, "no rule for compression type %s" % k)
    got = set()
    for s, v in A.outs:
        self2 = final_self(A, s)
        for g, x in alts(v):
            if not (x.op == "adt" and x.a[1] == 0): continue
            encs = contents(c, A)
            for y, b in written_roots(restrict(self2, g)):
                for d in pieces(y, b) or []:
                    if not (d.op == "fn" and d.a[0] == "encoded" and d.a[1][0] is STR(BLOB)): continue
                    blob = d.a[1][1]
                    data = field(p, blob, BLOB, "data"); rs = field(p, blob, BLOB, "raw_size")
                    for h, o in alts(data):
                        gg = F.NG(h | g | s.pc)
                        if o is NONE:
                            # only an empty block may have no payload
                            em = any(is_empty_lit(F, l, k, pol, encs) for l, k, pol in gg)
                            c.ob("write.payload", em, "a blob without payload is written when %s" % [showlit(l, 4) for l in io_only(F, h)])
                            continue
                        for h2, y2 in alts(o.a[2][0]):
                            if contradicts(h2, gg): continue
                            vn = vs[y2.a[1]]
                            cl = {cts[i] for t, k, pol in data_literal(F, gg | h2, lambda t: t.op == "fld" and t.a[0] is D) for i in allowed_variants(F.NG(gg | h2), t, len(cts))}
                            for ct in cl: got.add(ct)
                            c.ob("write.choice." + vn, len(cl) == 1 and want[min(cl)] == vn, "compression %s stores the block as %s" % (sorted(cl), vn))
                            z = content_of(F, vn, y2.a[2][0])
                            c.ob("write.content." + vn, z is not None and F.N(z) in encs, "%s holds %s, expected the encoded block" % (vn, sh(y2.a[2][0])))
                            for h3, r in alts(rs):
                                if contradicts(h3, gg | h2): continue
                                ok = r.op == "adt" and r.a[1] == 1 and z is not None and unnarrow(F.N(r.a[2][0])) is F.N(mk("len", z))
                                c.ob("write.size." + vn, ok or vn == "Raw" and r is NONE, "raw_size of a %s blob is %s" % (vn, sh(r)))
    for k in cts: c.ob("write.used." + k, k in got, "compression type %s never leads to a written block" % k)

def content_of(F, vn, z):
    """uncompressed bytes a payload stands for"""
    if vn == "Raw": return z
    if not (z.op == "fn" and z.a[0] == "zlib"): return None
    t = z.a[1][0]
    if t.op not in ("written", "flushed"): return None
    b = t
    while b.op in ("written", "flushed"): b = b.a[0]
    if b.op != "zenc" or b.a[0] is not EMPTY: return None
    ps = pieces(t, b)
    return ps[0] if len(ps) == 1 else None

def is_empty_lit(F, l, k, pol, encs):
    l0 = l
    if l.op == "len": return l.a[0] in encs and (k == 0) and pol
    if l.op == "bin" and l.a[0] == "Eq" and INT(0) in l.a: 
        x = [y for y in l.a[1:] if y is not INT(0)][0]
        return x.op == "len" and x.a[0] in encs and (k is True) == bool(pol)
    if l.op == "has" and l.a[1] is INT(0): return l.a[0] in encs and (k is False) == bool(pol)
    return False
