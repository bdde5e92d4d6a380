"""Wire format (C09): the message declarations, in the schema files and in the generated code, are those of the
published PBF format.  Declarations are parsed to syntax (tokens, not text) and compared field by field."""
import os, re
from core import REPO

# message -> number -> (name, label, type, packed, default); label: o optional, r required, m repeated, x member of a oneof
SPEC = {
 "Blob": {1: ("raw", "x", "bytes"), 2: ("raw_size", "o", "int32"), 3: ("zlib_data", "x", "bytes"), 4: ("lzma_data", "x", "bytes"),
          5: ("obsolete_bzip2_data", "x", "bytes"), 6: ("lz4_data", "x", "bytes"), 7: ("zstd_data", "x", "bytes")},
 "BlobHeader": {1: ("type", "r", "string"), 2: ("indexdata", "o", "bytes"), 3: ("datasize", "r", "int32")},
 "HeaderBlock": {1: ("bbox", "o", "HeaderBBox"), 4: ("required_features", "m", "string"), 5: ("optional_features", "m", "string"),
                 16: ("writingprogram", "o", "string"), 17: ("source", "o", "string"), 32: ("osmosis_replication_timestamp", "o", "int64"),
                 33: ("osmosis_replication_sequence_number", "o", "int64"), 34: ("osmosis_replication_base_url", "o", "string")},
 "HeaderBBox": {1: ("left", "r", "sint64"), 2: ("right", "r", "sint64"), 3: ("top", "r", "sint64"), 4: ("bottom", "r", "sint64")},
 "PrimitiveBlock": {1: ("stringtable", "r", "StringTable"), 2: ("primitivegroup", "m", "PrimitiveGroup"), 17: ("granularity", "o", "int32", 0, "100"),
                    18: ("date_granularity", "o", "int32", 0, "1000"), 19: ("lat_offset", "o", "int64", 0, "0"), 20: ("lon_offset", "o", "int64", 0, "0")},
 "PrimitiveGroup": {1: ("nodes", "m", "Node"), 2: ("dense", "o", "DenseNodes"), 3: ("ways", "m", "Way"), 4: ("relations", "m", "Relation"), 5: ("changesets", "m", "ChangeSet")},
 "StringTable": {1: ("s", "m", "bytes")},
 "Info": {1: ("version", "o", "int32", 0, "-1"), 2: ("timestamp", "o", "int64"), 3: ("changeset", "o", "int64"), 4: ("uid", "o", "int32"),
          5: ("user_sid", "o", "uint32"), 6: ("visible", "o", "bool")},
 "DenseInfo": {1: ("version", "m", "int32", 1), 2: ("timestamp", "m", "sint64", 1), 3: ("changeset", "m", "sint64", 1), 4: ("uid", "m", "sint32", 1),
               5: ("user_sid", "m", "sint32", 1), 6: ("visible", "m", "bool", 1)},
 "ChangeSet": {1: ("id", "r", "int64")},
 "Node": {1: ("id", "r", "sint64"), 2: ("keys", "m", "uint32", 1), 3: ("vals", "m", "uint32", 1), 4: ("info", "o", "Info"), 8: ("lat", "r", "sint64"), 9: ("lon", "r", "sint64")},
 "DenseNodes": {1: ("id", "m", "sint64", 1), 5: ("denseinfo", "o", "DenseInfo"), 8: ("lat", "m", "sint64", 1), 9: ("lon", "m", "sint64", 1), 10: ("keys_vals", "m", "int32", 1)},
 "Way": {1: ("id", "r", "int64"), 2: ("keys", "m", "uint32", 1), 3: ("vals", "m", "uint32", 1), 4: ("info", "o", "Info"), 8: ("refs", "m", "sint64", 1),
         9: ("lat", "m", "sint64", 1), 10: ("lon", "m", "sint64", 1)},
 "Relation": {1: ("id", "r", "int64"), 2: ("keys", "m", "uint32", 1), 3: ("vals", "m", "uint32", 1), 4: ("info", "o", "Info"), 8: ("roles_sid", "m", "int32", 1),
              9: ("memids", "m", "sint64", 1), 10: ("types", "m", "MemberType", 1)},
}
ENUMS = {"MemberType": {0: "node", 1: "way", 2: "relation"}}
SCALAR = {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "string", "bytes", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"}
NUMERIC = SCALAR - {"string", "bytes"}
# fields the published format declares but which neither reading nor writing of elements uses may be absent
OPTIONAL = {("PrimitiveGroup", 5), ("Way", 9), ("Way", 10), ("BlobHeader", 2), ("Blob", 4), ("Blob", 5), ("Blob", 6), ("Blob", 7)}

def norm(n): return re.sub(r"[^a-z0-9]", "", n.lower())

# ---------------------------------------------------------------- schema files
def proto_tokens(s):
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_][\w.]*|-?\d[\w.]*|\S', s, re.S):
        t = m.group(0)
        if t.startswith("//") or t.startswith("/*"): continue
        yield t, s.count("\n", 0, m.start()) + 1

class Parse(Exception): pass
def parse_proto(text):
    toks = list(proto_tokens(text)); i = 0
    msgs = {}; enums = {}
    def skip_to(j, end):
        while toks[j][0] != end: j += 1
        return j + 1
    def options(j):
        out = {}
        if toks[j][0] != "[": return out, j
        j += 1
        while toks[j][0] != "]":
            if toks[j][0] == ",": j += 1; continue
            k = toks[j][0]
            if toks[j + 1][0] != "=": raise Parse("option at line %d" % toks[j][1])
            v = toks[j + 2][0]; j += 3
            if v in "+-": v += toks[j][0]; j += 1
            out[k] = v
        return out, j + 1
    def enum(j):
        name = toks[j][0]; j += 2; vals = {}
        while toks[j][0] != "}":
            if toks[j][0] in ("option", "reserved"): j = skip_to(j, ";"); continue
            if toks[j][0] == ";": j += 1; continue
            n = toks[j][0]; v = int(toks[j + 2][0], 0); vals.setdefault(v, norm(n)); j = skip_to(j, ";")
        enums.setdefault(name, []).append((vals, toks[j][1])); return j + 1
    def message(j):
        name = toks[j][0]; line = toks[j][1]; j += 2; fields = {}
        def field(j, label):
            ty, n = toks[j][0], toks[j + 1][0]
            if toks[j + 2][0] != "=": raise Parse("field at line %d" % toks[j][1])
            num = int(toks[j + 3][0], 0); o, k = options(j + 4)
            if toks[k][0] != ";": raise Parse("field at line %d" % toks[j][1])
            ty = ty.split(".")[-1]
            fields.setdefault(num, []).append((norm(n), label, ty, int(o.get("packed") == "true"), o.get("default"), toks[j][1]))
            return k + 1
        while toks[j][0] != "}":
            t = toks[j][0]
            if t == "message": j = message(j + 1)
            elif t == "enum": j = enum(j + 1)
            elif t in ("option", "reserved", "extensions"): j = skip_to(j, ";")
            elif t == ";": j += 1
            elif t == "oneof":
                j += 3
                while toks[j][0] != "}": j = field(j, "x")
                j += 1
            elif t in ("optional", "required", "repeated"): j = field(j + 1, {"optional": "o", "required": "r", "repeated": "m"}[t])
            else: raise Parse("'%s' at line %d" % (t, toks[j][1]))
        msgs.setdefault(name, []).append((fields, line)); return j + 1
    syntax = None
    while i < len(toks):
        t = toks[i][0]
        if t == "message": i = message(i + 1)
        elif t == "enum": i = enum(i + 1)
        elif t == "syntax": syntax = toks[i + 2][0].strip("\"'"); i = skip_to(i, ";")
        elif t in ("option", "package", "import"): i = skip_to(i, ";")
        elif t == ";": i += 1
        else: raise Parse("'%s' at line %d" % (t, toks[i][1]))
    return msgs, enums, syntax

# ---------------------------------------------------------------- generated code
def rust_tokens(s):
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|r#\w+|[A-Za-z_]\w*|\d\w*|::|->|=>|\'\w+(?!\')|\'(?:[^\'\\]|\\.)\'|\S', s, re.S):
        t = m.group(0)
        if t.startswith("//") or t.startswith("/*"): continue
        yield t, s.count("\n", 0, m.start()) + 1

def match(toks, j):
    """index behind the bracket that closes the one at j"""
    op = toks[j][0]; cl = {"(": ")", "[": "]", "{": "}"}[op]; d = 0
    while True:
        if toks[j][0] == op: d += 1
        elif toks[j][0] == cl:
            d -= 1
            if not d: return j + 1
        j += 1
def split(ts):
    out = [[]]; d = 0
    for t in ts:
        if t in "([{<": d += 1
        elif t in ")]}>": d -= 1
        if t == "," and d <= 0: out.append([])
        else: out[-1].append(t)
    return [x for x in out if x]

def parse_rust(text):
    toks = list(rust_tokens(text)); msgs = {}; enums = {}; oneofs = {}
    attrs = []; j = 0; n = len(toks)
    def derives(attrs):
        return {t for a in attrs if a and a[0] == "derive" for t in a if re.match(r"\w+$", t)}
    def prost(attrs):
        for a in attrs:
            if a and a[0] == "prost":
                o = {}
                for part in split(a[2:-1]):
                    if "=" in part: o[part[0]] = "".join(part[part.index("=") + 1:]).strip('"')
                    else: o[part[0]] = True
                return o
        return None
    def describe(o, line):
        ty = next((t for t in SCALAR if t in o), None)
        if ty is None and "enumeration" in o: ty = o["enumeration"].split("::")[-1].split(":")[-1]
        if ty is None and "message" in o: ty = "message"
        lab = "m" if "repeated" in o else "o" if "optional" in o else "r"
        packed = 1 if lab == "m" and ty not in ("string", "bytes", "message") and o.get("packed") != "false" else 0
        return lab, ty, packed, o.get("default"), line
    def fields(j, end, body):
        attrs = []
        while j < end:
            t, line = toks[j]
            if t == "#": k = match(toks, j + 1); attrs.append([x[0] for x in toks[j + 2:k - 1]]); j = k; continue
            if t == ",": attrs = []; j += 1; continue
            if t == "pub":
                j += 1
                if toks[j][0] == "(": j = match(toks, j)
                continue
            name = t.replace("r#", ""); k = j + 1; d = 0
            while k < end and not (toks[k][0] == "," and d == 0):
                if toks[k][0] in "<([{": d += 1
                elif toks[k][0] in ">)]}": d -= 1
                k += 1
            body(name, prost(attrs), [x[0] for x in toks[j + 1:k]], line); attrs = []; j = k
    while j < n:
        t, line = toks[j]
        if t == "#" and toks[j + 1][0] == "[": k = match(toks, j + 1); attrs.append([x[0] for x in toks[j + 2:k - 1]]); j = k; continue
        if t in ("struct", "enum"):
            name = toks[j + 1][0].replace("r#", ""); dv = derives(attrs)
            if toks[j + 2][0] != "{": attrs = []; j += 1; continue
            k = match(toks, j + 2)
            if t == "struct" and "Message" in dv:
                fs = {}; one = []
                def body(nm, o, ty, line):
                    if o is None: raise Parse("field %s without declaration, line %d" % (nm, line))
                    if "oneof" in o: one.append((o["oneof"].split("::")[-1].split(":")[-1], {int(x) for x in o["tags"].split(",")})); return
                    lab, pt, packed, dflt, ln = describe(o, line)
                    if pt == "message": pt = [x for x in ty if re.match(r"[A-Z]\w*$", x) and x not in ("Option", "Vec", "Box")][-1]
                    fs.setdefault(int(o["tag"]), []).append((norm(nm), lab, pt, packed, dflt, ln))
                fields(j + 3, k - 1, body); msgs.setdefault(name, []).append((fs, line, one))
            elif t == "enum" and "Oneof" in dv:
                vs = {}
                def body(nm, o, ty, line):
                    if o is None: raise Parse("alternative %s without declaration, line %d" % (nm, line))
                    lab, pt, packed, dflt, ln = describe(o, line)
                    vs.setdefault(int(o["tag"]), []).append((norm(nm), "x", pt, 0, dflt, ln))
                fields(j + 3, k - 1, body); oneofs.setdefault(name, []).append(vs)
            elif t == "enum" and "Enumeration" in dv:
                vs = {}
                def body(nm, o, ty, line):
                    if ty[:1] != ["="]: raise Parse("value of %s, line %d" % (nm, line))
                    vs[int("".join(ty[1:]), 0)] = norm(nm)
                fields(j + 3, k - 1, body); enums.setdefault(name, []).append((vs, line))
            attrs = []; j = k; continue
        if t in (";", "{", "}"): attrs = []
        j += 1
    out = {}
    for m, ds in msgs.items():
        for fs, line, one in ds:
            fs = dict(fs)
            for o, tags in one:
                for vs in oneofs.get(o, []):
                    if set(vs) != tags: raise Parse("%s: the alternatives %s of %s are not the listed ones %s" % (m, sorted(vs), o, sorted(tags)))
                    for num, d in vs.items(): fs.setdefault(num, []).extend(d)
                if not oneofs.get(o): raise Parse("%s: oneof %s is not declared" % (m, o))
            out.setdefault(m, []).append((fs, line))
    return out, enums

def compare(c, where, path, msgs, enums, seen):
    for m, spec in SPEC.items():
        for fs, line in msgs.get(m, []):
            seen.add(m)
            for num, s in spec.items():
                name, lab, ty = s[:3]; packed = s[3] if len(s) > 3 else 0; dflt = s[4] if len(s) > 4 else None
                key = "%s:%s.%s" % (where, m, name)
                ds = fs.get(num, [])
                if not ds:
                    if (m, num) in OPTIONAL and not any(x[0] == norm(name) for v in fs.values() for x in v): continue
                    c.fail(key, "%s:%d: message %s has no field number %d (%s %s)" % (path, line, m, num, ty, name)); continue
                if len(ds) > 1: c.fail(key, "%s: message %s declares field number %d twice" % (path, m, num)); continue
                n2, l2, t2, p2, d2, ln = ds[0]
                bad = []
                if n2 != norm(name): bad.append("it is named %s" % n2)
                if t2 != ty: bad.append("its type is %s" % t2)
                if l2 != lab: bad.append("it is %s" % {"o": "optional", "r": "required", "m": "repeated", "x": "an alternative"}[l2])
                if p2 != packed: bad.append("it is %spacked" % ("" if p2 else "not "))
                if d2 != dflt and not (dflt == "0" and d2 is None): bad.append("its default is %s" % d2)
                c.ob(key, not bad, "%s:%d: field %d of %s is to be %s %s%s%s, but %s" % (path, ln, num, m, ty, name, " packed" if packed else "",
                     " default " + dflt if dflt else "", " and ".join(bad)))
            extra = sorted(set(fs) - set(spec))
            c.ob("%s:%s fields" % (where, m), not any(x[0] in {norm(s[0]) for s in spec.values()} for k in extra for x in fs[k]),
                 "%s:%d: message %s declares a field of the format under other numbers: %s" % (path, line, m, extra))
    for en, spec in ENUMS.items():
        for vs, line in enums.get(en, []):
            seen.add(en)
            c.ob("%s:%s" % (where, en), all(vs.get(k) == v for k, v in spec.items()), "%s:%d: values of %s are %s" % (path, line, en, vs))

def run_schema(c):
    c.rule("every message declaration, in each schema file and in each file of generated message types, has for each field number of the published format the published name, wire type, presence, packing and default; the alternatives of a blob's data and the member kind codes are the published ones")
    seen_p = set(); seen_r = set(); files = []
    for base, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            p = os.path.join(base, f); rel = os.path.relpath(p, REPO)
            if f.endswith(".proto"):
                try: ms, es, syntax = parse_proto(open(p).read())
                except (Parse, IndexError, ValueError, KeyError) as x: c.fail("schema:" + f, "%s cannot be read as a schema: %s" % (rel, x)); continue
                files.append(rel); c.ob("schema:%s syntax" % f, syntax == "proto2", "%s: presence of fields is that of %s" % (rel, syntax))
                compare(c, "schema", rel, ms, es, seen_p)
            elif f.endswith(".rs"):
                t = open(p).read()
                if "prost(" not in t: continue
                try: ms, es = parse_rust(t)
                except (Parse, IndexError, ValueError, KeyError) as x: c.fail("code:" + f, "%s cannot be read as message types: %s" % (rel, x)); continue
                files.append(rel); compare(c, "code", rel, ms, es, seen_r)
    for m in list(SPEC) + list(ENUMS):
        c.ob("schema:%s declared" % m, m in seen_p, "no schema file declares %s" % m)
        c.ob("code:%s declared" % m, m in seen_r, "no generated code declares %s" % m)
    c.metrics["files"] = files
