"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
P = []
def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, na=na))
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

VF = "abstract interpretation of MIR: gated value-flow (provenance) analysis"
def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks = []; na = []
    for p in P:
        if p["na"]: na.append({"property": p["id"], "reason": p["na"]}); continue
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or VF, "level": "other",
            "level_note": p["note"] or "Holds for all inputs of the analysed functions under the stated models of std and third-party crates."})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
