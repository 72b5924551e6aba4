#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = "path-forking symbolic execution of the LLVM IR of the current sources, decided by Z3 within bounds"
NOTE = "Holds for every value within the stated bounds (see evidence: coverage.runs[].bounds); trusts clang's IR, the symx executor and the libc/libstdc++ models, which every run spot-checks against native runs."


def prop(id, title, statement, over, text, why, files, mech, note="", tech=None, na=None, observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe: d["anchors"]["observe_at"] = list(observe)
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, note, tech or TECH, na))


exec(open(os.path.join(ROOT, "bin", "props.py")).read())


def main():
    ids = [d["id"] for d, *_ in P]
    assert len(set(ids)) == len(ids)
    with open(ROOT + "/properties.jsonl", "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/check.py setup", "checks": [], "not_applicable": [],
         "notes": "Every check compiles /repo's current sources to LLVM IR and executes them symbolically (symx, built by setup_cmd from /verif/symx); counterexamples are replayed on a native sanitizer build before they are reported. No hooks are needed in /repo."}
    for d, note, tech, na in P:
        i = d["id"]
        if na:
            assert i not in specs.PROPS
            m["not_applicable"].append({"property": i, "reason": na})
            continue
        assert i in specs.PROPS, i
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "technique": tech, "level": "model_checking", "level_note": (note + " " if note else "") + NOTE})
    for i in specs.PROPS:
        assert i in ids, i
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
    open(ROOT + "/MANIFEST.json", "a").write("\n")
    sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d, *_ in P: jsonschema.validate(d, s)
        print("valid: %d properties, %d checks" % (len(P), len(m["checks"])))
    except ImportError:
        print("written, not validated")


main()
