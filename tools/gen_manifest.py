"""MANIFEST.json from properties.jsonl and the obligations"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "static"))
import obligations
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for p in props:
    if p["id"] in obligations.OBLS:
        checks.append(dict(
            property=p["id"], quick_cmd="python3 static/check.py %s --tier quick" % p["id"],
            thorough_cmd="python3 static/check.py %s --tier thorough" % p["id"],
            technique="static value-graph summaries compared with reference definitions",
            level="other",
            level_note=obligations.NOTES.get(p["id"], "Sound normalisation to gated value graphs; observables whose normal forms "
            "are not identical are decided by random interpretation of the terms (probabilistic), loops without a closed form for "
            "fixed small sizes; constructs outside the model are reported as undecided.")))
ids = {c["property"] for c in checks}
out = dict(version=1, setup_cmd="python3 -m py_compile static/check.py", checks=checks,
           not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "no check built yet")) for p in props if p["id"] not in ids],
           notes="Static analysis of the syntax tree of /repo; nothing of /repo is imported or executed. Needs only python3 (standard library).")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(out["not_applicable"]), "not applicable")
