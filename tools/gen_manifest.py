#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as C
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash engine/build.sh build", checks=[], not_applicable=[])
for i in ids:
    if i in C.PROPS:
        p = C.PROPS[i]
        b = p["bounds"]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="symbolic execution of the compiled library (LLVM IR) with Z3 deciding every assertion; counterexamples replayed natively",
            level="model_checking", level_note="Bounded: %s. Outside: %s" % (b if isinstance(b, str) else b[0], p["outside"])))
    else:
        m["not_applicable"].append(dict(property=i, reason=C.NOT_APPLICABLE.get(i, "not yet encoded: no harness for it in this tree")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
