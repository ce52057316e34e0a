#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props_table.py and properties.jsonl."""
import json, os
from props_table import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        tech = " + ".join({"symex": "symbolic execution of the real generic code over a symbolic field/engine, SMT verdict (z3, cvc5)",
                           "llsym": "symbolic execution of the compiled LLVM IR of the real code, SMT verdict (z3)"}[e] for e in s["engines"])
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="other",
                           level_note="Bounded: the verdict covers every value within the stated bounds and nothing outside. " + s["how"] + (" " + s["trust"] if "trust" in s else "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="Every check rebuilds from /repo's working tree. No hooks in /repo are needed: the harnesses use the public generic API.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
