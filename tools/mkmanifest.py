#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the property modules that exist"""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
NA = {
    "N01": "quantifies over runtime values (that Display and FromStr of std types are inverse); no sound static argument over /repo's source reaches std's conversions. The parts /repo decides (regex languages, captured text, conversion called) are C03-C06.",
    "N03": "a running-time bound is a property of the regex engine (a dependency) and of unbounded inputs; nothing in /repo's source decides it.",
}
T_INT = "abstract interpretation of the compiler's MIR of generated code (trace partitioning, regular-language string domain) against a specification, automata comparison of the recovered pattern"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(V, "lib", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module("props." + i.lower())
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                   "technique": getattr(m, "TECHNIQUE", T_INT), "level": m.LEVEL,
                   "level_note": getattr(m, "NOTE", " ".join(m.__doc__.split()))})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
