#!/usr/bin/env python3
"""Write MANIFEST.json from the rule modules that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOT = {}
checks = []
missing = []
for p in props:
    i = p["id"]
    f = os.path.join(ROOT, "rules", i.lower() + ".py")
    if not os.path.exists(f):
        missing.append({"property": i, "reason": NOT.get(i, "no check built yet")})
        continue
    src = open(f).read()
    note = re.search(r'^LEVEL_NOTE = """(.*?)"""', src, re.S | re.M)
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py --property {i} --tier quick",
        "thorough_cmd": f"python3 check.py --property {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "static analysis: trace-partitioned abstract interpretation of the Python sources "
                     "(value numbering, predicate facts, difference bounds, bounded container shapes)",
        "level": "other",
        "level_note": " ".join((note.group(1) if note else
                                "Abstract interpretation of the current sources, never executed. A violation is "
                                "reported only on a path whose facts are exact; paths the domain cannot represent "
                                "are listed as undecided in the evidence. Trusts the models of the Python builtins "
                                "and standard library in absint/ (checked against the repository's own unit tests by "
                                "selftest/run_suite.py) and the bounded container shapes named in the evidence."
                                ).split()),
    })
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10)'", "checks": checks,
     "not_applicable": missing,
     "notes": "All checks share one engine (absint/) and one runner (check.py); see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in missing])
