#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, one section per property (from rules/cNN.py and the notes below), the planted
bugs (from seeded/*/meta.json and tools/seed_results.txt), known_findings.txt and tools/design_tail.md."""
import glob
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
NOTES = json.load(open("tools/design_notes.json"))
props = {json.loads(x)["id"]: json.loads(x) for x in open("properties.jsonl") if x.strip()}
results = {}
if os.path.exists("tools/seed_results.txt"):
    for line in open("tools/seed_results.txt"):
        i, _, rest = line.strip().partition(": ")
        if rest:
            results[i] = rest
out = [open("tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for pid, p in props.items():
    m = importlib.import_module("rules." + pid.lower())
    n = NOTES[pid]
    counts = {t: len(m.scenarios(t)) for t in ("quick", "thorough")}
    out += [f"### {pid} — {p['title']}", "", "**Decided by** " + " ".join(m.EXPLANATION.split()), "", "Obligations:", ""]
    out += [f"* `{k}` — {v}" for k, v in m.RULES.items()]
    out += ["", f"**Bounds.** {n['bounds']}", "", f"**Why this reaches what tests cannot.** {n['why']}", ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["**Assumed.** " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    out += [f"**Size and cost.** {counts['quick']} abstract programs (quick), {counts['thorough']} (thorough); "
            f"quick about {n['cost']} on 8 idle cores.", ""]
out += ["## Planted bugs", "", open("tools/design_seeds.md").read().rstrip(), "", "| planted bug | what it changes | manifests with | reported by its check |", "|---|---|---|---|"]
cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]
    m = json.load(open(d))
    out.append(f"| {i} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {cell(results.get(i, 'not run'))} |")
out += ["", "## Findings on the base tree", "", "Recorded in `known_findings.txt`; all but the two `known:` entries were repaired by `fix:` commits in /repo.", ""]
for line in open("known_findings.txt"):
    if line.startswith("fixed:"):
        out.append("* " + cell(line[7:]))
out += ["", open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
