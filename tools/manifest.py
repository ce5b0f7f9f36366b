#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that the harness registers.
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for f in glob.glob(V + "/h/props/*.go"):
    for m in re.finditer(r'\n\t\tID:\s*"(C\d\d)"', open(f).read()):
        have[m.group(1)] = f
SPECIAL = {}
exec(open(V + "/tools/levels.py").read())
TECH = "exhaustive enumeration of bounded key sequences on the real editor"
NOTE = "Every execution within the bounds named in the evidence is run on the real code, with the terminal, history and clipboard supplied by the harness, and judged by a reference model. Trusts the reference model and the terminal emulator. Says nothing beyond the bounds."
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason="no check built for it yet"))
        continue
    t, n = SPECIAL.get(i, (TECH, NOTE))
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                       technique=t, level="model_checking", level_note=n, evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks use exported interfaces and replace dependencies and imports at build time, outside /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check ID quick|thorough runs one property; check ID replay FILE replays a counterexample. known_findings.txt lists findings.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
