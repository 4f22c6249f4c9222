#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalog.py and checks.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from catalog import P  # noqa: E402
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"],
                       thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"],
                       level_note=c["level_note"]))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="none", enable="no hooks: the explorers compile the unmodified headers and sources of /repo",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks share run.py; explorers are built from /repo's working tree with gcc into build/<tree hash>. "
               "See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
