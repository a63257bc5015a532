#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from engine/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 engine/run.py --warm", checks=[], not_applicable=[],
         notes="Every check builds its harnesses from /repo's working tree into _out/ (ccache keyed by content), explores all shards of all sections and writes evidence/<id>.json. No hooks in /repo are needed; the commits in /repo are fixes only.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="python3 engine/run.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 engine/run.py " + i,
            evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
            level_note=(c["note"] + " " if c["note"] else "") +
            "Exhaustive within these bounds, nothing beyond them: " + c["bounds"] +
            (". Trusts: " + "; ".join(c["assumptions"]) if c["assumptions"] else "") + "."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(
            i, "not claimed yet: the harness for this property is not built")))
for i in CHECKS:
    assert i in ids, i
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
