#!/usr/bin/env python3
"""addfixed.py PROP COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(p)); d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
