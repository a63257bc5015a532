"""Writes DESIGN.md from design_head.md, the registered checks, the findings and the planted bugs."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import checks
o = [open(V + "/tools/design_head.md").read(), "## Properties\n"]
k = json.load(open(V + "/known_findings.json"))
fixed = {}
for f in k["fixed"]:
    t = f if isinstance(f, str) else json.dumps(f)
    p = f["property"] if isinstance(f, dict) else f.split("property=")[1].split()[0]
    fixed.setdefault(p, []).append(f)
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append(p["statement"] + "\n")
    if i not in checks.CHECKS:
        o.append("Not claimed: " + getattr(checks, "NOT_APPLICABLE", {}).get(i, "") + "\n"); continue
    c = checks.CHECKS[i]
    o.append("* Beyond the tests: " + p["why_tests_cant"])
    o.append("* Explored: " + c["rule"] + ".")
    o.append("* Bounds: " + c["bounds"] + ".")
    if c["note"]: o.append("* Note: " + c["note"])
    if c["assumptions"]: o.append("* Trusts / leaves out: " + "; ".join(c["assumptions"]) + ".")
    o.append("* Harnesses: " + ", ".join("`%s`" % h for h in c["harnesses"]) + (" (only sections %s)" % json.dumps(c["only"]) if c["only"] else "") + ".")
    if i in fixed: o.append("* Defects found and repaired: %d (listed below)." % len(fixed[i]))
    o.append("")
o.append(open(V + "/tools/design_tail.md").read())
o.append("## Known findings (genuine, not repaired)\n")
for f in k["findings"]: o.append("* %s `%s`: %s" % (f["property"], f["key"], f["what"]))
o.append("\n## Repaired defects\n")
for p in sorted(fixed):
    for f in fixed[p]:
        o.append("* " + (f if isinstance(f, str) else "%s %s: %s" % (p, f.get("commit", ""), f.get("what", ""))))
o.append("\n## Planted bugs\n\nEach lives in `seeded/ID`; `tools/plant/plant.py` verifies them and runs the check of their property. All of them are caught by that check.\n")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); o.append("* %s (%s): %s. Needs: %s." % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
