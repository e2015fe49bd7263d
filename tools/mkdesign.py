"""DESIGN.md = tools/design_head.md + one section per property from properties.jsonl and checks/meta.py"""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.meta import META, NOT_APPLICABLE  # noqa: E402

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    out.append(f"### {i} {d['title']}\n")
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i not in NOT_APPLICABLE:
        m = META[i]
        out.append("Encoded (executed symbolically): " + "; ".join(m["functions"]) + ".\n")
        out.append("Oracle: an independent definition written in the harness (`checks/%s.py`), compared for every value.\n" % i.lower())
        out.append("Bounds: " + m["bounds"] + ".\n")
        out.append("Assumptions and what lies outside: " + "; ".join(m["assumptions"]) + ".\n")
    else:
        out.append("Not claimed: " + NOT_APPLICABLE[i] + "\n")
import glob
rows = ["| id | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d['property']} |")
out[0] = out[0].replace("@SEEDED@", "\n".join(rows))
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
out += ["## Defects found", "", "Repaired (`fix:` commits in /repo):", ""] + ["* " + f.split("fixed: ", 1)[1] for f in known["fixed"]]
out += ["", "Recorded, not repaired:", ""] + (["* " + str(f) for f in known["findings"]] or ["* none"])
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
