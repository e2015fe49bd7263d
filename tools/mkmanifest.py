"""writes /verif/MANIFEST.json: every property with a checks/cXX.py is claimed, every other one is not_applicable"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.meta import META, NOT_APPLICABLE  # noqa: E402

PY = "/opt/venv/bin/python /verif/run.py"
TODO = "no solver-based check for it has been built yet in this framework; nothing is claimed about it"
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i not in NOT_APPLICABLE:
        m = META.get(i, {})
        cpp = m.get("cpp")
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} {i}",
            "thorough_cmd": f"{PY} {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real " + ("C++ kernels and PyTorch code" if cpp else "PyTorch code") + ", obligations decided by SMT (z3/cvc5) and rational normal forms, counterexamples replayed",
            "level": "model_checking",
            "level_note": m.get("note", "Every path of the harnesses is explored within the stated sizes, all real-valued inputs symbolic; reals instead of floats.") ,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, TODO)})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
