"""Writes MANIFEST.json: a check per rule module, the rest under not_applicable."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C80": "Quantifies over the numerical result of an external solver (POT); no static argument on this source bounds the optimality gap.",
    "C81": "Optimality of a numerical solution: a fact about runtime values of iterative solvers, which no sound static analysis in reach bounds.",
    "C82": "The distribution of generated samples is a statistical fact about runtime values.",
    "C83": "The value of a penalty is a fact about tensors at runtime; the shape of the code does not decide it.",
    "C84": "An empirical claim about accuracy on data; nothing in the source decides it.",
}
NOTE = "Decides the stated necessary conditions on every path of the current source under the abstraction described in DESIGN.md; trusts the resolution of callees in sa/ and the summaries of numpy/sklearn/torch/POT calls; what the abstraction cannot resolve is counted as undecided in the evidence and not reported."
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
        m = importlib.import_module("rules." + i.lower())
        c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
             "technique": getattr(m, "TECHNIQUE", "static value-flow analysis"), "level": "other", "level_note": getattr(m, "LEVEL_NOTE", "") + (" " if getattr(m, "LEVEL_NOTE", "") else "") + NOTE}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "No static rule built yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
