"""Write MANIFEST.json from the harness modules (run by hand after adding a harness)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
NA = {
    "C27": "a limit statement about the distribution of the random generator; no bounded symbolic query decides it",
}
PY = "/opt/venv/bin/python -W ignore check.py %s --tier %s"
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", pid + ".py")) and pid not in NA:
        m = importlib.import_module("harness." + pid)
        checks.append({
            "property": pid,
            "quick_cmd": PY % (pid, "quick"),
            "thorough_cmd": PY % (pid, "thorough"),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the real Python source with z3 (path-wise SMT obligations, counterexamples replayed on the real code)",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the bounds: %s. Trusted/assumed: %s." % (m.BOUNDS, "; ".join(m.ASSUMPTIONS)),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore selftest.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; known findings and repaired defects are listed in known-findings.json."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
