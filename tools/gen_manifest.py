"""Writes MANIFEST.json from the harnesses present."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks = []
na = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    h = os.path.join(ROOT, "harness", pid.lower() + ".py")
    if pid in NA or not os.path.exists(h):
        na.append({"property": pid, "reason": NA.get(
            pid, "no harness yet: work in progress")})
        continue
    src = open(h).read()
    m = re.search(r"^BOUNDS = (\(.*?\"\)|\".*?\"|\(.*?\n\s*\)|[^\n]*)\n(?=\S|\n)",
                  src, re.S | re.M)
    bounds = eval(m.group(1)) if m else ""
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt run.py %s" % pid,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % pid,
        "technique": "symbolic execution of the real source, assertions "
                     "decided by z3, counterexamples replayed under Jython",
        "level": "model_checking",
        "level_note": "Exhaustive over every value within the bounds ("
                      + bounds + "). Trusts the symbolic model of Jython "
                      "2.7 and its libraries, cross-checked by running solver "
                      "models on the real code; floats idealised as reals.",
    })
out = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks convert /repo's working tree on every run.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
