"""writes MANIFEST.json from properties.jsonl and the harnesses in vx/props"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the Python code in /repo on symbolic reals, "
        "claims decided by z3, counterexamples replayed on the real code")
SPECIAL = {
    "C07": "symbolic execution of the stepping loop on IEEE double terms "
           "(QF_FP), claims decided by cvc5, counterexamples replayed",
    "C14": "stability polynomials extracted by symbolic execution of the real "
           "step on a linear problem, nonnegativity decided by z3 (nlsat)",
    "C15": "stage count and stability polynomial extracted by symbolic "
           "execution of the real step, bounded by z3",
}
EXTRA_NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vx", "props", i.lower() + ".py")):
        cmd = f"python3-vt check.py {i} --tier "
        checks.append({
            "property": i, "quick_cmd": cmd + "quick",
            "thorough_cmd": cmd + "thorough",
            "technique": SPECIAL.get(i, TECH), "level": "other",
            "level_note": "bounded symbolic execution with an SMT solver; "
                          "bounds and what lies outside are in the evidence "
                          "and in DESIGN.md"})
    else:
        na.append({"property": i, "reason": EXTRA_NA.get(
            i, "check not built (yet)")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
