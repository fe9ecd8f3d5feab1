"""Writes MANIFEST.json: every property with a vf/harness/cXX.py module is claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH_SYMX = "path-exhaustive symbolic execution of the real Python code with z3 deciding every branch and obligation"
TECH_SCHED = "SMT-driven exploration of all interleavings of the real code (scheduling choices are solver variables)"
SCHED = {"C08", "C09", "C10"}
NA = {}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(l)
    pid = d["id"]
    if pid in NA or not os.path.exists(os.path.join(R, "vf", "harness", pid.lower() + ".py")):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH_SCHED if pid in SCHED else TECH_SYMX,
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within the bounds listed per harness in the evidence "
                      "file (coverage.harnesses[].bounds); trusted: z3, CPython, the symbolic proxies of vf/symx.py, the "
                      "oracle in the harness. Every counterexample is replayed on the unmodified code before it is reported.",
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && test -d /repo/src/diwire", "checks": checks,
           "not_applicable": na,
           "notes": "See DESIGN.md. No hooks are used: /repo is loaded from source by vf/loader.py."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
