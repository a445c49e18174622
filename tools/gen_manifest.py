"""writes /verif/MANIFEST.json from the checks which exist"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]

TREE = "explicit-state model checking of the implementation: every operation history up to a depth on real parameter trees, heap-canonical state merging, reference model in lock step"
CASE = "explicit-state model checking of the implementation: exhaustive enumeration of a finite space of executions, each compared with a reference model"
FAULT = "stateless model checking of the implementation: every sequence of environment answers (optimizer calls, failures, worker results, clock) up to a bound"
THREADS = "stateless model checking of the implementation: all orders of the operations of two models, and all interleavings of two threads up to a preemption bound under a controlled scheduler, each compared with runs alone"
TECH = {"C07": CASE, "C08": CASE, "C09": CASE, "C11": TREE.replace("real parameter trees", "real observable objects"),
        "C12": CASE, "C13": TREE.replace("real parameter trees", "real cached functions"), "C14": TREE.replace("real parameter trees", "real cached functions"),
        "C18": CASE, "C29": CASE, "C32": CASE, "C33": THREADS, "C30": FAULT.replace("optimizer calls, failures, worker results, clock", "each call of user code failing, by each type of exception") + ", within operation histories on real parameter trees", "C20": FAULT, "C21": FAULT, "C22": FAULT, "C24": TREE.replace("real parameter trees", "real containers and views"), "C26": FAULT,
        "C27": TREE.replace("real parameter trees", "the real example models")}
NOTE = ("Holds on every execution explored within the stated bounds (see evidence: states, transitions, depths, whether capped); "
        "nothing is claimed beyond the bounds. Trusts the reference model in /verif/mc and the check, NumPy, and that isomorphic heaps have equal futures.")
checks = []
missing = []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": TECH.get(i, TREE), "level": "model_checking", "level_note": NOTE})
    else:
        missing.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": missing}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
