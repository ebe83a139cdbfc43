"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Exhaustive within the bounds reported in the evidence file (deviation bound per scenario, operation depth, input "
        "alphabets); the executions explored are executions of the code in /repo itself. Trusts the virtual network, clock "
        "and locks of /verif/mc and CPython's bytecode atomicity.")
TECH = {
    "default": "stateless model checking of the real code under a controlled scheduler, clock and network (delay-bounded)",
    "inputs": "bounded-exhaustive enumeration of inputs and operation sequences on the real code against a reference model",
    "both": "bounded-exhaustive enumeration of operation histories plus stateless model checking of thread interleavings, real code",
}
KIND = {"C01": "inputs", "C02": "inputs", "C03": "both", "C16": "both", "C17": "both", "C18": "both", "C19": "both", "C20": "both",
        "C21": "both", "C22": "both", "C23": "both", "C24": "both"}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./run.sh %s --tier quick" % i, thorough_cmd="./run.sh %s --tier thorough" % i,
                           technique=TECH[KIND.get(i, "default")], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness replaces the standard library's locks, clocks, sockets and selectors before importing the code.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
