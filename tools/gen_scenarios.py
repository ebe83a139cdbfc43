"""Writes /verif/SCENARIOS.md from the evidence files of the last runs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Scenarios and what one run of them explored", "",
       "Written by tools/gen_scenarios.py from the evidence files of a quick run on the unchanged tree.  bound: the deviation bound",
       "(0 for enumerations and deterministic long runs, whose size is in the description); states: distinct decision states.", ""]
for f in sorted(glob.glob(os.path.join(ROOT, "evidence", "C*.json"))):
    d = json.load(open(f))
    c = d["coverage"]
    title = [json.loads(l)["title"] for l in open(os.path.join(ROOT, "properties.jsonl")) if json.loads(l)["id"] == d["property"]][0]
    out += ["## %s %s" % (d["property"], title), "",
            "%d executions, %d transitions, %d states, exhaustive within the bounds: %s" % (c["executions"], c["transitions"], c["states"], c["exhaustive"]),
            "", "| scenario | what | bound | executions | states | outcomes |", "|---|---|---|---|---|---|"]
    for s in c["scenarios"]:
        out.append("| %s | %s | %s | %s | %s | %s |" % (s["name"], s["about"].replace("|", "/").replace("\n", " ")[:160], s["deviation_bound"],
                                                        s["executions"], s["states"], s["outcomes"]))
    out.append("")
open(os.path.join(ROOT, "SCENARIOS.md"), "w").write("\n".join(out))
