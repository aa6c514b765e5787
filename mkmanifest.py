#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = getattr(plan, "NOTES", {})
NA = getattr(plan, "NA", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.UNITS and plan.UNITS[i]:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deductive contracts (Verus) on functions extracted from /repo on every run; bounded replay of the real crate for failing inputs",
            "level": "proof", "level_note": NOTE.get(i, plan.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet brought under contract")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg ref_verif", "enable": "RUSTFLAGS=\"--cfg ref_verif\" with REF_VERIF_EXCHANGE / REF_VERIF_FARMING naming the harness files to include (hb.sh)",
               "source_commits": [l.split()[0] for l in hook if "verif hook" in l]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
