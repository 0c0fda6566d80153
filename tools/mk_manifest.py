#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in mc/checks."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DFS = "model checking: exhaustive stateless exploration of the real code against a reference model"
SCHED = "model checking: exhaustive schedule enumeration (preemption-bounded) of the real threads under a controlled scheduler"
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")) and pid in NOTES:
        kind, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 mc/run.py {pid} --tier quick",
            "thorough_cmd": f"python3 mc/run.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": {"dfs": DFS, "sched": SCHED, "both": SCHED + "; sequential histories enumerated against a reference model",
                          "crash": "model checking: exhaustive enumeration of histories and crash points on the real code against a reference model"}[kind],
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": "no check registered yet (machinery under construction)"})
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none", "enable": "no hooks: the checks replace threading/time primitives before importing the sources of /repo and observe instructions through sys.monitoring", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check runs the sources in /repo's working tree directly (no build step, no byte code of /repo is read or written). KNOWN_FINDINGS.jsonl lists repaired and recorded defects."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
