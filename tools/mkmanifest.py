"""Writes properties.jsonl and MANIFEST.json from the sources:
bash tools/gen.sh"""
import importlib
import json
import os

import sys
sys.path.insert(0, os.path.dirname(__file__))
import mkprops

TECH = {
    "C26": "runtime monitoring with fault injection at every step of a save",
    "C06": "runtime monitoring of parallel fits under injected delays, reordering and worker faults",
    "C28": "runtime monitoring of threads under injected delays and failures",
    "C35": "runtime monitoring of histories and threads, with an audit hook, snapshots of process-wide state and failures injected at random calls",
}
LEVEL = {"C26": "fault_enumeration"}
NA = {}

checks, na = [], []
for q in mkprops.P:
  i = q["id"]
  if i in NA:
    na.append({"property": i, "reason": NA[i]})
    continue
  if not os.path.exists(os.path.join("vf", "checks", i.lower() + ".py")):
    na.append({"property": i, "reason": "check not built yet"})
    continue
  m = importlib.import_module(f"vf.checks.{i.lower()}")
  c = m.CHECK
  checks.append({
      "property": i,
      "quick_cmd": f"bash check.sh {i}",
      "thorough_cmd": f"bash check.sh {i} --tier thorough",
      "technique": c.technique or TECH.get(
          i, "runtime monitoring: real executions observed by invariant and reference-model oracles"),
      "level": c.level,
      "level_note": c.level_note or
          "Every execution of the workload was judged by an independent oracle; "
          "nothing is claimed about inputs that were not executed. Trusted: NumPy, "
          "SciPy, scikit-learn and the reference computations in vf/. " +
          " ".join(c.assumptions),
  })
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none",
              "enable": "no hooks in /repo: monitors attach through the public API, subclasses and wrappers in /verif",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure Python: checks import /repo's working tree directly (PYTHONPATH=/repo). Every check has its own workload and oracles in vf/checks/.",
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
with open("properties.jsonl", "w") as f:
  for q in mkprops.P:
    f.write(json.dumps(q) + "\n")
print(len(checks), "checks", len(na), "not claimed")
