"""Writes /verif/MANIFEST.json from the check modules present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from kv import env  # noqa
env.setup()

PY = "/opt/venv/bin/python"
COMMON = ("Runtime verdict: holds on every execution observed, not proved. Trusts the independent codec/fake broker in kv/ "
          "(written from the protocol documentation) and CPython/tornado/kazoo. ")
checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(VERIF, "kv", "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "runtime monitor not built yet"})
        continue
    mod = importlib.import_module("kv.checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "%s check.py %s quick" % (PY, pid),
        "thorough_cmd": "%s check.py %s thorough" % (PY, pid),
        "evidence_file": "evidence/%s.json" % pid,
        "technique": mod.TECHNIQUE if hasattr(mod, "TECHNIQUE") else
        "runtime monitoring: online monitors and offline trace checkers over real executions against a scripted fake cluster",
        "level": mod.LEVEL,
        "level_note": COMMON + "Workload: " + mod.RULE,
    })
out = {"version": 1, "setup_cmd": "%s tools/selftest.py" % PY, "checks": checks, "not_applicable": missing,
       "notes": "One entry point: check.py <ID> [quick|thorough] [--case N] [--replay FILE]. No hooks in /repo are needed: the "
                "monitors observe sockets, public results and callbacks."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
    json.dump(out, fd, indent=1)
    fd.write("\n")
print(len(checks), "checks;", len(missing), "missing")
