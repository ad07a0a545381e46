"""mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def build(spec):
    s = runpy.run_path(spec)
    for item in s["SEEDS"]:
        d = os.path.join(VERIF, "seeded", item["id"])
        scratch = tempfile.mkdtemp(prefix="seed")
        subprocess.check_call(["git", "clone", "-q", "/repo", scratch + "/r"])
        for path, old, new in item["edits"]:
            p = os.path.join(scratch, "r", path)
            t = open(p).read()
            assert t.count(old) == 1, (item["id"], path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", scratch + "/r", "diff"], text=True)
        shutil.rmtree(scratch)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": item["property"], "needs": item["needs"], "what_it_breaks": item["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.py", "w").write("from demolib import *\n" + item["demo"].lstrip("\n") + "\ndone()\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                                        'exec timeout 120 "$PY" -B "$D/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(HERE + "/seedlib/demolib.py", d)
        os.makedirs(d + "/kv")
        for f in ("__init__", "env", "wire", "loop", "broker", "world", "runner") + tuple(item.get("libs", ())):
            shutil.copy("%s/kv/%s.py" % (VERIF, f), d + "/kv/")
        print("built", item["id"])


for a in sys.argv[1:]:
    build(a)
