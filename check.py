"""check.py <property> [quick|thorough] [--case N] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("PYTHONPYCACHEPREFIX"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from kv import runner  # noqa

if __name__ == "__main__":
    prop = sys.argv[1]
    if "--worker" in sys.argv:
        a = sys.argv[sys.argv.index("--worker") + 1:]
        runner.worker(prop, int(a[0]), int(a[1]), int(a[2]), int(a[3]), float(a[4]))
    sys.exit(runner.main(prop, sys.argv[2:]))
