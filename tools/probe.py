"""probe.py SPEC.py [ID...]: tries many small changes on scratch copies of /repo: do the tests still pass, does the check notice?

SPEC.py defines M = [(id, property, [(path, old, new)...]), ...].  Prints one line per change."""
import json, os, re, resource, runpy, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d + ":" + d + "/../plug")
    r = d + "/../r.xml"
    os.makedirs(d + "/../plug", exist_ok=True)
    with open(d + "/../plug/vp_async_name.py", "w") as fd:
        fd.write(open("/opt/vp/plugins/vp_async_name.py").read().replace('TESTS = "/repo/tests/"', "TESTS = %r" % (d + "/tests/")))
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_async_name", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors",
                    "--disable-pytest-warnings", "-o", "junit_family=xunit2", "--junitxml=" + r, "tests"], cwd=d, env=env, timeout=90,
                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30)),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable & {c.get("classname") + "::" + c.get("name") for c in ET.parse(r).iter("testcase") if not len([k for k in c if k.tag in ("failure", "error", "skipped")])}


def copy(edits):
    t = tempfile.mkdtemp(prefix="probe.")
    d = t + "/r"
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    return t, d


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    t, d = copy([])
    base = tests(d)
    shutil.rmtree(t)
    print("baseline", len(base), flush=True)
    for mid, prop, edits in spec["M"]:
        if only and mid not in only:
            continue
        try:
            t, d = copy(edits)
        except AssertionError as e:
            print(mid, prop, "BAD EDIT", e, flush=True)
            continue
        lost = base - tests(d)
        if lost:
            print(mid, prop, "tests fail:", len(lost), sorted(lost)[:2], flush=True)
            shutil.rmtree(t)
            if not os.environ.get("PROBE_ALL"):
                continue
        res = []
        for pid in prop.split("+"):
            t0 = time.time()
            env = dict(os.environ, KV_REPO=d, KV_NO_EVIDENCE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            p = subprocess.run([PY, "check.py", pid, "quick"], cwd=os.path.dirname(HERE), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = p.stdout.strip().split("\n")[0][:160]
            res.append("%s exit %d %.0fs%s" % (pid, p.returncode, time.time() - t0, "" if p.returncode == 0 else " " + first))
        print(mid, "| CAUGHT" if any(" exit 1 " in x for x in res) else "| MISSED", "|", "; ".join(res), flush=True)
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    main()
