"""seedtry.py [-n] ID...: planted bugs on scratch clones of /repo, several at a time: demo on the clean tree, demo, tests and quick check with the patch (-n: no check)."""
import concurrent.futures, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
spec = importlib.util.spec_from_file_location("probe", HERE + "/probe.py")
probe = importlib.util.module_from_spec(spec)
sys.argv, args = [sys.argv[0]], sys.argv[1:]
spec.loader.exec_module(probe)


def demo(s, d):
    t = tempfile.mkdtemp(prefix="seeddemo.")
    shutil.copytree(s, t + "/s", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = subprocess.run(["bash", t + "/s/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=290)
    shutil.rmtree(t)
    return p.returncode, p.stdout


def one(sid, check, base):
    s = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(s + "/meta.json"))["property"]
    out = []
    t, d = probe.copy([])
    try:
        c, text = demo(s, d)
        out.append("clean=%d" % c)
        if c:
            out.append(text[-700:])
        p = subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            return sid, prop, ["DOES NOT APPLY " + p.stderr]
        b, text = demo(s, d)
        out.append("patched=%d %s" % (b, text.strip().split("\n")[-1][:150]))
        lost = base - probe.tests(d)
        out.append("tests %s" % ("ok" if not lost else "LOST %d %s" % (len(lost), sorted(lost)[:2])))
        if check:
            t0 = time.time()
            env = dict(os.environ, KV_REPO=d, KV_NO_EVIDENCE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            p = subprocess.run([PY, "check.py", prop, "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append("check exit %d in %.0fs %s" % (p.returncode, time.time() - t0, p.stdout.strip().split("\n")[0][:170]))
            if p.returncode != 1:
                out.append("MISSED")
        if c or not b or lost:
            out.append("*** DOES NOT COUNT")
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return sid, prop, out


check = "-n" not in args
ids = [a for a in args if a != "-n"] or sorted(os.listdir(VERIF + "/seeded"))
t, d = probe.copy([])
base = probe.tests(d)
shutil.rmtree(t)
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", 1 if check else 4))) as ex:
    for f in [ex.submit(one, i, check, base) for i in ids]:
        sid, prop, out = f.result()
        print(sid, prop, " | ".join(out), flush=True)
