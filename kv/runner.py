"""Runs a property's scenarios over many seeded cases in worker processes.

Verdicts: violated (exit 1, VIOLATION line, replay file), held on everything
observed (exit 0), inconclusive (exit 2: harness error, or the monitors were
not reached often enough).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import env

CPU_BUDGET = 40.0  # seconds of CPU for one case; ordinary cases take milliseconds


class Violation(Exception):
    """A monitor saw the property broken.  ``key`` names the mechanism."""

    def __init__(self, message, key=None, detail=None):
        super().__init__(message)
        self.message, self.key, self.detail = message, key, detail


class Inconclusive(Exception):
    """The harness could not do its job (not a verdict about kiel)."""


class CpuBudget(KeyboardInterrupt):
    pass


class Ctx(object):
    """Collects what the monitors actually observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.trace = None
        self.nontrivial = False
        self.thorough = tier == "thorough"
        self.found = []

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        """Marks the running case as non-trivial with this signature."""
        h = hashlib.blake2b(repr(parts).encode("utf-8", "replace"), digest_size=8).hexdigest()
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, message, key=None, detail=None):
        raise Violation(message, key, detail)

    def finding(self, key, message):
        """A violation that does not end the case (see KNOWN_FINDINGS)."""
        self.found.append((key, message))

    def check(self, cond, message, *args, **kw):
        self.counts["oracle_checks"] += 1
        if not cond:
            raise Violation(message % args if args else message, kw.get("key"), kw.get("detail"))


def load(prop):
    return importlib.import_module("kv.checks.%s" % prop.lower())


def pick(mod, idx):
    """Deterministic weighted round robin over the module's scenarios."""
    table = []
    for weight, fn in mod.SCENARIOS:
        table.extend([fn] * weight)
    # every block of len(table) cases has all of them, in an order of its own
    block, i = divmod(idx, len(table))
    random.Random("pick %d" % block).shuffle(table)
    return table[i]


def kiel_frame(tb):
    """Innermost frame of the traceback that lies in the code under test."""
    found = None
    root = os.path.realpath(env.REPO) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            found = "%s:%s" % (os.path.relpath(os.path.realpath(f.filename), root), f.name)
    return found


def run_case(mod, ctx, idx, scenario=None):
    """-> None or a dict describing a violation / harness error."""
    from .loop import Hang, Livelock
    fn = scenario or pick(mod, idx)
    rng = random.Random("%s/%s/%s" % (mod.ID, ctx.seed, idx))
    random.seed(rng.random())
    ctx.trace = None
    ctx.found = []
    problem = None
    signal.setitimer(signal.ITIMER_PROF, CPU_BUDGET, 5.0)
    try:
        fn(rng, ctx)
    except Violation as v:
        problem = {"kind": "violation", "message": v.message, "key": v.key, "detail": v.detail}
    except CpuBudget:
        problem = {"kind": "violation", "message": "no progress: a case that takes milliseconds burned %ds of CPU" % CPU_BUDGET}
    except (Hang, Livelock) as e:
        problem = {"kind": "violation", "message": "%s: %s" % (type(e).__name__, e)}
    except Inconclusive as e:
        problem = {"kind": "harness", "message": str(e)}
    except Exception as e:
        where = kiel_frame(sys.exc_info()[2])
        tb = traceback.format_exc()
        if where and not isinstance(e, (MemoryError,)) and not (isinstance(e, OSError) and e.errno in (23, 24, 98, 99)):
            problem = {"kind": "violation", "message": "unexpected %s from %s: %s" % (type(e).__name__, where, e), "detail": tb}
        else:
            problem = {"kind": "harness", "message": "%s: %s" % (type(e).__name__, e), "detail": tb}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if problem:
        problem.update(property=mod.ID, seed=ctx.seed, case=idx, tier=ctx.tier, scenario=fn.__name__,
                       trace=ctx.trace() if callable(ctx.trace) else ctx.trace)
    return problem


def worker(prop, w, n, total, minimum, soft):
    env.setup()
    mod = load(prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))

    def on_prof(*_):
        raise CpuBudget()
    signal.signal(signal.SIGPROF, on_prof)
    start = time.monotonic()
    problems, done, nonviol, reported = [], 0, 0, set()
    per = collections.Counter()
    for idx in range(w, total, n):
        if time.monotonic() - start > soft and done * n >= minimum:
            break
        sys.stdout.write("S %d\n" % idx)
        sys.stdout.flush()
        p = run_case(mod, ctx, idx)
        for key, message in ctx.found:
            if key not in reported:
                reported.add(key)
                q = {"kind": "violation", "message": message, "key": key, "property": prop, "seed": ctx.seed, "case": idx, "tier": tier,
                     "scenario": pick(mod, idx).__name__, "trace": ctx.trace() if callable(ctx.trace) else None}
                sys.stdout.write("P %s\n" % json.dumps(q, default=repr))
        done += 1
        per[pick(mod, idx).__name__] += 1
        if p:
            problems.append(p)
            sys.stdout.write("P %s\n" % json.dumps(p, default=repr))
            sys.stdout.flush()
            if p["kind"] == "violation":
                nonviol += 1
            if len(problems) >= 5:
                break
    out = {"done": done, "counts": ctx.counts, "sigs": sorted(ctx.sigs), "samples": ctx.samples,
           "scenarios": per}
    sys.stdout.write("R %s\n" % json.dumps(out, default=repr))
    sys.stdout.flush()
    os._exit(0)


def known_findings(prop):
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS")
    found = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in line.split()[1:3])
                if parts["property"] == prop:
                    found[parts["key"]] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
    return found


def main(prop, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, env.VERIF)
    env.setup()
    mod = load(prop)

    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        ctx = Ctx(prop, rec["tier"], rec["seed"])
        signal.signal(signal.SIGPROF, lambda *_: (_ for _ in ()).throw(CpuBudget()))
        p = run_case(mod, ctx, rec["case"])
        print(json.dumps(p, indent=1, default=repr))
        os._exit(1 if p else 0)
    if "--case" in argv:
        ctx = Ctx(prop, tier, seed)
        signal.signal(signal.SIGPROF, lambda *_: (_ for _ in ()).throw(CpuBudget()))
        p = run_case(mod, ctx, int(argv[argv.index("--case") + 1]))
        print(json.dumps(p, indent=1, default=repr))
        print(dict(ctx.counts))
        os._exit(1 if p else 0)

    thorough = tier == "thorough"
    total = mod.THOROUGH if thorough else mod.QUICK
    minimum = min(total, getattr(mod, "MINIMUM", max(8, mod.QUICK // 10)))
    soft = float(os.environ.get("KV_SOFT", 1200 if thorough else 200))
    hard = soft * 2 + 300 if thorough else 700
    n = int(os.environ.get("KV_WORKERS", getattr(mod, "WORKERS", 8)))
    n = max(1, min(n, total))
    wenv = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                PYTHONPYCACHEPREFIX="/nonexistent-pycache", VERIF_TIER=tier)
    procs = []
    for w in range(n):
        procs.append(subprocess.Popen(
            [sys.executable, os.path.join(env.VERIF, "check.py"), prop, "--worker", str(w), str(n), str(total),
             str(minimum), str(soft)], stdout=subprocess.PIPE, env=wenv, cwd=env.VERIF, start_new_session=True))
    bufs = {p.stdout.fileno(): (p, b"") for p in procs}
    results, problems, last = [], [], {}
    known = known_findings(prop)
    stop_at = None
    try:
        while bufs:
            if time.monotonic() - t0 > hard or (stop_at and time.monotonic() > stop_at):
                break
            ready, _, _ = select.select(list(bufs), [], [], 0.5)
            for fd in ready:
                p, b = bufs[fd]
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    bufs.pop(fd)
                    continue
                *lines, b = (b + chunk).split(b"\n")
                bufs[fd] = (p, b)
                for line in lines:
                    if line[:2] == b"S ":
                        last[p.pid] = int(line[2:])
                    elif line[:2] == b"P ":
                        problems.append(json.loads(line[2:]))
                        if problems[-1]["kind"] == "violation" and problems[-1].get("key") not in known and stop_at is None:
                            stop_at = time.monotonic() + 3
                    elif line[:2] == b"R ":
                        results.append(json.loads(line[2:]))
                        last.pop(p.pid, None)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    kinds = collections.defaultdict(list)
    for p in problems:
        if p["kind"] == "violation" and p.get("key") and p["key"] in known:
            kinds["known"].append(p)
        else:
            kinds[p["kind"]].append(p)

    counts, sigs, samples, per, done = collections.Counter(), set(), [], collections.Counter(), 0
    for r in results:
        counts.update(r["counts"])
        sigs.update(r["sigs"])
        samples.extend(r["samples"][:1])
        per.update(r["scenarios"])
        done += r["done"]
    done = max(done, len(problems))
    shown = set()
    for p in kinds["known"]:
        if p["key"] not in shown:
            shown.add(p["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, known[p["key"]]))
    level = mod.LEVEL
    coverage = {
        "evaluations": done, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
        "samples": samples[:4] or [{"note": "run ended before a sample was taken"}],
        "observed": dict(sorted(counts.items())), "cases_per_scenario": dict(sorted(per.items())),
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
                "wall_s": round(time.monotonic() - t0, 2), "violations": len(kinds["violation"])}
    if os.environ.get("KV_NO_EVIDENCE") != "1":
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(env.VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as fd:
            json.dump(evidence, fd, indent=1, default=repr)
            fd.write("\n")
        os.replace(path + ".tmp", path)
    status = 0
    if kinds["violation"]:
        rdir = os.path.join(env.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, p in enumerate(kinds["violation"][:3]):
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, p["seed"], p["case"]))
            with open(path, "w") as fd:
                json.dump(p, fd, indent=1, default=repr)
            if i == 0:
                print("%s" % p["message"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                print("  also: case %d (%s): %s" % (p["case"], p["scenario"], p["message"]))
        status = 1
    else:
        why = []
        for p in kinds["harness"][:3]:
            why.append("case %d (%s): %s\n%s" % (p["case"], p["scenario"], p["message"], p.get("detail") or ""))
        if len(results) < n:
            why.append("%d of %d workers gave no result (last cases: %s)" % (n - len(results), n, sorted(last.values())))
        if done < minimum:
            why.append("only %d cases ran, need %d" % (done, minimum))
        for name, need in getattr(mod, "NEED", {}).items():
            if counts[name] < need:
                why.append("monitor %r observed %d, need %d" % (name, counts[name], need))
        if len(sigs) < 2:
            why.append("only %d distinct non-trivial cases" % len(sigs))
        if why:
            print("INCONCLUSIVE property=%s\n%s" % (prop, "\n".join(why)))
            status = 2
    print("%s %s: %d cases, %d distinct, %.1fs, exit %d; %s" % (
        prop, tier, done, len(sigs), time.monotonic() - t0, status,
        ", ".join("%s=%d" % kv for kv in sorted(counts.items())[:12])))
    return status
