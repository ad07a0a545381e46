"""mutate.py list|run [SHARD/N] [FILE...]: systematic small changes of /repo/kiel: those the tests let through are run against the checks of their file.

Prints one line per change; log lines, docstrings and __repr__ are left alone."""
import ast, concurrent.futures, importlib.util, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
CHECKS = [
    ("protocol/messages", "C03 C04 C05 C15 C26 C31"), ("protocol", "C01 C02 C03 C06"), ("compression", "C05 C03"), ("connection", "C06 C07 C08 C25 C30 C29"),
    ("cluster", "C09 C08 C10 C27 C29 C25 C07 C30"), ("clients/client", "C10 C07 C25 C29 C11 C15 C19"), ("clients/consumer", "C15 C17 C26 C25 C16 C27 C29 C31 C18 C28 C10 C19"),
    ("clients/single", "C16 C15 C17 C10 C25 C29"), ("clients/grouped", "C32 C18 C19 C20 C21 C25 C28 C30"), ("clients/producer", "C11 C12 C13 C14 C31 C27 C29 C30 C25"),
    ("zookeeper/allocator", "C32 C21 C22 C24 C23 C28 C25 C30"), ("zookeeper/party", "C32 C24 C22 C25"), ("zookeeper/shared_set", "C32 C23 C22 C28"),
    ("events", "C22 C28"), ("iterables", "C11 C18"), ("exc", "C07 C08"), ("constants", "C01 C10"),
]
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "*"}


class Source(object):
    def __init__(self, text):
        self.text, self.lines = text, [0]
        for l in text.encode().split(b"\n"):
            self.lines.append(self.lines[-1] + len(l) + 1)
        self.raw = text.encode()

    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()


def is_log(n):
    return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "log." in ast.unparse(n)[:5])


def mutants(text):
    s, tree = Source(text), ast.parse(text)
    out = []

    def put(n, new, what):
        a, b = s.span(n)
        out.append((n.lineno, what, a, b, new))

    def expr(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s) %s (%s)" % (s.get(n.left), SWAP[type(n.ops[0])], s.get(n.comparators[0])), "compare")
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                put(n, "not (%s)" % s.get(n), "compare")
        elif isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                put(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % s.get(x) for j, x in enumerate(n.values) if j != i), "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % s.get(n.operand), "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            put(n, "(%s) %s (%s)" % (s.get(n.left), BIN[type(n.op)], s.get(n.right)), "arith")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            put(n, "(%r)" % (n.value + 1), "const")
        elif isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "sorted", "int", "reversed", "str"):
                put(n, "(%s)" % s.get(n.args[0]), "drop call")
            for k in n.keywords:
                if k.arg:
                    put(n, "%s(%s)" % (s.get(n.func), ", ".join([s.get(a) for a in n.args] + ["%s=%s" % (x.arg, s.get(x.value)) if x.arg else "**" + s.get(x.value)
                                                                                             for x in n.keywords if x is not k])), "drop " + k.arg)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    put(c, "True", "filter")

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.stmt):
                if is_log(c) or isinstance(c, (ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(c, ast.FunctionDef) and c.name in ("__repr__",):
                    continue
                stmt(c, fn)
                walk(c, c.name if isinstance(c, ast.FunctionDef) else fn)
            else:
                if isinstance(c, ast.Raise):
                    continue
                expr(c) if isinstance(c, ast.expr) else None
                if isinstance(c, ast.ExceptHandler):
                    if c.type is not None:
                        put(c.type, "ZeroDivisionError", "except")
                walk(c, fn)

    def stmt(n, fn):
        if isinstance(n, ast.Expr):
            put(n, "pass", "delete")
            if isinstance(n.value, ast.Yield) and n.value.value is not None:
                put(n, s.get(n.value.value), "unawaited")
        elif isinstance(n, ast.Assign) and fn:
            if not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
                put(n, "pass", "delete")
        elif isinstance(n, (ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)) and fn:
            put(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "return")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "not (%s)" % s.get(n.test), "negate") if not isinstance(n.test, (ast.Compare, ast.UnaryOp)) else None
            if isinstance(n, ast.If):
                put(n.test, "True", "always")
                put(n.test, "False", "never")
            elif not isinstance(n.test, ast.Constant):
                put(n.test, "True", "always")
        for body in ("body", "orelse", "finalbody"):
            b = getattr(n, body, None)
            if not isinstance(b, list) or isinstance(n, (ast.ClassDef, ast.Module)) or fn == "__init__" or getattr(n, "name", "") == "__init__":
                continue
            b = [x for x in b if not is_log(x)]
            for x, y in zip(b, b[1:]):
                if isinstance(x, ast.FunctionDef) or isinstance(y, ast.FunctionDef) or isinstance(y, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
                    continue
                (a, b1), (c, d) = s.span(x), s.span(y)
                out.append((x.lineno, "swap", a, d, (s.raw[c:d] + s.raw[b1:c] + s.raw[a:b1]).decode()))
    walk(tree, "")
    seen, res = set(), []
    for line, what, a, b, new in out:
        t = (s.raw[:a] + new.encode() + s.raw[b:]).decode()
        if t in seen or t == text:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
            compile(t, "x", "exec")
        except SyntaxError:
            continue
        res.append((line, what, " ".join(s.raw[a:b].decode().split())[:70], " ".join(new.split())[:70], t))
    return res


def files(only):
    for base, _, names in sorted(os.walk("/repo/kiel")):
        for f in sorted(names):
            rel = os.path.relpath(os.path.join(base, f), "/repo/kiel")
            if f.endswith(".py") and f != "__init__.py" and (not only or any(o in rel for o in only)):
                yield rel


def main():
    what, args = sys.argv[1], sys.argv[2:]
    k, n = 0, 1
    if args and "/" in args[0] and args[0][0].isdigit():
        k, n = map(int, args.pop(0).split("/"))
    spec = importlib.util.spec_from_file_location("probe", HERE + "/probe.py")
    probe = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(probe)
    todo = [(f, m) for f in files(args) for m in mutants(open("/repo/kiel/" + f).read())]
    print(len(todo), "changes", flush=True)
    if what == "list":
        for f, m in todo:
            print(f, *m[:4], sep=" | ")
        return
    random.Random(5).shuffle(todo)
    t, d = probe.copy([])
    base = probe.tests(d)
    shutil.rmtree(t)

    def one(f, m):
        t, d = probe.copy([])
        head = "%s:%d %s | %s -> %s |" % (f, m[0], m[1], m[2], m[3])
        try:
            open(d + "/kiel/" + f, "w").write(m[4])
            try:
                if base - probe.tests(d):
                    return head + " TESTS"
            except Exception as e:
                return head + " TESTS %r" % e
            ran = []
            for c in next(c for p, c in CHECKS if f.startswith(p)).split():
                t0 = time.time()
                env = dict(os.environ, KV_REPO=d, KV_NO_EVIDENCE="1", VERIF_SEED="1")
                try:
                    p = subprocess.run([PY, "check.py", c, "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                ran.append("%s %s %.0fs" % (c, rc, time.time() - t0))
                if rc == 1:
                    return head + " CAUGHT " + ran[-1]
                if rc not in (0, 1):
                    ran[-1] += " " + p.stdout.strip().split("\n")[0][:100] if rc != "timeout" else ""
            return head + " MISSED " + "; ".join(ran)
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", 2))) as ex:
        done = open(os.environ["DONE"]).read() if "DONE" in os.environ else ""      # the log of an earlier run
        fs = [ex.submit(one, f, m) for i, (f, m) in enumerate(todo) if i % n == k and "%s:%d %s | %s -> %s |" % (f, m[0], m[1], m[2], m[3]) not in done]
        for x in concurrent.futures.as_completed(fs):
            print(x.result(), flush=True)


if __name__ == "__main__":
    main()
