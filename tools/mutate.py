#!/usr/bin/env python3
"""Mutation campaign over scratch copies of /repo (a tool for finding gaps of the checks; no check uses it).

  mutate.py tests N SEED OUT    pick N mutants, run the stable tests on each (8 at a time), list the survivors in OUT
  mutate.py checks OUT          run the mapped checks on the survivors of OUT, list what no check noticed
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
MAP = [  # path prefix -> checks in order
    ("rocketry/core/time/", ["C01", "C02", "C03", "C04"]),
    ("rocketry/time/", ["C01", "C02", "C03", "C04"]),
    ("rocketry/pybox/time/", ["C02", "C04", "C03", "C08"]),
    ("rocketry/parse/", ["C05", "C04", "C06"]),
    ("rocketry/pybox/string", ["C05"]),
    ("rocketry/conditions/api", ["C09", "C08", "C05", "C10"]),
    ("rocketry/conditions/task", ["C08", "C12", "C09", "C10"]),
    ("rocketry/conditions/", ["C07", "C06", "C09", "C10", "C05"]),
    ("rocketry/conds", ["C09", "C10", "C05"]),
    ("rocketry/core/condition", ["C06", "C07", "C05"]),
    ("rocketry/core/parameters", ["C16", "C17", "C07"]),
    ("rocketry/parameters", ["C16", "C22"]),
    ("rocketry/args", ["C16", "C17", "C23"]),
    ("rocketry/tasks", ["C24", "C16", "C22", "C19"]),
    ("rocketry/log", ["C13", "C21", "C11"]),
    ("rocketry/core/log", ["C13", "C21", "C25", "C11"]),
    ("rocketry/core/hook", ["C23"]),
    ("rocketry/application", ["C22", "C23", "C25"]),
    ("rocketry/session", ["C22", "C25", "C19", "C15", "C13", "C11", "C23", "C14", "C16", "C18", "C20"]),
    ("rocketry/core/schedule", ["C19", "C18", "C14", "C15", "C20", "C13", "C17", "C23"]),
    ("rocketry/core/task", ["C13", "C14", "C15", "C18", "C20", "C11", "C16", "C17", "C21", "C22", "C19", "C12", "C23", "C24", "C25"]),
]
SKIP = ("rocketry/test/", "rocketry/testing/", "rocketry/_version", "rocketry/pybox/query", "rocketry/pybox/container", "rocketry/log/handlers", "rocketry/args/secret", "rocketry/utils")


def files():
    out = subprocess.check_output(["git", "-C", REPO, "ls-files", "rocketry"], text=True).split()
    return [f for f in out if f.endswith(".py") and not f.startswith(SKIP) and any(f.startswith(p) for p, _ in MAP)]


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "+", ast.FloorDiv: "*"}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for line in src.splitlines(True):
            self.off.append(self.off[-1] + len(line.encode()))
        self.b = src.encode()
        self.out = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, f"line {n.lineno}: {what}: {self.b[a:b].decode()[:80]!r} -> {new[:80]!r}"))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                self.add(n, f"{self.text(n.left)} {op} {self.text(n.comparators[0])}", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join(self.text(v) for v in n.values) + ")", "and/or")
        for k in range(len(n.values)):
            rest = [self.text(v) for j, v in enumerate(n.values) if j != k]
            self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f"({self.text(n.operand)})", "drop not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            self.add(n, f"({self.text(n.left)} {BIN[type(n.op)]} {self.text(n.right)})", "arith")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int) and not isinstance(v, bool):
            self.add(n, str(v + 1), "int")
        elif v is None:
            pass

    def visit_If(self, n):
        self.add(n.test, f"(not ({self.text(n.test)}))", "negate if")
        self.add(n.test, "False", "never if")
        self.add(n.test, "True", "always if")
        self.generic_visit(n)

    visit_While = None

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), "ifexp body")
        self.add(n, self.text(n.orelse), "ifexp else")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add(n.value, "None", "return none")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if "warn" not in t and "logger.debug" not in t and not t.startswith("raise"):
            self.add(n, "pass", "delete call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "delete assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete assignment")
        self.generic_visit(n)

    def visit_Call(self, n):
        for k, kw in enumerate(n.keywords):
            if kw.arg and len(n.keywords) + len(n.args) > 1:
                # drop a keyword argument
                args = [self.text(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + self.text(q.value) for q in n.keywords if q is not kw]
                self.add(n, f"{self.text(n.func)}({', '.join(args)})", f"drop {kw.arg}=")
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            self.add(n.func, "max" if n.func.id == "min" else "min", "min/max")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "break", "continue->break")

    def visit_Break(self, n):
        self.add(n, "continue" if False else "pass", "drop break")

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        # not the defaults' annotations
        for x in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(x)
        for x in n.body:
            self.visit(x)
    visit_AsyncFunctionDef = visit_FunctionDef


Find.visit_While = lambda self, n: self.generic_visit(n)


def mutants():
    out = []
    for f in files():
        with open(os.path.join(REPO, f)) as fh:
            src = fh.read()
        v = Find(src)
        v.visit(ast.parse(src))
        for a, b, new, what in v.out:
            m = (v.b[:a] + new.encode() + v.b[b:]).decode()
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            if ast.dump(ast.parse(m)) != ast.dump(ast.parse(src)):
                out.append({"file": f, "a": a, "b": b, "new": new, "what": what})
    return out


PLUG = '''
import json, pytest
S = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
class P:
    pass
def name(nodeid):
    parts = nodeid.split("::")
    return parts[0][:-3].replace("/", ".") + "".join("." + p for p in parts[1:-1]) + "::" + parts[-1]
SESS = None
def pytest_sessionstart(session):
    global SESS
    SESS = session
def pytest_runtest_logreport(report):
    if report.failed and name(report.nodeid) in S:
        print("STABLE-FAIL", report.nodeid)
        SESS.shouldstop = "stable test failed"
def pytest_collectreport(report):
    if report.failed:
        print("STABLE-FAIL collect", report.nodeid)
        SESS.shouldstop = "collect"
'''


def apply(root, m):
    p = os.path.join(root, m["file"])
    with open(p, "rb") as f:
        b = f.read()
    with open(p, "wb") as f:
        f.write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
    return p, b


def tests(n, seed, outp):
    ms = mutants()
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    print(len(ms), "mutants in all", flush=True)
    ms = ms[:n]
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    with open(os.path.join(base, "mutplug.py"), "w") as f:
        f.write(PLUG)
    W = 7
    import queue
    q = queue.Queue()
    for k in range(W):
        d = os.path.join(base, f"w{k}")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"))
        q.put(d)
    surv = []

    def one(m):
        d = q.get()
        p, orig = apply(d, m)
        tmp = tempfile.mkdtemp(dir=base)
        try:
            env = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{base}:{d}", HOME=tmp)
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x" if False else "-q", "-p", "no:cacheprovider", "-p", "mutplug", "--timeout=60", "--ignore=rocketry/test/session/test_control.py", "--ignore=rocketry/test/schedule/test_multilaunch.py",
                                    "--ignore=rocketry/test/schedule/test_terminate.py", f"--basetemp={tmp}/t", "rocketry"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
                if os.environ.get("MUT_DEBUG"):
                    print(r.stdout[-1500:])
                ok = "STABLE-FAIL" not in r.stdout and " passed" in r.stdout
            except subprocess.TimeoutExpired:
                ok = False
        finally:
            with open(p, "wb") as f:
                f.write(orig)
            shutil.rmtree(tmp, ignore_errors=True)
            q.put(d)
        m["survived_tests"] = ok
        return m
    t0 = time.time()
    with ThreadPoolExecutor(W) as ex:
        for k, m in enumerate(ex.map(one, ms)):
            if m["survived_tests"]:
                surv.append(m)
            if k % 20 == 19:
                print(f"{k + 1} done, {len(surv)} survive, {time.time() - t0:.0f} s", flush=True)
            with open(outp, "w") as f:
                json.dump(surv, f, indent=1)
    shutil.rmtree(base)


def checks(outp):
    with open(outp) as f:
        ms = json.load(f)
    base = tempfile.mkdtemp(prefix="mutc-", dir="/tmp")
    d = os.path.join(base, "repo")
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"))
    vd = os.path.join(base, "verif")
    shutil.copytree("/verif", vd, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    for m in ms:
        if "caught" in m:
            continue
        p, orig = apply(d, m)
        m["caught"] = None
        try:
            order = next(c for pre, c in MAP if m["file"].startswith(pre))
            for c in order:
                try:
                    r = subprocess.run([os.path.join(vd, "check"), c], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    m["caught"] = f"{c} TIMEOUT"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m["caught"] = c
                    break
                if r.returncode != 0:
                    m["caught"] = f"{c} rc={r.returncode} {r.stdout[-300:]}"
                    break
        finally:
            with open(p, "wb") as f:
                f.write(orig)
        print(m["caught"] or "MISSED", m["file"], m["what"], flush=True)
        with open(outp, "w") as f:
            json.dump(ms, f, indent=1)
    shutil.rmtree(base)
    print(sum(not m["caught"] for m in ms), "missed of", len(ms))


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        tests(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    elif sys.argv[1] == "count":
        import collections
        print(collections.Counter(m["file"] for m in mutants()))
    else:
        checks(sys.argv[2])
