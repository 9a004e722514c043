"""C23: hooks run around what they hook: once, in order, with their arguments and with effect."""
import functools
import json
import logging
import os
import shutil
import tempfile

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..sim import Sim, wait_for

RULE = "at least two hooks of a kind, one of them a generator, and something they hook happened more than once"
ASSUMPTIONS = ["hooks do not fail", "a task has one run at a time", "a hook is not registered from a hook of its own kind", "process runs are not terminated"]

ARGS = ["session", "config", "func", "env", "simple", "param", "named", "none", "none", "none"]
OUTS = ["success", "success", "fail", "inaction"]


@st.composite
def hook(draw, kinds, whens=("before", "before", "setup")):
    return {"kind": draw(st.sampled_from(kinds)), "gen": draw(st.sampled_from(["no", "gen", "gen", "early"])), "arg": draw(st.sampled_from(ARGS)), "when": draw(st.sampled_from(whens))}


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    prios = draw(st.permutations(list(range(n))))
    tasks = [{"role": draw(st.sampled_from(["normal", "normal", "startup", "shutdown"])), "prio": prios[i] + 1, "exec": draw(st.sampled_from([None, "main", "main", "async", "thread"])), "out": draw(st.sampled_from(OUTS))} for i in range(n)]
    hooks = [draw(hook(["startup", "startup", "cycle", "cycle", "shutdown", "shutdown", "execute", "execute"])) for _ in range(draw(st.integers(1, 8)))]
    setup = {"gen": draw(st.booleans()), "makes": draw(st.sampled_from([False, True])), "swaps": draw(st.sampled_from([None, None, *range(n)])), "exec": draw(st.sampled_from([None, "main", "async", "thread"])),
             "repo": draw(st.sampled_from([None, None, "success", "fail", "none"])), "via": draw(st.sampled_from(["setup", "setup()", "hook_startup"]))}
    return {"tasks": tasks, "hooks": hooks, "setup": setup, "lives": [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))]}


def arg_of(kind, env):
    "the argument and a check of the value it got"
    from rocketry.args import Arg, Config, EnvArg, FuncArg, Session, SimpleArg, Task
    session = env.session
    if kind == "session":
        return Session(), lambda v: v is session
    if kind == "config":
        return Config(), lambda v: v is session.config
    if kind == "func":
        n = [0]

        def count():
            n[0] += 1
            return n[0]
        last = [0]

        def ok(v):
            last[0] += 1
            return v == last[0]       # resolved once for each call of the hook
        return FuncArg(count), ok
    if kind == "env":
        return EnvArg("VPF_SURELY_NOT_SET", default="the default"), lambda v: v == "the default"
    if kind == "simple":
        return SimpleArg(["x"]), lambda v: v == ["x"]
    return None, None


def run(c, ctx):
    from redbird.repos import MemoryRepo
    from rocketry.args import Config, Task as TaskArg, TaskLogger, Session as SessionArg
    from rocketry.conditions import AlwaysTrue, FuncCond
    from rocketry.exc import TaskInactionException
    from rocketry.log import MinimalRunRecord
    T, S = c["tasks"], c["setup"]
    n = len(T)
    line = []                 # what happened on the main line
    side = {}                 # task -> what happened in its runs (async, thread)
    life = [-1]
    with Env(app=True, execution="main") as env:
        app, session = env.app, env.session
        target = {"cycles": 1}
        session.config.shut_cond = FuncCond(func=lambda: session.scheduler.n_cycles >= target["cycles"])
        execs = {}

        def where(task):
            return line if execs[task] == "main" else side.setdefault(task, [])

        def body(name, out):
            def func():
                where(name).append(f"{name} runs")
                if out == "fail":
                    raise RuntimeError("fails")
                if out == "inaction":
                    raise TaskInactionException("nothing to do")
            return func

        def afunc(f):
            async def func():
                f()
            return func
        for i, t in enumerate(T):
            f = body(f"t{i}", t["out"])
            kw = {"on_startup": True} if t["role"] == "startup" else {"on_shutdown": True} if t["role"] == "shutdown" else {"start_cond": AlwaysTrue()}
            session.create_task(func=afunc(f) if t["exec"] == "async" else f, name=f"t{i}", priority=t["prio"], execution=t["exec"], **kw)
            execs[f"t{i}"] = t["exec"] or S["exec"] or "main"
        execs["made"] = "main"
        bad = []

        def make(k, h):
            arg, ok = arg_of(h["arg"], env)

            def pre(task, value):
                (line if task is None else where(task.name)).append(f"hook {k}")
                if arg is not None and not ok(value):
                    bad.append(f"hook {k} got {value!r} for {arg!r}")

            def post(task, got):
                (line if task is None else where(task.name)).append(f"hook {k} after")
                if task is not None:
                    name = task.name
                    out = "success" if name == "made" or swapped.get(name) else T[int(name[1:])]["out"]
                    typ = {"success": None, "fail": RuntimeError, "inaction": TaskInactionException}[out]
                    if not (got[0] is typ and (got[1] is None) == (typ is None) and (got[2] is None) == (typ is None) and (typ is None or isinstance(got[1], typ))):
                        bad.append(f"hook {k} was told {got!r} after the run of {name} ({out})")
            if h["kind"] == "execute":
                if h["gen"] == "no":
                    def hook(value=arg, task=TaskArg()):
                        pre(task, value)
                elif h["gen"] == "early":
                    def hook(task=TaskArg(), value=arg):
                        pre(task, value)
                        return
                        yield
                else:
                    def hook(task=TaskArg(), value=arg):
                        pre(task, value)
                        got = yield
                        post(task, got)
                session.hook_task_execute()(hook)
            else:
                if h["gen"] == "no":
                    def hook(value=arg):
                        pre(None, value)
                elif h["gen"] == "early":
                    def hook(value=arg):
                        pre(None, value)
                        return
                        yield
                else:
                    def hook(value=arg):
                        pre(None, value)
                        yield
                        post(None, ())
                {"startup": session.hook_startup, "cycle": session.hook_scheduler_cycle, "shutdown": session.hook_shutdown}[h["kind"]]()(hook)
        swapped = {}
        repo2 = MemoryRepo(model=MinimalRunRecord)
        if S["repo"] in ("success", "fail"):
            for a, at in (("run", 1000.0), (S["repo"], 1001.0)):
                repo2.add(MinimalRunRecord(task_name="t0", action=a, created=at, run_id="old"))
        seen = {}

        def setup_now(logger, config, session_):
            line.append("setup")
            if session_ is not session or config is not session.config:
                bad.append(f"the setup hook got {session_!r} and {config!r}")
            if life[0] > 0:
                return
            seen["before"] = session["t0"].status
            if S["exec"]:
                config.execution = S["exec"]
            if S["makes"]:
                session.create_task(func=body("made", "success"), name="made", start_cond=AlwaysTrue(), priority=0, execution="main")
            if S["swaps"] is not None:
                name = f"t{S['swaps']}"
                f = body(name, "success")
                swapped[name] = True
                session[name].func = afunc(f) if T[S["swaps"]]["exec"] == "async" else f
            if S["repo"]:
                logger.set_repo(repo2)
            for k, h in enumerate(c["hooks"]):
                if h["when"] == "setup" and h["kind"] != "startup":
                    make(k, h)
        if S["gen"]:
            def setup(logger=TaskLogger(), config=Config(), session=SessionArg()):
                setup_now(logger, config, session)
                seen.setdefault("cached", session["t0"].status)
                yield
                line.append("setup after")
                seen.setdefault("after", session["t0"].status)
        else:
            def setup(logger=TaskLogger(), config=Config(), session=SessionArg()):
                setup_now(logger, config, session)
        if S["via"] == "setup":
            app.setup(setup)
        elif S["via"] == "setup()":
            app.setup()(setup)
        else:
            session.hook_startup()(setup)
        for k, h in enumerate(c["hooks"]):
            if h["when"] == "before" or h["kind"] == "startup":
                make(k, h)
        order_of = {kind: [k for k, h in enumerate(c["hooks"]) if h["kind"] == kind and (h["when"] == "before" or kind == "startup")] + [k for k, h in enumerate(c["hooks"]) if h["kind"] == kind and h["when"] == "setup" and kind != "startup"]
                    for kind in ("startup", "cycle", "shutdown", "execute")}
        wline, wside = [], {}

        def wpre(kind, to):
            for k in order_of[kind]:
                to.append(f"hook {k}")

        def wpost(kind, to):
            for k in order_of[kind]:
                if c["hooks"][k]["gen"] == "gen":
                    to.append(f"hook {k} after")

        def wruns(role):
            names = [f"t{i}" for i in sorted(range(n), key=lambda i: -T[i]["prio"]) if T[i]["role"] == role]
            if role == "normal" and S["makes"]:
                names.append("made")
            for name in names:
                to = wline if execs[name] == "main" else wside.setdefault(name, [])
                wpre("execute", to)
                to.append(f"{name} runs")
                wpost("execute", to)

        def join():
            for t in session.tasks:
                if execs.get(t.name) == "thread":
                    wait_for(lambda: not t.is_alive(), "a thread to end")
        # threads end in their own time: the cycle waits for them
        show = lambda: f"\n  {c}"
        for cycles in c["lives"]:
            life[0] += 1
            target["cycles"] = cycles
            import asyncio

            async def serve():
                await session.serve()
            # (async runs last one pause of the scheduler; the next cycle finds them over, and so does the shutdown)
            asyncio.run(serve())
            wline.append("setup")
            wpre("startup", wline)
            wruns("startup")
            if S["gen"]:
                wline.append("setup after")
            wpost("startup", wline)
            for _ in range(cycles):
                wpre("cycle", wline)
                wruns("normal")
                wpost("cycle", wline)
            wpre("shutdown", wline)
            wruns("shutdown")
            wpost("shutdown", wline)
            check(not bad, lambda: f"{bad}{show()}")
            check(line == wline, lambda: diff(line, wline) + show())
            for name in set(wside) | set(side):
                got, w = side.get(name, []), wside.get(name, [])
                if execs[name] == "thread":
                    # a thread that is still running misses the next cycle
                    one = len(w) // max(1, w.count(f"{name} runs"))
                    check(len(got) % one == 0 and len(got) <= len(w) and got == w[:len(got)] and got, lambda: f"the runs of {name} went {got} instead of {w}{show()}")
                    wside[name] = list(got)
                else:
                    check(got == w, lambda: f"the runs of {name} went {got} instead of {w}{show()}")
        if S["gen"] and S["repo"] and T[0]["role"] != "startup":
            want = S["repo"] if S["repo"] != "none" else None
            check(seen["cached"] is None and seen["after"] == want, lambda: f"status of t0 was {seen['cached']!r} before the yield of the setup hook and {seen['after']!r} after it, its records say {want!r}{show()}")
        if S["repo"]:
            recs = [r.dict() for r in repo2.filter_by(action="run").all() if r.run_id != "old"]
            nruns = sum(x.endswith(" runs") for x in line) + sum(sum(x.endswith(" runs") for x in v) for v in side.values())
            check(len(recs) == nruns, lambda: f"{len(recs)} runs are in the repository set by the setup hook instead of {nruns}{show()}")
            check(not env.records(), lambda: f"runs are in the old repository{show()}")
    kinds = [h["kind"] for h in c["hooks"]]
    ctx.label(*set(kinds), f"{len(c['lives'])} lives")
    ctx.nontrivial(any(kinds.count(k) > 1 for k in kinds) and any(h["gen"] == "gen" for h in c["hooks"]) and sum(c["lives"]) > 1)


def diff(got, want):
    k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
    return f"after {want[:k][-8:]} came {got[k:k + 4]} instead of {want[k:k + 4]}"


# ------------------------------------------------------------------ executions

@st.composite
def exec_case(draw):
    tasks = [{"exec": draw(st.sampled_from(["main", "async", "thread", "process"])), "outs": draw(st.lists(st.sampled_from([*OUTS, "hang"]), min_size=1, max_size=2)), "kind": draw(st.sampled_from(["func", "func", "path", "command"]))} for _ in range(draw(st.integers(1, 3)))]
    for t in tasks:
        if t["exec"] == "process" or t["kind"] != "func":
            t["outs"] = ["success" if o == "hang" else o for o in t["outs"]]
        if t["kind"] == "command":
            t["outs"] = ["success" if o == "inaction" else o for o in t["outs"]]
    return {"tasks": tasks, "hooks": [draw(st.sampled_from(["no", "gen", "gen", "early"])) for _ in range(draw(st.integers(1, 3)))]}


def put(path, what):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(what) + "\n").encode())
    os.close(fd)


def _task_arg():
    from rocketry.args import Task
    return Task()


class _Late:
    "TaskArg without importing rocketry when this module is"


def plain_hook(folder, k, task):
    put(os.path.join(folder, task.name), [k])


def gen_hook(folder, k, task):
    put(os.path.join(folder, task.name), [k])
    typ, exc, tb = yield
    put(os.path.join(folder, task.name), [k, "after", None if typ is None else typ.__name__, None if exc is None else str(exc), tb is not None])


def early_hook(folder, k, task):
    put(os.path.join(folder, task.name), [k])
    return
    yield


def exec_run(c, ctx):
    from rocketry.args import Task as TaskArg, TerminationFlag
    from rocketry.exc import TaskInactionException, TaskTerminationException
    T = c["tasks"]
    folder = tempfile.mkdtemp(prefix="vpf-hooks-")
    procs = any(t["exec"] == "process" for t in T)
    try:
        os.mkdir(os.path.join(folder, "code"))
        with Env(execution="main") as env:
            session = env.session
            for k, h in enumerate(c["hooks"]):
                f = functools.partial({"no": plain_hook, "gen": gen_hook, "early": early_hook}[h], folder=folder, k=k, task=TaskArg())
                session.hook_task_execute()(f)
            started = [0] * len(T)

            def begins(i):
                "the body of a run: (in its own process, maybe)"
                path = os.path.join(folder, f"t{i}")
                done = sum(1 for x in read(path) if x == ["body"]) if os.path.exists(path) else 0
                put(path, ["body"])
                return T[i]["outs"][done]

            def ends(out):
                if out == "fail":
                    raise RuntimeError("fails so")
                if out == "inaction":
                    raise TaskInactionException("nothing to do")
            import asyncio

            def make(i):
                t = T[i]
                if t["exec"] == "async":
                    async def func():
                        out = begins(i)
                        if out == "hang":
                            await asyncio.sleep(1000)
                        ends(out)
                elif t["exec"] == "thread":
                    def func(flag=TerminationFlag()):
                        out = begins(i)
                        if out == "hang":
                            flag.wait()
                            raise TaskTerminationException("told to")
                        ends(out)
                else:
                    def func():
                        out = begins(i)
                        if out == "hang":
                            raise TaskTerminationException("told to")
                        ends(out)
                return func
            for i, t in enumerate(T):
                kw = {"name": f"t{i}", "execution": t["exec"]}
                if t["kind"] == "func":
                    session.create_task(func=make(i), **kw)
                elif t["kind"] == "path":
                    path = os.path.join(folder, "code", f"vpf_code_{i}.py")
                    with open(path, "w") as f:
                        f.write("import json, os\nfrom rocketry.exc import TaskInactionException\n"
                                f"def main():\n    path = {os.path.join(folder, f't{i}')!r}\n    done = 0\n"
                                "    if os.path.exists(path):\n        with open(path) as f:\n            done = sum(json.loads(l) == ['body'] for l in f)\n"
                                f"    with open(path, 'a') as f:\n        f.write('[\"body\"]\\n')\n    out = {t['outs']!r}[done]\n"
                                "    if out == 'fail':\n        raise RuntimeError('fails so')\n    if out == 'inaction':\n        raise TaskInactionException('nothing to do')\n")
                    session.create_task(path=path, func_name="main", **kw)
                else:
                    # (the command leaves no mark in the file: it is told by its exit code)
                    import sys
                    script = os.path.join(folder, "code", f"cmd{i}.sh")
                    with open(script, "w") as f:
                        f.write(f"n=$(cat {folder}/code/n{i} 2>/dev/null | wc -c)\nprintf x >> {folder}/code/n{i}\necho '[\"body\"]' >> {folder}/t{i}\ncase $n in\n" + "".join(f"{k}) exit {1 if o == 'fail' else 0};;\n" for k, o in enumerate(t["outs"])) + "esac\n")
                    session.create_task(command=["sh", script], **kw)
            left = [len(t["outs"]) for t in T]
            told = set()              # the runs told to terminate

            def before(i):
                for j, t in enumerate(T):
                    if left[j] and not session[f"t{j}"].is_alive():
                        left[j] -= 1
                        session[f"t{j}"].run()

            def after(i):
                for j, t in enumerate(T):
                    name = f"t{j}"
                    path = os.path.join(folder, name)
                    task = session[name]
                    if not task.is_alive():
                        continue
                    if t["exec"] == "thread":
                        wait_for(lambda: read(path).count(["body"]) == len(t["outs"]) - left[j], f"{name} to begin")
                        if t["outs"][len(t["outs"]) - left[j] - 1] == "hang":
                            if (j, left[j]) in told:
                                # (the cycle that is over has told the thread)
                                wait_for(lambda: not task.is_alive(), f"{name} to end")
                            else:
                                task.terminate()
                                told.add((j, left[j]))
                        else:
                            wait_for(lambda: not task.is_alive(), f"{name} to end")
                    elif t["exec"] == "process":
                        wait_for(lambda: not task.is_alive(), f"{name} to end")
                    elif t["exec"] == "async" and read(path).count(["body"]) == len(t["outs"]) - left[j] and t["outs"][len(t["outs"]) - left[j] - 1] == "hang":
                        task.terminate()
            Sim(env, 4 * max(len(t["outs"]) for t in T) + 2, before, after).run_ok()
            show = lambda: f"\n  {c}"
            for i, t in enumerate(T):
                got = read(os.path.join(folder, f"t{i}"))
                want = []
                for out in t["outs"]:
                    want += [[k] for k in range(len(c["hooks"]))] + [["body"]]
                    for k, h in enumerate(c["hooks"]):
                        if h == "gen":
                            w = {"success": [None, None, False], "fail": ["RuntimeError" if t["kind"] != "command" else "OSError", "fails so", True], "inaction": ["TaskInactionException", "nothing to do", True],
                                 "hang": ["CancelledError" if t["exec"] == "async" else "TaskTerminationException", "" if t["exec"] == "async" else "told to", True]}[out]
                            want.append([k, "after", *w])
                if t["kind"] == "command":
                    for x in got + want:
                        if len(x) == 5 and x[2] is not None:
                            x[2:4] = ["some error", ""]
                check(got == want, lambda: f"around the runs of t{i} ({t['kind']}, {t['exec']}: {t['outs']}) happened {got} instead of {want}{show()}")
                acts = [r["action"] for r in env.records(task_name=f"t{i}")]
                w = [a for out in t["outs"] for a in ("run", "terminate" if out == "hang" else out)]
                check(acts == w, lambda: f"the runs of t{i} are logged as {acts} instead of {w}{show()}")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label(*{t["exec"] for t in T}, *{t["kind"] for t in T})
    ctx.nontrivial(len(c["hooks"]) > 1 and "gen" in c["hooks"])


def read(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.endswith("\n")]


# ------------------------------------------------------------------------ init

@st.composite
def init_case(draw):
    ns = draw(st.integers(1, 3))
    hooks = [[draw(st.sampled_from(["no", "gen", "gen"])) for _ in range(draw(st.integers(0, 3)))] for _ in range(ns)]
    ops = [[draw(st.integers(0, ns - 1)), draw(st.sampled_from(["create_task", "FuncTask", "decorator", "FuncTask decorator", "CommandTask", "CodeTask", "command"])), draw(st.sampled_from(["a", "b", "c"]))] for _ in range(draw(st.integers(1, 6)))]
    return {"hooks": hooks, "ops": ops, "default": draw(st.sampled_from([None, *range(ns)])), "late": draw(st.booleans())}


def init_run(c, ctx):
    from rocketry.args import Task as TaskArg
    from rocketry.conditions import AlwaysTrue
    from rocketry.core import Task
    from rocketry.tasks import CodeTask, CommandTask, FuncTask
    events = []
    envs = [Env(app=True, execution="main", default=False) for _ in c["hooks"]]
    try:
        if c["default"] is not None:
            envs[c["default"]].session.set_as_default()
        names = [[] for _ in envs]

        def add(s, k, kind):
            session = envs[s].session
            if kind == "no":
                def hook(task=TaskArg()):
                    events.append((s, k, "pre", isinstance(task, Task), None, task))
            else:
                def hook(task=TaskArg()):
                    events.append((s, k, "pre", isinstance(task, Task), None, task))
                    yield
                    events.append((s, k, "post", task.session is session and task.name in session and session[task.name] is task, task.name, task))
            session.hook_task_init()(hook)
        for s, hs in enumerate(c["hooks"]):
            for k, h in enumerate(hs):
                add(s, k, h)
        show = lambda: f"\n  {c}"
        clash = 0
        for s, how, name in c["ops"]:
            session, app = envs[s].session, envs[s].app
            events.clear()
            exc = None

            def func():
                pass
            try:
                if how == "create_task":
                    session.create_task(func=func, name=name)
                elif how == "FuncTask":
                    FuncTask(func, name=name, session=session, execution="main")
                elif how == "decorator":
                    app.task(name=name)(func)
                elif how == "FuncTask decorator":
                    FuncTask(name=name, session=session, execution="main")(func)
                elif how == "CommandTask":
                    CommandTask(command="true", name=name, session=session)
                elif how == "CodeTask":
                    CodeTask(code="x = 1", name=name, session=session, execution="main")
                else:
                    session.create_task(command="true", name=name)
            except ValueError as e:
                exc = e
            taken = name in names[s]
            check((exc is not None) == taken, lambda: f"creating {name!r} by {how} raised {exc!r}{show()}")
            check(all(e[0] == s for e in events), lambda: f"creating {name!r} in session {s} called the hooks {[e[:3] for e in events]} of other sessions{show()}")
            if taken:
                clash += 1
                check(all(e[2] == "pre" for e in events), lambda: f"a task that was refused went through the hooks {[e[:3] for e in events]}{show()}")
                continue
            names[s].append(name)
            want = [(s, k, "pre", True, None) for k in range(len(c["hooks"][s]))] + [(s, k, "post", True, name) for k, h in enumerate(c["hooks"][s]) if h == "gen"]
            got = [e[:5] for e in events]
            check(got == want, lambda: f"creating {name!r} in session {s} by {how} called the hooks {got} instead of {want}{show()}")
            check(all(e[5] is session[name] for e in events), lambda: f"the hooks of {name!r} got another task{show()}")
    finally:
        for e in reversed(envs):
            e.close()
    ctx.label(f"{len(envs)} sessions", "default" if c["default"] is not None else "no default")
    ctx.nontrivial(len(envs) > 1 and any(c["hooks"]) and len(c["ops"]) > 1)


PARTS = [Part("lives", case, run, 1200, 20000, RULE),
         Part("executions", exec_case, exec_run, 240, 4000, "at least two execution hooks, one of them a generator"),
         Part("init", init_case, init_run, 800, 12000, "tasks created in several sessions, some with hooks")]
