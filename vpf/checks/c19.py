"""C19: the life of the scheduler: startup, cycles, shutdown, restart."""
import asyncio

from hypothesis import strategies as st

from ..core import Part, check, Violation
from ..env import Env
from ..sim import wait_for
from .c13 import OUTS

RULE = "at least one startup or shutdown task ran, and the scheduler was started more than once or went down with a run alive"
ASSUMPTIONS = ["startup and shutdown hooks do not fail on the way down"]

WAYS = ["shut_down", "shut_down", "force", "twice", "soft", "cond", "exit", "restart", "restart_task", "error", "task_error", "startup_error", "deprecated", "sysexit", "interrupt"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 5))
    prios = draw(st.permutations(list(range(n))))
    tasks = []
    for i in range(n):
        tasks.append({"role": draw(st.sampled_from(["startup", "shutdown", "both", "normal", "normal"])), "prio": prios[i], "exec": draw(st.sampled_from(["main", "main", "main", "async", "thread"])),
                      "cond": draw(st.sampled_from([None, None, True, False])), "disabled": draw(st.sampled_from([False, False, False, True])), "out": draw(st.sampled_from(OUTS))})
        if tasks[-1]["exec"] == "async" and tasks[-1]["role"] in ("startup", "shutdown"):
            tasks[-1]["permanent"] = draw(st.booleans())      # (and never ends by itself)
    lives = [{"cycles": draw(st.integers(0, 4)), "way": draw(st.sampled_from(WAYS)), "worker": draw(st.sampled_from([None, "async", "async", "permanent"])), "batch": draw(st.lists(st.integers(0, n - 1), max_size=2)),
              "late": draw(st.booleans()), "hold": draw(st.one_of(st.just([False] * 3), st.lists(st.booleans(), min_size=3, max_size=3))), "hold_end": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]
    for L in lives:
        if L["cycles"] == 0 and L["way"] not in ("shut_down", "force", "twice", "soft", "cond", "restart", "deprecated"):
            # (without a cycle only what can be asked for during the startup)
            L["cycles"] = 1
    return {"tasks": tasks, "lives": lives, "instant": draw(st.sampled_from([False, False, False, True])), "exit_out": draw(st.sampled_from(["main", "async"]))}


class Boom(Exception):
    pass


def run(c, ctx):
    from rocketry.conditions import AlwaysTrue, FuncCond
    from rocketry.exc import SchedulerExit, SchedulerRestart, TaskInactionException
    T = c["tasks"]
    n = len(T)
    names = [f"t{i}" for i in range(n)]
    order = sorted(range(n), key=lambda i: -T[i]["prio"])
    s = {"life": -1, "cycle": 0, "error": None}
    events, want = [], []
    flags = {"shut": False, "boom": False, "fail_startup": False}
    batches = [0] * n

    with Env(execution="main", restarting="recall", instant_shutdown=c["instant"], shut_cond=FuncCond(func=lambda: flags["shut"])) as env:
        session = env.session
        pos = [0]

        def mark(what):
            # threads end in their own time: they must not hold back the next start
            for i in range(n):
                if T[i]["exec"] == "thread":
                    wait_for(lambda: not session[names[i]].is_alive(), "a thread to end")
            recs = env.records()
            for r in recs[pos[0]:]:
                if r["action"] == "run":
                    events.append("run " + r["task_name"])
                elif r["task_name"] in ("worker", "breaker"):
                    events.append(f"{r['task_name']} {r['action']}")
            pos[0] = len(recs)
            events.append(what)

        def body(i):
            out = T[i]["out"]

            def act():
                if out == "fail":
                    raise RuntimeError("fails")
                if out == "inaction":
                    raise TaskInactionException()
            if T[i]["exec"] == "async":
                async def func():
                    if T[i].get("permanent"):
                        await asyncio.Event().wait()
                    act()
                return func
            return act
        for i, t in enumerate(T):
            kw = {}
            if t["role"] in ("startup", "both"):
                kw["on_startup"] = True
            if t["role"] in ("shutdown", "both"):
                kw["on_shutdown"] = True
            if t["cond"] is not None:
                kw["start_cond"] = FuncCond(func=lambda v=t["cond"]: v)
            session.create_task(func=body(i), name=names[i], priority=t["prio"], execution=t["exec"], disabled=t["disabled"], permanent=t.get("permanent", False), **kw)
        gate = {}

        async def worker():
            gate["ev"] = asyncio.Event()
            await gate["ev"].wait()

        def break_():
            w = life()["way"]
            raise {"exit": SchedulerExit, "restart_task": SchedulerRestart}[w]("asked for")
        session.create_task(func=worker, name="worker", execution="async", priority=1000)
        session.create_task(func=break_, name="breaker", execution="main", priority=-1000)

        def life():
            return c["lives"][s["life"]]

        def guard(f):
            try:
                f()
            except Boom:
                raise
            except BaseException as exc:
                s["error"] = s["error"] or exc
                raise

        # ---- the model writes down what is to happen
        def role_runs(role):
            for i in order:
                t = T[i]
                if t["role"] in (role, "both"):
                    if t["cond"] is None and not t["disabled"] and not batches[i]:
                        batches[i] += 1
                    start(i)

        def start(i):
            t = T[i]
            if batches[i] or (not t["disabled"] and t["cond"]):
                if batches[i]:
                    batches[i] -= 1
                want.append("run " + names[i])

        def holds(L, k):
            "whether the scheduler is on hold in cycle k; the last one goes on as usual"
            return 1 < k < L["cycles"] and L.get("hold", [False] * 3)[k - 2]

        def plan():
            "everything from this start of the scheduler to its end"
            L = life()
            s["graceful"] = not c["instant"] and L["way"] in ("shut_down", "soft", "cond", "restart", "restart_task", "deprecated")
            want.append("startup")
            if L["way"] == "startup_error":
                L_cycles = 0
            else:
                role_runs("startup")
                want.append("started")
                L_cycles = L["cycles"]
            has_worker = False
            for k in range(1, L_cycles + 1):
                want.append(f"cycle {k}")
                if k == 1:
                    for i in L["batch"]:
                        batches[i] += 1
                if k == L_cycles and L["worker"]:
                    want.append("run worker")
                    has_worker = True
                for i in order:
                    if T[i]["role"] == "normal" and not holds(L, k):
                        start(i)
                if k == L_cycles and L["way"] in ("exit", "restart_task"):
                    want.extend(["run breaker", "breaker success"])
                elif k == L_cycles and L["way"] == "task_error":
                    pass
                else:
                    want.append(f"end of cycle {k}")
            want.append("shutdown")
            role_runs("shutdown")
            if has_worker:
                want.append("worker " + ("success" if s["graceful"] and L["worker"] != "permanent" else "terminate"))
            want.append("down")

        def startup_hook():
            s["life"] += 1
            s["cycle"] = 0
            if s["life"] >= len(c["lives"]):
                s["error"] = s["error"] or Violation(f"the scheduler started once more than asked for: {events}")
                raise s["error"]
            plan()
            mark("startup")
            flags.update(shut=False, boom=False)
            session["worker"].permanent = life()["worker"] == "permanent"
            if life()["way"] == "startup_error":
                raise Boom("startup breaks")
            early = life()["cycles"] == 0
            if early and not life()["late"]:
                ask(life()["way"])
            yield
            mark("started")
            if early and life()["late"]:
                ask(life()["way"])

        def cycle_hook():
            s["cycle"] += 1
            L, k = life(), s["cycle"]
            mark(f"cycle {k}")
            if k > L["cycles"]:
                s["error"] = s["error"] or Violation(f"the scheduler ran cycle {k} though it was to go down after {L['cycles']}: {events[-30:]}")
                raise s["error"]
            if k == 1:
                for i in L["batch"]:
                    session[names[i]].run()
            last = k == L["cycles"]
            if last:
                if L["worker"]:
                    session["worker"].run()
                w = L["way"]
                if w in ("exit", "restart_task"):
                    session["breaker"].run()
                elif not L["late"]:
                    ask(w)
            yield
            if not s["error"]:
                mark(f"end of cycle {k}")
                session.scheduler.on_hold = holds(L, k + 1)
                if last:
                    session.scheduler.on_hold = bool(L.get("hold_end"))
                    if L["late"]:
                        ask(L["way"])
                    if L["way"] == "error":
                        raise Boom("the application breaks")
                    if L["way"] == "sysexit":
                        raise SystemExit("the application leaves")
                    if L["way"] == "interrupt":
                        raise KeyboardInterrupt("the application is interrupted")

        def ask(w):
            import warnings
            if w == "shut_down":
                session.shut_down()
            elif w == "force":
                session.shut_down(force=True)
            elif w == "twice":
                session.shut_down()
                session.shut_down()
            elif w == "soft":
                # asked for twice, but explicitly not by force
                session.shut_down()
                session.shut_down(force=False)
            elif w == "cond":
                flags["shut"] = True
            elif w == "restart":
                session.restart()
            elif w == "deprecated":
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    session.shutdown()

        def shutdown_hook():
            mark("shutdown")

            async def let_go():
                for _ in range(40):
                    await asyncio.sleep(0)
                if "ev" in gate:
                    gate["ev"].set()
            s["letter"] = asyncio.get_running_loop().create_task(let_go())
            yield
            s["letter"].cancel()      # (a restart goes on in the same event loop)
            mark("down")
            gate.pop("ev", None)
        session.hook_startup()(startup_hook)
        session.hook_scheduler_cycle()(cycle_hook)
        session.hook_shutdown()(shutdown_hook)
        # a task whose condition breaks takes the application down
        if any(L["way"] == "task_error" for L in c["lives"]):
            def breaks():
                if life()["way"] == "task_error" and s["cycle"] == life()["cycles"]:
                    raise Boom("the condition breaks")
                return False
            session.create_task(func=lambda: None, name="bad", priority=-2000, start_cond=FuncCond(func=breaks), execution="main")

        serves = 0
        while s["life"] < len(c["lives"]) - 1 and serves < 10:
            serves += 1
            first = s["life"] + 1
            exc = None

            async def main():
                task = asyncio.ensure_future(session.serve())
                done, _ = await asyncio.wait([task], timeout=30)
                if not done:
                    task.cancel()
                    await asyncio.wait([task], timeout=5)
                    raise Violation(f"the scheduler did not go down within 30 s: {events[-20:]}")
                return task.exception()
            try:
                # the last life must end the serve, not restart it
                if c["lives"][-1]["way"] in ("restart", "restart_task"):
                    c = dict(c, lives=c["lives"][:-1] + [dict(c["lives"][-1], way="shut_down")])
                exc = asyncio.run(main())
            except (SystemExit, KeyboardInterrupt) as e:
                exc = e
            show = lambda: f"\n  tasks: {T}, instant shutdown {c['instant']}\n  lives: {c['lives']}\n  expected {want}\n  happened {events}"
            if s["error"] is not None:
                raise Violation(f"{s['error']}{show()}")
            # compare
            for k, (a, b) in enumerate(zip(want, events)):
                check(a == b, lambda: f"event {k}: {b!r} happened where {a!r} was to happen (before: {events[max(0, k - 5):k]}){show()}")
            check(len(want) == len(events), lambda: f"happened {events[len(want):] or 'nothing'}, expected {want[len(events):] or 'nothing'}{show()}")
            w = life()["way"]
            if w in ("error", "startup_error", "task_error"):
                check(isinstance(exc, Boom), lambda: f"a fatal error ({w}) should come out of the scheduler, got {exc!r}{show()}")
            elif w in ("sysexit", "interrupt"):
                check(exc is None or isinstance(exc, (SystemExit, KeyboardInterrupt)), lambda: f"the scheduler raised {exc!r} though it was to go down by {w}{show()}")
            else:
                check(exc is None, lambda: f"the scheduler raised {exc!r} though it was to go down by {w}{show()}")
            # every run has its end
            by = {}
            for r in env.records():
                by.setdefault((r["task_name"], r["run_id"]), []).append(r["action"])
            for (name, rid), acts in by.items():
                want_end = ("terminate",) if name in names and T[names.index(name)].get("permanent") else ("success", "fail", "inaction", "terminate")
                check(len(acts) == 2 and acts[0] == "run" and acts[1] in want_end and rid is not None, lambda: f"run {rid!r} of {name} is logged as {acts}{show()}")
    ctx.label(*{L["way"] for L in c["lives"]}, *{t["role"] for t in T}, "instant" if c["instant"] else "not instant")
    ctx.nontrivial(any(t["role"] != "normal" for t in T) and (len(c["lives"]) > 1 or any(L["worker"] for L in c["lives"])))


# ------------------------------------------------------------------- processes

@st.composite
def proc_case(draw):
    return {"mode": draw(st.sampled_from(["replace", "relaunch"])), "lives": draw(st.integers(1, 3)), "cycles": draw(st.integers(1, 3)), "by": draw(st.sampled_from(["session", "exception", "thread"])),
            "args": draw(st.lists(st.sampled_from(["x", "--opt=1", "a b", "", "$HOME", "'q"]), max_size=3)), "worker": draw(st.booleans())}


SCRIPT = """
import asyncio, json, os, sys
sys.path.insert(0, {repo!r})
from rocketry import Rocketry
from rocketry.args import Session
from rocketry.conds import true
from rocketry.exc import SchedulerRestart
C = json.loads({case!r})
folder = {folder!r}
def put(what):
    fd = os.open(os.path.join(folder, "events"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(what) + chr(10)).encode())
    os.close(fd)
def lines():
    with open(os.path.join(folder, "events")) as f:
        return [json.loads(x) for x in f]
app = Rocketry(config={{"restarting": C["mode"], "cycle_sleep": 0.0005, "execution": "main"}})
n = [0]
@app.task(on_startup=True)
def start():
    put(["startup", sys.argv[1:]])
@app.task(on_shutdown=True)
def stop():
    put(["shutdown"])
async def waits():
    await asyncio.sleep(0.02)
    put(["worker"])
if C["worker"]:
    app.task(execution="async", name="worker", on_startup=True)(waits)
@app.task(true, execution="thread" if C["by"] == "thread" else "main")
def each(session=Session()):
    n[0] += 1
    if n[0] > C["cycles"]:
        return
    put(["run", n[0]])
    if n[0] == C["cycles"]:
        if sum(x[0] == "startup" for x in lines()) >= C["lives"]:
            session.shut_down()
        elif C["by"] == "exception":
            raise SchedulerRestart()
        else:
            session.restart()
app.run()
put(["end"])
"""


def proc_run(c, ctx):
    import json
    import os
    import shutil
    import signal
    import subprocess
    import sys
    import tempfile

    from .. import boot
    folder = tempfile.mkdtemp(prefix="vpf-lives-")
    proc = None
    try:
        script = os.path.join(folder, "app.py")
        with open(script, "w") as f:
            f.write(SCRIPT.format(repo=boot.REPO, case=json.dumps(c), folder=folder))
        path = os.path.join(folder, "events")

        def lines():
            if not os.path.exists(path):
                return []
            with open(path) as f:
                return [json.loads(x) for x in f if x.endswith("\n")]
        ends = 1 if c["mode"] == "replace" else c["lives"]
        with open(os.path.join(folder, "out"), "w") as out:
            proc = subprocess.Popen([sys.executable, script, *c["args"]], stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True)
        try:
            code = proc.wait(60)
            wait_for(lambda: lines().count(["end"]) >= ends, "the last life to end", 30)
        except subprocess.TimeoutExpired:
            code = "not over after 60 s"
        except Violation:
            pass
        with open(os.path.join(folder, "out")) as f:
            said = f.read()[-1500:]
        show = lambda: f"\n  {c}\n  happened {lines()}\n{said}"
        check(code == 0, lambda: f"the application ended with {code}{show()}")
        got = [x for x in lines() if x not in (["end"], ["worker"])]
        want = [x for _ in range(c["lives"]) for x in (["startup", c["args"]], *(["run", k] for k in range(1, c["cycles"] + 1)), ["shutdown"])]
        check(got == want, lambda: f"{got} instead of {want}{show()}")
        check(lines().count(["end"]) == ends, lambda: f"{lines().count(['end'])} processes came to their end instead of {ends}{show()}")
        check(lines().count(["worker"]) == c["worker"] * c["lives"], lambda: f"{lines().count(['worker'])} of {c['worker'] * c['lives']} unfinished runs were waited for{show()}")
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            proc.wait()
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label(c["mode"], c["by"])
    ctx.nontrivial(c["lives"] > 1)


PARTS = [Part("lives", case, run, 3000, 60000, RULE),
         Part("processes", proc_case, proc_run, 32, 400, "the application restarted itself as another process or a new image")]
