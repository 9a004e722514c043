"""C20: faults stay where they happen."""
import asyncio
import logging

from hypothesis import strategies as st

from redbird.repos import MemoryRepo

from ..core import Part, check
from ..env import Env
from ..sim import wait_for

RULE = "a fault happened in a cycle in which another task had to be run, or took the scheduler down while a run was alive"
ASSUMPTIONS = ["end conditions fail for main-thread and long-running tasks only (a run that starts and is terminated in the same cycle may or may not get to its function)",
               "the log refuses the start record or the end records of a run"]

BODY = ["plain", "plain", "nasty", "stop", "chained", "timeout"]
TIMEOUTS = [None, None, "never", "10 hours"]
FAULTS = ["body", "body", "start", "start", "end", "arg", "arg", "hook", "stage", "log run", "log end"]


@st.composite
def case(draw):
    n = draw(st.integers(2, 5))
    prios = draw(st.permutations(list(range(n + 1))))
    tasks = [{"exec": draw(st.sampled_from(["main", "main", "async", "thread"])), "prio": prios[i], "kind": draw(st.sampled_from(BODY)), "timeout": draw(st.sampled_from(TIMEOUTS))} for i in range(n)]
    quiet = draw(st.sampled_from([1, 1, 0]))
    sil = {k: draw(st.booleans()) if not quiet else True for k in ("cond", "prerun", "logging")}
    cycles = []
    for _ in range(draw(st.integers(1, 5))):
        cyc = {"want": [draw(st.sampled_from([True, True, False])) for _ in range(n)], "ask": draw(st.lists(st.integers(0, n - 1), max_size=3)), "faults": {}}
        for i in draw(st.lists(st.integers(0, n), max_size=2, unique=True)):
            f = draw(st.sampled_from(FAULTS))
            if i == n:
                f = draw(st.sampled_from(["end", "start"]))
            elif f == "end" and tasks[i]["exec"] != "main":
                f = "arg"
            cyc["faults"][str(i)] = f
        cycles.append(cyc)
    return {"tasks": tasks, "cycles": cycles, "silence": sil, "standby": [draw(st.sampled_from(["async", "thread"])), prios[n], draw(st.sampled_from(TIMEOUTS))], "from_logs": draw(st.booleans())}


class Fault(Exception):
    pass


class Nasty(Exception):
    "an exception that can be neither printed nor pickled"

    def __init__(self, a, b):
        self.lock = __import__("threading").Lock()

    def __str__(self):
        raise RuntimeError("no text")


def raise_body(kind):
    if kind == "nasty":
        raise Nasty(1, 2)
    if kind == "stop":
        raise StopAsyncIteration("stop")
    if kind == "timeout":
        raise asyncio.TimeoutError()
    if kind == "chained":
        try:
            raise KeyError("inner")
        except KeyError as exc:
            raise OSError("outer") from exc
    raise Fault("the body fails")


class FaultyRepo(MemoryRepo):
    "refuses the records it is told to refuse"
    refuse: set = set()

    def insert(self, item):
        d = item if isinstance(item, dict) else item.dict()
        key = (d["task_name"], "run" if d["action"] == "run" else "end")
        if key in self.refuse:
            raise Fault("the repository refuses " + str(key))
        super().insert(item)


class Errors(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        if record.levelno >= logging.ERROR and record.exc_info:
            self.n += 1


def run(c, ctx):
    from rocketry.args import FuncArg, Task as TaskArg
    from rocketry.conditions import FuncCond
    from rocketry.core import BaseArgument
    from rocketry.exc import TaskLoggingError, TaskSetupError
    from rocketry.log import MinimalRunRecord
    T, sil = c["tasks"], c["silence"]
    n = len(T)
    names = [f"t{i}" for i in range(n)]
    repo = FaultyRepo(model=MinimalRunRecord)
    repo.refuse = set()
    now = {"k": 0, "faults": {}, "want": [False] * n}
    bodies = [0] * n
    trace = []
    problem = []
    used = {"n": 0}

    class Staged(BaseArgument):
        def __init__(self, i):
            self.i = i

        def stage(self, **kw):
            if now["faults"].get(self.i) == "stage":
                raise Fault("cannot be staged")
            return self

        def get_value(self, **kw):
            return 1

    with Env(repo=repo, execution="main", silence_cond_check=sil["cond"], silence_task_prerun=sil["prerun"], silence_task_logging=sil["logging"], force_status_from_logs=c["from_logs"]) as env:
        session = env.session
        errors = Errors()
        env.slogger.handlers = [errors]
        env.slogger.setLevel(logging.ERROR)

        def starts(i):
            def cond():
                if now["faults"].get(i) == "start":
                    raise Fault("the start condition fails")
                return now["want"][i]
            return FuncCond(func=cond)

        def again():
            "another run of the long task in the very last cycle"
            def cond():
                if now["faults"].get(n) == "start":
                    raise Fault("the start condition fails")
                return now.get("again", False)
            return FuncCond(func=cond)

        def ends(i):
            def cond():
                if now["faults"].get(i) == "end":
                    raise Fault("the end condition fails")
                return False
            return FuncCond(func=cond)

        def arg(i):
            def get():
                if now["faults"].get(i) == "arg":
                    raise Fault("the argument fails")
                return 2
            return FuncArg(get)

        def make(i):
            def act(x, y):
                bodies[i] += 1
                if now["faults"].get(i) == "body":
                    raise_body(T[i]["kind"])
            if T[i]["exec"] == "async":
                async def func(x, y):
                    act(x, y)
                return func
            return act
        for i, t in enumerate(T):
            session.create_task(func=make(i), name=names[i], priority=t["prio"], execution=t["exec"], timeout=t["timeout"], start_cond=starts(i), end_cond=ends(i), parameters={"x": Staged(i), "y": arg(i)})
        gate = {"go": False}

        async def waiting():
            while not gate["go"]:
                await asyncio.sleep(0)

        from rocketry.args import TerminationFlag
        from rocketry.exc import TaskTerminationException

        def waiting_thread(flag=TerminationFlag()):
            while not gate["go"]:
                if flag.is_set():
                    raise TaskTerminationException()
                __import__("time").sleep(0.0005)
        session.create_task(func=waiting if c["standby"][0] == "async" else waiting_thread, name="standby", execution=c["standby"][0], priority=c["standby"][1], timeout=c["standby"][2], end_cond=ends(n), start_cond=again(), multilaunch=True)
        session["standby"].run()
        closed = []
        session.create_task(func=lambda: closed.append(1), name="closing", on_shutdown=True, execution="main")

        @session.hook_task_execute()
        def exec_hook(task=TaskArg()):
            if task.name in names and now["faults"].get(names.index(task.name)) == "hook":
                raise Fault("the hook fails")

        # ---- the model
        order = sorted(list(range(n)) + [n], key=lambda i: -(T[i]["prio"] if i < n else c["standby"][1]))
        asked = [0] * n
        M = {"fatal": None, "late": False, "standby": "run", "errors": 0, "cut": None, "standby_started": False, "pending": None}
        want_records = [[] for _ in range(n)]    # per task: list of runs (lists of actions); a set means either
        want_bodies = [0] * n
        status = [None] * n
        loose = set()      # tasks whose latest run is not judged
        stat = {"faults": 0, "others": 0}

        def fatal(exc, i):
            # with two faults at once, either may come out
            M["fatal"], M["cut"] = exc if not M["pending"] else (exc, M["pending"]), i

        def predict(cyc):
            faults = now["faults"]
            M["pending"] = None
            ran = []
            for i in order:
                f = faults.get(i)
                if i == n:
                    if M["standby_started"] and f == "start":
                        used["n"] += 1
                        if not sil["cond"]:
                            return fatal(Fault, i)
                        M["errors"] += 1
                    M["standby_started"] = True
                    if f == "end":
                        used["n"] += 1
                        if not sil["cond"]:
                            return fatal(Fault, i)
                        if M["standby"] == "run":
                            M["standby"] = "terminate"
                    continue
                t = T[i]
                main, thread = t["exec"] == "main", t["exec"] == "thread"
                start = False
                if asked[i]:
                    asked[i] -= 1
                    start = True
                elif f == "start":
                    used["n"] += 1
                    if not sil["cond"]:
                        return fatal(Fault, i)
                    M["errors"] += 1
                elif now["want"][i]:
                    start = True
                if start:
                    ran.append(i)
                    if f in ("arg", "hook", "body", "log run", "log end") or (f == "stage" and thread):
                        used["n"] += 1
                    if f == "log run":
                        want_records[i].append(["fail"])
                        status[i] = "fail"
                        if main or not thread:
                            M["errors"] += 1
                            if not sil["logging"]:
                                return fatal(TaskLoggingError, i)
                        elif not sil["logging"]:
                            M["pending"] = TaskLoggingError
                    elif f in ("arg", "hook") or (f == "stage" and thread):
                        want_records[i].append(["run", "fail"])
                        status[i] = "fail"
                        if main or f == "stage":
                            M["errors"] += 1
                            if not sil["prerun"]:
                                return fatal(TaskSetupError, i)
                    elif f == "log end":
                        want_bodies[i] += 1
                        want_records[i].append(["run"])
                        status[i] = "fail" if not c["from_logs"] else "run"
                        if main:
                            M["errors"] += 1
                            if not sil["logging"]:
                                return fatal(TaskLoggingError, i)
                        elif not sil["logging"]:
                            M["pending"] = TaskLoggingError
                    else:
                        want_bodies[i] += 1
                        want_records[i].append(["run", "fail" if f == "body" else "success"])
                        status[i] = "fail" if f == "body" else "success"
                if f == "end":
                    used["n"] += 1
                    if not sil["cond"]:
                        return fatal(Fault, i)
            if M["pending"]:
                M["fatal"], M["cut"], M["late"] = M["pending"], None, True
            if faults and len(ran) > len(set(ran) & set(faults)):
                stat["others"] += 1

        def show():
            return f"\n  tasks: {T}\n  silenced: {sil}, standby {c['standby']}, statuses from {'logs' if c['from_logs'] else 'cache'}\n  " + "\n  ".join(trace)

        def runs_of(name):
            runs = {}
            for r in env.records(task_name=name):
                runs.setdefault(r["run_id"], []).append(r["action"])
            return list(runs.values())

        def judge(final=False):
            "everything that happened up to now"
            for i in range(n):
                if T[i]["exec"] == "thread":
                    wait_for(lambda: not session[names[i]].is_alive(), f"thread of {names[i]} to end")
            env.repo.refuse.clear()
            for i, name in enumerate(names):
                got, want = runs_of(name), want_records[i]
                if final and M["cut"] is not None and T[i]["exec"] == "async" and now["started_last"](i):
                    # the scheduler went down before it got its turn: it may have been terminated
                    check(len(got) == len(want) and got[:-1] == want[:-1] and len(got[-1]) == len(want[-1]) and got[-1][-1] in (want[-1][-1], "terminate", "fail"),
                          lambda: f"runs of {name} are logged as {got}, they were {want} (the last one possibly terminated){show()}")
                    continue
                if final and M["late"] and asked[i] and len(got) == len(want) + 1:
                    # a request that was still pending: the scheduler may have gone down before or after it
                    check(got[:-1] == want and got[-1][0] == "run", lambda: f"runs of {name} are logged as {got}, they were {want}{show()}")
                    continue
                check(got == want, lambda: f"runs of {name} are logged as {got}, they were {want}{show()}")
                check(bodies[i] == want_bodies[i], lambda: f"the function of {name} was executed {bodies[i]} times instead of {want_bodies[i]}{show()}")
                st_ = session[name].get_status() if c["from_logs"] else session[name].status
                check(st_ == status[i], lambda: f"status of {name} is {st_!r} instead of {status[i]!r}{show()}")
            if M["standby"] == "terminate" and c["standby"][0] == "thread":
                wait_for(lambda: not session["standby"].is_alive(), "the terminated thread to end")
            if M["standby_started"] and not final:
                check([a for r in runs_of("standby") for a in r] == (["run"] if M["standby"] == "run" else ["run", "terminate"]), lambda: f"the long run is logged as {runs_of('standby')}{show()}")

        def hook():
            now["k"] += 1
            k = now["k"]
            try:
                if k > 1:
                    judge()
                    check(M["fatal"] is None or M["late"], lambda: f"the scheduler went on though {M['fatal']} was not silenced{show()}")
                late = M["late"]
                if k > len(c["cycles"]) or late:
                    # nothing more happens
                    now.update(faults={}, want=[False] * n)
                    for i in range(n):
                        now["want"][i] = False
                    check(k <= len(c["cycles"]) + 1 or not late, lambda: f"the scheduler went on though {M['fatal']} was not silenced{show()}")
                    if late and now.get("grace"):
                        check(False, lambda: f"the scheduler went on though {M['fatal']} was not silenced{show()}")
                    now["grace"] = True
                    if not late:
                        predict({"want": now["want"]})     # requests that are still pending
                        now["again"] = True
                        session.shut_down()
                        gate["go"] = True
                else:
                    cyc = c["cycles"][k - 1]
                    now.update(faults={int(i): f for i, f in cyc["faults"].items()}, want=list(cyc["want"]))
                    for i in cyc["ask"]:
                        session[names[i]].run()
                        asked[i] += 1
                    for i, f in now["faults"].items():
                        if f in ("log run", "log end"):
                            env.repo.refuse.add((names[i], f[4:]))
                    lens = [len(w) for w in want_records]
                    before = used["n"]
                    predict(cyc)
                    now["started_last"] = lambda i: len(want_records[i]) > lens[i]
                    if used["n"] == before:
                        pass
                    stat["faults"] += used["n"] - before
                    trace.append(f"cycle {k}: wanted {[names[i] for i in range(n) if cyc['want'][i]]}, requested {[names[i] for i in cyc['ask']]}, faults {({(names + ['standby'])[i]: f for i, f in now['faults'].items()})}")
            except BaseException as exc:
                problem.append(exc)
                session.shut_down()
                gate["go"] = True
                now.update(faults={}, want=[False] * n)
                env.repo.refuse.clear()
            yield

        def shutdown_hook():
            # faults of the last cycle are over
            yield
        session.hook_scheduler_cycle()(hook)

        async def main():
            task = asyncio.ensure_future(session.serve())
            done, _ = await asyncio.wait([task], timeout=60)
            if not done:
                gate["go"] = True
                task.cancel()
                await asyncio.wait([task], timeout=5)
                return "stuck"
            return task.exception()
        exc = asyncio.run(main())
        alive = [t.name for t in session.tasks if t.is_alive()]
        gate["go"] = True
        if problem:
            raise problem[0]
        check(exc != "stuck", lambda: f"the scheduler did not come to an end{show()}")
        if M["fatal"] is None:
            check(exc is None, lambda: f"{exc!r} came out of the scheduler though every fault was silenced or a task's own{show()}")
        else:
            check(isinstance(exc, M["fatal"]), lambda: f"{M['fatal']} was to come out of the scheduler, not {exc!r}{show()}")
        judge(final=True)
        check(not alive, lambda: f"still alive after the scheduler went down: {alive}{show()}")
        check(len(closed) == 1, lambda: f"the shutdown task ran {len(closed)} times{show()}")
        if M["standby_started"]:
            end = M["standby"] if M["standby"] == "terminate" else "terminate" if M["fatal"] else "success"
            if M["cut"] is not None and now["k"] == 1 and c["standby"][0] == "thread":
                pass
            runs = [["run", end]] + ([["run", "success"]] if M["fatal"] is None else [])
            check(sorted(runs_of("standby")) == sorted(runs), lambda: f"the runs of the long task are logged as {runs_of('standby')} instead of {runs}{show()}")
        check(errors.n >= M["errors"], lambda: f"{errors.n} of at least {M['errors']} silenced errors were logged by the scheduler{show()}")
    ctx.label(*{f for cyc in c["cycles"] for f in cyc["faults"].values()}, "went down" if M["fatal"] else "went on")
    ctx.nontrivial(stat["faults"] and (stat["others"] or M["fatal"] is not None))


PARTS = [Part("faults", case, run, 2500, 50000, RULE)]


# ------------------------------------------------- other processes and threads

KINDS = ["ok", "plain", "nasty", "chained", "exit", "exit text", "lambda", "lock", "arg", "stage", "param"]


@st.composite
def proc_case(draw):
    tasks = [{"exec": draw(st.sampled_from(["process", "process", "thread"])), "prio": i} for i in range(draw(st.integers(1, 2)))]
    return {"tasks": tasks, "cycles": [[draw(st.sampled_from(KINDS)) for _ in tasks] for _ in range(draw(st.integers(1, 3)))], "silence": draw(st.sampled_from([True, True, False]))}


def proc_run(c, ctx):
    import sys
    import threading

    from rocketry.args import FuncArg
    from rocketry.conditions import FuncCond
    from rocketry.core import BaseArgument
    from rocketry.exc import TaskSetupError

    from ..pool import SharedClock
    from ..sim import Sim
    T = c["tasks"]
    now = {"kinds": ["ok"] * len(T), "on": False}

    class Staged(BaseArgument):
        def __init__(self, i):
            self.i = i

        def stage(self, **kw):
            if now["kinds"][self.i] == "stage":
                raise Fault("cannot be staged")
            if now["kinds"][self.i] == "param" and T[self.i]["exec"] == "process":
                self = Staged(self.i)
                self.lock = threading.Lock()
                return self
            return self

        def get_value(self, **kw):
            return 1

    with Env(clock=SharedClock(), silence_task_prerun=c["silence"]) as env:
        session = env.session

        def make(i):
            def get():
                if now["kinds"][i] == "arg":
                    raise Fault("the argument fails")
                return 2

            def func(x, y):
                k = now["kinds"][i]
                if k == "exit":
                    sys.exit(2)
                if k == "exit text":
                    sys.exit("no good")
                if k == "lambda":
                    return lambda: 1
                if k == "lock":
                    return threading.Lock()
                if k in ("plain", "nasty", "chained"):
                    raise_body(k)
                return "value"
            session.create_task(func=func, name=f"t{i}", execution=T[i]["exec"], priority=i, start_cond=FuncCond(func=lambda: now["on"]), parameters={"x": Staged(i), "y": FuncArg(get)})
        for i in range(len(T)):
            make(i)
        others = []
        session.create_task(func=lambda: others.append(1), name="other", execution="main", priority=-1, start_cond=FuncCond(func=lambda: now["on"]))
        want = [[] for _ in T]
        M = {"fatal": False, "others": 0}
        trace = []

        def predict(kinds):
            for i in sorted(range(len(T)), reverse=True):
                k, proc = kinds[i], T[i]["exec"] == "process"
                end = {"success"}
                if k in ("plain", "nasty", "chained", "exit", "exit text", "arg", "stage"):
                    end = {"fail"}
                if k in ("lambda", "lock") and proc:
                    end = {"fail"}
                if k == "param" and proc:
                    end = {"success", "fail"}     # it depends on how processes are started whether it has to be pickled
                want[i].append(end)
                if k == "stage" and not c["silence"]:
                    M["fatal"] = True
                    return
            M["others"] += 1

        def before(j):
            # odd cycles: everything starts; even cycles: everything has ended
            if j % 2:
                kinds = c["cycles"][j // 2]
                now["kinds"][:] = kinds
                now["on"] = True
                predict(kinds)
                trace.append(f"cycle {j}: {kinds}")
            else:
                now["on"] = False

        def after(j):
            if j % 2:
                for i in range(len(T)):
                    wait_for(lambda: not session[f"t{i}"].is_alive(), f"t{i} to end after {trace}")
            else:
                judge()

        def judge():
            show = f"\n  tasks {T}, prerun errors silenced: {c['silence']}\n  " + "\n  ".join(trace)
            for i in range(len(T)):
                runs = {}
                for r in env.records(task_name=f"t{i}"):
                    runs.setdefault(r["run_id"], []).append(r["action"])
                got = list(runs.values())
                if M["fatal"] and T[i]["exec"] == "process" and got and len(got) == len(want[i]) and "terminate" in got[-1]:
                    # killed as the scheduler went down, possibly while it was about to end on its own
                    continue
                check(len(got) == len(want[i]) and all(len(g) == 2 and g[0] == "run" and g[1] in w for g, w in zip(got, want[i])), lambda: f"the runs of t{i} ({T[i]['exec']}) are logged as {got}, they were {[['run', *sorted(w)] for w in want[i]]}{show}")
                if got:
                    check(session[f"t{i}"].status == got[-1][-1], lambda: f"status of t{i} is {session[f't{i}'].status!r}, its latest run is logged as {got[-1]}{show}")
            check(len(others) == M["others"], lambda: f"the other task ran {len(others)} times instead of {M['others']}{show}")
        sim = Sim(env, 2 * len(c["cycles"]), before, after)
        exc = sim.run()
        judge()
        if M["fatal"]:
            check(isinstance(exc, TaskSetupError), lambda: f"TaskSetupError was to come out of the scheduler, not {exc!r}: {trace}")
        else:
            check(exc is None, lambda: f"{exc!r} came out of the scheduler: {c}")
    ctx.label(*{k for cyc in c["cycles"] for k in cyc}, *{t["exec"] for t in T})
    ctx.nontrivial(any(k != "ok" for cyc in c["cycles"] for k in cyc) and M["others"])


PARTS.append(Part("processes", proc_case, proc_run, 160, 3000, "a run in another process or thread met a fault while another task had to be run"))
