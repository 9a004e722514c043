"""C25: sessions do not affect each other, and each goes by its own clock."""
import asyncio
import datetime as dt

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Clock, Env, ts
from ..hist import tz_of

RULE = "at least two sessions were served at once and at least two of them ran tasks"
ASSUMPTIONS = ["sessions that are alive at the same time have task loggers of their own", "clocks do not go backwards"]

CONDS = ["daily", "hourly", "every 10 seconds", "time of day between 08:00 and 16:00", "true", "after task 'a'", "after task 'b' failed", "my flag", "daily.after(a)", "every('1 minute')", "retry", "param", "between", "has succeeded a", "not mine"]


@st.composite
def scenario(draw):
    tasks = []
    prios = dict(zip("abc", draw(st.permutations([0, 1, 2]))))
    for name in draw(st.permutations(["a", "b", "c"]))[:draw(st.integers(1, 3))]:
        tasks.append({"name": name, "cond": draw(st.sampled_from(CONDS)), "exec": draw(st.sampled_from([None, "main", "main", "async"])), "outs": draw(st.lists(st.sampled_from(["success", "success", "fail", "inaction"]), min_size=1, max_size=3)),
                      "takes": draw(st.sampled_from([None, "x", "ret", "sess", "task"])), "prio": prios[name], "timeout": draw(st.sampled_from([None, 5.0]))})
    cycles = [{"step": draw(st.sampled_from([0.5, 5.0, 10.0, 61.0, 3600.0, 20000.0])), "flag": draw(st.booleans()), "p": draw(st.sampled_from(["on", "off"])), "run": draw(st.sampled_from([None, None, "a", "b"]))} for _ in range(draw(st.integers(1, 4)))]
    return {"tasks": tasks, "cycles": cycles, "tz": draw(st.sampled_from([None, None, 120, -300])), "start": draw(st.sampled_from([1_700_000_000.0, 1_700_000_000.25, 1_650_000_123.5, 946_684_799.0])), "x": draw(st.integers(0, 99)), "exec": draw(st.sampled_from(["main", "async"])),
            "logs": draw(st.booleans()), "inst": draw(st.booleans())}


@st.composite
def case(draw):
    return {"sessions": [draw(scenario()) for _ in range(draw(st.integers(2, 3)))], "default": draw(st.sampled_from([None, 0, 1])), "app": draw(st.booleans()), "order": draw(st.booleans()), "alike": draw(st.booleans())}


class Live:
    "one session with its scenario"

    def __init__(self, no, s, default, app, logger=None):
        from rocketry.args import Arg, Return, Session as SessionArg, Task as TaskArg
        from rocketry.conditions import FuncCond
        from rocketry.log import LogRecord, MinimalRunRecord
        from rocketry.conds import daily, every, retry, time_of_day, true
        self.no, self.s = no, s
        self.clock = Clock(s["start"])
        kw = {"timezone": tz_of(s["tz"])} if s["tz"] is not None else {}
        self.env = Env(clock=self.clock, app=app, default=default, execution=s["exec"], cycle_sleep=0, force_status_from_logs=s["logs"], use_instance_naming=s["inst"], model=LogRecord if s["inst"] else MinimalRunRecord, reuse_logger=logger, **kw)
        session = self.session = self.env.session
        self.got = []
        self.flag = False
        self.bad = []
        self.n = {}
        self.error = None
        session.parameters["x"] = s["x"]
        session.parameters["p"] = "off"
        FuncCond(syntax="my flag", session=session, decor_return_func=False)(lambda: self.flag)
        FuncCond(syntax="not mine", session=session, decor_return_func=False)(lambda: no == 0)
        FuncCond(syntax=f"only {no}", session=session, decor_return_func=False)(lambda: True)

    def tasks(self):
        session, s = self.session, self.s
        names = {t["name"] for t in s["tasks"]}

        def unnamed():
            pass
        for _ in range(2 if s["inst"] else 1):
            session.create_task(func=unnamed, start_cond="false", execution="main", priority=9)
        for t in s["tasks"]:
            session.create_task(func=self.body(t), name=t["name"], execution=t["exec"], priority=t["prio"], timeout=t["timeout"], start_cond=self.cond(t, names))
        return self

    def knows(self, no):
        "whether the session has the custom condition of session no"
        from rocketry.parse import parse_condition
        try:
            parse_condition(f"only {no}", session=self.session)
        except Exception:
            return False
        return True

    def cond(self, t, names):
        from rocketry.conditions import ParamExists, TaskSucceeded, AlwaysFalse
        from rocketry.conds import daily, every, retry, time_of_day
        c = t["cond"]
        need = {"after task 'a'": "a", "after task 'b' failed": "b", "daily.after(a)": "a", "has succeeded a": "a"}.get(c)
        if need and need not in names:
            return "true"
        return {"daily.after(a)": lambda: daily.after("09:00") & TaskSucceeded(task="a", period=None), "every('1 minute')": lambda: every("1 minute"), "retry": lambda: retry(2) | daily, "param": lambda: ParamExists(p="on"),
                "between": lambda: time_of_day.between("22:00", "10:00"), "has succeeded a": lambda: TaskSucceeded(task="a")}.get(c, lambda: c)()

    def body(self, t):
        from rocketry.args import Arg, Return, Session as SessionArg, Task as TaskArg
        from rocketry.exc import TaskInactionException
        name = t["name"]

        def act(v):
            self.got.append((name, v))
            k = self.n[name] = self.n.get(name, 0) + 1
            out = t["outs"][(k - 1) % len(t["outs"])]
            if out == "fail":
                raise RuntimeError("fails")
            if out == "inaction":
                raise TaskInactionException()
            return (self.s["x"], name, k)
        ex = t["exec"] or self.s["exec"]
        takes = t["takes"]
        first = self.s["tasks"][0]["name"]
        if takes == "x":
            def func(v=Arg("x")):
                return act(v)
        elif takes == "ret":
            def func(v=Return(first, default="nothing yet")):
                return act(v)
        elif takes == "sess":
            def func(v=SessionArg()):
                return act("the session" if v is self.session else repr(v))
        elif takes == "task":
            def func(v=TaskArg(first)):
                return act("the task" if v is self.session[first] else repr(v))
        else:
            def func():
                return act(None)
        if ex == "async":
            import inspect

            async def afunc(*args, **kwargs):
                return func(*args, **kwargs)
            afunc.__signature__ = inspect.signature(func)
            return afunc
        return func

    def hook(self):
        s = self.s
        i = [0]

        def cycle():
            if self.error is not None:
                return
            try:
                i[0] += 1
                if i[0] <= len(s["cycles"]):
                    cyc = s["cycles"][i[0] - 1]
                    self.clock.advance(cyc["step"])
                    self.flag = cyc["flag"]
                    self.session.parameters["p"] = cyc["p"]
                    if cyc["run"] in {t["name"] for t in s["tasks"]}:
                        self.session[cyc["run"]].run()
                self.look()
            except BaseException as exc:
                self.error = exc
            yield
            if i[0] >= len(s["cycles"]):
                self.session.shut_down()
        self.session.hook_scheduler_cycle()(cycle)

    def look(self):
        "what the session says about the time"
        now = dt.datetime.fromtimestamp(self.clock.t, tz=tz_of(self.s["tz"]) if self.s["tz"] is not None else None)
        for what, got, want in (("get_time()", self.session.get_time(), self.clock.t), ("get_current_time()", self.session.get_current_time(), now)):
            if got != want:
                self.bad.append(f"session.{what} is {got!r}, the session's clock says {want!r}")

    def outcome(self):
        recs = [(r["task_name"], r["action"], r["created"]) for r in self.env.records()]
        tasks = {}
        for t in self.session.tasks:
            if t.priority == 9:
                # named by its function, or in a way of its own
                continue
            tasks[t.name] = (t.status, t.last_run, t.last_success, t.last_fail, t.last_inaction, t.is_alive(), len(t.batches))
        rets = {}
        for t in self.session.tasks:
            try:
                rets[t.name] = self.session.returns[t]
            except KeyError:
                pass
        log = [(r["task_name"], r["action"], r["created"]) for r in (r if isinstance(r, dict) else r.dict() for r in self.session.get_task_log())]
        return {"records": recs, "log": log, "values": self.got, "tasks": tasks, "returns": rets, "cycles": self.session.scheduler.n_cycles, "x": self.session.parameters["x"], "names": sorted(t.name if t.priority != 9 or t.name == "unnamed" else "some name" for t in self.session.tasks),
                "started": self.session.scheduler.startup_time}


def served_alone(c, show):
    alone = []
    for no, s in enumerate(c["sessions"]):
        live = Live(no, s, True, c["app"])
        try:
            live.tasks().hook()
            asyncio.run(live.session.serve())
            if live.error:
                raise live.error
            check(not live.bad, lambda: f"{live.bad[0]}{show()}")
            out = live.outcome()
            low, high = s["start"], live.clock.t
            for r in out["records"]:
                check(low <= ts_of(r[2]) <= high, lambda: f"the record {r} was not made by the session's clock ({low} to {high}){show()}")
            for r in live.env.records():
                if "msecs" in r:
                    at = ts_of(r["created"])
                    check(abs((at - int(at)) * 1000 - r["msecs"]) < 0.5, lambda: f"a record made at {at} says it was {r['msecs']} ms past the second{show()}")
            check(out["started"] == dt.datetime.fromtimestamp(s["start"], tz=tz_of(s["tz"]) if s["tz"] is not None else None), lambda: f"the scheduler's startup time is {out['started']!r}, the clock said {s['start']}{show()}")
            alone.append(out)
        finally:
            live.env.close()
    return alone


def run(c, ctx):
    show = lambda: f"\n  {c}"
    alone = served_alone(c, show)
    lives = []
    try:
        for no, s in enumerate(c["sessions"]):
            # (names of loggers may be alike)
            name = None if not c.get("alike") or not lives else lives[0].env.basename + f"{no}"
            lives.append(Live(no, s, False, c["app"], name))
        if c["default"] is not None:
            lives[c["default"]].session.set_as_default()
        for live in (reversed(lives) if c["order"] else lives):
            live.tasks().hook()
        for live in lives:
            for no in range(len(lives)):
                check(live.knows(no) == (no == live.no), lambda: f"session {live.no} {'knows the' if no != live.no else 'does not know its own'} custom condition of session {no}{show()}")

        async def serve():
            await asyncio.gather(*[x.session.serve() for x in lives])
        asyncio.run(serve())
        for live, want in zip(lives, alone):
            if live.error:
                raise live.error
            check(not live.bad, lambda: f"{live.bad[0]} (several sessions){show()}")
            got = live.outcome()
            for k in want:
                check(got[k] == want[k], lambda: f"session {live.no}, served together with others: {k} are {got[k]} instead of {want[k]} as when served alone{show()}")
    finally:
        for live in reversed(lives):
            live.env.close()
    ran = sum(bool(o["records"]) for o in alone)
    ctx.label(f"{len(lives)} sessions", f"{ran} of them run tasks")
    ctx.nontrivial(ran > 1)


def ts_of(v):
    if isinstance(v, (int, float)):
        return v
    return ts(v)


@st.composite
def seq_case(draw):
    return {"sessions": [draw(scenario()) for _ in range(draw(st.integers(1, 3)))], "app": draw(st.booleans()), "real": draw(st.sampled_from([None, "first", "between"]))}


def real_session(name):
    "a session on the real clock, on the logger others used or will use; returns when its records say they were made and when they were"
    import time

    from rocketry.conds import every
    with_clock = Env(app=True, default=False, reuse_logger=name, time_func=None)
    session = with_clock.session
    session.create_task(func=lambda: None, name="a", start_cond=every("1 hour"), execution="main")
    from rocketry.conditions import SchedulerCycles
    session.config.shut_cond = SchedulerCycles() >= 2
    before = time.time()
    asyncio.run(session.serve())
    return with_clock, [r["created"] for r in with_clock.records()], before, time.time()


def seq_run(c, ctx):
    "sessions one after the other, with the same task logger (there is one by default)"
    show = lambda: f"\n  {c}"
    alone = served_alone(c, show)
    envs = []
    name = None

    def real():
        env, made, lo, hi = real_session(name)
        envs.append(env)
        check(len(made) == 2 and all(lo - 0.01 <= x <= hi + 0.01 for x in made), lambda: f"records of a session on the real clock were made at {made}, it was {lo} to {hi}{show()}")
        return env.basename
    try:
        if c["real"] == "first":
            name = real()
        for no, s in enumerate(c["sessions"]):
            if no == 1 and c["real"] == "between":
                real()
            live = Live(no, s, True, c["app"], name)
            envs.append(live.env)
            name = live.env.basename
            live.tasks().hook()
            asyncio.run(live.session.serve())
            if live.error:
                raise live.error
            check(not live.bad, lambda: f"{live.bad[0]} (a later session){show()}")
            got, want = live.outcome(), alone[no]
            for k in want:
                check(got[k] == want[k], lambda: f"session {no}, served after others: {k} are {got[k]} instead of {want[k]} as when served alone{show()}")
    finally:
        for env in reversed(envs):
            env.close()
    ran = sum(bool(o["records"]) for o in alone)
    ctx.label(f"{len(c['sessions'])} sessions", f"real clock {c['real']}")
    ctx.nontrivial(ran + bool(c["real"]) > 1)


PARTS = [Part("together", case, run, 1200, 20000, RULE),
         Part("succession", seq_case, seq_run, 400, 6000, "at least two sessions ran tasks, one after the other")]
