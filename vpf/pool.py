"""Concurrent runs under control: the real scheduler with tasks whose runs last until the harness lets
them go, and a model that predicts every start, end and termination.

A case:
  tasks:  [{exec, multi, timeout, permanent, start, end, prio, disabled, limit, flag, outs, durs, cancel}]
  multi, timeout, max_procs: the configuration
  cycles: lists of operations
            ["step", secs] ["run", task] ["terminate", task] ["flag", k, value]     before the cycle
            ["disable", task, value]    before the cycle
            ["set", task, "multi" | "timeout" | "permanent", value]  ["conf", "multi" | "timeout" | "max_procs", value]    before the cycle
            ["exec", task, "process" | "thread"]  the execution of a task given with "process" changes    before the cycle
            ["remove", task]    the task is taken out of the session; its runs go on         after the cycle
            ["release", k, outcome]  the k-th alive run ends so                     after the cycle
            ["ask", task]  termination is requested                                 after the cycle
  a task's "setup" tells for its runs, in turn, whether getting their parameters fails
  shutdown: {"how": "graceful" | "force" | "twice" | "instant" | "error" | "cond", "step": secs, "outs": [...]}
"""
import asyncio
import collections
import datetime as dt
import multiprocessing
import os
import shutil
import tempfile
import threading
import time

from .core import Violation, check
from .env import Clock, Env
from .hist import iso, tz_of
from .sim import Sim, wait_for

PROCESS = multiprocessing.get_context("fork")


class SharedClock(Clock):
    "A clock that child processes see moving"

    def __init__(self, t=1_700_000_000.0):
        self._v = PROCESS.RawValue("d", float(t))

    @property
    def t(self):
        return self._v.value

    @t.setter
    def t(self, value):
        self._v.value = value


class Boom(Exception):
    pass


class MRun:
    def __init__(self, task, n, start):
        self.task, self.n, self.start = task, n, start
        self.alive = True
        self.exec = None
        self.fresh = True         # an async run begins when the scheduler next pauses
        self.end = None           # (action, time)

    def __repr__(self):
        return f"{self.task}#{self.n}"


class Pool:

    def __init__(self, c, ctx):
        # settings change on the way
        self.c, self.ctx = dict(c), ctx
        self.T = [dict(t) for t in c["tasks"]]
        self.exec = [t["exec"] for t in self.T]
        self.names = [t.get("name", f"t{i}") for i, t in enumerate(self.T)]
        self.order = sorted(range(len(self.T)), key=lambda i: -self.T[i]["prio"])
        self.flags = dict(enumerate(c.get("flags", [False] * 4)))
        self.runs = []
        self.batches = collections.Counter()
        self.force_term = set()
        self.gates = {}
        self.counter = collections.Counter()      # runs started, per task (model)
        self.claimed = []                         # (task, n) of bodies that began
        self.trace = []
        self.dir = tempfile.mkdtemp(prefix="vpf-pool-") if any(t["exec"] == "process" for t in self.T) else None
        self.stats = collections.Counter()
        self.hooks = []
        self.in_shutdown = False
        self.removed = set()
        self.setups = collections.Counter()
        self.disabled = [bool(t.get("disabled")) for t in self.T]

    # ---- bodies

    def gate(self, i, n):
        key = (i, n)
        if key not in self.gates:
            ex = self.T[i]["exec"]
            self.gates[key] = {"ev": asyncio.Event() if ex == "async" else threading.Event(), "out": None}
        return self.gates[key]

    def act(self, out, value=None):
        from rocketry.exc import TaskInactionException, TaskTerminationException
        if out == "fail":
            raise Boom("the task fails")
        if out == "inaction":
            raise TaskInactionException()
        if out == "terminate":
            # of its own accord
            raise TaskTerminationException()
        return value

    def setup(self, i):
        "the parameters of a run"
        self.setups[i] += 1
        if self.of(self.T[i]["setup"], self.setups[i]):
            raise Boom("no parameters")

    def body(self, i):
        from rocketry.args import TerminationFlag
        from rocketry.exc import TaskTerminationException
        t, pool = self.T[i], self
        ex = t["exec"]
        if ex == "main":
            def func(x=None):
                n = pool.counter[i]
                pool.claimed.append((i, n))
                pool.clock.advance(pool.dur(i, n))
                return pool.act(pool.of(t["outs"], n), (i, n))
        elif ex == "async":
            async def func():
                n = pool.counter[i]
                pool.claimed.append((i, n))
                g = pool.gate(i, n)
                try:
                    await g["ev"].wait()
                except asyncio.CancelledError:
                    # the function has its own idea of what to do when it is cancelled
                    if t.get("cancel") is None:
                        raise
                    await asyncio.sleep(0)
                    if t["cancel"] == "clean":
                        raise
                    return pool.act(t["cancel"], (i, n))
                return pool.act(g["out"], (i, n))
        elif ex == "thread" and t.get("flag", True):
            def func(flag=TerminationFlag(), x=None):
                n = pool.counter[i]
                g = pool.gate(i, n)
                pool.claimed.append((i, n))
                while not g["ev"].wait(0.0005):
                    if flag.is_set():
                        raise TaskTerminationException()
                return pool.act(g["out"], (i, n))
        elif ex == "thread":
            def func(x=None):
                n = pool.counter[i]
                g = pool.gate(i, n)
                pool.claimed.append((i, n))
                g["ev"].wait()
                return pool.act(g["out"], (i, n))
        else:
            path = os.path.join(self.dir, f"{i}-")

            def func(x=None):
                n = pool.counter[i]
                # what was put in the queue of the log must be through before someone may end this process
                time.sleep(0.01)
                with open(f"{path}{n}-begun", "w"):
                    pass
                while not os.path.exists(f"{path}{n}"):
                    time.sleep(0.001)
                with open(f"{path}{n}") as f:
                    out = f.read()
                return pool.act(out, (i, n))
        return func

    @staticmethod
    def of(lst, n):
        return lst[(n - 1) % len(lst)]

    def dur(self, i, n):
        # threads end in their own time: the clock stands still while they do
        if any(t["exec"] in ("thread", "process") for t in self.T):
            return 0.0
        return self.of(self.T[i]["durs"], n)

    # ---- model

    def alive(self, i=None):
        return [r for r in self.runs if r.alive and (i is None or r.task == i)]

    def finish(self, r, action, now):
        r.alive = False
        r.end = (action, now)
        self.stats[action] += 1

    def wants(self, i):
        t = self.T[i]
        if i in self.removed:
            return False
        if self.batches[i]:
            return True
        if self.disabled[i]:
            return False
        if t.get("start") is None or not self.flags[t["start"]]:
            return False
        return t.get("limit") is None or len(self.alive(i)) < t["limit"]

    def can(self, i):
        t = self.T[i]
        if t["exec"] == "main":
            return True
        if self.exec[i] == "process" and sum(r.exec == "process" for r in self.alive()) >= self.c.get("max_procs", 8):
            self.stats["held back: processes"] += 1
            return False
        multi = self.c.get("multi", False) if t.get("multi") is None else t["multi"]
        if not multi and self.alive(i):
            self.stats["held back: alive"] += 1
            return False
        return True

    def start(self, i, now):
        self.counter[i] += 1
        r = MRun(i, self.counter[i], now)
        r.exec = self.exec[i]
        self.runs.append(r)
        self.stats["started"] += 1
        if self.batches[i]:
            self.batches[i] -= 1
        return r

    def stoppable(self, r):
        return r.exec != "thread" or (self.T[r.task]["exec"] == "thread" and self.T[r.task].get("flag", True))

    def stop(self, r, now):
        if self.stoppable(r):
            cancel = self.T[r.task].get("cancel")
            if r.fresh and cancel:
                # whether the function got to begin (and to handle its cancellation) depends on the other runs
                self.stats["unsure how it ended"] += 1
            self.finish(r, "terminate" if cancel in (None, "clean") else cancel, now)

    def timeout(self, i):
        t = self.T[i].get("timeout")
        if t == "never":
            return float("inf")
        return t if t is not None else self.c.get("timeout", 1800)

    def check_termination(self, i, now):
        t = self.T[i]
        if i in self.removed:
            return
        if i in self.force_term or (t.get("end") is not None and self.flags[t["end"]]):
            self.force_term.discard(i)
            for r in self.alive(i):
                self.stop(r, now)
        elif not t.get("permanent"):
            for r in self.alive(i):
                if now - r.start > self.timeout(i):
                    self.stats["timed out"] += 1
                    self.stop(r, now)

    def predict(self, now):
        "one cycle; returns the starts in order and the clock afterwards"
        out = []
        for i in self.order:
            t = self.T[i]
            if self.wants(i) and self.can(i):
                r = self.start(i, now)
                out.append(i)
                if t.get("setup") and self.of(t["setup"], r.n):
                    self.finish(r, "fail", now)
                    self.stats["failed in setup"] += 1
                    self.stats["failed in setup while another is alive"] += bool(self.alive(i))
                elif t["exec"] == "main":
                    now = round(now + self.dur(i, r.n), 6)
                    self.finish(r, self.of(t["outs"], r.n), now)
            self.check_termination(i, now)
        return out, now

    # ---- driving

    def release(self, r, out, now):
        self.finish(r, out, now)
        ex = self.T[r.task]["exec"]
        if ex == "process":
            tmp = os.path.join(self.dir, f"tmp{r.task}-{r.n}")
            with open(tmp, "w") as f:
                f.write(out)
            os.rename(tmp, os.path.join(self.dir, f"{r.task}-{r.n}"))
        else:
            g = self.gate(r.task, r.n)
            g["out"] = out
            g["ev"].set()

    def settle_real(self):
        "wait (real time) for what happens outside of the event loop"
        for i, t in enumerate(self.T):
            if t["exec"] in ("thread", "process"):
                want = len(self.alive(i))
                task = self.tasks[i]
                try:
                    wait_for(lambda: task.n_alive <= want, f"{task.n_alive} runs of {self.names[i]} are alive, expected {want}")
                except Violation as exc:
                    raise Violation(f"{exc}\n{self.show()}") from None
            if t["exec"] == "thread":
                for r in self.alive(i):
                    wait_for(lambda: (i, r.n) in self.claimed, f"{r} to begin")
            elif t["exec"] == "process":
                for r in self.alive(i):
                    wait_for(lambda: os.path.exists(os.path.join(self.dir, f"{i}-{r.n}-begun")), f"{r} to begin")

    def settled(self, i):
        """Killing a process while it writes to the queue of the log would leave the queue locked for all others
        (a limit of multiprocessing.Queue): a process that has just started is given the time to get through"""
        if self.T[i]["exec"] == "process":
            end = time.monotonic() + 5
            started = sum(r["action"] == "run" for r in self.env.records(task_name=self.names[i]))
            while time.monotonic() < end and sum(f.startswith(f"{i}-") and f.endswith("-begun") for f in os.listdir(self.dir)) < started:
                time.sleep(0.001)
        return True

    def show(self):
        return "\n".join(["  " + "; ".join(f"{self.names[i]}: {t}" for i, t in enumerate(self.T)) + f"  {({k: v for k, v in self.c.items() if k in ('multi', 'timeout', 'max_procs')})}"] + ["  " + x for x in self.trace])

    def fail(self, msg):
        raise Violation(f"{msg}\n{self.show()}")

    def judge(self, when, complete=False):
        c, env = self.c, self.env
        for i, t in enumerate(self.T):
            task = self.tasks[i]
            want = len(self.alive(i))
            if task.n_alive != want or task.is_alive() != bool(want):
                self.fail(f"{when}: {task.n_alive} runs of {self.names[i]} are alive, expected {want}")
        if self.stats["unsure how it ended"]:
            return
        recs = env.records()
        by = collections.defaultdict(list)
        for r in recs:
            by[r["task_name"], r["run_id"]].append(r)
        got = collections.Counter()
        for (name, run_id), group in by.items():
            acts = [g["action"] for g in group]
            if run_id is None or acts[0] != "run" or len(group) > 2 or "run" in acts[1:]:
                self.fail(f"{when}: the log of {name} has {acts} for run {run_id!r}, expected one run and then at most one end")
            if c.get("full"):
                run = group[0]
                sec = lambda v: v if v is None else v.total_seconds() if isinstance(v, dt.timedelta) else v.replace(tzinfo=dt.timezone.utc).timestamp()
                for g in group:
                    want = (run["created"], *((None, None) if g is run else (g["created"], g["created"] - run["created"])))
                    told = (sec(g["start"]), sec(g["end"]), sec(g["runtime"]))
                    if any((x is None) != (y is None) or (x is not None and abs(x - y) > 1e-5) for x, y in zip(told, want)):
                        self.fail(f"{when}: the {g['action']} record of {name} run {run_id!r} tells start, end and runtime {told}, expected {want}")
            got[name, group[0]["created"], *([] if len(group) == 1 else [group[1]["action"], group[1]["created"]])] += 1
        want = collections.Counter()
        for r in self.runs:
            want[self.names[r.task], r.start, *([] if r.end is None else r.end)] += 1
        if got != want:
            fmt = lambda x: [f"{k[0]} " + " ".join(iso(v) if isinstance(v, float) else str(v) for v in k[1:]) for k in x]
            self.fail(f"{when}: the log does not show what happened: unexpected runs {fmt(got - want)}, missing {fmt(want - got)}")
        for i, t in enumerate(self.T):
            if i in self.removed:
                continue
            task, name = self.tasks[i], self.names[i]
            mine = [r for r in recs if r["task_name"] == name]
            status = mine[-1]["action"] if mine else None
            if task.get_status() != status or task.status != status or task.is_running != (status == "run"):
                self.fail(f"{when}: status of {name} is {task.status!r} ({task.get_status()!r}), its latest record is {status!r}")
            for act in ("run", "success", "fail", "inaction", "terminate"):
                # a process's own record may reach the log after one of a later time: the latest by either order
                times = [r["created"] for r in mine if r["action"] == act]
                last = max(times, default=None)
                val = getattr(task, "last_" + act)
                if (val is None) != (last is None) or (val is not None and min(abs(val.timestamp() - x) for x in (last, times[-1])) > 1e-6):
                    self.fail(f"{when}: last_{act} of {name} is {val}, the log says {last and iso(last)}")

    def make(self):
        from rocketry.conditions import FuncCond
        from rocketry.conds import running
        from rocketry.args import FuncArg
        c = self.c
        proc = any(t["exec"] == "process" for t in self.T)
        conf = dict(c.get("config", {}))
        conf.update(multilaunch=c.get("multi", False), timeout=c.get("timeout", 1800), max_process_count=c.get("max_procs", 8),
                    force_status_from_logs=c.get("from_logs", False), timezone=tz_of(c.get("tz")))
        if c.get("run_id"):
            conf["func_run_id"] = lambda task, params=None: f"{task.name}/{self.counter[self.names.index(task.name)]}"
        if c["shutdown"]["how"] == "instant":
            conf["instant_shutdown"] = True
        if c.get("full"):
            from rocketry.log import TaskRunRecord
            conf["model"] = TaskRunRecord
        if c.get("no_run_id"):
            from rocketry.log import MinimalRecord
            conf["model"] = MinimalRecord
        self.env = env = Env(clock=SharedClock() if proc else None, **conf)
        self.clock = env.clock
        self.tasks = []
        for i, t in enumerate(self.T):
            kw = {}
            if t.get("start") is not None:
                cond = FuncCond(func=lambda k=t["start"]: self.flags[k])
                if t.get("limit") is not None:
                    cond = cond & (running < t["limit"])
                kw["start_cond"] = cond
            if t.get("end") is not None:
                kw["end_cond"] = FuncCond(func=lambda k=t["end"], i=i: self.flags[k] and self.settled(i))
            if t.get("timeout") is not None:
                kw["timeout"] = {"text": lambda v: f"{v} seconds", "timedelta": lambda v: dt.timedelta(seconds=v)}.get(t.get("timeout_as"), lambda v: v)(t["timeout"])
            if t.get("setup"):
                kw["parameters"] = {"x": FuncArg(lambda i=i: self.setup(i), materialize="pre")}
                env.session.config.silence_task_prerun = True
            for k, a in (("multi", "multilaunch"), ("permanent", "permanent"), ("disabled", "disabled")):
                if t.get(k) is not None:
                    kw[a] = t[k]
            self.tasks.append(env.session.create_task(func=self.body(i), name=self.names[i], execution=t["exec"], priority=t["prio"], **kw))

    def before(self, i):
        if i > 1:
            self.end_of_cycle(i - 1)
        for r in self.runs:
            r.fresh = False
        ops = self.c["cycles"][i - 1]
        for op in ops:
            if op[0] == "step":
                self.clock.advance(op[1])
            elif op[0] in ("run", "terminate") and op[1] in self.removed:
                pass
            elif op[0] == "run":
                self.tasks[op[1]].run()
                self.batches[op[1]] += 1
            elif op[0] == "terminate":
                if self.alive(op[1]):
                    self.tasks[op[1]].terminate()
                    self.force_term.add(op[1])
                    self.stats["terminate()"] += 1
            elif op[0] == "disable":
                self.tasks[op[1]].disabled = op[2]
                self.disabled[op[1]] = op[2]
            elif op[0] == "set":
                attr = {"multi": "multilaunch"}.get(op[2], op[2])
                setattr(self.tasks[op[1]], attr, dt.timedelta(seconds=op[3]) if op[2] == "timeout" and op[3] is not None else op[3])
                self.T[op[1]][op[2]] = op[3]
            elif op[0] == "conf":
                attr = {"multi": "multilaunch", "max_procs": "max_process_count"}.get(op[1], op[1])
                setattr(self.env.session.config, attr, dt.timedelta(seconds=op[2]) if op[1] == "timeout" else op[2])
                self.c[op[1]] = op[2]
            elif op[0] == "exec" and self.T[op[1]]["exec"] == "process":
                self.tasks[op[1]].execution = op[2]
                self.exec[op[1]] = op[2]
                self.stats["execution changed while alive"] += bool(self.alive(op[1]))
            elif op[0] == "flag":
                self.flags[op[1]] = op[2]
        self.extra_before(i)
        now = self.clock()
        starts, self.want_now = self.predict(now)
        self.trace.append(f"{iso(now)} {[o for o in ops if o[0] not in ('step', 'release')]} -> starts {[self.names[k] for k in starts]}, alive then {self.alive()}")

    def extra_before(self, i):
        pass

    def after(self, i):
        # main tasks advance the clock by what they take; nothing else does
        if abs(self.clock() - self.want_now) > 1e-6:
            self.fail(f"cycle {i}: the main tasks took {self.clock() - self.want_now:+.3f} s more than the runs that should have been")
        self.settle_real()
        for op in self.c["cycles"][i - 1]:
            if op[0] == "release":
                alive = self.alive()
                if alive:
                    r = alive[op[1] % len(alive)]
                    if self.c["shutdown"]["how"] == "error" and i == len(self.c["cycles"]) and self.T[r.task]["exec"] == "async":
                        # the scheduler goes down without pausing
                        continue
                    if r.task in self.force_term and len(self.alive(r.task)) == 1:
                        # whether the request then means the run that begins next is not said
                        continue
                    self.trace.append(f"   {r} ends: {op[2]}")
                    self.release(r, op[2], self.clock())
                    self.settle_real()
            elif op[0] == "ask":
                if op[1] not in self.removed and self.alive(op[1]):
                    self.trace.append(f"   termination of {self.names[op[1]]} is requested")
                    self.tasks[op[1]].terminate()
                    self.force_term.add(op[1])
                    self.stats["terminate()"] += 1
            elif op[0] == "remove" and op[1] not in self.removed and i < len(self.c["cycles"]) - 1:
                # none of a removed task's runs is left when the scheduler goes down
                task = self.tasks[op[1]]
                self.env.session.remove_task(task if op[2] else task.name)
                self.removed.add(op[1])
                self.batches[op[1]] = 0
                self.trace.append(f"   {self.names[op[1]]} is removed, alive {self.alive(op[1])}")
                self.stats["removed while alive"] += bool(self.alive(op[1]))
        if i == len(self.c["cycles"]) - 1:
            for r in self.alive():
                if r.task in self.removed:
                    self.trace.append(f"   {r} ends: success")
                    self.release(r, "success", self.clock())
            self.settle_real()

    def end_of_cycle(self, i):
        # records of processes arrive when the scheduler next looks
        if not self.dir:
            self.judge(f"after cycle {i}")

    # ---- the end

    def at_shutdown(self):
        self.in_shutdown = True
        self.end_of_cycle(len(self.c["cycles"]))
        s = self.c["shutdown"]
        how = s["how"]
        if how != "error":
            for r in self.runs:
                r.fresh = False
        if s.get("step"):
            self.clock.advance(s["step"])
        now = self.clock()
        if how in ("graceful", "cond"):
            # first what must be terminated though the scheduler waits
            for i in self.order:
                if self.T[i].get("permanent"):
                    for r in self.alive(i):
                        self.stop(r, now)
                else:
                    self.check_termination(i, now)
            rest = self.alive()
            self.stats["waited for"] += len(rest)
            self.trace.append(f"shutdown ({how}) at {iso(now)}: to be waited for {rest}")

            async def let_go():
                for _ in range(30):
                    await asyncio.sleep(0)
                if any(self.T[r.task]["exec"] in ("thread", "process") for r in rest):
                    await asyncio.sleep(0.01)
                for k, r in enumerate(rest):
                    self.release(r, self.of(s["outs"], k + 1), now)
            self.letter = asyncio.get_running_loop().create_task(let_go())
        else:
            for r in self.alive():
                self.stop(r, now)
            self.trace.append(f"shutdown ({how}) at {iso(now)}")
            stubborn = self.alive()
            if stubborn:
                async def let_go():
                    for _ in range(30):
                        await asyncio.sleep(0)
                    await asyncio.sleep(0.01)
                    for k, r in enumerate(stubborn):
                        self.release(r, self.of(s["outs"], k + 1), now)
                self.letter = asyncio.get_running_loop().create_task(let_go())

    def play(self):
        c = self.c
        self.make()
        try:
            pool, env = self, self.env
            how = c["shutdown"]["how"]
            n = len(c["cycles"])

            def after(i):
                pool.after(i)
                if i == n:
                    if how == "force":
                        env.session.shut_down(force=True)
                    elif how == "twice":
                        env.session.shut_down()
                        env.session.shut_down()
                    elif how == "error":
                        pool.crash = True
            sim = Sim(env, n, before=self.before, after=after)
            self.sim = sim
            self.crash = False
            # something in the application breaks in the last cycle
            def crash_hook():
                yield
                if pool.crash:
                    raise Boom("the application breaks")
            env.session.hook_scheduler_cycle()(crash_hook)

            def shutdown_hook():
                sim._guard(lambda i: pool.at_shutdown())
            env.session.hook_shutdown()(shutdown_hook)
            try:
                exc = self.serve(sim)
            finally:
                # nothing may be left waiting, whatever happened
                for r in self.runs:
                    if self.T[r.task]["exec"] == "thread":
                        g = self.gate(r.task, r.n)
                        g["out"] = g["out"] or "success"
                        g["ev"].set()
            if how == "error":
                check(isinstance(exc, Boom), lambda: f"a fatal error should come out of the scheduler, got {exc!r}\n{self.show()}")
            elif exc is not None:
                raise exc
            self.settle_real()
            self.judge("in the end")
        finally:
            if self.dir:
                for t in getattr(self, "tasks", []):
                    for p in multiprocessing.active_children():
                        p.terminate()
                        p.join()
                shutil.rmtree(self.dir, ignore_errors=True)
            self.env.close()

    def serve(self, sim):
        "with a deadline: a scheduler that never shuts down is a violation, not a hang"
        async def main():
            task = asyncio.ensure_future(self.env.session.serve())
            # serve cannot be cancelled safely while it is in the middle of something; a watchdog lets everything go instead
            done, _ = await asyncio.wait([task], timeout=30)
            if not done:
                self.fail_late = "the scheduler did not shut down within 30 s"
                for r in self.runs:
                    if r.alive or not self.gate(r.task, r.n)["ev"].is_set():
                        if self.T[r.task]["exec"] == "process":
                            continue
                        g = self.gate(r.task, r.n)
                        g["out"] = g["out"] or "success"
                        g["ev"].set()
                for p in multiprocessing.active_children():
                    p.terminate()
                self.env.session.shut_down(force=True)
                done, _ = await asyncio.wait([task], timeout=10)
                if not done:
                    task.cancel()
                    await asyncio.wait([task], timeout=5)
                return None
            return task.exception()
        self.fail_late = None
        exc = asyncio.run(main())
        sim.done = True
        if sim.error is not None:
            raise sim.error
        if self.fail_late:
            self.fail(self.fail_late)
        return exc
