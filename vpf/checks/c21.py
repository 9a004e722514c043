"""C21: a new life of the application goes on from the log of the one before, however that ended."""
import asyncio
import csv
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Clock, Env
from ..sim import Sim

RULE = "the application was cut off while at least one run was under way and another task had ended its runs"
ASSUMPTIONS = ["a task has no two runs at once", "a run starts later than the end of the task's previous run (not at the same microsecond)", "the repository keeps what it was given (records are in the order given (they are read back with the csv and sqlite3 modules))"]

ACTIONS = ["run", "success", "fail", "terminate", "inaction", "crash"]
MODELS = ["MinimalRecord", "MinimalRunRecord", "LogRecord", "TaskLogRecord", "RunRecord", "TaskRunRecord"]
OUTS = ["success", "success", "fail", "inaction"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    tasks = [{"exec": draw(st.sampled_from(["main", "main", "async"])), "prio": i, "disabled": draw(st.sampled_from([False, False, True])), "role": draw(st.sampled_from([None, None, None, "on_shutdown", "on_startup"]))} for i in range(n)]
    lives = []
    for _ in range(draw(st.integers(1, 3))):
        cycles = []
        for _ in range(draw(st.integers(1, 4))):
            cycles.append({"step": draw(st.sampled_from([0.000001, 0.001, 1.0, 100.25, 90000.0])), "run": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)),
                           "outs": [draw(st.sampled_from(OUTS)) for _ in range(n)], "dur": draw(st.sampled_from([0.0, 0.000001, 1.5])),
                           "end": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)), "stop": draw(st.sampled_from([None, None, None, *range(n)]))})
        where = draw(st.sampled_from(["body", "body", "body", "body", "cycle", "shutdown"]))
        lives.append({"cycles": cycles, "cut": {"where": where, "cycle": draw(st.integers(1, len(cycles))), "task": draw(st.integers(0, n - 1))}})
    repo = draw(st.sampled_from(["memory", "memory", "memory", "csv", "csv", "sql", "dict"]))
    return {"tasks": tasks, "lives": lives, "repo": repo, "model": draw(st.sampled_from(MODELS)), "from_logs": draw(st.booleans()), "tz": draw(st.sampled_from([None, None, 120, -300]))}


class Store:
    "a repository, and its contents as plain data"

    def __init__(self, kind, model, folder):
        import redbird.repos as R
        import rocketry.log as L
        from typing import Optional
        self.kind, self.folder = kind, folder
        self.model = getattr(L, model)
        if kind == "memory":
            self.repo = R.MemoryRepo(model=self.model)
        elif kind == "dict":
            self.repo = R.MemoryRepo()
        elif kind == "csv":
            self.repo = R.CSVFileRepo(filename=os.path.join(folder, "log.csv"), model=self.model)
        elif kind == "sql":
            from sqlalchemy import create_engine

            class WithId2(L.MinimalRunRecord):
                id: Optional[int]
            con = sqlite3.connect(os.path.join(folder, "log.sqlite"))
            con.execute("create table if not exists log (id integer primary key, task_name text, action text, created float, run_id text)")
            con.commit()
            con.close()
            self.engine = create_engine(f"sqlite:///{folder}/log.sqlite")
            self.repo = R.SQLRepo(model=WithId2, table="log", engine=self.engine, id_field="id")

    def rows(self):
        "(task, action, created) in the order of logging, read without redbird"
        if self.kind in ("memory", "dict"):
            return [(r["task_name"], r["action"], r["created"]) if isinstance(r, dict) else (r.task_name, r.action, r.created) for r in self.repo.collection]
        if self.kind == "csv":
            path = os.path.join(self.folder, "log.csv")
            if not os.path.exists(path):
                return []
            with open(path, newline="") as f:
                return [(r["task_name"], r["action"], float(r["created"])) for r in csv.DictReader(f)]
        con = sqlite3.connect(os.path.join(self.folder, "log.sqlite"))
        try:
            return con.execute("select task_name, action, created from log order by id").fetchall()
        finally:
            con.close()

    def copy_to(self, folder):
        "what a new life of the application would find now"
        import copy
        if self.kind in ("memory", "dict"):
            items = [copy.copy(x) for x in self.repo.collection]
        else:
            shutil.copytree(self.folder, folder, dirs_exist_ok=True)
        other = Store(self.kind, self.model.__name__, folder)
        if self.kind in ("memory", "dict"):
            other.repo.collection.extend(items)
        return other

    def close(self):
        if self.kind == "sql":
            self.engine.dispose()


def run(c, ctx):
    from rocketry.exc import TaskInactionException
    from ..hist import tz_of
    T = c["tasks"]
    n = len(T)
    names = [f"t{i}" for i in range(n)]
    root = tempfile.mkdtemp(prefix="vpf-c21-")
    clock = Clock()
    stores = []
    stat = {"open": 0, "done": 0}
    trace = []
    try:
        os.mkdir(os.path.join(root, "0"))
        store = Store(c["repo"], c["model"], os.path.join(root, "0"))
        stores.append(store)
        for li, L in enumerate(c["lives"] + [{"cycles": [{"step": 1.0, "run": [], "outs": ["success"] * n, "dur": 0.0, "end": [], "stop": None}], "cut": None}]):
            found = store.rows()
            t0 = clock()
            with Env(clock=clock, repo=store.repo, execution="main", force_status_from_logs=c["from_logs"], timezone=tz_of(c["tz"])) as env:
                session = env.session
                s = {"cyc": None, "next": None, "n": 0, "over": False}
                gates = {}

                def role(i):
                    "the application's new version may have a task in another role"
                    return T[i].get("role") if li else None

                def cut_now(where, i=None):
                    cut = L["cut"]
                    if cut and s["next"] is None and cut["where"] == where and (where == "shutdown" or cut["cycle"] == s["n"]) and i in (None, cut["task"]):
                        d = os.path.join(root, str(li + 1))
                        s["next"] = store.copy_to(d)
                        stores.append(s["next"])

                def make(i):
                    def act(cyc):
                        clock.advance(cyc["dur"])
                        o = cyc["outs"][i]
                        if o == "fail":
                            raise RuntimeError("fails")
                        if o == "inaction":
                            raise TaskInactionException()
                    if T[i]["exec"] == "async":
                        async def func():
                            gates[i] = asyncio.Event()
                            cut_now("body", i)
                            if s["n"] < len(L["cycles"]) or not s["over"]:
                                await gates[i].wait()
                            act(s["cyc"])
                        return func

                    def func():
                        cut_now("body", i)
                        act(s["cyc"])
                    return func
                for i, t in enumerate(T):
                    session.create_task(func=make(i), name=names[i], execution=t["exec"], priority=t["prio"], disabled=t.get("disabled", False) or role(i) == "on_startup",
                                        **({role(i): True} if role(i) else {}))

                def judge_start():
                    last, times = {}, {}
                    for name, action, created in found:
                        last[name] = action
                        times[name, action] = created
                    crashed = [x for x in names if last.get(x) == "run"]
                    stat["open"] += len(crashed)
                    stat["done"] += sum(x in last and last[x] != "run" for x in names) if crashed else 0
                    for x in crashed:
                        times[x, "crash"] = t0
                    show = lambda: f"\n  {c['repo']} log of {c['model']}, statuses from {'logs' if c['from_logs'] else 'cache'}\n  found at the start of life {li + 1} (at {t0}): {found}\n  logged then: {store.rows()[len(found):]}"
                    rows = store.rows()
                    check(rows[:len(found)] == found, lambda: f"the start of the session changed old records{show()}")
                    new = rows[len(found):]
                    check(sorted(new) == sorted((x, "crash", t0) for x in crashed), lambda: f"{crashed} were under way when the application was cut off and are to be logged as crashed, nothing else{show()}")
                    for x in names:
                        task = session[x]
                        want = "crash" if x in crashed else last.get(x)
                        check(task.get_status() == want and task.status == want, lambda: f"status of {x} is {task.status!r} instead of {want!r}{show()}")
                        for a in ACTIONS:
                            got = getattr(task, f"last_{a}")
                            w = times.get((x, a))
                            if w is None:
                                check(got is None, lambda: f"{x}.last_{a} is {got!r} though it never did{show()}")
                            else:
                                check(got is not None and abs(got.timestamp() - w) < 2e-6 and (c["tz"] is None) == (got.tzinfo is None), lambda: f"{x}.last_{a} is {got!r} instead of {w}{show()}")
                        check(not task.is_alive() and task.n_alive == 0, lambda: f"{x} is said to be alive{show()}")

                def before(i):
                    if i == 1:
                        judge_start()
                    s["n"] = i
                    cyc = L["cycles"][i - 1]
                    s["cyc"] = cyc
                    clock.advance(cyc["step"])
                    for k in cyc["end"]:
                        if k in gates:
                            gates.pop(k).set()
                    if cyc["stop"] is not None and session[names[cyc["stop"]]].is_alive():
                        session[names[cyc["stop"]]].terminate()
                    for k in cyc["run"]:
                        if not role(k) and not session[names[k]].is_alive() and not session[names[k]].batches:
                            session[names[k]].run()

                def after(i):
                    cut_now("cycle")
                    if s["n"] == len(L["cycles"]):
                        s["over"] = True
                        for k in list(gates):
                            gates.pop(k).set()

                @session.hook_shutdown()
                def down():
                    cut_now("shutdown")
                Sim(env, len(L["cycles"]), before, after).run_ok()
            if L["cut"] is None:
                break
            if s["next"] is None:
                # the cut never came: a clean end
                s["next"] = store.copy_to(os.path.join(root, str(li + 1)))
                stores.append(s["next"])
            store = s["next"]
            clock.advance(1.0)
    finally:
        for x in stores:
            x.close()
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(c["repo"], c["model"], f"{stat['open']} crashes")
    ctx.nontrivial(stat["open"] and (stat["done"] or n == 1 and len(c["lives"]) > 1))


# ------------------------------------------------------ an application killed for real

CHILD = r'''
import os, sys, logging, time, asyncio, warnings
warnings.simplefilter("ignore")
from redbird.repos import CSVFileRepo
from rocketry import Rocketry
from rocketry.log import MinimalRunRecord
folder, seed = sys.argv[1], int(sys.argv[2])
import random
rnd = random.Random(seed)
app = Rocketry(logger_repo=CSVFileRepo(filename=os.path.join(folder, "log.csv"), model=MinimalRunRecord), config={"cycle_sleep": 0.001, "task_logger_basename": "killed.task", "multilaunch": False})
led = os.open(os.path.join(folder, "ledger"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
def note(text):
    os.write(led, (text + "\n").encode())
def work(name, secs):
    note("begin " + name)
    time.sleep(secs)
    if rnd.random() < 0.3:
        note("fail " + name)
        raise RuntimeError("fails")
    note("ok " + name)
def m():
    work("m", 0.004)
def th():
    work("th", 0.01)
async def a():
    note("begin a")
    await asyncio.sleep(0.007)
    note("ok a")
app.task("every 10 ms", execution="main", name="m")(m)
app.task("every 15 ms", execution="thread", name="th")(th)
app.task("every 12 ms", execution="async", name="a")(a)
note("up")
app.run()
'''


def killed_case():
    return st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "lines": st.integers(2, 40), "delay_ms": st.sampled_from([0, 0, 1, 2, 3, 5, 8])})


def killed_run(c, ctx):
    folder = tempfile.mkdtemp(prefix="vpf-c21k-")
    try:
        ledger = os.path.join(folder, "ledger")
        p = subprocess.Popen([sys.executable, "-c", CHILD, folder, str(c["seed"])], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            end = time.monotonic() + 30
            while time.monotonic() < end and p.poll() is None:
                if os.path.exists(ledger) and sum(1 for _ in open(ledger)) > c["lines"]:
                    break
                time.sleep(0.0007)
            time.sleep(c["delay_ms"] / 1000)
            alive = p.poll() is None
        finally:
            p.send_signal(signal.SIGKILL)
            err = p.stderr.read().decode(errors="replace")
            p.wait()
        check(alive, lambda: f"the application went down on its own: {err[-1500:]}")
        with open(ledger) as f:
            lines = f.read().split("\n")
        check("up" in lines, lambda: f"the application did not start: {err[-1500:]}")
        path = os.path.join(folder, "log.csv")
        rows = []
        if os.path.exists(path):
            with open(path, newline="") as f:
                text = f.read()
            if text and not text.endswith("\n"):
                # killed in the middle of writing a line (the repository's business)
                text = text[:text.rindex("\n") + 1] if "\n" in text else ""
                with open(path, "w", newline="") as f:
                    f.write(text)
            rows = [(r["task_name"], r["action"], float(r["created"])) for r in csv.DictReader(text.splitlines())]
        show = lambda: f"\n  ledger of the functions: {lines}\n  log: {[r[:2] for r in rows]}"
        last = {}
        for name in ("m", "th", "a"):
            acts = [a for t, a, _ in rows if t == name]
            runs = acts.count("run")
            begun = lines.count("begin " + name)
            check(begun <= runs <= begun + 1, lambda: f"{name} began {begun} times but {runs} starts are logged{show()}")
            check(all(x == "run" for x in acts[::2]) and all(x in ("success", "fail") for x in acts[1::2]), lambda: f"the log of {name} is not starts and ends in turn: {acts}{show()}")
            if acts:
                last[name] = acts[-1]
            # an end is not logged before the function is over
            check(acts.count("success") <= lines.count("ok " + name) and acts.count("fail") <= lines.count("fail " + name), lambda: f"ends of {name} are logged that did not happen{show()}")
            check(lines.count("ok " + name) + lines.count("fail " + name) - (len(acts) - runs) in (0, 1), lambda: f"ends of {name} are missing in the log{show()}")
        # the next life
        from redbird.repos import CSVFileRepo
        from rocketry.log import MinimalRunRecord
        with Env(repo=CSVFileRepo(filename=path, model=MinimalRunRecord), clock=Clock(time.time())) as env:
            for name in ("m", "th", "a"):
                env.session.create_task(func=lambda: None, name=name, execution="main")
            seen = {}

            def before(i):
                for name in ("m", "th", "a"):
                    seen[name] = env.session[name].status
            Sim(env, 1, before).run_ok()
            with open(path, newline="") as f:
                now = [(r["task_name"], r["action"], float(r["created"])) for r in csv.DictReader(f)]
        want = {x: "crash" if last.get(x) == "run" else last.get(x) for x in ("m", "th", "a")}
        check(seen == want, lambda: f"statuses after the restart: {seen} instead of {want}{show()}")
        check(now[:len(rows)] == rows and sorted(r[:2] for r in now[len(rows):]) == sorted((x, "crash") for x in want if want[x] == "crash"), lambda: f"logged at the restart: {now[len(rows):]}, under way were {[x for x in want if want[x] == 'crash']}{show()}")
        k = sum(v == "crash" for v in want.values())
        ctx.label(f"{k} runs under way when killed")
        ctx.nontrivial(k)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


PARTS = [Part("lives", case, run, 1600, 30000, RULE),
         Part("killed", killed_case, killed_run, 64, 1500, "a run was under way when the application was killed")]
