"""C17: return values reach the tasks that ask for them."""
import multiprocessing
import os
import shutil
import tempfile
import time

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..pool import SharedClock
from ..sim import Sim, wait_for

RULE = "a value returned by one task was passed to another after an earlier, different value or a failed run"
ASSUMPTIONS = []

VALUES = [0, 1, "text", None, [1, {"a": 2}], "", False, 3.5]
OUTS = ["ok", "ok", "ok", "fail", "inaction"]


@st.composite
def case(draw, execs=("main", "main", "async", "thread"), steps=8):
    n = draw(st.integers(2, 4))
    tasks = []
    for i in range(n):
        tasks.append({"exec": draw(st.sampled_from(execs)), "takes": draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)),
                      "default": draw(st.sampled_from([True, True, False])), "ref": draw(st.sampled_from(["name", "func"])), "how": draw(st.sampled_from(["signature", "parameters", "pipe"])),
                      "returns": draw(st.lists(st.sampled_from(VALUES + ["pass on"]), min_size=1, max_size=3)), "async": draw(st.booleans()), "plain": draw(st.booleans())})
    out = [{"run": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)), "outs": [draw(st.sampled_from(OUTS)) for _ in range(n)]} for _ in range(draw(st.integers(1, steps)))]
    return {"tasks": tasks, "steps": out, "watch": draw(st.integers(0, n - 1))}


def run(c, ctx):
    from rocketry.args import Return, SimpleArg
    from rocketry.conditions import FuncCond
    from rocketry.exc import TaskInactionException
    T = c["tasks"]
    n = len(T)
    names = [f"t{i}" for i in range(n)]
    state = {}
    nontrivial = False
    with Env(execution="main", silence_task_prerun=True) as env:
        session = env.session
        funcs = []
        counts = [0] * n

        def value(i, got, v):
            mine = got if v == "pass on" else v
            return mine if T[i].get("plain") else {"got": got, "mine": mine}

        def make(i):
            t = T[i]

            def result(got):
                o = state["outs"][i]
                if o == "fail":
                    raise RuntimeError("fails")
                if o == "inaction":
                    raise TaskInactionException()
                v = t["returns"][state["count"][i] % len(t["returns"])]
                return value(i, got, v)
            if t["async"]:
                async def func(**got):
                    return result(got)
            else:
                def func(**got):
                    return result(got)
            func.__name__ = names[i]
            return func
        # the functions exist (and can be named) before the conditions and arguments that refer to them
        for i in range(n):
            f = make(i)
            session.create_task(name=names[i], execution=T[i]["exec"], priority=-i)(f)
            funcs.append(f)
        for i, t in enumerate(T):
            params = {}
            for j in t["takes"]:
                arg = Return(names[j] if t["ref"] == "name" else funcs[j], **({"default": f"no {j}"} if t["default"] and t["how"] != "pipe" else {}))
                if t["how"] == "pipe" and t["default"]:
                    arg = arg >> SimpleArg(f"no {j}")
                params[f"p{j}"] = arg
            session[names[i]].parameters = params
        # a condition that looks at a return value
        seen = []
        w = c["watch"]

        def watching(value=Return(names[w], default="none yet")):
            seen.append(value)
            return False
        session.create_task(func=lambda: None, name="watcher", priority=-100, start_cond=FuncCond(func=watching), execution="main")
        latest = {}
        failed_after = set()
        trace = []
        show = lambda: "\n  tasks: " + "; ".join(f"{names[i]} ({t['exec']}) takes {[names[j] for j in t['takes']]}" for i, t in enumerate(T)) + "\n  " + "\n  ".join(trace)
        for step in c["steps"]:
            # several at once only where their order is certain
            todo = sorted(step["run"]) if all(T[i]["exec"] == "main" for i in step["run"]) else step["run"][:1]
            state["outs"] = step["outs"]
            state["count"] = list(counts)
            before = len(env.records())
            seen.clear()
            for i in todo:
                session[names[i]].run()
            want = []
            watch_want = None
            for i in todo:
                t = T[i]
                if any(j not in latest for j in t["takes"]) and not t["default"]:
                    want.append([names[i], "fail"])
                    continue
                got = {f"p{j}": latest.get(j, f"no {j}") for j in t["takes"]}
                for j in t["takes"]:
                    if j in latest and (j in failed_after or state.get(("changed", j))):
                        nontrivial = True
                o = step["outs"][i]
                if o == "ok":
                    v = t["returns"][counts[i] % len(t["returns"])]
                    new = value(i, got, v)
                    if i in latest and latest[i] != new:
                        state["changed", i] = True
                    latest[i] = new
                    failed_after.discard(i)
                    want.append([names[i], "success"])
                else:
                    if i in latest:
                        failed_after.add(i)
                    want.append([names[i], o])
                counts[i] += 1
            trace.append(f"run {[names[i] for i in todo]}, outcomes {[step['outs'][i] for i in todo]}")
            Sim(env, 1).run_ok()
            recs = [[r["task_name"], r["action"]] for r in env.records()[before:] if r["action"] != "run"]
            check(recs == want, lambda: f"the last step ended as {recs}, expected {want}{show()}")
            for i in range(n):
                got = session.returns.get(session[names[i]], "nothing")
                exp = latest.get(i, "nothing")
                check(got == exp, lambda: f"after the last step the return value of {names[i]} is {got!r}, expected {exp!r}{show()}")
            if all(T[i]["exec"] == "main" for i in todo):
                exp = latest.get(w, "none yet")
                check(seen == [exp], lambda: f"the condition that looks at the return value of {names[w]} saw {seen!r}, expected {exp!r}{show()}")
    ctx.label(*{t["exec"] for t in T})
    ctx.nontrivial(nontrivial)


# ---------------------------------------------------------------- processes that end while others start

@st.composite
def handoff(draw):
    n = draw(st.integers(2, 4))
    return {"values": [draw(st.sampled_from(VALUES)) for _ in range(n)], "fails": [draw(st.sampled_from([False, False, True])) for _ in range(n)],
            # when task i starts, these earlier ones end (between the scheduler's decision and the start)
            "ends": [draw(st.lists(st.integers(0, i - 1), max_size=2, unique=True)) if i else [] for i in range(n)], "cycles": draw(st.integers(1, 2))}


def run_handoff(c, ctx):
    from rocketry.args import Return
    from rocketry.conditions import FuncCond
    n = len(c["values"])
    tmp = tempfile.mkdtemp(prefix="vpf-c17-")
    ended = set()
    try:
        with Env(clock=SharedClock(), execution="process", max_process_count=10) as env:
            session = env.session

            def end(j):
                if j not in ended:
                    ended.add(j)
                    with open(os.path.join(tmp, f"go{j}"), "w"):
                        pass

            def make(i):
                def func():
                    while not os.path.exists(os.path.join(tmp, f"go{i}")):
                        time.sleep(0.001)
                    if c["fails"][i]:
                        raise RuntimeError("fails")
                    return c["values"][i]

                started = []

                def cond():
                    if started:
                        return False
                    started.append(1)
                    for j in c["ends"][i]:
                        end(j)
                    for j in c["ends"][i]:
                        wait_for(lambda: not session[f"t{j}"].is_alive(), f"t{j} to end")
                    return True
                return func, cond
            for i in range(n):
                f, cond = make(i)
                session.create_task(func=f, name=f"t{i}", priority=-i, start_cond=FuncCond(func=cond))

            def after(i):
                for j in range(n):
                    end(j)
            Sim(env, c["cycles"], after=after).run_ok()
            recs = env.records()
            for i in range(n):
                acts = [r["action"] for r in recs if r["task_name"] == f"t{i}"]
                check(acts == ["run", "fail" if c["fails"][i] else "success"], lambda: f"t{i} was logged as {acts}")
                got = session.returns.get(session[f"t{i}"], "nothing")
                exp = "nothing" if c["fails"][i] else c["values"][i]
                check(got == exp, lambda: f"the return value of t{i} is {got!r}, expected {exp!r}; while a task starts, these end: {c['ends']}")
    finally:
        for p in multiprocessing.active_children():
            p.terminate()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.nontrivial(any(c["ends"]))


# ---------------------------------------------------------------- runs of one task that end while another one starts

def run_overlap(c, ctx):
    from rocketry.args import FuncArg
    n = len(c["values"])
    tmp = tempfile.mkdtemp(prefix="vpf-c17-")
    order = []
    try:
        with Env(clock=SharedClock(), execution="process", max_process_count=10) as env:
            session = env.session

            def end(j):
                if j in order:
                    return
                order.append(j)
                with open(os.path.join(tmp, f"go{j}"), "w"):
                    pass
                wait_for(lambda: os.path.exists(os.path.join(tmp, f"pid{j}")), f"run {j} to begin")
                with open(os.path.join(tmp, f"pid{j}")) as f:
                    pid = int(f.read())
                wait_for(lambda: pid not in [p.pid for p in multiprocessing.active_children()], f"run {j} to end")
            count = iter(range(n))

            def which():
                i = next(count)
                for j in c["ends"][i]:
                    end(j)
                return i

            def func(i):
                with open(os.path.join(tmp, f"tmp{i}"), "w") as f:
                    f.write(str(os.getpid()))
                os.rename(os.path.join(tmp, f"tmp{i}"), os.path.join(tmp, f"pid{i}"))
                while not os.path.exists(os.path.join(tmp, f"go{i}")):
                    time.sleep(0.001)
                if c["fails"][i]:
                    raise RuntimeError("fails")
                return c["values"][i]
            task = session.create_task(func=func, name="t", start_cond="true", multilaunch=True, parameters={"i": FuncArg(which, materialize="pre")})

            def after(i):
                if i == n:
                    for j in range(n):
                        end(j)
            Sim(env, n, after=after).run_ok()
            acts = sorted(r["action"] for r in env.records())
            want = sorted(["run"] * n + ["fail" if f else "success" for f in c["fails"]])
            check(acts == want, lambda: f"{n} runs with failures {c['fails']} were logged as {acts}")
            good = [j for j in order if not c["fails"][j]]
            got = session.returns.get(task, "nothing")
            exp = c["values"][good[-1]] if good else "nothing"
            check(got == exp, lambda: f"the return value is {got!r}, expected {exp!r}: the runs ended in the order {order}, failures {c['fails']}, values {c['values']}; while a run starts, these end: {c['ends']}")
            ctx.nontrivial(any(c["ends"]))
    finally:
        for p in multiprocessing.active_children():
            p.terminate()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)


PARTS = [
    Part("values", lambda: case(), run, 3000, 60000, RULE),
    Part("processes", lambda: case(execs=("process", "process", "main"), steps=4), run, 80, 2000, RULE),
    Part("handoff", handoff, run_handoff, 60, 1500, "a process ended while another one was being started"),
    Part("overlap", handoff, run_overlap, 60, 1500, "a run of a task ended while another run of it was being started"),
]
