"""C15: which tasks a cycle starts, in which order, and what requested runs get."""
import collections

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..hist import AsyncSim
from ..sim import Sim, wait_for

RULE = "at least one requested run and one run by condition happened, and something was not started because it was not wanted"
ASSUMPTIONS = ["tasks of equal priority may start in any order", "requests made by a running task are judged for main-thread tasks only"]

NAMES = ["t0", "t1", "t2", "t3", "t4", "n5", "n6"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 5))
    ex = draw(st.sampled_from(["main", "main", "main", "async", "thread"]))
    prio = st.sampled_from([-3, 0, 0, 1, 2, 7.5, 40])
    tasks = [{"prio": draw(prio), "flag": draw(st.sampled_from([None, None, 0, 1])), "disabled": draw(st.sampled_from([False, False, False, True])),
              "param": draw(st.sampled_from([None, None, "own"]))} for i in range(n)]
    if ex == "main":
        for t in tasks:
            # what the task asks for while it runs: {run number: (task, value)}
            if draw(st.integers(0, 3)) == 0:
                t["asks"] = {str(draw(st.integers(1, 2))): [draw(st.integers(0, n - 1)), draw(st.sampled_from([None, "asked"]))]}
    k = st.integers(0, n + 1)
    op = st.one_of(
        st.tuples(st.just("run"), k, st.sampled_from([None, 1, 2, 3, "x"])),
        st.tuples(st.just("run"), k, st.sampled_from([None, 1, 2, 3, "x"])),
        st.tuples(st.just("flag"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("flag"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("disable"), k, st.booleans()),
        st.tuples(st.just("prio"), k, prio),
        st.tuples(st.just("hold"), st.booleans()),
        st.tuples(st.just("cond"), k, st.sampled_from([None, 0, 1, "always"])),
        st.tuples(st.just("add"), prio, st.sampled_from([None, 0, 1])),
        st.tuples(st.just("remove"), k, st.sampled_from(["session", "name", "delete"])),
        st.tuples(st.just("force"), k),
    ).map(list)
    cycles = draw(st.lists(st.lists(op, max_size=5), min_size=1, max_size=9))
    return {"tasks": tasks, "exec": ex, "via": draw(st.sampled_from(["task", "config"])), "cycles": cycles, "cut": draw(st.sampled_from([None, None, 2, 4])), "how": draw(st.sampled_from(["kw", "dict", "params"]))}


def run(c, ctx):
    from rocketry.conditions import FuncCond, AlwaysTrue
    from rocketry.core import Parameters
    ex = c["exec"]
    flags = {0: False, 1: False}
    model = collections.OrderedDict()     # name -> dict
    got, trace = [], []
    count = collections.Counter()
    stats = collections.Counter()
    state = {"hold": False, "next": 5}
    with Env(execution=ex if c["via"] == "config" else "main", multilaunch=False) as env:
        session = env.session

        def cond(k):
            return None if k is None else AlwaysTrue() if k == "always" else FuncCond(func=lambda: flags[k])

        def make(name):
            def body(value="default"):
                count[name] += 1
                got.append((name, value))
                asks = model.get(name, {}).get("asks", {}).get(str(count[name]))
                if asks:
                    target = NAMES[asks[0]]
                    if target in session:
                        request(target, asks[1])
            if ex == "async":
                async def func(value="default"):
                    body(value)
                return func
            return body

        def request(name, value):
            t = session[name]
            if value is None:
                t.run()
            elif c["how"] == "kw":
                t.run(value=value)
            elif c["how"] == "dict":
                t.run({"value": value})
            else:
                t.run(Parameters(value=value))

        def add(name, t):
            kw = {} if t.get("param") is None else {"parameters": {"value": t["param"]}}
            if c["via"] == "task":
                kw["execution"] = ex
            session.create_task(func=make(name), name=name, priority=t["prio"], start_cond=cond(t["flag"]), disabled=t["disabled"], **kw)
            model[name] = dict(t, batches=[], ran=count[name])

        for i, t in enumerate(c["tasks"]):
            add(NAMES[i], t)

        def apply(op):
            k = op[0]
            if k == "flag":
                flags[op[1]] = op[2]
                return
            if k == "hold":
                session.scheduler.on_hold = state["hold"] = op[1]
                return
            if k == "add":
                if state["next"] < len(NAMES):
                    add(NAMES[state["next"]], {"prio": op[1], "flag": op[2], "disabled": False, "param": None})
                    state["next"] += 1
                return
            names = list(model)
            if not names:
                return
            name = names[op[1] % len(names)]
            t, m = session[name], model[name]
            if k == "run":
                request(name, op[2])
                m["batches"].append(op[2])
            elif k == "force":
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    t.force_run = True
                m["batches"].append(None)
            elif k == "disable":
                t.disabled = m["disabled"] = op[2]
            elif k == "prio":
                t.priority = m["prio"] = op[2]
            elif k == "cond":
                from rocketry.conditions import AlwaysFalse
                t.start_cond = AlwaysFalse() if op[2] is None else cond(op[2])
                m["flag"] = op[2]
            elif k == "remove":
                if op[2] == "delete":
                    t.delete()
                else:
                    session.remove_task(t if op[2] == "session" else name)
                del model[name]

        def predict():
            "the sets of starts by priority (highest first); None when the order of equals would matter"
            groups = []
            todo = sorted(model, key=lambda x: -model[x]["prio"])
            prios = []
            for p in sorted({m["prio"] for m in model.values()}, reverse=True):
                prios.append([x for x in todo if model[x]["prio"] == p])
            if state["hold"]:
                return [], True
            sure = True
            for grp in prios:
                start, asked = [], []
                for name in grp:
                    m = model[name]
                    if m["batches"] or (not m["disabled"] and m["flag"] is not None and (m["flag"] == "always" or flags[m["flag"]])):
                        val = None
                        if m["batches"]:
                            val = m["batches"].pop(0)
                            stats["requested"] += 1
                        else:
                            stats["by condition"] += 1
                        start.append((name, val if val is not None else m["param"] if m.get("param") is not None else "default"))
                        m["ran"] += 1
                        a = m.get("asks", {}).get(str(m["ran"]))
                        if a and NAMES[a[0]] in model:
                            asked.append((name, NAMES[a[0]], a[1]))
                    else:
                        stats["not wanted"] += 1
                for who, target, val in asked:
                    if target != who and target in grp:
                        sure = False      # depends on which of the equals comes first
                    model[target]["batches"].append(val)
                    stats["asked by a task"] += 1
                groups.append(start)
            return [g for g in groups if g], sure

        def judge(i):
            if "want" not in state:
                return
            want = state.pop("want")
            if ex == "thread":
                n = sum(map(len, want))
                wait_for(lambda: len(got) >= n and not any(t.is_alive() for t in session.tasks), f"{n} runs to end")
            trace.append(f"{state['ops']} -> {list(got)}")
            rest = list(got)
            ok = len(rest) == sum(map(len, want))
            if ex == "thread":
                # each thread begins in its own time
                ok = ok and sorted(map(str, rest)) == sorted(str(x) for g in want for x in g)
            else:
                for grp in want:
                    ok = ok and sorted(map(str, rest[:len(grp)])) == sorted(map(str, grp))
                    rest = rest[len(grp):]
            check(ok, lambda: f"in the last of these cycles these runs should have started, by priority: {want} ({ex})\n  tasks: {c['tasks']}\n  now {dict(model)}\n  " + "\n  ".join(trace))

        def prepare(ops):
            for op in ops:
                apply(op)
            state["next_ops"] = ops

        def between(sim, cycles):
            def hook():
                yield
                if not sim.done and sim.i < len(cycles):
                    sim._guard(lambda i: prepare(cycles[i]))
            return hook

        class Stop(Exception):
            pass

        def before(i):
            if ex == "async":
                judge(i - 1)
            state["ops"] = state["next_ops"]
            got.clear()
            want, sure = predict()
            if not sure:
                raise Stop()
            state["want"] = want

        def after(i):
            judge(i)
        segs = [c["cycles"]] if not c["cut"] or c["cut"] >= len(c["cycles"]) else [c["cycles"][:c["cut"]], c["cycles"][c["cut"]:]]
        try:
            for cycles in segs:
                # a scheduler that starts is not on hold
                sim = (AsyncSim(env, len(cycles), before=before, after=after) if ex == "async" else Sim(env, len(cycles), before=before, after=after))
                # changes are made between the cycles
                prepare(cycles[0])
                state["hold"] = False
                env.session.hook_scheduler_cycle()(between(sim, cycles))
                sim.run_ok()
                if ex == "async":
                    judge(len(cycles))
        except Stop:
            ctx.label("cut short: order of equals")
    ctx.label(ex, *[k for k in stats if stats[k]], *{o[0] for cyc in c["cycles"] for o in cyc})
    ctx.nontrivial(stats["requested"] and stats["by condition"] and stats["not wanted"])


PARTS = [Part("cycles", case, run, 4000, 80000, RULE)]
