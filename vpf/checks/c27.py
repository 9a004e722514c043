"""C27: custom conditions are asked with the right arguments, and what they answer decides."""
import asyncio
import re

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..sim import Sim, wait_for

RULE = "one condition was used in two different ways, and tasks were started in some cycles and not in others"
ASSUMPTIONS = ["how many times a condition is asked in a cycle is not judged"]

PKINDS = ["req", "req", "default", "arg", "arg", "task", "session", "func", "simple", "return", "env"]


@st.composite
def func_spec(draw):
    kinds = draw(st.lists(st.sampled_from(PKINDS), max_size=4))
    kinds.sort(key=lambda k: k != "req")     # required ones first
    return {"params": kinds, "kwonly": draw(st.integers(0, len(kinds))) if draw(st.integers(0, 3)) == 0 else None, "regist": draw(st.sampled_from(["app", "app", "class"])), "salt": draw(st.integers(0, 1)), "turn": draw(st.booleans())}


@st.composite
def use(draw, funcs):
    f = draw(st.integers(0, len(funcs) - 1))
    kinds, kwonly = funcs[f]["params"], funcs[f]["kwonly"]
    req = [i for i, k in enumerate(kinds) if k == "req"]
    pos_max = len(kinds) if kwonly is None else kwonly
    how = draw(st.sampled_from(["call", "call", "bare", "text", "regex"]))
    vals = {}
    npos = 0
    if how in ("bare", "text") and req:
        how = "call"
    if how == "call":
        npos = draw(st.integers(0, pos_max))
        for i, k in enumerate(kinds):
            # any argument may be given, also one that has a default
            if i < npos or k == "req" or draw(st.integers(0, 3)) == 0:
                vals[str(i)] = draw(st.sampled_from([0, 1, 2, 7, 10, 20, 101]))
    elif how == "regex":
        for i, k in enumerate(kinds):
            if k == "req" or draw(st.integers(0, 3)) == 0:
                vals[str(i)] = draw(st.sampled_from([0, 1, 2, 7, 10, 20, 101]))
    return {"f": f, "how": how, "vals": vals, "npos": npos}


@st.composite
def expr(draw, n, depth=2):
    if depth == 0 or draw(st.booleans()):
        return draw(st.integers(0, n - 1))
    op = draw(st.sampled_from(["and", "or", "not"]))
    if op == "not":
        return [op, draw(expr(n, depth - 1))]
    return [op, draw(expr(n, depth - 1)), draw(expr(n, depth - 1))]


@st.composite
def case(draw):
    funcs = draw(st.lists(func_spec(), min_size=1, max_size=2))
    uses = draw(st.lists(use(funcs), min_size=1, max_size=4))
    tasks = [{"expr": draw(expr(len(uses))), "as_text": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))]
    cycles = [{"v": draw(st.integers(0, 3)), "env": draw(st.integers(0, 3)), "fa": draw(st.integers(0, 3)), "ret": draw(st.sampled_from([None, 0, 1, 2])), "salt": draw(st.integers(0, 1))} for _ in range(draw(st.integers(1, 4)))]
    return {"funcs": funcs, "uses": uses, "tasks": tasks, "cycles": cycles, "default": draw(st.booleans())}


def num(x):
    return int(x) if isinstance(x, (int, str)) and str(x).isdigit() else 0


def run(c, ctx):
    from rocketry.args import Arg, EnvArg, FuncArg, Return, Session as SessionArg, SimpleArg, Task as TaskArg
    from rocketry.conditions import FuncCond
    from rocketry.parse import parse_condition
    import os
    with Env(), Env(app=True, execution="main", default=c["default"]) as env:
        session, app = env.session, env.app
        now = {"cyc": None, "k": 0}
        calls = []
        rets = {"val": None}

        def default_of(kind):
            return {"default": "d", "arg": Arg("v"), "task": TaskArg(), "session": SessionArg(), "func": FuncArg(lambda: now["cyc"]["fa"]), "simple": SimpleArg(7), "return": Return("source", default="none"), "env": EnvArg("VPF_C27", default="unset")}[kind]

        def make(fi, spec):
            # a function with the wanted signature
            names = [f"p{i}" for i in range(len(spec["params"]))]
            parts = []
            for i, k in enumerate(spec["params"]):
                if spec["kwonly"] == i:
                    parts.append("*")
                parts.append(names[i] if k == "req" else f"{names[i]}=_d[{i}]")
            ns = {"_d": [None if k == "req" else default_of(k) for k in spec["params"]], "_call": lambda *vals: answer(fi, vals)}
            exec(f"def cond{fi}({', '.join(parts)}):\n    return _call({', '.join(names)})", ns)
            return ns[f"cond{fi}"]

        def shown(v):
            from rocketry.core import Task
            return ("task", v.name) if isinstance(v, Task) else "the session" if v is session else v

        def truth(fi, vals):
            total = sum(num(v) + (num(v[1][1:]) if isinstance(v, tuple) else 0) for v in vals)
            return (total + now["cyc"]["salt"] * (fi + 1) + c["funcs"][fi]["salt"]) % 2 == 0

        def answer(fi, vals):
            vals = tuple(shown(v) for v in vals)
            calls.append((fi, vals))
            return truth(fi, vals)

        made = []
        for fi, spec in enumerate(c["funcs"]):
            func = make(fi, spec)
            req = [i for i, k in enumerate(spec["params"]) if k == "req"]
            syntax = [f"is cond {fi}", re.compile(f"cond {fi} with" + "".join(rf"(?: p{i}=(?P<p{i}>[0-9]+))" + ("" if i in req else "?") for i in range(len(spec["params"]))))]
            if len(spec["params"]) == 0:
                syntax = [f"is cond {fi}", f"cond {fi} with"]
            if spec.get("turn"):
                syntax.reverse()
            if spec["regist"] == "app":
                cond = app.cond(syntax=syntax)(func)
            else:
                cond = FuncCond(func=func, syntax=syntax, session=session)
            made.append(cond)
        texts, conds = [], []
        for u in c["uses"]:
            cond = made[u["f"]]
            vals = {int(k): v for k, v in u["vals"].items()}
            if u["how"] == "bare":
                conds.append(cond)
                texts.append(None)
            elif u["how"] == "call":
                conds.append(cond(*[vals[i] for i in range(u["npos"])], **{f"p{i}": v for i, v in sorted(vals.items(), reverse=True) if i >= u["npos"]}))
                texts.append(None)
            else:
                text = f"is cond {u['f']}" if u["how"] == "text" else f"cond {u['f']} with" + "".join(f" p{i}={v}" for i, v in sorted(vals.items()))
                conds.append(parse_condition(text, session=session))
                texts.append(text)

        def build(e, as_text):
            if isinstance(e, int):
                return texts[e] if as_text else conds[e]
            if e[0] == "not":
                x = build(e[1], as_text)
                return f"~({x})" if as_text else ~x
            a, b = build(e[1], as_text), build(e[2], as_text)
            if as_text:
                return f"({a} {'&' if e[0] == 'and' else '|'} {b})"
            return a & b if e[0] == "and" else a | b

        def leaves(e):
            return {e} if isinstance(e, int) else set().union(*(leaves(x) for x in e[1:]))
        ran = []
        session.create_task(func=lambda: rets["val"], name="source", execution="main", priority=100)
        ns = [f"t{i}" for i in range(len(c["tasks"]))]
        for i, t in enumerate(c["tasks"]):
            as_text = t["as_text"] and all(texts[x] for x in leaves(t["expr"]))
            session.create_task(func=lambda i=i: ran.append(i), name=ns[i], execution="main", priority=-i, start_cond=build(t["expr"], as_text))

        def values(ui, ti):
            u = c["uses"][ui]
            spec = c["funcs"][u["f"]]
            cyc = now["cyc"]
            out = []
            for i, k in enumerate(spec["params"]):
                if str(i) in u["vals"]:
                    v = u["vals"][str(i)]
                    out.append(str(v) if u["how"] == "regex" else v)
                else:
                    out.append({"default": "d", "arg": cyc["v"], "task": ("task", ns[ti]), "session": "the session", "func": cyc["fa"], "simple": 7, "return": "none" if rets["val"] is None else rets["val"], "env": str(cyc["env"])}[k])
            # an optional group that does not take part is given as None, as re does
            if u["how"] == "regex":
                out = [v if str(i) in u["vals"] else None for i, v in enumerate(out)]
            return u["f"], tuple(out)

        def value(e, ti):
            if isinstance(e, int):
                return truth(*values(e, ti))
            if e[0] == "not":
                return not value(e[1], ti)
            a, b = value(e[1], ti), value(e[2], ti)
            return a and b if e[0] == "and" else a or b
        seen = set()
        old = os.environ.get("VPF_C27")

        def before(k):
            now["cyc"] = cyc = c["cycles"][k - 1]
            session.parameters["v"] = cyc["v"]
            os.environ["VPF_C27"] = str(cyc["env"])
            if cyc["ret"] is not None:
                rets["val"] = cyc["ret"]
                session["source"].run()
            calls.clear()
            ran.clear()

        def after(k):
            want = [i for i, t in enumerate(c["tasks"]) if value(t["expr"], i)]
            show = lambda: f"\n  cycle {k}: {now['cyc']}, asked: {calls}\n  {c}"
            allowed = {values(u, i) for i, t in enumerate(c["tasks"]) for u in leaves(t["expr"])}
            for x in calls:
                check(x in allowed, lambda: f"condition {x[0]} was asked with {x[1]}, its uses are to be asked with {sorted((v for f, v in allowed if f == x[0]), key=str)}{show()}")
            check(ran == want, lambda: f"tasks {ran} were started, expected {want}{show()}")
            seen.update((i, i in want) for i in range(len(ns)))
        try:
            Sim(env, len(c["cycles"]), before=before, after=after).run_ok()
        finally:
            os.environ.pop("VPF_C27", None)
            if old is not None:
                os.environ["VPF_C27"] = old
    used = set().union(*(leaves(t["expr"]) for t in c["tasks"]))
    by = {}
    for u in used:
        by.setdefault(c["uses"][u]["f"], set()).add(str(c["uses"][u]))
    ctx.label(*{c["uses"][u]["how"] for u in used}, *{k for f in c["funcs"] for k in f["params"]})
    ctx.nontrivial(any(len(v) > 1 for v in by.values()) and len({v for _, v in seen}) == 2)


# ------------------------------------------------- conditions with a task of their own

@st.composite
def task_case(draw):
    kinds = draw(st.lists(st.fixed_dictionaries({"exec": st.sampled_from(["main", "main", "async", "thread"]), "active": st.sampled_from([None, None, 20, 90]), "prio": st.sampled_from([10, -10])}), min_size=1, max_size=2))
    uses = draw(st.lists(st.tuples(st.integers(0, len(kinds) - 1), st.sampled_from(["a", "b", "c"])).map(list), min_size=1, max_size=4, unique_by=tuple))
    tasks = [{"expr": draw(expr(len(uses), 1))} for _ in range(draw(st.integers(1, 2)))]
    cycles = [{"step": draw(st.sampled_from([0.0, 3.0, 7.0, 25.5, 100.25])), "check": [draw(st.booleans()) for _ in kinds], "outs": [draw(st.sampled_from(["yes", "yes", "no", "fail", "inaction"])) for _ in uses]} for _ in range(draw(st.integers(1, 6)))]
    return {"kinds": kinds, "uses": uses, "tasks": tasks, "cycles": cycles, "from_logs": draw(st.booleans())}


def task_run(c, ctx):
    from rocketry.conditions import FuncCond, TaskCond
    from rocketry.exc import TaskInactionException
    with Env(execution="main", force_status_from_logs=c["from_logs"]) as env:
        session, clock = env.session, env.clock
        now = {"cyc": None}
        asked = []

        def make(ki, spec):
            def act(x):
                asked.append((ki, x))
                out = now["cyc"]["outs"][c["uses"].index([ki, x])]
                if out == "fail":
                    raise RuntimeError("fails")
                if out == "inaction":
                    raise TaskInactionException()
                return out == "yes"
            if spec["exec"] == "async":
                async def look(x):
                    return act(x)
            else:
                def look(x):
                    return act(x)
            look.__name__ = f"look{ki}"
            kw = {} if spec["active"] is None else {"active_time": f"past {spec['active']} seconds"}
            TaskCond(session=session, syntax=re.compile(f"look {ki} at (?P<x>[a-z])"), start_cond=FuncCond(func=lambda: now["cyc"]["check"][ki]), execution=spec["exec"], priority=spec["prio"], **kw)(look)
        for ki, spec in enumerate(c["kinds"]):
            make(ki, spec)
        text = lambda e: f"look {c['uses'][e][0]} at {c['uses'][e][1]}" if isinstance(e, int) else f"~({text(e[1])})" if e[0] == "not" else f"({text(e[1])} {'&' if e[0] == 'and' else '|'} {text(e[2])})"
        leaves = lambda e: {e} if isinstance(e, int) else set().union(*(leaves(x) for x in e[1:]))
        ran = []
        for i, t in enumerate(c["tasks"]):
            session.create_task(func=lambda i=i: ran.append(i), name=f"t{i}", execution="main", priority=-i, start_cond=text(t["expr"]))
        used = sorted(set().union(*(leaves(t["expr"]) for t in c["tasks"])))
        latest = {}         # use -> (result, time)
        pend = {}
        seen = set()
        trace = []

        def state(u):
            if u not in latest:
                return False
            v, t = latest[u]
            act = c["kinds"][c["uses"][u][0]]["active"]
            return v and (act is None or clock() - t <= act)

        def value(e):
            if isinstance(e, int):
                return state(e)
            if e[0] == "not":
                return not value(e[1])
            a, b = value(e[1]), value(e[2])
            return a and b if e[0] == "and" else a or b
        want = {"asked": []}

        def look(kis):
            for ki in kis:
                if now["cyc"]["check"][ki]:
                    for u in used:
                        if c["uses"][u][0] == ki:
                            out = now["cyc"]["outs"][u]
                            want["asked"].append(tuple(c["uses"][u]))
                            if out in ("yes", "no"):
                                yield u, (out == "yes", clock())

        def before(k):
            now["cyc"] = cyc = c["cycles"][(k - 1) // 2] if k % 2 else {"check": [False] * len(c["kinds"]), "outs": []}
            if k % 2:
                clock.advance(cyc["step"])
            ran.clear()
            first = [ki for ki, s in enumerate(c["kinds"]) if s["prio"] > 0 and s["exec"] == "main"]
            for u, v in look(first):
                latest[u] = v
            # threads and coroutines may or may not be through when the tasks are looked at: such a cycle is not judged
            fast = [ki for ki, s in enumerate(c["kinds"]) if s["prio"] > 0 and s["exec"] != "main"]
            a = [i for i, t in enumerate(c["tasks"]) if value(t["expr"])]
            latest.update(dict(look(fast)))
            want["ran"] = a if not any(now["cyc"]["check"][ki] for ki in fast) else None
            rest = [ki for ki in range(len(c["kinds"])) if ki not in first and ki not in fast]
            pend.clear()
            pend.update(dict(look(rest)))

        def after(k):
            for t in session.tasks:
                if t.execution == "thread":
                    wait_for(lambda: not t.is_alive(), "a check in a thread to end")
            latest.update(pend)
            show = lambda: f"\n  cycle {k} at {clock()}: {now['cyc']}, latest results {latest}\n  {c}"
            if want["ran"] is not None:
                check(ran == want["ran"], lambda: f"tasks {ran} were started, expected {want['ran']}{show()}")
                seen.update((i, i in want["ran"]) for i in range(len(c["tasks"])))
            if k % 2 == 0:
                check(sorted(asked) == sorted(want["asked"]), lambda: f"the checks were run as {sorted(asked)}, expected {sorted(want['asked'])}{show()}")
        Sim(env, 2 * len(c["cycles"]), before=before, after=after).run_ok()
    ctx.label(*{s["exec"] for s in c["kinds"]}, "several parameters" if len({u[0] for u in c["uses"]}) < len(c["uses"]) else "one parameter each")
    ctx.nontrivial(len({v for _, v in seen}) == 2)


PARTS = [Part("functions", case, run, 5000, 100000, RULE),
         Part("background", task_case, task_run, 1500, 30000, "tasks were started in some cycles and not in others")]
