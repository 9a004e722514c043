"""C22: what the session holds: names, manual runs, groups."""
import threading

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..sim import Sim, wait_for

RULE = "a name was asked for that existed already, or an operation was refused, and the tasks were run afterwards"
ASSUMPTIONS = ["tasks named in a manual run have no other requests pending", "names of the tasks of a group do not collide with those of the application when it is included",
               "with task_pre_exist 'ignore' tasks are not renamed to existing names"]

NAMES = ["a", "b", "a - 1", "a - 2", "do things", "ä/b"]


@st.composite
def reg_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["create", "create", "create", "create", "remove", "remove", "delete", "rename", "look"]))
        how = draw(st.sampled_from(["create_task", "FuncTask", "decorator", "decorator", "default name", "command"])) if k == "create" else draw(st.sampled_from(["name", "object"]))
        ops.append([k, draw(st.sampled_from(NAMES)), how, draw(st.sampled_from(NAMES))])
    return {"mode": draw(st.sampled_from(["raise", "rename", "ignore"])), "ops": ops}


def reg_run(c, ctx):
    from rocketry.conditions import AlwaysTrue
    from rocketry.tasks import FuncTask
    mode = c["mode"]
    stat = {"clash": 0}
    with Env(app=True, execution="main", task_pre_exist=mode) as env:
        session = env.session
        model = {}           # name -> (task or None if not known as object, number of the function)
        funcs = {}
        ran = []
        trace = []

        def free(name):
            k = 0
            new = name
            while new in model:
                k += 1
                new = f"{name} - {k}"
            return new
        for no, (k, name, how, other) in enumerate(c["ops"]):
            trace.append(f"{k} {name!r} {how} {other!r}")
            show = lambda: f" (task_pre_exist {mode!r})\n  " + "\n  ".join(trace)
            if k == "create":
                def func(no=no):
                    ran.append(no)
                if how == "default name":
                    name = func.__name__ = "a" if other == "a" else "func"
                exists = name in model
                stat["clash"] += exists
                task, exc = None, None
                try:
                    if how == "create_task":
                        task = session.create_task(func=func, name=name, start_cond=AlwaysTrue())
                    elif how == "FuncTask":
                        task = FuncTask(func, name=name, start_cond=AlwaysTrue(), session=session)
                    elif how == "command":
                        task = session.create_task(command="true", name=name, start_cond=AlwaysTrue(), disabled=True)
                    elif how == "decorator":
                        back = env.app.task(AlwaysTrue(), name=name)(func)
                        check(back is func, lambda: f"the decorator gives {back!r} instead of the function{show()}")
                    else:
                        env.app.task(AlwaysTrue())(func)
                except (ValueError, KeyError) as e:
                    exc = e
                if exists and mode == "raise":
                    check(exc is not None, lambda: f"a second task of the name was accepted{show()}")
                    continue
                check(exc is None, lambda: f"creating the task raised {exc!r}{show()}")
                if exists and mode == "ignore":
                    continue
                new = free(name)
                model[new] = no if how != "command" else None
                if task is not None:
                    check(task.name == new and task.session is session, lambda: f"the new task is called {task.name!r} instead of {new!r}{show()}")
                    check(session[new] is task, lambda: f"session[{new!r}] is not the task created{show()}")
                else:
                    funcs[no] = (func, new)
            elif k in ("remove", "delete"):
                if name in model:
                    t = session[name]
                    if k == "delete":
                        t.delete()
                    else:
                        session.remove_task(t if how == "object" else name)
                    del model[name]
                elif k == "remove":
                    try:
                        session.remove_task(name)
                    except KeyError:
                        pass
                    else:
                        check(False, f"a task that does not exist was removed{show()}")
            elif k == "rename":
                if name in model and other != name and not (mode == "ignore" and other in model):
                    stat["clash"] += other in model
                    t = session[name]
                    try:
                        t.name = other
                    except ValueError:
                        check(mode == "raise" and other in model, lambda: f"the task could not be renamed{show()}")
                        check(t.name == name, lambda: f"a refused rename left the name {t.name!r}{show()}")
                    else:
                        check(not (mode == "raise" and other in model), lambda: f"the task was renamed to a name that exists{show()}")
                        # (the old name is taken by the task itself until it has the new one)
                        new = free(other)
                        no_ = model.pop(name)
                        model[new] = no_
                        check(t.name == new, lambda: f"the task is called {t.name!r} instead of {new!r}{show()}")
                        for f, (fn, nm) in list(funcs.items()):
                            if nm == name:
                                del funcs[f]
            got = sorted(t.name for t in session.tasks)
            check(got == sorted(model), lambda: f"the session holds {got} instead of {sorted(model)}{show()}")
            for x in NAMES + ["func", "func - 1"]:
                check((x in session) == (x in model), lambda: f"{x!r} in session is {x in session}{show()}")
                if x in model:
                    check(session[x].name == x, lambda: f"session[{x!r}] is called {session[x].name!r}{show()}")
                else:
                    try:
                        session[x]
                    except KeyError:
                        pass
                    else:
                        check(False, f"session[{x!r}] exists{show()}")
            for no_, (fn, nm) in funcs.items():
                if nm in model and model[nm] == no_:
                    check(fn in session and session[fn].name == nm, lambda: f"the function of {nm!r} does not lead to its task{show()}")
        Sim(env, 1).run_ok()
        want = sorted(v for v in model.values() if v is not None)
        check(sorted(ran) == want, lambda: f"one cycle executed the functions {sorted(ran)} instead of {want}{show()}")
        logged = sorted(r["task_name"] for r in env.records() if r["action"] == "run")
        check(logged == sorted(x for x in model if model[x] is not None), lambda: f"runs are logged for {logged}{show()}")
    ctx.label(mode, "clash" if stat["clash"] else "no clash")
    ctx.nontrivial(stat["clash"] and want)


# ---------------------------------------------------------------- session.run

@st.composite
def manual_case(draw):
    n = draw(st.integers(1, 5))
    tasks = []
    for i in range(n):
        tasks.append({"cond": draw(st.sampled_from([None, True, False])), "disabled": draw(st.sampled_from([False, False, True])), "role": draw(st.sampled_from([None, None, None, "on_startup", "on_shutdown"])),
                      "exec": draw(st.sampled_from([None, "main", "async", "thread"])), "ref": draw(st.sampled_from(["name", "name", "function", "task"])), "out": draw(st.sampled_from(["success", "success", "fail"])),
                      "adds": draw(st.sampled_from([False, False, False, True])), "removes": draw(st.sampled_from([False, False, False, True])), "prio": draw(st.integers(-2, 2))})
    runs = [{"which": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)), "execution": draw(st.sampled_from([None, None, "main", "async", "thread"])), "obey": draw(st.sampled_from([False, False, True])),
             "fatal": draw(st.sampled_from([False, False, False, True]))} for _ in range(draw(st.integers(1, 3)))]
    return {"tasks": tasks, "runs": runs, "shut": draw(st.booleans())}


def manual_run(c, ctx):
    from rocketry.conditions import FuncCond, AlwaysTrue
    T = c["tasks"]
    n = len(T)
    ran, added = [], []
    stat = {"named": 0, "others": 0}
    with Env(app=True, execution="main") as env:
        session, app = env.session, env.app
        now = {"fatal": False}
        if c["shut"]:
            session.config.shut_cond = FuncCond(func=lambda: False)
        refs = []
        gone = set()

        def make(i):
            t = T[i]

            def act():
                ran.append((i, "main" if threading.current_thread() is threading.main_thread() else "thread"))
                if t["adds"]:
                    name = f"added {len(added)}"
                    added.append(session.create_task(func=lambda: None, name=name, execution="main"))
                if t.get("removes") and f"extra {i}" in session:
                    session.remove_task(f"extra {i}")
                    gone.add(f"extra {i}")
                if t["out"] == "fail":
                    raise RuntimeError("fails")
            if t["exec"] == "async":
                async def func():
                    act()
                return func
            return act

        def cond(i):
            def get():
                if now["fatal"]:
                    raise ZeroDivisionError("the condition breaks")
                return T[i]["cond"]
            return FuncCond(func=get)
        for i, t in enumerate(T):
            kw = {t["role"]: True} if t["role"] else {}
            f = make(i)
            if t["cond"] is not None:
                kw["start_cond"] = cond(i)
            app.task(name=f"t{i}", disabled=t["disabled"], execution=t["exec"], priority=t["prio"], **kw)(f)
            refs.append({"name": f"t{i}", "function": f, "task": session[f"t{i}"]}[t["ref"]])
            if t.get("removes"):
                app.task(name=f"extra {i}", priority=-10)(lambda: None)
        trace = []
        for R in c["runs"]:
            def state():
                return {x.name: {k: getattr(x, k) for k in ("disabled", "execution", "start_cond", "end_cond", "priority", "on_startup", "on_shutdown", "permanent", "timeout")} for x in session.tasks}
            before = state()
            shut = session.config.shut_cond
            ran.clear()
            n_added = len(added)
            expect, fatal = [], False
            stat["named"] += len(R["which"])
            stat["others"] += n - len(R["which"])
            # the condition of a task is only looked at where it decides
            looked = [i for i in R["which"] if R["obey"] and T[i]["cond"] is not None and not T[i]["disabled"]]
            fatal = R["fatal"] and bool(looked)
            for i in R["which"]:
                t = T[i]
                if not R["obey"] or (not t["disabled"] and (t["cond"] or (t["cond"] is None and t["role"]))):
                    expect.append(i)
            now["fatal"] = R["fatal"]
            trace.append(f"run{R}")
            show = lambda: f"\n  tasks: {T}\n  {trace}"
            exc = None
            try:
                session.run(*[refs[i] for i in R["which"]], execution=R["execution"], obey_cond=R["obey"])
            except ZeroDivisionError as e:
                exc = e
            now["fatal"] = False
            check((exc is not None) == fatal, lambda: f"session.run raised {exc!r}{show()}")
            if not fatal:
                check(sorted(i for i, _ in ran) == sorted(expect), lambda: f"session.run ran {sorted(f't{i}' for i, _ in ran)} instead of {sorted(f't{i}' for i in expect)}{show()}")
                for i, where in ran:
                    ex = R["execution"] or T[i]["exec"] or "main"
                    check(where == ("thread" if ex == "thread" else "main"), lambda: f"t{i} was run on the {where} thread though its execution is {ex}{show()}")
                check(len(added) - n_added == sum(T[i]["adds"] for i in expect), lambda: f"tasks are missing that were created by the run{show()}")
            after = state()
            check(not gone & set(after), lambda: f"{gone & set(after)} are in the session though they were removed by the run{show()}")
            for name in set(before) - gone:
                check(name in after, lambda: f"{name} is gone after session.run{show()}")
                for k in before[name]:
                    check(after[name][k] == before[name][k], lambda: f"{name}.{k} is {after[name][k]!r} after session.run, it was {before[name][k]!r}{show()}")
            sc = session.config.shut_cond
            check(sc == shut or (shut is None and not sc.observe(session=session, scheduler=session.scheduler)), lambda: f"the shutdown condition is {session.config.shut_cond!r} after session.run{show()}")
            for x in added:
                check(x.name in session and not x.disabled, lambda: f"the task {x.name!r} created by the run is {'disabled' if x.name in session else 'gone'} afterwards{show()}")
            for i in range(n):
                if T[i]["role"] is None and not fatal:
                    check(not session[f"t{i}"].batches, lambda: f"requests of t{i} are left: {session[f't{i}'].batches}{show()}")
            if fatal:
                for i in range(n):
                    session[f"t{i}"].batches.clear()
    ctx.label(*{t["ref"] for t in T}, *{str(t["role"]) for t in T}, "fatal" if any(R["fatal"] for R in c["runs"]) else "no fatal")
    ctx.nontrivial(stat["named"] and stat["others"])


# --------------------------------------------------------------------- groups

@st.composite
def group_case(draw):
    groups = []
    for g in range(draw(st.integers(1, 3))):
        m = draw(st.integers(1, 3))
        groups.append({"prefix": draw(st.sampled_from([None, f"g{g}.", f"{g}/"])), "cond": draw(st.sampled_from([None, None, 0, 1])), "exec": draw(st.sampled_from([None, "main", "async", "thread"])),
                       "params": {k: f"{k} of {g}" for k in draw(st.lists(st.sampled_from(["x", "y"]), unique=True))},
                       "tasks": [{"cond": draw(st.sampled_from([None, "true", 2, 3])), "exec": draw(st.sampled_from([None, None, "main", "async", "thread"])), "takes": draw(st.lists(st.sampled_from(["x", "y"]), unique=True)),
                                  "prio": draw(st.integers(0, 3)), "own": draw(st.sampled_from([False, False, True]))} for _ in range(m)]})
    return {"groups": groups, "app": {k: f"{k} of app" for k in draw(st.lists(st.sampled_from(["x", "y"]), unique=True))}, "exec": draw(st.sampled_from(["main", "async", "thread"])),
            "cycles": [[draw(st.booleans()) for _ in range(4)] for _ in range(draw(st.integers(1, 3)))], "inner": draw(st.booleans())}


def group_run(c, ctx):
    from rocketry import Grouper
    from rocketry.conditions import FuncCond, AlwaysTrue
    flags = [False] * 4
    got = []
    with Env(app=True, execution=c["exec"]) as env:
        app, session = env.app, env.session
        app.params(**c["app"])
        params = dict(c["app"])
        app.task(AlwaysTrue(), name="own", execution="main")(lambda: None)
        M = {}
        for gi, g in enumerate(c["groups"]):
            fc = lambda k: FuncCond(func=lambda: flags[k])
            kw = {}
            if g["prefix"]:
                kw["prefix"] = g["prefix"]
            if g["cond"] is not None:
                kw["start_cond"] = fc(g["cond"])
            if g["exec"]:
                kw["execution"] = g["exec"]
            group = Grouper(**kw)
            if g["params"]:
                group.params(**g["params"])
                params.update(g["params"])
            for ti, t in enumerate(g["tasks"]):
                name = f"g{gi}t{ti}"
                full = (g["prefix"] or "") + name

                def body(full=full, takes=t["takes"]):
                    def inner(**kw):
                        got.append((full, kw, "main" if threading.current_thread() is threading.main_thread() else "thread"))
                    ns = {"inner": inner}
                    exec(f"def func({', '.join(a + '=None' for a in takes)}):\n    inner({', '.join(a + '=' + a for a in takes)})", ns)
                    return ns["func"]
                cond = AlwaysTrue() if t["cond"] == "true" else fc(t["cond"]) if t["cond"] is not None else None
                tk = {"parameters": {a: "own" for a in t["takes"]}} if t["own"] else {}
                group.task(cond, name=name, execution=t["exec"], priority=t["prio"], **tk)(body())
                M[full] = {"cond": t["cond"], "group": g["cond"], "exec": t["exec"] or g["exec"] or c["exec"], "takes": t["takes"], "own": t["own"]}
            app.include_grouper(group)
        show = lambda: f"\n  {c}"
        names = sorted(t.name for t in session.tasks)
        check(names == sorted([*M, "own"]), lambda: f"the application holds {names} instead of {sorted([*M, 'own'])}{show()}")
        for name, m in M.items():
            t = session[name]
            check(t.session is session, lambda: f"{name} does not belong to the session of the application{show()}")
            check(t.get_execution() == m["exec"], lambda: f"execution of {name} is {t.get_execution()!r} instead of {m['exec']!r}{show()}")
        have = {k: v.get_value() if hasattr(v, "get_value") else v for k, v in session.parameters.items()}
        check(have == params, lambda: f"the session parameters are {have} instead of {params}{show()}")
        expect = []
        counts = {name: 0 for name in M}

        def before(i):
            if i > len(c["cycles"]):
                flags[:] = [False] * 4
                return
            flags[:] = c["cycles"][i - 1]
            for name, m in M.items():
                own = m["cond"] == "true" or (m["cond"] is not None and flags[m["cond"]])
                if own and (m["group"] is None or flags[m["group"]]):
                    expect.append((name, {a: "own" if m["own"] else params.get(a) for a in m["takes"]}, "thread" if m["exec"] == "thread" else "main"))
                    counts[name] += 1

        def after(i):
            for name in M:
                if M[name]["exec"] == "thread":
                    wait_for(lambda: not session[name].is_alive(), f"thread of {name} to end")
        Sim(env, len(c["cycles"]), before, after).run_ok()
        key = lambda x: (x[0], sorted(x[1].items(), key=str), x[2])
        check(sorted(map(key, got), key=str) == sorted(map(key, expect), key=str), lambda: f"the tasks of the groups ran as {sorted(map(key, got), key=str)} instead of {sorted(map(key, expect), key=str)}{show()}")
        for name in M:
            acts = [r["action"] for r in env.records(task_name=name)]
            check(acts == ["run", "success"] * counts[name], lambda: f"{counts[name]} runs of {name} are logged as {acts} in the log of the application{show()}")
            check(session[name].status == ("success" if counts[name] else None), lambda: f"status of {name} is {session[name].status!r}{show()}")
    ctx.label(f"{len(c['groups'])} groups", *{"prefix" if g["prefix"] else "no prefix" for g in c["groups"]})
    ctx.nontrivial(expect and any(not v for v in counts.values()))


PARTS = [Part("registry", reg_case, reg_run, 1200, 20000, RULE),
         Part("manual", manual_case, manual_run, 1200, 20000, "session.run was given some tasks and there were others"),
         Part("groups", group_case, group_run, 800, 15000, "tasks of a group ran and others had to wait")]
