"""C28: control from other threads takes effect and does no harm, at whatever moment it comes."""
import asyncio
import logging

from hypothesis import strategies as st

from ..core import Part, Violation, check
from ..env import Env
from ..preempt import Interleaver, Points
from ..sim import Sim

RULE = "an operation of another thread came while the scheduler was within a cycle, and took effect"
ASSUMPTIONS = ["a cycle may begin shortly before its hooks are called: what is removed then may run once more",
               "threads change over at line boundaries of the code under test, right before it stores something into an object, and wherever one blocks",
               "an operation that is under way while a cycle is may or may not be in force in that cycle"]

OPS = ["request", "request", "create", "create", "create", "remove", "toggle", "toggle", "param", "key", "key", "read", "log", "look", "dup", "prio", "cond", "rename"]


@st.composite
def op(draw):
    kind = draw(st.sampled_from(OPS))
    o = {"op": kind, "cycle": draw(st.integers(2, 6)), "at": draw(st.integers(0, 999)), "pause": None}
    if draw(st.booleans()):
        o["pause"] = draw(st.one_of(st.integers(0, 999), st.integers(0, 149).map(lambda n: 999 - n)))      # of a thousand parts of the operation
        o["for"] = draw(st.one_of(st.integers(100, 999), st.integers(1000, 2200), st.integers(1000, 2200)))
    if kind == "request":
        o["to"] = draw(st.integers(0, 1))
    elif kind == "create":
        o["how"] = draw(st.sampled_from(["func", "func", "deco", "arg", "app"]))
        o["exec"] = draw(st.sampled_from(["main", "async"]))
    elif kind in ("toggle", "cond"):
        o["to"] = draw(st.booleans())
    elif kind == "key":
        o["how"] = draw(st.sampled_from(["set", "update", "app"]))
    elif kind == "param":
        o["val"] = draw(st.integers(1, 5))
    elif kind == "remove":
        o["who"] = draw(st.integers(0, 1))
    elif kind == "prio":
        o["val"] = draw(st.integers(-5, 20))
    return o


@st.composite
def case(draw):
    ops = draw(st.lists(op(), min_size=1, max_size=8))
    ops.sort(key=lambda o: (o["cycle"], o["at"]))
    return {"ops": ops, "fine": draw(st.integers(0, 4)) < 2, "spawn": draw(st.integers(0, 2)) == 0, "long": draw(st.integers(0, 3)) == 0, "logs": draw(st.integers(0, 3)) == 0, "stop": draw(st.sampled_from(["cond", "op"])), "stop_at": draw(st.integers(0, 999))}


def world(c, env, events):
    "the session's tasks, and what performs an operation"
    from rocketry.args import Arg
    from rocketry.conds import after_success, every
    from rocketry.core.condition import AlwaysFalse, AlwaysTrue
    session, app = env.session, env.app

    def seen(name, val=None):
        events.append(("exec", name, val))

    def body(name):
        def func(val="none"):
            seen(name, val)
        return func

    session.parameters["p"] = 0
    session.create_task(func=body("first"), name="first", start_cond=AlwaysTrue(), priority=9)
    session.create_task(func=body("dep"), name="dep", start_cond=after_success("first"), priority=-2)
    session.create_task(func=body("req0"), name="req0", priority=3)

    async def req1(val="none"):
        seen("req1", val)
    session.create_task(func=req1, name="req1", execution="async")
    turns = {"tog": 0, "cond": 0, "prio": 0}

    def turned(name):
        "every second run fails"
        def func():
            seen(name, "none")
            turns[name] += 1
            if turns[name] % 2:
                raise ValueError("as told")
        return func
    session.create_task(func=turned("tog"), name="tog", start_cond=AlwaysTrue(), priority=4)
    session.create_task(func=turned("cond"), name="cond", start_cond=AlwaysTrue(), priority=1)
    session.create_task(func=turned("prio"), name="prio", start_cond=AlwaysTrue())
    session.create_task(func=body("ren"), name="ren", start_cond=AlwaysTrue())

    def reader(val=Arg("p")):
        seen("reader", val)
    session.create_task(func=reader, name="reader", start_cond=AlwaysTrue(), priority=2)
    for k in range(2):
        session.create_task(func=body(f"gone{k}"), name=f"gone{k}", start_cond=AlwaysTrue(), priority=k)
    wrote = [0]

    def writer():
        wrote[0] += 1
        session.parameters["w"] = wrote[0]
        logging.getLogger(f"{env.slogger.name}.of_a_module{wrote[0]}")      # (as an import in a task may do)
    session.create_task(func=writer, name="writer", start_cond=AlwaysTrue(), priority=7)
    if c["spawn"]:
        count = [0]

        def spawner():
            count[0] += 1
            seen("spawner")
            session.create_task(func=body(f"sp{count[0]}"), name=f"sp{count[0]}", start_cond=every("1 day"), execution="main")
        session.create_task(func=spawner, name="spawner", start_cond=AlwaysTrue(), priority=5)
    if c["long"]:
        async def long():
            seen("long")
            await asyncio.Event().wait()
        session.create_task(func=long, name="long", execution="async").run()

    results = {}
    made = {}

    def perform(k, o):
        kind = o["op"]
        if kind == "request":
            session[f"req{o['to']}"].run(val=k)
        elif kind == "create":
            name = made[k] = f"new{k}"
            if o["exec"] == "async":
                async def func(val="none"):
                    seen(name, val)

                async def with_arg(val=Arg("q")):
                    seen(name, val)
            else:
                func = body(name)

                def with_arg(val=Arg("q")):
                    seen(name, val)
            kw = dict(name=name, start_cond=every("1 day"), execution=o["exec"])
            if o["how"] == "func":
                session.create_task(func=func, **kw)
            elif o["how"] == "deco":
                session.create_task(**kw)(func)
            elif o["how"] == "app":
                app.task(**kw)(with_arg)
            else:
                session.create_task(func=with_arg, **kw)
        elif kind == "remove":
            session.remove_task(f"gone{o['who']}")
        elif kind == "toggle":
            session["tog"].disabled = not o["to"]
        elif kind == "cond":
            session["cond"].start_cond = AlwaysTrue() if o["to"] else AlwaysFalse()
        elif kind == "param":
            session.parameters["p"] = o["val"]
        elif kind == "key":
            if o["how"] == "set":
                session.parameters[f"key{k}"] = k
            elif o["how"] == "update":
                session.parameters.update({f"key{k}": k})
            else:
                app.params(**{f"key{k}": k})
        elif kind == "prio":
            session["prio"].priority = o["val"]
        elif kind == "rename":
            session["ren"].name = "ren2"
            session["ren2"].name = "ren"
        elif kind == "read":
            results[k] = [(r["task_name"], r["action"]) for r in env.records()]
        elif kind == "log":
            results[k] = [(r["task_name"], r["action"]) for r in (r if isinstance(r, dict) else r.dict() for r in session.get_task_log())]
        elif kind == "look":
            results[k] = [session["first"].name, "reader" in session, "nobody" in session, session["req0"].name]
        elif kind == "dup":
            try:
                session.create_task(func=body("first"), name="first", start_cond=AlwaysTrue())
                results[k] = "accepted"
            except (ValueError, KeyError):
                results[k] = "refused"
        elif kind == "terminate":
            session["long"].terminate()
        elif kind == "shut_down":
            session.shut_down()

    session.parameters["q"] = "q value"
    return perform, results, made


_points = {}


def points(o, fine):
    "how many points of change over an operation has, about"
    key = (o["op"], o.get("how"), fine)
    if key not in _points:
        n = [0]

        def point():
            n[0] += 1
        with Env(app=True, execution="main", default=False) as env:
            perform, _, _ = world({"spawn": False, "long": True}, env, [])
            watch = Points(fine, point)
            watch.on()
            try:
                perform(0, o)
            except Exception:
                pass
            finally:
                watch.off()
        _points[key] = n[0]
    return _points[key]


def run(c, ctx):
    from rocketry.conditions import SchedulerCycles
    ops = [dict(o) for o in c["ops"]]
    requests = sum(o["op"] == "request" for o in ops)
    last = max(o["cycle"] + (2 if o["pause"] is not None else 0) for o in ops)
    term_at = last
    total = last + requests + 4
    pauses = {k: None if o["pause"] is None else o["pause"] * points(o, c["fine"]) // 1000 for k, o in enumerate(ops)}
    with Env(app=True, execution="main", force_status_from_logs=c["logs"], default=True) as env:
        session = env.session
        events = []       # ("cycle", i) ("exec", name, value) ("begin", k) ("done", k)

        perform, results, made = world(c, env, events)
        errors = {}

        def launch(k):
            o = ops[k]

            def func():
                events.append(("begin", k, len(env.records()) if o["op"] in ("read", "log") else None))
                try:
                    perform(k, o)
                except BaseException as exc:
                    errors[k] = exc
                events.append(("done", k, len(env.records()) if o["op"] in ("read", "log") else None))
            inter.start(k, (o["op"], o.get("who")) if o["op"] in ("remove", "request", "toggle", "cond", "param", "prio", "rename") else k, func, pauses.get(k))

        gone = set()
        for o in ops:      # a task can be removed once
            if o["op"] == "remove":
                o["op"] = "look" if o["who"] in gone else "remove"
                gone.add(o.get("who"))
        if c["long"]:
            ops.append({"op": "terminate", "cycle": term_at, "at": c["stop_at"] // 2, "pause": None})
        if c["stop"] == "op":
            ops.append({"op": "shut_down", "cycle": total, "at": c["stop_at"], "pause": None})
        plan = []
        for k, o in enumerate(ops):
            plan.append((o["cycle"], o["at"], "start", k))
            if o["pause"] is not None:
                at = o["at"] + o["for"]
                plan.append((o["cycle"] + at // 1000, at % 1000, "resume", k))

        def before(i):
            events.append(("cycle", i))
            inter.cycle(i)

        def after(i):
            env.clock.advance(1)
        sim = Sim(env, 10 ** 9, before=before, after=after, hard=total + 5)
        if c["stop"] == "cond":
            session.config.shut_cond = SchedulerCycles() >= total
        with Interleaver(plan, launch, c["fine"]) as inter:
            exc = sim.run()
        ended = inter.finish()
        check(ended, "an operation of another thread never came to its end")
        shown = " ".join(f"[{e[1]}" if e[0] == "cycle" else f"{e[1]}:{e[2]}" if e[0] == "exec" else f"<{ops[e[1]]['op']}{e[1]}" if e[0] == "begin" else f"{e[1]}>" for e in events)
        if exc is not None:
            import traceback
            raise Violation(f"the scheduler came down with {exc!r}: {shown}\n" + "".join(traceback.format_exception(exc))[-3000:], key=f"exc:{type(exc).__name__}")
        for k, err in errors.items():
            raise Violation(f"operation {ops[k]['op']} of another thread failed with {err!r}: {shown}")

        # --- what happened when
        cyc, begun, done, execs = 0, {}, {}, {}
        for e in events:
            if e[0] == "cycle":
                cyc = e[1]
            elif e[0] == "exec":
                execs.setdefault(e[1], []).append((cyc, e[2]))
            elif e[0] == "begin":
                begun[e[1]] = (cyc, e[2])
            else:
                done[e[1]] = (cyc, e[2])
        ncycles = cyc
        if c["stop"] == "cond":
            check(ncycles == total, f"{ncycles} cycles, told to shut down after {total}: {shown}")
        else:
            k = len(ops) - 1
            check(k in done and ncycles <= done[k][0] + 1, f"{ncycles} cycles, though told to shut down in cycle {done.get(k, '?')[0]}: {shown}")
            check(ncycles >= done[k][0], f"shut down before it was told to: {shown}")

        def each_cycle(name, vals=None, upto=None):
            got = [x for x, _ in execs.get(name, [])]
            want = list(range(1, (upto or ncycles) + 1))
            check(got == want, f"{name} is to run once in every cycle, ran in {got}: {shown}")
        for name in ("first", "dep", "prio", "ren", *(["spawner"] if c["spawn"] else [])):
            each_cycle(name)
        check([x for x, _ in execs.get("reader", [])] == list(range(1, ncycles + 1)), f"reader is to run once in every cycle, ran in {execs.get('reader')}: {shown}")

        def states(kind, init, get):
            "for each cycle the set of values that may be in force"
            out = {}
            for i in range(1, ncycles + 1):
                base, may = init, set()
                for k, o in enumerate(ops):
                    if o["op"] != kind or k not in begun or begun[k][0] > i:
                        continue
                    if k in done and done[k][0] < i:
                        base = get(o)
                        may.clear()
                    else:
                        may.add(get(o))
                out[i] = may | {base}
            return out
        for i, may in states("param", 0, lambda o: o["val"]).items():
            got = [v for x, v in execs["reader"] if x == i]
            check(set(got) <= may, f"in cycle {i} the parameter was {sorted(may)}, the run got {got}: {shown}")
        params = dict(session.parameters.items())
        want = {"q": "q value", "w": ncycles, "p": params.get("p"), **{f"key{k}": k for k, o in enumerate(ops) if o["op"] == "key"}}
        check(params == want, f"the session parameters are {params}, they were set to {want}: {shown}")
        for name, kind in (("tog", "toggle"), ("cond", "cond")):
            for i, may in states(kind, True, lambda o: o["to"]).items():
                n = sum(x == i for x, _ in execs.get(name, []))
                check(n in [int(v) for v in may], f"{name} is on: {sorted(may)} in cycle {i}, but was run {n} times: {shown}")
        for t in (0, 1):
            wanted = [k for k, o in enumerate(ops) if o["op"] == "request" and o["to"] == t]
            got = execs.get(f"req{t}", [])
            check([v for _, v in got] == wanted, f"req{t} is to run with {wanted}, was run with {[v for _, v in got]}: {shown}")
            free = 0
            for (x, _), k in zip(got, wanted):
                due = max(done[k][0] + 1, free + 1)
                check(begun[k][0] <= x <= due + t, f"request {k} of req{t} was made in cycle {begun[k][0]}-{done[k][0]}, it ran in {x}: {shown}")
                free = x
        for who in (0, 1):
            rem = [k for k, o in enumerate(ops) if o["op"] == "remove" and o["who"] == who]
            got = [x for x, _ in execs.get(f"gone{who}", [])]
            if not rem:
                each_cycle(f"gone{who}")
            else:
                lo, hi = begun[rem[0]][0], done[rem[0]][0]
                check(got in [list(range(1, n + 1)) for n in range(lo - 1, hi + 2)], f"gone{who} was removed in cycle {lo}-{hi}, ran in {got}: {shown}")
                check(f"gone{who}" not in session, f"gone{who} was removed but is there: {shown}")
        for k, name in made.items():
            got = execs.get(name, [])
            check(len(got) == 1 and begun[k][0] <= got[0][0] <= done[k][0] + 2, f"{name} was created in cycle {begun[k][0]}-{done[k][0]} to run once a day, ran in {got}: {shown}")
            check(got[0][1] == ("q value" if ops[k]["how"] in ("arg", "app") else "none"), f"{name} was run with {got[0][1]!r}: {shown}")
            task = session[name]
            recs = [(r["action"], r["created"]) for r in env.records() if r["task_name"] == name]
            check([a for a, _ in recs] == ["run", "success"], f"log of {name}: {recs}: {shown}")
            check(task.status == "success" and task.last_run is not None and task.last_run.timestamp() == recs[0][1] and task.last_success.timestamp() == recs[1][1], f"{name}: status {task.status}, last run {task.last_run}, last success {task.last_success}; log {recs}: {shown}")
        if c["spawn"]:
            for i in range(1, ncycles):
                got = [x for x, _ in execs.get(f"sp{i}", [])]
                check(len(got) == 1 and got[0] <= i + 1, f"sp{i} was created in cycle {i} to run once a day, ran in {got}: {shown}")
        if c["long"]:
            k = next(k for k, o in enumerate(ops) if o["op"] == "terminate")
            acts = [r["action"] for r in env.records() if r["task_name"] == "long"]
            check(acts == ["run", "terminate"], f"log of the long run: {acts}: {shown}")
            when = [r["created"] for r in env.records() if r["task_name"] == "long"]
            base = [r["created"] for r in env.records() if r["task_name"] == "first" and r["action"] == "run"]
            check(base[begun[k][0] - 1] <= when[1] <= base[min(done[k][0], len(base) - 1)], f"the long run was to be terminated in cycle {begun[k][0]}-{done[k][0] + 1}: {shown}")
        ends = {}
        for r in env.records():
            ends.setdefault(r["task_name"], {})[r["action"]] = r["created"]
            ends[r["task_name"]]["last"] = r["action"]
        for task in session.tasks:
            want = ends.get(task.name, {})
            if task.name not in ("ren", "long"):
                got = {a: getattr(task, f"last_{a}").timestamp() for a in ("run", "success", "fail") if getattr(task, f"last_{a}") is not None}
                check(task.status == want.get("last") and got == {a: v for a, v in want.items() if a != "last"}, f"{task.name}: status {task.status}, {got}; according to the log {want}: {shown}")
        full = [(r["task_name"], r["action"]) for r in env.records()]
        names = [t.name for t in session.tasks]
        check(len(names) == len(set(names)), f"names of the tasks: {sorted(names)}: {shown}")
        for k, got in results.items():
            o = ops[k]
            if o["op"] in ("read", "log"):
                check(got == full[:len(got)] and begun[k][1] <= len(got) <= done[k][1], f"read {len(got)} records, the log had {begun[k][1]} to {done[k][1]}: {shown}")
            elif o["op"] == "look":
                check(got == ["first", True, False, "req0"], f"looked up: {got}: {shown}")
            elif o["op"] == "dup":
                check(got == "refused", f"a second task of the name first was {got}: {shown}")
        alive = [t.name for t in session.tasks if t.is_alive()]
        check(not alive, f"alive after the shutdown: {alive}")
        ctx.label(*{o["op"] for o in ops}, *(["paused"] if any(o["pause"] is not None for o in ops) else []), *(["blocked"] if inter.blocked else []))
        ctx.nontrivial(inter.hits > 0 and len(done) == len(ops))


# -------------------------------------------------------------------- requests

@st.composite
def req_case(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        o = {"to": draw(st.integers(0, n - 1)), "cycle": draw(st.integers(2, 7)), "at": draw(st.integers(0, 999)), "pause": None}
        if draw(st.integers(0, 3)) == 0:
            o["pause"] = draw(st.integers(0, 999))
            o["for"] = draw(st.integers(50, 1500))
        ops.append(o)
    ops.sort(key=lambda o: (o["cycle"], o["at"]))
    return {"execs": [draw(st.sampled_from(["main", "main", "async"])) for _ in range(n)], "first": [draw(st.integers(0, 4)) for _ in range(n)], "ops": ops, "fine": draw(st.integers(0, 3)) > 0}


def req_run(c, ctx):
    "few tasks and many requests: a cycle has few points at which threads may change over"
    ops = c["ops"]
    last = max(o["cycle"] + (2 if o["pause"] is not None else 0) for o in ops)
    total = last + len(ops) + sum(c["first"]) + 4
    pauses = {k: None if o["pause"] is None else o["pause"] * points({"op": "request", "to": 0}, c["fine"]) // 1000 for k, o in enumerate(ops)}
    with Env(execution="main") as env:
        session = env.session
        events = []
        for t, how in enumerate(c["execs"]):
            if how == "async":
                async def func(val, t=t):
                    events.append(("exec", t, val))
            else:
                def func(val, t=t):
                    events.append(("exec", t, val))
            session.create_task(func=func, name=f"req{t}", execution=how)
            for j in range(c["first"][t]):
                session[f"req{t}"].run(val=-1 - j)
        errors = {}

        def launch(k):
            def func():
                events.append(("begin", k))
                try:
                    session[f"req{ops[k]['to']}"].run(val=k)
                except BaseException as exc:
                    errors[k] = exc
                events.append(("done", k))
            inter.start(k, ops[k]["to"], func, pauses[k])
        plan = []
        for k, o in enumerate(ops):
            plan.append((o["cycle"], o["at"], "start", k))
            if o["pause"] is not None:
                at = o["at"] + o["for"]
                plan.append((o["cycle"] + at // 1000, at % 1000, "resume", k))

        def before(i):
            events.append(("cycle", i))
            inter.cycle(i)
        sim = Sim(env, total, before=before)
        with Interleaver(plan, launch, c["fine"]) as inter:
            exc = sim.run()
        check(inter.finish(), "an operation of another thread never came to its end")
        shown = " ".join(f"[{e[1]}" if e[0] == "cycle" else f"req{e[1]}:{e[2]}" if e[0] == "exec" else f"<{e[1]}" if e[0] == "begin" else f"{e[1]}>" for e in events)
        check(exc is None, lambda: f"the scheduler came down with {exc!r}: {shown}")
        check(not errors, lambda: f"requests failed with {errors}: {shown}")
        cyc, begun, done, execs = 0, {}, {}, {}
        for e in events:
            if e[0] == "cycle":
                cyc = e[1]
            elif e[0] == "exec":
                execs.setdefault(e[1], []).append((cyc, e[2]))
            else:
                (begun if e[0] == "begin" else done)[e[1]] = cyc
        for t, how in enumerate(c["execs"]):
            wanted = [-1 - j for j in range(c["first"][t])] + [k for k, o in enumerate(ops) if o["to"] == t]
            got = execs.get(t, [])
            check([v for _, v in got] == wanted, f"req{t} is to run with {wanted}, was run with {[v for _, v in got]}: {shown}")
            free = 0
            for (x, _), k in zip(got, wanted):
                lo, hi = (1, 0) if k < 0 else (begun[k], done[k])
                due = max(hi + 1, free + 1)
                check(lo <= x <= due + (how == "async"), f"request {k} of req{t} was made in cycle {lo}-{hi}, it ran in {x}: {shown}")
                free = x
            acts = [r["action"] for r in env.records(task_name=f"req{t}")]
            check(acts == ["run", "success"] * len(wanted), f"the runs of req{t} are logged as {acts}: {shown}")
    ctx.label(*c["execs"], *(["paused"] if any(o["pause"] is not None for o in ops) else []), *(["blocked"] if inter.blocked else []))
    ctx.nontrivial(inter.hits > 0 and len(done) == len(ops))


PARTS = [Part("threads", case, run, 900, 20000, RULE),
         Part("requests", req_case, req_run, 1200, 20000, RULE)]
