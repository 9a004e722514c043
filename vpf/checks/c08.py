"""C08: status conditions tell what the log says, from the cache as from the log."""
import datetime as dt

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env, ts
from ..hist import TZS, tz_of, iso
from ..sim import Sim
from .. import reftime as rt
from .c01 import build_string
from .c09 import edges, EPS, EPOCH, clamp_days

RULE = "some judged condition is true in one cycle and false in another"
ASSUMPTIONS = ["a condition is not judged when the clock or a record of its task lies within 0.5 ms of an edge of its period"]

ACTIONS = {"started": ["run"], "failed": ["fail"], "succeeded": ["success"], "finished": ["success", "fail", "terminate"], "terminated": ["terminate"],
           "inacted": ["inaction"]}
CLASSES = {"started": "TaskStarted", "failed": "TaskFailed", "succeeded": "TaskSucceeded", "finished": "TaskFinished", "terminated": "TaskTerminated",
           "inacted": "TaskInacted"}
THIS = {"minute": "this minute", "hour": "this hour", "day": "today", "week": "this week", "month": "this month"}
DELTAS = [["10 seconds", 10], ["5 min", 300], ["1 hour", 3600], ["2 hours 30 min", 9000], ["1 day", 86400], ["3 days", 259200]]
OPS = ["==", "!=", "<", ">", "<=", ">="]
OUT = ["success", "success", "fail", "inaction", "terminate"]


@st.composite
def condition(draw):
    kind = draw(st.sampled_from(list(ACTIONS)))
    per = draw(st.sampled_from(["none", "delta", "spec", "spec"]))
    c = {"kind": kind, "task": draw(st.sampled_from(["a", "a", "b", None])), "cmp": [], "surface": draw(st.sampled_from(["class", "class", "api", "string"]))}
    if per == "delta":
        c["delta"] = draw(st.sampled_from(DELTAS))
    elif per == "spec":
        c["spec"] = clamp_days(draw(rt.spec(units=list(THIS))))
    if c["surface"] == "class":
        c["cmp"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3)).map(list), max_size=2, unique_by=lambda x: x[0]))
    return c


@st.composite
def case(draw):
    n = draw(st.integers(0, 12))
    # some tasks always end the same way (only their terminations, say, are in the log)
    few = draw(st.one_of(st.just(OUT), st.lists(st.sampled_from(OUT), min_size=1, max_size=2)))
    log = [{"task": draw(st.sampled_from(["a", "a", "b"])), "gap": draw(st.sampled_from([0.5, 5, 31, 200, 1500, 4000, 50000, 90000])),
            "dur": draw(st.sampled_from([0.001, 2, 100, 4000])), "out": draw(st.sampled_from(few + (["crash"] if few is OUT else [])))} for _ in range(n)]
    steps = st.sampled_from([0.001, 0.4, 8, 61, 400, 3700, 9100, 86500, 200000])
    if draw(st.booleans()):
        # to the next edge of some condition's period, and a little further
        steps = st.one_of(steps, st.tuples(st.integers(0, 5), st.sampled_from([0.25, 2, 40])).map(list))
    cyc = [{"step": draw(steps), "run": [[t, draw(st.sampled_from(few))] for t in draw(st.sampled_from([[], [], ["a"], ["a"], ["b"], ["a", "b"]]))]}
           for _ in range(draw(st.integers(1, 6)))]
    from_logs = draw(st.booleans())
    if from_logs and draw(st.booleans()):
        # another writer of the same log
        for x in cyc:
            x["ext"] = draw(st.lists(st.tuples(st.sampled_from(["a", "b"]), st.sampled_from(["run", "success", "fail", "terminate", "inaction"])).map(list), max_size=2))
    return {"log": log, "open": draw(st.sampled_from([None, None, None, "a", "b"])), "cycles": cyc, "conds": draw(st.lists(condition(), min_size=1, max_size=6)),
            "dur": draw(st.sampled_from([0.0, 0.01, 90])), "from_logs": from_logs, "default": draw(st.booleans()), "tz": draw(st.sampled_from(TZS)),
            "start": draw(rt.instant([])), "chain": draw(st.booleans()), "observe": draw(st.sampled_from(["hook", "hook", "task"])),
            "names": draw(st.sampled_from([["a", "b"], ["a", "b"], ["a", "b"], ["load  data", "load data"], ["Load", "load"], ["x.y", "x"], ["b's", "é & 1"]]))}


def build(c, ref=lambda name: name):
    """the condition object, or the text; None when the surface does not offer it"""
    from rocketry import conds, conditions
    from rocketry.time import TimeDelta
    kind, task = c["kind"], c["task"] and ref(c["task"])
    sp = c.get("spec")
    if c["surface"] == "class":
        period = TimeDelta(c["delta"][0]) if "delta" in c else rt.make(sp) if sp else None
        out = getattr(conditions, CLASSES[kind])(task=task, period=period)
        for op, n in c["cmp"]:
            out = {"==": lambda: out == n, "!=": lambda: out != n, "<": lambda: out < n, ">": lambda: out > n, "<=": lambda: out <= n, ">=": lambda: out >= n}[op]()
        return out
    if c["surface"] == "api":
        if kind in ("terminated", "inacted") or "delta" in c:
            return None
        w = getattr(conds, kind)
        if task is not None:
            w = w(task)
        if not sp:
            return w
        w = getattr(w, "this_" + sp["unit"]) if sp["unit"] != "day" or len(str(sp)) % 2 else w.today
        s = sp["start"]["v"] if sp["start"] else None
        e = sp["end"]["v"] if sp["end"] else None
        how = sp["how"]
        if how == "full":
            return w
        if how == "between":
            return w.between(s, e)
        if how == "at":
            return w.on(s)
        return getattr(w, how)(e if how == "before" else s)
    head = f"task '{task}' has {kind}" if task else f"has {kind}"
    if "delta" in c:
        return f"{head} {'in ' if len(c['delta'][0]) % 2 else ''}past {c['delta'][0]}"
    if not sp:
        return head
    if sp["how"] == "full":
        return f"{head} {THIS[sp['unit']]}"
    text = build_string({**sp, "how": sp["how"] if sp["how"] in ("between", "before") else "after"})
    if text is None or sp["how"] == "starting":
        return None
    v = [sp[k]["v"] for k in ("start", "end") if sp[k] is not None]
    return f"{head} {THIS[sp['unit']]} {'on' if sp['how'] == 'at' else sp['how']} " + " and ".join(v)


def span(c, now, local):
    "(start, end) of what the condition looks at, in clock values; None: not judged"
    if "delta" in c:
        return now - c["delta"][1], now
    if not c.get("spec"):
        return float("-inf"), float("inf")
    t = local(now)
    occ = edges(c["spec"], t, back=4)
    if any(abs(e - t) < EPS for o in occ for e in o):
        return None
    past = [o for o in occ if o[0] <= t]
    if not past:
        return None
    a, b = past[-1]
    if rt.keys(c["spec"])[0] != "full" and len(past) > 1 and past[-2][1] == a:
        return None
    return a, min(b, t)


def run(c, ctx):
    from rocketry.parse import parse_condition
    from rocketry.exc import TaskInactionException, TaskTerminationException
    shift = dt.timedelta(minutes=c["tz"] or 0)
    N = dict(zip("ab", c.get("names", "ab")))

    def local(x):
        return EPOCH + dt.timedelta(microseconds=round(x * 1e6)) + shift
    # the session need not be the default one; another one may be, with other settings
    with Env(force_status_from_logs=not c["from_logs"]), Env(force_status_from_logs=c["from_logs"], timezone=tz_of(c["tz"]), app=True, default=c["default"]) as env:
        clock = env.clock
        clock.set(c["start"])
        for i, r in enumerate(c["log"]):
            clock.advance(r["gap"])
            env.add_record(N[r["task"]], "run", clock(), f"r{i}")
            clock.advance(r["dur"])
            env.add_record(N[r["task"]], r["out"], clock(), f"r{i}")
        if c["open"]:
            clock.advance(3)
            env.add_record(N[c["open"]], "run", clock(), "open")
        clock.advance(1)
        outs = {}

        def func(name):
            def f():
                clock.advance(c["dur"])
                o = outs.pop(name)
                if o == "fail":
                    raise RuntimeError("fails")
                if o == "inaction":
                    raise TaskInactionException()
                if o == "terminate":
                    raise TaskTerminationException()
            return f
        # with "chain", the tasks' own (never true) start conditions are status conditions of each other
        cond_a = parse_condition("task 'z' has succeeded", session=env.session) if c["chain"] else None
        cond_b = parse_condition("task 'z' has finished today & task 'z' has failed", session=env.session) if c["chain"] else None
        env.session.create_task(func=lambda: None, name="z", execution="main", disabled=True)
        a = env.session.create_task(func=func("a"), name=N["a"], execution="main", start_cond=cond_a)
        b = env.session.create_task(func=func("b"), name=N["b"], execution="main", start_cond=cond_b)
        built = []
        for x in c["conds"]:
            if x["surface"] == "string" and x["task"] and set(N[x["task"]]) & set("'&|~"):
                continue
            o = build(x, N.get if x["surface"] == "string" or len(str(x)) % 3 else lambda name: {"a": a, "b": b}[name])
            if o is None:
                continue
            text = o if isinstance(o, str) else None
            built.append((x, parse_condition(o, session=env.session) if text else o, text))
        seen = {}

        def judge(where):
            recs = env.records()
            now = clock()
            for k, (x, cond, text) in enumerate(built):
                sp = span(x, now, local)
                if sp is None:
                    continue
                lo, hi = sp
                n, skip = 0, False
                for r in recs:
                    if r["task_name"] != N[x["task"] or "a"] or r["action"] not in ACTIONS[x["kind"]]:
                        continue
                    t = r["created"]
                    if "delta" in x:
                        if abs(t - lo) < 0.0005:
                            skip = True
                        n += lo < t <= hi
                    elif x.get("spec"):
                        t = local(t)
                        if abs(t - lo) < EPS or (abs(t - hi) < EPS and hi != local(now)):
                            skip = True
                        n += lo <= t <= hi
                    else:
                        n += 1
                if skip:
                    continue
                want = n > 0 if not x["cmp"] else all({"==": n == m, "!=": n != m, "<": n < m, ">": n > m, "<=": n <= m, ">=": n >= m}[op] for op, m in x["cmp"])
                got = cond.observe(task=a, session=env.session)
                seen.setdefault(k, set()).add(want)
                check(bool(got) == want, lambda: f"{text or ''} {x} at {iso(now, c['tz'])} ({where}) is {got}, but its task has {n} such records then; log: "
                      + ", ".join(f"{r['task_name']} {r['action']} {iso(r['created'], c['tz'])}" for r in recs))

        def advance(step):
            if isinstance(step, list):
                sp = c["conds"][step[0] % len(c["conds"])].get("spec")
                t = local(clock())
                nxt = sorted({e for o in edges(sp, t) for e in o if e > t}) if sp else []
                step = ((nxt[0] - t).total_seconds() if nxt else 3600) + step[1]
            clock.advance(step)

        def before(i):
            advance(c["cycles"][i - 1]["step"])
            for name, action in c["cycles"][i - 1].get("ext", []):
                env.add_record(N[name], action, clock(), "ext")
            judge("cycle begins")
            for name, out in c["cycles"][i - 1]["run"]:
                outs[name] = out
                env.session[N[name]].run()

        def after(i):
            judge("cycle ends")
        Sim(env, len(c["cycles"]), before=before, after=after).run_ok()
        ctx.label("default session" if c["default"] else "not the default session", "from logs" if c["from_logs"] else "cached", "open run at start" if c["open"] else "clean start")
        for x, cond, text in built:
            ctx.label(x["surface"], "delta" if "delta" in x else x["spec"]["unit"] if x.get("spec") else "no period")
        ctx.nontrivial(any(len(v) == 2 for v in seen.values()))


PARTS = [Part("history", case, run, 4000, 80000, RULE)]
