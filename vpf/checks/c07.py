"""C07: conditions on the scheduler and on parameters, and the shut condition."""
from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..hist import TZS, tz_of
from ..sim import Sim

RULE = "some condition is true in one cycle and false in another"
ASSUMPTIONS = ["clock readings within 0.5 ms of a boundary of a scheduler-running condition are not judged"]

SPANS = [["10 seconds", 10], ["2 min", 120], ["1 hour", 3600], ["1 day 2 hours", 93600]]
KEYS = ["x", "y", "mode", "env"]
VALS = ["test", "prod", "1"]
OBJ = VALS + [None, 0, "", 2, [1], 1, "0", "2", "None"]      # values for conditions given as objects


@st.composite
def leaf(draw, timed=True):
    k = draw(st.sampled_from(["cycles", "cycles", "cyc_cmp", "str_cycles"] + (["running", "running", "str_over", "str_started"] if timed else []) + ["env", "exists", "is", "exists_many"]))
    if k == "cycles":
        gt = draw(st.sampled_from([None, 0, 1, 2, 4]))
        return [k, gt, draw(st.sampled_from([1, 2, 3, 5] if gt is None else [None, 2, 3, 6]))]
    if k == "cyc_cmp":
        return [k, draw(st.lists(st.tuples(st.sampled_from(["==", "!=", "<", ">", "<=", ">="]), st.integers(0, 6)).map(list), min_size=1, max_size=2, unique_by=lambda x: x[0]))]
    if k == "str_cycles":
        return [k, draw(st.sampled_from(["more than ", "less than ", ""])), draw(st.integers(0, 5))]
    if k == "running":
        m = draw(st.sampled_from([None] + SPANS))
        # a lower bound above the upper one is a mistake, not an empty condition
        return [k, m, draw(st.sampled_from(SPANS if m is None else [None] + [x for x in SPANS if x[1] > m[1]]))]
    if k in ("str_over", "str_started"):
        return [k, draw(st.sampled_from(SPANS))]
    if k == "env":
        as_str = draw(st.booleans())
        return [k, draw(st.sampled_from(VALS if as_str else OBJ)), as_str]
    if k == "exists":
        return [k, draw(st.sampled_from(KEYS)), draw(st.booleans())]
    if k == "is":
        as_str = draw(st.booleans())
        return [k, draw(st.sampled_from(KEYS)), draw(st.sampled_from(VALS if as_str else OBJ)), as_str]
    return [k, draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)), draw(st.dictionaries(st.sampled_from(KEYS), st.sampled_from(OBJ), max_size=2))]


@st.composite
def condition(draw, timed=True):
    if draw(st.integers(0, 2)):
        return draw(leaf(timed))
    op = draw(st.sampled_from(["and", "or", "not"]))
    return [op, draw(leaf(timed))] + ([draw(leaf(timed))] if op != "not" else [])


@st.composite
def case(draw):
    lives = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        lives.append([{"step": draw(st.sampled_from([0, 0.001, 6, 70, 1000, 50000])),
                       "set": draw(st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(["del", "val", "val", "val", "arg", "func"]), st.sampled_from(OBJ)).map(list), max_size=2))}
                      for _ in range(draw(st.integers(1, 7)))])
    return {"lives": lives, "conds": draw(st.lists(condition(), min_size=1, max_size=4)), "shut": draw(st.sampled_from([None, 1, 1])) and draw(condition()),
            "boot": draw(st.sampled_from([None, None, 0, 7, 130, 4000])), "up": draw(st.lists(condition(), max_size=2)), "down": draw(st.lists(condition(), max_size=2)),
            "tz": draw(st.sampled_from(TZS)), "shut_str": draw(st.booleans()), "pass": draw(st.sampled_from(["start", "attr"]))}


def build(c):
    from rocketry import conds, conditions
    k = c[0]
    if k == "and":
        return build(c[1]) & build(c[2])
    if k == "or":
        return build(c[1]) | build(c[2])
    if k == "not":
        return ~build(c[1])
    if k == "cycles":
        return conds.scheduler_cycles(more_than=c[1], less_than=c[2])
    if k == "cyc_cmp":
        out = conditions.SchedulerCycles()
        for op, n in c[1]:
            out = {"==": lambda: out == n, "!=": lambda: out != n, "<": lambda: out < n, ">": lambda: out > n, "<=": lambda: out <= n, ">=": lambda: out >= n}[op]()
        return out
    if k == "running":
        return conds.scheduler_running(more_than=c[1] and c[1][0], less_than=c[2] and c[2][0])
    t = text(c)
    if k == "env" and not c[2]:
        return conditions.IsEnv(c[1])
    if k == "exists" and not c[2]:
        return conditions.ParamExists(c[1])
    if k == "is" and not c[3]:
        return conditions.ParamExists(**{c[1]: c[2]})
    if k == "exists_many":
        return conditions.ParamExists(*c[1], **c[2])
    from rocketry.parse import parse_condition
    return parse_condition(t)


def text(c):
    k = c[0]
    if k in ("and", "or"):
        a, b = text(c[1]), text(c[2])
        return a and b and f"{a} {'&' if k == 'and' else '|'} {b}"
    if k == "not":
        a = text(c[1])
        return a and f"~{a}"
    if k == "str_cycles":
        return f"scheduler has {c[1]}{c[2]} cycles"
    if k == "str_over":
        return f"scheduler has run over {c[1][0]}"
    if k == "str_started":
        return f"scheduler started {c[1][0]} ago"
    if k == "env":
        return f"env '{c[1]}'" if c[2] else None
    if k == "exists":
        return f"param '{c[1]}' exists"
    if k == "is":
        return f"param '{c[1]}' is '{c[2]}'" if c[3] else None
    return None


def value(c, n, elapsed, params):
    "None: too close to say"
    k = c[0]
    if k in ("and", "or", "not"):
        v = [value(x, n, elapsed, params) for x in c[1:]]
        if None in v:
            return None
        return all(v) if k == "and" else any(v) if k == "or" else not v[0]
    if k == "cycles":
        return (c[1] is None or n > c[1]) and (c[2] is None or n < c[2])
    if k == "cyc_cmp":
        return all({"==": n == m, "!=": n != m, "<": n < m, ">": n > m, "<=": n <= m, ">=": n >= m}[op] for op, m in c[1])
    if k == "str_cycles":
        return n > c[2] if c[1] == "more than " else n < c[2] if c[1] == "less than " else n == c[2]
    if k == "running":
        if any(b is not None and abs(elapsed - b[1]) < 0.0005 for b in c[1:]):
            return None
        return (c[1] is None or elapsed > c[1][1]) and (c[2] is None or elapsed < c[2][1])
    if k in ("str_over", "str_started"):
        if abs(elapsed - c[1][1]) < 0.0005:
            return None
        return (elapsed > c[1][1]) == (k == "str_over")
    if k == "env":
        # no environment set is the environment None
        return params.get("env") == c[1]
    if k == "exists":
        return c[1] in params
    if k == "is":
        return c[1] in params and params[c[1]] == c[2]
    return all(x in params for x in c[1]) and all(a in params and params[a] == b for a, b in c[2].items())


def run(c, ctx):
    from rocketry.args import FuncArg, SimpleArg
    seen = {}
    with Env(timezone=tz_of(c["tz"])) as env:
        clock, session = env.clock, env.session
        params = {}
        ran = set()
        for i, x in enumerate(c["conds"]):
            session.create_task(func=lambda i=i: ran.add(i), name=f"c{i}", start_cond=build(x))
        # conditions of startup and shutdown tasks are looked at when the scheduler begins and ends
        if c.get("boot") is not None:
            session.create_task(func=lambda: clock.advance(c["boot"]), name="boot", on_startup=True, priority=10)
        for role in ("up", "down"):
            for i, x in enumerate(c.get(role, [])):
                session.create_task(func=lambda k=(role, i): ran.add(k), name=f"{role}{i}", start_cond=build(x), **{"on_startup" if role == "up" else "on_shutdown": True})

        def judge(role, n):
            for i, x in enumerate(c.get(role, [])):
                v = value(x, n, clock() - t0, params)
                if v is not None:
                    seen.setdefault((role, i), set()).add(v)
                    check(((role, i) in ran) == v, lambda: f"{x}, the condition of a {'startup' if role == 'up' else 'shutdown'} task, is {(role, i) in ran}, expected {v}: {n} cycles done, up {clock() - t0} s, parameters {params}")
        shut = c["shut"]
        if shut:
            t = text(shut) if c["shut_str"] else None
            session.config.shut_cond = t or build(shut)
        for life, cyc in enumerate(c["lives"]):
            t0 = clock()
            done = [0]
            stop = [False, False]      # should have stopped by now / not sure

            def before(i):
                if i == 1:
                    judge("up", 0)
                # the shut condition was evaluated just before this cycle
                if shut:
                    v = value(shut, i - 1, clock() - t0, params)
                    check(v is not True, lambda: f"cycle {i} began though the shut condition {shut} was true ({i - 1} cycles, {clock() - t0} s, parameters {params})")
                clock.advance(cyc[i - 1]["step"])
                for k, how, v in cyc[i - 1]["set"]:
                    if how == "del":
                        params.pop(k, None)
                        session.parameters.clear()
                        session.parameters.update(params)
                        continue
                    params[k] = v
                    if k == "env" and how == "val":
                        session.env = v
                    else:
                        session.parameters[k] = SimpleArg(v) if how == "arg" else FuncArg(lambda v=v: v) if how == "func" else v
                ran.clear()

            def after(i):
                done[0] = i
                for k, x in enumerate(c["conds"]):
                    v = value(x, i - 1, clock() - t0, params)
                    if v is None:
                        continue
                    seen.setdefault(k, set()).add(v)
                    check((k in ran) == v, lambda: f"{x}{' (' + text(x) + ')' if text(x) else ''} is {k in ran}, expected {v}: {i - 1} cycles done, up {clock() - t0} s, parameters {params}")
            sim = Sim(env, len(cyc), before=before, after=after)
            sim.run_ok()
            if done[0] < len(cyc):
                v = value(shut, done[0], clock() - t0, params) if shut else False
                check(v is not False, lambda: f"the scheduler shut down after {done[0]} cycles though the shut condition {shut} was false (up {clock() - t0} s, parameters {params})")
                ctx.label("shut condition fired")
            if done[0] == 0:
                judge("up", 0)
            judge("down", done[0])
            ran.clear()
            sim.done = True
            clock.advance(5)
    for x in c["conds"]:
        ctx.label(x[0])
    ctx.nontrivial(any(len(v) == 2 for v in seen.values()))


PARTS = [Part("scheduler", case, run, 4000, 80000, RULE)]
