import datetime as dt
from hypothesis import strategies as st

from ..core import Part, check
from .. import reftime as rt

RULE = ("Cases are (period specification, instants, surface); instants are drawn around the period's own edges, month and "
        "year ends and leap days. A case is non-trivial when the period is not the whole cycle.")
ASSUMPTIONS = ["naive and fixed-offset aware datetimes; instants 1995-2045"]

COND_UNITS = ["second", "minute", "hour", "day", "week", "month"]


@st.composite
def case(draw):
    sp = draw(rt.spec())
    ts = draw(st.lists(rt.instant([sp]), min_size=3, max_size=6))
    return {"spec": sp, "at": ts, "tz": draw(st.sampled_from([None, None, None, 0, 120, -330]))}


def aware(t, tz):
    return t if tz is None else t.replace(tzinfo=dt.timezone(dt.timedelta(minutes=tz)))


def last_us(sp, t):
    "the last microsecond of the month a year period ends with (known finding)"
    if sp["unit"] != "year":
        return False
    kind, s, e = rt.keys(sp)
    n = t + dt.timedelta(microseconds=1)
    if n.day != 1 or n.time() != dt.time(0):
        return False
    ends_with_month = sp["how"] == "at" or (sp["end"] is not None and sp["end"].get("bare"))
    return ends_with_month and e[1] == 0 and (n.month - 1) % 12 == e[0] % 12


def run(c, ctx):
    sp = c["spec"]
    kind = rt.keys(sp)[0]
    ctx.label(sp["unit"], sp["how"], kind)
    ctx.nontrivial(kind != "full")
    p = rt.make(sp)
    for s in c["at"]:
        t = dt.datetime.fromisoformat(s)
        want = rt.member(sp, t)
        got = aware(t, c["tz"]) in p
        check(got == want, lambda: f"{s} in '{rt.show(sp)}' is {got}, expected {want}",
              key="year-last-us" if last_us(sp, t) and want else None)
        ctx.label("in" if want else "out")


# ---- the same membership through the condition API, the string syntax and the session's clock

@st.composite
def cond_case(draw):
    sp = draw(rt.spec(units=COND_UNITS))
    ts = draw(st.lists(rt.instant([sp]), min_size=2, max_size=5))
    return {"spec": sp, "at": ts, "tz": draw(st.sampled_from([None, None, 0, 120, -330, 345]))}


def build_cond(sp):
    from rocketry import conds
    api = getattr(conds, f"time_of_{sp['unit']}")
    s = sp["start"]["v"] if sp["start"] else None
    e = sp["end"]["v"] if sp["end"] else None
    how = sp["how"]
    if how == "full":
        return api
    if how == "between":
        return api.between(s, e)
    if how == "before":
        return api.before(e)
    if how == "after":
        return api.after(s)
    if how == "starting":
        return api.starting(s)
    return api.at(s)


def build_string(sp):
    "the string syntax exists for minute..month and for string end points"
    if sp["unit"] == "second" or sp["how"] not in ("between", "before", "after"):
        return None
    v = [sp[k]["v"] for k in ("start", "end") if sp[k] is not None]
    if not all(isinstance(x, str) for x in v):
        return None
    if any(" " in x and (x.endswith("M") or x.endswith("m")) for x in v):
        return None
    return f"time of {sp['unit']} {sp['how']} " + " and ".join(v)


def run_cond(c, ctx):
    from ..env import Env, ts
    from rocketry.parse import parse_condition
    sp = c["spec"]
    kind = rt.keys(sp)[0]
    ctx.label(sp["unit"], sp["how"], kind)
    ctx.nontrivial(kind != "full")
    tz = None if c["tz"] is None else dt.timezone(dt.timedelta(minutes=c["tz"]))
    with Env(timezone=tz) as env:
        conds = {"api": build_cond(sp)}
        text = build_string(sp)
        if text is not None:
            conds["string"] = parse_condition(text, session=env.session)
            ctx.label("string syntax")
        for s in c["at"]:
            t = dt.datetime.fromisoformat(s)
            env.clock.set(aware(t, c["tz"]) if tz else t)
            want = rt.member(sp, t)
            for name, cond in conds.items():
                got = cond.observe(session=env.session)
                check(bool(got) == want, lambda: f"at {s} (tz {c['tz']}) the {name} condition '{text if name == 'string' else rt.show(sp)}' "
                                           f"is {got}, expected {want}")


PARTS = [
    Part("membership", case, run, 20000, 400000, "period is not the whole cycle"),
    Part("condition", cond_case, run_cond, 5000, 100000, "period is not the whole cycle"),
]
