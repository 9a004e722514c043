import datetime as dt
from hypothesis import strategies as st

from ..core import Part, check
from .. import reftime as rt

RULE = ("Cases are cron expressions over all field syntaxes (any value, values, names, ranges, steps, lists) with instants around "
        "matching minutes, month ends and leap days, or schedules of clock readings. Non-trivial: at least two fields are restricted "
        "(or, in schedules, some readings match and some do not).")
ASSUMPTIONS = [
    "when day of month and day of week are both restricted neither is a bare step over '*' (implementations of cron disagree)",
    "'value/step' without a range is not generated (an extension that is not part of the cron specification)",
    "schedules read the clock at least 1 ms after the beginning of a minute",
    "next/previous times are asked only when one exists within 13 months",
]

FIELDS = ["minute", "hour", "day_of_month", "month", "day_of_week"]
LO = {"minute": 0, "hour": 0, "day_of_month": 1, "month": 1, "day_of_week": 0}
HI = {"minute": 59, "hour": 23, "day_of_month": 31, "month": 12, "day_of_week": 7}
DOW = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MON = [None, "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


@st.composite
def item(draw, field, allow_star_step=True):
    "(text, values): one element of a field's list, with its meaning"
    lo, hi = LO[field], HI[field]

    def pick(v):
        if field == "day_of_week" and draw(st.booleans()):
            n = DOW[v]
            return draw(st.sampled_from([n, n.upper(), n.lower()]))
        if field == "month" and draw(st.booleans()):
            n = MON[v]
            return draw(st.sampled_from([n, n.upper(), n.lower()]))
        return str(v)
    name = pick
    kind = draw(st.sampled_from(["value", "value", "range", "rangestep", "starstep"] if allow_star_step else ["value", "value", "range", "rangestep"]))
    if kind == "value":
        v = draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi])))
        return name(v), [v]
    if kind == "starstep":
        n = draw(st.one_of(st.integers(1, hi - lo + 1), st.sampled_from([2, 3, 5, 7, 10, 15])))
        n = min(n, hi - lo + 1)
        top = 6 if field == "day_of_week" else hi
        return f"*/{n}", list(range(lo, top + 1, n))
    a, b = sorted((draw(st.integers(lo, hi)), draw(st.integers(lo, hi))))
    if field == "day_of_week" and a == 0 and b in (0, 7):
        name = str       # Sunday to Sunday: the names do not say which
    if kind == "range":
        return f"{name(a)}-{name(b)}", list(range(a, b + 1))
    n = draw(st.one_of(st.integers(1, hi - lo), st.sampled_from([2, 3, 5])))
    return f"{name(a)}-{name(b)}/{n}", list(range(a, b + 1, n))


@st.composite
def field(draw, name, free=None, allow_star_step=True):
    k = draw(st.integers(0, 9))
    if free if free is not None else k < 4:
        return {"text": "*", "values": None}
    n = 1 if k < 8 else draw(st.integers(2, 4))
    parts = [draw(item(name, allow_star_step)) for _ in range(n)]
    return {"text": ",".join(p[0] for p in parts), "values": sorted({v for p in parts for v in p[1]})}


@st.composite
def expr(draw):
    out = {f: draw(field(f)) for f in ("minute", "hour", "month")}
    both = draw(st.integers(0, 3)) == 0
    if both:
        out["day_of_month"] = draw(field("day_of_month", free=False, allow_star_step=False))
        out["day_of_week"] = draw(field("day_of_week", free=False, allow_star_step=False))
    else:
        which = draw(st.sampled_from(["day_of_month", "day_of_week"]))
        other = "day_of_week" if which == "day_of_month" else "day_of_month"
        out[which] = draw(field(which))
        out[other] = {"text": "*", "values": None}
    return {f: out[f] for f in FIELDS}


def day_matches(x, d):
    dom, dow = x["day_of_month"]["values"], x["day_of_week"]["values"]
    in_dom = dom is None or d.day in dom
    wd = d.isoweekday() % 7
    in_dow = dow is None or wd in dow or (wd == 0 and 7 in dow)
    month = x["month"]["values"] is None or d.month in x["month"]["values"]
    if dom is not None and dow is not None:
        return month and (in_dom or in_dow)
    return month and in_dom and in_dow


def matches(x, t):
    return ((x["minute"]["values"] is None or t.minute in x["minute"]["values"])
            and (x["hour"]["values"] is None or t.hour in x["hour"]["values"])
            and day_matches(x, t))


def next_minute(x, t, direction):
    "first matching minute strictly after (direction 1) or before the minute of t, within 400 days"
    m = t.replace(second=0, microsecond=0)
    mins = x["minute"]["values"] if x["minute"]["values"] is not None else range(60)
    hours = x["hour"]["values"] if x["hour"]["values"] is not None else range(24)
    slots = sorted((h, mi) for h in hours for mi in mins)
    if direction < 0:
        slots.reverse()
    day = m.replace(hour=0, minute=0)
    for _ in range(400):
        if day_matches(x, day):
            for h, mi in slots:
                q = day.replace(hour=h, minute=mi)
                if (q > m if direction > 0 else q < m):
                    return q
        day += dt.timedelta(days=direction)
    return None


@st.composite
def instants(draw, x, n):
    out = []
    for _ in range(n):
        t = dt.datetime.fromisoformat(draw(rt.instant()))
        k = draw(st.integers(0, 3))
        if k:
            q = next_minute(x, t, 1 if k != 3 else -1)
            if q is not None:
                t = q + dt.timedelta(microseconds=draw(st.sampled_from([0, 0, 1000, -1000, 30_000_000, 59_999_000, 60_000_000, -60_000_000, 3_600_000_000, 86_400_000_000])))
        t = t.replace(microsecond=t.microsecond // 1000 * 1000)   # see the known finding of C01
        out.append(t.isoformat())
    return out


@st.composite
def case(draw):
    x = draw(expr())
    return {"x": x, "at": draw(instants(x, draw(st.integers(2, 5))))}


def text(x):
    return " ".join(x[f]["text"] for f in FIELDS)


def restricted(x):
    return sum(x[f]["values"] is not None for f in FIELDS)


def run(c, ctx):
    from rocketry.time import Cron
    from rocketry.conds import crontime
    from ..env import Env
    x = c["x"]
    s = text(x)
    periods = [Cron(*s.split(" ")), Cron(**{f: x[f]["text"] for f in FIELDS})]
    ctx.label(f"{restricted(x)} restricted", "both day fields" if x["day_of_month"]["values"] and x["day_of_week"]["values"] else "one day field")
    ctx.nontrivial(restricted(x) >= 2)
    with Env() as env:
        conds = [crontime(s), crontime(**{f: x[f]["text"] for f in FIELDS})]
        for txt in c["at"]:
            t = dt.datetime.fromisoformat(txt)
            want = matches(x, t)
            ctx.label("match" if want else "no match")
            for p in periods:
                got = t in p
                check(got == want, lambda: f"{t} in cron '{s}' is {got}, expected {want}")
            env.clock.set(t)
            for k in conds:
                got = bool(k.observe(session=env.session))
                check(got == want, lambda: f"at {t} condition crontime('{s}') is {got}, expected {want}")


def run_next(c, ctx):
    from rocketry.time import Cron
    x = c["x"]
    s = text(x)
    p = Cron(*s.split(" "))
    ctx.label(f"{restricted(x)} restricted")
    ctx.nontrivial(restricted(x) >= 2)
    for txt in c["at"]:
        t = dt.datetime.fromisoformat(txt)
        here = matches(x, t)
        m = t.replace(second=0, microsecond=0)
        q = next_minute(x, t, 1)
        if here or q is not None:
            iv = p.rollforward(t)
            want = t if here else q
            check(iv.left == want, lambda: f"next of cron '{s}' from {t} is {iv}, expected to start at {want}")
            # an occurrence is one matching minute (adjoining ones may not be merged: each is a run of its own)
            end = (m if here else q) + dt.timedelta(minutes=1)
            check(end - dt.timedelta(microseconds=1) <= iv.right <= end, lambda: f"next of cron '{s}' from {t} is {iv}, expected to end at {end}")
        q = next_minute(x, t, -1)
        if t != m and here:
            iv = p.rollback(t)
            check((iv.left, iv.right) == (m, t), lambda: f"previous of cron '{s}' from {t} is {iv}, expected [{m}, {t}]")
        elif not here and q is not None:
            iv = p.rollback(t)
            check(iv.left == q and q < iv.right <= q + dt.timedelta(minutes=1) and iv.right >= q + dt.timedelta(seconds=59),
                  lambda: f"previous of cron '{s}' from {t} is {iv}, expected the minute {q}")


# ------------------------------------------------------- schedules

@st.composite
def sched_case(draw):
    x = draw(expr())
    start = dt.datetime.fromisoformat(draw(instants(x, 1))[0])
    if start.microsecond % 1000:
        start = start.replace(microsecond=0)
    steps = draw(st.lists(st.sampled_from([0.25, 1, 7, 20, 30, 59, 60, 61, 61, 300, 3600, 86400, "next", "next", "next", "edge"]), min_size=3, max_size=14))
    fails = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    return {"x": x, "start": start.isoformat(), "steps": steps, "kw": draw(st.booleans()), "fails": fails}


def run_sched(c, ctx):
    from rocketry.conds import cron
    from ..env import Env, ts
    from ..sim import Sim
    x = c["x"]
    s = text(x)
    # clock readings
    t = dt.datetime.fromisoformat(c["start"])
    reads = [t]
    for step in c["steps"]:
        if step in ("next", "edge"):
            q = next_minute(x, t, 1)
            if q is None:
                continue
            t = q + dt.timedelta(milliseconds=1) if step == "next" else q + dt.timedelta(seconds=59, microseconds=999000)
        else:
            t = t + dt.timedelta(seconds=step)
        if t.second == 0 and t.microsecond == 0:
            t += dt.timedelta(milliseconds=1)
        reads.append(t)
    ran = []
    with Env() as env:
        cond = cron(**{f: x[f]["text"] for f in FIELDS}) if c["kw"] else cron(s)
        env.clock.set(reads[0])

        def func():
            ran.append(env.clock())
            if c["fails"][len(ran) % len(c["fails"])]:
                raise RuntimeError("task fails")
        env.session.create_task(func=func, name="task", start_cond=cond, execution="main")
        Sim(env, len(reads), before=lambda i: env.clock.set(reads[i - 1])).run_ok()
    want, last = [], None
    for t in reads:
        m = t.replace(second=0, microsecond=0)
        if matches(x, t) and m != last:
            want.append(ts(t))
            last = m
    ctx.nontrivial(0 < len(want) < len(reads))
    ctx.label("runs: " + ("0" if not want else "1" if len(want) == 1 else "2+"))
    check(ran == want, lambda: f"cron '{s}' at clock readings {[str(r) for r in reads]} ran at "
                               f"{[str(dt.datetime.utcfromtimestamp(r)) for r in ran]}, expected {[str(dt.datetime.utcfromtimestamp(r)) for r in want]}")


PARTS = [
    Part("match", case, run, 4000, 80000, "at least two fields are restricted"),
    Part("next", case, run_next, 4000, 80000, "at least two fields are restricted"),
    Part("schedule", sched_case, run_sched, 1200, 24000, "some clock readings lead to a run and some do not"),
]
