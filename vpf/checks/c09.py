"""C09: once per period, end to end on a simulated clock."""
import datetime as dt

from hypothesis import strategies as st

from ..core import Part, check
from ..hist import histories, play
from .. import reftime as rt
from .c01 import build_string

RULE = "the history has cycles in which the task has to run and cycles in which it must not"
ASSUMPTIONS = ["clock readings and finishes within 0.5 ms of an edge of the period are not judged",
               "days of the month up to the 28th in month periods (which occurrence a shorter month belongs to is not specified)"]

WORD = {"second": "secondly", "minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}
EPS = dt.timedelta(microseconds=450)
EPOCH = dt.datetime(1970, 1, 1)


def build(sp, how):
    from rocketry import conds
    if how == "string":
        text = build_string({**sp, "how": sp["how"] if sp["how"] in ("between", "before", "after") else "between"}) if sp["how"] != "full" else ""
        if sp["unit"] == "second" and sp["how"] != "full":
            text = None
        if text is not None:
            word = WORD[sp["unit"]]
            v = [sp[k]["v"] for k in ("start", "end") if sp[k] is not None]
            if sp["how"] == "full":
                return word
            return f"{word} {'on' if sp['how'] == 'at' else sp['how']} " + " and ".join(v)
    api = getattr(conds, WORD[sp["unit"]])
    s = sp["start"]["v"] if sp["start"] else None
    e = sp["end"]["v"] if sp["end"] else None
    h = sp["how"]
    if h == "full":
        return api
    if h == "between":
        return api.between(s, e)
    if h in ("before", "after", "starting"):
        return getattr(api, h)(e if h == "before" else s)
    return api.on(s) if how == "string" else api.at(s)


def edges(sp, t, back=2, fwd=3):
    """occurrences around t as a sorted list of (start, end) (end exclusive)"""
    unit = sp["unit"]
    kind, s, e = rt.keys(sp)
    c = rt.cycle_start(unit, t)
    for _ in range(back):
        c = rt.prev_cycle(unit, c)
    out = []
    for _ in range(back + 1 + fwd):
        n = rt.next_cycle(unit, c)
        n2 = rt.next_cycle(unit, n)

        def at(key, a, b):
            return b if key[0] == 99 else min(a + dt.timedelta(microseconds=key[1]), b)
        if kind == "full":
            if sp["how"] == "full" or s[1] == 0:
                out.append((c, n))
            else:
                out.append((at(s, c, n), at(s, n, n2)))
        elif kind == "plain":
            out.append((at(s, c, n), at(e, c, n)))
        else:
            out.append((at(s, c, n), at(e, n, n2)))
        c = n
    return [(a, b) for a, b in out if a < b]


def occurrence(sp, t):
    "'out', None (too close to an edge to say) or the start of the occurrence t is in"
    occ = edges(sp, t)
    for a, b in occ:
        if abs(a - t) < EPS or abs(b - t) < EPS:
            return None
    kind = rt.keys(sp)[0]
    for i, (a, b) in enumerate(occ):
        if a <= t < b:
            if kind != "full" and i and occ[i - 1][1] == a:
                return None        # adjoining occurrences of a partial period
            return a
    return "out"


def clamp_days(sp):
    "days of the month up to the 28th"
    if sp["unit"] == "month":
        for k in ("start", "end"):
            e = sp[k]
            if e is not None and e["u"] > 27:
                d = e["u"] - 20
                v = e["v"]
                old, new = e["u"] + 1, d + 1
                if isinstance(v, int):
                    v = new
                else:
                    head, _, tail = v.partition(" ")
                    head = rt.ordinal(new) if head.endswith(("st", "nd", "rd", "th")) else f"{new}." if head.endswith(".") else str(new)
                    v = f"{head} {tail}" if tail else head
                sp = {**sp, k: {**e, "v": v, "u": d}}
    return sp


@st.composite
def case(draw):
    sp = draw(rt.spec(units=list(WORD)))
    sp = clamp_days(sp)
    steps = st.one_of(
        st.sampled_from([["start", 0.001], ["start", 0.001], ["start", -0.001], ["start", 0.4], ["end", -0.001], ["end", 0.001], ["end", -0.4], ["in", 0.3], ["in", 0.7]]),
        st.sampled_from([0, 0.001, 0.3, 20, 600, 5000, 90000, 90000 * 7]))
    h = draw(histories(steps))
    start = draw(rt.instant([sp]))
    return {"spec": sp, "surface": draw(st.sampled_from(["api", "api", "string"])), "h": h, "start": start,
            "retries": draw(st.sampled_from([None, None, None, None, 0, 1, 2, 3]))}


def run(c, ctx):
    from rocketry.conditions import TaskExecutable
    sp, tzm = c["spec"], c["h"]["tz"] or 0
    shift = dt.timedelta(minutes=tzm)

    def local(x):
        # whole microseconds
        return EPOCH + dt.timedelta(microseconds=round(x * 1e6)) + shift

    def back(t):
        return (t - shift - EPOCH) / dt.timedelta(seconds=1)
    retries = c["retries"]

    def make(env):
        if retries is not None:
            return TaskExecutable(retries=retries, period=rt.make(sp))
        return build(sp, c["surface"])

    def due(now, log):
        t = local(now)
        a = occurrence(sp, t)
        if a is None:
            return None
        if a == "out":
            return False
        fails = others = 0
        for kind, x in log.events:
            if kind == "start":
                continue
            d = local(x) - a
            if abs(d) < EPS:
                return None
            if d > dt.timedelta(0):
                if kind == "fail":
                    fails += 1
                else:
                    others += 1
        return others == 0 and fails <= (retries or 0)

    def resolve(step, now, log):
        if isinstance(step, list):
            kind, x = step
            t = local(now)
            occ = [(a, b) for a, b in edges(sp, t)]
            x_ = dt.timedelta(seconds=x)
            if kind == "start":
                nxt = [a for a, b in occ if a + x_ > t]
                return back(min(nxt) + x_) if nxt else None
            if kind == "end":
                nxt = [b for a, b in occ if b + x_ > t]
                return back(min(nxt) + x_) if nxt else None
            nxt = [a + (b - a) * x for a, b in occ if a + (b - a) * x > t]
            return back(min(nxt)) if nxt else None
        return now + step

    def adjust(now, log):
        t = local(now)
        for a, b in edges(sp, t):
            for e in (a, b):
                if abs(t - e) < EPS:
                    return back(e + dt.timedelta(milliseconds=1))
        return None
    start = dt.datetime.fromisoformat(c["start"]) - shift
    start = start.replace(microsecond=start.microsecond // 1000 * 1000)
    ran, skipped, log = play(c["h"], start.isoformat(), make, due, resolve, ctx,
                             f"{WORD[sp['unit']]} task, {rt.show(sp)}" + (f", {retries} retries" if retries is not None else f" ({c['surface']})"), adjust=adjust)
    ctx.label(sp["unit"], sp["how"], rt.keys(sp)[0])
    ctx.nontrivial(ran and skipped)


PARTS = [Part("schedule", case, run, 5000, 100000, RULE)]
