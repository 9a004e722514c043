import datetime as dt
from hypothesis import strategies as st

from ..core import Part, check, Violation
from .. import reftime as rt

RULE = ("Cases are (period specification, instant, direction); instants are drawn around the period's edges, month ends, "
        "leap days and year ends. Non-trivial: the period is not the whole cycle, or the instant lies on an edge.")
ASSUMPTIONS = ["naive and fixed-offset aware datetimes; instants 1995-2045",
               "ends of year periods are compared with a tolerance of one microsecond (known finding of C01)"]

US = dt.timedelta(microseconds=1)


@st.composite
def case(draw):
    sp = draw(rt.spec())
    ts = draw(st.lists(rt.instant([sp]), min_size=2, max_size=4))
    return {"spec": sp, "at": ts, "tz": draw(st.sampled_from([None, None, None, 0, 120, -330]))}


def pieces(sp, t, back=4, fwd=4):
    """Maximal runs of member instants around t as [start, end) pairs, in order.
    Cycles too short to contain an edge are cut at the cycle's end."""
    unit = sp["unit"]
    kind, s, e = rt.keys(sp)
    c = rt.cycle_start(unit, t)
    for _ in range(back):
        c = rt.prev_cycle(unit, c)
    out = []
    for _ in range(back + 1 + fwd):
        n = rt.next_cycle(unit, c)

        def at(key):
            if unit == "year":
                x = rt.at_key(unit, c, key)
                if x is None:     # a position the month does not have: its end
                    x = rt.next_cycle("month", c.replace(month=key[0] + 1))
                return x
            if key[0] == 99:
                return n
            return min(c + dt.timedelta(microseconds=key[1]), n)
        a, b = at(s), at(e)
        segs = [(a, b)] if kind == "plain" else [(c, b), (a, n)]
        for x, y in segs:
            if x < y:
                if out and out[-1][1] == x:
                    out[-1] = (out[-1][0], y)
                else:
                    out.append((x, y))
        c = n
    return out


def boundaries(sp, t):
    "cycle boundaries of a whole-cycle period around t (None: some cycle is too short to have it)"
    unit = sp["unit"]
    _, s, e = rt.keys(sp)
    if sp["how"] == "full" or s == (0, 0):
        s = (0, 0)
    c = rt.cycle_start(unit, t)
    for _ in range(2):
        c = rt.prev_cycle(unit, c)
    out = []
    for _ in range(5):
        b = rt.at_key(unit, c, s)
        if b is None or b >= rt.next_cycle(unit, c):
            return None
        out.append(b)
        c = rt.next_cycle(unit, c)
    return out


def run(c, ctx):
    sp = c["spec"]
    kind, s, e = rt.keys(sp)
    tz = c["tz"]
    tzi = None if tz is None else dt.timezone(dt.timedelta(minutes=tz))
    month_end = sp["unit"] == "year" and (sp["how"] == "at" or (sp["end"] is not None and bool(sp["end"].get("bare"))))
    tol = US if month_end else dt.timedelta(0)
    p = rt.make(sp)
    ctx.label(sp["unit"], sp["how"], kind)
    ctx.nontrivial(kind != "full")
    for txt in c["at"]:
        t = dt.datetime.fromisoformat(txt)
        if month_end and (t + US).day != t.day and (t + US).day == 1:
            continue        # known finding of C01: the month's last microsecond
        arg = t if tz is None else t.replace(tzinfo=tzi)

        def norm(x):
            check(x.tzinfo == tzi, lambda: f"{rt.show(sp)} rolled from {arg!r} gave {x!r}: time zone changed")
            return x.replace(tzinfo=None)
        f = p.rollforward(arg)
        b = p.rollback(arg)
        fl, fr, bl, br = norm(f.left), norm(f.right), norm(b.left), norm(b.right)

        def fail(what, iv):
            return f"{what} of '{rt.show(sp)}' from {txt} is [{iv.left}, {iv.right}] ({iv.closed})"
        if kind == "full":
            ctx.label("on edge" if t in (boundaries(sp, t) or ()) else "inside")
            year_quirk = sp["unit"] == "year" and sp["how"] in ("between", "before")
            if year_quirk:
                continue
            check(fl == t and fr > t, lambda: fail("next occurrence", f) + ": must start at once")
            check(br == t and bl < t, lambda: fail("previous occurrence", b) + ": must end at the instant")
            bs = boundaries(sp, t)
            if bs is not None:
                nxt = min(x for x in bs if x > t)
                prv = max(x for x in bs if x < t)
                at_or = max(x for x in bs if x <= t)
                check(fr == nxt, lambda: fail("next occurrence", f) + f": the cycle ends at {nxt}")
                check(bl in (prv, at_or), lambda: fail("previous occurrence", b) + f": the cycle began at {prv}")
            continue
        ps = pieces(sp, t)
        # forward: the rest of the run t is in, or the whole of the first run after t
        x, y = next((x, y) for x, y in ps if y - tol > t)
        if x <= t:
            x = t
            ctx.label("inside")
        else:
            ctx.label("outside")
        cut = {y}
        if sp["unit"] == "month" or sp["unit"] == "year":
            # a run may be reported per cycle when it continues over the cycle's end
            n = rt.next_cycle(sp["unit"], rt.cycle_start(sp["unit"], x))
            while x < n < y:
                cut.add(n)
                n = rt.next_cycle(sp["unit"], n)
        ok = fl == x and any(abs(fr - z) <= tol for z in cut)
        check(ok, lambda: fail("next occurrence", f) + f"; expected [{x}, {y})")
        # backward
        x, y = [(x, y) for x, y in ps if x <= t][-1]
        if t < y - tol:
            y = t
        starts = {x}
        if sp["unit"] in ("month", "year"):
            cyc = rt.cycle_start(sp["unit"], y)
            if y == t and cyc == t:
                starts.add(t)
            cyc = rt.cycle_start(sp["unit"], y - US)
            while cyc > x:
                starts.add(cyc)
                cyc = rt.prev_cycle(sp["unit"], cyc)
        ok = bl in starts and abs(br - y) <= tol
        check(ok, lambda: fail("previous occurrence", b) + f"; expected [{x}, {y}]")
        if y == t and x == t:
            check(t in b.__class__(bl, br, closed=b.closed), lambda: fail("previous occurrence", b) + ": must contain the instant it starts with")


PARTS = [Part("roll", case, run, 16000, 300000, "period is not the whole cycle")]
