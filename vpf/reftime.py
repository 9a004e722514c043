"""Independent reference for fixed-cycle periods, written from the documentation.

A period specification is a JSON-able dict
    {"unit": "day", "how": "between|before|after|at|starting|full",
     "start": endpoint or None, "end": endpoint or None}
and an endpoint is
    {"v": value handed to rocketry, "u": index of a whole unit or None, "us": offset in microseconds}
The generator builds the *meaning* (u, us) first and renders it to the value
rocketry gets (v), so this module never parses anything.
    u  = whole-unit index in the cycle (0 based): hour of the day, weekday, month...
    us = microseconds from the beginning of unit u (0 when the unit is "bare")
"""
import calendar
import datetime as dt
from hypothesis import strategies as st

S = 1_000_000
M = 60 * S
H = 60 * M
D = 24 * H

UNIT_US = {"second": 1000, "minute": S, "hour": M, "day": H, "week": D, "month": D}
N_UNITS = {"second": 1000, "minute": 60, "hour": 60, "day": 24, "week": 7, "month": 31, "year": 12}
CYCLES = ["second", "minute", "hour", "day", "week", "month", "year"]
WEEKDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August",
          "September", "October", "November", "December"]


def ordinal(n):
    if 10 <= n % 100 <= 20:
        return f"{n}th"
    return f"{n}" + {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


# ------------------------------------------------------------------ meaning

def cycle_start(unit, t):
    if unit == "second":
        return t.replace(microsecond=0)
    if unit == "minute":
        return t.replace(second=0, microsecond=0)
    if unit == "hour":
        return t.replace(minute=0, second=0, microsecond=0)
    day = t.replace(hour=0, minute=0, second=0, microsecond=0)
    if unit == "day":
        return day
    if unit == "week":
        return day - dt.timedelta(days=t.weekday())
    if unit == "month":
        return day.replace(day=1)
    if unit == "year":
        return day.replace(month=1, day=1)
    raise ValueError(unit)


def next_cycle(unit, c):
    "start of the cycle after the one starting at c"
    fixed = {"second": dt.timedelta(seconds=1), "minute": dt.timedelta(minutes=1), "hour": dt.timedelta(hours=1),
             "day": dt.timedelta(days=1), "week": dt.timedelta(days=7)}
    if unit in fixed:
        return c + fixed[unit]
    if unit == "month":
        return c.replace(year=c.year + 1, month=1) if c.month == 12 else c.replace(month=c.month + 1)
    return c.replace(year=c.year + 1)


def prev_cycle(unit, c):
    if unit in ("month", "year"):
        return cycle_start(unit, c - dt.timedelta(days=1))
    return c - (next_cycle(unit, c) - c)


def micros(td):
    return (td.days * 86400 + td.seconds) * S + td.microseconds


def pos_key(unit, t):
    "totally ordered position of an instant in its cycle"
    if unit == "year":
        return (t.month - 1, micros(t - cycle_start("month", t)))
    return (0, micros(t - cycle_start(unit, t)))


def start_key(unit, e):
    if e is None:
        return (0, 0)
    if unit == "year":
        return (e["u"], e["us"])
    return (0, e["u"] * UNIT_US[unit] + e["us"])


def end_key(unit, e):
    if e is None:
        return (99, 0)
    if unit == "year":
        return (e["u"] + 1, 0) if e.get("bare") else (e["u"], e["us"])
    if e.get("bare"):
        return (0, (e["u"] + 1) * UNIT_US[unit])
    return (0, e["u"] * UNIT_US[unit] + e["us"])


TOP = {"second": S, "minute": M, "hour": H, "day": D, "week": 7 * D, "month": 31 * D}


def keys(spec):
    "(kind, start, end): kind is 'full', 'plain' or 'wrap'; 'full' also for start == end"
    unit, how = spec["unit"], spec["how"]
    if how == "full":
        return "full", (0, 0), (99, 0)
    if how == "starting":
        k = start_key(unit, spec["start"])
        return "full", k, k
    if how == "at":
        s = start_key(unit, spec["start"])
        if unit == "year":
            e = (spec["start"]["u"] + 1, 0)
        else:
            e = (0, s[1] + UNIT_US[unit])
            if e[1] > TOP[unit]:
                e = (0, e[1] - TOP[unit])
                return "wrap", s, e
        return "plain", s, e
    s = start_key(unit, spec["start"]) if how in ("between", "after") else (0, 0)
    e = end_key(unit, spec["end"]) if how in ("between", "before") else (99, 0)
    if s == e:
        return "full", s, e
    if s > e:
        if unit != "year" and e[1] == 0 and False:
            pass
        return "wrap", s, e
    if s == (0, 0) and (e == (99, 0) or (unit != "year" and e == (0, TOP[unit])) or (unit == "year" and e == (12, 0))):
        return "full", s, e
    return "plain", s, e


def member(spec, t):
    kind, s, e = keys(spec)
    if kind == "full":
        return True
    p = pos_key(spec["unit"], t)
    if kind == "plain":
        return s <= p < e
    return p >= s or p < e


def at_key(unit, c, key):
    "the instant of position `key` in the cycle starting at c (None if that cycle is too short to have it)"
    nxt = next_cycle(unit, c)
    if unit == "year":
        m, us = key
        if m >= 12:
            return nxt
        ms = c.replace(month=m + 1)
        t = ms + dt.timedelta(microseconds=us)
        if t >= next_cycle("month", ms):
            # e.g. Feb 29 in a common year
            return None
        return t
    if key[0] == 99:
        return nxt
    t = c + dt.timedelta(microseconds=key[1])
    if t > nxt:
        return None
    return t


# --------------------------------------------------------------- generators

def hms(us, frac=True):
    h, r = divmod(us, H)
    m, r = divmod(r, M)
    s, f = divmod(r, S)
    return h, m, s, f


def render_time(draw, us):
    h, m, s, f = hms(us)
    if f:
        return f"{h:02d}:{m:02d}:{s:02d}." + f"{f:06d}".rstrip("0")
    if s:
        return f"{h:02d}:{m:02d}:{s:02d}"
    forms = [f"{h:02d}:{m:02d}", f"{h:02d}:{m:02d}:{s:02d}"]
    h12 = 12 if h % 12 == 0 else h % 12
    ap = "AM" if h < 12 else "PM"
    forms.append(f"{h12}:{m:02d} {ap}")
    if m == 0:
        forms.append(f"{h12} {ap}")
    return draw(st.sampled_from(forms))


def time_us(max_us):
    "offset inside a unit, biased to round values and to the unit's edges"
    opts = [st.just(0), st.integers(0, max_us - 1), st.just(max_us - 1)]
    # fractions of a second with few decimals
    opts.append(st.tuples(st.integers(0, max(max_us // S - 1, 0)), st.sampled_from([100_000, 10_000, 1000, 10]), st.integers(1, 99))
                .map(lambda x: (x[0] * S + x[1] * x[2] % S) % max_us))
    if max_us > S:
        opts.append(st.integers(0, max_us // S - 1).map(lambda x: x * S))
    if max_us > M:
        opts.append(st.integers(0, max_us // M - 1).map(lambda x: x * M))
    if max_us > H:
        opts.append(st.integers(0, max_us // H - 1).map(lambda x: x * H))
    return st.one_of(*opts)


@st.composite
def endpoint(draw, unit, side):
    n = N_UNITS[unit]
    u = draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, 1, n // 2])))
    if unit == "second":
        form = draw(st.sampled_from(["int", "float", "str"]))
        if form == "int":
            return {"v": u, "u": u, "us": 0, "bare": True}
        us = 125 * draw(st.integers(0, 7))    # exactly representable fractions of a millisecond
        val = u + us / 1000
        return {"v": val if form == "float" else f"{u}.{us:03d}", "u": u, "us": us}
    if unit == "minute":
        form = draw(st.sampled_from(["int", "float", "str", "strf"]))
        if form == "int":
            return {"v": u, "u": u, "us": 0, "bare": True}
        if form == "str":
            return {"v": f"{u:02d}", "u": u, "us": 0}
        if form == "float":
            k = draw(st.integers(0, 7))      # exactly representable fractions
            return {"v": u + k / 8, "u": u, "us": k * 125000}
        us = draw(time_us(S))
        frac = f"{us:06d}".rstrip("0")
        return {"v": f"{u:02d}." + frac if frac else f"{u:02d}.0", "u": u, "us": us}
    if unit == "hour":
        form = draw(st.sampled_from(["int", "str", "strf", "dict"]))
        if form == "int":
            return {"v": u, "u": u, "us": 0, "bare": True}
        us = draw(time_us(M))
        if form == "dict":
            return {"v": {"minute": u, "second": us // S, "microsecond": us % S}, "u": u, "us": us}
        if form == "str":
            us -= us % S
            return {"v": f"{u:02d}:{us // S:02d}", "u": u, "us": us}
        frac = f"{us % S:06d}".rstrip("0") or "0"
        return {"v": f"{u:02d}:{us // S:02d}.{frac}", "u": u, "us": us}
    if unit == "day":
        form = draw(st.sampled_from(["int", "str", "str", "dict"]))
        if form == "int":
            return {"v": u, "u": u, "us": 0, "bare": True}
        us = draw(time_us(H))
        if form == "dict":
            h, m, s, f = hms(us)
            return {"v": {"hour": u, "minute": m, "second": s, "microsecond": f}, "u": u, "us": us}
        return {"v": render_time(draw, u * H + us), "u": u, "us": us}
    if unit in ("week", "month"):
        form = draw(st.sampled_from(["int", "name", "time"]))
        if form == "int":
            return {"v": u + 1, "u": u, "us": 0, "bare": True}
        if unit == "week":
            name = WEEKDAYS[u]
            name = draw(st.sampled_from([name, name[:3], name.lower(), name[:3].lower(), name.upper()]))
        else:
            name = draw(st.sampled_from([ordinal(u + 1), f"{u + 1}.", str(u + 1)]))
        if form == "name":
            return {"v": name, "u": u, "us": 0, "bare": True}
        us = draw(time_us(D))
        return {"v": f"{name} {render_time(draw, us)}", "u": u, "us": us}
    if unit == "year":
        form = draw(st.sampled_from(["int", "name", "name", "daytime"]))
        if form == "int":
            return {"v": u + 1, "u": u, "us": 0, "bare": True}
        name = MONTHS[u]
        name = draw(st.sampled_from([name, name[:3], name.lower(), name[:3].upper()]))
        if form == "name":
            return {"v": name, "u": u, "us": 0, "bare": True}
        day = draw(st.integers(1, calendar.monthrange(2023, u + 1)[1]))
        us = draw(time_us(D)) // 1000 * 1000
        return {"v": f"{name} {ordinal(day)} {render_time(draw, us)}", "u": u, "us": (day - 1) * D + us}
    raise ValueError(unit)


@st.composite
def spec(draw, units=None, hows=None):
    unit = draw(st.sampled_from(units or CYCLES))
    how = draw(st.sampled_from(hows or ["between", "between", "between", "before", "after", "at", "starting", "full"]))
    s = e = None
    if how in ("between", "after", "at", "starting"):
        s = draw(endpoint(unit, "start"))
        if how == "at" and unit == "year":
            u = s["u"]
            s = {"v": draw(st.sampled_from([u + 1, MONTHS[u], MONTHS[u][:3]])), "u": u, "us": 0, "bare": True}
    if how in ("between", "before"):
        e = draw(endpoint(unit, "end"))
        if how == "between" and draw(st.integers(0, 9)) == 0:
            e = dict(s)          # same value on both sides
    if how == "before" and end_key(unit, e) == (0, 0):
        how, e = "full", None    # "before 00:00" has the empty/full ambiguity
    return {"unit": unit, "how": how, "start": s, "end": e}


def show(sp):
    a = [repr(sp[k]["v"]) for k in ("start", "end") if sp[k] is not None]
    return f"time of {sp['unit']} {sp['how']} {' and '.join(a)}"


LO = dt.datetime(1995, 1, 1)
HI = dt.datetime(2045, 1, 1)
SPAN = micros(HI - LO)

NOTABLE_DAYS = ["2000-02-28", "2000-02-29", "2000-03-01", "2004-12-31", "2023-02-28", "2023-03-01", "2024-02-28",
                "2024-02-29", "2024-03-01", "2023-12-31", "2024-01-01", "2024-12-31", "2025-01-01", "2023-01-31",
                "2023-04-30", "2023-05-31", "2024-01-30", "2023-03-31", "2023-03-30", "2023-01-29", "2040-02-29",
                "2022-06-15", "2023-10-29", "2023-03-26"]


@st.composite
def instant(draw, specs=()):
    "an instant, biased to the edges of the given specifications in some cycle"
    kind = draw(st.sampled_from(["edge", "edge", "edge", "notable", "uniform"] if specs else ["notable", "uniform"]))
    base = LO + dt.timedelta(microseconds=draw(st.integers(0, SPAN)))
    if kind != "uniform" and draw(st.booleans()):
        d = dt.date.fromisoformat(draw(st.sampled_from(NOTABLE_DAYS)))
        base = dt.datetime.combine(d, draw(st.sampled_from([dt.time(0), dt.time(12), base.time(), dt.time(23, 59, 59, 999999)])))
    if kind == "edge":
        sp = draw(st.sampled_from(list(specs)))
        _, s, e = keys(sp)
        k = draw(st.sampled_from([s, e, (0, 0), (99, 0)]))
        unit = sp["unit"]
        if unit == "year" and k[0] == 99:
            k = (12, 0)
        t = at_key(unit, cycle_start(unit, base), k)
        if t is None:
            t = next_cycle(unit, cycle_start(unit, base))
        base = t
    delta = draw(st.sampled_from([0, 0, 0, 1, -1, 2, -2, S, -S, M, -M, H, -H, D, -D, 2 * D, -2 * D]))
    t = base + dt.timedelta(microseconds=delta)
    return t.isoformat()


def make(sp):
    "the rocketry period of a specification"
    from rocketry import time as rt
    cls = {"second": rt.TimeOfSecond, "minute": rt.TimeOfMinute, "hour": rt.TimeOfHour, "day": rt.TimeOfDay,
           "week": rt.TimeOfWeek, "month": rt.TimeOfMonth, "year": rt.TimeOfYear}[sp["unit"]]
    s = sp["start"]["v"] if sp["start"] else None
    e = sp["end"]["v"] if sp["end"] else None
    how = sp["how"]
    if how == "full":
        return cls()
    if how == "at":
        return cls.at(s)
    if how == "starting":
        return cls.starting(s)
    return cls(s, e)
