import datetime as dt
from hypothesis import strategies as st

from ..core import Part, check, Violation
from .. import reftime as rt

RULE = ("Cases are expressions over fixed-cycle, static, always and never periods built with the and/or operators, with "
        "instants drawn around the edges of the operands. Non-trivial: the expression has at least two operands that are "
        "not always/never and, for occurrences, one exists in the explored horizon.")
ASSUMPTIONS = ["operands' end points are whole milliseconds",
               "looking backwards, ends of occurrences are compared with a tolerance of 4 microseconds, as are the last ones before an edge that is asked for",
               "occurrences of a combination need not be maximal: adjoining ones, and later ones of the same operand, may be reported separately",
               "occurrences are demanded only when a member instant exists among the operands' next 130 cycles and at most 60 of its shortest cycles away, "
               "for the expression and for every conjunction in it (asking for the next occurrence of a combination that has none is outside the property)"]

US = dt.timedelta(microseconds=1)


def aware(t, tz):
    return t if tz is None else t.replace(tzinfo=dt.timezone(dt.timedelta(minutes=tz)))


@st.composite
def leaf(draw):
    k = draw(st.integers(0, 11))
    if k == 0:
        return {"op": "always"}
    if k == 1:
        return {"op": "never"}
    if k in (2, 3):
        a = rt.LO + dt.timedelta(microseconds=draw(st.integers(0, rt.SPAN)))
        if draw(st.booleans()):
            a = dt.datetime.fromisoformat(draw(st.sampled_from(rt.NOTABLE_DAYS)))
        b = a + draw(st.sampled_from([dt.timedelta(hours=5), dt.timedelta(days=1), dt.timedelta(days=40), dt.timedelta(days=800)]))
        return {"op": "static", "start": draw(st.sampled_from([a.isoformat(), a.isoformat(), None])), "end": b.isoformat()}
    # units of neighbouring sizes, so that combinations are often non-empty
    units = draw(st.sampled_from([["hour", "day"], ["day", "week"], ["day", "week", "month"], ["minute", "hour"], ["week", "month", "year"], ["day"]]))
    return {"op": "spec", "spec": draw(rt.spec(units=units, hows=["between", "between", "before", "after", "at", "full", "starting"]).filter(coarse))}


def coarse(sp):
    return all(sp[k] is None or sp[k]["us"] % 1000 == 0 for k in ("start", "end"))


def tree(depth=3):
    return st.recursive(leaf(), lambda sub: st.builds(
        lambda op, items: {"op": op, "items": items},
        st.sampled_from(["and", "or", "All", "Any"]), st.lists(sub, min_size=2, max_size=3)), max_leaves=5)


def leaves(x):
    if "items" in x:
        return [l for i in x["items"] for l in leaves(i)]
    return [x]


@st.composite
def case(draw):
    x = draw(tree().filter(lambda t: "items" in t))
    ls = leaves(x)
    specs = [l["spec"] for l in ls if l["op"] == "spec"]
    ts = []
    for _ in range(draw(st.integers(2, 4))):
        statics = [l[k] for l in ls if l["op"] == "static" for k in ("start", "end") if l[k]]
        if statics and draw(st.booleans()):
            t = dt.datetime.fromisoformat(draw(st.sampled_from(statics)))
            t += draw(st.sampled_from([dt.timedelta(0), US, -US, dt.timedelta(hours=3), -dt.timedelta(hours=3), dt.timedelta(days=-9)]))
            ts.append(t.isoformat())
        else:
            ts.append(draw(rt.instant(specs)))
    return {"x": x, "at": ts, "tz": draw(st.sampled_from([None, None, None, 0, 120, -330]))}


def build(x, memo):
    from rocketry.time import always, never
    from rocketry.core.time.base import All, Any, StaticInterval
    op = x["op"]
    if op == "always":
        return always
    if op == "never":
        return never
    if op == "static":
        return StaticInterval(*(dt.datetime.fromisoformat(x[k]) if x[k] else None for k in ("start", "end")))
    if op == "spec":
        return rt.make(x["spec"])
    items = [build(i, memo) for i in x["items"]]
    if op in ("All", "Any") and not all(i is always for i in items):
        return (All if op == "All" else Any)(*items)
    out = items[0]
    for i in items[1:]:
        out = out & i if op in ("and", "All") else out | i
    return out


def leaf_member(l, t, p):
    "t naive, p the rocketry period of the leaf"
    op = l["op"]
    if op == "always":
        return True
    if op == "never":
        return False
    if op == "static":
        # compared as instants: naive bounds are in the system's zone (UTC here)
        s = dt.datetime.fromisoformat(l["start"]) if l["start"] else dt.datetime.min
        e = dt.datetime.fromisoformat(l["end"]) if l["end"] else dt.datetime.max
        u = t if t.tzinfo is None else t.astimezone(dt.timezone.utc).replace(tzinfo=None)
        return s <= u < e
    return t in p


def member(x, t):
    if "items" in x:
        f = all if x["op"] in ("and", "All") else any
        return f(member(i, t) for i in x["items"])
    if x["op"] == "spec":
        if "_p" not in x:
            x["_p"] = rt.make(x["spec"])
        return t in x["_p"]
    return leaf_member(x, t, None)


def edges(ls, t, direction, limit):
    "edges of the operands after (direction=1) or before t (t naive or aware), nearest first within each operand"
    out = []
    for l in ls:
        if l["op"] == "static":
            for k in ("start", "end"):
                if l[k]:
                    e = dt.datetime.fromisoformat(l[k])
                    if t.tzinfo is not None:
                        e = e.replace(tzinfo=dt.timezone.utc).astimezone(t.tzinfo)
                    out.append(e)
        elif l["op"] == "spec":
            sp = l["spec"]
            unit = sp["unit"]
            _, s, e = rt.keys(sp)
            c = rt.cycle_start(unit, t)
            if direction > 0:
                c = rt.prev_cycle(unit, c)
            else:
                c = rt.next_cycle(unit, c)
            for _ in range(limit):
                for k in (s, e, (0, 0)):
                    if unit == "year" and k[0] == 99:
                        k = (12, 0)
                    p = rt.at_key(unit, c, k)
                    if p is not None:
                        out.append(p)
                c = rt.next_cycle(unit, c) if direction > 0 else rt.prev_cycle(unit, c)
    pts = set()
    for e in out:
        pts.update((e, e - US))
    return sorted(p for p in pts if (p > t if direction > 0 else p < t))


def conj(x):
    "the conjunctions inside an expression, outermost first"
    out = [x] if x["op"] in ("and", "All") else []
    return out + [n for i in x.get("items", ()) for n in conj(i)]


CYCLE_S = {"minute": 60, "hour": 3600, "day": 86400, "week": 7 * 86400, "month": 28 * 86400, "year": 365 * 86400}


def near(n, t, pts):
    "whether the conjunction has a member among pts, not too many cycles of its operands away"
    first = next((q for q in pts if member(n, q)), None)
    if first is None:
        return False
    shortest = min([CYCLE_S[l["spec"]["unit"]] for l in leaves(n) if l["op"] == "spec"], default=None)
    return shortest is None or abs((first - t).total_seconds()) < 60 * shortest


def strip(x):
    x.pop("_p", None)
    for i in x.get("items", ()):
        strip(i)


def run(c, ctx):
    import json
    x = json.loads(json.dumps(c["x"]))
    p = build(x, {})
    ls = leaves(x)
    real = [l for l in ls if l["op"] in ("spec", "static")]
    ctx.label(x["op"], f"{len(ls)} operands")
    for txt in c["at"]:
        t = aware(dt.datetime.fromisoformat(txt), c["tz"])
        want = member(x, t)
        got = t in p
        check(got == want, lambda: f"{t} in {p!r} is {got}, the combination of its operands is {want}")
        ctx.label("in" if want else "out")
        ctx.nontrivial(len(real) >= 2)
    strip(x)


def run_roll(c, ctx):
    import json
    x = json.loads(json.dumps(c["x"]))
    p = build(x, {})
    ls = leaves(x)
    real = [l for l in ls if l["op"] in ("spec", "static")]
    for txt in c["at"]:
        t = aware(dt.datetime.fromisoformat(txt), c["tz"])
        for direction in (1, -1):
            pts = edges(real, t, direction, 130)
            if direction < 0:
                pts.reverse()
            cand = [t] + pts
            first = next((q for q in cand if member(x, q)), None)
            name = "next" if direction > 0 else "previous"
            if first is None or not all(near(n, t, cand if direction > 0 else pts) for n in conj(x)):
                ctx.label(f"{name}: none in horizon")
                continue
            if direction > 0:
                iv = p.rollforward(t)
            else:
                iv = p.rollback(t)
            l, r = iv.left, iv.right

            def text():
                return f"{name} occurrence of {p!r} from {t} is [{l}, {r}] ({iv.closed})"
            check(l <= r, lambda: text() + ": reversed")
            check((l.tzinfo, r.tzinfo) == (t.tzinfo, t.tzinfo), lambda: text() + ": time zone changed")
            # everything inside belongs to the combination
            inner = [l, l + (r - l) / 2, r - US] if r > l else ([l] if iv.closed == "both" else [])
            inner += [q for q in edges(real, l - US, 1, 40) if l <= q < r]
            for q in inner:
                check(member(x, q), lambda: text() + f": {q} does not belong to the combination")
            if direction > 0:
                # nothing is skipped
                check(l < r, lambda: text() + ": empty")
                check(l >= t, lambda: text() + ": starts before the instant asked for")
                for q in cand:
                    if q >= l:
                        break
                    check(not member(x, q), lambda: text() + f": skips {q}")
            else:
                check(r <= t, lambda: text() + ": ends after the instant asked for")
                on_edge = t in edges(real, t - US, 1, 4)
                for q in pts if on_edge else cand:
                    if q < r + 4 * US and q < t or (q == r and q == t and r > l):
                        break
                    if on_edge and q > t - 4 * US:
                        continue      # (the tolerance: what there is of an occurrence that began just now)
                    check(not member(x, q), lambda: text() + f": skips {q}")
            ctx.label(f"{name}: " + ("at once" if first == t else "later"))
            ctx.nontrivial(len(real) >= 2)
    strip(x)


# ------------------------------------------------ windows that continue each other

@st.composite
def chain_case(draw):
    unit = draw(st.sampled_from(["hour", "day", "day", "week"]))
    out = []
    for _ in range(draw(st.integers(2, 5))):
        a, b = sorted(draw(st.lists(st.integers(0, 23 if unit == "day" else 59 if unit == "hour" else 6), min_size=2, max_size=2, unique=True)))
        out.append([a, b])
    return {"unit": unit, "windows": out, "at": draw(st.lists(st.integers(0, 21 * 1440 - 1), min_size=2, max_size=5)), "op": draw(st.sampled_from(["Any", "|"]))}


def run_chain(c, ctx):
    from rocketry.core.time.base import Any
    from rocketry.time import TimeOfDay, TimeOfHour, TimeOfWeek
    unit, M = c["unit"], dt.timedelta(minutes=1)
    scale, cycle = {"hour": (M, 60 * M), "day": (60 * M, 1440 * M), "week": (1440 * M, 7 * 1440 * M)}[unit]
    days = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
    make = {"hour": lambda a, b: TimeOfHour(f"{a:02}:00", f"{b:02}:00"), "day": lambda a, b: TimeOfDay(f"{a:02}:00", f"{b:02}:00"),
            # (the last day is included when only its name is given)
            "week": lambda a, b: TimeOfWeek(f"{days[a]} 00:00", f"{days[b]} 00:00")}[unit]
    parts = [make(a, b) for a, b in c["windows"]]
    if c["op"] == "Any":
        p = Any(*parts)
    else:
        p = parts[0]
        for q in parts[1:]:
            p = p | q
    base = dt.datetime(2024, 1, 1)      # (a Monday)
    for m in c["at"]:
        t = base + m * M + M / 2      # (at no edge of a window)
        n = (t - base) // cycle
        for name, iv in (("next", p.rollforward(t)), ("previous", p.rollback(t))):
            own = []
            for a, b in c["windows"]:
                occ = [(base + k * cycle + a * scale, base + k * cycle + b * scale) for k in range(n - 2, n + 3)]
                if name == "next":
                    s, e = next((s, e) for s, e in occ if e > t)
                    own.append((max(s, t), e))
                else:
                    s, e = [(s, e) for s, e in occ if s < t][-1]
                    own.append((s, min(e, t)))
            # the nearest window and those that continue it
            first = min(own) if name == "next" else max(own, key=lambda x: x[1])
            l, r = first
            grown = True
            while grown:
                grown = False
                for s, e in own:
                    if s < r and l < e and (s < l or e > r):
                        l, r, grown = min(l, s), max(r, e), True
            tol = 4 * US
            check(iv.left <= l + tol and iv.right >= r - tol,
                  lambda: f"the {name} occurrence of {p!r} from {t} is [{iv.left}, {iv.right}], but its windows continue each other from {l} to {r}")
            ctx.label(f"{name}: {'continued' if (l, r) != first else 'one window'}")
            ctx.nontrivial((l, r) != first)


# ------------------------------------------------ intervals as sets of points

CLOSED = ["left", "right", "both", "neither"]


@st.composite
def iv_case(draw):
    out = []
    for _ in range(2):
        a, b = sorted((draw(st.integers(0, 6)), draw(st.integers(0, 6))))
        out.append([a, b, draw(st.sampled_from(CLOSED))])
    return out


def points(iv):
    a, b, cl = iv
    return {q / 2 for q in range(-2, 16)
            if (a < q / 2 or (a == q / 2 and cl in ("left", "both"))) and (q / 2 < b or (q / 2 == b and cl in ("right", "both")))}


def run_iv(c, ctx):
    from rocketry.pybox.time import Interval
    base = dt.datetime(2024, 2, 28)

    def at(q):
        return base + dt.timedelta(hours=12 * q)
    i, j = (Interval(at(a), at(b), closed=cl) for a, b, cl in c)
    pi, pj = map(points, c)
    for iv, pts in ((i, pi), (j, pj)):
        got = {q / 2 for q in range(-2, 16) if at(q / 2) in iv}
        check(got == pts, lambda: f"{iv}: contains {sorted(got)}, expected {sorted(pts)}")
        check(iv.is_empty == (not pts), lambda: f"{iv}.is_empty is {iv.is_empty}, points {sorted(pts)}")
    if pi and pj:
        common = pi & pj
        check(i.overlaps(j) == bool(common), lambda: f"{i}.overlaps({j}) is {i.overlaps(j)}; common points {sorted(common)}")
        ctx.label("overlap" if common else "apart")
        if common:
            k = i & j
            got = {q / 2 for q in range(-2, 16) if at(q / 2) in k}
            check(got == common, lambda: f"{i} & {j} = {k}: points {sorted(got)}, expected {sorted(common)}")
            ctx.nontrivial()


PARTS = [
    Part("membership", case, run, 9000, 150000, "at least two operands that are not always/never"),
    Part("occurrences", case, run_roll, 5000, 80000, "at least two operands that are not always/never and an occurrence in the horizon"),
    Part("chains", chain_case, run_chain, 3000, 40000, "the nearest window is continued by another one"),
    Part("intervals", iv_case, run_iv, 2000, 8000, "the intervals overlap", max_shards=2),
]
