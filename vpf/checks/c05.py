"""C05: durations and tasks repeated by a duration."""
import datetime as dt

from hypothesis import strategies as st

from ..core import Part, check
from ..hist import histories, play

RULE = "duration has at least two parts or a fraction; history has cycles in which the task is due and cycles in which it is not"
ASSUMPTIONS = ["clock readings exactly at the due instant (last start + duration) are not judged"]

UNITS = {
    "ms": ["ms", "millisecond"],
    "s": ["s", "sec", "secs", "second", "seconds"],
    "m": ["m", "min", "mins", "minute", "minutes"],
    "h": ["h", "hr", "hrs", "hour", "hours"],
    "d": ["d", "day", "days"],
}
US = {"ms": 1000, "s": 10**6, "m": 6 * 10**7, "h": 36 * 10**8, "d": 864 * 10**8}


@st.composite
def duration(draw, small=False):
    "{'text', 'us'}"
    kind = draw(st.sampled_from(["units"] * 6 + ["clock"]))
    if kind == "clock" :
        hh, mm, ss = draw(st.integers(0, 30)), draw(st.integers(0, 59)), draw(st.integers(0, 59))
        frac = draw(st.sampled_from([None, None, 5, 25, 125]))
        if hh == mm == ss == 0:
            ss = 1
        wide = draw(st.booleans())
        text = (f"{hh:02d}:{mm:02d}:{ss:02d}" if wide else f"{hh}:{mm}:{ss}")
        us = hh * US["h"] + mm * US["m"] + ss * US["s"]
        if frac is not None:
            text += f".{frac}"
            us += int(frac * 10**6 / 10 ** len(str(frac)))
        days = draw(st.sampled_from([None, None, 1, 2]))
        if days is not None:
            text = f"{days} days {text}"
            us += days * US["d"]
        return {"text": text, "us": us, "parts": 3}
    units = draw(st.lists(st.sampled_from(["ms", "s", "m", "h", "d"]), min_size=1, max_size=4, unique=True))
    units.sort(key=lambda u: -US[u])
    if draw(st.integers(0, 7)) == 0:
        units = list(reversed(units))
    text, us = "", 0
    for i, u in enumerate(units):
        n = draw(st.one_of(st.integers(1, 12), st.integers(1, 400)))
        frac = draw(st.sampled_from([None, None, None, "5", "25", "75", "125", "0"]))
        if u == "s" and frac == "125":
            frac = draw(st.sampled_from(["125", "0005", "000125"]))
        if draw(st.integers(0, 9)) == 0:
            n = 0
        num = str(n) + ("" if frac is None else "." + frac)
        us += n * US[u] + (0 if frac is None else int(frac) * US[u] // 10 ** len(frac))
        sep = draw(st.sampled_from([" ", " ", "", "  "]))
        between = "" if i == 0 else draw(st.sampled_from([" ", " ", ", ", ","] + ([""] if True else [])))
        text += between + num + sep + draw(st.sampled_from(UNITS[u]))
    if us == 0:
        text += " 1 s"
        us = 10**6
    sign = draw(st.sampled_from([""] * 8 + ["+"]))
    return {"text": sign + text, "us": us, "parts": len(units) + ("." in text)}


def run_text(c, ctx):
    from ..env import Env
    want = dt.timedelta(microseconds=c["us"])
    ctx.nontrivial(c["parts"] >= 2)
    ctx.label("clock" if ":" in c["text"] else f"{c['parts']} parts")
    with Env(timeout=c["text"]) as env:
        got = env.session.config.timeout
        check(abs(got - want) <= dt.timedelta(microseconds=2), lambda: f"config.timeout={c['text']!r} means {got}, expected {want}")
        task = env.session.create_task(func=lambda: None, name="a", timeout=c["text"], execution="main")
        check(abs(task.timeout - want) <= dt.timedelta(microseconds=2), lambda: f"task timeout={c['text']!r} means {task.timeout}, expected {want}")
        from rocketry.time import TimeDelta
        now = dt.datetime(2022, 6, 1, 12)
        iv = TimeDelta(c["text"]).rollback(now)
        check(iv.right == now and abs((now - iv.left) - want) <= dt.timedelta(microseconds=2), lambda: f"the past {c['text']!r} of {now} is {iv}, expected {want} long")
        iv = TimeDelta(future=c["text"]).rollforward(now)
        check(iv.left == now and abs((iv.right - now) - want) <= dt.timedelta(microseconds=2), lambda: f"the next {c['text']!r} of {now} is {iv}, expected {want} long")
        for past, future in [(want, dt.timedelta(0)), (dt.timedelta(0), want), (want, want)]:
            p = TimeDelta(past=past, future=future).use_reference(now)
            for x in (-1.5, -1.0, -0.999, -0.3, 0, 0.5, 1.0, 1.001, 2):
                t = now + x * want
                if abs(abs(x) - 1) < 0.01 and want < dt.timedelta(milliseconds=10):
                    continue
                expect = now - past <= t <= now + future
                check((t in p) == expect, lambda: f"{t} in {p!r} of {now} is {t in p}, expected {expect}")


BASED = {"run": ("start",), "success": ("success",), "fail": ("fail",), "finish": ("success", "fail", "inaction")}


@st.composite
def every_case(draw):
    d = draw(duration())
    based = draw(st.sampled_from(["run", "run", "run", "success", "fail", "finish"]))
    how = draw(st.sampled_from(["api", "api", "string", "timedelta", "string&"])) if based == "run" else draw(st.sampled_from(["api", "timedelta"]))
    steps = st.one_of(st.sampled_from([["due", -0.001], ["due", 0.001], ["due", 0.5], ["due", 0.001], ["due", -0.5], ["rel", 0.3], ["rel", 0.9], ["rel", 1.6], ["rel", 7.2]]),
                      st.sampled_from([0, 0.001, 0.05, 1, 60]))
    h = draw(histories(steps))
    start = draw(st.datetimes(dt.datetime(2000, 1, 1), dt.datetime(2037, 1, 1))).replace(microsecond=0).isoformat()
    return {"d": d, "based": based, "how": how, "h": h, "start": start}


def run_every(c, ctx):
    from rocketry.conds import every, true
    d = c["d"]["us"] / 1e6
    kinds = BASED[c["based"]]
    eps = 2e-5

    def make(env):
        if c["how"] == "string":
            return "every " + c["d"]["text"]
        if c["how"] == "string&":
            return f"every {c['d']['text']} & always true"
        span = c["d"]["text"] if c["how"] == "api" else dt.timedelta(microseconds=c["d"]["us"])
        if c["based"] == "run":
            return every(span)
        return every(span, based=c["based"])

    def due(now, log):
        last = log.last(*kinds)
        if last is None:
            return True
        if abs(now - last - d) < eps:
            return None
        return now - last > d

    def resolve(step, now, log):
        if isinstance(step, list):
            kind, x = step
            if kind == "rel":
                return now + x * d
            last = log.last(*kinds)
            return (last if last is not None else now) + d + x
        return now + step
    ran, skipped, log = play(c["h"], c["start"], make, due, resolve, ctx, f"every {c['d']['text']} based on {c['based']} ({c['how']})")
    ctx.label("based on " + c["based"], c["how"])
    ctx.nontrivial(ran and skipped)


PARTS = [
    Part("text", duration, run_text, 3000, 60000, "the duration has at least two parts or a fraction"),
    Part("every", every_case, run_every, 2400, 48000, "the history has cycles in which the task is due and cycles in which it is not"),
]
