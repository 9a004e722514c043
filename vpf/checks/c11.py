"""C11: failed tasks are retried as many times as told."""
from hypothesis import strategies as st

from ..core import Part
from ..hist import histories, play

RULE = "the history has a failed run that must be retried and one that must not (retries used up, or a run that did not fail)"
ASSUMPTIONS = ["clock readings exactly at the due instant of 'every' are not judged"]


@st.composite
def case(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5, -1, None, "bare"]))
    other = draw(st.sampled_from([None, None, "every", "and"]))
    h = draw(histories(st.sampled_from([0.001, 0.5, 20, 400, 3601, 4000]), outcomes=("fail", "fail", "fail", "success", "inaction"), max_cycles=16, durations=(0.002, 1.0, 40.0)))
    if other is None or draw(st.booleans()):
        h["segments"][0][0]["force"] = 1
    return {"n": n, "other": other, "h": h, "order": draw(st.booleans())}


def run(c, ctx):
    from rocketry.conds import retry, every
    n, other = c["n"], c["other"]
    gate = {"open": True}

    def make(env):
        r = retry if n == "bare" else retry(n)
        if other == "every":
            return (r | every("1 hour")) if c["order"] else (every("1 hour") | r)
        if other == "and":
            from rocketry.conditions import FuncCond
            g = FuncCond(func=lambda: gate["open"])
            return (r & g) if c["order"] else (g & r)
        return r

    def retry_due(log):
        ends = [k for k, t in log.events if k != "start"]
        if not ends or ends[-1] != "fail":
            return False
        if n in (-1, None, "bare"):
            return True
        k = 0
        for e in reversed(ends):
            if e != "fail":
                break
            k += 1
        return k <= n

    def due(now, log):
        r = retry_due(log)
        if other == "every":
            last = log.last("start")
            if last is not None and abs(now - last - 3600) < 0.0005:
                return None
            e = last is None or now - last > 3600
            seen.add((r, bool(log.events)))
            return r or e
        seen.add((r, bool(log.events)))
        return r and (other != "and" or gate["open"])

    seen = set()
    count = [0]

    def resolve(step, now, log):
        count[0] += 1
        if other == "and":
            gate["open"] = (count[0] * 7 + int(step * 1000)) % 3 != 0
        return now + step
    play(c["h"], "2024-03-05T10:00:00", make, due, resolve, ctx, f"retry({n}) {other or ''}")
    ctx.label(f"n={n}", str(other))
    ctx.nontrivial((True, True) in seen and (False, True) in seen)


PARTS = [Part("history", case, run, 4000, 80000, RULE)]
