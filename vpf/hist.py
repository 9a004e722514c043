"""Histories of one scheduled task on a simulated clock.

A history is a list of segments (each one a life of the application; they share
the log repository) of cycles. A cycle says how far the clock moves before it,
whether a manual run is requested, and how a run in this cycle would end and how
long it would take. The real scheduler plays it; the oracle is asked in every
cycle, given the runs that really happened before, whether the task has to run.
"""
import datetime as dt

from hypothesis import strategies as st

from .core import Violation, check
from .env import Env, ts
from .sim import Sim

TZS = [None, None, None, 0, 120, -300, 330]


def tz_of(minutes):
    return None if minutes is None else dt.timezone(dt.timedelta(minutes=minutes))


def iso(t, tz=None):
    "clock value as text in the app's timezone"
    return (dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t, minutes=tz or 0)).isoformat(sep=" ")


@st.composite
def histories(draw, steps, outcomes=("success", "success", "fail", "inaction"), max_cycles=14, min_cycles=3, durations=(0.0, 0.002, 1.0, 40.0),
              force=True, restarts=True, tzs=TZS):
    """steps: a strategy of how the clock moves (numbers are seconds, anything else is resolved by the check)"""
    n = draw(st.integers(min_cycles, max_cycles))
    cut = draw(st.lists(st.integers(1, n - 1), max_size=2, unique=True)) if restarts and draw(st.integers(0, 2)) == 0 else []
    cycles = []
    forced = force and draw(st.integers(0, 2)) == 0
    fixed_out = draw(st.sampled_from([None, None, *outcomes]))
    fixed_dur = draw(st.sampled_from([None, None, 0.0]))
    for i in range(n):
        cycles.append({
            "step": draw(steps),
            "force": draw(st.sampled_from([0, 0, 0, 1, 1, 2])) if forced else 0,
            "out": fixed_out or draw(st.sampled_from(outcomes)),
            "dur": fixed_dur if fixed_dur is not None else draw(st.sampled_from(durations)),
        })
    segs, prev = [], 0
    for k in sorted(cut) + [n]:
        segs.append(cycles[prev:k])
        prev = k
    return {"segments": segs, "from_logs": draw(st.booleans()), "tz": draw(st.sampled_from(tzs)),
            "relaunch": draw(st.sampled_from(["new", "new", "same"])), "execution": draw(st.sampled_from(["main", "main", "main", "async"]))}


class Log:
    "what the task really did"

    def __init__(self):
        self.events = []      # (kind, t): start | success | fail | inaction

    def last(self, *kinds):
        return max((t for k, t in self.events if k in kinds), default=None)

    def times(self, *kinds):
        return [t for k, t in self.events if k in kinds]


def play(h, start, make_cond, due, resolve, ctx, what, adjust=None, **config):
    """resolve(step, now, log) -> new clock reading; due(now, log) -> bool or None (not judged)
    returns (runs, skips, log): number of judged cycles in which it had to run / not to run"""
    from rocketry.exc import TaskInactionException
    log = Log()
    state = {"ran": 0, "cycle": None, "due": None, "judged": [0, 0], "trace": []}
    repo = None
    clock = None
    tz = h.get("tz")
    env = None
    try:
        for si, seg in enumerate(h["segments"]):
            if env is not None and h["relaunch"] == "same":
                pass
            else:
                batches = 0
                if env is not None:
                    env.close()
                env = Env(clock=clock, repo=repo, force_status_from_logs=h["from_logs"], timezone=tz_of(tz), **config)
                clock, repo = env.clock, env.repo
                if si == 0:
                    clock.set(start)
                the = env

                def func():
                    cyc = state["cycle"]
                    state["ran"] += 1
                    log.events.append(("start", clock()))
                    clock.advance(cyc["dur"])
                    log.events.append((cyc["out"], clock()))
                    if cyc["out"] == "fail":
                        raise RuntimeError("task fails")
                    if cyc["out"] == "inaction":
                        raise TaskInactionException()
                ex = h.get("execution", "main")
                if ex == "async":
                    sync = func

                    async def func():
                        sync()
                task = env.session.create_task(func=func, name="task", start_cond=make_cond(env), execution=ex)
            pending = {"n": batches}

            def before(i, seg=seg, pending=pending, task=task):
                cyc = seg[i - 1]
                t = resolve(cyc["step"], clock(), log)
                if t is not None and t > clock():
                    clock.set(t)
                if adjust is not None:
                    t2 = adjust(clock(), log)
                    if t2 is not None and t2 > clock():
                        clock.set(t2)
                for _ in range(cyc["force"]):
                    task.run()
                    pending["n"] += 1
                state["cycle"] = cyc
                state["ran"] = 0
                state["now"] = clock()
                if pending["n"]:
                    pending["n"] -= 1
                    state["due"] = True
                    state["forced"] = True
                else:
                    state["due"] = due(clock(), log)
                    state["forced"] = False

            def after(i):
                want, ran = state["due"], state["ran"]
                state["trace"].append(f"{iso(state['now'], tz)}{' manual run' if state['forced'] else ''}: "
                                      f"{'ran (' + state['cycle']['out'] + ', ' + str(state['cycle']['dur']) + ' s)' if ran else 'no run'}")
                check(ran <= 1, lambda: f"{what}: started {ran} times in one cycle\n  " + "\n  ".join(state["trace"]))
                if want is None:
                    return
                if not state["forced"]:
                    state["judged"][0 if want else 1] += 1
                check(bool(ran) == want, lambda: f"{what}: at the last of these cycles the task should{'' if want else ' not'} have been run\n  "
                                                 + "\n  ".join(state["trace"]))

            # an async run starts at the scheduler's next await: give it the rest of the cycle
            if ex == "async":
                sim = AsyncSim(env, len(seg), before=before, after=after)
            else:
                sim = Sim(env, len(seg), before=before, after=after)
            sim.run_ok()
            batches = pending["n"]
    finally:
        if env is not None:
            env.close()
    if len(h["segments"]) > 1:
        ctx.label("restarted: " + h["relaunch"])
    if any(c["force"] for s in h["segments"] for c in s):
        ctx.label("manual runs")
    ctx.label("from logs" if h["from_logs"] else "cached", h.get("execution", "main"))
    return state["judged"][0], state["judged"][1], log


class AsyncSim(Sim):
    """As Sim, but the cycle is judged when the next one begins (or the scheduler shuts down), after
    the event loop has had its turn."""

    def __init__(self, env, cycles, before=None, after=None):
        self._before, self._after = before, after
        super().__init__(env, cycles, before=self._b)
        env.session.hook_shutdown()(self._make_end())

    def _b(self, i):
        if i > 1:
            self._after(i - 1)
        self._before(i)

    def _make_end(self):
        sim = self

        def end():
            yield
            if sim.i and not sim.done:
                sim._guard(lambda i: sim._after(i))
        return end
