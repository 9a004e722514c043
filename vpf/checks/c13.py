"""C13: every run is logged as one start and one end that tells what happened."""
from hypothesis import strategies as st

from ..core import Part
from ..pool import Pool

RULE = "at least two runs of different outcomes, or two runs alive at the same time"
ASSUMPTIONS = ["process runs are judged when the scheduler has shut down (their records reach the log when the scheduler next looks)"]

OUTS = ["success", "success", "fail", "inaction"]


@st.composite
def case(draw, execs=("async", "async", "main", "thread"), max_tasks=3, max_cycles=8):
    n = draw(st.integers(1, max_tasks))
    disabling = draw(st.sampled_from([False, False, True]))
    failing = draw(st.sampled_from([False, False, True]))
    removing = draw(st.sampled_from([False, False, True]))
    prios = draw(st.permutations(list(range(n))))
    tasks = []
    for i in range(n):
        ex = draw(st.sampled_from(execs))
        t = {"exec": ex, "prio": prios[i], "multi": draw(st.sampled_from([None, True, True, False])), "start": draw(st.sampled_from([None, 0, 1]))}
        if ex == "main":
            t["outs"] = draw(st.lists(st.sampled_from(OUTS), min_size=1, max_size=3))
            t["durs"] = draw(st.lists(st.sampled_from([0.0, 0.003, 2.5]), min_size=1, max_size=2))
        if ex != "async" and failing:
            t["setup"] = draw(st.lists(st.booleans(), min_size=1, max_size=3))
        tasks.append(t)
    op = st.one_of(
        st.tuples(st.just("run"), st.integers(0, n - 1)), st.tuples(st.just("run"), st.integers(0, n - 1)),
        st.tuples(st.just("flag"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from([*OUTS, "terminate"])), st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from(OUTS)),
        st.tuples(st.just("terminate"), st.integers(0, n - 1)),
        *([st.tuples(st.just("disable"), st.integers(0, n - 1), st.booleans())] if disabling else []),
        *([st.tuples(st.just("remove"), st.integers(0, n - 1), st.booleans())] if removing else []),
    ).map(list)
    cycles = [[["step", draw(st.sampled_from([0.0, 0.001, 1.0, 100.0]))]] + draw(st.lists(op, max_size=4)) for _ in range(draw(st.integers(1, max_cycles)))]
    return {"tasks": tasks, "cycles": cycles, "multi": draw(st.booleans()), "from_logs": draw(st.booleans()), "tz": draw(st.sampled_from([None, None, 120])),
            "run_id": draw(st.booleans()), "full": draw(st.booleans()), "shutdown": {"how": draw(st.sampled_from(["graceful", "graceful", "force"])), "outs": draw(st.lists(st.sampled_from(OUTS), min_size=1, max_size=3))}}


def run(c, ctx):
    p = Pool(c, ctx)
    p.play()
    ctx.label(*{t["exec"] for t in c["tasks"]}, c["shutdown"]["how"])
    if p.stats["removed while alive"]:
        ctx.label("removed during a run")
    if p.stats["failed in setup while another is alive"]:
        ctx.label("failed in setup while another run was alive")
    ends = {r.end[0] for r in p.runs if r.end}
    ctx.nontrivial(len(p.runs) > 1 and len(ends) > 1)


PARTS = [
    Part("runs", lambda: case(), run, 4000, 80000, RULE),
    Part("processes", lambda: case(execs=("process", "process", "main"), max_tasks=2, max_cycles=5), run, 120, 3000, RULE),
]
