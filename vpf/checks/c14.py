"""C14: concurrency limits."""
from hypothesis import strategies as st

from ..core import Part
from ..pool import Pool
from .c13 import OUTS

RULE = "a start was held back by a limit and at least two runs started"
ASSUMPTIONS = []


@st.composite
def case(draw, execs=("async", "async", "thread"), max_cycles=8, max_tasks=4):
    n = draw(st.integers(1, max_tasks))
    prios = draw(st.permutations(list(range(n))))
    if draw(st.integers(0, 2)):
        execs = execs[:1] + ("main",) * (draw(st.integers(0, 3)) == 0)
    tasks = []
    for i in range(n):
        t = {"exec": draw(st.sampled_from(execs)), "prio": prios[i], "multi": draw(st.sampled_from([None, True, False])), "start": draw(st.sampled_from([None, 0, 0, 1])),
             "limit": draw(st.sampled_from([None, None, 1, 2, 3])), "outs": ["success"], "durs": [0.0]}
        if t["exec"] == "main":
            t["limit"] = None
        tasks.append(t)
    op = st.one_of(
        st.tuples(st.just("run"), st.integers(0, n - 1)), st.tuples(st.just("run"), st.integers(0, n - 1)),
        st.tuples(st.just("flag"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from(OUTS)), st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from(OUTS)),
        st.tuples(st.just("terminate"), st.integers(0, n - 1)),
        st.tuples(st.just("set"), st.integers(0, n - 1), st.just("multi"), st.sampled_from([None, True, False])),
        st.tuples(st.just("conf"), st.just("multi"), st.booleans()),
        *([] if "process" not in execs else [
            st.tuples(st.just("conf"), st.just("max_procs"), st.sampled_from([1, 2, 3])),
            st.tuples(st.just("exec"), st.integers(0, n - 1), st.sampled_from(["process", "thread"])),
        ]),
    ).map(list)
    cycles = [[["step", draw(st.sampled_from([0.0, 1.0, 100.0]))]] + draw(st.lists(op, max_size=5)) for _ in range(draw(st.integers(2, max_cycles)))]
    return {"tasks": tasks, "cycles": cycles, "multi": draw(st.booleans()), "max_procs": draw(st.sampled_from([1, 2, 2, 3])), "from_logs": draw(st.booleans()), "flags": [draw(st.booleans()), False],
            "run_id": True, "timeout": 10 ** 6, "shutdown": {"how": draw(st.sampled_from(["graceful", "force"])), "outs": ["success"]}}


def run(c, ctx):
    p = Pool(c, ctx)
    p.play()
    ctx.label(*{t["exec"] for t in c["tasks"]}, *[k for k in p.stats if k.startswith("held")])
    ctx.nontrivial(p.stats["started"] > 1 and any(k.startswith("held") for k in p.stats))


PARTS = [
    Part("limits", lambda: case(), run, 3000, 60000, RULE),
    Part("processes", lambda: case(execs=("process",), max_tasks=3, max_cycles=5), run, 150, 3000, RULE),
]
