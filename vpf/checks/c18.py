"""C18: runs are terminated when they should be, and only then."""
from hypothesis import strategies as st

from ..core import Part
from ..pool import Pool
from .c13 import OUTS

RULE = "a run was terminated while another one was not"
ASSUMPTIONS = ["clock readings exactly at a timeout are not generated", "termination of a task is requested while a run of it is alive",
               "a thread can only be terminated if its function takes the termination flag"]

TIMES = [0.5, 4.5, 5, 60, 1000, "never", None, None]


@st.composite
def case(draw, execs=("async", "async", "thread"), max_tasks=3, max_cycles=9):
    n = draw(st.integers(1, max_tasks))
    prios = draw(st.permutations(list(range(n))))
    if draw(st.integers(0, 2)) and execs[0] == "async":
        execs = ("async", "async", "async", "main")
    tasks = []
    for i in range(n):
        ex = draw(st.sampled_from(execs))
        t = {"exec": ex, "prio": prios[i], "multi": draw(st.sampled_from([True, True, False])), "start": draw(st.sampled_from([None, None, 0, 1])), "timeout": draw(st.sampled_from(TIMES)),
             "permanent": draw(st.sampled_from([None, None, None, True])), "end": draw(st.sampled_from([None, None, 2, 3])), "outs": ["success"], "durs": [draw(st.sampled_from([0.0, 2.5, 63.0]))]}
        if ex == "thread":
            t["flag"] = draw(st.sampled_from([True, True, False]))
        if ex == "async":
            t["cancel"] = draw(st.sampled_from([None, None, None, "clean", "success", "fail"]))
        if t["timeout"] is not None and t["timeout"] != "never" and draw(st.integers(0, 2)) == 0:
            t["timeout_as"] = draw(st.sampled_from(["text", "timedelta"]))
        tasks.append(t)
    setting = draw(st.sampled_from([False, False, True]))
    asking = draw(st.sampled_from([False, False, True]))
    op = st.one_of(
        st.tuples(st.just("run"), st.integers(0, n - 1)), st.tuples(st.just("run"), st.integers(0, n - 1)),
        st.tuples(st.just("flag"), st.integers(0, 3), st.booleans()), st.tuples(st.just("flag"), st.integers(2, 3), st.booleans()),
        st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from([*OUTS, "terminate"])),
        st.tuples(st.just("terminate"), st.integers(0, n - 1)),
        *([st.tuples(st.just("set"), st.integers(0, n - 1), st.just("timeout"), st.sampled_from([0.5, 5, 60, 1000, None])),
           st.tuples(st.just("set"), st.integers(0, n - 1), st.just("permanent"), st.booleans()),
           st.tuples(st.just("conf"), st.just("timeout"), st.sampled_from([20, 1800]))] if setting else []),
        *([st.tuples(st.just("exec"), st.integers(0, n - 1), st.sampled_from(["process", "thread"]))] if "process" in execs else []),
        *([st.tuples(st.just("ask"), st.integers(0, n - 1)), st.tuples(st.just("release"), st.integers(0, 5), st.just("terminate"))] if asking else []),
    ).map(list)
    cycles = [[["step", draw(st.sampled_from([0.0, 0.7, 4.1, 33.0, 130.0, 1700.0]))]] + draw(st.lists(op, max_size=4)) for _ in range(draw(st.integers(1, max_cycles)))]
    return {"tasks": tasks, "cycles": cycles, "multi": draw(st.booleans()), "timeout": draw(st.sampled_from([20, 1800])), "from_logs": draw(st.booleans()), "run_id": draw(st.booleans()),
            "shutdown": {"how": draw(st.sampled_from(["graceful", "graceful", "force", "instant", "twice", "error"])), "step": draw(st.sampled_from([0, 0, 12.3, 3000.0])),
                         "outs": draw(st.lists(st.sampled_from(OUTS), min_size=1, max_size=3))}}


def run(c, ctx):
    p = Pool(c, ctx)
    p.play()
    ctx.label(*{t["exec"] for t in c["tasks"]}, "shutdown " + c["shutdown"]["how"], *[k for k in ("timed out", "terminate()", "waited for") if p.stats[k]])
    ends = [r.end[0] for r in p.runs if r.end]
    ctx.nontrivial("terminate" in ends and any(e != "terminate" for e in ends))


PARTS = [
    Part("runs", lambda: case(), run, 4000, 80000, RULE),
    Part("processes", lambda: case(execs=("process",), max_tasks=2, max_cycles=5), run, 120, 3000, RULE),
]
