"""C12: running conditions tell which runs are under way, and for how long."""
from hypothesis import strategies as st

from ..core import Part
from ..hist import iso
from ..pool import Pool
from .c13 import OUTS

RULE = "some condition is true at one moment and false at another while runs are alive"
ASSUMPTIONS = ["a run whose age is within 0.5 ms of a bound is not judged", "with the status taken from a log without run ids, running times are not judged (the log does not tell which run ended), numbers of runs are"]

SPANS = [["10 seconds", 10], ["2 min", 120], ["1 hour", 3600]]
OPS = ["==", "!=", "<", ">", "<=", ">="]


@st.composite
def condition(draw, n):
    c = {"task": draw(st.sampled_from([None] + list(range(n)))), "more": None, "less": None, "cmp": []}
    k = draw(st.sampled_from(["plain", "plain", "span", "span", "cmp", "both"]))
    if k in ("span", "both"):
        c["more"] = draw(st.sampled_from([None] + SPANS))
        c["less"] = draw(st.sampled_from(([None] if c["more"] else []) + [s for s in SPANS if not c["more"] or s[1] > c["more"][1]] or [None]))
        if c["more"] is None and c["less"] is None:
            c["more"] = SPANS[0]
    if k in ("cmp", "both"):
        c["cmp"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3)).map(list), min_size=1, max_size=2, unique_by=lambda x: x[0]))
    c["surface"] = draw(st.sampled_from(["api", "api", "class", "string"]))
    return c


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    tasks = [{"exec": draw(st.sampled_from(["async", "async", "async", "thread"])), "prio": i, "multi": True, "start": None} for i in range(n)]
    if draw(st.integers(0, 2)):
        for t in tasks:
            t["exec"] = "async"
    if draw(st.integers(0, 3)) == 0:
        for t, name in zip(tasks, ["load  data", "Load data", "load data"]):
            t["name"] = name
    op = st.one_of(st.tuples(st.just("run"), st.integers(0, n - 1)), st.tuples(st.just("run"), st.integers(0, n - 1)),
                   st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from(OUTS)), st.tuples(st.just("release"), st.integers(0, 5), st.sampled_from(OUTS)),
                   st.tuples(st.just("terminate"), st.integers(0, n - 1))).map(list)
    cycles = [[["step", draw(st.sampled_from([0.001, 4.0, 33.0, 500.0, 3000.0]))]] + draw(st.lists(op, max_size=4)) for _ in range(draw(st.integers(2, 8)))]
    past = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([3.0, 50.0, 4000.0]), st.sampled_from([1.0, 70.0]),
                                   st.sampled_from(["success", "fail", "open"])).map(list), max_size=4))
    return {"tasks": tasks, "cycles": cycles, "multi": True, "timeout": 10 ** 7, "from_logs": draw(st.booleans()), "tz": draw(st.sampled_from([None, None, 120])), "run_id": draw(st.booleans()), "no_run_id": draw(st.integers(0, 3)) == 0,
            "conds": draw(st.lists(condition(n), min_size=1, max_size=5)), "past": past,
            "shutdown": {"how": "graceful", "outs": draw(st.lists(st.sampled_from(OUTS), min_size=1, max_size=3))}}


def build(pool, c):
    from rocketry.conditions import TaskRunning
    from rocketry.conds import running
    from rocketry.parse import parse_condition
    from rocketry.time import TimeSpanDelta
    name = None if c["task"] is None else pool.names[c["task"]]
    more, less = c["more"] and c["more"][0], c["less"] and c["less"][0]
    if c["surface"] == "string" and name and not (more or less or c["cmp"]):
        return parse_condition(("while " if c["task"] % 2 else "") + f"task '{name}' is running", session=pool.env.session)
    if c["surface"] == "class":
        out = TaskRunning(task=name, period=TimeSpanDelta(near=more, far=less) if more or less else None)
    else:
        out = running if name is None else running(name)
        if more and less:
            out = out.between(more, less)
        elif more:
            out = out.more_than(more)
        elif less:
            out = out.less_than(less)
    for op, k in c["cmp"]:
        out = {"==": lambda: out == k, "!=": lambda: out != k, "<": lambda: out < k, ">": lambda: out > k, "<=": lambda: out <= k, ">=": lambda: out >= k}[op]()
    return out


class RunningPool(Pool):

    def make(self):
        super().make()
        # earlier lives of the application; what was left open crashed with it
        clock = self.clock
        latest = {}
        for k, (i, gap, dur, out) in enumerate(self.c["past"]):
            clock.advance(gap)
            if latest.get(i) == "open":
                # the life after the crash noticed it
                self.env.add_record(self.names[i], "crash", clock(), None)
                clock.advance(1)
            latest[i] = out
            self.env.add_record(self.names[i], "run", clock(), f"old{k}")
            if out != "open":
                clock.advance(dur)
                self.env.add_record(self.names[i], out, clock(), f"old{k}")
        clock.advance(5)
        self.conds = [(x, build(self, x)) for x in self.c["conds"]]
        self.seen = {}

    def judge(self, when, complete=False):
        self.look(when)

    def extra_before(self, i):
        self.look(f"before cycle {i}")

    def look(self, when):
        now, c = self.clock(), self.c
        for k, (x, cond) in enumerate(self.conds):
            i = x["task"] if x["task"] is not None else 0
            alive = self.alive(i)
            m, skip = 0, False
            for r in alive:
                age = now - r.start
                for b in (x["more"], x["less"]):
                    if b and abs(age - b[1]) < 0.0005:
                        skip = True
                m += (not x["more"] or age > x["more"][1]) and (not x["less"] or age < x["less"][1])
            if c["no_run_id"] and c["from_logs"] and (x["more"] or x["less"]):
                skip = True     # which of the runs has ended is not in the log
            if skip:
                continue
            want = m > 0 if not x["cmp"] else all({"==": m == j, "!=": m != j, "<": m < j, ">": m > j, "<=": m <= j, ">=": m >= j}[op] for op, j in x["cmp"])
            got = cond.observe(task=self.tasks[0], session=self.env.session)
            self.seen.setdefault(k, set()).add(want)
            if bool(got) != want:
                self.fail(f"{when} ({iso(now)}): running condition {x} is {got}, expected {want}: runs alive {[(r, iso(r.start)) for r in alive]}, earlier lives {self.c['past']}")


def run(c, ctx):
    p = RunningPool(c, ctx)
    p.play()
    ctx.label("from logs" if c["from_logs"] else "cached", *{t["exec"] for t in c["tasks"]})
    ctx.nontrivial(p.stats["started"] and any(len(v) == 2 for v in p.seen.values()))


PARTS = [Part("running", case, run, 3000, 60000, RULE)]
