"""C26: what a log record says, which handlers get it, and what reading the log returns."""
import collections
import logging

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env, Clock
from ..pool import SharedClock
from ..sim import Sim, wait_for

RULE = "at least one run failed, another one ended otherwise, and at least one query matched some of the records but not all"
ASSUMPTIONS = ["no two runs of one task at the same time", "the texts of messages are not judged"]

MODELS = ["MinimalRecord", "LogRecord", "TaskLogRecord", "MinimalRunRecord", "RunRecord", "TaskRunRecord"]
ACTIONS = ["run", "success", "fail", "inaction", "terminate"]
NAMES = ["a", "b.c", "a'b", "100%s", "{x}", "ünï", "a b", "a", "task", "A", "aa", "%(action)s"]
TEXTS = ["plain", "two\nlines", "100%s %d", "{0} {action}", "ünï ✓", ""]


@st.composite
def query(draw, n):
    q = {}
    if draw(st.booleans()):
        q["action"] = draw(st.one_of(st.sampled_from(ACTIONS), st.lists(st.sampled_from(ACTIONS), min_size=1, max_size=3, unique=True)))
    if draw(st.booleans()):
        lo = draw(st.integers(-1, 6))
        q["created"] = [draw(st.sampled_from(["ge", "gt", "le", "lt", "between"])), lo, lo + draw(st.integers(0, 4))]
    if draw(st.booleans()):
        q["task_name"] = draw(st.integers(0, n - 1))
    return q


@st.composite
def case(draw, execs=("main", "main", "async", "thread"), max_cycles=5):
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    tasks = [{"name": names[i], "exec": draw(st.sampled_from(execs))} for i in range(n)]
    out = st.fixed_dictionaries({"out": st.sampled_from(["success", "success", "fail", "fail", "inaction"]), "text": st.sampled_from(TEXTS), "exc": st.sampled_from(["ValueError", "KeyError", "Own", "Unpicklable", "Chained"])})
    cycles = [{"step": draw(st.sampled_from([0.0, 0.25, 1.0, 1.0])), "runs": draw(st.lists(st.tuples(st.integers(0, n - 1), out).map(list), min_size=1, max_size=n, unique_by=lambda r: r[0]))} for _ in range(draw(st.integers(1, max_cycles)))]
    return {"tasks": tasks, "cycles": cycles, "model": draw(st.sampled_from(MODELS)), "app": draw(st.booleans()), "second": draw(st.sampled_from([None, None, "RunRecord", "MinimalRecord"])),
            "swap": draw(st.sampled_from([None, None, 1, 2, 3])), "levels": draw(st.lists(st.sampled_from(["NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]), max_size=3)),
            "early": draw(st.booleans()), "queries": draw(st.lists(query(n), min_size=1, max_size=4))}


class Own(Exception):
    pass


class Unpicklable(Exception):
    def __init__(self, text, more):
        super().__init__(text)
        self.more = lambda: more


class Listen(logging.Handler):
    def __init__(self, level):
        super().__init__(level)
        self.got = []

    def emit(self, r):
        self.got.append((r.task_name, r.action, r.created, r.levelno, r.run_id, bool(r.exc_info or r.exc_text)))


def boom(kind, text):
    if kind == "Own":
        raise Own(text)
    if kind == "Unpicklable":
        raise Unpicklable(text, 1)
    if kind == "Chained":
        try:
            raise RuntimeError("inner")
        except RuntimeError as exc:
            raise ValueError(text) from exc
    raise {"ValueError": ValueError, "KeyError": KeyError}[kind](text)


def run(c, ctx):
    import rocketry.log as rl
    from redbird.logging import RepoHandler
    from redbird.oper import between, greater_equal, greater_than, in_, less_equal, less_than
    from redbird.repos import MemoryRepo
    from rocketry.args import TaskLogger
    from rocketry.exc import TaskInactionException
    proc = any(t["exec"] == "process" for t in c["tasks"])
    clock = SharedClock() if proc else Clock()
    T0 = clock()
    # handlers may be there before the session is made
    listeners = [Listen(getattr(logging, lv)) for lv in c["levels"]]
    env = Env(clock=clock, model=getattr(rl, c["model"]), app=c["app"], handlers=listeners if c.get("early") else ())
    with env:
        session = env.session
        base = logging.getLogger(env.basename)
        for h in listeners if not c.get("early") else []:
            base.addHandler(h)
        second = None
        if c["second"]:
            second = MemoryRepo(model=getattr(rl, c["second"]))
            base.addHandler(RepoHandler(second))
        plan = {}           # task -> what its current run does
        expected = []       # (task, action, time)
        tokens = {}         # (task, nth fail) -> token
        fails = collections.Counter()
        count = [0]

        def body(i):
            def act():
                p = plan[i]
                if p["out"] == "fail":
                    boom(p["exc"], p["text"] + p["token"])
                if p["out"] == "inaction":
                    raise TaskInactionException(p["text"])
                return p["text"]
            if c["tasks"][i]["exec"] == "async":
                async def func():
                    return act()
            else:
                def func():
                    return act()
            return func
        tasks = [session.create_task(func=body(i), name=t["name"], execution=t["exec"], priority=-i) for i, t in enumerate(c["tasks"])]
        repos = [env.repo]
        cuts = []
        ns = [t["name"] for t in c["tasks"]]

        def before(k):
            cyc = c["cycles"][(k - 1) // 2]
            if k % 2 == 0:
                return
            if c["swap"] == (k + 1) // 2:
                # as a function with the task logger as an argument does it
                repos.append(MemoryRepo(model=getattr(rl, c["model"])))
                cuts.append(len(expected))
                TaskLogger().get_value(session=session, task=None).set_repo(repos[-1])
            clock.advance(cyc["step"])
            for i, p in cyc["runs"]:
                count[0] += 1
                plan[i] = dict(p, token=f"<token-{count[0]:04d}>")
                tasks[i].run()
                end = p["out"]
                expected.append((ns[i], "run", clock()))
                expected.append((ns[i], end, clock()))
                if end == "fail":
                    tokens[ns[i], fails[ns[i]]] = plan[i]["token"]
                    fails[ns[i]] += 1

        def after(k):
            # everything ends within its pair of cycles
            if k % 2 == 0:
                for t in tasks:
                    wait_for(lambda: not t.is_alive(), f"the run of {t.name} to end")
            elif any(t["exec"] in ("thread", "process") for t in c["tasks"]):
                for t, s in zip(tasks, c["tasks"]):
                    if s["exec"] != "async":
                        wait_for(lambda: not t.is_alive(), f"the run of {t.name} to end")
        Sim(env, 2 * len(c["cycles"]), before=before, after=after).run_ok()

        def per_task(items, key=0):
            out = collections.defaultdict(list)
            for x in items:
                out[x[key]].append(x)
            return dict(out)
        # where the records went: the repository that was there at the time
        recs = []
        # a swap takes all repositories away and puts the new one in
        seen_second = expected if second is None or not cuts else expected[:cuts[0]]
        bounds = [0] + cuts + [len(expected)]
        for no, repo in enumerate(repos):
            mine = [r if isinstance(r, dict) else r.dict() for r in repo.filter_by().all()]
            recs.append(mine)
            want = expected[bounds[no]:bounds[no + 1]]
            got = [(r["task_name"], r["action"], r["created"]) for r in mine]
            check(per_task(got) == per_task(want), lambda: f"repository {no} has the records\n  {got}\nexpected\n  {want}")
        if second is not None:
            got = [(r.task_name, r.action, r.created) for r in second.filter_by().all()]
            check(per_task(got) == per_task(seen_second), lambda: f"the second handler got the records\n  {got}\nexpected\n  {seen_second}")
        level = lambda act: logging.ERROR if act == "fail" else logging.INFO
        for h in listeners:
            want = per_task([(n, a, t, level(a), a == "fail") for n, a, t in expected if level(a) >= h.level])
            got = per_task([(r[0], r[1], r[2], r[3], r[5]) for r in h.got])
            check(got == want, lambda: f"a handler of level {h.level} got\n  {got}\nexpected\n  {want}")
            for name, rows in per_task(h.got).items():
                ids = [r[4] for r in rows]
                check(None not in ids, lambda: f"a record of {name} has no run id: {rows}")
                if h.level <= logging.INFO:
                    check(ids[::2] == ids[1::2] and len(set(ids)) == len(ids) // 2, lambda: f"the run ids of {name} are {ids}: start and end of a run should share one and no other run")
        # the contents
        every = [r for mine in recs for r in mine]
        nth = collections.Counter()
        fields = set(getattr(rl, c["model"]).__fields__)
        for r in every:
            what = f"the {r['action']} record of {r['task_name']!r}: {r}"
            check(set(r) >= fields, lambda: f"fields {fields - set(r)} missing in {what}")
            if "levelname" in fields:
                check((r["levelname"], r["levelno"]) == (logging.getLevelName(level(r["action"])), level(r["action"])), lambda: f"wrong level in {what}")
                check(r["name"] == env.basename or r["name"].startswith(env.basename + "."), lambda: f"wrong logger in {what}")
            if "run_id" in fields:
                check(bool(r["run_id"]), lambda: f"no run id in {what}")
            if r["action"] == "fail":
                own = tokens[r["task_name"], nth[r["task_name"]]]
                nth[r["task_name"]] += 1
            if "exc_text" in fields:
                if r["action"] == "fail":
                    text = r["exc_text"] or ""
                    check(text.startswith("Traceback") or "Traceback (most recent call last)" in text, lambda: f"no traceback in {what}")
                    check(own in text and text.count("<token-") == text.count(own), lambda: f"expected the error with {own} in {what}")
                else:
                    check(not r["exc_text"], lambda: f"there is an error text in {what}")
        # reading
        now = recs[-1]
        repo = session.get_repo()
        ops = {"ge": lambda a, b: greater_equal(a), "gt": lambda a, b: greater_than(a), "le": lambda a, b: less_equal(a), "lt": lambda a, b: less_than(a), "between": lambda a, b: between(a, b)}
        tests = {"ge": lambda v, a, b: v >= a, "gt": lambda v, a, b: v > a, "le": lambda v, a, b: v <= a, "lt": lambda v, a, b: v < a, "between": lambda v, a, b: a <= v <= b}
        key = lambda r: (r["task_name"], r["action"], r["created"]) if isinstance(r, dict) else (r.task_name, r.action, r.created)
        some = False
        for q in c["queries"]:
            kw = {}
            pred = []
            if "action" in q:
                a = q["action"]
                kw["action"] = a if isinstance(a, str) else in_(a)
                pred.append(lambda r, a=a: r["action"] in ([a] if isinstance(a, str) else a))
            if "created" in q:
                o, lo, hi = q["created"]
                lo, hi = T0 + lo, T0 + hi
                kw["created"] = ops[o](lo, hi)
                pred.append(lambda r, o=o, lo=lo, hi=hi: tests[o](r["created"], lo, hi))
            match = [r for r in now if all(p(r) for p in pred)]
            named = dict(kw)
            if "task_name" in q:
                named["task_name"] = ns[q["task_name"]]
            want = [key(r) for r in match if "task_name" not in q or r["task_name"] == ns[q["task_name"]]]
            got = [key(r) for r in session.get_task_log(**named)]
            check(got == want, lambda: f"get_task_log({named}) gave\n  {got}\nexpected\n  {want}")
            got = [key(r) for r in repo.filter_by(**named).all()]
            check(got == want, lambda: f"the repository of the session gave for {named}\n  {got}\nexpected\n  {want}")
            some = some or 0 < len(want) < len(now)
            for i, t in enumerate(tasks):
                want = [key(r) for r in match if r["task_name"] == ns[i]]
                got = [key(r) for r in t.logger.filter_by(**kw).all()]
                check(got == want, lambda: f"filter_by({kw}) of the logger of {ns[i]!r} gave\n  {got}\nexpected\n  {want}")
                if "task_name" in q:
                    got = [key(r) for r in t.logger.filter_by(**named).all()]
                    check(got == want or (got == [] and q["task_name"] != i), lambda: f"filter_by({named}) of the logger of {ns[i]!r} gave\n  {got}\nexpected its own\n  {want}")
                got = [key(r) for r in t.logger.get_records(**kw)]
                check(got == want, lambda: f"get_records({kw}) of the logger of {ns[i]!r} gave\n  {got}\nexpected\n  {want}")
        for i, t in enumerate(tasks):
            for a in [None] + ACTIONS:
                want = [key(r) for r in now if r["task_name"] == ns[i] and a in (None, r["action"])]
                got = t.logger.get_latest(action=a) if a else t.logger.get_latest()
                check((got and key(got)) == (want[-1] if want else None), lambda: f"get_latest({a}) of the logger of {ns[i]!r} gave {got and key(got)}, its records are {want}")
            arg = TaskLogger().get_value(session=session, task=t)
            want = [key(r) for r in now if r["task_name"] == ns[i]]
            check([key(r) for r in arg.filter_by().all()] == want, lambda: f"TaskLogger() of {ns[i]!r} does not give its records {want}")
    ctx.label(c["model"], *{t["exec"] for t in c["tasks"]}, *(["swap"] if cuts else []), *(["app"] if c["app"] else []))
    ends = {r[1] for r in expected}
    ctx.nontrivial("fail" in ends and len(ends) > 2 and some)


PARTS = [
    Part("records", lambda: case(), run, 4000, 60000, RULE),
    Part("processes", lambda: case(execs=("process", "process", "main"), max_cycles=3), run, 200, 3000, RULE),
]
