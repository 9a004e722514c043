"""C10: pipelines: a task runs once after each new outcome of what it depends on."""
from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..hist import tz_of
from ..sim import Sim

RULE = "at least one dependent task ran and at least one did not run because nothing new had happened"
ASSUMPTIONS = ["runs take at least 1 ms on the application's clock", "dependencies of after-finish conditions succeed or fail (whether inaction and termination count as a finish is not specified)"]


@st.composite
def case(draw):
    n = draw(st.integers(2, 6))
    names = ["t%d" % i for i in range(n)] if draw(st.integers(0, 3)) else draw(st.permutations(["fetch", "clean  data", "Fetch", "x.y", "load - 1", "é", "x, y", "x"]))[:n]
    tasks = []
    finish_deps = set()
    prios = draw(st.permutations(list(range(n))))
    for i in range(n):
        conds = None
        if i and draw(st.integers(0, 4)):
            k = draw(st.sampled_from([1, 1, 1, 2]))
            conds = []
            for _ in range(k):
                act = draw(st.sampled_from(["success", "fail", "finish"]))
                pool = [j for j in range(n) if j != i] if draw(st.integers(0, 3)) == 0 else list(range(i))
                deps = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
                form = "one" if len(deps) == 1 and draw(st.booleans()) else draw(st.sampled_from(["all", "any"]))
                if form == "one":
                    deps = deps[:1]
                if act == "finish":
                    finish_deps.update(deps)
                conds.append({"act": act, "deps": deps, "form": form, "neg": draw(st.integers(0, 9)) == 0 and k == 2,
                              "surface": draw(st.sampled_from(["name", "task", "func", "string"])),
                              # the run of another task may be the one that is counted from
                              "owner": draw(st.integers(0, n - 1)) if draw(st.integers(0, 7)) == 0 else None})
        tasks.append({"conds": conds, "join": draw(st.sampled_from(["and", "or"])), "prio": prios[i]})
    cycles = []
    for _ in range(draw(st.integers(2, 9))):
        cycles.append({"force": draw(st.lists(st.integers(0, n - 1), max_size=3)), "step": draw(st.sampled_from([0, 0.001, 30, 100000])),
                       "outs": [draw(st.sampled_from(["success", "success", "fail"] + ([] if i in finish_deps else ["inaction", "terminate"]))) for i in range(n)]})
    cut = draw(st.sampled_from([0, 0, 0, 1, 2]))
    return {"names": names, "tasks": tasks, "cycles": cycles, "cut": min(cut, len(cycles) - 1), "execution": draw(st.sampled_from(["main", "main", "async"])),
            "from_logs": draw(st.booleans()), "tz": draw(st.sampled_from([None, None, 330])), "durs": [draw(st.sampled_from([0.001, 0.25, 70])) for _ in range(n)]}


def text(c, spec):
    names = [c["names"][d] for d in spec["deps"]]
    word = {"success": " succeeded", "fail": " failed", "finish": " finished"}[spec["act"]]
    if spec["act"] == "success" and len(names[0]) % 2:
        word = ""
    q = "'" + "', '".join(names) + "'"
    return {"one": "after task ", "all": "after tasks ", "any": "after any tasks "}[spec["form"]] + q + word


def make_cond(c, i, objs, session):
    from rocketry import conds as api
    from rocketry.core.condition import All, Any
    from rocketry.parse import parse_condition
    t = c["tasks"][i]
    if t["conds"] is None:
        return None
    out = None
    for spec in t["conds"]:
        if spec.get("owner") is not None:
            from rocketry.conditions import DependFailure, DependFinish, DependSuccess
            cls = {"success": DependSuccess, "fail": DependFailure, "finish": DependFinish}[spec["act"]]
            of = c["names"][spec["owner"]]
            if spec["surface"] == "task" and spec["owner"] in objs:
                of = objs[spec["owner"]][0]
            parts = [cls(depend_task=c["names"][d], task=of) for d in spec["deps"]]
            x = parts[0] if len(parts) == 1 else All(*parts) if spec["form"] != "any" else Any(*parts)
        elif spec["surface"] == "string":
            x = parse_condition(text(c, spec), session=session)
        else:
            # a task object or function can only be given once it exists
            args = [objs[d][0 if spec["surface"] == "task" else 1] if d in objs and spec["surface"] != "name" else c["names"][d] for d in spec["deps"]]
            pre = {"one": "after_", "all": "after_all_", "any": "after_any_"}[spec["form"]]
            x = getattr(api, pre + spec["act"])(*args)
        if spec["neg"]:
            x = ~x
        out = x if out is None else out & x if t["join"] == "and" else out | x
    return out


def run(c, ctx):
    from rocketry.exc import TaskInactionException, TaskTerminationException
    n = len(c["tasks"])
    order = sorted(range(n), key=lambda i: -c["tasks"][i]["prio"])
    # --- model: sequence numbers of starts and of outcomes
    seq = [0]
    start = [0] * n
    latest = [{"success": 0, "fail": 0, "finish": 0} for _ in range(n)]

    def holds(i):
        t = c["tasks"][i]
        if t["conds"] is None:
            return False
        vals = []
        for spec in t["conds"]:
            v = [latest[d][spec["act"]] > start[i if spec.get("owner") is None else spec["owner"]] for d in spec["deps"]]
            v = any(v) if spec["form"] == "any" else all(v)
            vals.append(v != spec["neg"])
        return all(vals) if t["join"] == "and" else any(vals)

    def end(i, out):
        seq[0] += 1
        if out in ("success", "fail"):
            latest[i][out] = latest[i]["finish"] = seq[0]

    batches = [0] * n
    stats = {"dep": 0, "not": 0}

    def predict(cyc):
        ran, pending = [], []
        for i in order:
            forced = batches[i] > 0
            if forced or holds(i):
                if forced:
                    batches[i] -= 1
                else:
                    stats["dep"] += 1
                seq[0] += 1
                start[i] = seq[0]
                ran.append(c["names"][i])
                if c["execution"] == "main":
                    end(i, cyc["outs"][i])
                else:
                    pending.append(i)
            elif c["tasks"][i]["conds"] and start[i]:
                stats["not"] += 1
        for i in pending:
            end(i, cyc["outs"][i])
        return ran

    ran = []
    state = {}
    trace = []
    repo = clock = env = None
    segs = [c["cycles"]] if not c["cut"] else [c["cycles"][:c["cut"]], c["cycles"][c["cut"]:]]
    for seg in segs:
        with Env(clock=clock, repo=repo, execution=c["execution"], force_status_from_logs=c["from_logs"], timezone=tz_of(c["tz"])) as env:
            clock, repo = env.clock, env.repo
            objs = {}
            batches[:] = [0] * n

            def make(i):
                def body():
                    ran.append(c["names"][i])
                    clock.advance(c["durs"][i])
                    o = state["cyc"]["outs"][i]
                    if o == "fail":
                        raise RuntimeError("fails")
                    if o == "inaction":
                        raise TaskInactionException()
                    if o == "terminate":
                        raise TaskTerminationException()
                if c["execution"] == "async":
                    async def func():
                        body()
                    return func
                return body
            for i in range(n):
                f = make(i)
                kw = dict(name=c["names"][i], priority=c["tasks"][i]["prio"], start_cond=make_cond(c, i, objs, env.session))
                if i % 2:
                    env.session.create_task(func=f, **kw)
                    f = c["names"][i]
                else:
                    f = env.session.create_task(**kw)(f)
                objs[i] = (env.session[c["names"][i]], f)

            def settle_last():
                if "want" in state:
                    want = state.pop("want")
                    got = list(ran)
                    trace.append(f"{state['cyc']}: ran {got}")
                    check(got == want, lambda: f"in the last of these cycles the tasks {want} should have run (in this order, by priority)\n  pipeline: "
                          + "; ".join(f"{c['names'][i]} (prio {c['tasks'][i]['prio']}): {c['tasks'][i]['join'].join(' ' + ('not ' if s['neg'] else '') + text(c, s) + ' ' for s in c['tasks'][i]['conds'] or [])}" for i in range(n))
                          + "\n  " + "\n  ".join(trace))

            def before(i):
                settle_last()
                cyc = seg[i - 1]
                clock.advance(cyc["step"])
                for k in cyc["force"]:
                    env.session[c["names"][k]].run()
                    batches[k] += 1
                ran.clear()
                state["cyc"] = cyc
                state["want"] = predict(cyc)
            Sim(env, len(seg), before=before).run_ok()
            settle_last()
    ctx.label(c["execution"], f"{n} tasks", "restarted" if c["cut"] else "one life")
    ctx.nontrivial(stats["dep"] and stats["not"])


PARTS = [Part("pipeline", case, run, 4000, 80000, RULE)]
