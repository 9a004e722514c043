"""C16: what value each parameter of a task gets."""
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..sim import Sim

RULE = "some run got a value that another level also offered, or a dynamic argument whose value changed between two runs"
ASSUMPTIONS = ["where a function argument is evaluated is judged for function arguments given directly to the task", "session parameters can be resolved (with tasks from files, one that cannot fails the run even when the function does not take it)"]

NAMES = ["a", "b", "c", "d"]
KEYS = ["a", "b", "k", "type_", "key"]
VARS = ["VPF_ONE", "VPF_TWO"]
PLAIN = [0, 1, "text", None, [1, 2], "", False]


@st.composite
def spec(draw, depth=0, session=False):
    """["v", x] ["simple", x] ["private", x] ["arg", key, has default] ["func", number of the function] ["env", var, has default] ["pipe", [...]] ["task"]"""
    kinds = ["v", "v", "simple", "private", "arg", "arg", "func", "func", "env"]
    if depth == 0 and not session:
        kinds += ["pipe", "task", "where", "cli"]
    k = draw(st.sampled_from(kinds))
    if k in ("v", "simple", "private"):
        return [k, draw(st.sampled_from(PLAIN))]
    if k == "arg":
        # a session parameter may stand for another one, later in the list: no cycles
        return [k, draw(st.sampled_from(["k", "key"] if session else KEYS)), session or draw(st.sampled_from([True, True, False]))]
    if k == "func":
        return [k, draw(st.integers(0, 3))]
    if k == "env":
        return [k, draw(st.sampled_from(VARS)), session or draw(st.sampled_from([True, True, False]))]
    if k == "pipe":
        return [k, [draw(spec(depth=1)) for _ in range(draw(st.integers(2, 3)))]]
    if k == "where":
        return [k, draw(st.sampled_from([None, "pre", "post"]))]
    if k == "cli":
        return [k, draw(st.sampled_from(["--one", "--two", "--none"])), draw(st.booleans())]
    return [k]


@st.composite
def case(draw, execs=("main", "main", "async", "thread"), steps=6):
    params = []
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
        d = draw(st.sampled_from(["none", "none", "plain", "arg", "arg"]))
        s = draw(spec()) if d == "arg" else ["v", draw(st.sampled_from(PLAIN))] if d == "plain" else None
        if d == "arg" and s[0] == "v":
            d = "plain"
        params.append([name, d, s])
    # parameters without a default first; the rest may be keyword only
    params.sort(key=lambda p: p[1] != "none")
    own = {n: draw(spec()) for n in draw(st.lists(st.sampled_from([p[0] for p in params] * 3 + ["z"]), max_size=3, unique=True))}
    out = []
    for _ in range(draw(st.integers(1, steps))):
        ch = []
        for _ in range(draw(st.integers(0, 2))):
            ch.append(draw(st.one_of(
                st.tuples(st.just("session"), st.sampled_from(KEYS + ["c"]), spec(session=True)),
                st.tuples(st.just("unset"), st.sampled_from(KEYS)),
                st.tuples(st.just("env"), st.sampled_from(VARS), st.sampled_from([None, "1", "x y", ""])),
            ).map(list)))
        batch = {n: draw(spec()) for n in draw(st.lists(st.sampled_from([p[0] for p in params] * 3 + ["z"]), max_size=2, unique=True))} if draw(st.booleans()) else None
        out.append({"change": ch, "batch": batch, "form": draw(st.sampled_from(["dict", "parameters", "kwargs", "both"]))})
    sess = {n: draw(spec(session=True)) for n in draw(st.lists(st.sampled_from(KEYS + ["c", "d"]), max_size=4, unique=True))}
    return {"params": params, "kwonly": draw(st.integers(0, 4)), "varkw": draw(st.sampled_from([False, False, True])), "own": own, "session": sess, "steps": out,
            "exec": draw(st.sampled_from(execs)), "form": draw(st.sampled_from(["func", "func", "decorator", "path"])), "mat": draw(st.sampled_from(["post", "post", "pre"])), "is_async": draw(st.booleans())}


FUNCS = '''
def f0():
    return "f0"
def f1(x=Arg("k", default="no k"), y=SimpleArg(3)):
    return ["f1", x, y]
def f2(x=EnvArg("VPF_ONE", default="no env")):
    return ["f2", x]
def f3(x=FuncArg(f1)):
    return ["f3", x]
def where():
    return [os.getpid(), threading.get_ident()]
'''


def source(s):
    k = s[0]
    if k == "v":
        return repr(s[1])
    if k in ("simple", "private"):
        return f"{'SimpleArg' if k == 'simple' else 'Private'}({s[1]!r})"
    if k == "arg":
        return f"Arg({s[1]!r}{', default=' + repr('no ' + s[1]) if s[2] else ''})"
    if k == "env":
        return f"EnvArg({s[1]!r}{', default=' + repr('no ' + s[1]) if s[2] else ''})"
    if k == "cli":
        return f"CliArg({s[1]!r}{', default=' + repr('no ' + s[1]) if s[2] else ''})"
    if k == "func":
        return f"FuncArg(f{s[1]})"
    if k == "pipe":
        return " >> ".join(source(x) if x[0] != "v" else f"SimpleArg({x[1]!r})" for x in s[1])
    if k == "where":
        return f"FuncArg(where, materialize={s[1]!r})"
    return "Task()"


class Missing(Exception):
    pass


def value(s, session, env):
    k = s[0]
    if k in ("v", "simple", "private"):
        return s[1]
    if k == "arg":
        if s[1] in session:
            return value(session[s[1]], session, env)
        if s[2]:
            return "no " + s[1]
        raise Missing()
    if k == "env":
        if env.get(s[1]) is not None:
            return env[s[1]]
        if s[2]:
            return "no " + s[1]
        raise Missing()
    if k == "cli":
        v = {"--one": "first", "--two": "--three"}.get(s[1])
        if v is not None:
            return v
        if s[2]:
            return "no " + s[1]
        raise Missing()
    if k == "func":
        f1 = lambda: ["f1", value(["arg", "k", True], session, env), 3]
        return {0: lambda: "f0", 1: f1, 2: lambda: ["f2", env.get("VPF_ONE") if env.get("VPF_ONE") is not None else "no env"], 3: lambda: ["f3", f1()]}[s[1]]()
    if k == "pipe":
        for x in s[1]:
            try:
                return value(x, session, env)
            except Missing:
                continue
        raise Missing()
    if k == "where":
        return ["where", s[1]]
    return "the task"


def run(c, ctx):
    from rocketry.args import CliArg
    from rocketry.core import Parameters
    ex = c["exec"]
    params = c["params"]
    names = [p[0] for p in params]
    sig = []
    for i, (name, d, s) in enumerate(params):
        if i == len(params) - c["kwonly"] and c["kwonly"] > 0:
            sig.append("*")
        sig.append(name if d == "none" else f"{name}={source(s)}")
    if c["kwonly"] >= len(params) and params:
        sig.insert(0, "*") if "*" not in sig else None
    if c["varkw"]:
        sig.append("**more")
    got = ", ".join([f"{n!r}: {n}" for n in names] + (["**more"] if c["varkw"] else []))
    text = ("import os, threading\nfrom rocketry.args import *\nfrom rocketry.args import Arg, SimpleArg, FuncArg, EnvArg, CliArg, Private, Task\n" + FUNCS
            + f"\n{'async ' if c['is_async'] else ''}def main({', '.join(sig)}):\n"
            + f"    got = {{{got}}}\n"
            + "    return {k: v.name if hasattr(v, 'name') else v for k, v in got.items()}, os.getpid(), threading.get_ident()\n")
    ns = {"__name__": "vpf_generated"}
    exec(compile(text, "<generated>", "exec"), ns)
    make = lambda s: eval(source(s), ns)
    tmp = tempfile.mkdtemp(prefix="vpf-c16-")
    old_cli, old_env = CliArg.cli_args, {k: os.environ.pop(k, None) for k in VARS}
    CliArg.cli_args = ["prog", "--one", "first", "--two", "--three", "x"]
    contested = False
    seen = {}
    import threading
    here = [os.getpid(), threading.get_ident()]
    try:
        with Env(execution="main", param_materialize=c["mat"], silence_task_prerun=True) as env:
            session = env.session
            kw = dict(name="the task", execution=ex, parameters={k: make(s) for k, s in c["own"].items()})
            if c["form"] == "path":
                path = os.path.join(tmp, "generated_task.py")
                with open(path, "w") as f:
                    f.write(text)
                task = session.create_task(path=path, func_name="main", **kw)
            elif c["form"] == "decorator":
                session.create_task(**kw)(ns["main"])
                task = session["the task"]
            else:
                task = session.create_task(func=ns["main"], **kw)
            sess, envs = {}, {}
            trace = [f"def main({', '.join(sig)}), parameters={{{', '.join(f'{k}: {source(s)}' for k, s in c['own'].items())}}}, {ex}, {c['form']}, materialize {c['mat']}"]

            def change(ch):
                if ch[0] == "session":
                    _, k, s = ch
                    if (s[0] == "arg" and (s[1] == k or k in ("k", "key"))) or (k in ("k", "key") and s[0] == "func" and s[1] in (1, 3)):
                        return
                    sess[k] = s
                    if s[0] == "func" and c["is_async"]:
                        from rocketry.parameters import FuncParam
                        FuncParam(k, session=session)(ns[f"f{s[1]}"])
                    elif s[0] == "func":
                        session.parameters.param_func(ns[f"f{s[1]}"], key=k)
                    else:
                        session.parameters[k] = make(s)
                elif ch[0] == "unset":
                    sess.pop(ch[1], None)
                    keep = {k: make(s) for k, s in sess.items()}
                    session.parameters.clear()
                    session.parameters.update(keep)
                else:
                    envs[ch[1]] = ch[2]
                    if ch[2] is None:
                        os.environ.pop(ch[1], None)
                    else:
                        os.environ[ch[1]] = ch[2]
            for k, s in c["session"].items():
                change(["session", k, s])
            for n, step in enumerate(c["steps"], 1):
                for ch in step["change"]:
                    change(ch)
                # --- expected
                want, fails = {}, None
                direct = dict(c["own"])
                direct.update(step["batch"] or {})
                levels = {}
                for name, d, s in params:
                    offers = [x for x in ((step["batch"] or {}).get(name), c["own"].get(name), s if d == "arg" else None, sess.get(name), s if d == "plain" else None) if x is not None]
                    if len(offers) > 1:
                        contested = True
                    if not offers:
                        fails = "missing"
                        continue
                    levels[name] = offers[0]
                for name in direct:
                    if name not in names:
                        if not c["varkw"]:
                            fails = "unexpected"
                        levels[name] = direct[name]
                for name, s in levels.items():
                    try:
                        want[name] = value(s, sess, envs)
                    except Missing:
                        fails = "unresolved"
                trace.append(f"changes {[(x[:2] + [source(x[2])]) if x[0] == 'session' else x for x in step['change']]}; run({ {k: source(s) for k, s in (step['batch'] or {}).items()} }); session parameters { {k: source(s) for k, s in sess.items()} }; expected {fails or want}")
                session.returns[task] = "nothing"
                form = step.get("form", "dict")
                given = rest = None
                if step["batch"] is None:
                    task.run()
                else:
                    vals = {k: make(s) for k, s in step["batch"].items()}
                    cut = {"kwargs": 0, "both": 1}.get(form, len(vals))
                    given, rest = dict(list(vals.items())[:cut]), dict(list(vals.items())[cut:])
                    if form in ("parameters", "both"):
                        given = Parameters(given)
                    names_given = sorted(given)
                    task.run(given, **rest)
                    check(sorted(given) == names_given, lambda: f"what run() was given now has {sorted(given)}, it had {names_given}")
                    # what is given later is not of this run
                    given["a"] = "changed after the call"
                    names_given = sorted(given)
                names_session, names_task = sorted(session.parameters), sorted(task.parameters)
                before = len(env.records())
                Sim(env, 1).run_ok()
                new = [r["action"] for r in env.records()[before:]]
                show = lambda: "\n  " + "\n  ".join(trace)
                check(sorted(session.parameters) == names_session, lambda: f"the run changed the session's parameters: {sorted(session.parameters)}, before {names_session}{show()}")
                check(sorted(task.parameters) == names_task, lambda: f"the run changed the task's parameters: {sorted(task.parameters)}, before {names_task}{show()}")
                check(given is None or sorted(given) == names_given, lambda: f"the run changed the mapping it was asked for with: {sorted(given)}, before {names_given}{show()}")
                if fails:
                    check(new == ["run", "fail"], lambda: f"a run that cannot have its parameters ({fails}) was logged as {new}, expected run and fail{show()}")
                    ctx.label("fails: " + fails)
                    continue
                check(new == ["run", "success"], lambda: f"the last run was logged as {new}, expected run and success; got {session.returns[task]!r}{show()}")
                values, pid, ident = session.returns[task]
                check(set(values) == set(want), lambda: f"the last run got the parameters {values}, expected {want}{show()}")
                for name, w in want.items():
                    g = values[name]
                    if isinstance(w, list) and w[:1] == ["where"] and levels[name][0] == "where":
                        pre = (w[1] or c["mat"]) == "pre"
                        exp = here if pre or ex in ("main", "async") else [pid, ident]
                        check(g == exp, lambda: f"function argument {name} was evaluated in (process, thread) {g}, expected {exp}: it is to be evaluated {'before' if pre else 'after'} the {ex} is created{show()}")
                    elif isinstance(w, list) and w[:1] == ["where"]:
                        pass
                    else:
                        check(g == w and type(g) is type(w), lambda: f"parameter {name} of the last run was {g!r}, expected {w!r}{show()}")
                        seen.setdefault(name, set()).add(json.dumps(w))
    finally:
        CliArg.cli_args = old_cli
        for k, v in old_env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.label(ex, c["form"], "async function" if c["is_async"] else "function")
    ctx.nontrivial(contested or any(len(v) > 1 for v in seen.values()))


PARTS = [
    Part("runs", lambda: case(), run, 3000, 60000, RULE),
    Part("processes", lambda: case(execs=("process",), steps=3), run, 120, 3000, RULE),
]
