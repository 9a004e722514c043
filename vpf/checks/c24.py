"""C24: commands, code and functions in files: what a run of each task type executes, and how its outcome is told."""
import json
import os
import shutil
import sys
import tempfile
import time

from hypothesis import strategies as st

from ..core import Part, check
from ..env import Env
from ..sim import Sim, wait_for

RULE = "a task had several runs with different parameters or outcomes"
ASSUMPTIONS = ["values of options of commands given as text have no characters special to the shell within double quotes", "no session parameters are set where commands or code are run",
               "the output of a command is small"]

EXECS = ["main", "main", "async", "thread", "process"]
TEXT = st.text(st.sampled_from("abc XYZ09._-=/äß€"), max_size=8)
ANY = st.text(st.sampled_from("ab \"'$`\\*;|&<>(){}#~!%\n\tä€-"), max_size=8)
NAMES = ["x", "y", "name", "verbose", "-f", "--long-one", "out_file"]


@st.composite
def cmd_case(draw):
    kind = draw(st.sampled_from(["list", "list", "shell", "program"]))
    vals = st.one_of(ANY if kind == "list" else TEXT, st.integers(-5, 5), st.sampled_from([0.5, True, None, "", "a path"]), st.sampled_from([["func", "from a function"], ["simple", 7]]))
    pars = st.dictionaries(st.sampled_from(NAMES), vals, max_size=3) if kind != "program" else st.just({})
    runs = [{"params": draw(pars), "code": draw(st.sampled_from([0, 0, 0, 1, 2, 77, 255, "killed"])), "out": draw(st.sampled_from(["", "done\n", "ä€\n", "a\nb"])), "err": draw(st.sampled_from(["", "went wrong\n", "schlecht: ä", "\udcff\udcfe broken \udce4"])),
             "set": draw(st.one_of(st.none(), st.none(), pars))} for _ in range(draw(st.integers(1, 4)))]
    ex = draw(st.sampled_from(EXECS))
    slow = kind != "shell" and ex == "main" and draw(st.integers(0, 7)) == 0
    if slow:
        runs[-1]["code"] = "slow"
    popen = draw(st.sampled_from([None, None, "text", "env"]))
    for r in runs:
        if popen == "text" and "broken" in r["err"]:
            r["err"] = "went wrong\n"
    return {"kind": kind, "argform": draw(st.sampled_from(["unset", None, "-", "--", "short", "long"])), "exec": ex, "params": draw(pars), "runs": runs, "fixed": draw(st.lists(st.sampled_from(["sub", "--flag", "-v"]), max_size=2)),
            "cwd": draw(st.sampled_from([None, None, "here", "there"])), "popen": popen, "timeout": draw(st.sampled_from([None, None, None, 60, "1 minute", "2 hours", "never"])) if not slow else draw(st.sampled_from([0.25, "250 ms"])), "named": draw(st.booleans())}


SCRIPT = """#!/bin/sh
D={folder}
for a in "$@"; do printf '%s\\0' "$a"; done > $D/args
pwd > $D/cwd
printf '%s' "$VPF_MARK" > $D/mark
cat $D/out
cat $D/err >&2
code=$(cat $D/code)
if [ $code = killed ]; then kill -9 $$; fi
if [ $code = slow ]; then exec sleep 60; fi
exit $code
"""


def cmd_run(c, ctx):
    from rocketry.args import FuncArg, SimpleArg
    from rocketry.log import LogRecord
    folder = os.path.realpath(tempfile.mkdtemp(prefix="vpf-cmd-"))
    try:
        script = os.path.join(folder, "script")
        with open(script, "w") as f:
            f.write(SCRIPT.format(folder=folder))
        os.chmod(script, 0o755)
        for d in ("here", "there"):
            os.mkdir(os.path.join(folder, d))
        kind = c["kind"]
        fixed = [] if kind == "program" else c["fixed"]
        command = ["sh", script, *fixed] if kind == "list" else script if kind == "program" else " ".join(["sh", script, *fixed])
        given = list(command) if isinstance(command, list) else command
        kw = {}
        if c["argform"] != "unset":
            kw["argform"] = c["argform"]
        if c["cwd"]:
            kw["cwd"] = os.path.join(folder, c["cwd"])
        if c["popen"]:
            kw["kwds_popen"] = {"text": True} if c["popen"] == "text" else {"env": {"VPF_MARK": "marked", "PATH": os.environ["PATH"]}}
        if c["timeout"] is not None:
            kw["timeout"] = c["timeout"]
        if c["named"]:
            kw["name"] = "cmd"

        def val(v):
            return FuncArg(lambda x=v[1]: x) if isinstance(v, list) and v[0] == "func" else SimpleArg(v[1]) if isinstance(v, list) else v

        def plain(v):
            return v[1] if isinstance(v, list) else v

        def wire(pars):
            return {k: val(v) for k, v in pars.items()}
        with Env(execution="main", model=LogRecord) as env:
            session = env.session
            task = session.create_task(command=command, shell=kind == "shell", execution=c["exec"], parameters=wire(c["params"]), **kw)
            show = lambda: f"\n  {c}"
            want_name = "cmd" if c["named"] else given if isinstance(given, str) else " ".join(given)
            check(task.name == want_name, lambda: f"the task is called {task.name!r} instead of {want_name!r}{show()}")
            own = dict(c["params"])
            dash = {"unset": "--", None: "--", "-": "-", "short": "-", "--": "--", "long": "--"}[c["argform"]]
            last = None
            for no, r in enumerate(c["runs"]):
                if r["set"] is not None:
                    own = dict(r["set"])
                    task.parameters = wire(own)
                for f in ("args", "cwd", "mark"):
                    if os.path.exists(os.path.join(folder, f)):
                        os.remove(os.path.join(folder, f))
                for f in ("out", "err", "code"):
                    with open(os.path.join(folder, f), "wb") as fh:
                        fh.write(str(r[f]).encode("utf-8", "surrogateescape"))
                task.run(**wire(r["params"]))
                n0 = len(env.records())
                t0 = time.monotonic()

                def after(i):
                    wait_for(lambda: not task.is_alive() or c["exec"] == "async", "the command to end")
                Sim(env, 2, after=after).run_ok()
                recs = env.records()[n0:]
                say = lambda: f" (run {no + 1}){show()}"
                acts = [x["action"] for x in recs]
                good = r["code"] == 0
                check(acts == ["run", "success" if good else "fail"], lambda: f"a command with exit code {r['code']} is logged as {acts}: {recs[-1].get('exc_text') if recs else ''}{say()}")
                if r["code"] == "slow":
                    # (it was killed maybe before it could begin)
                    check(time.monotonic() - t0 < 30, lambda: f"the command was not stopped at its timeout{say()}")
                    continue
                with open(os.path.join(folder, "args")) as f:
                    args = f.read().split("\0")[:-1]
                check(args[:len(fixed)] == fixed, lambda: f"the command got {args} instead of {fixed} first{say()}")
                opts = args[len(fixed):]
                both = {**own, **r["params"]}
                want = sorted((k if k.startswith("-") else dash + k, str(plain(v))) for k, v in both.items())
                got = sorted(zip(opts[::2], opts[1::2])) if len(opts) % 2 == 0 else opts
                check(got == want, lambda: f"the command got the options {opts} instead of {want}{say()}")
                with open(os.path.join(folder, "cwd")) as f:
                    cwd = f.read().rstrip("\n")
                check(cwd == (os.path.join(folder, c["cwd"]) if c["cwd"] else os.getcwd()), lambda: f"the command ran in {cwd}{say()}")
                with open(os.path.join(folder, "mark")) as f:
                    check((f.read() == "marked") == (c["popen"] == "env"), lambda: f"the environment of the command is not the one given{say()}")
                if good:
                    last = (r["out"] if c["popen"] == "text" else r["out"].encode(),)
                else:
                    text = recs[-1]["exc_text"] or ""
                    code = -9 if r["code"] == "killed" else r["code"]
                    err = r["err"] if r["err"].isprintable() or r["err"].endswith("\n") else "broken"      # (the bytes that are not text may be shown in any way)
                    check((f"({code})" in text or (code == -9 and "(137)" in text)) and err.strip() in text, lambda: f"a failing command (exit code {code}, {r['err']!r}) is logged with {text!r}{say()}")
                got = (session.returns[task],) if last is not None else None
                check(last is None or got == last, lambda: f"the return value is {got} instead of {last}{say()}")
                check(task.command == given, lambda: f"the task's command is {task.command!r} after the run, it was {given!r}{say()}")
                have = {k: plain(v) for k, v in own.items()}
                now = {k: v.get_value() if hasattr(v, "get_value") else v for k, v in task.parameters.items()}
                check(now == have, lambda: f"the task's parameters are {now} after the run instead of {have}{say()}")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label(kind, c["exec"], str(c["argform"]))
    ctx.nontrivial(len(c["runs"]) > 1 and (any(r["params"] for r in c["runs"]) or c["params"] or len({r["code"] for r in c["runs"]}) > 1))


# ------------------------------------------------------------------------ code

@st.composite
def code_case(draw):
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        runs.append({"params": draw(st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 9), max_size=2)), "code": draw(st.sampled_from([None, None, "sum", "sum", "none", "raise", "inaction", "leak", "func", "other", "syntax", "local", "glob", "glob"]))})
    return {"exec": draw(st.sampled_from(EXECS)), "params": draw(st.dictionaries(st.sampled_from(["a", "b", "c"]), st.integers(0, 9), max_size=3)), "runs": runs, "first": draw(st.sampled_from(["sum", "none", "leak", "other", "local", "glob"])),
            "var": draw(st.sampled_from([None, None, "result"]))}


CODES = {"sum": "total = 0\nfor v in [{names}]:\n    total += v\n{var} = ['sum', total]",
         "none": "x = 1",
         "raise": "raise RuntimeError('fails so')",
         "inaction": "from rocketry.exc import TaskInactionException\nraise TaskInactionException()",
         "leak": "{var} = ['leak', 'kept' in locals() or 'kept' in globals(), 'total' in locals()]\nkept = 1",
         "func": "def double(x):\n    return 2 * x\n{var} = ['func', double(21)]",
         "other": "return_value_ = 1\nresult_ = 2\n{var} = 'text'",
         "local": "{var} = ['local', sorted(k for k in locals() if k in ('a', 'b', 'c', 'd'))]",
         "glob": "global kept, more\n{var} = ['glob', 'kept' in globals() or 'more' in globals()]\nkept = 1\ndef set_more():\n    global more\n    more = 2\nset_more()",
         "syntax": "if True"}


def code_run(c, ctx):
    from rocketry.tasks import CodeTask
    var = c["var"] or "return_value"
    with Env(execution="main") as env:
        session = env.session
        kw = {"output_variable": c["var"]} if c["var"] else {}

        def text(kind, names):
            return CODES[kind].format(names=", ".join(names), var=var)
        # the code is written for the parameters the run gets
        kind = c["first"]
        task = None
        show = lambda: f"\n  {c}"
        missing = object()
        last = missing
        for no, r in enumerate(c["runs"]):
            both = {**c["params"], **r["params"]}
            if r["code"]:
                kind = r["code"]
            code = text(kind, sorted(both))
            if task is None:
                task = CodeTask(code=code, name="code", execution=c["exec"], parameters=dict(c["params"]), session=session, **kw)
            else:
                task.code = code
            task.run(**r["params"])
            n0 = len(env.records())

            def after(i):
                wait_for(lambda: not task.is_alive() or c["exec"] == "async", "the code to end")
            Sim(env, 2, after=after).run_ok()
            acts = [x["action"] for x in env.records()[n0:]]
            say = lambda: f" (run {no + 1}: {code!r} with {both}){show()}"
            out = {"raise": "fail", "syntax": "fail", "inaction": "inaction"}.get(kind, "success")
            check(acts == ["run", out], lambda: f"the run is logged as {acts} instead of {['run', out]}{say()}")
            if out == "success":
                last = {"sum": ["sum", sum(both.values())], "none": None, "leak": ["leak", False, False], "func": ["func", 42], "glob": ["glob", False], "other": "text", "local": ["local", sorted(both)]}[kind]
            got = session.returns[task] if last is not missing else missing
            check(got == last, lambda: f"the return value is {got!r} instead of {last!r}{say()}")
            check(dict(task.parameters.items()) == c["params"], lambda: f"the task's parameters are {dict(task.parameters.items())} after the run{say()}")
            check(task.code == code, lambda: f"the task's code is {task.code!r} after the run{say()}")
    ctx.label(c["exec"], *{r["code"] or c["first"] for r in c["runs"]})
    ctx.nontrivial(len(c["runs"]) > 1)


# ----------------------------------------------------------------------- files

@st.composite
def file_case(draw):
    runs = [{"edit": draw(st.sampled_from([None, None, "new", "new", "gone", "broken", "no function", "raises"])), "params": draw(st.dictionaries(st.sampled_from(["x"]), st.integers(0, 9)))} for _ in range(draw(st.integers(1, 4)))]
    return {"exec": draw(st.sampled_from(EXECS)), "func_name": draw(st.sampled_from([None, "main", "work"])), "where": draw(st.sampled_from(["flat", "flat", "package", "deep"])), "helper": draw(st.sampled_from([None, "sibling", "sys_paths"])),
            "is_async": draw(st.booleans()), "params": draw(st.dictionaries(st.sampled_from(["x", "y"]), st.integers(0, 9))), "runs": runs, "create": draw(st.sampled_from(["create_task", "FuncTask", "app"])),
            # folders that were importable before (and stay so)
            "known": draw(st.lists(st.sampled_from(["home", "root", "lib"]), max_size=2, unique=True))}


_uniq = [0]


def file_run(c, ctx):
    from rocketry.tasks import FuncTask
    folder = os.path.realpath(tempfile.mkdtemp(prefix="vpf-file-"))
    _uniq[0] += 1
    tag = f"{os.getpid()}_{_uniq[0]}"
    mods = set(sys.modules)
    path0 = list(sys.path)
    try:
        if c["where"] == "flat":
            home = folder
            dotted = ""
        else:
            home = os.path.join(folder, f"pkg_{tag}")
            os.mkdir(home)
            open(os.path.join(home, "__init__.py"), "w").close()
            dotted = f"pkg_{tag}."
            if c["where"] == "deep":
                home = os.path.join(home, "sub")
                os.mkdir(home)
                open(os.path.join(home, "__init__.py"), "w").close()
                dotted += "sub."
        path = os.path.join(home, f"vpf_file_{tag}.py")
        helper = ""
        extra = os.path.join(folder, "lib")
        os.mkdir(extra)
        if c["helper"]:
            at = home if c["helper"] == "sibling" else extra
            with open(os.path.join(at, f"vpf_help_{tag}.py"), "w") as f:
                f.write("VALUE = 'helped'\n")
            helper = f"from {dotted if c['helper'] == 'sibling' else ''}vpf_help_{tag} import VALUE\n"
        name = c["func_name"] or "main"
        mtime = [1_600_000_000]

        def write(version, how="new"):
            # (Python tells versions of a file by its time of modification, in seconds)
            mtime[0] += 10
            with open(path, "w") as f:
                if how == "broken":
                    f.write("def main(:\n")
                elif how == "raises":
                    f.write("raise RuntimeError('cannot be imported')\n")
                else:
                    fn = name if how == "new" else "another"
                    f.write(helper + f"{'async ' if c['is_async'] else ''}def {fn}(x=0, y=0):\n    return ['version', {version}, x, y, {'VALUE' if helper else None}]\n")
            os.utime(path, (mtime[0], mtime[0]))
        for k, d in enumerate(c["known"]):
            sys.path.insert(k, {"home": home, "root": folder, "lib": extra}[d])
        version = 1
        state = "new"
        write(version)
        with Env(app=True, execution="main", silence_task_prerun=True) as env:
            session = env.session
            kw = {"path": path, "name": "file", "execution": c["exec"], "parameters": dict(c["params"])}
            if c["func_name"]:
                kw["func_name"] = c["func_name"]
            if c["helper"] == "sys_paths":
                kw["sys_paths"] = [extra]
            if c["create"] == "create_task":
                session.create_task(**kw)
            elif c["create"] == "FuncTask":
                FuncTask(session=session, **kw)
            else:
                env.app.task(**kw)
            task = session["file"]
            show = lambda: f"\n  {c}"
            missing = object()
            last = missing
            for no, r in enumerate(c["runs"]):
                if r["edit"]:
                    state = r["edit"]
                    version += 1
                    if state == "gone":
                        if os.path.exists(path):
                            os.remove(path)
                    else:
                        write(version, state)
                task.run(**r["params"])
                n0 = len(env.records())
                before = list(sys.path)

                def after(i):
                    wait_for(lambda: not task.is_alive() or c["exec"] == "async", "the run to end")
                Sim(env, 2, after=after).run_ok()
                acts = [x["action"] for x in env.records()[n0:]]
                say = lambda: f" (run {no + 1}, the file is {state!r}){show()}"
                ok = state == "new"
                check(acts == ["run", "success" if ok else "fail"], lambda: f"the run is logged as {acts}{say()}")
                if ok:
                    both = {**c["params"], **r["params"]}
                    last = ["version", version, both.get("x", 0), both.get("y", 0), "helped" if helper else None]
                got = session.returns[task] if last is not missing else missing
                check(got == last, lambda: f"the return value is {got!r} instead of {last!r}{say()}")
                check(sys.path == before, lambda: f"sys.path is {sys.path} after the run instead of {before}{say()}")
    finally:
        sys.path[:] = path0
        shutil.rmtree(folder, ignore_errors=True)
        for m in set(sys.modules) - mods:
            if tag in m:
                del sys.modules[m]
    ctx.label(c["exec"], c["where"], *{str(r["edit"]) for r in c["runs"]})
    ctx.nontrivial(len(c["runs"]) > 1 and any(r["edit"] for r in c["runs"]))


# --------------------------------------------------------------- several at once

@st.composite
def at_once_case(draw):
    steps = [{"edit": draw(st.booleans()), "start": draw(st.sampled_from([True, True, False])), "end": draw(st.sampled_from([None, None, 0, 1, 2]))} for _ in range(draw(st.integers(2, 6)))]
    return {"exec": draw(st.sampled_from(["async", "async", "thread", "process"])), "steps": steps}


def at_once_run(c, ctx):
    "runs of a file that overlap, the file being edited meanwhile"
    folder = os.path.realpath(tempfile.mkdtemp(prefix="vpf-file-"))
    _uniq[0] += 1
    path = os.path.join(folder, f"vpf_once_{os.getpid()}_{_uniq[0]}.py")
    mtime = [1_600_000_000]
    mods = set(sys.modules)

    def write(version):
        mtime[0] += 10
        a = c["exec"] == "async"
        with open(path, "w") as f:
            f.write(f"import asyncio, json, os, time\n{'async ' if a else ''}def main(run, p{version}=None):\n"
                    f"    with open({folder!r} + f'/new{{run}}', 'w') as f:\n        f.write(json.dumps([{version}, p{version}]))\n    os.rename({folder!r} + f'/new{{run}}', {folder!r} + f'/began{{run}}')\n"
                    f"    end = time.monotonic() + 60\n    while not os.path.exists({folder!r} + f'/end{{run}}') and time.monotonic() < end:\n        {'await asyncio.sleep(0)' if a else 'time.sleep(0.001)'}\n    return [{version}, run]\n")
        os.utime(path, (mtime[0], mtime[0]))

    def let(k):
        open(os.path.join(folder, f"end{k}"), "w").close()
    try:
        with Env(execution="main", multilaunch=True, silence_task_prerun=True, max_process_count=100) as env:
            session = env.session
            version = 1
            write(version)
            task = session.create_task(path=path, name="file", execution=c["exec"])
            at = []          # run -> version
            over = []
            n = len(c["steps"])

            def before(i):
                nonlocal version
                if i > n:
                    for k in range(len(at)):
                        if k not in over:
                            over.append(k)
                            let(k)
                    return
                step = c["steps"][i - 1]
                if step["edit"]:
                    version += 1
                    write(version)
                if step["start"]:
                    task.run(**{"run": len(at), f"p{version}": 10 * len(at)})
                    at.append(version)

            def after(i):
                if c["exec"] != "async":
                    for k in range(len(at)):
                        wait_for(lambda: os.path.exists(os.path.join(folder, f"began{k}")) or task.n_alive < len(at) - len(over), f"run {k} to begin", 60)
                if i <= n and c["steps"][i - 1]["end"] is not None:
                    alive = [k for k in range(len(at)) if k not in over and os.path.exists(os.path.join(folder, f"began{k}"))]
                    if alive:
                        k = alive[c["steps"][i - 1]["end"] % len(alive)]
                        over.append(k)
                        let(k)
                        if c["exec"] != "async":
                            wait_for(lambda: task.n_alive <= len(at) - len(over), f"run {k} to end", 60)
                if i > n and c["exec"] != "async":
                    wait_for(lambda: not task.is_alive(), "the runs to end", 60)
            Sim(env, n + 3, before, after).run_ok()
            show = lambda: f"\n  {c}"
            for k, v in enumerate(at):
                f = os.path.join(folder, f"began{k}")
                got = json.load(open(f)) if os.path.exists(f) else "not at all"
                check(got == [v, 10 * k], lambda: f"run {k} of the file's version {v} was run as {got} instead of {[v, 10 * k]}{show()}")
            acts = sorted(r["action"] for r in env.records())
            check(acts == ["run"] * len(at) + ["success"] * len(at), lambda: f"{len(at)} runs are logged as {acts}{show()}")
    finally:
        for k in range(len(c["steps"])):
            let(k)
        shutil.rmtree(folder, ignore_errors=True)
        for m in set(sys.modules) - mods:
            if "vpf_once" in m:
                del sys.modules[m]
    ctx.label(c["exec"])
    ctx.nontrivial(len(at) > 1 and len(set(at)) > 1)


PARTS = [Part("commands", cmd_case, cmd_run, 400, 8000, RULE),
         Part("code", code_case, code_run, 400, 8000, "several runs"),
         Part("files", file_case, file_run, 400, 8000, "several runs of a file that was edited between them"),
         Part("overlaps", at_once_case, at_once_run, 200, 4000, "several runs of different versions of a file")]
