#!/usr/bin/env python3
"""Make and confirm planted changes in scratch copies of /repo (a tool; no check uses it).

  seedgen.py SPECS.py [ID...]   SPECS.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)]
                                a seed is kept under /verif/seeded when its demo tells both trees apart and the stable tests pass
  seedgen.py --recheck [ID...]  run the property's check against the kept seeds again
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
BASE = "166e0a7"
SH = r'''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC PYTHONDONTWRITEBYTECODE=1
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here/demo.py" "$work/demo.py"
cd_repo="$PWD"
cd "$work" && PYTHONPATH="$cd_repo" timeout 120 /opt/venv/bin/python -W ignore "$work/demo.py"
'''
PRE = '''import sys, datetime, logging
from rocketry import Rocketry, Session
from rocketry.conditions import SchedulerCycles
logging.disable(logging.NOTSET)


def want(got, expected, what=""):
    if got != expected:
        print("BROKEN", what, "got", got, "expected", expected)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(d, base):
    sys.path.insert(0, "/verif/tools")
    import mutate
    with open(os.path.join(base, "mutplug.py"), "w") as f:
        f.write(mutate.PLUG)
    env = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{base}:{d}", HOME=base)
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "mutplug", "--timeout=100", "--ignore=rocketry/test/session/test_control.py", "--ignore=rocketry/test/schedule/test_multilaunch.py",
            "--ignore=rocketry/test/schedule/test_terminate.py", f"--basetemp={base}/t", "rocketry"], cwd=d, env=env, timeout=400)
    if "STABLE-FAIL" not in r.stdout and " passed" in r.stdout:
        return "pass"
    return "FAIL " + " ".join(re.findall(r"STABLE-FAIL (\S+)", r.stdout)[:2])


def check(d, prop, base):
    vd = os.path.join(base, "verif")
    shutil.copytree("/verif", vd, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    r = sh([os.path.join(vd, "check"), prop], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), timeout=900)
    ok = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    return "CAUGHT" if ok else f"missed (rc={r.returncode})" + ("" if r.returncode in (0, 1) else r.stdout[-500:])


def demo(folder, d):
    return sh(["bash", os.path.join(folder, "demo.sh")], cwd=d, timeout=200)


def one(s):
    base = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        d = os.path.join(base, "repo")
        sh(["cp", "-a", "/repo", d])
        sh(["git", "-C", d, "checkout", "--", "."])
        out = os.path.join(base, s["id"])
        os.makedirs(out)
        with open(out + "/demo.sh", "w") as f:
            f.write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/demo.py", "w") as f:
            f.write(PRE + s["demo"])
        for fn, old, new in s["edits"]:
            p = os.path.join(d, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: text found {t.count(old)} times in {fn}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", d, "diff"]).stdout
        # are the changed lines the original's?
        lines = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = []
        for fn, *_ in s["edits"]:
            orig = sh(["git", "-C", d, "show", f"{BASE}:{fn}"]).stdout.splitlines()
            mine += [l for l in lines if l not in orig]
        r1 = demo(out, d)
        sh(["git", "-C", d, "stash"])
        r0 = demo(out, d)
        sh(["git", "-C", d, "stash", "pop"])
        res = f"{s['id']} {s['prop']}: demo clean={r0.returncode} patched={r1.returncode}"
        if mine:
            res += f" [lines not of the original: {mine[:2]}]"
        if r0.returncode != 0 or r1.returncode == 0:
            return res + "\n   clean: " + r0.stdout[-600:] + "\n   patched: " + r1.stdout[-600:]
        t = tests(d, base)
        res += f" tests={t}"
        c = check(d, s["prop"], base)
        res += f" check={c}"
        if t == "pass" and not mine:
            dst = "/verif/seeded/" + s["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        else:
            res += " NOT KEPT"
        return res + "   " + r1.stdout.strip()[-150:]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def recheck(i):
    base = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        d = os.path.join(base, "repo")
        sh(["cp", "-a", "/repo", d])
        dst = "/verif/seeded/" + i
        r0 = demo(dst, d)
        a = sh(["git", "-C", d, "apply", dst + "/patch.diff"])
        if a.returncode:
            return f"{i}: does not apply: {a.stdout}"
        r1 = demo(dst, d)
        prop = json.load(open(dst + "/meta.json"))["property"]
        return f"{i} {prop}: demo clean={r0.returncode} patched={r1.returncode} check={check(d, prop, base)}"
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir("/verif/seeded"))
        f = recheck
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        ids = [s for s in ns["SEEDS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
        f = one
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(f, ids):
            print(r, flush=True)
