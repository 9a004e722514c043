"""Parent: spawns shards, merges their statistics, writes evidence, prints the verdict."""
import argparse
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import boot
from .core import Ctx, Discard, HarnessError, Violation, canon, digest, run_case

VERIF = boot.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.json")


def load_check(pid):
    return importlib.import_module(f"vpf.checks.{pid.lower()}")


def load_findings(pid):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == pid]


def known_keys(pid):
    return {(e["part"], e["key"]) for e in load_findings(pid)}


def corpus(pid):
    for path in sorted(glob.glob(os.path.join(VERIF, "corpus", pid, "*.json"))):
        with open(path) as f:
            yield path, json.load(f)


# ---------------------------------------------------------------- shard side

class StopSearch(BaseException):
    pass


class Alarm(BaseException):
    pass


def run_shard(pid, tier, seed, shard, nshards, out):
    import random
    import signal
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    module = load_check(pid)
    known = known_keys(pid)
    res = {"parts": {}, "failure": None, "error": None, "known": {}}
    budget = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "3000"))
    shrink_budget = 25.0 if tier == "quick" else 120.0
    hang = 90
    start = time.monotonic()

    def on_alarm(signum, frame):
        raise Alarm()
    signal.signal(signal.SIGALRM, on_alarm)

    def guarded(part, case, ctx):
        signal.alarm(hang)
        try:
            run_case(part, case, ctx)
        except Alarm:
            raise Violation(f"the case did not finish within {hang} s (such cases take milliseconds)", key="hang") from None
        finally:
            signal.alarm(0)

    def confirmed(part, case, n=8, secs=100):
        end = time.monotonic() + secs
        for _ in range(n):
            try:
                guarded(part, case, Ctx())
            except Violation:
                return True
            except Discard:
                pass
            if time.monotonic() > end:
                break
        return False

    def save():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    def explicit(part, case, stat, origin):
        ctx = Ctx()
        stat["corpus"] = stat.get("corpus", 0) + 1
        try:
            guarded(part, case, ctx)
        except Discard:
            pass
        except Violation as v:
            if (part.name, v.key) not in known:
                return {"part": part.name, "case": case, "message": str(v), "key": v.key, "origin": origin}
        return None

    try:
        parts = {p.name: p for p in module.PARTS}
        # 1. the committed corpus (saved minimal inputs), on shard 0
        if shard == 0:
            for path, entry in corpus(pid):
                part = parts.get(entry["part"])
                if part is None:
                    raise HarnessError(f"corpus entry {path} names an unknown part")
                stat = res["parts"].setdefault(part.name, new_stat())
                fail = explicit(part, entry["case"], stat, os.path.basename(path))
                if fail:
                    res["failure"] = fail
                    save()
                    return
        # 2. generated search
        for pi, part in enumerate(module.PARTS):
            total = part.quick if tier == "quick" else part.thorough
            total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
            active = min(nshards, part.max_shards)
            if shard >= active:
                continue
            n = total // active + (1 if shard < total % active else 0)
            if n == 0:
                continue
            stat = res["parts"].setdefault(part.name, new_stat())
            state = {"best": None, "fail_t": None, "seen": set()}

            def body(case):
                now = time.monotonic()
                if state["fail_t"] is None:
                    if now - start > budget:
                        stat["skipped"] += 1
                        return
                elif now - state["fail_t"] > shrink_budget:
                    raise StopSearch()
                ctx = Ctx()
                if state["fail_t"] is None:
                    stat["evaluations"] += 1
                try:
                    guarded(part, case, ctx)
                except Discard as d:
                    stat["discarded"] += 1
                    return
                except Violation as v:
                    if (part.name, v.key) in known:
                        k = f"{part.name}|{v.key}"
                        res["known"][k] = res["known"].get(k, 0) + 1
                        return
                    size = len(canon(case))
                    if state["fail_t"] is None:
                        # an alarm that cannot be repeated is not believed (a loaded machine, a lost child process)
                        if not confirmed(part, case):
                            stat["unconfirmed"] += 1
                            if len(stat["unconfirmed_samples"]) < 2:
                                stat["unconfirmed_samples"].append({"case": case, "message": str(v)[:2000]})
                            return
                        state["fail_t"] = time.monotonic()
                        state["first"] = (json.loads(canon(case)), str(v), v.key)
                    if state["best"] is None or size <= state["best"][0]:
                        state["best"] = (size, json.loads(canon(case)), str(v), v.key)
                    raise
                if state["fail_t"] is None:
                    for lab in ctx.labels:
                        stat["labels"][lab] = stat["labels"].get(lab, 0) + 1
                    if ctx._nontrivial:
                        stat["nontrivial_total"] += 1
                        d = digest(case)
                        if d not in state["seen"]:
                            state["seen"].add(d)
                            stat["digests"].append(d)
                            if len(stat["samples"]) < 2:
                                stat["samples"].append(case)

            case_seed = (seed * 1_000_003 + pi * 7919 + shard) % (2 ** 63)
            random.seed(case_seed)
            test = given(part.strategy())(body)
            test = settings(
                max_examples=n, database=None, deadline=None,
                report_multiple_bugs=False, derandomize=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                print_blob=False,
            )(test)
            test = hypothesis.seed(case_seed)(test)
            try:
                test()
            except StopSearch:
                pass
            except HarnessError:
                raise
            except BaseException as exc:
                if state["best"] is None:
                    raise
            stat["wall_s"] = round(time.monotonic() - start, 2)
            if state["best"] is not None:
                # confirm outside the library: the smallest, or else the first
                for case, msg, key in (state["best"][1:], state["first"]):
                    if confirmed(part, case, n=10, secs=60):
                        res["failure"] = {"part": part.name, "case": case, "message": msg, "key": key, "origin": "generated"}
                        break
                else:
                    stat["unconfirmed"] += 1
                    stat["unconfirmed_samples"].append({"case": case, "message": msg[:2000]})
                save()
                return
            save()
    except BaseException as exc:
        import traceback
        res["error"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-8000:]
    save()


def new_stat():
    return {"evaluations": 0, "nontrivial_total": 0, "discarded": 0, "skipped": 0, "unconfirmed": 0, "unconfirmed_samples": [],
            "labels": {}, "digests": [], "samples": [], "wall_s": 0}


# --------------------------------------------------------------- parent side

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--out")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pid = a.property.upper()

    if a.shard is not None:
        run_shard(pid, tier, seed, a.shard, a.nshards, a.out)
        return 0
    scratch = tempfile.mkdtemp(prefix=f"vpf-{pid}-")
    os.environ["VPF_SCRATCH"] = scratch
    try:
        if a.replay:
            return replay(pid, a.replay)
        return parent(pid, tier, seed, a.nshards, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, path):
    with open(path) as f:
        entry = json.load(f)
    module = load_check(pid)
    part = {p.name: p for p in module.PARTS}[entry["part"]]
    try:
        run_case(part, entry["case"], Ctx())
    except Violation as v:
        print(v)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except Discard:
        print("discarded")
    print("no violation")
    return 0


def parent(pid, tier, seed, nshards, scratch):
    t0 = time.time()
    module = load_check(pid)
    procs = []
    for i in range(nshards):
        out = os.path.join(scratch, f"shard{i}.json")
        log = open(os.path.join(scratch, f"shard{i}.log"), "wb")
        tmp = os.path.join(scratch, f"tmp{i}")
        os.makedirs(tmp)
        env = dict(os.environ, TMPDIR=tmp, VPF_TMP=tmp, OMP_NUM_THREADS="1")
        p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "run.py"), pid, "--tier", tier,
             "--shard", str(i), "--nshards", str(nshards), "--out", out],
            stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=tmp, env=env, start_new_session=True)
        procs.append((p, out, log))
    limit = 800 if tier == "quick" else 4 * 3600
    end = time.monotonic() + limit
    failure = None
    errors = []
    pending = list(range(nshards))
    results = {}
    while pending:
        for i in list(pending):
            p, out, log = procs[i]
            if p.poll() is None:
                continue
            pending.remove(i)
            log.close()
            try:
                with open(out) as f:
                    results[i] = json.load(f)
            except (OSError, ValueError):
                with open(log.name, "rb") as f:
                    text = f.read()[-4000:].decode(errors="replace")
                errors.append(f"shard {i} exited with {p.returncode} and left no result\n{text}")
                continue
            r = results[i]
            if r["error"]:
                errors.append(f"shard {i}: {r['error']}")
            if r["failure"] and failure is None:
                failure = r["failure"]
        if failure is not None or time.monotonic() > end:
            break
        time.sleep(0.05)
    for p, out, log in procs:
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    if pending and failure is None:
        errors.append(f"shards {pending} did not finish within {limit} s")
    # prefer the smallest failure among those present
    fails = [r["failure"] for r in results.values() if r["failure"]]
    if fails:
        failure = min(fails, key=lambda f: len(canon(f["case"])))

    findings = load_findings(pid)
    parts, samples, known_hits = {}, [], {}
    evaluations = distinct = 0
    for part in module.PARTS:
        merged = new_stat()
        digs = set()
        for r in results.values():
            s = r["parts"].get(part.name)
            if not s:
                continue
            for k in ("evaluations", "nontrivial_total", "discarded", "skipped", "unconfirmed", "unconfirmed_samples"):
                merged[k] += s[k]
            merged["corpus"] = merged.get("corpus", 0) + s.get("corpus", 0)
            for lab, n in s["labels"].items():
                merged["labels"][lab] = merged["labels"].get(lab, 0) + n
            digs.update(s["digests"])
            for c in s["samples"]:
                if len(merged["samples"]) < 2:
                    merged["samples"].append(c)
        evaluations += merged["evaluations"] + merged.get("corpus", 0)
        distinct += len(digs)
        for c in merged["samples"]:
            samples.append({"part": part.name, "case": c})
        parts[part.name] = {
            "evaluations": merged["evaluations"], "corpus_replayed": merged.get("corpus", 0),
            "distinct_nontrivial": len(digs), "discarded": merged["discarded"],
            "skipped_by_time_budget": merged["skipped"],
            "unconfirmed_alarms": merged["unconfirmed"], "unconfirmed_samples": merged["unconfirmed_samples"][:3],
            "labels": dict(sorted(merged["labels"].items())), "rule": part.rule,
        }
    for r in results.values():
        for k, n in r.get("known", {}).items():
            known_hits[k] = known_hits.get(k, 0) + n

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": module.RULE, "samples": samples[:16], "parts": parts,
            "known_finding_hits": known_hits,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(path + ".tmp", path)

    # known findings: reproduce each listed one on its own committed input
    if failure is None:
        pmap = {p.name: p for p in module.PARTS}
        for e in findings:
            try:
                run_case(pmap[e["part"]], e["case"], Ctx())
            except Violation as v:
                if v.key == e["key"]:
                    print(f"KNOWN-FINDING: property={pid} {e['what']}")
                else:
                    failure = {"part": e["part"], "case": e["case"], "message": str(v), "key": v.key, "origin": "known-findings"}
            except Discard:
                pass
            except HarnessError as exc:
                errors.append(str(exc))

    if failure:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{pid}-{failure['part']}-{digest(failure['case'])}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, **failure}, f, indent=1)
        print(f"{pid} part={failure['part']} origin={failure['origin']}")
        print("case: " + json.dumps(failure["case"])[:4000])
        print(failure["message"])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors[:3]:
            print(e)
        return 2
    print(f"{pid}: held on {evaluations} cases ({distinct} distinct non-trivial) in {evidence['wall_s']} s")
    return 0
