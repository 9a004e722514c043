"""Vocabulary of a check: Part, Ctx, Violation, and the exception classifier."""
import hashlib
import json
import os
import sys
import traceback

from . import boot

REPO_PKG = os.path.join(boot.REPO, "rocketry") + os.sep


class Violation(Exception):
    """The property is broken on the case being run.

    key: stable signature of *what* failed, used only to match entries of
    known_findings.json.
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Discard(Exception):
    "The case turned out not to be in the property's domain (counted)."


class HarnessError(Exception):
    "Something is wrong with the machinery; never reported as a violation."


class Ctx:
    "Per-case context: labels and non-triviality."

    def __init__(self):
        self.labels = []
        self._nontrivial = False
        self.known = []

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True


class Part:
    """One generated sub-check of a property.

    strategy() -> a Hypothesis strategy generating JSON-able cases
    run(case, ctx) -> raises Violation when the property does not hold
    quick / thorough: number of generated cases (total over all shards)
    """

    def __init__(self, name, strategy, run, quick, thorough, rule, max_shards=8):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.max_shards = max_shards


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()


def check(cond, message, key=None):
    if not cond:
        raise Violation(message() if callable(message) else message, key)


def through_repo(exc):
    "Whether the traceback (or a cause's) runs through the code under test"
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO_PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(part, case, ctx):
    """Run a case. Violations come out as Violation, an exception raised by the
    code under test on a valid case becomes a Violation, anything else is a
    HarnessError."""
    env = sys.modules.get("vpf.env")
    if env is not None:
        env.VARIANT = int(digest(case), 16)
    try:
        part.run(case, ctx)
    except (Violation, Discard, HarnessError):
        raise
    except Exception as exc:
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        text = "".join(tb)
        if len(text) > 6000:
            text = text[:3000] + "\n   [...]\n" + text[-2500:]
        if through_repo(exc):
            raise Violation(f"unexpected {type(exc).__name__}: {exc}\n{text}",
                            key=f"exc:{type(exc).__name__}") from None
        raise HarnessError(text) from None
