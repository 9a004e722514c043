"""Driving a real scheduler cycle by cycle on the harness's clock, through public API only."""
import asyncio
import threading
import time

from .core import HarnessError, Violation


class Sim:
    """Serve env.session for a bounded number of cycles.

    before(i) / after(i) are called around cycle i (1, 2, ...) from a scheduler
    cycle hook; what they raise is kept and re-raised by the harness once the
    scheduler is down, so the code under test never sees it.
    """

    def __init__(self, env, cycles, before=None, after=None, hard=None, on_extra=None):
        self.env = env
        self.cycles = cycles
        self.before = before
        self.after = after
        self.error = None
        self.i = 0
        self.done = False
        self.hard = hard or cycles + 3
        env.session.hook_scheduler_cycle()(self._make_hook())

    def _make_hook(self):
        sim = self

        def cycle_hook():
            if sim.done:
                return
            sim.i += 1
            sim._guard(sim.before)
            if sim.i > sim.hard:
                sim.error = sim.error or Violation(f"the scheduler ran {sim.i} cycles though it was told to shut down after {sim.cycles}")
                raise sim.error
            yield
            sim._guard(sim.after)
            if sim.i >= sim.cycles or sim.error is not None:
                sim.env.session.shut_down()
        return cycle_hook

    def _guard(self, func):
        if func is None or self.error is not None:
            return
        try:
            func(self.i)
        except BaseException as exc:
            self.error = exc

    def run(self):
        "serve to the end; returns what serve raised (None normally)"
        out = None
        try:
            asyncio.run(self.env.session.serve())
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as exc:
            out = exc
        self.done = True
        if self.error is not None:
            raise self.error
        return out

    def run_ok(self):
        exc = self.run()
        if exc is not None:
            raise exc


async def settle(n=3):
    for _ in range(n):
        await asyncio.sleep(0)


def wait_for(pred, what, timeout=20.0):
    "wait (real time) for something that must happen"
    end = time.monotonic() + timeout
    while not pred():
        if time.monotonic() > end:
            raise Violation(f"waited {timeout} s for: {what}")
        time.sleep(0.0005)
