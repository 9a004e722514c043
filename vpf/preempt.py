"""Operations of another thread at chosen points of the scheduler's thread (and the other way round).

The scheduler runs in the calling thread; operations run in threads of their own, those of one lane
one after the other. A thread is only let go at line events of the code under test (or,
finer, right before it stores something), so an interleaving is a few
numbers and a replay repeats it: operation i starts when the scheduler's thread comes to a given
point of a given cycle (a share of such events the cycle before the first operation took) and,
if it has a pause, stands still after so many lines of its own until the scheduler comes to a second
given point. Nothing is assumed about where locks are: a thread that blocks is let alone, and the
other goes on.
"""
import dis
import queue
import sys
import threading

from .core import REPO_PKG

PATIENCE = 0.4   # seconds until a thread is taken as blocked


_STORES = {dis.opmap[name] for name in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE", "DELETE_ATTR", "DELETE_SUBSCR") if name in dis.opmap}
_where = {}


def stores(code):
    "where the code is about to put something into an object"
    if code not in _where:
        _where[code] = frozenset(i for i in range(0, len(code.co_code), 2) if code.co_code[i] in _STORES)
    return _where[code]


class Points:
    """calls point() at the points of change over of the calling thread, from on() until off()

    These are the line boundaries of the code under test or, if fine, the moments right before it
    puts something into an object (where what was read before may have become outdated).
    """
    threads = ({}, {})     # by line, by store
    ready = False

    def __init__(self, fine, point):
        self.fine = bool(fine)
        self.point = point

    def on(self):
        self._instrument()
        self.threads[self.fine][threading.get_ident()] = self.point

    def off(self):
        self.threads[self.fine].pop(threading.get_ident(), None)

    @classmethod
    def _instrument(cls):
        # NOTE: sys.settrace and sys.monitoring get in each other's way (Python 3.12), so only the latter is used
        if cls.ready:
            return
        cls.ready = True
        mon, ident, get_stores, package = sys.monitoring, threading.get_ident, stores, REPO_PKG
        by_line, by_store = cls.threads
        tool = 4
        mon.use_tool_id(tool, "vpf points")
        line_event, store_event, disable = mon.events.LINE, mon.events.LINE | mon.events.INSTRUCTION, mon.DISABLE

        def start(code, offset):
            if code.co_filename.startswith(package):
                mon.set_local_events(tool, code, store_event if get_stores(code) else line_event)
            return disable

        def line(code, number):
            if by_line:
                point = by_line.get(ident())
                if point is not None:
                    point()

        def instruction(code, offset):
            if by_store and offset in get_stores(code):
                point = by_store.get(ident())
                if point is not None:
                    point()
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.register_callback(tool, mon.events.LINE, line)
        mon.register_callback(tool, mon.events.INSTRUCTION, instruction)
        mon.set_events(tool, mon.events.PY_START)


class Other:
    "the other thread"

    def __init__(self, fine=False):
        self.points = Points(fine, self._point)
        self.todo = queue.Queue()
        self.still = threading.Event()     # done or paused
        self.go = threading.Event()
        self.busy = False
        self.paused = False
        self.left = None
        self.doing = None
        self.blocked = 0
        self.thread = threading.Thread(target=self._loop, daemon=True)
        self.thread.start()

    def _loop(self):
        while True:
            item = self.todo.get()
            if item is None:
                return
            func, pause = item
            self.left = pause
            try:
                if pause is not None:
                    self.points.on()
                func()
            finally:
                if pause is not None:
                    self.points.off()
                self.busy = False
                self.still.set()

    def _point(self):
        if self.left is None:
            return
        self.left -= 1
        if self.left < 0:
            self.left = None
            self.points.off()
            self.paused = True
            self.go.clear()
            self.still.set()
            self.go.wait(60)
            self.paused = False

    def start(self, func, pause, doing):
        self.resume()
        self.doing = doing
        self.busy = True
        self.still.clear()
        self.todo.put((func, pause))
        if not self.still.wait(PATIENCE):
            self.blocked += 1

    def resume(self):
        "let it finish what it is at"
        if not self.busy:
            return
        if self.paused:
            self.still.clear()
            self.go.set()
        if not self.still.wait(PATIENCE):
            self.blocked += 1

    def finish(self, timeout=30):
        "at the end: wait for it really"
        self.go.set()
        self.todo.put(None)
        self.thread.join(timeout)
        return not self.thread.is_alive()


class Interleaver:
    """plan: [(cycle, permille, what, arg)] in order, what in ("start", "resume")

    cycle(i) is to be called when cycle i begins; cycle 1 is measured, so no plan entry may be due before cycle 2.
    """

    def __init__(self, plan, launch, fine=False):
        self.fine = fine
        self.points = Points(fine, self._point)
        self.plan = sorted(plan, key=lambda e: (e[0], e[1]))
        self.launch = launch
        self.others = {}
        self.n = 0
        self.count = 0
        self.size = None
        self.hits = 0

    def _point(self):
        self.count += 1
        self._due()

    def _due(self, flush=False):
        while self.plan and self.size is not None:
            cyc, share, what, arg = self.plan[0]
            if cyc > self.n or (cyc == self.n and not flush and share * self.size > self.count * 1000):
                return
            self.plan.pop(0)
            if not flush:
                self.hits += 1
            if what == "resume":
                for other in self.others.values():
                    if other.doing == arg:
                        other.resume()
            else:
                self.launch(arg)

    def start(self, arg, lane, func, pause):
        "perform func in the thread of the lane (operations of one lane do not overlap)"
        other = self.others.setdefault(lane, None) or Other(self.fine)
        self.others[lane] = other
        other.start(func, pause, arg)

    @property
    def blocked(self):
        return sum(other.blocked for other in self.others.values())

    def finish(self):
        return all([other.finish() for other in self.others.values()])

    def cycle(self, i):
        if i == 2:
            self.size = self.count
        elif self.size is not None:
            self.n = i - 1
            self._due(flush=True)
        self.n = i
        self.count = 0

    def __enter__(self):
        self.points.on()
        return self

    def __exit__(self, *exc):
        self.points.off()
        for other in self.others.values():
            other.go.set()
