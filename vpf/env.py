"""Sessions with an owned clock, private loggers and an in-memory log repository."""
import datetime as dt
import itertools
import logging
import warnings

warnings.simplefilter("ignore")

from redbird.logging import RepoHandler
from redbird.repos import MemoryRepo

import rocketry
from rocketry import Session
from rocketry.log import MinimalRecord, MinimalRunRecord, RunRecord, TaskRunRecord

_ids = itertools.count()
EPOCH = dt.datetime(1970, 1, 1)
VARIANT = 0       # set for each case from its digest: names of loggers are nothing a property depends on
BASENAMES = ["vpf{}.task", "vpf{}.task", "vpf{}", "vpf{}_tasks.some.where", "vpf{}.rocketry.task", "vpf{}.a.b.c.d"]


def ts(t):
    "timestamp of a naive (UTC) datetime or isoformat string"
    if isinstance(t, str):
        t = dt.datetime.fromisoformat(t)
    return (t - EPOCH).total_seconds() if t.tzinfo is None else t.timestamp()


class Clock:
    "The application's clock; only the harness moves it"

    def __init__(self, t=1_700_000_000.0):
        self.t = float(t)

    def __call__(self):
        return self.t

    # whole microseconds: an instant survives the conversion to a datetime and back, so that
    # "logged at this very instant" means the same to every reader
    def set(self, t):
        self.t = round(ts(t) if not isinstance(t, (int, float)) else float(t), 6)

    def advance(self, secs):
        self.t = round(self.t + secs, 6)


class Env:
    """One session with everything private to it. Use as a context manager."""

    def __init__(self, clock=None, repo=None, model=MinimalRunRecord, default=True, logger_level=logging.INFO,
                 app=False, grouper=None, reuse_logger=None, handlers=(), **config):
        n = next(_ids)
        self.clock = clock if clock is not None else Clock()
        self.basename = reuse_logger or BASENAMES[VARIANT % len(BASENAMES)].format(n)
        sched = f"vpfs{n}.scheduler"
        self.model = model
        self.repo = repo if repo is not None else MemoryRepo(model=model)
        logger = logging.getLogger(self.basename)
        logger.handlers = [*handlers] if app else [*handlers, RepoHandler(self.repo)]
        logger.setLevel(logger_level)
        logger.propagate = False
        slog = logging.getLogger(sched)
        slog.handlers = [logging.NullHandler()]
        slog.propagate = False
        slog.setLevel(logging.CRITICAL + 1)
        self.logger, self.slogger = logger, slog
        config.setdefault("cycle_sleep", None)
        config.setdefault("execution", "main")
        config.setdefault("time_func", self.clock)
        config["task_logger_basename"] = self.basename
        config["scheduler_logger_basename"] = sched
        self._old = rocketry.session
        if app:
            from rocketry import Rocketry
            self.app = Rocketry(config=config, logger_repo=self.repo)
            self.session = self.app.session
        else:
            self.app = None
            self.session = Session(config=config)
        if default:
            self.session.set_as_default()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        q = getattr(self.session.scheduler, "_log_queue", None)
        if q is not None:
            try:
                q.close()
                q.join_thread()
            except Exception:
                pass
        bases = [self.basename.split(".")[0], self.slogger.name.split(".")[0]]
        for name in list(logging.Logger.manager.loggerDict):
            if name.split(".")[0] in bases:
                del logging.Logger.manager.loggerDict[name]
        self._old.set_as_default()

    # --- log
    def records(self, **kw):
        return [r if isinstance(r, dict) else r.dict() for r in self.repo.filter_by(**kw).all()]

    def add_record(self, task_name, action, created, run_id=None):
        model = MinimalRecord if self.model is MinimalRecord else MinimalRunRecord
        self.repo.add(model(task_name=task_name, action=action, created=created, **({} if model is MinimalRecord else {"run_id": run_id})))
