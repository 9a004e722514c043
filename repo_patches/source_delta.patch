From 7b6d80d36bed478c903ab97122d08033893727c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 01/52] fix: roll month and year periods along the calendar

TimeOfMonth and TimeOfYear found their next/previous start and end by adding
a constant cycle length, so they were off around short months and non-leap
years (ie. TimeOfMonth.at('31st') rolled forward from 10th of February gave
3rd of March and TimeOfYear() ended on 2nd of January).
---
 rocketry/time/interval.py | 80 ++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 13 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..dd93123 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,4 +1,3 @@
-import calendar
 import datetime
 import re
 from dataclasses import dataclass
@@ -8,7 +7,7 @@ import dateutil
 
 from rocketry.core.time.anchor import AnchoredInterval
 from rocketry.core.time.base import TimeInterval
-from rocketry.pybox.time import datetime_to_dict, to_microseconds
+from rocketry.pybox.time import datetime_to_dict, to_microseconds, to_timedelta
 from rocketry.pybox.time.interval import Interval
 
 @dataclass(frozen=True, init=False)
@@ -216,8 +215,58 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class _CalendarMixin:
+    """Mixin for time interval anchored to a calendar cycle (month or year).
+
+    The length of a calendar cycle varies thus the starts and
+    ends cannot be found by adding a constant length to a
+    datetime. If a cycle is too short to have the start or the
+    end (ie. 31st in February), the cycle's end is used instead.
+    """
+
+    def get_cycle_start(self, dt, n=0):
+        "Get start of the cycle dt is in (moved by n cycles)"
+        raise NotImplementedError
+
+    def to_cycle_point(self, cycle_start, cycle_end, ms):
+        "Turn microseconds to datetime on given cycle"
+        return min(cycle_start + to_timedelta(int(ms), unit="microsecond"), cycle_end)
+
+    def _iter_occurrences(self, dt, step):
+        "Iterate occurrences (start and end) forward or backward starting around dt"
+        n = -2 * step
+        while True:
+            cycle, next_cycle, next_next_cycle = (self.get_cycle_start(dt, n + i) for i in range(3))
+            start = self.to_cycle_point(cycle, next_cycle, self._start)
+            if self._end == 0:
+                end = next_cycle
+            elif self._start < self._end:
+                end = self.to_cycle_point(cycle, next_cycle, self._end)
+            else:
+                # Over the cycle
+                end = self.to_cycle_point(next_cycle, next_next_cycle, self._end)
+            if start < end:
+                yield start, end
+            n += step
+
+    def next_start(self, dt):
+        "Get next start point of the period"
+        return next(start for start, _ in self._iter_occurrences(dt, step=1) if start > dt)
+
+    def next_end(self, dt):
+        "Get next end point of the period"
+        return next(end for _, end in self._iter_occurrences(dt, step=1) if end > dt)
+
+    def prev_start(self, dt):
+        "Get previous start point of the period"
+        return next(start for start, _ in self._iter_occurrences(dt, step=-1) if start <= dt)
+
+    def prev_end(self, dt):
+        "Get previous end point of the period"
+        return next(end for _, end in self._iter_occurrences(dt, step=-1) if end <= dt)
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +335,12 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
-
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def get_cycle_start(self, dt, n=0):
+        year, month = divmod(dt.year * 12 + dt.month - 1 + n, 12)
+        return dt.replace(year=year, month=month + 1, day=1, hour=0, minute=0, second=0, microsecond=0)
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +444,17 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def get_cycle_start(self, dt, n=0):
+        return dt.replace(year=dt.year + n, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
+
+    def to_cycle_point(self, cycle_start, cycle_end, ms):
+        # The axis has all the months in their longest
+        # so we go to the month first
+        nth_month = max(i for i in range(12) if self._month_start_mapping[i] <= ms)
+        month_start = cycle_start.replace(month=nth_month + 1)
+        month_end = cycle_end if nth_month == 11 else cycle_start.replace(month=nth_month + 2)
+        return super().to_cycle_point(month_start, month_end, ms - self._month_start_mapping[nth_month])
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From 28b84c24e99835c1e27bc3ed42cbd0303026b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:39 +0000
Subject: [PATCH 02/52] fix: step and wildcard expressions of cron fields

Steps of 1-based fields (day of month, month, day of week) were off by
one, '*' in a list was ignored and 0-7 was only Sunday.
---
 rocketry/time/cron.py | 59 +++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..75a382d 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
 from typing import Callable
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -41,51 +41,62 @@ class Cron(TimePeriod):
         full_period = None
         for expr in exprs:
             if expr == "*":
-                # Any
-                continue
+                # Any (regardless of what else is listed)
+                return default
             if "/" in expr:
                 expr, step = expr.split("/")
-                step_period = cls.create_range(step=int(step))
             else:
                 step = None
 
             if "-" in expr:
                 # From to
                 start, end = expr.split("-")
-                if start.isdigit():
-                    start = conv(int(start))
-                if end.isdigit():
-                    end = conv(int(end))
-
-                if step is not None:
-                    # Unlike in traditional Python ranges,
-                    # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
+                if step is not None or (start, end) == ("0", "7"):
+                    # NOTE: 0-7 is Sunday to Sunday (all of the week days)
+                    period = self._get_steps(cls, start, end, step=int(step or 1))
                 else:
+                    if start.isdigit():
+                        start = conv(int(start))
+                    if end.isdigit():
+                        end = conv(int(end))
                     period = cls(start, end)
+            elif expr == "*":
+                # Every nth (of the full range of the field)
+                n_units = len(cls._unit_names)
+                start = 1 if cls in (TimeOfMonth, TimeOfYear) else 0
+                period = self._get_steps(cls, str(start), str(start + n_units - 1), step=int(step))
             else:
                 # At
                 step_period = cls.create_range(step=int(step)) if step is not None else always
                 value = conv(int(expr)) if expr.isdigit() else expr
-                if value == "*":
-                    period = always & step_period
-                else:
-                    period = cls.at(value) & step_period
+                period = cls.at(value) & step_period
 
             if full_period is None:
                 full_period = period
             else:
                 full_period |= period
 
-        if full_period is None:
-            return default
         return full_period
 
+    def _get_steps(self, cls, start:str, end:str, step:int):
+        """Get every nth unit of a range
+
+        Unlike in traditional Python ranges, cron
+        includes also the endpoint."""
+        n_units = len(cls._unit_names)
+        first = 0 if cls in (TimeOfHour, TimeOfDay) else 1 # First unit as integer
+        start, end = (
+            int(val) if val.isdigit() else cls._unit_mapping[val.lower()] + first
+            for val in (start, end)
+        )
+        if start > end:
+            # Over the cycle, ie. from Sunday (7) to Tuesday (2)
+            start -= n_units
+        return Any(*(
+            cls.at((i - first) % n_units + first)
+            for i in range(start, end + 1, step)
+        ))
+
     def _convert_day_of_week(self, i:int):
         # In cron, 0 is Sunday but DayOfWeek don't allow zero
         return 7 if i == 0 else i
-- 
2.43.0


From 38e25695cfb64006f13a52fcf4336250f4423d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 03/52] fix: membership of combined periods that have no next
 interval

'dt in (a & b)' searched for the next interval of the combination and
failed with RecursionError when there is none (or it is far away).
---
 rocketry/core/time/base.py | 6 ++++++
 rocketry/time/cron.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..7f4d19d 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -294,6 +294,9 @@ class All(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return all(dt in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -399,6 +402,9 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return any(dt in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index 75a382d..282ed12 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -26,6 +26,9 @@ class Cron(TimePeriod):
         # -: range of values
         # /: step values
 
+    def __contains__(self, dt):
+        return dt in self.get_subperiod()
+
     def rollforward(self, dt):
         "Get previous time interval of the period."
         return self.get_subperiod().rollforward(dt)
-- 
2.43.0


From 3b0a58af24660928eaaaa1a1ca8167b551efe7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:16 +0000
Subject: [PATCH 04/52] fix: static and open-ended periods with a timezone

Bounds of always, never, StaticInterval and open-ended TimeSpanDelta were
naive and could not be compared to the session's timezone aware time.
---
 rocketry/core/time/base.py  | 11 +++++++----
 rocketry/core/time/utils.py |  4 +++-
 rocketry/time/delta.py      |  6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 7f4d19d..0b26211 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -515,18 +515,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            empty = to_datetime(self.min, timezone=tz)
+            return Interval(empty, empty)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            empty = to_datetime(self.max, timezone=tz)
+            return Interval(empty, empty)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..0b64c6e 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -3,6 +3,7 @@ import time
 import datetime
 from typing import Tuple
 
+from rocketry.pybox.time import to_datetime
 from .base import TimePeriod
 
 def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetime, datetime.datetime]:
@@ -11,7 +12,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return to_datetime(TimePeriod.min, timezone=tz), to_datetime(TimePeriod.max, timezone=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..5f0d234 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from typing import Callable, Union
 
 from rocketry.core.time import TimeDelta
-from rocketry.pybox.time import to_timedelta, Interval
+from rocketry.pybox.time import to_datetime, to_timedelta, Interval
 
 @dataclass(frozen=True, init=False)
 class TimeSpanDelta(TimeDelta):
@@ -36,14 +36,14 @@ class TimeSpanDelta(TimeDelta):
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From b5497fe5658998740c3b512a3cc95efc98f4178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:48 +0000
Subject: [PATCH 05/52] fix: a static interval is over at its end

rollforward from exactly the end gave an empty interval that hid the
next occurrence of the other periods of a combination.
---
 rocketry/core/time/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 0b26211..5a5d57a 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -525,7 +525,7 @@ class StaticInterval(TimePeriod):
         dt = to_datetime(dt)
         tz = dt.tzinfo
         end = to_datetime(self.end, timezone=tz)
-        if end < dt:
+        if end <= dt:
             # The actual interval is already gone
             empty = to_datetime(self.max, timezone=tz)
             return Interval(empty, empty)
-- 
2.43.0


From d66750e677fb46e192d4aec965a19b7d1c20f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 06/52] fix: spaces between parentheses in condition strings

---
 rocketry/pybox/string/parse/closure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/pybox/string/parse/closure.py b/rocketry/pybox/string/parse/closure.py
index f4560f3..42051ff 100644
--- a/rocketry/pybox/string/parse/closure.py
+++ b/rocketry/pybox/string/parse/closure.py
@@ -33,7 +33,7 @@ class ClosureParser:
             start, end = self.find_outer_indices(string)
 
             # Add left residual
-            if string[:start]:
+            if string[:start].strip():
                 res.append(string[:start])
 
             substr = string[slice(start + len_open, end)]
@@ -42,7 +42,7 @@ class ClosureParser:
             string = string[end+len_close:]
 
         # Add residual
-        if string:
+        if string.strip():
             res.append(string)
         return res
 
-- 
2.43.0


From a6476936cb744a43f10e2f6e498cc3a92fbaccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:36 +0000
Subject: [PATCH 07/52] fix: comparing a condition changes the original
 condition

---
 rocketry/core/condition/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..b63766f 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,7 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From f24f29f22a624c11158207e0002e0ac9492dabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 08/52] fix: status conditions on a task whose start condition
 is a status condition

---
 rocketry/core/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..bed72f7 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1353,14 +1353,15 @@ class Task(RedBase, BaseModel):
         session = self.session
 
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if (cond.task is None or session[cond.task] is self) and cond.period is not None:
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
-                    task_periods.append(sub_stmt.period)
+                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and (sub_stmt.task is None or session[sub_stmt.task] is self):
+                    if sub_stmt.period is not None:
+                        task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
 
-- 
2.43.0


From 091fd3ca1449a85db962d60043d487f0cb572e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:25 +0000
Subject: [PATCH 09/52] fix: a run that finished the instant it started is no
 crash

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index bed72f7..1cdaa28 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -927,7 +927,8 @@ class Task(RedBase, BaseModel):
 
         times = {
             name: getattr(self, f"_last_{name}")
-            for name in ('run', 'success', 'fail', 'terminate', 'inaction', 'crash')
+            # NOTE: a run that finished at the very moment it started has finished (the first is picked if tie)
+            for name in ('success', 'fail', 'terminate', 'inaction', 'crash', 'run')
             if getattr(self, f"_last_{name}") is not None
         }
         if times:
-- 
2.43.0


From f56461b889f8aa3a16ff10163441e9ea8733e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:02 +0000
Subject: [PATCH 10/52] fix: parameter conditions of tasks

---
 rocketry/conditions/parameter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..303ea19 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -83,7 +83,10 @@ class ParamExists(BaseCondition):
         self.param_values = kwargs
 
     def __bool__(self):
-        params = self.session.parameters
+        return self.get_state(self.session)
+
+    def get_state(self, session=Session()):
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
@@ -96,7 +99,9 @@ class ParamExists(BaseCondition):
         return True
 
     @classmethod
-    def _from_list(cls, l:Union[tuple, list]):
+    def _from_list(cls, l:Union[str, tuple, list]):
+        if isinstance(l, str):
+            return cls(l)
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From c81b775dca4bdae852cc62e0ef956bfe93b9c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:00 +0000
Subject: [PATCH 11/52] fix: terminating a task leaves its finished runs alone

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1cdaa28..5ace6f5 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1019,7 +1019,9 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                # Else already finished (and has its own finish record)
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From 580ea642694f91a13819212fe7ecfaaee8025d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:53 +0000
Subject: [PATCH 12/52] fix: running conditions from the logs see runs that
 ended or crashed

---
 rocketry/conditions/task/task.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..8bbb7dc 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -1,7 +1,7 @@
 from typing import Optional
 import datetime
 
-from redbird.oper import in_, greater_equal, between
+from redbird.oper import in_, greater_equal
 
 from rocketry.core.condition import BaseCondition, BaseComparable
 from rocketry.log.utils import get_field_value
@@ -178,10 +178,19 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the run may have finished after the period
+        end = to_timestamp(end)
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
+        crashes = [
+            i for i, record in enumerate(records)
+            if get_field_value(record, "action") == "crash"
+        ]
+        if crashes:
+            # Nothing that started before the crash is running
+            records = records[crashes[-1] + 1:]
         runs = []
         has_run_id = True
         try:
@@ -201,7 +210,7 @@ class TaskRunning(BaseComparable):
 
         for record in records:
             action = get_field_value(record, "action")
-            is_run = action == "run"
+            is_run = action == "run" and get_field_value(record, "created") <= end
             if not is_run:
                 continue
             if has_run_id:
-- 
2.43.0


From e830366da5190c2576ff46109dbeeaa1c1880951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 13/52] fix: session parameters with the names of Parameters'
 own arguments

---
 rocketry/core/parameters/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/parameters/parameters.py b/rocketry/core/parameters/parameters.py
index dbb0ec0..43f3174 100644
--- a/rocketry/core/parameters/parameters.py
+++ b/rocketry/core/parameters/parameters.py
@@ -157,7 +157,7 @@ class Parameters(RedBase, Mapping): # Mapping so that mytask(**Parameters(...))
         right = other._params if isinstance(other, Parameters) else other
 
         params = {**left, **right}
-        return type(self)(**params)
+        return type(self)(params)
 
     def __eq__(self, other):
         "Whether parameters are equal"
-- 
2.43.0


From 977c3c09d6b6c063000f7850caa6759f2fd18140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:38 +0000
Subject: [PATCH 14/52] fix: a run that fails before its function is logged as
 failed

---
 rocketry/core/task.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5ace6f5..7a22207 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,21 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution == "async":
+                # Nothing waits for the run thus it is logged here
+                self.log_failure(task_run)
+            raise
 
         try:
             if inspect.iscoroutinefunction(self.execute):
@@ -683,7 +690,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +704,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +783,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 4a3e542f324aff954db1fd0069e2b1c62880af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:20 +0000
Subject: [PATCH 15/52] fix: a missing return value in a pipeline of arguments

---
 rocketry/args/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..b1d5cf8 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -179,7 +179,7 @@ class Return(BaseArgument):
             return session.returns[input_task]
         except KeyError:
             if self.default is NOTSET:
-                raise KeyError(f"Return value not found for {repr(task)}")
+                raise KeyError(f"Return value not found for {repr(input_task.name)}")
             return self.default
 
     def __repr__(self):
-- 
2.43.0


From 361b884dd6a37218bb5a514322023305337511fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:27 +0000
Subject: [PATCH 16/52] fix: return value of a process that finishes while
 another one starts

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 7a22207..f7be7cc 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1069,6 +1069,10 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if record.action == "success":
+                    # Another task finished: its return value is also to be stored
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From 782c0d53377b3afe96b8e620f08bd72ebcf2fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:12 +0000
Subject: [PATCH 17/52] fix: the runtime in task log records is in seconds

---
 rocketry/log/log_record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/log/log_record.py b/rocketry/log/log_record.py
index da321e9..27f4b1a 100644
--- a/rocketry/log/log_record.py
+++ b/rocketry/log/log_record.py
@@ -60,7 +60,7 @@ class TaskLogRecord(MinimalRecord):
     @validator("runtime", pre=True)
     def format_runtime(cls, value):
         if value is not None:
-            value = to_timedelta(value)
+            value = to_timedelta(value, unit="s")
         return value
 
 class MinimalRunRecord(MinimalRecord):
-- 
2.43.0


From 242cc87022bf054c8df6c8bb02bfde8c7c54c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:05 +0000
Subject: [PATCH 18/52] fix: records of overlapping runs tell the start of
 their own run

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f7be7cc..eca7411 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1175,7 +1175,7 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From 10a166aaa5d5d0a58992bb3fe58a7f94f6c88e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:02 +0000
Subject: [PATCH 19/52] fix: a run that ends the scheduler keeps its run id

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index eca7411..3ba90da 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -610,7 +610,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
-- 
2.43.0


From d8eb468c542d4b7df08ef365ee78c6803103782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 20/52] fix: a forced shutdown does not force the next one

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..672e090 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -110,6 +110,7 @@ class Scheduler(RedBase):
         session."""
         # Unsetting some flags
         self._flag_shutdown.clear()
+        self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
 
-- 
2.43.0


From 436deb4e948fdee2fb7b86d78f7b4f1b102665e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:17 +0000
Subject: [PATCH 21/52] fix: a run whose start cannot be logged is not executed

---
 rocketry/core/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 3ba90da..9704c87 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -486,6 +486,8 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                self._run_stack.append(task_run)
+                self.log_running(task_run)
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -496,8 +498,6 @@ class Task(RedBase, BaseModel):
                 )
                 if execution == "async":
                     task_run.task = async_task
-                self._run_stack.append(task_run)
-                self.log_running(task_run)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From 62fcd9dd67281cace1c64241ab759caa8e3b58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:15 +0000
Subject: [PATCH 22/52] fix: logging errors of async runs are raised unless
 silenced

---
 rocketry/core/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 9704c87..d13b9f1 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -488,8 +488,9 @@ class Task(RedBase, BaseModel):
             if execution in ("main", "async"):
                 self._run_stack.append(task_run)
                 self.log_running(task_run)
+                run_async = self._run_as_async if execution == "main" else self._run_as_async_task
                 async_task = asyncio.create_task(
-                    self._run_as_async(
+                    run_async(
                         params=params,
                         direct_params=direct_params,
                         task_run=task_run,
@@ -662,6 +663,14 @@ class Task(RedBase, BaseModel):
             self.process_finish(status=status)
             hooker.postrun(*exc_info)
 
+    async def _run_as_async_task(self, task_run:TaskRun, **kwargs):
+        """Run the task on its own asyncio task. Nothing awaits
+        the run thus logging errors are left to the scheduler."""
+        try:
+            return await self._run_as_async(task_run=task_run, **kwargs)
+        except TaskLoggingError as exc:
+            task_run.exception = exc
+
     def run_as_thread(self, params:Parameters, direct_params, task_run:TaskRun, **kwargs):
         """Create a new thread and run the task on that."""
 
-- 
2.43.0


From bbf5c3a737e7e01276801f7bcf993947e187c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:05 +0000
Subject: [PATCH 23/52] fix: a run that exits its thread or process is logged
 as failed

---
 rocketry/core/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index d13b9f1..86a3a0a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -710,8 +710,9 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
-        except Exception:
-            # Task crashed before actually running the execute.
+        except (Exception, SystemExit):
+            # Task crashed before actually running the execute
+            # or it exited its thread.
             try:
                 self.log_failure(task_run)
             except TaskLoggingError as exc:
@@ -790,8 +791,9 @@ class Task(RedBase, BaseModel):
             # NOTE: The parameters are "materialized"
             # here in the actual process that runs the task
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             # Task crashed before running execute (silence=True)
+            # or it exited its process
             self.log_failure(task_run)
 
             # There is nothing to raise it
-- 
2.43.0


From 39abf28338b2c58d8bc7ee27e3cf7d30685fd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:51 +0000
Subject: [PATCH 24/52] fix: a process run with a return value that cannot be
 pickled is logged as failed

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 86a3a0a..8129e76 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -606,6 +606,10 @@ class Task(RedBase, BaseModel):
             else:
                 output = self.execute(**params)
 
+            if execution == "process" and not is_pickleable(output):
+                # Cannot be passed to the main process (and neither can the success log)
+                raise PicklingError(f"Return value of task '{self.name}' cannot be pickled")
+
             # NOTE: we process success here in case the process_success
             # fails (therefore task fails)
             self.process_success(output)
-- 
2.43.0


From 36ff14585f7e3ca81499e851907c1f1fb74d3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 25/52] fix: session.run when a run adds a task to the session

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..d4f3fbf 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -310,7 +310,7 @@ class Session(RedBase):
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
             for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+                task.__dict__.update(orig_vals.get(task.name, {}))
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From c29d3e93df66f6ed22c082c39c7b4d969df121f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 26/52] fix: session.run accepts functions and tasks

---
 rocketry/session.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index d4f3fbf..73b6e51 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -287,6 +287,7 @@ class Session(RedBase):
         # To prevent circular import
         from rocketry.conditions.scheduler import SchedulerCycles
 
+        task_names = [self._get_task_name(task) for task in task_names]
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-- 
2.43.0


From 6132164b235feadec93f8e2e9a63469302f52904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 27/52] fix: a requested startup or shutdown task leaves no
 request behind

---
 rocketry/core/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 672e090..86b032f 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -319,7 +319,7 @@ class Scheduler(RedBase):
                     raise
             
             if task.on_startup:
-                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
+                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled and not task.batches:
                     # Make sure the tasks run if start_cond not set
                     task.run()
 
@@ -347,7 +347,7 @@ class Scheduler(RedBase):
         for task in self.tasks:
             if task.on_shutdown:
 
-                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
+                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled and not task.batches:
                     # Make sure the tasks run if start_cond not set
                     task.run()
 
-- 
2.43.0


From 0d2a90400ec06e24958c8fefd1ee9dcb134bf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:15 +0000
Subject: [PATCH 28/52] fix: tasks of a group log to the logger of the
 application

---
 rocketry/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/application.py b/rocketry/application.py
index 4ebfefd..c29b037 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -38,6 +38,9 @@ class _AppMixin:
             if group.start_cond is not None:
                 task.start_cond &= group.start_cond
             task.execution = group.execution if task.execution is None else task.execution
+            if task.logger_name == group.session.config.task_logger_basename:
+                # Using the default logger of the app (not of the group)
+                task.logger_name = self.session.config.task_logger_basename
 
             self.session.add_task(task)
         self.session.parameters.update(group.session.parameters)
-- 
2.43.0


From dcce10c968bae23b40cfdcaa81425f49b0fd2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 29/52] fix: the session's current time is the one of its clock

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 73b6e51..aef3e28 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -604,7 +604,7 @@ class Session(RedBase):
         This method is used internally thoroughout
         the package.
         """
-        return self._format_timestamp(time.time())
+        return self._format_timestamp(self.get_time())
 
     def get_time(self) -> float:
         if self.config.time_func is not None:
-- 
2.43.0


From c2058bf4fd2eb18291ad938ed57bca973a1374ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 30/52] fix: milliseconds of log records with a custom clock

---
 rocketry/core/log/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/log/adapter.py b/rocketry/core/log/adapter.py
index a6066bd..2949016 100644
--- a/rocketry/core/log/adapter.py
+++ b/rocketry/core/log/adapter.py
@@ -40,7 +40,7 @@ class TaskAdapter(logging.LoggerAdapter):
             ct = session.get_time()
             record = method(record, *args, **kwargs)
             record.created = ct
-            record.msec = (ct - int(ct)) * 1000
+            record.msecs = (ct - int(ct)) * 1000
             return record
         return wrapper
 
-- 
2.43.0


From 6063b788d5fe4bca96e7b26e8a69a2d5ae06f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 31/52] fix: initiating a task runs the hooks of its own
 session

---
 rocketry/core/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 8129e76..24463ed 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -304,7 +304,10 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
+        session = kwargs.get("session")
+        if session is None:
+            session = self.session
+        hooker = _Hooker(session.hooks.task_init)
         hooker.prerun(task=self)
 
         if kwargs.get("session") is None:
-- 
2.43.0


From 8ff2be0fcd7a222a944b26d910a6bff9e16f1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 32/52] fix: instance naming is the task's own session's
 setting

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 24463ed..44a3ae6 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -336,7 +336,7 @@ class Task(RedBase, BaseModel):
 
     def _get_name(self, name=None, **kwargs):
         if name is None:
-            use_instance_naming = self.session.config.use_instance_naming
+            use_instance_naming = kwargs["session"].config.use_instance_naming
             if use_instance_naming:
                 return id(self)
             return self.get_default_name(**kwargs)
-- 
2.43.0


From 24e696c263426da841568d3a3688d7f5d248148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 33/52] fix: parameters of a command given as list do not pile
 up over runs and can be other than text

---
 rocketry/tasks/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..26427f0 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,8 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                # Note: the task's command must not be modified
+                command = command + [param, str(val)]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 5938d0f74a9283753db29aba41606ccd3d62244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 34/52] fix: parameters of a command without argform

---
 rocketry/tasks/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 26427f0..1853b6d 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', pre=True, always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
@@ -66,7 +66,7 @@ class CommandTask(Task):
             "short": "-",
             "-": "-",
             None: '--',
-        }[value]
+        }.get(value, value)
 
     def execute(self, **parameters):
         """Run the command."""
-- 
2.43.0


From 2339a735243fa3d1ebe8be58d2d23aaae3a73fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:21 +0000
Subject: [PATCH 35/52] fix: tasks named by their instance can be created

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 44a3ae6..7281963 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -338,7 +338,7 @@ class Task(RedBase, BaseModel):
         if name is None:
             use_instance_naming = kwargs["session"].config.use_instance_naming
             if use_instance_naming:
-                return id(self)
+                return str(id(self))
             return self.get_default_name(**kwargs)
         return name
 
-- 
2.43.0


From 033a657c5d6c32e8129973b006e089d63ebd187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:22 +0000
Subject: [PATCH 36/52] fix: commands of tasks with a timeout

---
 rocketry/tasks/command.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 1853b6d..c875eb5 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -83,9 +84,12 @@ class CommandTask(Task):
                 command = command + [param, str(val)]
 
         # https://stackoverflow.com/a/5469427/13696660
+        timeout = self.timeout
+        if timeout is not None:
+            timeout = timeout.total_seconds() if timeout != datetime.timedelta.max else None
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From b6509441ddc981ce7b1a14b25ab2b7c34c23e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 37/52] fix: a requested run that fails before it starts is not
 repeated

---
 rocketry/core/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 7281963..29dc97c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -826,9 +826,10 @@ class Task(RedBase, BaseModel):
         return params
 
     def _get_direct_params(self):
+        # The request is used even if getting the parameters fails
+        batch = self.batches.pop(0) if self.batches else {}
         direct_params = self.get_task_params()
-        if self.batches:
-            direct_params.update(self.batches.pop(0))
+        direct_params.update(batch)
         return direct_params
 
     def get_task_params(self):
-- 
2.43.0


From 657257e5096493266597144d3835db44501c59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 38/52] fix: sys_paths of a task are searched for imports

---
 rocketry/tasks/func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 101912f..86e4bf2 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -237,7 +237,7 @@ class FuncTask(Task):
             root = str(Path(self.path).parent.absolute()) if not pkg_path else str(pkg_path)
 
             # _task_func is cached to faster performance
-            with TempSysPath([root] + self.sys_paths):
+            with TempSysPath([root] + [str(path) for path in self.sys_paths]):
                 task_module = get_module(self.path, pkg_path=pkg_path)
             task_func = getattr(task_module, self.func_name)
 
-- 
2.43.0


From eb501888c2d673696e510fb9f0b3ea44c2e78d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 39/52] fix: keep folders in sys.path that were there before a
 task given by path

---
 rocketry/tasks/func.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 86e4bf2..1848654 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -43,10 +43,11 @@ class TempSysPath:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         for path in self.paths:
-            try:
-                self.sys_path.remove(path)
-            except ValueError:
-                pass
+            # NOTE: the path may have been there already (only the appended is removed)
+            for i in reversed(range(len(self.sys_path))):
+                if self.sys_path[i] == path:
+                    del self.sys_path[i]
+                    break
 
 class FuncTask(Task):
     """Task that executes a function or callable.
-- 
2.43.0


From f6282a9481bc5dbbda2780ee8f5295aa5d2c0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:11 +0000
Subject: [PATCH 40/52] fix: a task removed or renamed during a process run
 does not bring the scheduler down

---
 rocketry/core/schedule.py | 7 ++++++-
 rocketry/core/task.py     | 7 ++++++-
 rocketry/session.py       | 5 +++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 86b032f..5728f41 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -264,7 +264,12 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                try:
+                    task = self.session[record.task_name]
+                except KeyError:
+                    # The task was removed (or renamed) during the run
+                    self.session._log_orphan(record)
+                    continue
                 if record.action == "fail":
                     # There is a caveat in logging
                     # https://github.com/python/cpython/blame/fad6af2744c0b022568f7f4a8afc93fed056d4db/Lib/logging/handlers.py#L1383
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 29dc97c..187e852 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1087,7 +1087,12 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                try:
+                    task = self if record.task_name == self.name else self.session[record.task_name]
+                except KeyError:
+                    # Another task that was removed (or renamed) during its run
+                    self.session._log_orphan(record)
+                    continue
                 if record.action == "success":
                     # Another task finished: its return value is also to be stored
                     task._handle_return(record.__return__)
diff --git a/rocketry/session.py b/rocketry/session.py
index aef3e28..e617ced 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -509,6 +509,11 @@ class Session(RedBase):
             data = chain(data, logger.get_records(*args, **kwargs))
         return data
 
+    def _log_orphan(self, record: logging.LogRecord):
+        "Log a record of a run whose task is no longer in the session"
+        record.__dict__.pop("__return__", None)
+        logging.getLogger(self.config.task_logger_basename).handle(record)
+
     def delete_task_loggers(self):
         """Delete the previous loggers from task logger"""
         loggers = logging.Logger.manager.loggerDict
-- 
2.43.0


From 229489766539a53722e2a07c9ddee3369a6490c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 41/52] fix: arguments given to a custom condition override its
 default arguments

---
 rocketry/conditions/func.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/conditions/func.py b/rocketry/conditions/func.py
index 213f12b..8811ba9 100644
--- a/rocketry/conditions/func.py
+++ b/rocketry/conditions/func.py
@@ -1,5 +1,6 @@
 
 import copy
+import inspect
 from typing import Callable, List, Optional, Pattern, Union
 from rocketry.core.parameters.parameters import Parameters
 from rocketry.core.condition import BaseCondition
@@ -100,6 +101,9 @@ class FuncCond(BaseCondition):
 
     def observe(self, **kwargs) -> bool:
         func_params = Parameters._from_signature(self.func, **kwargs)
+        # Explicitly given arguments override the ones in the signature
+        for name in inspect.signature(self.func).bind_partial(*self.args, **self.kwargs).arguments:
+            func_params._params.pop(name, None)
         param_dict = func_params.materialize(**kwargs)
         return self.get_state(*self.args, **self.kwargs, **param_dict)
 
-- 
2.43.0


From f7c8cd05496dfaddfa58288b0fce3cc198a3cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:21 +0000
Subject: [PATCH 42/52] fix: a condition with a task of its own can be used
 with different parameters

---
 rocketry/conditions/meta.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index d12c585..ea1e92a 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -101,10 +101,17 @@ class TaskCond(BaseCondition):
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
 
+        # There is a task for each set of parameters
+        basename = f"_condition-{self._get_func_name(self.func)}"
+        name = basename
+        num = 0
+        while name in self.session:
+            num += 1
+            name = f"{basename} - {num}"
+
         new_self.task = _FuncTaskCondWrapper(
             func=self.func,
-            #on_exists="rename",
-            name=f"_condition-{self._get_func_name(self.func)}",
+            name=name,
             parameters=kwargs,
             session=self.session,
             **self.kwds_task
-- 
2.43.0


From f622a73ce39014d387ac94f8fb13680792417ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 43/52] fix: tasks can be looked up while another thread adds
 or removes tasks

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index e617ced..651c8d3 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -227,7 +227,7 @@ class Session(RedBase):
     def __getitem__(self, task:Union['Task', str]):
         "Get a task from the session"
         task_name = self._get_task_name(task)
-        for task in self.tasks:
+        for task in self.tasks.copy(): # Other threads may add or remove tasks meanwhile
             if task.name == task_name:
                 return task
         raise KeyError(f"Task '{task_name}' not found")
-- 
2.43.0


From bc8f136a2495eb0b22d683587c32f135c339f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 44/52] fix: a task is complete before the scheduler can find
 it

---
 rocketry/core/task.py  | 4 ++--
 rocketry/tasks/func.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 187e852..1032eb5 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -328,9 +328,9 @@ class Task(RedBase, BaseModel):
         # Set default readable logger if missing
         self.session._check_readable_logger()
 
-        self.register()
         self._init_cache()
-        
+        self.register()
+
         # Hooks
         hooker.postrun()
 
diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 1848654..ae700b8 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -186,13 +186,11 @@ class FuncTask(Task):
             # as it's obvious it would not work.
             kwargs["execution"] = "thread"
         super().__init__(func=func, **kwargs)
-        self._set_descr(is_delayed=func is None)
 
     def __call__(self, *args, **kwargs):
         if not hasattr(self, "func"):
             func = args[0]
             super().__init__(func=func, **self._delayed_kwargs)
-            self._set_descr(is_delayed=False)
             self._delayed_kwargs = {}
 
             # Note that we must return the function or
@@ -208,6 +206,12 @@ class FuncTask(Task):
             return func
         return super().__call__(*args, **kwargs)
 
+    def register(self):
+        # The scheduler may find (and run) the task right
+        # after registering thus it must be complete
+        self._set_descr(is_delayed=self.func is None)
+        super().register()
+
     def _set_descr(self, is_delayed:bool):
         "Set description from func doc if desc missing"
         if self.description is None and hasattr(self.func, "__doc__"):
-- 
2.43.0


From 9ec61213e1b5d5ec0a7dbfc7fc7525b619b39592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 45/52] fix: setting a task's attribute does not undo what
 other threads set meanwhile

---
 rocketry/core/task.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1032eb5..878d26f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -20,7 +20,7 @@ try:
 except ImportError: # pragma: no cover
     from typing_extensions import Literal
 
-from pydantic import BaseModel, Field, PrivateAttr, validator
+from pydantic import BaseModel, Field, PrivateAttr, ValidationError, validator
 
 from rocketry._base import RedBase
 from rocketry.core.condition import BaseCondition, AlwaysFalse, All
@@ -334,6 +334,21 @@ class Task(RedBase, BaseModel):
         # Hooks
         hooker.postrun()
 
+    def __setattr__(self, name, value):
+        field = self.__fields__.get(name)
+        if field is None or self.__pre_root_validators__ or self.__post_root_validators__:
+            super().__setattr__(name, value)
+            return
+        # Pydantic would replace the whole __dict__ and what other threads
+        # (ie. the scheduler) set to other attributes meanwhile would be lost
+        values = {**self.__dict__}
+        values.pop(name, None)
+        value, error = field.validate(value, values, loc=name, cls=type(self))
+        if error:
+            raise ValidationError([error], type(self))
+        self.__dict__[name] = value
+        self.__fields_set__.add(name)
+
     def _get_name(self, name=None, **kwargs):
         if name is None:
             use_instance_naming = kwargs["session"].config.use_instance_naming
-- 
2.43.0


From 0403642ce2b41743c4ede435a1378bc7f60e965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 46/52] fix: a run that ends terminated does not cancel a
 request to terminate the others

---
 rocketry/core/task.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 878d26f..f640055 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1143,9 +1143,6 @@ class Task(RedBase, BaseModel):
         msg = self.fmt_log_message.format(action="terminate", task=self.name)
         self._set_status("terminate", task_run, message=msg + f" ({reason})")
 
-        # Reset event and force_termination (for threads)
-        self.force_termination = False
-
     def log_inaction(self, task_run:TaskRun=None):
         """Make a log that the task did nothing."""
         self._set_status("inaction", task_run)
-- 
2.43.0


From 05190655ab9f999f498b4b5cf7f06f1f2e6dc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 47/52] fix: a run that fails before it starts has its own run
 record also when another run is alive

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f640055..bd2afb9 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -495,6 +495,7 @@ class Task(RedBase, BaseModel):
         #   - Then params and direct_params are fed to the execute method
         execution = self.get_execution()
         task_run = TaskRun(start=self.session.get_time(), task=None)
+        is_logged = False
         try:
             self.force_run = False
             params = self.get_extra_params(params, execution=execution)
@@ -506,6 +507,7 @@ class Task(RedBase, BaseModel):
             if execution in ("main", "async"):
                 self._run_stack.append(task_run)
                 self.log_running(task_run)
+                is_logged = True
                 run_async = self._run_as_async if execution == "main" else self._run_as_async_task
                 async_task = asyncio.create_task(
                     run_async(
@@ -550,7 +552,7 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if not is_logged:
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
-- 
2.43.0


From 25233cb293d2805a04a0049f5f21f2a56a58e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 48/52] fix: overlapping runs of a task given by path run the
 file as it is

---
 rocketry/tasks/func.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index ae700b8..ceeccf0 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -236,7 +236,8 @@ class FuncTask(Task):
         return output
 
     def get_func(self, cache=True):
-        if self.func is None:
+        func = self.func # Another run may set (or reset) it meanwhile
+        if func is None:
             # Add dir of self.path to sys.path so importing from that dir works
             pkg_path = find_package_root(self.path)
             root = str(Path(self.path).parent.absolute()) if not pkg_path else str(pkg_path)
@@ -249,7 +250,7 @@ class FuncTask(Task):
             if cache:
                 self.func = task_func
             return task_func
-        return self.func
+        return func
 
     def get_default_name(self, func=None, path=None, func_name=None, _name_template=None, **kwargs):
         if func is None:
@@ -279,6 +280,10 @@ class FuncTask(Task):
         task_params = super().get_task_params()
 
         if self._is_delayed:
+            if self.path is not None and not self.cache:
+                # There may be an older run alive but this
+                # run uses the function as it is in the file now
+                self.func = None
             # Get params from the typehints
             cache = self.path is None
             func = self.get_func(cache=cache)
-- 
2.43.0


From 4dd3ebdb0e1447a968feccecdcb18868cb2a9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 49/52] fix: a session logs by its own clock also with a logger
 that an earlier session used

---
 rocketry/core/log/adapter.py |  4 ++--
 rocketry/session.py          | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/rocketry/core/log/adapter.py b/rocketry/core/log/adapter.py
index 2949016..5ab2636 100644
--- a/rocketry/core/log/adapter.py
+++ b/rocketry/core/log/adapter.py
@@ -34,10 +34,10 @@ class TaskAdapter(logging.LoggerAdapter):
             warnings.warn(f"Logger '{logger.name}' for task '{self.task_name}' does not have ability to be read. Past history of the task cannot be utilized.")
 
     @staticmethod
-    def _modify_record(method, session):
+    def _modify_record(method, get_time):
         # Set custom created time to LogRecords
         def wrapper(record, *args, **kwargs):
-            ct = session.get_time()
+            ct = get_time()
             record = method(record, *args, **kwargs)
             record.created = ct
             record.msecs = (ct - int(ct)) * 1000
diff --git a/rocketry/session.py b/rocketry/session.py
index 651c8d3..62b16a6 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -372,12 +372,13 @@ class Session(RedBase):
         from rocketry.core.log import TaskAdapter
         if logger is None:
             logger = logging.getLogger(self.config.task_logger_basename)
-        attr = '__rocketry_wrapped__'
-        is_wrapped = getattr(logger, attr, False)
-        wrap_logger = self.config.time_func is not None and not is_wrapped
-        if wrap_logger:
-            logger.makeRecord = TaskAdapter._modify_record(logger.makeRecord, session=self)
-            setattr(logger, attr, True)
+        attr = '__rocketry_session__'
+        is_wrapped = hasattr(logger, attr)
+        if is_wrapped or self.config.time_func is not None:
+            # The time is always of the session that latest took the logger
+            setattr(logger, attr, self)
+            if not is_wrapped:
+                logger.makeRecord = TaskAdapter._modify_record(logger.makeRecord, get_time=lambda: getattr(logger, attr).get_time())
 
     def get_tasks(self) -> list:
         """Get session tasks as list.
-- 
2.43.0


From e9689001dd560efa8989aad6dafe66efffb9ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 50/52] fix: the task log of a session has no records of a
 session with a similar logger name

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 62b16a6..89c9669 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -483,7 +483,7 @@ class Session(RedBase):
             # The adapter should not be used to log (but to read) thus task_name = None
             name: TaskAdapter(logger, None) if with_adapters else logger
             for name, logger in logging.root.manager.loggerDict.items()
-            if name.startswith(basename)
+            if (name == basename or name.startswith(basename + "."))
             and not isinstance(logger, logging.PlaceHolder)
             and not name.endswith("_process") # No private
         }
-- 
2.43.0


From 51b54464a583354e03680f1a022ca24518927dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 51/52] fix: the task log can be read while another thread
 creates a logger

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 89c9669..7136ee0 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -482,7 +482,7 @@ class Session(RedBase):
         return {
             # The adapter should not be used to log (but to read) thus task_name = None
             name: TaskAdapter(logger, None) if with_adapters else logger
-            for name, logger in logging.root.manager.loggerDict.items()
+            for name, logger in logging.root.manager.loggerDict.copy().items() # Other threads may create loggers meanwhile
             if (name == basename or name.startswith(basename + "."))
             and not isinstance(logger, logging.PlaceHolder)
             and not name.endswith("_process") # No private
-- 
2.43.0


From 99b2923d11c79cd920db442d2ebd79f5cda0062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:37 +0000
Subject: [PATCH 52/52] fix: an occurrence of a union of periods goes on where
 a window continues it, whatever other windows lie within

The loop stopped at the first window that does not extend the current one,
though a later one could.
---
 rocketry/core/time/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 5a5d57a..94b3369 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -447,8 +447,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -476,8 +474,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0

