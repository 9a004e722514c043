"""Source of properties.jsonl and MANIFEST.json (python3 tools/mk.py writes both)."""

P = []


def prop(id, title, statement, over, q, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe, state=state))


prop("C01", "Time period membership follows the calendar",
     "An instant belongs to a fixed time-of-second, minute, hour, day, week, month or year period exactly when its position in that "
     "cycle lies in the specified span: start included, end excluded, an end given as a whole unit (Monday, 2nd, February, 10) "
     "includes that unit, a start after the end wraps over the cycle's end, and omitted end points mean the cycle's own ends. This holds for every way of "
     "writing the end points and for periods built directly, with the condition API (between, before, after, at/on, starting) or from the "
     "string syntax, evaluated on the session's clock and timezone.",
     ["inputs", "configurations"], "every period specification, end point notation, instant (1995-2045) and fixed-offset timezone",
     "Tests sample a handful of hand-picked instants per period; wrapping, month lengths, leap years, fractions of units and edges multiply beyond that.",
     ["rocketry/core/time/anchor.py", "rocketry/time/interval.py", "rocketry/conditions/time.py", "rocketry/time/construct.py"],
     [("anchoring an instant to its cycle", "rocketry/time/interval.py anchor_dt/anchor_str/anchor_int"),
      ("membership incl. wrap-around", "rocketry/core/time/anchor.py AnchoredInterval.__contains__")],
     "property-based testing against an independent calendar model",
     "generated specifications, notations and edge instants compared to a from-scratch calendar model")

prop("C02", "Next and previous occurrences of a time period are right",
     "For every fixed-cycle period and every instant, the next occurrence starts at the instant itself if it is in the period and otherwise at the "
     "first later start, and ends at that occurrence's end; the previous occurrence ends at the instant if inside and otherwise at the "
     "latest earlier end, and begins at that occurrence's start. Months and years of different lengths, days a month does not have, and "
     "timezone-aware instants are handled according to the calendar, and the timezone is kept.",
     ["inputs"], "every period specification and instant (1995-2045), naive or with a fixed offset",
     "Tests enumerate a few (period, instant) pairs per class; month-length and wrap-around interplay is far larger.",
     ["rocketry/core/time/base.py", "rocketry/core/time/anchor.py", "rocketry/time/interval.py"],
     [("rolling", "rocketry/core/time/base.py TimeInterval.rollforward/rollback"),
      ("next/previous start and end", "rocketry/core/time/anchor.py next_start/next_end/prev_start/prev_end")],
     "property-based testing against an independent calendar model",
     "the model enumerates the period's pieces around the instant and the occurrence must be the right one")

prop("C03", "Combined time periods mean intersection and union",
     "An instant is in a & b exactly when it is in both a and b, and in a | b exactly when it is in at least one, for any nesting of fixed-cycle, "
     "static, always and never periods, with or without a timezone. A next or previous occurrence of a combination consists only of instants of the "
     "combination, is on the right side of the instant asked for, and skips no instant of the combination in between; that of a union does not end where another operand's occurrence overlaps and continues it.",
     ["inputs", "programs"], "every expression over and/or with up to five operands and every instant, restricted (for occurrences) to combinations that have an occurrence nearby",
     "Tests check a few two- and three-operand combinations at chosen instants; expressions and edges are unbounded.",
     ["rocketry/core/time/base.py", "rocketry/pybox/time/interval.py"],
     [("intersection and union", "rocketry/core/time/base.py All/Any"), ("interval arithmetic", "rocketry/pybox/time/interval.py Interval")],
     "property-based testing with structural (metamorphic) oracle",
     "membership of generated expressions against and/or of the operands; occurrences verified point-wise over all operand edges")

prop("C04", "Cron expressions schedule as cron does",
     "A cron expression (values, names, ranges, steps, lists, '*'; given as a string or by field) matches a minute exactly when the cron specification "
     "says so, including day-of-month or day-of-week when both are restricted; next and previous occurrences are the nearest matching minutes. "
     "A task scheduled with a cron expression runs exactly once in every matching minute in which the scheduler gets a chance, whether runs fail or succeed, and never in another minute.",
     ["inputs", "schedules"], "every expression of the grammar, instant, and sequence of clock readings",
     "Tests pin the period objects of about twenty expressions and a handful of observations; nothing compares with cron itself.",
     ["rocketry/time/cron.py", "rocketry/conditions/api.py", "rocketry/conditions/task/task.py"],
     [("expression to period", "rocketry/time/cron.py Cron.get_subperiod"), ("once per minute", "rocketry/conditions/task/task.py TaskRunnable")],
     "property-based testing against an independent cron matcher; simulated schedules",
     "expressions generated with their meaning; membership, nearest minutes and scheduler runs on a simulated clock compared to the matcher")

prop("C05", "Durations and 'every' schedules follow elapsed time",
     "A duration given as text (any documented units, fractions, combinations, or clock notation) or as a timedelta means the elapsed time it says. A task "
     "scheduled every X runs at the first scheduler cycle, and from then on at the first cycle at which X has elapsed since its latest run "
     "started, whatever the runs' outcomes and lengths, in-between manual runs, restarts with a kept log or the timezone, and at no other cycle.",
     ["inputs", "schedules", "histories"], "every duration notation, sequence of clock readings, run outcomes, restarts, cached or read-from-log status",
     "Tests parse a dozen texts and observe 'every' on a few fabricated logs; no test plays histories with failing, slow and manual runs.",
     ["rocketry/pybox/time/convert.py", "rocketry/time/interval.py", "rocketry/conditions/task/task.py", "rocketry/conditions/api.py"],
     [("text to duration", "rocketry/pybox/time/convert.py"), ("elapsed since last start", "rocketry/conditions/task/task.py TaskStarted/every")],
     "property-based testing of the grammar; model-based schedule simulation",
     "durations generated with their meaning; scheduler histories on a simulated clock judged cycle by cycle")

prop("C06", "Conditions combine as boolean logic without changing",
     "A condition made with &, |, ~, the combining classes or the string syntax (any nesting, parentheses and spacing; ~ binds tighter than &, & "
     "tighter than |) is true exactly when the boolean expression over its parts is, and a task starts in a cycle exactly when its start condition is true then. "
     "Deriving conditions (combining, negating, comparing with ==, !=, <, >, <=, >=) never changes the meaning of the conditions they were derived from.",
     ["inputs", "programs"], "every boolean expression over built-in, function, class and comparable conditions and every assignment of truth values",
     "Tests pin a few expressions and their repr; nesting, spacing, sharing of operands and truth assignments multiply.",
     ["rocketry/core/condition/base.py", "rocketry/parse/utils/string_parser.py", "rocketry/pybox/string/parse/closure.py", "rocketry/conditions/func.py"],
     [("combination", "rocketry/core/condition/base.py All/Any/Not/BaseComparable"), ("string syntax", "rocketry/parse/utils/string_parser.py InstructionParser")],
     "property-based testing against boolean evaluation of generated expressions",
     "expression trees rendered as objects and strings, evaluated on generated truth assignments; derivation sequences re-checked node by node")

prop("C09", "Periodic tasks run once per period, in its time window",
     "A task scheduled secondly, minutely, hourly, daily, weekly or monthly (optionally before, after, between, on or starting a point of the cycle) is run at a "
     "scheduler cycle exactly when the current instant lies in the window and no run has succeeded or been inacted within the current occurrence of the window, a failed run being "
     "final unless retries are set. This holds across long runs, manual runs, restarts with a kept log, timezones, and windows that wrap over the cycle's end.",
     ["schedules", "histories"], "every periodic schedule and history of clock readings, run outcomes, run lengths, manual runs and restarts",
     "Tests observe the condition on fabricated logs around chosen instants; none plays histories of the scheduler itself.",
     ["rocketry/conditions/api.py", "rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", "rocketry/core/time/base.py"],
     [("once per occurrence", "rocketry/conditions/task/task.py TaskExecutable"), ("schedule API", "rocketry/conditions/api.py TimeActionWrapper")],
     "model-based schedule simulation (generated histories on a simulated clock)",
     "each cycle of a generated history judged by an independent calendar model and the runs that really happened")

prop("C07", "Scheduler, environment and parameter conditions and shutdown",
     "Conditions on the number of cycles so far, on how long the scheduler has been running (over, under, between; started ... ago), on the environment name and on the existence or values of session "
     "parameters are true exactly when what they say is true at that cycle, as objects, in the string syntax and when compared. The scheduler shuts down after the first cycle at whose end its shut "
     "condition is true, and not before.",
     ["histories", "inputs", "configurations"], "every combination of such conditions, history of clock readings and parameter changes, as start condition, as observed value and as shut condition",
     "Tests observe single conditions at one or two moments; the counting of cycles, windows and parameter changes over a life of the scheduler is not played through.",
     ["rocketry/conditions/scheduler.py", "rocketry/conditions/meta.py", "rocketry/conditions/parameter.py", "rocketry/core/schedule.py"],
     [("cycles and running time", "rocketry/conditions/scheduler.py SchedulerCycles/SchedulerStarted"), ("parameters", "rocketry/conditions/parameter.py"), ("shut condition", "rocketry/core/schedule.py")],
     "model-based simulation (generated scheduler lives on a simulated clock)",
     "each cycle of a generated life judges every condition and whether the scheduler goes on")

prop("C08", "Status conditions tell what the log says",
     "A condition that a task has started, succeeded, failed, finished, terminated or been inacted, optionally in a period (today, this hour between ..., past 2 hours, ...) and optionally compared "
     "with a count, is true exactly when the task log holds a matching record (or matching number of records) in that period at that moment. The answer is the same whether statuses are cached or read from the logs, "
     "after a restart with a kept log, for the task itself or another task, in any timezone, and as object or string.",
     ["histories", "inputs", "configurations"], "every history of runs, outcomes and clock readings, every status condition, period and comparison",
     "Tests fabricate one log per condition with a handful of records; the cached and logged answers are compared on few histories.",
     ["rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", "rocketry/core/task.py"],
     [("log or cache", "rocketry/conditions/task/utils.py TaskStatusMixin"), ("cached last actions", "rocketry/core/task.py _set_status/_get_last_action")],
     "model-based simulation; oracle counts the records of the log itself",
     "each cycle of a generated history compares every condition with a count over the real log records")

prop("C10", "Dependent tasks run once after each new outcome",
     "A task set to run after the success, failure or finish of another task (or after all or any of several) runs in a cycle exactly when every (any) of them has had such an outcome more recently than the "
     "dependent task's own latest start; it runs once per such outcome and never without one. This holds for chains, diamonds, failing and manual runs and restarts with a kept log, whether statuses are cached or read from the logs.",
     ["histories", "schedules"], "every dependency graph of up to six tasks, history of outcomes, manual runs, clock readings and restarts",
     "Tests run two or three fixed pipelines to the end; re-runs, mixed outcomes and restarts are not played.",
     ["rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", "rocketry/conditions/api.py", "rocketry/core/schedule.py"],
     [("newer outcome than own start", "rocketry/conditions/task/utils.py DependMixin"), ("after_* API", "rocketry/conditions/api.py")],
     "model-based simulation of generated task graphs",
     "each cycle's set and order of runs predicted from the outcomes so far")

prop("C11", "Failed tasks are retried as often as told, no more",
     "A task with a retry condition of n runs again after a failed run as long as fewer than n consecutive failures preceded that one since its latest run that did not fail (always with -1 retries, never with none); any other outcome starts the "
     "count anew. Combined with another schedule, the task runs when either says so, across restarts with a kept log and with cached or logged statuses.",
     ["histories"], "every history of outcomes, clock readings, manual runs and restarts; every number of retries, alone or combined with a schedule",
     "Tests fabricate a few logs and check one observation each.",
     ["rocketry/conditions/task/task.py", "rocketry/conditions/api.py"],
     [("count of consecutive failures", "rocketry/conditions/task/task.py Retry")],
     "model-based schedule simulation (generated histories on a simulated clock)",
     "each cycle of a generated history judged by a model of the consecutive failures")

prop("C12", "Running conditions tell which runs are under way",
     "A condition that a task is running, optionally for more than or less than given times or compared with a number of runs, is true exactly when that many runs of the task are alive "
     "(and have lasted so long) at that moment. Runs that ended in whatever way, or were cut off by a crash of an earlier life of the application, do not count; cached and logged statuses agree.",
     ["histories", "schedules"], "every history of overlapping async and thread runs, their ends and terminations, clock readings, past lives and running conditions",
     "Tests check one or two fixed overlaps; ages, several runs at once and log-based answers are not combined.",
     ["rocketry/conditions/task/task.py", "rocketry/conditions/api.py", "rocketry/core/task.py"],
     [("live or logged runs", "rocketry/conditions/task/task.py TaskRunning.get_measurement")],
     "model-based simulation with controlled concurrent runs",
     "the harness decides when each run ends, so the set of alive runs and their ages is known at every observation")

prop("C13", "Every run is logged as one start and one true end",
     "Every run of a task appears in the task log as exactly one 'run' record at its start time and, once over (unless its process was killed by others), exactly one later record with the same run id that tells how it really ended (success, fail, "
     "inaction or terminate) and when, whatever the execution type, however runs overlap and also when the task is removed from the session meanwhile. The task's status, its last_* times and the number of alive runs agree with that log at every moment.",
     ["histories", "schedules", "faults"], "every interleaving of main, async, thread and process runs, their outcomes, terminations and shutdown",
     "Tests look at the log of one or two tasks after fixed runs; overlapping runs of all kinds, terminations and shutdown are not interleaved.",
     ["rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/core/log/adapter.py"],
     [("records of a run", "rocketry/core/task.py _set_status/log_*"), ("records from other processes", "rocketry/core/schedule.py handle_logs"), ("termination", "rocketry/core/task.py _terminate_run")],
     "model-based simulation with controlled concurrent runs",
     "starts, ends and terminations predicted run by run; the log is grouped by run id and must equal the prediction")

prop("C14", "Runs never exceed the concurrency limits",
     "Unless multilaunch is on for it (its own setting, else the session's), a task is never started while an earlier run of it is alive; the number of alive process runs never exceeds the configured maximum; and a limit "
     "on running runs in the start condition is obeyed. A start that a limit holds back happens as soon as the limit allows and it is still wanted, and no start is held back otherwise.",
     ["histories", "schedules", "configurations"], "every history of wanted starts, manual runs, ends and terminations over async, thread and process tasks and settings",
     "Tests run one overlap per setting; held back starts, several tasks competing for processes and mixed settings are not combined.",
     ["rocketry/core/schedule.py", "rocketry/core/task.py"],
     [("one run at a time", "rocketry/core/schedule.py / task.py is_alive, multilaunch"), ("process limit", "rocketry/core/schedule.py n_task_processes/has_free_processors")],
     "model-based simulation with controlled concurrent runs",
     "every cycle's starts predicted from what is alive; more or fewer is a violation")

prop("C15", "Each cycle starts exactly the wanted tasks, in priority order",
     "In every cycle the scheduler considers each task of the session once, from the highest priority to the lowest, and starts it exactly when a run of it was requested, or else when it is enabled and its start "
     "condition holds at that moment; nothing is started while the scheduler is on hold. Each requested run (Task.run, with its own parameters) happens once, one per cycle and in the order requested, even for a disabled task. Changes "
     "to tasks, priorities, conditions and the task set are in force from the next cycle at the latest.",
     ["histories", "schedules"], "every history of requests, condition values, holds, enabling, priority and task set changes over up to seven tasks",
     "Tests start one or two tasks by request or by condition; orders, queues of requests and changes while running are not combined.",
     ["rocketry/core/schedule.py", "rocketry/core/task.py", "rocketry/session.py"],
     [("cycle", "rocketry/core/schedule.py run_cycle"), ("wanted", "rocketry/core/schedule.py is_task_runnable / core/task.py is_runnable"), ("requests", "rocketry/core/task.py run/_get_batch_params")],
     "model-based simulation of generated histories",
     "each cycle's sequence of runs, and the parameters each got, predicted by a model of requests and conditions")

prop("C16", "Every parameter of a run gets its value from the right place",
     "A run of a task passes to its function, for each parameter it takes, the value given to that run, else the task's own parameter, else the argument in the function's signature, else the session parameter; "
     "and leaves out those that no one offers. Arguments (Arg, SimpleArg, FuncArg, EnvArg, CliArg, pipelines, Task, Session, private ones) are resolved anew for every run at the moment it starts; a missing one without a default fails that run only, logged as failed. It is the same for main, async, thread, process "
     "and path tasks. Neither asking for a run nor the run changes the parameters of the task, of the session or what run() was given.",
     ["inputs", "configurations", "histories"], "every combination of levels, argument kinds, defaults, execution types and changes between runs",
     "Tests pass one parameter through one level at a time.",
     ["rocketry/core/parameters/parameters.py", "rocketry/core/parameters/arguments.py", "rocketry/args/builtin.py", "rocketry/tasks/func.py", "rocketry/core/task.py"],
     [("levels", "rocketry/core/task.py get_task_params / tasks/func.py"), ("resolution", "rocketry/core/parameters/parameters.py materialize")],
     "model-based testing with generated tasks, parameters and arguments",
     "each run reports the arguments it got; a model of the levels and arguments says what they had to be")

prop("C17", "Return values reach the tasks that ask for them",
     "The value a task returned from its latest successful run is what Return(task), the session's returns and every later run that asks for it get, whatever the execution type, also when given by function, in a pipeline or with a default; "
     "failing, inacted and later unfinished runs leave it as it was. A task that never returned gives the default, or fails the asking run if there is none.",
     ["histories", "schedules"], "every history of runs and outcomes of tasks that pass values on, over main, async, thread and process runs",
     "Tests pass one value from one task to one other.",
     ["rocketry/core/task.py", "rocketry/core/parameters/parameters.py", "rocketry/args/builtin.py", "rocketry/core/schedule.py"],
     [("kept values", "rocketry/core/task.py _handle_return/_log_return"), ("asking", "rocketry/args/builtin.py Return"), ("from processes", "rocketry/core/schedule.py handle_logs / handle_return")],
     "model-based simulation of generated task graphs passing values",
     "each run reports what it got, compared with the model's latest successful values")

prop("C18", "Runs are terminated when they should be, and only then",
     "A run is terminated at the next cycle after its timeout (its task's, else the session's; none for permanent tasks) is exceeded, its task's end condition holds, or termination of its task is requested; no other run is. "
     "A terminated run that stops is logged as terminated once, others go on untouched, and one that finishes before is logged as it finished.",
     ["histories", "schedules"], "every history of overlapping async, thread and process runs with timeouts, end conditions, requests and clock readings",
     "Tests terminate one run of one task each.",
     ["rocketry/core/schedule.py", "rocketry/core/task.py"],
     [("when", "rocketry/core/schedule.py is_timeouted/is_task_terminable"), ("how", "rocketry/core/schedule.py terminate_task / core/task.py")],
     "model-based simulation with controlled concurrent runs",
     "the terminations due in each cycle predicted from ages, conditions and requests; any other end or none is a violation")

prop("C19", "Startup, cycles, shutdown and restart follow each other as told",
     "Each life of the scheduler runs its startup tasks once in priority order before the first cycle (and only then), then cycles until a shutdown or restart is requested, the shutdown condition holds or a fatal error occurs, then its shutdown tasks once, "
     "and then goes down with no run left alive. On a shutdown or restart request unfinished runs are waited for (permanent ones terminated); on a forced, doubled or instant shutdown or an error they are terminated. "
     "A restart or a new start begins the next life afresh (and not on hold), whatever ended the previous one; while on hold the cycles start no task; and fatal errors come out of the scheduler after the shutdown.",
     ["histories", "configurations", "faults"], "every sequence of up to four lives, ways of ending them, startup/shutdown/normal tasks, conditions, requests and unfinished runs",
     "Tests bring the scheduler down once, in one way, with one or two tasks.",
     ["rocketry/core/schedule.py", "rocketry/session.py", "rocketry/core/task.py"],
     [("life", "rocketry/core/schedule.py serve/startup/shut_down"), ("ways down", "rocketry/session.py shut_down/restart, rocketry/exc.py")],
     "model-based simulation of generated lives",
     "the whole sequence of hooks, cycles, starts and ends of several lives is predicted and compared event by event")

prop("C20", "Faults stay where they happen",
     "An error raised by a task's function, whatever it is, fails that run only. An error in a task's start or end condition, its parameters or hooks before it runs, or its logging, when silenced by the configuration, affects nothing but that task "
     "in that cycle (it is not started, its run is terminated, or its run is logged as failed without being executed) and is logged by the scheduler; when not silenced it comes out of the scheduler after an orderly shutdown.",
     ["faults", "histories", "schedules", "configurations"], "every placement of faults over cycles, tasks, execution types and silencing options",
     "Tests inject one fault into one task and look at that task only.",
     ["rocketry/core/schedule.py", "rocketry/core/task.py"],
     [("silencing", "rocketry/core/schedule.py check_task_cond/run_task/_log_task"), ("failing before the function", "rocketry/core/task.py start_async"), ("errors of other threads", "rocketry/core/task.py _check_exceptions")],
     "fault injection into generated histories, judged by a model",
     "faults injected into conditions, arguments, hooks, functions and the log repository; the runs, records and statuses of every task predicted")

prop("C21", "A new life goes on from the log of the one before, however that ended",
     "When an application is cut off at any moment (an unhandled exit, a killed process) and started again with the same log repository, the log holds exactly what was logged, in order; each task's status and latest times are those of its last records, "
     "a task whose last record is an unfinished run is marked crashed once and no other is, and conditions about the past (has succeeded, finished today, ...) say what the log says.",
     ["histories", "crash points", "configurations"], "every history of runs over up to three lives, every cut (in a run, between cycles, in shutdown, by SIGKILL), repositories (memory, CSV, SQL) and record models",
     "Tests restore one record of one task.",
     ["rocketry/session.py", "rocketry/core/task.py", "rocketry/core/log/adapter.py", "rocketry/log/log_record.py"],
     [("crash marks", "rocketry/session.py / core/task.py set_cached, log_crash"), ("reading back", "rocketry/core/log/adapter.py get_records/get_latest")],
     "generated histories of lives with injected cuts and process kills",
     "a model of the log across lives; the log is read back outside rocketry and compared with the model, tasks and conditions with the log")

prop("C22", "The session holds, names and runs exactly the tasks it was given",
     "After any sequence of creating, renaming, removing and looking up tasks the session holds exactly the tasks that were accepted, each findable under its (unique) name and function; a taken name is refused, ignored or renamed as task_pre_exist says. "
     "session.run runs each task named once (disabled or not; with obey_cond only those whose conditions allow) and no other, and leaves every setting and later-created task as it was, also when it fails. Tasks of an included group "
     "run with the group's prefix, condition, execution and parameters, and are logged like the application's own.",
     ["histories", "configurations", "inputs"], "every sequence of up to a dozen operations on the task set, every selection of tasks for manual runs, groups of every make",
     "Tests do one such operation on fresh sessions.",
     ["rocketry/session.py", "rocketry/application.py", "rocketry/core/task.py"],
     [("task set", "rocketry/session.py add_task/remove_task/__getitem__, core/task.py name validation"), ("manual runs", "rocketry/session.py run"), ("groups", "rocketry/application.py include_grouper")],
     "model-based testing of operation sequences",
     "a dictionary model of the task set and of which runs must follow")

prop("C23", "Hooks run around what they hook, once and in order",
     "Every hook of a session (setup/startup, cycle, shutdown, task creation, task execution) is called exactly once, in the order registered, before what it hooks, with its arguments resolved for that call, and, if it is a generator, resumed once after it, "
     "an execution hook with the exception info of that run (main, async, thread or process). What a setup hook changes (tasks, functions, configuration, log repository) is in force from the startup tasks on. Hooks of other sessions are not called.",
     ["histories", "configurations", "schedules"], "every set of hooks of every kind and form, tasks of every execution type and outcome, several lives and sessions",
     "Tests register a plain and a generator hook in one order and run one life.",
     ["rocketry/core/hook.py", "rocketry/core/schedule.py", "rocketry/core/task.py", "rocketry/session.py", "rocketry/application.py"],
     [("calling", "rocketry/core/hook.py _Hooker"), ("around", "rocketry/core/schedule.py startup/run_cycle/shut_down, core/task.py __init__/_run_as_async")],
     "model-based simulation of generated hooks and lives",
     "the whole timeline of hook calls and runs is predicted and compared")

prop("C24", "Commands, code and files run as given, and their outcome is told",
     "A run of a command task executes its command with that run's parameters appended as options (in the form argform says), in its working directory and environment; it succeeds, returning the output, exactly when the exit code is 0, and otherwise fails with exit code and "
     "error output in the log. A code task executes its code with the parameters as variables and returns its output variable; a task given by path runs the function as the file has it at that run (also when runs overlap), with its folder and sys_paths importable. "
     "No run leaves anything behind in the task, its parameters, its code or the interpreter that changes the next.",
     ["inputs", "histories", "faults"], "every sequence of runs with parameters, exit codes, outputs, edits of code and files, in every execution type",
     "Tests run each kind once.",
     ["rocketry/tasks/command.py", "rocketry/tasks/code.py", "rocketry/tasks/func.py", "rocketry/core/task.py"],
     [("commands", "rocketry/tasks/command.py execute"), ("code", "rocketry/tasks/code.py execute"), ("files", "rocketry/tasks/func.py get_func/get_module")],
     "generated sequences of runs against a model of each task type",
     "the program run reports its arguments, folder and environment; outcomes, return values and leftovers compared with a model")

prop("C25", "Sessions do not affect each other, and each goes by its own clock",
     "Several sessions in one process, at once or one after another, whichever of them is the default, behave each as it would alone: same starts, records, statuses, return values, parameters, names and times, also when tasks, parameters and custom conditions have the same names. "
     "Every time a session reads or logs (current time, record times, startup time, conditions) is by its own time_func and timezone.",
     ["schedules", "configurations", "histories"], "every pair or triple of scenarios of tasks, conditions, clocks, timezones and requests, served at once",
     "Tests use one session at a time.",
     ["rocketry/session.py", "rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/core/condition/base.py", "rocketry/core/log/adapter.py"],
     [("default session", "rocketry/session.py set_as_default / _base.py"), ("clock", "rocketry/session.py get_time/_wrap_log_record_creation")],
     "differential testing: each generated scenario alone and together with others",
     "the full outcome of a session served alone is compared with that of the same session served along with others")

prop("C26", "Log records tell what happened, reach every handler and are found again",
     "Every record of a run carries the task's name, the action, its time, the run's id and the other fields of the configured record model; the record of a failed run is of level ERROR and its exc_text holds the traceback of that very run's error, all others are of level INFO without one, "
     "whatever the execution type, the error or the names. Every handler of the task logger gets every record once (subject to its level), and a repository set later takes over from then on. "
     "Reading the log through a task's logger (filter_by, get_records, get_latest) gives exactly that task's records that match, in order; the session's (get_repo, get_task_log) those of all tasks.",
     ["inputs", "histories", "configurations"], "every sequence of runs, outcomes, errors, names, record models, handlers and queries",
     "Tests read back one or two records of one kind of task with one model.",
     ["rocketry/core/task.py", "rocketry/core/log/adapter.py", "rocketry/log", "rocketry/session.py", "rocketry/core/schedule.py", "rocketry/application.py"],
     [("making records", "rocketry/core/task.py _set_status/log_record"), ("from processes", "rocketry/core/schedule.py handle_logs, log/handlers.py QueueHandler"), ("reading", "rocketry/core/log/adapter.py filter_by/get_latest, session.py get_task_log/get_repo")],
     "generated runs, handlers and queries against a list of what happened",
     "what each repository and handler got and what each query returns is compared with the list of runs")

prop("C27", "Custom conditions get the right arguments and their answer decides",
     "A condition made from a function is asked, whenever it is checked, with the arguments of that use (positional, keyword or the named groups of its syntax), which take precedence over its defaults, and with the current values of its "
     "arguments (Arg, FuncArg, Return, EnvArg, SimpleArg, Task, Session) for the task and session it is checked for; its answer decides whether the task starts, also within and, or and not. Uses with different arguments do not affect each other. "
     "A condition with a task of its own (TaskCond) is true exactly while the latest successful check with the parameters of that use said so and is within its active time.",
     ["inputs", "histories", "configurations"], "every signature, form of use, expression over several uses by several tasks, and history of parameter values, environment, return values and checks",
     "Tests use each form once with one argument.",
     ["rocketry/conditions/func.py", "rocketry/conditions/meta.py", "rocketry/application.py", "rocketry/parse/condition.py", "rocketry/core/parameters/parameters.py"],
     [("asking", "rocketry/conditions/func.py observe/_recreate"), ("background checks", "rocketry/conditions/meta.py TaskCond"), ("syntax", "rocketry/parse/condition.py")],
     "model-based simulation of generated conditions, uses and histories",
     "every call's arguments and every start compared with a model")

prop("C28", "Control from other threads takes effect at any moment and does no harm",
     "While the scheduler runs, other threads (for example tasks with execution thread) may request runs, create, remove, rename, enable and disable tasks, change their conditions and priorities, set session parameters, look tasks up, read the log, "
     "request terminations and shut the scheduler down, at whatever moment of a cycle and however long it takes them. Every such operation takes effect once it is done and from the next cycle at the latest: a requested run happens once with its parameters, "
     "a created task is only ever run complete and as scheduled, a setting is not lost. None disturbs the scheduler, the other tasks' runs, their log or their status.",
     ["schedules", "histories"], "every set of operations, every point of the scheduler's code at which each begins, and every point of the operation at which the scheduler goes on meanwhile",
     "Tests call these methods from one thread, or at one moment.",
     ["rocketry/session.py", "rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/tasks/func.py", "rocketry/core/parameters/parameters.py"],
     [("finding tasks", "rocketry/session.py __getitem__/add_task/remove_task"), ("becoming visible", "rocketry/core/task.py __init__/register, tasks/func.py"), ("settings", "rocketry/core/task.py __setattr__, run, terminate"), ("cycles", "rocketry/core/schedule.py run_cycle")],
     "generated interleavings of operations with the scheduler, replayed at line granularity",
     "each operation is performed by a real thread at generated line events of the scheduler's thread, and paused at a generated line of its own; executions, log and statuses are compared with what the operations mean")
