#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["libensemble/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

# ---------------------------------------------------------------- manager / run
p("M01", "Every manager exit stops every worker",
  "However the manager loop ends (criteria met, allocation function stop, worker failure, any other exception), the manager goes through its final phase: it tells every persistent worker to stop and keeps receiving until no worker is active or persistent, the wall clock has expired or a worker has failed. It then sends every worker a finish signal, and an on-manager generator thread is joined. The outcome of that phase (persis_info, flag, time) is what the run returns.",
  ["schedules", "fault_sequences"], "every exit of the manager loop, including each exception at each statement of it, and every set of active/persistent workers",
  "tests end runs in a handful of ways; no test raises at each point of the loop or ends it with each mix of active and persistent workers",
  ["manager.py"], [("Manager.run try/finally", "manager.py:Manager.run"), ("final receive", "manager.py:Manager._final_receive_and_kill"), ("finish broadcast", "manager.py:Manager._kill_workers")])
p("M02", "A worker failure is never lost",
  "Any exception raised while a worker handles its messages or work (sys.exit in a user function included) reaches the manager as an error message carrying the text and traceback; for the first one the manager stops all workers, reports it and ends the run with an exception. Later errors do not raise again, no error is turned into data, and the run does not return normally with the failure swallowed.",
  ["fault_sequences", "schedules"], "any exception at any point of worker message handling, in any order relative to other workers' messages",
  "tests raise in one user function on an otherwise quiet worker team; they do not place the failure at each statement or while another failure is handled",
  ["worker.py", "manager.py", "libE.py"], [("worker exception barrier", "worker.py:Worker.run"), ("error intake", "manager.py:Manager._handle_msg_from_worker"), ("run exception mapping", "manager.py:Manager.run")])
p("M03", "Abort saves state, cleans up and re-raises",
  "When the manager fails, the trimmed history and persis_info are written (if the save-on-abort option is on) before any communicator abort and before the exception leaves; the run always raises a logged exception and never returns a result. The clean-up callback runs on every exit, normal or exceptional, and an abort happens only with the abort-on-exception option and never before clean-up.",
  ["fault_sequences", "configurations"], "every exception from the manager, every combination of the save/abort options and of comms back ends",
  "abort and exception paths are sampled with one failure and one option set per test",
  ["libE.py"], [("abort path", "libE.py:manager"), ("dump", "libE.py:_dump_on_abort"), ("cleanup callbacks", "libE.py:libE_local, libE_mpi_manager, libE_tcp_mgr")])
p("M04", "Invalid work orders are refused before anything is sent",
  "Every work order from an allocation function is validated before it is sent: an already active worker (not in active receive), a plain message to an active-receive worker, rows without fields, and unknown fields are rejected with an error. The allocation function's output is also rejected unless it is two dictionaries and a 0/1 flag, and active receive is accepted only for persistent work.",
  ["inputs", "histories"], "every work dictionary and allocation output, against every worker state",
  "tests feed a few malformed work orders; the set of worker states x work dictionaries is unbounded",
  ["manager.py"], [("work order check", "manager.py:Manager._check_work_order"), ("alloc output check", "manager.py:Manager._alloc_work")])
p("M05", "Dispatch keeps worker and history state in step with what was sent",
  "Each work order that is sent marks the worker active with the order's type (and persistent / active-receive if the order says so) and marks exactly the order's history rows as started (simulations) or as given to the generator (generations), once. A rows message follows the order if and only if it has rows, holding those rows and fields in order, and resources are set before the order goes out. With final_gen_send, the evaluated points not yet given out go with the final stop to persistent generators only, and exactly those are marked as given.",
  ["inputs", "histories"], "every sequence of work orders of both types, with and without rows, persistent or not",
  "tests check final results of whole runs, not the per-order correspondence for every kind of order",
  ["manager.py", "history.py"], [("dispatch loop", "manager.py:Manager.run"), ("send", "manager.py:Manager._send_work_order"), ("state update", "manager.py:Manager._update_state_on_alloc")])
p("M06", "Returned messages update worker state exactly",
  "A message from a worker makes it idle unless it is pending a persistent stop, in active receive, or asked to keep its state; a persistent-finish message clears its persistent, active-receive, active and pending state. Its resources are freed exactly when its work is over (non-persistent result or persistent finish) and kept otherwise. Result data goes to the history as simulation results or new points according to the message type, final persistent data only with the matching option, and returned persis_info is merged under that worker.",
  ["histories", "schedules"], "every worker state x message kind x option combination, in any message order",
  "the cross product of worker states, message kinds and options is far larger than the scenarios in the tests",
  ["manager.py"], [("message state update", "manager.py:Manager._update_state_on_worker_msg")],
  [("active/persis_state/active_recv", "worker state row", "manager.py:Manager.worker_dtype"), ("persis_pending", "workers told to stop", "manager.py:Manager.__init__")])
p("M07", "Kill signals go only to cancelled running simulations, once",
  "With simulation cancelling enabled, a kill signal is sent to the worker of each point that is started, cancel-requested, not ended and not already signalled, and the point is then marked as signalled; no other worker gets one, and nothing is sent when the option is off. The search covers every point that can be running, whatever order points were given out in.",
  ["histories", "schedules"], "every interleaving of giving, cancelling and returning points, in any order of rows",
  "cancellation tests use in-order rows and one cancellation pattern",
  ["manager.py", "history.py"], [("kill scan", "manager.py:Manager._kill_cancelled_sims"), ("scan bounds", "history.py:History.update_history_x_out, update_history_f")],
  [("last_started/last_ended", "bounds of the scan", "history.py:History.__init__")])
p("M08", "Exit criteria are applied exactly",
  "A run stops when any given criterion holds: ended simulations reach sim_max, generated points reach gen_max (each beyond those in the initial history), a finished simulation's value is at or below stop_val (NaNs ignored), or the elapsed time reaches wallclock_max. Every documented criterion has a test, a criterion not given is never applied, only the wall clock gives the timed-out flag, and criteria are tested on every loop iteration.",
  ["inputs", "histories"], "every combination of exit criteria, initial history and progress",
  "tests use round numbers and one criterion at a time",
  ["manager.py", "specs.py"], [("term tests", "manager.py:Manager.term_test and term_test_*"), ("criteria model", "specs.py:ExitCriteria")])
p("M09", "No simulation is dispatched beyond sim_max",
  "The manager re-evaluates before each individual work order whether sim_max simulations (beyond those already started in the initial history) have been given, and sends nothing more once they have. The shipped allocation functions produce no work in that case or when no worker is idle.",
  ["histories", "schedules"], "every batch of work orders returned by any allocation function, at every count",
  "tests check total counts at the end of a run for a few allocation functions",
  ["manager.py", "alloc_funcs/"], [("limit predicate", "manager.py:Manager._sim_max_given"), ("dispatch loop", "manager.py:Manager.run"), ("alloc early exit", "alloc_funcs/*")])
p("M10", "A checkpoint always exists once one was written",
  "With periodic saving enabled, a new checkpoint file is completely written before any previous one is removed, so a crash at any point leaves the latest complete checkpoint on disk. Checkpoints hold only generated rows, are written only when the corresponding option asks for it, and a final save is made when requested.",
  ["crash_points", "configurations"], "a crash at every point of a save, every combination of the save options",
  "no test interrupts a save",
  ["manager.py"], [("periodic save", "manager.py:Manager._save_every_k"), ("save triggers", "manager.py:Manager._init_every_k_save")])
p("M11", "Protected history fields are written only by libEnsemble",
  "In safe mode, data returned by a generator or simulator that contains a protected history field is refused before that field is stored, and an allocation function that changed one is detected before its work is used. Within libEnsemble only the history and manager modules write protected fields; no shipped allocation function does. Every protected field is a real history field.",
  ["inputs", "programs"], "every user output and every allocation function, every history write in the package",
  "tests try one protected field from one source",
  ["history.py", "manager.py", "tools/fields_keys.py", "alloc_funcs/"], [("safe mode checks", "history.py:update_history_f, update_history_x_in; manager.py:_alloc_work"), ("field tables", "tools/fields_keys.py")])
# ---------------------------------------------------------------- history
p("H01", "Only generated rows leave the history",
  "The history handed to allocation functions, saved in checkpoints, dumped on abort, returned to the user or summarised holds exactly the rows that have been generated so far (plus the initial history), never the pre-allocated blank rows.",
  ["histories", "crash_points"], "every moment at which the history leaves the manager, every amount of pre-allocated space",
  "tests look at the returned array of complete runs, where blank rows are rarely present",
  ["manager.py", "libE.py", "history.py"], [("trim", "history.py:History.trim_H")])
p("H02", "Blank history rows always carry the unset markers",
  "Every row that is allocated but not yet generated, in the initial array or added by growth, carries the same unset markers (sim_id -1, _id -1, infinite started/informed times, one resource set). Growing rows or adding fields preserves every existing row and field value, and rows are added whenever a batch does not fit.",
  ["inputs", "histories"], "every batch size and field set, every number of growths, with and without an initial history",
  "tests grow the history once with one field layout",
  ["history.py"], [("allocation", "history.py:History.__init__"), ("growth", "history.py:History.grow_H"), ("new fields", "history.py:History._append_new_fields")])
p("H03", "Simulation bookkeeping matches rows given and returned",
  "Giving rows out marks exactly those rows as started, with time and worker, and counts them once; each returned row has its output stored and is marked ended with a time and counted once. Initial counters are the number of started/ended rows of the initial history, and rows from an initial history without those marks are taken as already evaluated.",
  ["histories", "inputs"], "every batch of rows given or returned, every initial history",
  "tests use small in-order batches",
  ["history.py"], [("give out", "history.py:update_history_x_out"), ("return", "history.py:update_history_f"), ("H0 intake", "history.py:__init__")])
p("H04", "Generated points enter the history consistently",
  "New points are appended at the next index with consecutive ids, unless the generator supplies ids: then gaps are refused, existing rows are updated and only genuinely new ids advance the index. The generator worker and times are stamped only on rows generated for the first time, and an empty batch changes nothing.",
  ["inputs", "histories"], "every generator batch: with or without ids, mixes of new and updated rows",
  "tests cover one append and one update pattern",
  ["history.py"], [("gen intake", "history.py:update_history_x_in")])
p("H05", "The generator is marked informed only of ended points",
  "When rows are given back to a generator, exactly those among them whose simulation has ended are marked informed; the informed time is stamped and the counter advances by the rows given. Giving no rows changes nothing.",
  ["histories"], "every set of rows with any mix of ended and running points",
  "tests rarely give back running points",
  ["history.py", "manager.py"], [("inform", "history.py:update_history_to_gen")])
# ---------------------------------------------------------------- resources
p("R01", "Resource sets are never shared or lost",
  "A resource set is assigned to a worker only if it is free (a set held by another worker is an error), and is freed only by releasing its worker. The free totals (all, GPU, non-GPU) change together with assignments by exactly the sets that change hands, and nothing outside the resource manager changes assignments.",
  ["histories", "schedules"], "every sequence of assignments and releases",
  "tests check totals after a few assign/free pairs",
  ["resources/worker_resources.py", "manager.py"], [("assign/free", "resources/worker_resources.py:ResourceManager")])
p("R02", "The scheduler hands out only free sets and fails cleanly",
  "The scheduler's cache of available sets starts from unassigned sets only, every team it returns is removed from the cache and deducted from its free counts, and GPU / non-GPU requests draw only from sets of that kind. A request that cannot be satisfied raises (more than exist, or not currently free) without having changed the cache or the counts.",
  ["inputs", "histories"], "every sequence of requests against every free pattern",
  "tests enumerate specific layouts",
  ["resources/scheduler.py"], [("assign", "resources/scheduler.py:ResourceScheduler.assign_resources")])
p("R03", "Workers show exactly the resources of their current order",
  "When a user function starts, its worker's resource object holds the resource sets of that work order (none if the order has none), and every attribute derived from them (nodes, slots, slot counts, GPU strings, environment settings) is computed from exactly these sets; slots are numbered from 0 on each node as the manager counts them. The process and GPU counts kept for the worker and its executor are those of the order, and unset if it has none, never those of an earlier order. Each worker's resource object and executor carry its own number and communicator, also when workers share memory.",
  ["histories", "inputs", "configurations"], "every sequence of work orders on a worker, every team, every sharing of nodes, with and without an executor",
  "tests set one team on a fresh worker; what remains from earlier orders, uneven node sharing with GPUs and workers sharing memory are never combined",
  ["worker.py", "resources/worker_resources.py", "resources/resources.py", "executors/mpi_executor.py", "libE.py"],
  [("order applied", "worker.py:Worker._handle, Worker._set_rset_team"), ("team attributes", "resources/worker_resources.py:WorkerResources.set_rset_team, set_slot_count, get_local_nodelist"), ("exposed slots", "resources/worker_resources.py:WorkerResources.get_slots_as_string, set_env_to_gpus"), ("set-up", "worker.py:worker_main, Worker.__init__")],
  [("rset_team/slots/gen_ngpus", "resources of the current order", "resources/worker_resources.py:WorkerResources")])
# ---------------------------------------------------------------- allocation
p("A01", "Worker availability filters are exact",
  "The availability query returns a worker exactly when it is idle (or, for active receive requests, is in active receive), matches the requested persistent state if one is given, and matches the zero-resource and generator-worker filters when such workers exist and the filter is given. Non-persistent active-receive queries are refused.",
  ["inputs", "histories"], "every worker state and every filter combination",
  "tests check listed combinations on one worker array",
  ["tools/alloc_support.py"], [("filter", "tools/alloc_support.py:AllocSupport.avail_worker_ids")])
p("A02", "Allocation functions give only eligible points to available workers",
  "Shipped allocation functions address work only to workers obtained from the availability query and never replace a work unit already made in the same call. The points they give for simulation are not started and not cancelled (directly filtered, through a forward cursor that skips cancelled points and stays within the history, or taken from a pending set filled only with new points), and points go back to generators only if their simulation has ended, where rows are filtered at all.",
  ["inputs", "histories"], "every worker/history state seen by every shipped allocation function",
  "each allocation function is exercised by a few whole runs",
  ["alloc_funcs/", "tools/alloc_support.py"], [("alloc functions", "alloc_funcs/*.py")])
p("A03", "Allocation bookkeeping is committed only with its work unit",
  "When resources are insufficient for a work unit, the error does not escape the shipped allocation functions (unless the request can never be met), and none of their bookkeeping (cursor, counters, started flags, pending sets, eligibility masks) records that unit as given. When a unit is made, its points are recorded so that they cannot be given again in the same call.",
  ["inputs", "fault_sequences"], "every point at which resource assignment may fail",
  "resource exhaustion is hit in few tests and never at every unit",
  ["alloc_funcs/"], [("insufficient-resource handlers", "alloc_funcs/*.py")])
p("A04", "Work units carry a complete, well-formed description",
  "Every work unit built by the support class holds its field list without duplicates, its rows as an array, its persis_info, its type tag and its libE_info; new generators are numbered once, and resources are assigned for non-persistent work when resource management is on, and never for a worker already in a persistent state. An explicitly given set of resources is used as given, also an empty one; otherwise the request is the largest requirement among the rows, in whole sets rounded up. The 'all started', 'all ended' and 'all informed' helpers ignore exactly the cancelled points they document.",
  ["inputs"], "every argument combination of the support class",
  "tests check selected arguments",
  ["tools/alloc_support.py"], [("work units", "tools/alloc_support.py:sim_work, gen_work"), ("tests over H", "tools/alloc_support.py:all_sim_started, all_sim_ended, all_gen_informed")])
# ---------------------------------------------------------------- comms
p("C01", "Communicators agree on buffering, waiting and ending",
  "In every communicator with a pushed-back message, that message is reported as available and is received first, exactly once. A receive with a timeout raises the timeout error on expiry, and after the final result of a thread or process no further message is delivered: the receiver gets the finished error.",
  ["schedules", "fault_sequences"], "every order of sends, push-backs, receives and completions, for every communicator kind",
  "tests use one communicator and simple orders; MPI is not run in the unit tests",
  ["comms/comms.py", "comms/mpi.py"], [("queue comm", "comms/comms.py:QComm, QCommLocal"), ("MPI comm", "comms/mpi.py:MPIComm")])
p("C02", "Thread and process teams always deliver a result or an error",
  "A function launched in a thread or process that returns or raises an exception sends exactly one final message: its result, or an error with the text and traceback. Waiting for the result joins the thread or process, re-raises a remote error and raises a timeout when time runs out; the process back end can be terminated forcefully.",
  ["fault_sequences", "schedules"], "every outcome of the launched function and every timeout",
  "tests sample a return, an exception and one timeout",
  ["comms/comms.py", "libE.py"], [("main wrapper", "comms/comms.py:_qcomm_main"), ("result", "comms/comms.py:QCommLocal.result"), ("team clean-up", "libE.py:kill_proc_team")])
p("C03", "Message tags and status codes are unambiguous and all handled",
  "All message tags are distinct, all calculation statuses are distinct, and the statuses the manager acts upon never collide with tags or with each other. Every status has a description, every work type has a name and a runner, and every kill signal is recognised by the task polling code.",
  ["programs"], "all tags and statuses defined in the package and all places that dispatch on them",
  "no test compares the tables",
  ["message_numbers.py", "worker.py", "executors/executor.py"], [("tables", "message_numbers.py")])
p("C04", "Two-part work messages stay framed on both ends",
  "Whenever the manager sends a work order, each receiver (plain worker, persistent user function) reads a second message exactly when one was sent, and if a stop signal reaches a persistent function, in place of an order or of its rows, it is kept for the worker loop. Both ends of every communicator agree on tag, payload and queue, and the worker reads exactly the start-up messages the manager sends. A work order never leaves a stray rows message behind to be mistaken for the next order.",
  ["schedules", "inputs"], "every work order with or without rows, to every kind of receiver, with stops arriving between the parts",
  "needs a stop between two messages or an empty final send",
  ["manager.py", "worker.py", "tools/persistent_support.py"], [("sender", "manager.py:_send_work_order, _final_receive_and_kill"), ("receivers", "worker.py:_recv_H_rows; persistent_support.py:recv")])
# ---------------------------------------------------------------- worker
p("W01", "A worker answers every work order once and leaves only when told",
  "The worker loop sends exactly one reply for each work order it runs, and ends if it learned during the work that it must finish (without a reply, or after it if the calculation gave a status of its own). It leaves the loop only on a finish signal or an error (reported to the manager), ignores kill signals that arrive while idle, discards stray active-receive data and final rows with their rows message, and refuses messages that are not work orders.",
  ["schedules", "fault_sequences"], "every message sequence at the worker",
  "tests drive a few message sequences",
  ["worker.py"], [("loop", "worker.py:Worker.run"), ("handle", "worker.py:Worker._handle, _handle_calc")])
p("W02", "Local objects never travel to the manager",
  "Replies and persistent messages sent to the manager never contain the worker's communicator or executor. Sending from a persistent function leaves the function's own libE_info intact, so it can send and receive again.",
  ["histories", "programs"], "every message a worker or persistent function sends",
  "with thread comms a leaked object goes unnoticed; with processes it fails only for some objects",
  ["worker.py", "tools/persistent_support.py", "utils/runners.py"], [("strip", "worker.py:Worker._handle"), ("copy then strip", "persistent_support.py:PersistentSupport.send")])
p("W03", "Every calculation is logged with its status, however it ends",
  "Each calculation, whether it returns or raises, produces one line in the statistics log holding its final status; a raising calculation is logged with the exception status and the exception continues to the worker loop. A status returned by the user function is the one sent to the manager and logged.",
  ["fault_sequences", "inputs"], "every way a user function can return or raise",
  "tests check the log for ordinary returns",
  ["worker.py"], [("calc wrapper", "worker.py:Worker._handle_calc")])
p("W04", "The working directory is always restored",
  "Whatever a user function that runs in a directory of its own does (changing directory, raising), the worker process is back in its previous directory after the calculation, and a worker ends in the directory it started in; no exception is swallowed by the directory handling. Nothing else in the package changes the process working directory (apart from the --pwd command line option at start-up).",
  ["fault_sequences"], "every exit of every calculation run in its own directory",
  "tests change directory only around returning functions",
  ["utils/loc_stack.py", "worker.py"], [("context manager", "utils/loc_stack.py:LocationStack.Saved"), ("use", "worker.py:Worker._handle_calc, worker_main")])
p("W05", "Output is never destroyed unless reuse was requested",
  "Files or directories that already exist in ensemble, worker, calculation or copy-back directories are removed or replaced by the directory handling only when reuse of the output directory ('reuse_output_dir') was requested, and then they are; without it, starting with an existing ensemble directory (or copy-back directory) is refused before anything is made, and the workers are stopped. The copy-back step runs when a worker ends, also after an error.",
  ["configurations", "fault_sequences"], "every directory option combination over every pre-existing layout",
  "tests cover a few option sets from clean directories",
  ["utils/output_directory.py", "utils/loc_stack.py", "manager.py", "worker.py"], [("guarded removal", "loc_stack.py:copy_file, symlink_file; output_directory.py:copy_back"), ("refusal", "output_directory.py:make_copyback; manager.py:Manager.__init__")])
# ---------------------------------------------------------------- persistent
p("P01", "Stop signals reach both the persistent function and the worker",
  "When a persistent function receives a stop (in place of work, or in place of rows), it gets the stop tag and the signal is pushed back so that the worker loop also sees it; a stop that carries final work is delivered as work. A non-blocking receive with no message returns at once with nothing, and a cancel request is sent without changing the worker's state at the manager.",
  ["schedules"], "every interleaving of stop signals, work orders and rows",
  "needs a stop at each possible position",
  ["tools/persistent_support.py", "worker.py"], [("recv", "persistent_support.py:PersistentSupport.recv"), ("cancel", "persistent_support.py:request_cancel_sim_ids")])
p("P02", "Shipped persistent functions obey both stop tags and report finish",
  "Every persistent generator and simulator shipped with the package leaves its loop on either stop tag and returns the persistent-finished status of its own kind, so that the manager releases it.",
  ["programs", "schedules"], "all shipped persistent functions and both stop tags at every receive",
  "each function is run to one kind of ending, with optional dependencies most are not run",
  ["gen_funcs/", "sim_funcs/", "utils/runners.py", "gen_classes/"], [("loops and returns", "gen_funcs/persistent_*.py, sim_funcs/*.py, utils/runners.py")])
# ---------------------------------------------------------------- executor
p("E01", "Task state is a consistent state machine",
  "A task's state is always one of the documented states; it is marked finished exactly when it enters an end state, success is reported only for exit code zero (or a dry run), a killed task stays killed, and a finished task is never polled into another state. Waiting with a timeout raises the timeout error and leaves the task running.",
  ["schedules", "inputs"], "every sequence of poll, wait, kill, result and cancel calls and every exit code",
  "tests walk a few call sequences",
  ["executors/executor.py"], [("task", "executors/executor.py:Task")])
p("E02", "Killing a task signals it, escalates and reaps it",
  "Killing a task sends a termination signal, waits the grace period, then sends a hard kill to the process (and its group if it leads one) and reaps it; with zero grace it is killed at once and with no limit it is terminated and waited for. A kill request for a finished task does nothing, and the polling loop kills its task when it times out or a kill signal arrives and returns the matching status.",
  ["schedules", "fault_sequences"], "every grace period and every reaction of the child process",
  "tests kill well-behaved sleepers",
  ["utils/launcher.py", "executors/executor.py"], [("cancel", "utils/launcher.py:cancel, wait_and_kill, killpg, terminatepg"), ("kill", "executors/executor.py:Task.kill, Executor.polling_loop")])
p("E03", "MPI runners agree on the launch description",
  "Every supported MPI launcher is reachable under its documented name, fills every placeholder of its command from the launch description and defines every attribute the shared launch code reads. GPU requests are turned into either environment or command-line settings by the same table for every launcher, and failed submissions are retried a bounded number of times.",
  ["configurations"], "every launcher x request combination",
  "most launchers are not installed where tests run",
  ["executors/mpi_runner.py", "executors/mpi_executor.py", "utils/validators.py"], [("runner classes", "executors/mpi_runner.py"), ("submit", "executors/mpi_executor.py:MPIExecutor.submit")])
p("E04", "Manager signals seen while polling are passed on",
  "Polling for a manager signal never loses one: a stop signal is reported to the caller and pushed back for the worker loop, and only recognised kill signals count as a kill. The communicator is detached from the executor when the worker ends.",
  ["schedules"], "every message that can be waiting when the executor polls",
  "tests inject one signal",
  ["executors/executor.py", "worker.py"], [("poll", "executors/executor.py:Executor.manager_poll, manager_kill_received")])
p("E05", "Platform descriptions are known, consistent and merged field by field",
  "Every platform that can be named or detected has a description, every description uses only settings the launchers understand, and platform options given by the user override the named platform field by field: a field the user did not set keeps the platform's value, and the result reaches the resource manager and the executor.",
  ["configurations"], "every platform description, every combination of named platform and user fields",
  "tests name two platforms and set a few fields",
  ["resources/platforms.py", "utils/validators.py", "resources/resources.py"], [("platforms", "resources/platforms.py:get_platform, Platform subclasses")])
# ---------------------------------------------------------------- specs / entry
p("S01", "Options read by the code are options users can set",
  "Every key of the user-facing specifications that the package reads is a documented, validated field of the corresponding specification, so no option is silently ignored through a misspelling, and unknown options are rejected.",
  ["programs", "configurations"], "every read of a specification key in the package",
  "tests set only some of the options",
  ["specs.py", "libE.py", "manager.py", "worker.py", "resources/", "utils/pydantic_bindings.py"], [("models", "specs.py"), ("strict config", "utils/pydantic_bindings.py")])
p("S02", "Every input rule is enforced for every entry point",
  "Each validation rule of the package is attached to its specification model, the main entry point builds the validated models before any work starts, and a dry run exits after validation and before resources, workers or files are touched. Every documented communication mode has a main routine.",
  ["configurations", "inputs"], "all validators, all communication modes",
  "a rule that is no longer attached fails no test unless its specific bad input is tested",
  ["utils/validators.py", "utils/pydantic_bindings.py", "libE.py", "utils/specs_checkers.py"], [("binding", "utils/pydantic_bindings.py"), ("dispatch", "libE.py:libE")])
p("S03", "Every communication mode cleans up what it started",
  "In each communication mode, everything that was started (worker processes or threads, launched remote workers, a duplicated communicator, a network server, log handlers) is released on every exit of the run. Workers that do not end in time are terminated, and one worker's timeout does not leave others running.",
  ["fault_sequences", "configurations"], "every exit of the run in every mode",
  "TCP and MPI modes are not run by the unit tests; exits are sampled",
  ["libE.py", "comms/tcp_mgr.py", "comms/comms.py"], [("cleanup", "libE.py:libE_local, libE_mpi, libE_tcp_mgr, kill_proc_team, DupComm")])
p("S04", "Ensembles and generators do not share configuration",
  "Two ensembles, generators or runs created in one program without an explicit argument never share a mutable default: a default object is not changed, not returned, and not kept where it is changed later, and no object of a class body is changed through an instance.",
  ["programs", "histories"], "every parameter default of the package, every flow of it",
  "tests create one ensemble at a time",
  ["ensemble.py", "generators.py", "libE.py", "executors/", "tools/"], [("defaults", "every function with a mutable parameter default")])
p("G01", "Generators are started before use, given every result and hear every stop",
  "A generator running in its own thread is started before any point is asked from or given to it and at most once; every result and every stop is passed to it before its final result is awaited, and its updates are sent without changing the worker's state; its runner waits for neither the manager nor the generator while the other may have something. A generator object driven by the worker is given the results it asked for before it is asked again, every set of points it suggests is sent (converted with its name mapping), it stops when told to, and its last results reach it before it is finalised.",
  ["histories", "inputs"], "every order of suggest/ingest/finalize/export calls, every tag and every kind of generator",
  "tests use one order of calls and one kind of stop",
  ["generators.py", "utils/runners.py"], [("interfacer", "generators.py:PersistentGenInterfacer"), ("object runner", "utils/runners.py:StandardGenRunner"), ("thread runner", "utils/runners.py:LibensembleGenThreadRunner")])
p("G02", "Dictionary/array conversion keeps every value in its field",
  "Converting between a generator's dictionaries, arrays with one field per variable and arrays with mapped fields puts each variable of a mapping into its own component of the mapped field (in the order of the mapping) and back, leaves all other fields unchanged with their types and shapes, fills every field whether it was declared or not, and drops no value; the type of an undeclared field is decided by all dictionaries given.",
  ["inputs"], "every kind of mapping (none, one or several fields, one or several variables, a field mapped to itself), scalar and vector fields, declared and undeclared ones",
  "tests convert a few arrays with one mapping; the combinations of mapping, declared fields and shapes are many",
  ["utils/misc.py", "generators.py"], [("conversions", "utils/misc.py:list_dicts_to_np, np_to_list_dicts, map_numpy_array, unmap_numpy_array")])
p("G03", "User functions run where and how their specification says",
  "Each specification gets the runner made for it: a Globus Compute endpoint, the threaded option or the kind of generator decide, and a plain function runs in the worker. Whatever the runner, a work order calls the user function exactly once, with the first of (input, persis_info, specs, libE_info) that it takes in this order, and hands back exactly what it returned (a dictionary in place of an array is refused). A function in a thread or on a remote endpoint is awaited, and what a runner started is ended when the worker ends, on every exit; without Globus Compute the function runs in place, as announced.",
  ["configurations", "inputs"], "every kind of specification, every runner, one to four parameters, every kind of return value, every exit of the worker",
  "tests use four-parameter functions in place, and mock the remote service",
  ["utils/runners.py", "worker.py"], [("choice", "utils/runners.py:Runner.from_specs"), ("call", "utils/runners.py:Runner._truncate_args, _result"), ("shutdown", "worker.py:Worker.run")])
# ---------------------------------------------------------------- outside this family
p("N01", "APOSMM and other methods find the right optima",
  "The shipped optimisation and sampling methods return points and optima satisfying their published guarantees.",
  ["inputs"], "all objective functions", "numerical convergence over all inputs", ["gen_funcs/persistent_aposmm.py"], [("method", "gen_funcs/persistent_aposmm.py")])
p("N03", "Node lists are parsed as the batch system means them",
  "For every scheduler's node-list syntax the parsed list is the set of nodes the job owns.",
  ["inputs"], "all node-list strings", "string semantics of external systems", ["resources/env_resources.py"], [("parsers", "resources/env_resources.py")])
p("N04", "Resources are split evenly and minimally over nodes",
  "Resource-set partitions are as even as possible and teams are placed on the fewest nodes that fit.",
  ["inputs"], "all node, worker and request counts", "arithmetic optimality over all integers", ["resources/rset_resources.py", "resources/scheduler.py"], [("partition", "resources/rset_resources.py")])
p("N05", "Runs terminate and every worker gets work eventually",
  "With finite exit criteria and terminating user functions every run ends, and no idle worker is starved of available work.",
  ["schedules"], "all fair schedules", "liveness over unbounded schedules", ["manager.py"], [("loop", "manager.py:Manager.run")])
p("N06", "Random streams are independent per worker",
  "Each worker's random stream is reproducible and independent of the others.",
  ["inputs"], "all seeds and team sizes", "statistical property", ["tools/tools.py"], [("streams", "tools/tools.py:add_unique_random_streams")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
