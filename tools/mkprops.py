#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

SERIAL = "The stable suite runs serially only (no -p, no crash, no Ctrl-C, no accept); "

p("C01", "A parallel run terminates and accounts for every selected case once",
  "A parallel run over any selection terminates, executes every selected case exactly once, and leaves exactly one report line per selected case carrying that case's own result, next to the preserved lines of unselected cases. A case that breaks its worker's job (set-up error, result that cannot be stored, exit request, unreadable expectation, failing file write) is reported as failed and neither blocks, loses nor duplicates the report of any other case. Left-overs of earlier parallel runs are never taken for results of this run.",
  ["schedules", "fault_sequences", "inputs"],
  "all suites, selections, worker counts, task timings and completion orders, and all single-worker-job failures that leave the worker process alive",
  SERIAL + "runs.py is not executed by them at all, and completion orders and job failures cannot be chosen from a test.",
  ["booktest/runs.py", "booktest/testrun.py", "booktest/reports.py"],
  [("scheduler thread, done/todo bookkeeping, report hand-over to the main loop", "booktest/runs.py ParallelRunner.thread_function/next_report"),
   ("per-job report files and clean-up of stale ones", "booktest/runs.py RunBatch, prepare_batch_dir")],
  ["cases.txt", "stdout", "exit status", "executions of test bodies"],
  [("todo/done/scheduled/left", "which cases are not yet started, running, finished, reported", "booktest/runs.py ParallelRunner")])

p("C02", "A parallel run gives the results of the sequential run",
  "For the same suite, expectations, selection and flags, a parallel run ends with the same verdict per case, the same exit status, the same per-case output, report and log content, the same values stored for dependents, the same accepted expectations and the same book index as a sequential run. This holds for every worker count, timing and completion order.",
  ["schedules", "programs", "configurations"],
  "all suites of deterministic cases with dependencies and resources, all worker counts, all task timings",
  SERIAL + "equality has to hold for every interleaving of worker processes.",
  ["booktest/runs.py", "booktest/testrun.py", "booktest/testcaserun.py", "booktest/review.py"],
  [("dependency-aware planning", "booktest/runs.py ParallelRunner.plan"),
   ("result files shared between workers", "booktest/testrun.py save_test_result/get_test_result"),
   ("final index and metrics written by the main process", "booktest/runs.py parallel_run_tests")],
  ["cases.txt", "exit status", ".out tree", "books tree"])

p("C03", "Dependencies finish first and deliver exactly their result",
  "A case starts only after every selected case it depends on has finished in that run, and it receives, in declaration order, exactly the value each dependency returned in its most recent completed non-failing execution, also when that value is None or falsy. This holds for function, method, cross-class and parametrized-instance dependencies, for any worker count, any in-memory cache kind or size, across runs in separate processes, and after a crash or disk error while results were being stored. A dependency without a usable stored result is executed before its dependents or the dependent fails; a dependent never receives another case's value, another instance's value or a partial one.",
  ["schedules", "crash_points", "histories", "configurations"],
  "all dependency graphs, worker counts, timings, cache kinds and sizes, crash points, and histories of runs over subsets of the suite",
  "Tests cover a handful of fixed graphs run serially in one process with one cache.",
  ["booktest/dependencies.py", "booktest/testrun.py", "booktest/tests.py", "booktest/runs.py", "booktest/cache.py"],
  [("dependency lookup and binding", "booktest/dependencies.py call_class_method_test/call_function_test"),
   ("two-level result cache", "booktest/testrun.py get_test_result/save_test_result, booktest/cache.py"),
   ("selection order", "booktest/tests.py selected_names/method_dependencies"),
   ("not runnable until dependencies are done", "booktest/runs.py ParallelRunner.plan")],
  ["values received by test bodies", "order of test executions"],
  [("<case>.bin", "stored result of a case", "books/.out"), ("PROCESS_LOCAL_CACHE", "per-worker value cache", "booktest/runs.py")])

p("C04", "Cases sharing an exclusive resource never run at the same time",
  "In a parallel run, the executions of two cases that declare the same exclusive resource never overlap in time, whatever the worker count, timing and completion order, and also when a case declares several resources, has dependencies, or breaks. Resources never block the run forever: every selected case is still executed.",
  ["schedules", "inputs"],
  "all assignments of resources to cases, worker counts, durations and completion orders",
  SERIAL + "the resource examples therefore never run concurrently in the tests.",
  ["booktest/runs.py", "booktest/dependencies.py", "booktest/tests.py"],
  [("reservation while planning, release when the job is done", "booktest/runs.py ParallelRunner.plan/thread_function"),
   ("resource identity", "booktest/dependencies.py Resource, port")],
  ["start and end of test bodies"],
  [("reserved_resources", "resources of running jobs", "booktest/runs.py ParallelRunner")])

p("C05", "Exit status 0 means every selected case passed",
  "A run (sequential or parallel) ends with exit status 0 only if every selected case passed, was accepted, or was skipped by continue because it had passed; a failing, differing, interrupted or never executed case gives a non-zero status or an error, except where the user quits on request. If all selected cases pass, the status is 0. A review ends with status 0 exactly if all results it leaves recorded are passes.",
  ["schedules", "fault_sequences", "histories"],
  "all outcomes of cases, modes and flags (-p, -c, -f, -i, -a, -u, -w), answers of the user, interrupts at every point, and completion orders",
  "Tests never look at exit statuses of nested runs, and interrupts and completion orders cannot be sampled by them.",
  ["booktest/runs.py", "booktest/testrun.py", "booktest/review.py", "booktest/reports.py"],
  [("result to exit code", "booktest/reports.py test_result_to_exit_code"),
   ("exit code accumulation", "booktest/runs.py parallel_run_tests, booktest/testrun.py run_async, booktest/review.py review")],
  ["exit status", "cases.txt"])

p("C06", "After a kill or interrupt, continuing neither loses nor invents passes",
  "After a run is killed or interrupted at any instant, a run with continue (-c) executes every selected case except those whose latest finished execution passed and was recorded, and it ends with the same verdicts as an uninterrupted run. A result that was not a pass is never recorded or treated as a pass because of a crash, and a pass that was recorded before the crash is not lost. Every following command (run, parallel run, continue, list, review) works normally on whatever the crash left behind.",
  ["crash_points", "histories", "schedules"],
  "every point of file-system activity of a sequential or parallel run, for kills of the whole run or of the main process only, torn writes, and Ctrl-C",
  "Tests contain no crashes; the number of crash points times histories is far beyond examples.",
  ["booktest/testrun.py", "booktest/runs.py", "booktest/reports.py", "booktest/tests.py"],
  [("incremental report written case by case", "booktest/testrun.py run_async, booktest/reports.py CaseReports.write_case"),
   ("done/todo split", "booktest/reports.py cases_to_done_and_todo"),
   ("merge in finally on Ctrl-C", "booktest/runs.py parallel_run_tests")],
  ["cases.txt", "executed cases of the next run", "exit status"],
  [("cases.txt", "name, result and duration per case", "books/.out/cases.txt")])

p("C07", "Expectations change only by accepting, under this invocation's flags",
  "No command changes, creates or removes a case's expectation file or stored snapshots unless that case is accepted in that very invocation: by the user answering accept, by -a on a differing case, or by -u on a passing one; this also holds when the command crashes or is interrupted. A failing case is never accepted. Flags given to one invocation never affect a later invocation, also within the same process.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of commands, flags, case outcomes and user answers, in one or several processes, with crashes and interrupts",
  "Tests never accept, crash or repeat invocations; the property is about histories.",
  ["booktest/review.py", "booktest/tests.py", "booktest/config.py", "booktest/testcaserun.py"],
  [("review decision", "booktest/review.py case_review/interact"),
   ("per-invocation configuration", "booktest/tests.py exec_parsed, booktest/config.py get_default_config")],
  ["books tree before and after each invocation"])

p("C08", "Accepting stores exactly the reviewed output, also when interrupted",
  "After a case was accepted, its expectation is byte for byte the output of the execution that was reviewed and its stored snapshots are exactly those that execution produced, so that an unchanged rerun passes; accepting again, or re-accepting something already accepted, destroys nothing. If the process is killed or the disk fails while accepting, the expectation file is the complete old or the complete new text, never missing, mixed or cut, and the snapshot folder never mixes old and new files.",
  ["crash_points", "histories", "schedules", "fault_sequences"],
  "all histories of accepting (-a, -u, interactive, review, parallel), every crash point and every failing file operation inside them",
  "Acceptance is not exercised by the stable tests, and crash points inside it cannot be.",
  ["booktest/review.py", "booktest/runs.py", "booktest/testcaserun.py"],
  [("rename of output and snapshot folder over the expectation", "booktest/review.py freeze_case")],
  ["books tree", "verdict of the next run"])

p("C09", "A finished case leaves the process as it found it",
  "When a case has ended - passing, differing, failing by an exception at any point of its decorators or body, interrupted, or hit by a disk error - standard error, the root logging handlers, environment variables, mocked and snapshotted functions and the HTTP clients of the process are what they were before it. Later cases and the caller of the run never observe an earlier case's mocks, snapshots, environment or redirected streams.",
  ["fault_sequences", "histories", "programs"],
  "all combinations and nestings of decorators, all points at which an exception, interrupt or file error can hit, and all sequences of cases",
  "Tests only see cases that end normally; leaks need a failure at a particular point followed by another case.",
  ["booktest/testcaserun.py", "booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/utils.py"],
  [("open/close of redirected streams and handlers", "booktest/testcaserun.py TestCaseRun.open/close"),
   ("start/stop of mocks", "SnapshotEnv, MockEnv, MockMissingEnv, SnapshotFunctions, MockFunctions, SnapshotRequests, SnapshotHttpx")],
  ["process state at the start of each test body and after the run"])

p("C10", "Captured requests traffic replays identically",
  "After a test using the requests library has been run with capture and accepted, running it again without capture gives the test code the same responses - status, headers, cookies, body and the outcome of redirects - for the same requests, including repeated identical requests that were answered differently, and requests made from several threads. Connection errors, timeouts, retries and slow answers met while capturing do not change this, and the caller's own request options are honoured while capturing.",
  ["schedules", "fault_sequences", "inputs"],
  "all request sequences and thread interleavings, server behaviours, latencies and network failures during capture",
  "Tests replay a few fixed snapshot files; capture, failures and concurrency are never run (no network).",
  ["booktest/requests.py"],
  [("request keys with order numbers", "booktest/requests.py RequestKey, SnapshotAdapter.mark_order"),
   ("response (de)serialisation", "booktest/requests.py RequestSnapshot"),
   ("adapter swap under lock", "booktest/requests.py SnapshotRequests.start")],
  ["responses seen by test bodies", ".requests.json"])

p("C11", "Captured httpx traffic replays identically, sync and async",
  "After a test using httpx, synchronously or asynchronously, has been run with capture and accepted, running it again without capture gives the test code the same responses - status, headers, cookies and body - for the same requests, including repeated identical requests answered differently and any number of requests in flight at once, in whatever order their answers arrive. Failed, cancelled and retried requests during capture do not change this.",
  ["schedules", "fault_sequences", "inputs"],
  "all request sequences, sets of concurrent requests, orders of answers, failures and cancellations during capture",
  "Tests replay a few fixed snapshot files one request at a time; concurrent capture is never run.",
  ["booktest/httpx.py", "booktest/requests.py"],
  [("request keys with order numbers", "booktest/httpx.py RequestKey, SnapshotHttpx.mark_order"),
   ("response (de)serialisation", "booktest/httpx.py RequestSnapshot"),
   ("transport hooks", "booktest/httpx.py SnapshotHttpx.start/handle_async_request")],
  ["responses seen by test bodies", ".httpx.json"])

p("C12", "Capture flags decide what reaches the outside world",
  "Without capture flags a snapshotted test sends no HTTP request and executes no snapshotted function, and a call that has no stored snapshot fails the test. With -s exactly the calls that have no stored snapshot are really made and stored snapshots answer the others; with -S every call is really made and no stored snapshot is used. The snapshots a run writes are exactly those of the calls it made, so accepting them never keeps stale or loses used ones.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of capture, completion, refresh, acceptance and replay over changing sets of calls, with network failures",
  "Tests run in replay mode only, over fixed snapshots.",
  ["booktest/requests.py", "booktest/httpx.py", "booktest/functions.py", "booktest/env.py"],
  [("lookup, capture and refresh decisions", "SnapshotAdapter.lookup_snapshot, SnapshotHttpx.lookup_snapshot, SnapshotFunctions.snapshot")],
  ["calls that reach the transport or the real function", "snapshot files", "verdicts"])

p("C13", "Stored snapshots never contain what was asked to be hidden",
  "With default settings no request header and no request body of captured HTTP traffic is ever written to any file, and with a list of ignored headers the ignored headers' values (in any letter case) are never written. This also holds for repeated, failing, redirected and concurrently captured requests and for every later completion, refresh or replay of the same snapshots.",
  ["histories", "fault_sequences", "inputs"],
  "all header names and spellings, bodies, capture histories, failures and interleavings",
  "Tests only look at stored examples; secrecy is about every capture path and history.",
  ["booktest/requests.py", "booktest/httpx.py"],
  [("header dropping and detail hiding", "RequestKey.__init__, RequestKey.to_json_object")],
  ["all files below books after capture"])

p("C14", "Function snapshots and mocks give the recorded results",
  "A snapshotted function returns, on replay, for each call the JSON image of the result that the last real call with the same function and arguments (compared by their JSON images) returned during capture, independent of what the test did to that result afterwards and of other snapshotted calls; calls that differ in function or arguments never share a result. Mocked functions call the mock, synchronous or asynchronous, and only during the decorated test.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of calls, arguments, results, exceptions and capture histories",
  "Tests replay one fixed snapshot set; capture, failure and mutation histories are never run.",
  ["booktest/functions.py"],
  [("call hash and lookup", "booktest/functions.py FunctionCall, SnapshotFunctions.snapshot"),
   ("swap and restore of functions", "booktest/functions.py set_function, MockFunctions")],
  ["values seen by test bodies", ".functions folder"])

p("C15", "Environment snapshots and mocks are exact and undone",
  "Inside a decorated test every snapshotted variable has its stored value or is unset if it was unset at capture, every mocked variable has its mock value or is unset, and a mock for missing variables applies exactly if the variable is missing and snapshots are not being captured. A variable without a stored value fails the test unless capturing. After the test, whatever the test did to the environment and however it or the set-up of its decorators ended, those variables are exactly what they were before.",
  ["histories", "fault_sequences", "configurations"],
  "all initial environments, nestings of the three decorators, capture modes, changes made by the test and points of failure",
  "Tests cover one value per decorator in one environment, and no failure.",
  ["booktest/env.py"],
  [("start/stop pairs", "booktest/env.py SnapshotEnv, MockMissingEnv, MockEnv")],
  ["os.environ inside and after the test", ".env.json"])

p("C16", "Fail-fast, quitting and Ctrl-C stop the run promptly",
  "After the first failing or differing case under -f, after the user answers quit, or after a single Ctrl-C, no further case starts in a sequential run, and in a parallel run at most as many further cases start as there are workers. The run then ends in bounded time, and every result that was reported before the stop is recorded.",
  ["schedules", "fault_sequences"],
  "every instant of the stop relative to running, queued and finished cases, sync and async, any worker count",
  "Tests contain no interrupts, no quitting and no parallel run.",
  ["booktest/runs.py", "booktest/testrun.py"],
  [("abort flag", "booktest/runs.py ParallelRunner.abort/has_next/__exit__"),
   ("break on abort or fail-fast", "booktest/testrun.py run_async")],
  ["test bodies started after the stop", "end of the run", "cases.txt"])

p("C17", "Process set-up and tear-down always come in pairs",
  "The process set-up hook has run before any case body runs in a process, and its tear-down runs exactly once after the cases it was set up for - once per sequential run, once per job in a parallel run - also if cases fail, raise, exit or are interrupted. The set-up/tear-down decorator does the same around each execution of its test.",
  ["fault_sequences", "schedules"],
  "all outcomes and interrupts of cases, worker counts and schedules",
  "Tests check one passing case in one process.",
  ["booktest/utils.py", "booktest/runs.py", "booktest/detection.py"],
  [("generator-based context manager", "booktest/utils.py SetupTeardown"),
   ("around run and job", "booktest/runs.py run_tests, RunBatch.__call__")],
  ["order of set-up, body and tear-down events per process"])

p("C18", "Failing disk operations never yield a pass or a damaged expectation",
  "If a file operation of a run fails - full disk, I/O error, short write, permission - a case is reported as passed or accepted only if its complete output was written and really matches, no expectation or stored snapshot is cut or damaged, and the failure shows as a failing case, an error or a non-zero exit status unless the run did all of its work. After the fault is gone, the next run gives the verdicts of a run that never met the fault.",
  ["fault_sequences", "schedules"],
  "every file operation of sequential and parallel runs as the failing one, once or from then on",
  "Tests contain no disk faults.",
  ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/review.py", "booktest/runs.py", "booktest/reports.py"],
  [("errors propagate instead of being swallowed", "booktest/testrun.py run_case, booktest/testcaserun.py close/end")],
  ["cases.txt", "books tree", "exit status", "next run"])

p("C19", "A case's output and log files hold its own output and nothing else",
  "After a run, each executed case's output file holds exactly the lines that case wrote, and its log file holds everything that the case logged or wrote to standard error while it ran and nothing that another case produced - whatever the worker count, timing, order and outcome of the cases, and whatever older runs or crashes left behind. Files a case left in its own folders in an earlier execution are gone when it runs again.",
  ["schedules", "histories", "programs"],
  "all schedules, orders, outcomes and left-overs of earlier or crashed runs",
  "Tests check the log of one case once.",
  ["booktest/testcaserun.py", "booktest/runs.py"],
  [("per-case files, stream and logger swap, purge of old folders", "booktest/testcaserun.py TestCaseRun")],
  [".out/<case>.md, .log, folder", "books"])

p("C20", "Timing helpers judge elapsed time, not the wall clock",
  "Informational timing (imsln, timed lines printed as info) never makes a case differ or fail, and a limited timing (tmsln) fails exactly if the measured call really took longer than the limit. Both hold when the system clock is stepped forwards or backwards at any moment, and such steps never change a verdict, an exit status or which cases run.",
  ["fault_sequences", "inputs"],
  "all clock steps at any instant, durations and limits",
  "Tests run against the real clock, which does not step.",
  ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/runs.py"],
  [("measurement", "booktest/testcaserun.py tmsln/imsln, start/end")],
  ["verdicts", "cases.txt"])

p("C21", "Review and forget change only what they are asked to",
  "A review (-w) presents recorded results without executing tests and changes only the results of cases accepted in it; results of cases it does not select, skips, or does not reach because the user quits or the process is killed are never turned into passes and all stay recorded in order, also when it is interrupted or killed. Forget removes exactly the selected cases' results, so that a later continue run executes them; a killed forget removes all of them or none.",
  ["histories", "crash_points"],
  "all recorded results, selections, answers, flags and crash points",
  "Tests never review or forget.",
  ["booktest/review.py", "booktest/tests.py", "booktest/reports.py"],
  [("review loop and report rewrite", "booktest/review.py review"),
   ("forget", "booktest/tests.py exec_parsed")],
  ["cases.txt", "exit status", "books tree"])

p("C22", "Clean removes garbage only",
  "Garbage listing and cleaning (--garbage, --clean) never name or remove the expectation file or any stored file of an existing case, or the book index; everything else below the books directory is listed, and cleaning removes exactly what the listing names, whatever earlier runs, crashes and removed or renamed cases left behind. An error or kill in the middle leaves every file that is not garbage untouched.",
  ["histories", "fault_sequences"],
  "all histories of runs, crashes, added, renamed and removed cases, and failures during the cleaning",
  "Tests never clean.",
  ["booktest/tests.py"],
  [("garbage()", "booktest/tests.py exec_parsed")],
  ["books tree", "stdout"])

p("C23", "The console tells what happened and asks where it should",
  "A run or review that comes to its end tells each case it executed (or reviewed) exactly once, with the case's full name, the verdict of that execution and the duration it records; with -v the lines the case itself wrote and with -L the case's own log lines, never those of another case or execution, however the cases of a parallel run interleave. It asks for a decision exactly for the differing and failing cases under -i, for every case under -I and for none otherwise, until a valid answer is given, offers accepting exactly to cases that did not fail, opens the viewers on the files of the case that is presented, and asks nothing more after quit. The summary counts the cases and names exactly those left failing or differing, in agreement with the records and the exit status. Commands that only list, print or view show exactly the selected cases and change nothing.",
  ["schedules", "inputs", "histories"],
  "all suites, verdicts, flags, answers, worker counts and completion orders, and what earlier runs left behind",
  "Tests neither answer prompts nor run in parallel, and compare no console output.",
  ["booktest/review.py", "booktest/runs.py", "booktest/testrun.py", "booktest/testcaserun.py", "booktest/tests.py"],
  [("reporting of a case and the review loop", "booktest/review.py report_case, interact, case_review, end_report"),
   ("reporting of a parallel run", "booktest/runs.py parallel_run_tests")],
  ["stdout", "prompts", "commands of the viewers", "cases.txt", "exit status"])

p("C24", "Settings are what was asked for, also when the set-up is interrupted",
  "--setup asks for each of its settings once, proposes the current value and keeps it when the answer is empty; once it is completed, every later command uses exactly the answers, and the settings it does not ask for are as before. Interrupting it by Ctrl-C, the end of input, a kill, or a failing file operation at any point leaves the project's settings as they were or completely as answered, never lost, partial or mixed. Command line flags override environment variables, which override the project's .booktest, which overrides the home directory's; nothing but a completed set-up changes these files.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "all settings files, environments and answers, and all points at which the set-up is stopped or a file operation fails",
  "Tests never run the set-up; interruption and disk errors cannot be placed from a test.",
  ["booktest/setup.py", "booktest/config.py", "booktest/tests.py", "booktest/cli.py"],
  [("questions and storing of the answers", "booktest/setup.py setup_booktest"),
   ("layers of settings", "booktest/config.py resolve_default_config")],
  [".booktest", "prompts", "--config output", "exit status", "files written by the next commands"])

PURE = "The function is pure: "
p("C25", "Files that are not booktest's own stay as they are",
  "Whatever the command, its flags and answers, and also when it is killed, interrupted or hit by a failing file operation, it creates, changes and removes nothing but what it is for: listing, viewing and configuration commands change nothing; a run changes the output directory, the book index and the expectations and stored files of cases accepted in it, and there not the outputs, logs and stored results of cases it neither selects nor needs; a review and forget change recorded results and what was accepted in them; --clean removes garbage below the books directory without following symbolic links out of it; --setup changes its settings file, and only --cov makes or removes coverage data. Test sources, data files, files of the user next to expectations or elsewhere, and the targets of symbolic links stay as they are, and nothing is left behind anywhere else, except that a command that is killed or failed may leave the file it was writing next to its target.",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "all projects with further files, all commands, flags, selections and answers, all kill and interrupt points and failing file operations",
  "Tests look at the files a command is to make, never at all the others, and never while it is interrupted or hit by errors.",
  ["booktest/testcaserun.py", "booktest/review.py", "booktest/tests.py", "booktest/runs.py", "booktest/setup.py"],
  [("removal of old output folders before a case starts", "booktest/testcaserun.py TestCaseRun.__init__"),
   ("replacement of expectation and stored files", "booktest/review.py freeze_case"),
   ("garbage and coverage clean-up", "booktest/tests.py exec_parsed"),
   ("batch directories", "booktest/runs.py prepare_batch_dir")],
  ["all files of the project, the home directory and the books directory before and after"])

p("C26", "The book index lists every case once, in a lasting order",
  "After every run that comes to its end - whatever its selection, flags, verdicts, worker count and the way it was aborted - the book index lists every case of the suite, and no other, exactly once, below the headings of its path, together with the other cases of its module, and with a link to its expectation file. The order of the index and of listings is the same for the same sources, in whatever order the file system lists directories and in whatever order cases ran. A run that is killed, interrupted or hit by a failing file operation leaves either the previous index or the complete new one, and no other command changes it.",
  ["schedules", "fault_sequences", "crash_points", "configurations"],
  "all suites (also ones that change between runs and modules that import each other's books), directory listing orders, selections, flags, worker counts, stop points and failing file operations",
  "Tests see one listing order, and never a run that ends while the index is being written.",
  ["booktest/review.py", "booktest/detection.py", "booktest/testrun.py", "booktest/runs.py"],
  [("writing the index", "booktest/review.py create_index"),
   ("walking the test directories", "booktest/detection.py detect_tests"),
   ("end of a sequential and of a parallel run", "booktest/testrun.py run_async, booktest/runs.py parallel_run_tests")],
  ["books/index.md", "output of -l"])

p("C30", "Any change in tested output is flagged, ignored output never is",
  "A case whose tested tokens differ from its expectation at the compared position is reported as differing, and changes confined to ignored output never are.",
  ["inputs"], "all pairs of expectation text and sequence of output calls",
  PURE + "a handful of output sequences is compared in the tests.",
  ["booktest/testcaserun.py", "booktest/tokenizer.py"], [("token comparison", "booktest/testcaserun.py feed_token")], ["verdict"])
p("C31", "Headers and anchors realign comparison with the expectation",
  "After a header or anchor, comparison continues at the matching expectation line, searching forward first and then from the beginning.",
  ["inputs"], "all expectations and orders of anchors", PURE + "tests use few anchor orders.",
  ["booktest/testcaserun.py"], [("seek/jump", "booktest/testcaserun.py seek")], ["verdict"])
p("C32", "Tokenizing loses nothing",
  "The tokens of any text concatenate to that text.",
  ["inputs"], "all texts", PURE + "tests tokenize five texts.",
  ["booktest/tokenizer.py"], [("TestTokenizer", "booktest/tokenizer.py")], ["tokens"])
p("C33", "Selections pick exactly the named subtrees",
  "A selection picks exactly the cases below the named paths minus the skipped subtrees, plus the dependencies needed.",
  ["inputs"], "all names and selections", PURE + "tests use none but the default selection.",
  ["booktest/tests.py"], [("is_selected", "booktest/tests.py")], ["-l output"])
p("C34", "Test names are derived deterministically from modules and classes",
  "Case paths depend only on module, class and function names following the documented cleaning rules.",
  ["inputs"], "all names", PURE + "tests cover five class names.",
  ["booktest/naming.py", "booktest/detection.py"], [("naming", "booktest/naming.py")], ["-l output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
