#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [],
                          "hook_needed": None}})

p("C01", "Native runner: exit 0 only if every selected file really ran and passed",
  """With the native runner, exit status 0 implies that every selected test file was handed to a worker process, that every
  worker process was started and ended by itself with one of the statuses it uses for a completed run, that all the records
  it had to deliver were received, and that none of them is a failure or an error. A worker that cannot be started, is
  killed, ends with any other status, or leaves its results missing, cut short in the middle of a record, unreadable or unparsable makes the whole run
  exit non-zero, whatever the other workers did and in whatever order they finished; so does a worker that reports failure
  through its exit status while its records show none, and so does an I/O error that hides a file or directory, or the configuration, while the files are looked up. (A run whose collection finds no test at all executes nothing and is outside this property.)""",
  ["fault_sequences", "crash_points", "schedules", "configurations"],
  "every number of workers and files, every interleaving of worker threads and processes, every crash point of every worker, every spawn and I/O error",
  """The unit tests call the sharding, parsing and summing helpers on hand-made inputs; no existing test kills a worker, truncates a
  results file, or fails a spawn, and none can do so at every point of every worker under every finishing order.""",
  ["src/native_runner.rs", "src/pyo3.rs"],
  [("exit status and result collection", "src/native_runner.rs: execute_native, run_worker, parse_results_file")],
  [{"name": "worker errors", "meaning": "one entry per worker that did not complete", "where": "src/native_runner.rs"}],
  ["process exit status", "argv of every spawned worker"])

p("C02", "Native runner: the summary is exactly what the workers recorded",
  """When all workers complete, the summary's passed, failed, error and skipped counts are exactly the numbers of records with
  that outcome over all workers' results (a record with an unknown outcome counts as an error), and every failed or errored test is listed
  exactly once, under its own id and with its own traceback or, lacking one, its reason. The summary says PASSED and the exit
  status is 0 if and only if no record is a failure or an error; otherwise it says FAILED and the status is non-zero. None of this depends on the
  number of workers, on how tests are spread over them, or on the order in which they finish.""",
  ["schedules", "histories", "configurations", "inputs"],
  "every set of per-worker result histories, sizes and texts, every finishing order, every number of workers",
  """Existing tests parse two-line files and sum two-element lists; they never combine many workers finishing in arbitrary order, and the
  end-to-end tests need the compiled extension.""",
  ["src/native_runner.rs"],
  [("aggregation and summary", "src/native_runner.rs: parse_results_file, aggregate_results, print_summary")],
  None, ["standard output of the run", "exit status"])

p("C03", "Native runner: each selected file goes to exactly one worker",
  """Every selected test file appears in the argument list of exactly one worker process, no worker is started without files, no two workers write to the
  same results file, and no more workers are started than the effective worker count (the requested count, limited by the maximum if one is given, and at
  least one) - nor fewer, as long as there are files for them. The files are spread evenly: two workers' file counts differ by at most one, and the same inputs give the same assignment in every run.
  A worker that fails to start or dies changes nothing for the files of the other workers.""",
  ["configurations", "schedules", "fault_sequences"],
  "every number of files and workers, every schedule of the spawning threads, any subset of failing spawns",
  """Unit tests check the sharding helper on a few sizes; nothing observes the processes actually started, under any schedule or spawn failure.""",
  ["src/native_runner.rs", "src/utils.rs", "src/cli.rs"],
  [("sharding and spawning", "src/native_runner.rs: shard_files, execute_native"), ("worker count", "src/utils.rs: determine_worker_count")],
  None, ["argv of every spawned worker"])

p("C04", "Native runner: the files it runs do not depend on directory listing order",
  """For a given project tree, arguments and file patterns, the native runner executes exactly the files with the .py extension that match a
  pattern and lie at or beneath the given paths (or else beneath the configured testpaths, or else the project root), symbolic links included, but leaving out hidden entries, __pycache__ and the
  directories that collection ignores (build, dist, venv, node_modules and the like) met while descending; each file once even if the given paths overlap or repeat or links lead to it, and in sorted order. (If collection, which uses the same patterns, finds no test at all, nothing is executed.) The order in which the operating system lists
  directory entries, and interrupted system calls, change neither the set nor the order.""",
  ["schedules", "configurations", "inputs"],
  "every directory tree and argument list, every order in which the file system may return directory entries, EINTR at any call",
  """Unit tests use one or two files in a temporary directory, in whatever order the test machine lists them.""",
  ["src/native_runner.rs", "src/collection/utils.rs"],
  [("walk, filter, sort", "src/native_runner.rs: collect_test_files")],
  None, ["files passed to workers"])

p("C05", "Pytest runner: every collected test goes to exactly one pytest process",
  """With the pytest runner, every collected test id is passed to exactly one pytest process, exactly as often as it was collected, for every
  distribution mode, worker count (including 0 and counts above the number of tests) and project layout; nothing that was not collected is passed.
  For each project no more processes are started than the effective worker count (at least one; the requested count - a number, the physical cores or
  the logical cores - limited by the maximum) - nor fewer, as long as there is a test (with loadfile a file, with loadscope a file or class) for each of them -,
  no process is started without a test, and with a
  single worker or distribution 'no' there is exactly one process per project. A process that cannot be started, or that dies, changes nothing about what the other processes are given.""",
  ["configurations", "schedules", "fault_sequences"],
  "every test list, distribution mode and worker count, every schedule of worker threads, any subset of failing spawns",
  """Scheduler unit tests check a handful of lists through the distribution helper alone; what reaches the processes (after project grouping, path
  rewriting and spawning) is observed by no runnable test.""",
  ["src/runner.rs", "src/scheduler.rs", "src/subproject.rs", "src/pyo3.rs", "src/pytest_executor.rs", "src/worker.rs"],
  [("distribution", "src/scheduler.rs"), ("parallel execution", "src/runner.rs: execute_tests_parallel"), ("sequential execution", "src/pyo3.rs")],
  None, ["argv of every spawned pytest process"])

p("C06", "loadscope and loadfile never split a class or a file over two processes",
  """With distribution 'loadfile' all tests of one file, and with 'loadscope' all tests of one class (and all plain functions of one module), run in the
  same pytest process, for every worker count and every set of test ids, including parametrised ids whose parameter text itself contains '::'. With 'load' and 'worksteal'
  the tests of each project are spread evenly over its processes (counts differ by at most one), and in every mode tests given to one process that come from the same file (with 'loadscope', from the same class or the same module's plain functions) keep their collected order.""",
  ["configurations", "inputs", "schedules"],
  "every test list, number of workers and parameter text, every schedule",
  """Unit tests use plain ids and call one scheduler at a time; ids with '::' inside the parameter part, projects and the processes actually started are not covered.""",
  ["src/scheduler.rs", "src/runner.rs"],
  [("scope and file keys", "src/scheduler.rs")],
  None, ["argv of every spawned pytest process"])

p("C07", "Pytest runner: exit status is 0 exactly when every process succeeded",
  """With the pytest runner, sequential or parallel, the run exits 0 if and only if every pytest process it needed was started and exited with status 0. If any process exits
  with another status, is killed by a signal, or cannot be started, the run exits non-zero, regardless of worker count, project grouping and finishing order;
  a single pytest process's own non-zero exit status is passed on unchanged.""",
  ["schedules", "fault_sequences", "crash_points", "configurations"],
  "every assignment of exit statuses, signals and spawn failures to processes, every finishing order, every mode",
  """One existing test runs a nonexistent program sequentially. No test combines several processes with mixed outcomes, signals or failed spawns.""",
  ["src/runner.rs", "src/worker.rs", "src/pytest_executor.rs", "src/pyo3.rs"],
  [("status folding", "src/runner.rs: execute_tests_parallel; src/pyo3.rs: main_cli_with_args; src/pytest_executor.rs")],
  None, ["exit status of the run", "wait status of every process"])

p("C08", "Parallel pytest output: complete, unmixed, in worker order",
  """In a parallel pytest run every byte of text a worker process writes to its standard output and standard error appears on the corresponding stream of the run,
  exactly once, contiguously and in the order written, under that worker's numbered heading; invalid UTF-8 is replaced and nothing else is altered. Workers' blocks appear in increasing worker number, whatever their number,
  finishing order, output size or interleaving, and a worker that is killed still has everything it wrote before shown.""",
  ["schedules", "crash_points", "configurations"],
  "every interleaving of the workers' writes on both streams, sizes beyond pipe capacity, chunk boundaries inside characters, kills at any point",
  """Existing tests capture one echo per worker; sizes, interleavings, chunk boundaries and kills are uncontrolled there.""",
  ["src/worker.rs", "src/runner.rs"],
  [("capture and ordering", "src/worker.rs: spawn_worker, wait_for_all"), ("printing", "src/runner.rs")],
  None, ["standard output and error of the run"])

p("C09", "Subprojects: each test runs once, in its own project, under a valid path",
  """A test in a file that lies below a directory (strictly inside the root) containing a pyproject.toml is run by a pytest process whose working directory and --rootdir are
  the nearest such directory; every other test runs in the root. The id it is given, resolved against that working directory, names the same file and the same test
  part as the collected id; grouping by project neither drops nor duplicates a test, also when files or directories (the root included) are symbolic links, links lead in circles, paths cannot be resolved, or an I/O error hits the lookup.""",
  ["configurations", "inputs", "fault_sequences"],
  "every nesting of projects, symbolic links inside and across projects, errors while resolving paths, every test list",
  """One unit test checks path rewriting for three literal ids; grouping over nested projects, links and failing lookups is untested.""",
  ["src/subproject.rs", "src/runner.rs", "src/pyo3.rs"],
  [("grouping and rewriting", "src/subproject.rs")],
  None, ["argv and cwd of every spawned pytest process"])

p("C10", "Same inputs, same run: schedules, hash seeds and listing order change nothing",
  """Two runs over the same project with the same arguments and the same behaviour of their test processes start the same set of processes (same arguments, working directory, environment), print the same
  report and the same errors, up to durations and temporary names, and exit with the same status, in both runners. This holds however threads are scheduled, in whatever order processes finish, whatever the
  per-process hash seed, and in whatever order the file system lists directories.""",
  ["schedules", "histories", "configurations"],
  "every pair of schedules, hash seeds and directory listing orders for the same scenario",
  """A test observes one schedule, one hash seed and one directory order at a time; it cannot compare across them.""",
  ["src/runner.rs", "src/subproject.rs", "src/native_runner.rs", "src/collection/nodes.rs", "src/pyo3.rs"],
  [("ordered grouping, sorted results", "src/subproject.rs, src/worker.rs, src/native_runner.rs")],
  None, ["spawn history", "standard output", "standard error", "exit status"])

p("C11", "Parallel runs always finish, really run in parallel, and outlast every worker",
  """If every started process eventually ends, the run ends: no amount of output on either stream, in any order, and no interrupted or partial read or write can block a worker or the run.
  Workers overlap: none of the processes of a project has to finish before another is started, so workers that wait for one another all proceed. The run does not
  exit before every process it started has ended and been waited for, also when a thread, process or pipe for another one cannot be created.""",
  ["schedules", "configurations", "fault_sequences"],
  "every interleaving of writes, reads, exits and thread switches, outputs beyond pipe capacity on both streams",
  """Deadlock on full pipes and lost overlap depend on buffer sizes and schedules that unit tests neither produce nor control.""",
  ["src/worker.rs", "src/runner.rs", "src/native_runner.rs", "src/pytest_executor.rs"],
  [("thread per process", "src/worker.rs: spawn_worker; src/native_runner.rs: execute_native"), ("join all", "src/worker.rs: wait_for_all")],
  None, ["progress in simulated time", "process table at exit"])

p("C12", "Runs do not interfere: temporary files are private and removed afterwards",
  """Native runs that share a machine, project and temporary directory at the same time never read, overwrite or remove one another's result files: each reports exactly its own results. When a native run
  ends, with success, failures or dead workers, nothing it created in the temporary directory is left, and stale files from earlier runs, or a name collision, influence nothing. Neither runner creates, changes or removes anything in the project tree.""",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of two runs, leftovers of earlier runs, temporary-name collisions, worker crashes",
  """Existing tests run one run at a time in a fresh directory and never look at the temporary directory afterwards.""",
  ["src/native_runner.rs"],
  [("private temporary directory", "src/native_runner.rs: execute_native")],
  None, ["file system before, during and after a run"])

p("C13", "Workers are started exactly as configured",
  """Every worker process is started with the interpreter, working directory, --rootdir or --root, test ids or files, and name patterns that the configuration asks for: each a separate argument, unaltered
  (spaces, quotes, glob characters, '=', leading dashes in parameter text and non-ASCII text included), in every worker and not only the first. Every well-formed KEY=VALUE passed to the pytest runner is set verbatim
  (split at the first '=') in every pytest process, on top of the inherited environment, of which nothing is lost; malformed entries are ignored with a warning and affect nothing else.""",
  ["configurations", "inputs", "schedules"],
  "every configuration, argument and environment text, every worker, every schedule",
  """Unit tests look at parsed structures with simple values; what every one of many processes actually receives is not observed.""",
  ["src/runner.rs", "src/worker.rs", "src/native_runner.rs", "src/pytest_executor.rs", "src/pyo3.rs", "src/config.rs"],
  [("command construction", "src/worker.rs: spawn_worker; src/native_runner.rs: run_worker; src/pytest_executor.rs: execute_tests")],
  None, ["argv, environment and cwd of every spawned process"])

p("C14", "Native worker: exactly one record per test case, none invented, none lost",
  """A worker that ends with a completed-run status has written exactly one record for every discovered test case of every file it was given: each function, each method including inherited ones, each case of the product of
  stacked case lists, under its own id. A file that cannot be imported, for whatever reason, including exceptions that normally end the interpreter, yields exactly one error record and has no effect on the records of
  the other files. No exception a test raises (a keyboard interrupt excepted, which stops the worker with a status that is not a completed run's), and nothing a test does to its captured streams, stops the remaining tests from being run and recorded.""",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "every mix of files, classes, cases, import failures and misbehaving tests, in every order",
  """Existing worker tests use one or two files with ordinary exceptions; combinations where one test or import sabotages the rest are not sampled.""",
  ["python/rtest/worker/runner.py", "python/rtest/mark.py", "python/rtest/worker/__main__.py"],
  [("discovery and run loop", "python/rtest/worker/runner.py: run_tests, _discover_tests_in_module, _run_single_test")],
  None, ["results file", "execution log of the test bodies"])

p("C15", "Native worker: recorded outcomes are truthful; skipped tests never execute",
  """A case is recorded 'passed' only if its setup, body and teardown all ran to completion without an exception, 'failed' if the exception that ended it is an assertion failure, 'error' for any other exception including ones
  that ask the interpreter to exit (keyboard interrupts excepted), and 'skipped' if and only if it or its class carries a skip mark, in which case neither setup, body nor teardown executes and the reason is kept.
  Failed and error records carry the exception type and a traceback; the worker's exit status is 1 if any record is failed or error and 0 otherwise.""",
  ["histories", "fault_sequences", "inputs"],
  "every raised exception type at every lifecycle point, every combination of skip marks and inheritance, any order",
  """Existing tests sample a few exception types at one lifecycle point each.""",
  ["python/rtest/worker/runner.py", "python/rtest/mark.py"],
  [("classification", "python/rtest/worker/runner.py: _run_single_test, _is_skipped, run_tests")],
  None, ["results file", "execution log", "worker exit status"])

p("C16", "Native worker: each case runs once, isolated, between its own setup and teardown",
  """Every non-skipped test case executes its own function (the one bound to the recorded name, also for aliases, decorated and overridden methods) exactly once with exactly its own parameter values. Method cases run on a
  fresh instance, after that instance's setup and before its teardown; the body runs only if setup succeeded, and teardown then runs exactly once even if the body fails. No lifecycle step of one case runs during another case.""",
  ["histories", "fault_sequences", "inputs"],
  "every class hierarchy, alias, decorator and case list, every failing lifecycle step",
  """Existing tests check simple classes; aliased, wrapped and overridden methods combined with failing steps are not sampled.""",
  ["python/rtest/worker/runner.py", "python/rtest/mark.py"],
  [("lifecycle", "python/rtest/worker/runner.py: _run_single_test"), ("case expansion", "python/rtest/mark.py: expand_parametrize")],
  None, ["execution log of the test bodies"])

p("C17", "Native worker: captured output belongs to the test that wrote it",
  """The stdout and stderr texts recorded for a case are exactly the texts written to the standard streams during that case's setup (the creation of its instance included), body and teardown, in order and complete, and
  nothing written by another case or at import appears there. This holds whatever text is written (any Unicode text, of any size; lone surrogates, which no encoding carries, may be replaced), whichever case fails or is skipped, and whatever a case does to the captured
  streams (closing or replacing them); the real streams are back in place after every case.""",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of writing, failing, closing and replacing cases, every text",
  """Existing tests print ASCII lines from one or two tests.""",
  ["python/rtest/worker/runner.py"],
  [("capture", "python/rtest/worker/runner.py: _run_single_test")],
  None, ["results file"])

p("C18", "End to end: a worker crash or results-file fault never looks like success",
  """When the real worker is killed at any point, or any of its file operations for the results fails, is interrupted or is short (no space, I/O error, permission, interrupted call), then either the results file is
  complete and the exit status truthful, or the native run that started the worker exits non-zero. A retried or interrupted operation never duplicates, tears or silently drops a record in a run reported as successful.""",
  ["crash_points", "fault_sequences"],
  "every system call of the worker that touches the results file, as crash point or with every error; combined with other healthy workers",
  """No existing test injects a disk fault or kills a worker.""",
  ["python/rtest/worker/runner.py", "python/rtest/worker/__main__.py", "src/native_runner.rs"],
  [("results writing", "python/rtest/worker/runner.py: run_tests"), ("results reading", "src/native_runner.rs: execute_native")],
  None, ["results file", "worker exit status", "run exit status"])

p("C19", "Collection: files that cannot be read or parsed are reported, none is hidden",
  """If a directory or test file cannot be read (a directory it has no permission to enter excepted, which is skipped), or a test file cannot be parsed, during collection, the run names each such file or directory as an error together with the error, still lists the tests of every other file, executes nothing,
  and exits non-zero. If the project's pyproject.toml cannot be read or parsed, the run says so, executes nothing and exits non-zero. What is listed without errors are exactly the tests selected by the configured (else default) file, class and function name patterns (symbolic links are followed, except one that leads back to a directory it was reached through). A given path that does not exist ends the run with the usage-error status and executes nothing; with collect-only nothing is ever executed. Tests are listed in an order that does not depend on the order in which the file system lists directories.""",
  ["fault_sequences", "schedules", "configurations"],
  "every read, open, stat or listing error at every file and directory and at the configuration (permission errors on directories excepted, which are skipped by design), any listing order",
  """Three unit tests cover explicit paths (and need the missing parser to build); I/O errors at arbitrary points are not exercised.""",
  ["src/collection/nodes.rs", "src/collection_integration.rs", "src/pyo3.rs"],
  [("collection tree", "src/collection/nodes.rs"), ("error gathering and display", "src/collection_integration.rs"), ("no execution on errors", "src/pyo3.rs")],
  None, ["standard output", "spawned processes", "exit status"])

p("C20", "rtest.raises accepts only the expected exception and hides no other",
  """A block guarded by rtest.raises completes normally if and only if it ended with an exception that is an instance of an expected type whose text matches the pattern when one is given, and that very exception object is then
  available afterwards. Any other exception, at whatever point it is delivered, including interrupts and exits and also when blocks are nested, reused or interleaved between tasks, propagates unchanged; no exception, or a non-matching text, becomes an assertion failure
  that fails the test.""",
  ["schedules", "fault_sequences", "inputs"],
  "every exception delivered at every execution point inside the block, nested, reused and interleaved uses",
  """Existing tests raise synchronously at one fixed point in the block, one block at a time.""",
  ["python/rtest/raises.py"],
  [("context manager", "python/rtest/raises.py")],
  None, ["outcome of the guarded block"])

p("C21", "Static collection finds the same tests as the native worker discovers",
  """The test ids listed by collection for a file (functions, classes, inherited methods, case expansion) are the ids the native worker executes for it, whenever collection does not warn that it cannot expand them.""",
  ["programs", "inputs"],
  "every Python test file",
  """Tests compare selected files only.""",
  ["src/python_discovery", "python/rtest/worker/runner.py", "python/rtest/mark.py"],
  [("static discovery", "src/python_discovery"), ("dynamic discovery", "python/rtest/worker/runner.py")],
  None, ["listed ids"])

p("C22", "Case ids: distinct cases get distinct, stable ids",
  """Within one test function every generated case has an id different from all others, and the id depends only on the declared argument names, values and explicit ids.""",
  ["inputs"], "every list of case values and ids",
  """Tests sample a few duplicate lists.""",
  ["python/rtest/mark.py", "src/python_discovery/cases.rs"],
  [("id generation", "python/rtest/mark.py: _deduplicate_ids")],
  None, ["record ids"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
