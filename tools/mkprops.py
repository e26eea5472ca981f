"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


TC, TOK, REV, REP = "booktest/testcaserun.py", "booktest/tokenizer.py", "booktest/review.py", "booktest/reports.py"
TR, TS, RUNS, DEP = "booktest/testrun.py", "booktest/tests.py", "booktest/runs.py", "booktest/dependencies.py"
SAMPLE = "The repository's cases run fixed tests against fixed snapshots that match; "

prop("C01", "Changed tested output is never judged OK; equal output always is",
     "A test that writes tested text and records no failure is judged OK exactly when a snapshot exists and the text equals it line by line, and DIFF otherwise. Every tested character counts, including those of a last line left without a line end. The verdict never depends on how the text was cut into write calls on separate lines.",
     ["inputs"], "every snapshot text and every tested output text (any characters, line counts, missing snapshot, unterminated last line)",
     SAMPLE + "no case has a differing snapshot, so a comparison that accepts too much passes everything.",
     [TC, TOK], [("token comparison and per-line diff accounting", TC + ":feed_token/commit_line"), ("verdict", TC + ":end"), ("snapshot reader", TC + ":next_exp_line")],
     [("diffs", "number of differing lines", TC), ("exp_line/exp_tokens", "snapshot cursor", TC)], ["TestRun.run() result", "cases.txt"])

prop("C02", "Accepting a result and re-running the same test gives OK",
     "If the output of a deterministic test is accepted as its snapshot, running the same test again is judged OK and reproduces the same output file, whatever mix of tested text, untested text, headers, anchors, key-values, lists, sets, tables, images, assertions and value formats the test writes. Accepting again changes nothing.",
     ["programs", "inputs"], "every bounded sequence of output operations with arbitrary texts, run, accepted, and run again",
     SAMPLE + "each uses one fixed sequence of operations and one fixed text.",
     [TC, TOK, REV], [("snapshot cursor movement (seek, jump, header)", TC), ("freeze", REV + ":freeze_case"), ("tokenizer", TOK)],
     observe=["verdict of the second run", "the accepted .md file and the second output"])

prop("C03", "Untested output never changes the verdict",
     "Text written as information only (not tested) is recorded in the output but never makes a test DIFF or FAIL, whatever the snapshot holds at that place. Tested lines after an information line are compared exactly as if the information line had been unchanged, and measurements printed as information never fail.",
     ["inputs"], "every information text, every old information text in the snapshot at the same line, and every tested text around it",
     SAMPLE + "random information text in a few cases only samples one value per run, and nothing checks that it is not compared.",
     [TC], [("feed without check", TC + ":feed/feed_token"), ("ifloatln, imsln", TC)], observe=["verdict", "output file"])

prop("C04", "A recorded failure, exception or false assertion makes the test FAIL",
     "A test ends FAIL if and only if it recorded a failure: an explicit failure mark, a false assertion, a violated requirement on an object, an exceeded time limit or a raised exception. FAIL takes precedence over DIFF and OK wherever in the test the failure happened, also on a line never finished, and a failed test's result value is not stored for its dependents.",
     ["inputs", "programs"], "every sequence of output and failure operations and exceptions, every condition value and measured time, every snapshot",
     "All repository cases pass: no failing assertion, exception or time limit is ever exercised.",
     [TC, TR], [("fail/errors accounting", TC + ":fail/commit_line/end"), ("exception handling", TR + ":run_case"), ("assertln, must_apply, tmsln", TC)],
     [("errors", "number of failed lines", TC)], ["TestRun.run() result", ".bin files"])

prop("C05", "The output file is exactly what the test wrote",
     "The output file holds, in order, precisely the texts the test wrote, tested and untested, independent of the snapshot's content, of earlier runs and of the verdict. The line report pairs every output line with a marker that is blank for a matching line, '?' for a differing one and '!' for a failed one.",
     ["inputs", "programs"], "every sequence of writes and every snapshot, including snapshots with other lines, fewer lines, or none",
     SAMPLE + "an output that is damaged only when the snapshot differs is never produced.",
     [TC], [("line buffer and commit", TC + ":feed_token/write_line/commit_line"), ("report", TC + ":report")], observe=[".out/<case>.md", ".out/<case>.txt"])

prop("C06", "Tokenizing loses nothing and always ends",
     "Splitting any text into tokens terminates, gives only non-empty tokens, and their concatenation is the text. Each maximal run of blanks or tabs, each signed decimal number and each alphanumeric word not starting with a digit is one token and every other character is a token of its own; the look-ahead reader delivers the same sequence.",
     ["inputs"], "every text over all of Unicode up to the length bound",
     "One case tokenizes five fixed ASCII strings.",
     [TOK], [("scanner", TOK + ":TestTokenizer.__next__"), ("look-ahead", TOK + ":BufferIterator")], observe=["token sequence"])

prop("C07", "Sections compare with the snapshot section that has the same anchor",
     "After a header, anchor line or key is written, the text that follows is compared with what follows that same header, line or key in the snapshot, if it exists anywhere in the snapshot. Sections with distinct headers may therefore come in any order, and the information lines written before a section may be more or fewer than in the snapshot (but not vanish), without a difference, while a change inside any section or a header the snapshot lacks is DIFF.",
     ["inputs", "programs"], "every order of the sections, every section content, every number of lines between anchors",
     "One case shuffles three sections at random and always has matching content; changed or missing sections are never run.",
     [TC], [("seek/jump", TC + ":seek/jump/reset_exp_reader"), ("anchor, anchorln, header, keyvalueln", TC)],
     [("exp_line_number", "snapshot cursor", TC)], ["verdict"])

prop("C08", "Set output is judged as a set",
     "When distinct items are written as a set, the test stays OK if and only if the same items are in the snapshot's list at that place, in whatever order either side has them. An added, removed or replaced item is DIFF, also when the set is the last thing written or the snapshot's list is empty or at the end of the file, and text after the set is compared with what follows the list.",
     ["inputs"], "all item sets and orders on both sides, with and without following text",
     "No repository case uses set output.",
     [TC], [("tset", TC + ":tset"), ("seek_line/jump", TC)], observe=["verdict"])

prop("C09", "A snapshot changes only by acceptance, and then to exactly the output",
     "Running or reviewing a test leaves its snapshot file and the snapshot's companion files untouched unless the result was accepted: by the user in interactive review, by automatic accept of a DIFF, or by automatic update of an OK. A FAIL is never accepted, by any configuration or answer; on acceptance snapshot and companion files become exactly those of the output, the verdict becomes OK, and no other case's files change.",
     ["inputs", "configurations", "histories"], "every verdict, every combination of the accept, update, interactive and always-interactive settings, every sequence of interactive answers up to the bound, with and without companion files on either side, applied once or twice",
     "The suite runs non-interactively with default settings, where nothing is ever accepted.",
     [REV], [("review decision", REV + ":case_review"), ("interactive loop", REV + ":interact"), ("freeze", REV + ":freeze_case")], observe=["snapshot directory tree", "verdict"])

prop("C10", "Exit status and report reflect every executed case",
     "A run returns success exactly when every case it executed ended OK, and its report records for every executed case exactly one line with its final verdict and duration. With fail-fast the run executes cases in order up to and including the first that is not OK, on a user's abort up to and including the aborted case, and otherwise all of them; the printed summary counts and lists exactly the cases that are not OK.",
     ["histories", "configurations"], "every vector of case verdicts, fail-fast and abort position",
     "All repository cases pass, so only the all-OK vector is executed.",
     [TR, REV, REP], [("main loop", TR + ":run_async"), ("exit code", REP + ":test_result_to_exit_code")], observe=["return value of a run", "cases.txt", "stdout summary"])

prop("C11", "Selection picks exactly the named cases and subtrees",
     "A case is selected if and only if no skip entry names it or an ancestor path of it, and either some plain entry is '*', names the case or names an ancestor path, or there are no plain entries. Names match only on whole path components.",
     ["inputs"], "every case name and every selection of plain and skip entries up to the bound",
     "The suite runs the default selection only; there is no skip entry and no near-miss prefix.",
     [TS], [("is_selected", TS + ":is_selected")], observe=["booktest -l", "selected_names"])

prop("C12", "The run list is closed under needed dependencies, ordered, without repeats",
     "The cases executed for a selection are the selected cases plus, transitively, every dependency that is itself selected or has no stored result (every dependency when refreshing), and no others. Each appears exactly once and after all its dependencies in the list.",
     ["inputs", "configurations", "histories"], "every acyclic dependency graph up to the bound, every selection, every set of stored results, refresh on and off, every order of definition",
     "The repository has a handful of fixed chains, always run as a whole.",
     [TS, DEP], [("selected_names/all_method_dependencies/method_dependencies", TS), ("binding of methods", DEP + ":bind_dependent_method_if_unbound")], observe=["booktest -l", "order of execution"])

prop("C13", "A dependent test receives exactly its dependencies' results",
     "A test receives, for each declared dependency in order, the value that dependency returned last time it ended OK or DIFF, for resources the resource's value, whatever memory cache is used (dictionary, bounded cache of any size, or none) and whether the value is still in memory or only on disk. Tests of a class instance receive the value of the same instance if it has that test, and another instance's otherwise; a dependency that has no stored value fails the dependent instead of delivering something else.",
     ["inputs", "configurations", "histories"], "every history of runs over a bounded dependency graph with changing results and verdicts, every cache kind and size, several instances of one class",
     "The cases check a few fixed values with one cache and one history.",
     [TR, DEP, "booktest/cache.py"], [("save/get result", TR + ":save_test_result/get_test_result"), ("instance matching", TR + ":match_method"), ("argument assembly", DEP + ":call_class_method_test/call_function_test")],
     [("cache", "memory level of the two-level result cache", TR), ("<case>.bin", "disk level", TS)], ["arguments of the test function"])

prop("C14", "Continue reruns exactly the cases not yet successful, after any interruption",
     "In continue mode exactly the selected cases without a recorded OK are executed, and records of all cases not up for execution are kept unchanged. If a run is interrupted at any point, every case recorded OK in the surviving report had finished OK, verdicts in it are those obtained, and continuing from it executes every selected case not recorded OK; a report cut off at any byte is read as a prefix of its records (the last one's duration may be cut).",
     ["crash_points", "histories", "inputs"], "every interruption point of a run, every byte prefix of the report, every old report and selection",
     "No case interrupts a run or continues one.",
     [REP, TR], [("cases_to_done_and_todo, of_file, write_case with flush", REP), ("report rewriting", TR + ":run_async")], [("cases.txt", "the report", REP)], ["cases.txt", "executed cases of the next run"])

prop("C15", "Parallel runs never break resource exclusion or dependency order, and finish",
     "In a parallel run two tests that share a resource are never given to workers at the same time and no test is started before every dependency in the run has finished, for every completion order. There are as many workers as the command line or configuration asks for. Every case is started exactly once and every started case is eventually reported, so the run ends.",
     ["schedules", "inputs"], "every acyclic dependency graph and resource assignment up to the bound, every order and batching of completions, every interleaving of the scheduler with the reporting loop at its synchronization points",
     "The suite runs serially; the parallel runner is not executed at all.",
     [RUNS], [("plan/thread_function", RUNS + ":ParallelRunner"), ("method_resources/method_dependencies", TS)],
     [("done/scheduled/reserved_resources", "scheduler state", RUNS)], ["submissions to the pool"])

prop("C16", "A parallel run reports the same verdicts as its workers produced",
     "The exit status, the final report and the printed summary of a parallel run contain each executed case exactly once with the verdict its worker produced (after review), for every completion order; cases still with workers when the run is aborted need not be reported. A case whose worker failed to deliver a result is reported FAIL and the run goes on; the settings for accepting and updating have the same effect on snapshots as in a serial run.",
     ["schedules", "fault_sequences", "configurations"], "every vector of worker outcomes including missing or empty worker reports, every completion order, accept/update/fail-fast/continue settings",
     "The suite never runs in parallel and no case ever fails.",
     [RUNS, REV], [("collection of worker reports", RUNS + ":thread_function"), ("main loop", RUNS + ":parallel_run_tests")], observe=["exit code", "cases.txt", "snapshots"])

prop("C17", "Reviewing a run shows and updates exactly what was asked",
     "Reviewing re-reports the cases of the last run, finished or interrupted, that are selected (and, in continue mode, not passed), in order, changing a recorded verdict only if that case was accepted in the review, and keeps all other records. It returns success exactly when all recorded verdicts are OK afterwards; after a user's abort, or the first failure with fail-fast, no further case is shown or changed.",
     ["histories", "configurations", "inputs"], "every report, selection, answer sequence and setting up to the bound",
     "No case runs a review.",
     [REV, REP], [("review", REV + ":review"), ("report_case", REV)], observe=["cases.txt", "exit code", "stdout"])

prop("C18", "Environment mocks take effect and are undone exactly",
     "Inside a test with environment mocks or snapshots the named variables have the mocked or snapshotted values (absent when the value is null; for missing-variable mocks only if absent, and not while capturing snapshots), and afterwards the whole environment of those variables is as before, whatever the test did to it and also when the test or the set-up raised. A snapshot that lacks a variable fails the test unless capturing, and the captured values are those that were in effect.",
     ["inputs", "configurations", "fault_sequences"], "every initial environment, mock map, snapshot content and capture setting, every change made by the test, raising or not",
     "The cases use one fixed environment and never raise, delete, or capture.",
     ["booktest/env.py"], [("SnapshotEnv, MockMissingEnv, MockEnv", "booktest/env.py")], [("os.environ", "process environment", "booktest/env.py")], ["os.environ before, inside and after", ".env.json"])

prop("C19", "Function snapshots replay the recorded results and are undone",
     "While replaying, a call of a snapshotted function returns the value recorded for the same function and arguments (in the same order, as JSON keeps them) without calling the function, and a call with no record raises an error instead of calling it. While capturing, missing calls are executed and stored so that a later replay returns the same values; refreshing ignores old records, and after the test, raised or not, every snapshotted or mocked function is the original again.",
     ["inputs", "configurations", "fault_sequences"], "every sequence of calls with arbitrary arguments, every stored record set, replay/complete/refresh mode, raising or not",
     "The cases replay one matching sequence; capture, refresh, misses and exceptions are not run.",
     ["booktest/functions.py"], [("SnapshotFunctions.snapshot/start/stop", "booktest/functions.py"), ("set_function", "booktest/functions.py")], observe=["returned values", "calls of the real function", ".functions/*.json"])

prop("C20", "HTTP snapshots replay the recorded exchanges without network",
     "While replaying, the n-th request with the same method, URL, body and considered headers gets the response recorded for the n-th such request (status, reason, headers, cookies, content), also when requests are made at the same time, no request is sent, and a request without record raises an error. Responses can be captured and replayed through every kind of client (sessions, redirects, streams read fully, partly or raw, asynchronous), requests are captured with the options they were made with, and captured responses replay as they were received (decoded, if they were compressed), and the transport is the original again after the test, raised or not.",
     ["inputs", "histories", "configurations"], "every sequence of requests with arbitrary URLs, methods, bodies and headers, every record set, every response, replay/complete/refresh mode, both HTTP libraries",
     "The cases replay a few fixed exchanges; misses, capturing and other responses are not run.",
     ["booktest/requests.py", "booktest/httpx.py"], [("RequestKey, mark_order, lookup_snapshot", "booktest/requests.py, booktest/httpx.py"), ("start/stop patching", "booktest/requests.py, booktest/httpx.py")], observe=["responses", "requests sent by the stub transport", "snapshot json"])

prop("C21", "Ignored headers and hidden details never reach HTTP snapshots",
     "Unless request details are asked for, no request header and no request body is stored in snapshot files or test output, and by default header values have no influence on matching or hashes at all. With an ignore list, names match regardless of letter case, the listed headers have no influence and are never stored, while every other header, the URL, method and body do distinguish requests.",
     ["inputs", "configurations"], "every header name and value, ignore list, body, URL and method up to the bound",
     "The cases have one fixed set of headers; nothing checks what is stored.",
     ["booktest/requests.py", "booktest/httpx.py"], [("RequestKey header pruning", "booktest/requests.py, booktest/httpx.py"), ("to_json_object(hide_details)", "booktest/requests.py, booktest/httpx.py")], observe=["stored json", "test output", "match results"])

prop("C22", "Cleaning removes exactly the files no test owns",
     "Garbage listing and cleaning cover exactly the files under the books directory that are not the snapshot of an existing test, not inside an existing test's companion directory and not the index. Cleaning never removes a file owned by an existing test and removes nothing outside the books directory.",
     ["inputs"], "every set of test names and every set of files up to the bound, with names that are prefixes of one another",
     "No case runs the command.",
     [TS], [("garbage/is_garbage", TS + ":exec_parsed")], observe=["files listed", "files removed"])

prop("C23", "The index links every test exactly once in its place",
     "The index written after a run contains for every test exactly one link, to that test's snapshot file, in definition order, nested under headings that spell its directory path, which aren't repeated for directories shared with the preceding test, for all tests and not only those selected.",
     ["inputs"], "every list of hierarchical test names up to the bound",
     "One fixed list of names is written and not compared.",
     [REV], [("create_index", REV + ":create_index")], observe=["index.md"])

prop("C24", "Configuration sources are layered and do not leak between runs",
     "Each setting has the value of the highest source that defines it: command line, then BOOKTEST_ environment variables, then the project's file, then the home directory's file. Files hold key=value lines where a value may contain '=', lines starting with '#' and blank lines are ignored, and '1' and '0' mean true and false; settings given to one run have no effect on a later run in the same process, and a file written by the setup command reads back as the chosen values, without blanks around them, and keeps the settings it does not ask for.",
     ["inputs", "configurations", "histories"], "every file content, environment and command line up to the bound; two consecutive runs in a process",
     "The suite runs with no configuration at all.",
     ["booktest/config.py", "booktest/setup.py", TS], [("resolve_default_config", "booktest/config.py"), ("flag layering", TS + ":exec_parsed"), ("setup", "booktest/setup.py")], observe=["resolved settings", "behaviour of the second run"])

prop("C25", "Process state is restored around every test",
     "During a test standard error and log records go to that test's log; after it, passed, failed or raised, the process's standard error, root log handlers and their formatters are what they were before. Process set-up runs exactly once before the tests of a serial run, and before each case given to a worker, and its tear-down exactly once after them, also when a test raises.",
     ["inputs", "fault_sequences", "histories"], "every sequence of passing, differing, failing and raising tests, with arbitrary log and error output",
     "One case checks that error output can be written; nothing looks at the state afterwards.",
     [TC, "booktest/utils.py", "booktest/detection.py"], [("open/close swapping", TC + ":open/close"), ("SetupTeardown", "booktest/utils.py")], observe=["sys.stderr, logging.root.handlers", "<case>.log"])

prop("C26", "The memory cache stays within its size and returns the latest values",
     "A bounded cache never holds more entries than its size, always holds the most recently used keys, and returns for a held key the value stored last. A dropped or unknown key reads as absent.",
     ["histories"], "every sequence of stores, reads and membership tests over a bounded key set, every size",
     "The cache is filled by fewer distinct cases than matter, and eviction order is not observed.",
     ["booktest/cache.py"], [("LruCache", "booktest/cache.py")], observe=["reads, len, membership"])

prop("C27", "Every detected test function and method becomes its own case",
     "For a test file with distinctly named test functions, test classes and suites, each test function and each test method of each class becomes exactly one case, named by the file (in small letters, without its ending and its test or book mark), the class (in snake case, unless it is the name of the file) and itself, in definition order within a class and name order within a file; helpers not named as tests become none. Merging and decorating suites keep the cases, their order and their functions, and dropping a prefix keeps exactly those under the prefix. The cases, their order and the process set-up do not depend on the order in which the file system lists the names of a directory.",
     ["inputs", "programs"], "every set of member names of a file or class up to the bound, names with and without test and book suffixes",
     "The repository's own file names are a fixed sample and a lost case would just not be run.",
     ["booktest/detection.py", "booktest/testbook.py", "booktest/naming.py", "booktest/testsuite.py"], [("parse_test_file", "booktest/detection.py"), ("OrderedClass/TestBook", "booktest/testbook.py"), ("clean_*", "booktest/naming.py")], observe=["case names", "case functions"])

prop("C28", "Files a test asks for lie in its own directories and are linked correctly",
     "File and temporary paths handed to a test lie inside that test's own output and temporary directories, which are emptied before every run, so nothing from an earlier run or another test appears in them. The relative path of a file under the output base directory leads back to that file, and a file outside gets none.",
     ["inputs", "histories"], "every test path and file name up to the bound, every leftover content",
     "Two cases use one fixed file name each.",
     [TC], [("file/tmp_path/rel_path/constructor purge", TC)], observe=["returned paths", "directory contents", "image link"])

prop("C29", "A crash never leaves a torn snapshot or stored result behind",
     "If the process dies at any point while a test runs, is accepted, or its result is stored, the snapshot text afterwards is either the complete old or the complete new one, and a stored result that can be loaded is either the old or the new value; a later run of a dependent never fails on a half-written result while the dependency could have been rerun. Results that cannot be stored fail only their own test.",
     ["crash_points", "histories"], "every point between two file operations, and inside a write, of running, accepting and storing a case",
     "No case crashes; all results can be stored.",
     [TR, REV], [("save_test_result", TR), ("freeze_case", REV)], observe=["files after the crash", "next run"])

prop("C30", "Type formats show structure and never values",
     "Formatting a value for its type structure shows list lengths, dictionary keys and type names and nothing that depends on the scalar values in it. The printed text is valid JSON for that structure.",
     ["inputs"], "every nested list/dictionary up to the bound with arbitrary scalars",
     "One recorded request response is formatted.",
     [TC], [("value_format/tformat", TC)], observe=["output text"])

prop("C31", "Tables print every cell and test every cell",
     "Writing a table prints the column names and one line per row containing every cell in order (line ends as blanks and blanks around it dropped), aligned to equal width. A changed cell text or column width is DIFF and an unchanged table OK; the line of column names is informational.",
     ["inputs"], "every table up to the bound with arbitrary cell texts, against every snapshot of the same shape",
     "One fixed table that matches its snapshot.",
     [TC], [("tdf/ttable", TC)], observe=["output text", "verdict"])

prop("C32", "Listing, printing, viewing and forgetting act on exactly the selected cases",
     "Listing cases, and printing the paths or contents of their snapshots, gives exactly the selected cases in order (those not yet passed when continuing), and viewing opens one viewer with exactly the existing snapshots of the selected cases. Forgetting removes exactly the selected cases from the stored report. None of these commands runs a test or changes any other file, whatever the names of the cases and contents of snapshots.",
     ["inputs", "histories"], "every stored report, set of snapshots, selection and command, and arbitrary case names and snapshot texts up to the bound",
     "No case runs these commands on more than the whole suite, and none has a stored report with failures.",
     [TS, REV, REP], [("setup_parser/exec_parsed: --path, --print, --view, --forget, -l, --config", TS), ("run_tool", REV), ("drop_case / CaseReports", REP)],
     observe=["standard output", "viewer invocation", "cases.txt", "files under books/"])

prop("C33", "Review tools get exactly the case's files and change nothing",
     "When a case is reviewed interactively, asking for the viewer, the log viewer or a diff tool runs that configured tool exactly once with exactly the files of this case (the snapshot if there is one, the output or the log), which exist at that moment, whatever characters their names contain. It changes neither the verdict nor any file, an unknown answer does nothing, and the question is asked again.",
     ["inputs", "histories"], "every sequence of answers up to the bound, every verdict and way of running, arbitrary case names",
     "Interactive answers are not exercised by the cases.",
     [REV], [("interact", REV), ("run_tool", REV)], observe=["tool invocations", "questions", "files"])

prop("C34", "However cases are run, verdicts, outputs and stored results are the same",
     "For tests that are deterministic functions of what they are given, running a selection serially, in parallel in any completion order, one case at a time or in parts, verbosely or with logs printed, with any memory cache, and with the cases listed in another order leaves the same verdict for every case, the same output, line report and stored result files, the same snapshots (accepted or not) and overall the same success. Left-over outputs and reports of earlier runs make no difference. Measuring the coverage (--cov) changes none of this, measures exactly while the tests run, discards the data of earlier runs, and saves the data also when the run is interrupted.",
     ["schedules", "histories", "inputs"], "every mix of verdicts, dependency graph up to the bound, way of running and completion order",
     "The repository's cases are each run in one way.",
     [TR, RUNS, TS], [("TestRun.run_async", TR), ("parallel_run_tests", RUNS), ("selected_names", TS)], observe=["cases.txt", "files under books/", "exit status"])

prop("C35", "Cases of different names never get mixed up",
     "Cases with different names, neither lying inside the other's path, keep their own snapshot, output, files, temporary files, stored result, report entry and index entry, in serial and in parallel runs, whatever characters the names contain (slashes, dots, per cent signs, blanks), and a dependent gets the result of its own dependency.",
     ["inputs"], "every pair of names up to the bound, serial and parallel, accepting and running again",
     "The names of the repository's cases are words joined by slashes.",
     [RUNS, TR, TC], [("case_batch_dir_and_report_file", RUNS), ("file names of a case", TC), ("test_result_path", TS)], observe=["cases.txt", "files under books/"])

prop("C36", "Given hash functions and body encodings decide which requests are equal",
     "When an HTTP snapshot decorator is given a hash function or a body encoding, requests count as equal exactly if these make them so: the n-th such request gets the response recorded for the n-th such request, whatever the parts the given functions drop (time stamps, volatile arguments), also in later runs, and requests they distinguish are never mixed up. The body encoding gets the body, address and method of each request.",
     ["inputs", "histories", "configurations"], "every sequence of recorded and later requests up to the bound with arbitrary volatile and other parts, several given functions, both HTTP libraries, replay and complete mode",
     "No case gives a hash function and repeats a request.",
     ["booktest/requests.py", "booktest/httpx.py"], [("RequestKey.__init__, increase_order", "booktest/requests.py, booktest/httpx.py"), ("from_properties/encode_body", "booktest/requests.py, booktest/httpx.py")],
     observe=["responses", "requests sent by the stub transport"])

prop("C37", "The command finds, selects and runs the tests of the configured places",
     "The booktest command runs the tests found in exactly the configured places in the order of the setting, those named on the command line or, if none is named, those of the configured default selection, and keeps everything in the configured books directory. Its exit status is zero exactly if all of them ended OK, a process set-up found in a configured place is around the run, and a name that no test has is refused before anything is done.",
     ["inputs", "configurations"], "every setting of test_paths, default_tests and books_path up to the bound, from each source, and argument lists",
     "The suite is run one way, with default settings.",
     ["booktest/cli.py", "booktest/detection.py", TS], [("setup_test_suite/main", "booktest/cli.py"), ("default selection", TS + ":exec_parsed"), ("detect_setup", "booktest/detection.py")],
     observe=["exit status", "executed cases", "files written"])

prop("C38", "Decorators combine in any order and keep dependencies and results",
     "Mocks and snapshots of environment, functions and HTTP, set-up decorators and depends_on keep their own guarantees when a test is under several of them in any order, stacked, combined or applied to a whole suite, on functions and methods, synchronous or not: the test sees the mocked and recorded values, gets its dependencies and resources, its value reaches its dependents, and everything is undone afterwards, raised or not. Of nested mocks of one variable the innermost counts.",
     ["inputs", "programs", "configurations"], "every ordered pair (triple) of decorators, every form of test and way of applying, arbitrary values, capture and replay",
     "A few fixed combinations are in the cases, always replaying and never raising.",
     [DEP, "booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/utils.py"],
     [("wrapper of each decorator", "booktest/env.py, functions.py, requests.py, httpx.py, utils.py"), ("get_decorated_attr/match_method", DEP + ", " + TR)],
     observe=["what the test sees", "process state afterwards", "arguments of dependents", "cases.txt"])

prop("C39", "The console shows what happened: each case with its verdict, report and logs",
     "The console text of a run (serial or parallel) or review is a heading, then for every case executed or reviewed its full name once, with -L every line of its log in order, with -v its report lines, and its verdict and recorded duration (before acceptance, unless a worker accepted it), and at the end how many of the recorded cases failed, which ones in order, and the duration of the run. When asked for an answer, accepting is offered unless the case failed, and all other answers always.",
     ["inputs", "configurations", "schedules"], "every verdict, log text, combination of -v, -L, -a and -i, answer sequence, serial, parallel in every completion order, and review",
     "No existing case looks at the console text.",
     ["booktest/review.py", "booktest/testcaserun.py", "booktest/runs.py", "booktest/testrun.py", "booktest/reports.py"],
     [("report_case, report_case_begin, report_case_result, maybe_print_logs, end_report, interact", "booktest/review.py"), ("TestCaseRun.start, end, report", "booktest/testcaserun.py")], observe=["console text", "prompts"])


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
