"""Hand-written parts of DESIGN.md (tools/mkdesign.py puts them together with the bounds of the harnesses)."""

HEAD = """# Solver-based checking of booktest

All properties of properties.jsonl are decided by one technique: **symbolic execution of the real Python code with an SMT
solver (Z3)**. There is no hand-made model of booktest. On every run the source in /repo/booktest is parsed, instrumented
and loaded; texts, numbers, choices, schedules, crash points and faults are solver variables; every branch of the real
code on them is a solver query, and on every path the property is an assertion that the solver proves for all values on
the path or refutes with a model. A model is replayed on the unmodified code in a fresh process before it is reported;
only confirmed ones become a VIOLATION (exit 1). A model the real code does not confirm is reported as UNCONFIRMED and the
check gives no answer (exit 2): that means the encoding is wrong and must be repaired.

## The engine (sx/)

* `instr.py` - import hook. Rewrites the AST of booktest and of the harnesses so that every comparison, call, subscript,
  boolean operator, set operation, comprehension, format and match statement that may look at symbolic data goes through
  `hooks.py`. Nothing is cached: the encoding is made from the current source on every run, so the check judges what the
  code does, not how it is written.
* `core.py` - path exploration. A symbolic character is carried by an ordinary Python string whose code point lies in
  plane 15, so everything that only moves text (slicing, joining, writing and reading files, pickling) runs unmodified,
  while everything that looks at text ends in `decide(formula)`: both outcomes are put to the solver, one is followed, the
  other queued, and paths are re-executed from the start with their decision prefix. Formulas are membership of a
  character in a set of code points (all Unicode of planes 0-14 where no alphabet is stated), equality and order of
  characters, and linear arithmetic over symbolic integers. "Choices" (of an operation, verdict, answer, schedule step or
  crash point) are symbolic integers whose value is decided by branching.
* `hooks.py`, `resym.py`, `fsx.py` - semantics of Python's text, container, json, os.path, pathlib, glob and re operations
  on symbolic text. An operation that is not encoded gets concrete values (each value a path of its own), which is slow but
  sound, or makes the check inconclusive, never quiet.
* `env.py` - surroundings: a scratch directory (tmpfs) per path, as user nobody; destructive calls are guarded and refuse
  to leave the scratch directory; clock, input(), os.system are stand-ins; module state is reset between paths. Effects
  (writes, renames, removals, opens) are numbered, which is where crashes and interrupts are placed.
* `coop.py` - threads and process pools under the solver's control: one thread runs at a time, it changes at sleeps,
  locks and joins (and, where "preempts" says so, at any lock), and a pool's task ends when a symbolic choice says so.
* `ctx.py`, `run.py`, `concrete.py` - harness interface, parallel exploration, replay on the real code, evidence. On every
  run some completed paths are also run on the real code and what they observed is compared ("traces validated").

Verdicts: exit 0 = all paths of all harnesses explored, no violation. Exit 1 = confirmed violation. Exit 2 = no answer
(budget used up, an unsupported operation, an unconfirmed counterexample, or a harness whose witness situation - e.g. both
"same" and "different" outputs - was never reached, which would make it vacuous).

Many properties have a harness with much larger inputs (props/large.py: hundreds of lines, cases, files, calls, long texts and names, deep
directories) with a few symbolic places, because what holds for a few does not have to hold for many (thresholds, buffers, exit statuses).

Level claimed: model_checking (exhaustive within bounds). Nothing is claimed outside the bounds listed per harness.

Trusted: CPython, the instrumentation and hooks (guarded by trace validation and by props/engine.py), Z3, tmpfs,
pandas, asyncio, pickle, argparse (executed, not encoded).

Tools: `check.py ID [--thorough]`, `check.py --replay FILE`, `tools/mkprops.py` (properties.jsonl), `tools/mkmanifest.py`,
`tools/mkdesign.py` (this file), `tools/mkseeds.py` (planted bugs), `tools/mutants.py` (more small bugs, in copies).
"""

# property -> (what is symbolic and what the oracle is)
HOW = {
"C01": "Output and snapshot texts are symbolic characters over all Unicode (no CR). The real TestRun is run on a test that writes the output, against a file with the snapshot; the verdict must equal line-by-line equality of the two texts, which the solver decides. `edited` applies every single-character edit; `long` does so in 300-character texts.",
"C02": "Programs of output operations (choice variables) with symbolic texts are run three times: accepted, rerun, accepted again. Oracle: OK, and byte-equal files. Anchors, headers and key-values may be written within a line; sets there are a known finding.",
"C03": "Snapshot and output agree on tested parts and differ arbitrarily (symbolic) on information parts; the verdict must be that of the tested parts alone. Durations and old values of measurements are symbolic numbers and texts.",
"C04": "Sequences of output and failure steps, including failing steps in unfinished lines, exceptions at any place and sync/async; the verdict must be FAIL exactly if a failure step was executed, and a stored result must be absent for FAIL.",
"C05": "The output file must equal the concatenation of the documented text of each operation, whatever the old snapshot and old output; the printed markers must match equality of the paired lines.",
"C06": "The tokenizer and the look-ahead reader are run on every text up to the bound; concatenation, non-emptiness, and boundaries equal to an independent declarative definition of tokens; termination by a step bound that no path may reach.",
"C07": "Sections with symbolic headers and bodies in every order on both sides; verdict must be OK iff every section's body equals that of the same header.",
"C08": "Symbolic items in every order on both sides, with text before and after; verdict OK iff the sets are equal (decided by the solver) and the rest is equal.",
"C09": "One case with any verdict, configuration, mode and sequence of symbolic answers; files are compared before and after with an independent account of whether the result was accepted. `neighbours`: another case's files stay as they are.",
"C10": "Runs of several cases with verdicts decided by symbolic characters; exit status, report, console summary and executed cases are compared with a specification of fail-fast, abort, accept and update.",
"C11": "Symbolic names and entries; TestRun/Tests selection must equal path-component prefix matching; `command` goes through the command line.",
"C12": "Every acyclic dependency graph (edges symbolic, decided lazily), selection and stored results; the run list must equal the transitive closure, in dependency order, without repeats.",
"C13": "Histories of runs with producers of any verdict, cache kinds, values of all types; every delivered argument is compared with a model of the last stored values. `instances`: methods of several instances of classes; `shared`: a test that changes the result it was given.",
"C14": "Old reports and selections; interruption (exception at a numbered effect) anywhere in a run, then continuing; reports cut at every byte.",
"C15": "Parallel runs with the pool's completion order, thread changes, graphs and resources as solver choices; monitors in the stand-in pool check exclusion, order, exactly-once and termination (a bound on switches: reaching it is a violation). `resources`: two objects of the same identifier are the same resource.",
"C16": "As C15, with verdicts, worker failures (dead, torn report), review answers, control-C; exit status, report and summary against the verdicts of the workers.",
"C17": "Reports and outputs of an earlier run with any verdicts, then -w style reviews with any answers, flags, selections; expected report computed independently.",
"C18": "Stacks of environment decorators over symbolic start values, mocked values, snapshot content and the test's own actions; the environment inside and afterwards is compared with a reference interpretation.",
"C19": "Recorded and later calls with symbolic arguments and results in every mode; SHA-1 is an injective function (decided by the solver on its inputs). `repeated` and `stacked` repeat calls among others and put several decorators on a test; the accepted capture must replay OK.",
"C20": "Recorded and later HTTP exchanges (requests, httpx, httpx async) with symbolic path, body, header, content; the network is a stand-in below HTTPAdapter.send / HTTPTransport.handle_request that counts requests. `clients` and `answers` go through every kind of client (sessions, streams, async) with redirects, compression, reasons, several cookies and streamed bodies, and compare all a test can see of a response; `together` sends equal and different requests at the same time and answers them in any order.",
"C21": "Two captures and a replay that differ only in symbolic header values; stored files and output must be the same for both values of an ignored header (so no information about it is stored), and must not contain bodies.",
"C22": "Symbolic test names and file names (path separators and dots decided by the solver) in a file tree; the listing and the removals of the clean command against the definition of ownership.",
"C23": "Symbolic test names; the index is parsed by an independent reader into (path, link) and compared with the cases.",
"C24": "Symbolic file contents, environment and command line values in every subset of the four sources; resulting configuration against a reference reader; two runs in a process for leaks; the setup command's answers symbolic (found: settings it did not ask for were lost).",
"C25": "Tests ending in seven ways with handlers and streams set up before; identity of sys.stderr, root handlers, formatters and of where each record went; set-up and tear-down counted in serial, parallel and other commands.",
"C26": "Sequences of symbolic operations and keys on LruCache/NoCache against a list ordered by use.",
"C27": "Symbolic names of functions, methods, files; the detected cases against the naming rules; `real` imports generated files. Names may be defined twice, in a module or class. `listing`: every directory is listed in any order, twice (found: the order of the cases and of books/index.md, and which of two set-ups is used, was the file system's).",
"C28": "Symbolic file names and paths for t.file, tmp paths and rel_path; contents of the directories at the start of each test over several runs; hash of files as injective.",
"C29": "A crash (BaseException that no code may catch, with any prefix of the buffered bytes kept) at every numbered effect of a run; files afterwards must be complete old or new, and a later run must work.",
"C30": "Pairs of values of the same structure with different symbolic scalars; output must be equal and parse as JSON with the structure.",
"C31": "Symbolic cells; printed table against an independent layout; verdict OK iff tested text is equal. Also columns of the same name (found: a crash) and no rows.",
"C32": "Each command on a project with symbolic stored verdicts, selections and snapshots (presence, text) and symbolic case names; standard output, recorded viewer arguments and all files against an independent reading of the selection rules; after forgetting, a continued run runs exactly the forgotten and failed cases.",
"C33": "All answer sequences (also of an arbitrary other character) in an interactive run, verbose or parallel run or review; tools are stand-ins that record their arguments after shell parsing and check that the files exist; files before and after are compared. Names of up to two arbitrary printable characters.",
"C34": "The same project (symbolic verdict per case, dependency edges, snapshots, options, left-overs) is run once serially and once in another way, with symbolic completion order for parallel runs; verdicts, output, line reports, unpickled results, snapshots and success are compared. `snapshotting` does the same for captured and replayed snapshots, `covered` with the coverage option (stand-in for the coverage library). `overlap` stops one worker at any file effect while another runs its whole case.",
"C35": "Two cases, one named by any one or two printable characters (thorough: both) at the top or in a directory, accepted and run again, serially and in parallel; every file, record, listing and passed result checked. A second harness uses the names of the program's own files (three known findings). `escaped` pairs names with names that look like the program's own spelling of them.",
"C36": "Two requests libraries with a stand-in network: recorded requests, then later requests with symbolic volatile parts (query, first body character, header), under given hash functions and body encodings; the oracle counts equal requests by what the given functions keep, and says which recorded answer each must get, which are sent, and which fail; a later run with other volatile parts must replay the same. `three`: three equal requests under a given hash.",
"C37": "booktest.cli.main is executed with test modules in symbolic places: test_paths, default_tests and books_path hold symbolic characters and come from a symbolic source; the cases run, their order, exit status, report, files written and process set-up are compared with the configured ones; then the command is run again and lists. `three`: three places, in the order given. `spelled`: places written as `./a`, `a/` or `.` (found: a crash in import).",
"C38": "A test that reads the environment, calls two functions and sends requests is put under symbolic ordered pairs (triples) of the decorators, as function or method, synchronous or not, stacked, combined or applied to a suite, with depends_on inside or outside; captured with symbolic values, then replayed in a changed world; what the test sees, gets and passes on and what is left afterwards is checked. `alone`: every decorator by itself.",
"C39": "Cases with symbolic verdicts and log lines are run serially, in parallel, or reviewed, with every combination of the flags; the whole console text and every prompt are compared with a text built from the verdicts, logs and report files. Found: -L repeated only the last part of the name after the logs of a serial run.",
}

TAIL = """
## Genuine defects found and repaired ("fix:" commits in /repo)

See `known_findings.json` (entries with status "fixed") for property, commit and what failed. Each was found by a
counterexample of a check and replayed on the real code; after the repair the check passes and reports it again if it returns.

## Known findings (not repaired)

Listed in `known_findings.json` with status "known"; the check prints a KNOWN-FINDING line for each as long as it
reproduces, and excludes exactly that situation.

* C01-truncated: a deliberate-looking gap (missing tail lines are not a difference); the repair changes verdicts of
  existing users' books.
* C02-joined, C02-cr, C02-set-then-item: consequences of the token stream and of universal newlines.
* C09-nested: case names that are directories of others; the layout of the books directory would have to change.
* C19-samename: the key of a function is its qualified name without the module; changing it invalidates all stored snapshots.
* C35-index, C35-report, C35-directory: case names that are file names of the program itself; needs another layout of the files.
* C13-shared: results are kept in memory as the same object, so a test that changes the result it was given changes it
  for later tests of a serial run; copying every result would cost what the memory cache is there to save.

Seen, outside the properties and left alone: LruCache tests `key is None` where the value is meant; a worker killed by
the operating system hangs multiprocessing.Pool itself; the order of keyword arguments is part of a call's key;
`t.requests` capture does not forward unusual send() arguments; static test methods of a TestBook are not called
correctly; MockFunctions.start that fails half-way keeps the mocks made so far;
a snapshotted function called by another one is listed when captured and not when replayed; test methods that a class
inherits are no cases of it; directories with a dot in their names can't be imported; `test_paths=a, b` ignores ` b`;
foo_test.py and foo_book.py get the same case names; a snapshot that is not UTF-8 ends the run; resolving layered
diamonds of dependencies takes exponential time; synchronous tests can't call asyncio.run.

## False alarms of the checks, corrected

* C02/C05 used a stand-in data frame without `reset_index`; real pandas frames are used now.
* C21 read stored results as UTF-8 text (results of tests that return nothing are stored since a repair).
* C24 fed characters that only `splitlines()` takes for line ends; left out as ambiguous.
* C28: `os.path.commonpath` and `relpath` compared symbolic components natively (reported as UNCONFIRMED, never as a violation);
  `fsx.py` encodes these, and pathlib, glob, fnmatch.
* C18: `os.environ.update` enumerated the values (no answer within the time); it is encoded now.
These were found by running all checks on behaviour-preserving rewrites of the 14 biggest modules.

## What is not covered

* Jupyter/notebook display, coverage measurement's numbers, argcomplete, LLM-free image content: outputs of other
  programs. Viewers and diff tools are stand-ins that record how they are called.
* Real processes: pools and threads are stand-ins with the same interface; pickling into workers is done for real.
* Power failure (loss of completed writes): a crash keeps what was handed to the operating system.
* Names and texts with carriage returns (known finding), and lone surrogates.
"""

# seeds missed by the check at first, and what was strengthened
SEED_NOTES = {
"c26-falsy": "missed before C26 stored empty values",
"c07-far": "beyond the bounds before the harness `large`",
"c16-count": "beyond the bounds before the harness `large`",
"c19-long": "beyond the bounds before the harnesses of long arguments",
"c20-long": "beyond the bounds before the harnesses of long bodies",
"c27-mark": "missed at first; C27 got the harness `class names` and exact paths of files with marks in their middle",
"c28-hash": "missed at first (beyond the bound then); C28 got the harness `huge`",
"c20-third": "missed at first; C20 got the harness `repeats` (three equal requests)",
"c03-limit": "missed at first; C03 `measures` now has durations of up to a year",
"c27-inner-prefix": "missed at first; C27 got deep names",
"c18-empty": "missed at first; the empty text is now among the values in C18",
"c35-case": "missed at first; C35 got a third case that needs the results of both",
"c36-empty-body": "missed at first; C36 got the harness `empty`",
"c38-combined": "missed at first; C38 got the harness `instances`",
"c31-cr": "missed at first; C31 got `inside` (any character inside a cell)",
}
