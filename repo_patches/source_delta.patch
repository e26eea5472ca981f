From 5045f6689cb15aa8e50b75eebfa832a397d3f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 01/41] fix: a NUL character made the tokenizer loop forever

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 2915464e7b9614b6587be74ddddf44b9d0de76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 02/41] fix: an unfinished last line was dropped and a
 difference or failure on it ignored

---
 booktest/testcaserun.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..db54446 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -229,6 +229,12 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        # an unfinished last line is compared, counted and stored like others
+        if len(self.out_line) > 0:
+            self.feed_token("\n", check=self.last_checked)
+        elif self.line_error is not None or self.line_diff is not None:
+            self.report_line()
+
         self.close()
 
         if self.errors != 0:
@@ -425,16 +431,10 @@ s
         self.next_exp_line()
         self.line_number = self.line_number + 1
 
-    def commit_line(self):
+    def report_line(self):
         """
-        Internal method. Commits the prepared line into testing.
-
-        This writes both decorated line into reporting AND this writes
-        the line into test output. Also the snapshot file cursor is
-        moved into next line.
-
-        Statistics line number of differing or erroneous lines get
-        updated.
+        Internal method. Writes the decorated line into reporting and
+        updates the statistics of differing or erroneous lines.
         """
 
         if self.line_error is not None or self.line_diff is not None:
@@ -455,12 +455,24 @@ s
             if self.point_error_pos:
                 self.report("  " + (" " * pos) + "^")
 
-            self.write_line()
             self.line_error = None
             self.line_diff = None
         else:
             self.report(f"  {self.out_line}")
-            self.write_line()
+
+    def commit_line(self):
+        """
+        Internal method. Commits the prepared line into testing.
+
+        This writes both decorated line into reporting AND this writes
+        the line into test output. Also the snapshot file cursor is
+        moved into next line.
+
+        Statistics line number of differing or erroneous lines get
+        updated.
+        """
+        self.report_line()
+        self.write_line()
 
     def head_exp_token(self):
         """
-- 
2.43.0


From d5418fd2ffe19c815e708031f536a8430d55a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 03/41] fix: the last character of a snapshot without a final
 newline was ignored

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index db54446..cfe86ed 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -335,7 +335,7 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    self.exp_line = line[:-1] if line.endswith('\n') else line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From da9d3910396ade2e5443e29294c5679a10bd7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 04/41] fix: stderr was left as None after a test case

---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index cfe86ed..c064dc9 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From a0c5b467eaec77c6aaf41992e1ff662d2e97b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 05/41] fix: rel_path accepted files of a directory whose name
 merely starts the same

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index c064dc9..6dbe723 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -177,7 +177,8 @@ class TestCaseRun:
         """
         abs_file = os.path.abspath(file)
         abs_out_base_dir = os.path.abspath(self.out_base_dir)
-        if abs_file[:len(abs_out_base_dir)] == abs_out_base_dir:
+        if abs_file == abs_out_base_dir \
+           or abs_file.startswith(os.path.join(abs_out_base_dir, "")):
             return abs_file[len(abs_out_base_dir)+1:]
         else:
             return None
-- 
2.43.0


From a86f683282b28be3ce4ef060251907c43a623932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 06/41] fix: set items written past the end of the snapshot
 were judged OK

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 6dbe723..30aa0fd 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -781,7 +781,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From b5a69ccca24df5e095243f8a98a7db8e93ef8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/41] fix: directories and snapshots with spaces or shell
 characters in their paths were not created, removed or printed

---
 booktest/runs.py        | 5 +++--
 booktest/testcaserun.py | 4 ++--
 booktest/testrun.py     | 2 +-
 booktest/tests.py       | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..22c0f45 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -310,7 +311,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 30aa0fd..1835345 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -56,7 +56,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..284d69a 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -122,7 +122,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..ebeb790 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -456,7 +456,8 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    with open(file, "r") as f:
+                        print(f.read(), end="")
             return 0
         elif cmd == '--path':
             for name in todo:
-- 
2.43.0


From cf1de8ca03fbb624640f9e27d71525851e38c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 08/41] fix: accepting a case again destroyed its companion
 files and crashed

---
 booktest/review.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..a463ca4 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -116,7 +116,11 @@ def case_review(exp_dir, out_dir, case_name, test_result, config):
     auto_update = config.get("update", False)
     auto_freeze = config.get("accept", False)
 
-    if (interaction == UserRequest.FREEZE or
+    # once accepted, the output has been moved and there is nothing to accept
+    has_output = path.exists(os.path.join(out_dir, case_name + ".md"))
+
+    if has_output and \
+       (interaction == UserRequest.FREEZE or
        (rv == TestResult.OK and auto_update) or
        (rv == TestResult.DIFF and auto_freeze)):
         freeze_case(exp_dir, out_dir, case_name)
-- 
2.43.0


From a373623b83fd11851af4abbc1b1f704ecbdf843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 09/41] fix: a dependent of a stored result hung with NoCache
 and got None when the cache dropped the value

---
 booktest/cache.py   |  3 +++
 booktest/testrun.py | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 284d69a..4f4a5d2 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -61,17 +61,20 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path not in self.cache:
-                    if path.exists(bin_path):
-                        with open(bin_path, 'rb') as file:
-                            rv = pickle.load(file)
-                            self.cache[bin_path] = rv
-                    else:
-                        raise Exception(
-                            f"case {case.name} dependency {t[0]}" +
-                            f" missing in '{bin_path}'")
-
-                return True, self.cache[bin_path]
+                if bin_path in self.cache:
+                    return True, self.cache[bin_path]
+
+                if path.exists(bin_path):
+                    with open(bin_path, 'rb') as file:
+                        rv = pickle.load(file)
+                        self.cache[bin_path] = rv
+                else:
+                    raise Exception(
+                        f"case {case.name} dependency {t[0]}" +
+                        f" missing in '{bin_path}'")
+
+                # the cache may not keep the value
+                return True, rv
 
         return False, None
 
-- 
2.43.0


From 96a0041153c93b7647900490e8e2a1680818044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 10/41] fix: a half-written result survived a crash, and a
 result that can't be stored ended the whole run

---
 booktest/testrun.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 4f4a5d2..1b2c01e 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -78,25 +78,37 @@ class TestRun:
 
         return False, None
 
-    def save_test_result(self, case_path, result):
+    def save_test_result(self, case_path, result, dump=None):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
         if result is None:
             if path.exists(bin_path):
                 os.remove(bin_path)
         else:
-            with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
+            if dump is None:
+                dump = pickle.dumps(result)
+
+            # replace the old result at once, so that an interruption
+            # can't leave a half-written result behind
+            tmp_path = bin_path + ".tmp"
+            with open(tmp_path, 'wb') as file:
+                file.write(dump)
+            os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
         t = TestCaseRun(self, case_path, self.config, self.output)
         t.start(title)
+        dump = None
         try:
             if inspect.iscoroutinefunction(case):
                 rv = await case(t)
             else:
                 rv = case(t)
+
+            # a result, which can't be stored, fails the test
+            if rv is not None:
+                dump = pickle.dumps(rv)
         except Exception as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
@@ -105,7 +117,7 @@ class TestRun:
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            self.save_test_result(case_path, rv, dump)
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From befd28b19f4984d1cdcfd6a71752093cd44202b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 11/41] fix: a worker that delivered no result crashed or hung
 the parallel run

---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index 22c0f45..f178a38 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -76,6 +76,7 @@ class RunBatch:
                 "output.txt")
 
         output = open(output_file, "w")
+        rv = test_result_to_exit_code(TestResult.FAIL)
 
         try:
             run = TestRun(
@@ -228,9 +229,11 @@ class ParallelRunner:
             for i in done_tasks:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
+                # the report is missing or empty, if the worker failed
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                cases = CaseReports.of_file(report_file).cases
+                if len(cases) > 0:
+                    reports.append(cases[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From 34e649811b4eb288ef9160f00597533fa333d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 12/41] fix: failures recorded after an abort of a parallel run
 did not change the exit status

---
 booktest/runs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index f178a38..988c9ca 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -383,6 +383,10 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+
+                    if result != TestResult.OK:
+                        exit_code = -1
+
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From 1f1855fceb444285a17739ef1901a6333a4838cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 13/41] fix: environment mocks leaked or crashed on null
 values, missing snapshots and variables the test removed

---
 booktest/env.py | 89 +++++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 40 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..512268d 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -6,6 +6,14 @@ import json
 from booktest.coroutines import maybe_async_call
 
 
+def restore_env(old_env: dict):
+    for name, value in old_env.items():
+        if value is None:
+            os.environ.pop(name, None)
+        else:
+            os.environ[name] = value
+
+
 class SnapshotEnv:
 
     def __init__(self,
@@ -34,29 +42,29 @@ class SnapshotEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name in self.names:
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
-            if name in self.snaphots:
-                value = self.snaphots[name]
-                if value is None:
-                    del os.environ[name]
+        try:
+            for name in self.names:
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
+                if name in self.snaphots:
+                    value = self.snaphots[name]
+                    if value is None:
+                        os.environ.pop(name, None)
+                    else:
+                        os.environ[name] = self.snaphots[name]
+                    self.capture[name] = value
+                elif self.complete_snapshots or self.refresh_snapshots:
+                    self.capture[name] = old_value
                 else:
-                    os.environ[name] = self.snaphots[name]
-                self.capture[name] = value
-            elif self.complete_snapshots or self.refresh_snapshots:
-                self.capture[name] = old_value
-            else:
-                raise Exception(
-                    f"missing env snapshot '{name}'. "
-                    "try running booktest with '-s' flag to capture the missing snapshot")
+                    raise Exception(
+                        f"missing env snapshot '{name}'. "
+                        "try running booktest with '-s' flag to capture the missing snapshot")
+        except Exception:
+            restore_env(self._old_env)
+            raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
@@ -110,22 +118,19 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
+                if self._do_mock and old_value is None and value is not None:
                     os.environ[name] = value
+        except Exception:
+            restore_env(self._old_env)
+            raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
     def __enter__(self):
         self.start()
@@ -162,15 +167,19 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = value
+                if value is None:
+                    if name in os.environ:
+                        del os.environ[name]
+                else:
+                    os.environ[name] = value
+        except Exception:
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
-- 
2.43.0


From 8b13245a90545f595956eafd23dda47cc06bac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 14/41] fix: the configuration file in the home directory was
 never read

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From a7b50ac90c16bd42c63c55c968cac4c711f1aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 15/41] fix: settings of one run leaked into later runs of the
 same process

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index ebeb790..c2d6bbb 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,8 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        # the defaults are shared, so settings of this run go to a copy
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From e4b10c5996d7264b5777f0ffdec6512a2b98f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 16/41] fix: a dependency on an inherited method of another
 instance was not run before its dependent

---
 booktest/tests.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/tests.py b/booktest/tests.py
index c2d6bbb..3a3b78c 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -76,6 +76,9 @@ class Tests:
             for dependency in method._dependencies:
                 bound_method = bind_dependent_method_if_unbound(method, dependency)
                 case = self.case_by_method(bound_method)
+                if case is None:
+                    # the instance may inherit a method, which it has no case for
+                    case = self.case_by_method(dependency)
                 if case is not None:
                     if self.is_selected(case, selection) or \
                        cache_out_dir is None or \
-- 
2.43.0


From e13825661689da2141d03dcb1a93b7016e06e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 17/41] fix: dependencies on functions of decorated suites were
 not found

---
 booktest/testrun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 1b2c01e..a0da3ee 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -28,6 +28,9 @@ def method_identity(method):
 def match_method(matcher, method):
     matcher_self, matcher_func = method_identity(matcher)
     method_self, method_func = method_identity(method)
+    # the case may be the method with further decorations
+    while matcher_func != method_func and hasattr(method_func, "_original_function"):
+        method_func = method_func._original_function
     return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
 
 
-- 
2.43.0


From 144e3df50c44698efe50800f9b9715480d4080bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 18/41] fix: changing a value got from a snapshotted function
 changed its record

---
 booktest/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..841f1bc 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -135,7 +135,8 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                # the caller may change the value, the record must not change with it
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -145,7 +146,7 @@ class SnapshotFunctions:
 
         # remove old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
 
         return rv
 
-- 
2.43.0


From bfc842d68667a7d846a696677d8433e78766cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 19/41] fix: binary responses made replaying httpx snapshots
 fail

---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..2a5561c 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -137,7 +137,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From 849212abd8bfad2a919912d075106df9668a0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 20/41] fix: requests replay lost case of headers, redirects
 and streaming, and binary responses could not be captured

---
 booktest/requests.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..38a02a0 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -6,6 +6,7 @@ import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.structures import CaseInsensitiveDict
 import json
 import threading
 import sys
@@ -142,10 +143,14 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        if "contentBase64" in response_json:
+            response._content = base64.b64decode(response_json["contentBase64"])
+        else:
+            response._content = response_json["content"].encode()
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -156,11 +161,17 @@ class RequestSnapshot:
             "response": {
                 "headers": dict(self.response.headers),
                 "statusCode": self.response.status_code,
-                "encoding": self.response.encoding,
-                "content": self.response.content.decode()
+                "encoding": self.response.encoding
             }
         }
 
+        content = self.response.content or b""
+        try:
+            rv["response"]["content"] = content.decode()
+        except UnicodeDecodeError:
+            # not text
+            rv["response"]["contentBase64"] = base64.b64encode(content).decode("ascii")
+
         return rv
 
     def hash(self):
@@ -205,7 +216,11 @@ class SnapshotAdapter(adapters.BaseAdapter):
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
-                return key, snapshot.response
+                rv = snapshot.response
+                # like the real adapter does, e.g. redirects depend on these
+                rv.url = request.url
+                rv.request = request
+                return key, rv
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
-- 
2.43.0


From 95f7abf45d067fbbb3eca1e6c30988cefff51719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 21/41] fix: ending an inner function mock removed the outer
 mock or snapshot of the same function

---
 booktest/functions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 841f1bc..0ec1061 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -88,6 +88,7 @@ class FunctionSnapshotter:
     def __init__(self, t: TestCaseRun, func):
         self.t = t
         self.func = func
+        self.previous = func
 
     def __call__(self, *args, **kwargs):
         return self.t.snapshot(self.func, *args, **kwargs)
@@ -103,7 +104,10 @@ def set_function(func, value):
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
+    previous = getattr(target, name, func)
     setattr(target, name, value)
+    # what to restore, it may be e.g. the mock of an outer context
+    return previous
 
 
 class SnapshotFunctions:
@@ -166,7 +170,7 @@ class SnapshotFunctions:
 
         for func in self.snapshot_funcs:
             snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
+            snapshotter.previous = set_function(func, snapshotter)
             snapshotters.append(snapshotter)
 
         self.snapshots = snapshots
@@ -174,9 +178,8 @@ class SnapshotFunctions:
         self.snapshotters = snapshotters
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        for snapshotter in reversed(self.snapshotters):
+            set_function(snapshotter.func, snapshotter.previous)
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -242,14 +245,13 @@ class MockFunctions:
         original_funcs = []
 
         for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+            original_funcs.append((func, set_function(func, mock)))
 
         self._original_funcs = original_funcs
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
+        for func, previous in reversed(self._original_funcs):
+            set_function(func, previous)
 
         self._original_funcs = None
 
-- 
2.43.0


From 44a868df44ba92186efafbeba3d86bd339e379fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 22/41] fix: an interrupted test left standard error and log
 handlers redirected

---
 booktest/testrun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index a0da3ee..130e5e2 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -116,6 +116,10 @@ class TestRun:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
+        except BaseException:
+            # e.g. an interruption ends the run, but not always the process
+            t.close()
+            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From 8f15eafcd34ff87f1e8f4140721abdc3d3ddd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:11 +0000
Subject: [PATCH 23/41] fix: a table cell could shrink or vanish unnoticed, and
 repeated index values and column names that aren't text broke tables

---
 booktest/testcaserun.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 1835345..4eafb69 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -717,9 +717,12 @@ s
 
         NOTE: df should be of pd.DataFrame or compatible type
         """
+        # the same index value may appear on several rows
+        df = df.reset_index(drop=True)
+
         pads = []
         for column in df.columns:
-            max_len = len(column)
+            max_len = len(str(column))
             for i in df.index:
                 max_len = max(max_len, len(str(df[column][i])))
             pads.append(max_len)
@@ -727,7 +730,7 @@ s
         buf = ""
         buf += "|"
         for i, column in enumerate(df.columns):
-            buf += column.ljust(pads[i])
+            buf += str(column).ljust(pads[i])
             buf += "|"
         self.iln(buf)
         buf = "|"
@@ -744,7 +747,15 @@ s
                           .strip()
 
                 self.t(buf)
-                self.i(" " * (pads[j]-len(buf)))
+
+                # the padding is informational, but it must not pass for
+                # the text of a cell in the snapshot
+                pad = " " * (pads[j]-len(buf))
+                exp = self.head_exp_token()
+                if exp is None or exp.isspace():
+                    self.i(pad)
+                else:
+                    self.t(pad)
 
                 self.t("|")
             self.tln()
-- 
2.43.0


From b399526ce5ccdd0ee23c9ac19ca47a939882ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:15 +0000
Subject: [PATCH 24/41] fix: dependents of a test that returns nothing failed
 when continuing and in parallel runs

---
 booktest/testrun.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 130e5e2..06ec2dc 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -84,19 +84,17 @@ class TestRun:
     def save_test_result(self, case_path, result, dump=None):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            if dump is None:
-                dump = pickle.dumps(result)
-
-            # replace the old result at once, so that an interruption
-            # can't leave a half-written result behind
-            tmp_path = bin_path + ".tmp"
-            with open(tmp_path, 'wb') as file:
-                file.write(dump)
-            os.replace(tmp_path, bin_path)
+        # None is stored, too. Later runs can't otherwise know that
+        # the dependency has been run
+        if dump is None:
+            dump = pickle.dumps(result)
+
+        # replace the old result at once, so that an interruption
+        # can't leave a half-written result behind
+        tmp_path = bin_path + ".tmp"
+        with open(tmp_path, 'wb') as file:
+            file.write(dump)
+        os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
@@ -110,8 +108,7 @@ class TestRun:
                 rv = case(t)
 
             # a result, which can't be stored, fails the test
-            if rv is not None:
-                dump = pickle.dumps(rv)
+            dump = pickle.dumps(rv)
         except Exception as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
@@ -123,7 +120,7 @@ class TestRun:
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-            # if the test case return a value, store it in a cache
+            # store the value for the test cases depending on this one
             self.save_test_result(case_path, rv, dump)
 
         return result, interaction, t.took_ms
-- 
2.43.0


From 9ab822c27751e65d1831ad299517b644a4c4f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:14 +0000
Subject: [PATCH 25/41] fix: file names with spaces or shell characters broke
 viewers and diff tools

---
 booktest/review.py | 19 +++++++++++--------
 booktest/tests.py  |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index a463ca4..c7d0d27 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,5 +1,6 @@
 import os.path as path
 import os
+import shlex
 import shutil
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
@@ -13,10 +14,12 @@ from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, M
 BOOK_TEST_PREFIX = "BOOKTEST_"
 
 
-def run_tool(config, tool, args):
-    """ Run a tool used in reviews """
+def run_tool(config, tool, files):
+    """ Run a tool used in reviews on given files """
     cmd = config.get(tool, None)
     if cmd is not None:
+        # file names may contain spaces and shell characters
+        args = " ".join([shlex.quote(f) for f in files])
         return os.system(f"{cmd} {args}")
     else:
         print(f"{tool} is not defined.")
@@ -65,20 +68,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                files = [exp_file_name, out_file_name]
             else:
-                arg = out_file_name
-            run_tool(config, "md_viewer", arg)
+                files = [out_file_name]
+            run_tool(config, "md_viewer", files)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", [log_file_name])
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     [exp_file_name, out_file_name])
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     [exp_file_name, out_file_name])
     return rv, user_request
 
 
diff --git a/booktest/tests.py b/booktest/tests.py
index 3a3b78c..2317d7f 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -475,7 +475,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", files)
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From 8d3c6e66cc60936d0ba9fead3e31db941a3c00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:14 +0000
Subject: [PATCH 26/41] fix: cases like a/b and a.b shared a directory in
 parallel runs, so one's verdict was reported for both

---
 booktest/runs.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 988c9ca..218ca1c 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -60,20 +60,12 @@ class RunBatch:
         self.setup = setup
 
     def __call__(self, case):
-        path = case.split("/")
-        batch_name = ".".join(path)
-        batch_dir = \
-            os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name)
+        batch_dir, _ = \
+            case_batch_dir_and_report_file(
+                os.path.join(self.out_dir, ".batches"),
+                case)
 
-        output_file = \
-            os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name,
-                "output.txt")
+        output_file = os.path.join(batch_dir, "output.txt")
 
         output = open(output_file, "w")
         rv = test_result_to_exit_code(TestResult.FAIL)
@@ -101,7 +93,8 @@ class RunBatch:
 
 
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
+    # cases 'a/b' and 'a.b' must have different directories
+    path = name.replace("%", "%25").replace(".", "%2E").replace("/", ".")
     batch_dir = os.path.join(batches_dir, path)
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
-- 
2.43.0


From 71309cfe4c80712b7a854b2a0ecf68cc0ff7cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 27/41] fix: keep the custom hash when a repeated request gets
 its order number

---
 booktest/httpx.py    | 9 +++++++--
 booktest/requests.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2a5561c..f679858 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -57,13 +57,18 @@ class RequestKey:
 
         self.json_object = json_object
         self.hash = hash_code
+        self.json_to_hash = json_to_hash
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
-        del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is json_to_sha1:
+            del json_object["hash"]
+        else:
+            # custom hash decides, which requests are equal
+            json_object["hash"] = json_to_sha1({"hash": self.hash, "order": json_object["order"]})
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 38a02a0..28e772d 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -68,13 +68,18 @@ class RequestKey:
 
         self.json_object = json_object
         self.hash = hash_code
+        self.json_to_hash = json_to_hash
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
-        del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is json_to_sha1:
+            del json_object["hash"]
+        else:
+            # custom hash decides, which requests are equal
+            json_object["hash"] = json_to_sha1({"hash": self.hash, "order": json_object["order"]})
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 1b06781db897a3514a770cfbe9999a35d02ee15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 28/41] fix: review also works when the run was interrupted
 before storing its metrics

---
 booktest/reports.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index f4d97bb..021b45d 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -87,7 +87,11 @@ class Metrics:
 
     @staticmethod
     def of_dir(dir):
-        return Metrics.of_file(os.path.join(dir, "metrics.json"))
+        try:
+            return Metrics.of_file(os.path.join(dir, "metrics.json"))
+        except (FileNotFoundError, ValueError):
+            # the run was interrupted before it stored its metrics
+            return Metrics(0)
 
 
 class CaseReports:
-- 
2.43.0


From 92281207f5bd4be72c7129efcc94d4f60d6ac757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:28 +0000
Subject: [PATCH 29/41] fix: anchors within a line are not sought, so that
 accepted output passes

---
 booktest/testcaserun.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 4eafb69..d247e4e 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -575,7 +575,9 @@ s
         This method is used for controlling the snapshot cursor location and guaranteeing
         that a section in test is compared against correct section in the snapshot
         """
-        self.seek_prefix(anchor)
+        if self.out_line == "":
+            # the anchor is sought in the beginnings of lines
+            self.seek_prefix(anchor)
         self.t(anchor)
         return self
 
@@ -587,7 +589,8 @@ s
         This method is used for controlling the snapshot cursor location and guaranteeing
         that a section in test is compared against correct section in the snapshot
         """
-        self.seek_line(anchor)
+        if self.out_line == "":
+            self.seek_line(anchor)
         self.tln(anchor)
         return self
 
-- 
2.43.0


From 8754099fa380f74a898ad9fa47e9b6377132c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:49 +0000
Subject: [PATCH 30/41] fix: streamed httpx responses and asynchronous request
 bodies can be captured

---
 booktest/httpx.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index f679858..be15f9f 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -1,7 +1,9 @@
 import contextlib
+import datetime
 import functools
 import hashlib
 import os
+import time
 import types
 from base64 import encode
 
@@ -147,6 +149,7 @@ class RequestSnapshot:
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
                                   content=content)
+        response.elapsed = datetime.timedelta(0)
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -254,16 +257,27 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
+            started = time.perf_counter()
             rv = self._real_handle_request(transport, request)
+            # the test may stream the response and leave it unread
+            rv.read()
+            rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
+        # the body can be an asynchronous stream
+        await request.aread()
+
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
+            started = time.perf_counter()
             rv = await self._real_handle_async_request(transport, request)
+            # the test may stream the response and leave it unread
+            await rv.aread()
+            rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From dc957550a296a8b0cff743ce58a1b426d8d58a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:25 +0000
Subject: [PATCH 31/41] fix: replayed http responses have the recorded cookies,
 reason and an elapsed time

---
 booktest/httpx.py    | 21 +++++++++++++++++++--
 booktest/requests.py | 26 ++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index be15f9f..7dead59 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -146,9 +146,18 @@ class RequestSnapshot:
 
         content = base64.b64decode(response_json["content"].encode("ascii"))
 
+        headers = [(key, value) for key, value in response_json["headers"].items()
+                   if key != "set-cookie" or "setCookie" not in response_json]
+        headers += [("set-cookie", cookie) for cookie in response_json.get("setCookie", [])]
+
+        extensions = {}
+        if "reason" in response_json:
+            extensions["reason_phrase"] = response_json["reason"].encode("ascii", errors="ignore")
+
         response = httpx.Response(response_json["statusCode"],
-                                  headers=response_json["headers"],
-                                  content=content)
+                                  headers=headers,
+                                  content=content,
+                                  extensions=extensions)
         response.elapsed = datetime.timedelta(0)
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
@@ -171,6 +180,14 @@ class RequestSnapshot:
             }
         }
 
+        if self.response.reason_phrase != httpx.codes.get_reason_phrase(self.response.status_code):
+            rv["response"]["reason"] = self.response.reason_phrase
+
+        # several cookies can't be told apart in one joined header
+        cookies = self.response.headers.get_list("set-cookie")
+        if len(cookies) > 1:
+            rv["response"]["setCookie"] = cookies
+
         return rv
 
     def hash(self):
diff --git a/booktest/requests.py b/booktest/requests.py
index 28e772d..47d80e0 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -1,11 +1,15 @@
 import contextlib
+import datetime
+import email.message
 import functools
 import hashlib
+import http.client
 import os
 import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.cookies import extract_cookies_to_jar
 from requests.structures import CaseInsensitiveDict
 import json
 import threading
@@ -34,6 +38,10 @@ def default_encode_body(body, _url, _method):
             raise ValueError(f"unexpected body {body} of type {type(body)}")
 
 
+def standard_reason(status_code):
+    return http.client.responses.get(status_code)
+
+
 class RequestKey:
 
     def __init__(self,
@@ -156,6 +164,13 @@ class RequestSnapshot:
         else:
             response._content = response_json["content"].encode()
         response._content_consumed = True
+        response.reason = response_json.get("reason", standard_reason(response.status_code))
+        response.elapsed = datetime.timedelta(0)
+        # requests reads cookies from the underlying response
+        message = email.message.Message()
+        for cookie in response_json.get("setCookie") or [v for k, v in response.headers.items() if k.lower() == "set-cookie"]:
+            message["Set-Cookie"] = cookie
+        response.raw = types.SimpleNamespace(_original_response=types.SimpleNamespace(msg=message))
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -170,6 +185,16 @@ class RequestSnapshot:
             }
         }
 
+        if self.response.reason != standard_reason(self.response.status_code):
+            rv["response"]["reason"] = self.response.reason
+
+        original = getattr(self.response.raw, "_original_response", None)
+        if original is not None:
+            # several cookies can't be told apart in one joined header
+            cookies = original.msg.get_all("Set-Cookie")
+            if cookies is not None and len(cookies) > 1:
+                rv["response"]["setCookie"] = cookies
+
         content = self.response.content or b""
         try:
             rv["response"]["content"] = content.decode()
@@ -225,6 +250,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
                 # like the real adapter does, e.g. redirects depend on these
                 rv.url = request.url
                 rv.request = request
+                extract_cookies_to_jar(rv.cookies, request, rv.raw)
                 return key, rv
 
         if not self.capture_snapshots:
-- 
2.43.0


From 737e3f174a8e5ffb3f80627b180fb8db8699e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:34 +0000
Subject: [PATCH 32/41] fix: identical httpx requests made concurrently each
 keep their recorded answer

---
 booktest/httpx.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 7dead59..b042d38 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -270,16 +270,28 @@ class SnapshotHttpx:
 
         return key, None
 
+    @contextlib.contextmanager
+    def capturing(self, key: RequestKey):
+        # same request may be sent again before this has been answered
+        snapshot = RequestSnapshot(key, None)
+        self.requests.append(snapshot)
+        try:
+            yield snapshot
+        except BaseException:
+            self.requests.remove(snapshot)
+            raise
+
     def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            started = time.perf_counter()
-            rv = self._real_handle_request(transport, request)
-            # the test may stream the response and leave it unread
-            rv.read()
-            rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
-            self.requests.append(RequestSnapshot(key, rv))
+            with self.capturing(key) as snapshot:
+                started = time.perf_counter()
+                rv = self._real_handle_request(transport, request)
+                # the test may stream the response and leave it unread
+                rv.read()
+                rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
+                snapshot.response = rv
 
         return rv
 
@@ -290,12 +302,13 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            started = time.perf_counter()
-            rv = await self._real_handle_async_request(transport, request)
-            # the test may stream the response and leave it unread
-            await rv.aread()
-            rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
-            self.requests.append(RequestSnapshot(key, rv))
+            with self.capturing(key) as snapshot:
+                started = time.perf_counter()
+                rv = await self._real_handle_async_request(transport, request)
+                # the test may stream the response and leave it unread
+                await rv.aread()
+                rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
+                snapshot.response = rv
 
         return rv
 
-- 
2.43.0


From f3caf793aecdb48f4f0ae7449773bb9dcb68ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:11 +0000
Subject: [PATCH 33/41] fix: -L shows the case's whole name after its logs

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index d247e4e..ec2ea56 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -241,7 +241,7 @@ s
         else:
             rv = TestResult.OK
 
-        maybe_print_logs(self.print, self.config, self.out_base_dir, self.name)
+        maybe_print_logs(self.print, self.config, self.run.out_dir, self.test_path)
 
         report_case_result(
             self.print,
-- 
2.43.0


From 4807d8e17b787113f78f56141dfd018fbe27edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:00 +0000
Subject: [PATCH 34/41] fix: streamed responses of requests can be captured,
 and capturing keeps timeout and verification

---
 booktest/requests.py | 57 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 47d80e0..d421f94 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -4,10 +4,12 @@ import email.message
 import functools
 import hashlib
 import http.client
+import io
 import os
 import types
 import booktest as bt
 import requests
+import urllib3
 from requests import adapters
 from requests.cookies import extract_cookies_to_jar
 from requests.structures import CaseInsensitiveDict
@@ -42,6 +44,38 @@ def standard_reason(status_code):
     return http.client.responses.get(status_code)
 
 
+class OriginalResponse:
+    """ The part of the underlying http response, where requests reads cookies """
+
+    def __init__(self, cookies):
+        self.msg = email.message.Message()
+        for cookie in cookies:
+            self.msg["Set-Cookie"] = cookie
+
+    def isclosed(self):
+        return True
+
+    def close(self):
+        pass
+
+
+def buffer_raw(response, cookies):
+    """ Makes the already read content readable also through response.raw """
+    headers = {k: v for k, v in response.headers.items()
+               if k.lower() not in ("content-encoding", "content-length", "transfer-encoding")}
+    response.raw = urllib3.HTTPResponse(body=io.BytesIO(response.content or b""),
+                                        headers=headers,
+                                        status=response.status_code,
+                                        reason=response.reason,
+                                        preload_content=False,
+                                        original_response=OriginalResponse(cookies))
+
+
+def set_cookies(response):
+    original = getattr(response.raw, "_original_response", None)
+    return (original is not None and original.msg.get_all("Set-Cookie")) or []
+
+
 class RequestKey:
 
     def __init__(self,
@@ -166,11 +200,10 @@ class RequestSnapshot:
         response._content_consumed = True
         response.reason = response_json.get("reason", standard_reason(response.status_code))
         response.elapsed = datetime.timedelta(0)
-        # requests reads cookies from the underlying response
-        message = email.message.Message()
-        for cookie in response_json.get("setCookie") or [v for k, v in response.headers.items() if k.lower() == "set-cookie"]:
-            message["Set-Cookie"] = cookie
-        response.raw = types.SimpleNamespace(_original_response=types.SimpleNamespace(msg=message))
+        cookies = response_json.get("setCookie")
+        if cookies is None:
+            cookies = [v for k, v in response.headers.items() if k.lower() == "set-cookie"]
+        buffer_raw(response, cookies)
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -188,12 +221,10 @@ class RequestSnapshot:
         if self.response.reason != standard_reason(self.response.status_code):
             rv["response"]["reason"] = self.response.reason
 
-        original = getattr(self.response.raw, "_original_response", None)
-        if original is not None:
-            # several cookies can't be told apart in one joined header
-            cookies = original.msg.get_all("Set-Cookie")
-            if cookies is not None and len(cookies) > 1:
-                rv["response"]["setCookie"] = cookies
+        # several cookies can't be told apart in one joined header
+        cookies = set_cookies(self.response)
+        if len(cookies) > 1:
+            rv["response"]["setCookie"] = cookies
 
         content = self.response.content or b""
         try:
@@ -263,7 +294,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            rv = adapters.HTTPAdapter().send(request, **kwargs)
+            # the test may stream the response, and do that only partly
+            buffer_raw(rv, set_cookies(rv))
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From 90b20bb3afe3872d4fd329d04c77706e150bf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:05 +0000
Subject: [PATCH 35/41] fix: test_paths like . and ./tests work

---
 booktest/detection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..18014be 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -34,7 +34,7 @@ class BookTestSetup:
 
 
 def parse_booktest_setup(root, f):
-    module_name = os.path.join(root, f[:len(f) - 3]).replace("/", ".")
+    module_name = os.path.normpath(os.path.join(root, f[:len(f) - 3])).replace("/", ".")
     module = importlib.import_module(module_name)
 
     setup_teardown = None
@@ -60,8 +60,8 @@ def parse_booktest_setup(root, f):
 
 def parse_test_file(root, f):
     rv = []
-    test_suite_name = os.path.join(root, clean_test_postfix(f[:len(f) - 3]))
-    module_name = os.path.join(root, f[:len(f) - 3]).replace("/", ".")
+    test_suite_name = os.path.normpath(os.path.join(root, clean_test_postfix(f[:len(f) - 3])))
+    module_name = os.path.normpath(os.path.join(root, f[:len(f) - 3])).replace("/", ".")
     module = importlib.import_module(module_name)
     test_cases = []
     for name in dir(module):
-- 
2.43.0


From 1a2bf1e7d128cc464d7cf98a93c054aa8b6714a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:12 +0000
Subject: [PATCH 36/41] fix: detected tests do not depend on the order in which
 the file system lists files

---
 booktest/detection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index 18014be..207b326 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -101,7 +101,9 @@ def detect_setup(path):
     setup = None
     if os.path.exists(path):
         for root, dirs, files in os.walk(path):
-            for f in files:
+            # file systems list names in different orders
+            dirs.sort()
+            for f in sorted(files):
                 if f == BOOKTEST_SETUP_FILENAME:
                     setup = parse_booktest_setup(root, f)
 
@@ -112,7 +114,9 @@ def detect_tests(path):
     tests = []
     if os.path.exists(path):
         for root, dirs, files in os.walk(path):
-            for f in files:
+            # file systems list names in different orders
+            dirs.sort()
+            for f in sorted(files):
                 if f.endswith("_test.py") or f.endswith("_book.py") or f.endswith("_suite.py") or \
                    (f.startswith("test_") and f.endswith(".py")):
                     tests.extend(parse_test_file(root, f))
-- 
2.43.0


From e98c7e9337e12229e3c6db6964ea3f891cd50b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:59 +0000
Subject: [PATCH 37/41] fix: --setup keeps the settings it does not ask for

---
 booktest/setup.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/booktest/setup.py b/booktest/setup.py
index 85ac122..327cdae 100644
--- a/booktest/setup.py
+++ b/booktest/setup.py
@@ -1,3 +1,5 @@
+import os
+
 from booktest.config import get_default_config
 
 
@@ -105,10 +107,22 @@ def setup_booktest():
     configs.append(prompt_config("default_tests", config))
     configs.append(prompt_config("books_path", config))
 
+    # settings, that were not asked for, are kept
+    kept = []
+    if os.path.exists(".booktest"):
+        with open(".booktest") as f:
+            for line in f:
+                if line.startswith('#') or not line.strip():
+                    continue
+                if line.strip().split('=', 1)[0] not in config_comments:
+                    kept.append(line.strip())
+
     with open(".booktest", "w") as f:
         for key, value in configs:
             f.write(config_comments[key])
             f.write(f"{key}={value}\n\n")
+        for line in kept:
+            f.write(f"{line}\n")
     print("updated .booktest")
 
     return 0
-- 
2.43.0


From 8d8648cb3e9478dc28416671af6b640a0a3ac557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 38/41] fix: data frames with columns of the same name can be
 printed

---
 booktest/testcaserun.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index ec2ea56..7ff78bf 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -720,14 +720,15 @@ s
 
         NOTE: df should be of pd.DataFrame or compatible type
         """
-        # the same index value may appear on several rows
+        # the same index value may appear on several rows, and
+        # the same name on several columns, so cells go by position
         df = df.reset_index(drop=True)
 
         pads = []
-        for column in df.columns:
+        for j, column in enumerate(df.columns):
             max_len = len(str(column))
             for i in df.index:
-                max_len = max(max_len, len(str(df[column][i])))
+                max_len = max(max_len, len(str(df.iat[i, j])))
             pads.append(max_len)
 
         buf = ""
@@ -744,7 +745,7 @@ s
         for i in df.index:
             self.t("|")
             for j, column in enumerate(df.columns):
-                buf = str(df[column][i])\
+                buf = str(df.iat[i, j])\
                           .replace("\r", " ")\
                           .replace("\n", " ")\
                           .strip()
-- 
2.43.0


From f2a92e6b258ffce31f7a72404b2e51d63728ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:43 +0000
Subject: [PATCH 39/41] fix: text that can't be written fails the test instead
 of ending the run

---
 booktest/testcaserun.py | 16 ++++++++++++++++
 booktest/testrun.py     |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 7ff78bf..c41eb31 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -509,6 +509,10 @@ s
         to the test stream.
         """
 
+        # text, which can't be written, must raise already here in the test,
+        # where the error fails the test and doesn't end the whole run
+        token.encode(self.out.encoding)
+
         exp_token = self.next_exp_token()
         self.last_checked = check
         if self.exp_file_exists \
@@ -521,6 +525,18 @@ s
             self.out_line = self.out_line + token
         return self
 
+    def printable(self, value):
+        """
+        Internal method. Returns the value as a text, that can always be written
+        in the test output.
+        """
+        try:
+            text = str(value)
+        except Exception:
+            text = type(value).__name__
+        encoding = self.out.encoding
+        return text.encode(encoding, "backslashreplace").decode(encoding)
+
     def test_feed_token(self, token):
         """
         Feeds a token into test stream. The token will be compared to the next
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 06ec2dc..de89154 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -110,8 +110,8 @@ class TestRun:
             # a result, which can't be stored, fails the test
             dump = pickle.dumps(rv)
         except Exception as e:
-            t.iln().fail().iln(f"test raised exception {e}:")
-            t.iln(traceback.format_exc())
+            t.iln().fail().iln(f"test raised exception {t.printable(e)}:")
+            t.iln(t.printable(traceback.format_exc()))
             rv = None
         except BaseException:
             # e.g. an interruption ends the run, but not always the process
-- 
2.43.0


From 7a0d3a9f756f429468838410c8ed29408765c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:23 +0000
Subject: [PATCH 40/41] fix: repeated calls keep their order in the list of
 function snapshots

---
 booktest/functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 0ec1061..8df7389 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -148,9 +148,13 @@ class SnapshotFunctions:
 
         rv = func(*args, **kwargs)
 
-        # remove old version, it may have been timeout
-        self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
+        # replace old version, it may have been timeout. the call keeps its
+        # place, so that the calls are listed in the same order in replay
+        snapshot = FunctionCallSnapshot(call, copy.deepcopy(rv))
+        if snapshot in self.calls:
+            self.calls[self.calls.index(snapshot)] = snapshot
+        else:
+            self.calls.append(snapshot)
 
         return rv
 
-- 
2.43.0


From 0959bacadc56a8ed8a2380f3f8c74099316c0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:02 +0000
Subject: [PATCH 41/41] fix: a test that changes a response does not change its
 record

---
 booktest/httpx.py    | 11 ++++++++---
 booktest/requests.py |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index b042d38..7202769 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -138,6 +138,11 @@ class RequestSnapshot:
     def match(self, request: RequestKey):
         return self.request == request
 
+    def copy(self):
+        # the test may change its response, the record must not change with it
+        return RequestSnapshot(self.request,
+                               RequestSnapshot.from_json_object(self.json_object(False)).response)
+
     @staticmethod
     def from_json_object(json_object,
                          ignore_headers=True,
@@ -262,7 +267,7 @@ class SnapshotHttpx:
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
-                return key, snapshot.response
+                return key, snapshot.copy().response
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
@@ -291,7 +296,7 @@ class SnapshotHttpx:
                 # the test may stream the response and leave it unread
                 rv.read()
                 rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
-                snapshot.response = rv
+                snapshot.response = RequestSnapshot(key, rv).copy().response
 
         return rv
 
@@ -308,7 +313,7 @@ class SnapshotHttpx:
                 # the test may stream the response and leave it unread
                 await rv.aread()
                 rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - started)
-                snapshot.response = rv
+                snapshot.response = RequestSnapshot(key, rv).copy().response
 
         return rv
 
diff --git a/booktest/requests.py b/booktest/requests.py
index d421f94..ef4fcc4 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -185,6 +185,11 @@ class RequestSnapshot:
     def match(self, request: RequestKey):
         return self.request == request
 
+    def copy(self):
+        # the test may change its response, the record must not change with it
+        return RequestSnapshot(self.request,
+                               RequestSnapshot.from_json_object(self.json_object(False)).response)
+
     @staticmethod
     def from_json_object(json_object, ignore_headers=True, json_to_hash=None):
         response_json = json_object["response"]
@@ -277,7 +282,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
-                rv = snapshot.response
+                rv = snapshot.copy().response
                 # like the real adapter does, e.g. redirects depend on these
                 rv.url = request.url
                 rv.request = request
@@ -297,7 +302,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
             rv = adapters.HTTPAdapter().send(request, **kwargs)
             # the test may stream the response, and do that only partly
             buffer_raw(rv, set_cookies(rv))
-            self.requests.append(RequestSnapshot(key, rv))
+            self.requests.append(RequestSnapshot(key, rv).copy())
 
         return rv
 
-- 
2.43.0

