MUTANTS = [
 ("C10", "failfast-diff", "testrun.py", "self.fail_fast and fails > 0", "self.fail_fast and res == TestResult.FAIL"),
 ("C10", "ok-after-fail", "testrun.py", "if rv != TestResult.FAIL:\n                        rv = res", "rv = TestResult.OK if len(passed) > 2 else res"),
 ("C10", "record-dup", "testrun.py", "if i[0] not in todo:", "if i[0] not in todo or i[1] == TestResult.FAIL:"),
 ("C10", "abort-before-record", "testrun.py", "if request == UserRequest.ABORT or", "if (request == UserRequest.ABORT and res != TestResult.OK) or"),
 ("C11", "component", "tests.py", "or len(test_name) == len(s)\n                     or test_name[len(s)] == '/')):\n                    return True", "or True)):\n                    return True"),
 ("C11", "skip-component", "tests.py", "or test_name[len(s)] == '/')):\n                    return False", "or test_name[len(s)] in '/_b')):\n                    return False"),
 ("C12", "dep-order", "tests.py", "            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))\n            rv.append(dependency)", "            rv.append(dependency)\n            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))"),
 ("C12", "dep-no-recursion", "tests.py", "            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))\n", "            rv.extend(self.method_dependencies(m, selection, cache_out_dir))\n"),
 ("C13", "falsy", "testrun.py", "if result is None:", "if not result:"),
 ("C13", "stale-bin", "testrun.py", "os.remove(bin_path)", "pass"),
 ("C13", "instance", "testrun.py", "(matcher_self == method_self or matcher_self is None)", "(type(matcher_self) == type(method_self) or matcher_self is None)"),
 ("C13", "saved-on-fail", "testrun.py", "if result is TestResult.OK or result is TestResult.DIFF:", "if True:"),
 ("C14", "noflush", "reports.py", "        file_handle.flush()\n", ""),
 ("C14", "fail-done", "reports.py", "if len(record) > 0 and record[0][1] == TestResult.OK:", "if len(record) > 0 and record[-1][1] != TestResult.DIFF:"),
 ("C14", "append", "testrun.py", "with open(report_file, \"w\") as report_f:", "with open(report_file, \"a\") as report_f:"),
 ("C15", "resource-release", "runs.py", "self.reserved_resources -= self.resources[i]", "self.reserved_resources = set()"),
 ("C15", "plan-reserve", "runs.py", "                reserved_resources |= self.resources[name]\n\n", "\n"),
 ("C15", "dep-scheduled", "runs.py", "if dependency in self.todo and dependency not in self.done:", "if dependency in todo:"),
 ("C15", "lost-report", "runs.py", "            with self.lock:\n                self.left -= len(reports)\n                self.reports.extend(reports)", "            with self.lock:\n                self.left -= len(reports)\n                self.reports = reports"),
 ("C15", "left-race", "runs.py", "            with self.lock:\n                self.left -= len(reports)\n                self.reports.extend(reports)", "            with self.lock:\n                self.left -= len(reports)\n            with self.lock:\n                self.reports.extend(reports)"),
 ("C16", "exit", "runs.py", "                    if result != TestResult.OK:\n                        exit_code = -1\n\n                    record_case(\n", "                    record_case(\n"),
 ("C16", "result-not-reviewed", "runs.py", "                        reviewed_result,\n                        duration)\n\n            except", "                        result,\n                        duration)\n\n            except"),
 ("C16", "torn", "runs.py", "if len(cases) > 0:\n                    reports.append(cases[0])\n                else:\n                    reports.append", "if len(cases) > 0:\n                    reports.append(cases[0])\n                elif os.path.exists(report_file):\n                    reports.append(CaseReports.make_case(i, TestResult.OK, 0))\n                else:\n                    reports.append"),
]
