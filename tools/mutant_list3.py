"""More small changes: (properties that must notice, name, file, old, new)"""
REV, REP, TR, TS, RUNS, DEP, ENV, FUN, REQ, HX = ("review.py", "reports.py", "testrun.py", "tests.py", "runs.py", "dependencies.py", "env.py", "functions.py",
                                                  "requests.py", "httpx.py")
MUTANTS = [
 ("C09", "always-keep", REV, "    do_interact = always_interactive\n    if test_result != TestResult.OK:", "    do_interact = always_interactive and test_result != TestResult.FAIL\n    if test_result != TestResult.OK:"),
 ("C09", "accept-fail", REV, "if answer == \"a\" and test_result != TestResult.FAIL:", "if answer.startswith(\"a\"):"),
 ("C09", "accept-strip", REV, "if answer == \"a\" and", "if answer in \"a\" and"),
 ("C09", "rmtree-late", REV, "    if path.exists(exp_dir_name):\n        shutil.rmtree(exp_dir_name)\n    os.rename", "    if path.exists(exp_dir_name) and path.exists(out_dir_name):\n        shutil.rmtree(exp_dir_name)\n    os.rename"),
 ("C09", "freeze-copy", REV, "(rv == TestResult.OK and auto_update) or", "(rv == TestResult.OK and (auto_update or auto_freeze)) or"),
 ("C10", "took-zero", TR, "                CaseReports.write_case(\n                    report_f, case_name, res, duration)\n\n                # manage", "                if duration >= 0.001 or res != TestResult.OK:\n                    CaseReports.write_case(\n                        report_f, case_name, res, duration)\n\n                # manage"),
 ("C10", "end-report", REV, "printer(f\"{len(failed)}/{tests} test \"", "printer(f\"{len(failed)}/{max(tests, len(failed) + 1)} test \""),
 ("C11", "skip-order", TS, "        if negatives == len(selection):\n            return True", "        if negatives == len(selection) or negatives > 1:\n            return True"),
 ("C11", "star", TS, "if s == '*' or", "if s.startswith('*') or"),
 ("C12", "stored-check", TS, "return path.exists(self.test_result_path(out_dir, case_path))", "return path.exists(out_dir) and path.exists(path.join(out_dir, case_path + \".md\"))"),
 ("C12", "shared-dep", TS, "                    if dependency not in selected:\n                        selected.append(dependency)", "                    if dependency not in selected[-4:]:\n                        selected.append(dependency)"),
 ("C12", "refresh", TS, "        if config.get(\"refresh_sources\", False):\n            cache_out_dir = None", "        if config.get(\"refresh_sources\", False) and not parsed.c:\n            cache_out_dir = None"),
 ("C13", "cache-first", TR, "                if bin_path in self.cache:\n                    return True, self.cache[bin_path]", "                if bin_path in self.cache and path.exists(bin_path + '.tmp') is False:\n                    return True, self.cache[bin_path]"),
 ("C13", "diff-not-saved", TR, "if result is TestResult.OK or result is TestResult.DIFF:", "if result is TestResult.OK or (result is TestResult.DIFF and interaction != UserRequest.ABORT):"),
 ("C13", "none-not-cached", TR, "        self.cache[bin_path] = result\n", "        if result is not None:\n            self.cache[bin_path] = result\n"),
 ("C13", "lru-no-move", "cache.py", "            self.__cache[key] = value\n            self.__cache.move_to_end(key)", "            self.__cache.setdefault(key, value)\n            self.__cache.move_to_end(key)"),
 ("C13", "dep-order", DEP, "            args2.append(dependency.value)\n        else:\n            found, result", "            args2.insert(1, dependency.value)\n        else:\n            found, result"),
 ("C13", "bound-first", DEP, "            if not found:\n                found, result = \\\n                    run.get_test_result(\n                        case,\n                        unbound_method)", "            if not found or result is None:\n                found, result = \\\n                    run.get_test_result(\n                        case,\n                        unbound_method)"),
 ("C14", "float-int", REP, "duration = float(parts[2])", "duration = int(parts[2])"),
 ("C14", "two-parts", REP, "duration = float(parts[2])", "duration = float(parts[2]) if len(parts) > 2 else 0.0"),
 ("C14", "startswith", REP, "if result_str == \"OK\":", "if result_str.startswith(\"O\"):"),
 ("C14", "by-name-last", REP, "if len(record) > 0 and record[0][1] == TestResult.OK:", "if len(record) > 0 and any(r[1] == TestResult.OK for r in self.cases if r[0].startswith(i)):"),
 ("C15", "res-set", RUNS, "            resources[name] = set(tests.method_resources(method))", "            resources[name] = set(tests.method_resources(method)[:1])"),
 ("C15", "dep-selection", RUNS, "for dependency in tests.method_dependencies(method, cases):", "for dependency in tests.method_dependencies(method, cases, out_dir):"),
 ("C15", "p16", TS, "const='16'", "const='1'"),
 ("C15", "resource-identity", DEP, "isinstance(other, Resource) and self.identifier == other.identifier", "isinstance(other, Resource) and self.value == other.value"),
 ("C15", "port-id", DEP, "return Resource(value, f\"port={value}\")", "return Resource(value)"),
 ("C15", "done-early", RUNS, "            self.done |= done_tasks\n            reports = []", "            self.done |= set(scheduled) if len(scheduled) == 1 else done_tasks\n            reports = []"),
 ("C15", "negative-release", RUNS, "                del scheduled[i]\n                self.reserved_resources -= self.resources[i]", "                del scheduled[i]\n                self.reserved_resources -= set(list(self.resources[i])[:1])"),
 ("C16", "abort-exit", RUNS, "                    if reviewed_result != TestResult.OK:\n                        exit_code = -1\n\n                    record_case", "                    if reviewed_result == TestResult.FAIL:\n                        exit_code = -1\n\n                    record_case"),
 ("C16", "worker-continue", RUNS, "        job_config[\"continue\"] = False\n", ""),
 ("C16", "worker-interactive", RUNS, "        job_config[\"always_interactive\"] = False\n", ""),
 ("C16", "merged", RUNS, "                    if name != \"cases.txt\":", "                    if name == \"output.txt\":"),
 ("C16", "late-reports", RUNS, "                for case_name, result, duration in runner.done_reports():", "                for case_name, result, duration in list(runner.done_reports())[:1]:"),
 ("C17", "abort-dropped", REV, "        reviews.append((case_name,", "        if abort and reviewed_result == TestResult.OK and case_name not in (cases or []):\n            continue\n        reviews.append((case_name,"),
 ("C17", "rv-only-shown", REV, "        if reviewed_result != TestResult.OK:\n            rv = -1\n\n        reviews", "        if reviewed_result != TestResult.OK and not abort:\n            rv = -1\n\n        reviews"),
 ("C17", "metrics", REP, "        except (FileNotFoundError, ValueError):", "        except FileNotFoundError:"),
 ("C18", "mock-none", ENV, "                if value is None:\n                    if name in os.environ:\n                        del os.environ[name]\n                else:\n                    os.environ[name] = value\n        except", "                if value is not None:\n                    os.environ[name] = value\n        except"),
 ("C18", "missing-empty", ENV, "if self._do_mock and old_value is None and value is not None:", "if self._do_mock and not old_value and value is not None:"),
 ("C18", "snap-none", ENV, "                    if value is None:\n                        os.environ.pop(name, None)\n                    else:\n                        os.environ[name] = self.snaphots[name]", "                    if value is not None:\n                        os.environ[name] = self.snaphots[name]"),
 ("C18", "stop-late", ENV, "        self.stop()\n        self.t_snapshots()\n\n\ndef snapshot_env", "        self.t_snapshots()\n        if exc_type is None:\n            self.stop()\n        else:\n            restore_env(self._old_env)\n\n\ndef snapshot_env"),
 ("C18", "restore-empty", ENV, "        if value is None:\n            os.environ.pop(name, None)", "        if not value:\n            os.environ.pop(name, None)"),
 ("C18", "complete-overrides", ENV, "if os.path.exists(self.snaphot_path) and not self.refresh_snapshots:", "if os.path.exists(self.snaphot_path) and not self.refresh_snapshots and not self.complete_snapshots:"),
 ("C19", "kwargs-dropped", FUN, "\"kwargs\": dict(kwargs)", "\"kwargs\": {k: kwargs[k] for k in kwargs if kwargs[k] is not None}"),
 ("C19", "args-str", FUN, "\"args\": list(args)", "\"args\": [str(a) for a in args]"),
 ("C19", "qualname", FUN, "\"func\": str(func.__qualname__)", "\"func\": str(func.__name__)"),
 ("C19", "no-copy", FUN, "return copy.deepcopy(snapshot.result)", "return snapshot.result"),
 ("C19", "no-copy2", FUN, "copy.deepcopy(rv))", "rv)"),
 ("C19", "stop-order", FUN, "for snapshotter in reversed(self.snapshotters):", "for snapshotter in self.snapshotters:"),
 ("C19", "mock-order", FUN, "for func, previous in reversed(self._original_funcs):", "for func, previous in self._original_funcs:"),
 ("C19", "refresh-load", FUN, "if os.path.exists(self.mock_path) and not self.refresh_snapshots:", "if os.path.exists(self.mock_path) and not (self.refresh_snapshots and self.complete_snapshots):"),
 ("C20", "rq-capture-order", REQ, "                if snapshot not in self.requests:\n                    self.requests.append(snapshot)\n                rv = snapshot.response", "                self.requests.append(snapshot)\n                rv = snapshot.response"),
 ("C20", "rq-binary", REQ, "        except UnicodeDecodeError:", "        except LookupError:"),
 ("C20", "rq-status", REQ, "response.status_code = response_json[\"statusCode\"]", "response.status_code = response_json[\"statusCode\"] or 200"),
 ("C20", "hx-encoding", HX, "        if \"content-encoding\" in headers:\n            del headers[\"content-encoding\"]", "        if \"content-encoding\" in headers:\n            pass"),
 ("C20", "hx-async", HX, "            rv = await self._real_handle_async_request(transport, request)\n            self.requests.append(RequestSnapshot(key, rv))", "            rv = await self._real_handle_async_request(transport, request)\n            if rv.status_code < 201:\n                self.requests.append(RequestSnapshot(key, rv))"),
 ("C20", "rq-url", REQ, "                rv.url = request.url\n", ""),
 ("C20", "hx-method", HX, "\"method\": str(method),", "\"method\": \"GET\" if method in (\"GET\", \"POST\") else str(method),"),
 ("C20", "rq-refresh", REQ, "if os.path.exists(self.mock_file) and not self.refresh_snapshots:", "if os.path.exists(self.mock_file) and (not self.refresh_snapshots or self.complete_snapshots):"),
 ("C21", "rq-lower", REQ, "if header.lower() in lower_ignore_headers:", "if header in lower_ignore_headers or header in ignore_headers:"),
 ("C21", "hx-lower", HX, "lower_ignore_headers = set([i.lower() for i in ignore_headers])", "lower_ignore_headers = set(ignore_headers)"),
 ("C21", "rq-body-kept", REQ, "            if \"body\" in rv:\n                del rv[\"body\"]", "            if rv.get(\"body\") == \"\":\n                del rv[\"body\"]"),
 ("C21", "hx-hide", HX, "stored[name] = snapshot.json_object(self._lose_request_details)", "stored[name] = snapshot.json_object(self._lose_request_details is True and self._ignore_headers is True)"),
 ("C22", "dir-prefix", TS, "names.add(path.join(exp_dir, name + \"/\"))", "names.add(path.join(exp_dir, name.split(\"/\")[0] + \"/\"))"),
 ("C22", "index", TS, "            names.add(path.join(exp_dir, \"index.md\"))\n", "            names.add(\"index.md\")\n"),
 ("C23", "domain-cut", REV, "                while (cut < len(name_domain) and", "                while (cut + 1 < len(name_domain) and"),
 ("C23", "domain-keep", REV, "                domain = name_domain\n", "                domain = name_domain or domain\n"),
 ("C24", "env-lower", "config.py", "book_key = key[len(BOOK_TEST_PREFIX):].lower()", "book_key = key.lower()[len(BOOK_TEST_PREFIX):].replace(\"__\", \"_\")"),
 ("C24", "split", "config.py", "line.strip().split('=', 1)", "line.strip().rsplit('=', 1)"),
 ("C24", "shared", TS, "config = dict(get_default_config())", "config = get_default_config()"),
 ("C26", "size", "cache.py", "if len(self.__cache) > self.__size:", "if len(self.__cache) > self.__size + (key in self.__cache and self.__size == 0):"),
 ("C26", "get-no-move", "cache.py", "            self.__cache.move_to_end(key)\n            return self.__cache[key]", "            return self.__cache[key]"),
 ("C27", "digits", "naming.py", "        is_prev_lower_case = not is_upper_case", "        is_prev_lower_case = i.islower()"),
 ("C27", "override", "testbook.py", "        if key not in self:\n            self.member_names.append(key)", "        self.member_names.append(key)"),
 ("C27", "nested-prefix", "testsuite.py", "if case[0].startswith(full_prefix):", "if case[0].startswith(prefix):"),
 ("C29", "direct", TR, "        tmp_path = bin_path + \".tmp\"", "        tmp_path = bin_path"),
 ("C29", "order", REV, "    os.rename(out_file_name, exp_file_name)\n    if path.exists(out_dir_name):\n        os.rename(out_dir_name, exp_dir_name)", "    shutil.copy(out_file_name, exp_file_name)\n    os.remove(out_file_name)\n    if path.exists(out_dir_name):\n        os.rename(out_dir_name, exp_dir_name)"),
 ("C32", "view-todo", TS, "            for name in cases:\n                file = path.join(exp_dir, f\"{name}.md\")\n                if path.exists(file):\n                    files.append(file)", "            for name in todo:\n                file = path.join(exp_dir, f\"{name}.md\")\n                if path.exists(file):\n                    files.append(file)"),
 ("C32", "forget-fail", TS, "reports = [i for i in reports if i[0] not in cases]", "reports = [i for i in reports if i[0] not in todo]"),
 ("C32", "print-end", TS, "print(f.read(), end=\"\")", "print(f.read().rstrip(\"\\n\"))"),
 ("C33", "log-view", REV, "run_tool(config, \"log_viewer\", [log_file_name])", "run_tool(config, \"log_viewer\", [log_file_name, out_file_name][:1 + config.get(\"verbose\", False)])"),
 ("C33", "quote", REV, "shlex.quote(f) for f in files", "f.replace(\" \", \"\\\\ \") for f in files"),
 ("C34", "parallel-update", RUNS, "        job_config[\"interactive\"] = False\n", "        job_config[\"interactive\"] = False\n        job_config[\"update\"] = False\n"),
 ("C34", "worker-verbose", RUNS, "        job_config[\"interactive\"] = False\n", "        job_config[\"interactive\"] = False\n        job_config[\"refresh_snapshots\"] = False\n"),
 ("C35", "batch-name", RUNS, ".replace(\"%\", \"%25\").replace(\".\", \"%2E\")", ".replace(\".\", \"%2E\")"),
 ("C36", "order", REQ, "        return RequestKey(json_object, False, self.json_to_hash)", "        return RequestKey(json_object, False)"),
 ("C36", "hx-hash", HX, "                          json_to_hash=json_to_hash)\n\n    @staticmethod", "                          json_to_hash=json_to_hash if body else None)\n\n    @staticmethod"),
 ("C36", "hx-encode", HX, "            json_object[\"body\"] = encode_body(body, url, method)", "            json_object[\"body\"] = (encode_body if body else default_encode_body)(body, url, method)"),
 ("C37", "paths-first", "cli.py", "        tests.extend(detect_tests(path))", "        tests.extend(detect_tests(path) if len(tests) < 4 else [])"),
 ("C37", "setup-last", "cli.py", "        if path_setup is not None:\n            setup = path_setup", "        setup = path_setup"),
 ("C37", "default-strip", TS, "config.get(\"default_tests\", \"test,book\").split(\",\")", "config.get(\"default_tests\", \"test,book\").split(\",\")[:2]"),
 ("C37", "setup-unused", "cli.py", "test_suite.exec_parsed(books_dir, args, setup=setup))", "test_suite.exec_parsed(books_dir, args))"),
 ("C38", "env-outer", ENV, "        wrapper._original_function = func\n        return wrapper\n    return decorator\n\n\nclass MockEnv", "        return wrapper\n    return decorator\n\n\nclass MockEnv"),
 ("C38", "teardown-raise", "utils.py", "            next(self._generator)\n        except StopIteration:", "            if exc_type is None:\n                next(self._generator)\n        except StopIteration:"),
 ("C38", "match-orig", TR, "    while matcher_func != method_func and hasattr(method_func, \"_original_function\"):", "    if matcher_func != method_func and hasattr(method_func, \"_original_function\"):"),
 ("C38", "combine-reverse", "utils.py", "        for i in decorators:\n            rv = i(rv)", "        for i in reversed(decorators):\n            rv = i(rv)"),
]
