"""The planted bugs: property, edits, demonstration."""
TC, TR, TS, REV, REP = ["booktest/%s.py" % n for n in ("testcaserun", "testrun", "tests", "review", "reports")]
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c01-past-end", "C01", "a test that writes more lines than its snapshot has, everything before equal",
     "tested lines written after the end of the snapshot are not compared with anything, so a test that only adds lines is OK",
     [(TC, "           and token != exp_token \\\n           and check:", "           and exp_token is not None \\\n           and token != exp_token \\\n           and check:")], '''
def f(t):
    t.tln("a")
    t.tln("b")
write("books/x.md", "a\\n")
r = run([("x", f)])
assert r["x"] == "DIFF", r
''')

seed("c04-both", "C04", "a line that both differs from the snapshot and is marked failed",
     "a failed line that also differs is only counted as differing, so the test is DIFF and can be accepted",
     [(TC, '''            symbol = "?"
            pos = None
            if self.line_diff is not None:
                self.diffs += 1
                pos = self.line_diff
            if self.line_error is not None:
                symbol = "!"
                self.errors += 1
                pos = self.line_error
''', '''            if self.line_diff is not None:
                symbol = "?"
                self.diffs += 1
                pos = self.line_diff
            else:
                symbol = "!"
                self.errors += 1
                pos = self.line_error
''')], '''
def f(t):
    t.fail().tln("b")
write("books/x.md", "a\\n")
r = run([("x", f)])
assert r["x"] == "FAIL", r
''')

seed("c08-blanks", "C08", "set items that differ only in blanks around them",
     "set items are compared without the blanks around them",
     [(TC, "                compare.add(self.exp_line[len(prefix):])", "                compare.add(self.exp_line[len(prefix):].strip())"),
      (TC, "            i_str = str(i)\n            line", "            i_str = str(i).strip()\n            line")], '''
def f(t):
    t.tln("the set:")
    t.tset(["a ", "b"])
write("books/x.md", "the set:\\n * a\\n * b\\n")
r = run([("x", f)])
assert r["x"] == "DIFF", r
''')

seed("c09-accept-fail", "C09", "a failed case reviewed interactively and the hidden answer a",
     "a FAIL is accepted in interactive review although the choice is not offered",
     [(REV, '        if answer == "a" and test_result != TestResult.FAIL:', '        if answer == "a":')], '''
def f(t):
    t.fail().tln("broken")
write("books/x.md", "fine\\n")
sys.stdin = io.StringIO("a\\nc\\n")
with contextlib.redirect_stdout(io.StringIO()):
    run([("x", f)], config={"interactive": True})
assert read("books/x.md") == "fine\\n", read("books/x.md")
''')

seed("c11-skip-prefix", "C11", "a skip entry that is a prefix of another case's name without being its path",
     "skip:a/b also skips the case a/bc",
     [(TS, '''                if (test_name.startswith(s) and
                    (len(s) == 0
                     or len(test_name) == len(s)
                     or test_name[len(s)] == '/')):
                    return False
''', '''                if test_name.startswith(s):
                    return False
''')], '''
def f(t):
    t.tln("x")
rc, text = main([("a/b", f), ("a/bc", f), ("a/b/c", f)], "-l", "a", "skip:a/b")
assert text.split() == ["a/bc"], text
''')

seed("c12-stored-order", "C12", "a selected dependency defined after its dependent, with a result stored by an earlier run",
     "a selected dependency that has a stored result runs after its dependent, which then gets the value of the earlier run",
     [(TS, '''                    if self.is_selected(case, selection) or \\
                       cache_out_dir is None or \\''', '''                    if cache_out_dir is None or \\''')], '''
value = ["old"]
def a(t):
    t.tln("a")
    return value[0]
got = []
@bt.depends_on(a)
def c(t, v):
    got.append(v)
    t.tln("c")
cases = [("c", c), ("a", a)]
main(cases, "*")
value[0] = "new"
got.clear()
main(cases, "*")
assert got == ["new"], got
''')

seed("c13-diff-result", "C13", "a dependency that ends DIFF with a new value after an earlier run stored another one",
     "the value of a test that ended DIFF is not stored, its dependents get the value of an earlier run",
     [(TR, "        if result is TestResult.OK or result is TestResult.DIFF:\n", "        if result is TestResult.OK:\n")], '''
value = ["old"]
def a(t):
    t.tln(value[0])
    return value[0]
got = []
@bt.depends_on(a)
def c(t, v):
    got.append(v)
    t.tln("c")
write("books/a.md", "old\\n")
run([("a", a), ("c", c)])
value[0] = "new"
got.clear()
run([("a", a), ("c", c)])
assert got == ["new"], got
''')

seed("c14-flush", "C14", "the process dies while a later case is running",
     "records of finished cases are lost if the process dies, so continuing runs them again",
     [(REP, '''            f"{case_name}\\t{res.name}\\t{duration}\\n")
        file_handle.flush()
''', '''            f"{case_name}\\t{res.name}\\t{duration}\\n")
''')], '''
write("prog.py", """
import os, booktest as bt
def a(t):
    t.tln("a")
def b(t):
    os._exit(3)
bt.Tests([["a", a], ["b", b]]).exec("books", ["*"])
""")
write("books/a.md", "a\\n")
subprocess.run([sys.executable, "prog.py"], stdout=subprocess.DEVNULL)
assert read("books/.out/cases.txt").startswith("a\\tOK\\t"), read("books/.out/cases.txt")
''')

seed("c15-same-plan", "C15", "two tests that share a resource and become runnable at the same time, in a parallel run",
     "tests that become runnable together are started together although they share a resource",
     [("booktest/runs.py", "        reserved_resources = copy(self.reserved_resources)\n", "        reserved_resources = self.reserved_resources\n"),
      ("booktest/runs.py", "                rv.append(name)\n                reserved_resources |= self.resources[name]\n", "                rv.append(name)\n")], '''
write("sharing.py", """
import os, time, booktest as bt
def body(t):
    try:
        fd = os.open("lock", os.O_CREAT | os.O_EXCL)
    except FileExistsError:
        open("clash", "w").close()
        return
    os.close(fd)
    time.sleep(3)
    os.remove("lock")
@bt.depends_on(bt.port(8080))
def test_a(t, p):
    body(t)
@bt.depends_on(bt.port(8080))
def test_b(t, p):
    body(t)
if __name__ == "__main__":
    import sharing
    bt.Tests([["a", sharing.test_a], ["b", sharing.test_b]]).exec("books", ["-p2" if False else "-p", "*"])
""")
p = subprocess.run([sys.executable, "sharing.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=REPO + ":" + D))
assert "a.." in p.stdout and "b.." in p.stdout, p.stdout
assert not os.path.exists("clash"), "both at once"
''')

seed("c16-last-wins", "C16", "a parallel run in which a case fails and a case reported later passes",
     "the exit status of a parallel run is that of the case reported last",
     [("booktest/runs.py", '''                    if reviewed_result != TestResult.OK:
                        exit_code = -1

                    record_case(
                        case_name,
                        reviewed_result,''', '''                    exit_code = test_result_to_exit_code(reviewed_result)

                    record_case(
                        case_name,
                        reviewed_result,''')], '''
write("two.py", """
import booktest as bt
def test_a(t):
    t.fail().tln("bad")
@bt.depends_on(test_a)
def test_b(t, v):
    t.tln("b")
def test_c(t):
    import time
    time.sleep(2)
    t.tln("c")
if __name__ == "__main__":
    import two, sys
    sys.exit(0 if bt.Tests([["a", two.test_a], ["c", two.test_c]]).exec("books", ["-p", "*"]) == 0 else 7)
""")
write("books/c.md", "c\\n")
p = subprocess.run([sys.executable, "two.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=REPO + ":" + D))
assert "FAILED" in p.stdout, p.stdout
assert p.returncode == 7, p.returncode
''')

seed("c17-unselected", "C17", "a review of a selection while a case outside it has not passed",
     "reviewing a selection succeeds although other recorded cases are not OK",
     [(REV, '''                    abort = True

        if reviewed_result != TestResult.OK:
            rv = -1
''', '''                    abort = True

                if reviewed_result != TestResult.OK:
                    rv = -1
''')], '''
def f(t):
    t.tln("x")
write("books/a.md", "x\\n")
cases = [("a", f), ("b", f)]
main(cases, "*")
rc, text = main(cases, "--review", "a")
assert rc != 0, rc
''')

seed("c18-empty", "C18", "a mock of a variable that was set to the empty text before",
     "a variable that held the empty text is removed after a test that mocks it",
     [("booktest/env.py", """        for name, value in self._old_env.items():
            if value is None:
                if name in os.environ:
                    del os.environ[name]
            else:
                os.environ[name] = self._old_env[name]
        self._old_env = None
""", """        for name, value in self._old_env.items():
            if not value:
                if name in os.environ:
                    del os.environ[name]
            else:
                os.environ[name] = self._old_env[name]
        self._old_env = None
""")], '''
os.environ["SEED_A"] = ""
@bt.mock_env({"SEED_A": "mocked"})
def f(t):
    assert os.environ["SEED_A"] == "mocked"
run([("x", f)])
assert os.environ.get("SEED_A") == "", os.environ.get("SEED_A")
''')

seed("c19-unchanged", "C19", "replaying with recorded calls, accepting that run, and replaying again",
     "replaying does not write the records it used to the output, so accepting a replayed run loses them",
     [("booktest/functions.py", '''        for snapshot in self.calls:
            name = snapshot.hash()

            with open(''', '''        for snapshot in self.calls:
            if not self.capture_snapshots:
                # nothing to update
                continue
            name = snapshot.hash()

            with open(''')], '''
write("lib_a.py", """
def now(x):
    return x + 1
""")
sys.path.insert(0, D)
import lib_a
more = []
@bt.snapshot_functions(lib_a.now)
def f(t):
    t.tln(str(lib_a.now(1)))
    for m in more:
        t.tln(m)
run([("x", f)], config={"complete_snapshots": True, "accept": True})
more.append("more")
run([("x", f)], config={"accept": True})
r = run([("x", f)])
assert r["x"] == "OK", r
''')

seed("c20-third", "C20", "three identical requests in one test",
     "the third identical request gets the response of the second",
     [("booktest/requests.py", """        for i in self.requests:
            if key == i.request:
                key = key.increase_order()
""", """        for i in self.requests:
            if key == i.request:
                return key.increase_order()
""")], '''
import requests, threading, http.server
n = [0]
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        n[0] += 1
        b = str(n[0]).encode()
        self.send_response(200)
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)
    def log_message(self, *a):
        pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
got = []
@bt.snapshot_requests()
def f(t):
    got.append([requests.get("http://127.0.0.1:%d/" % s.server_port).text for _ in range(3)])
run([("x", f)], config={"complete_snapshots": True, "accept": True})
run([("x", f)])
assert got == [["1", "2", "3"]] * 2, got
''')

seed("c21-body", "C21", "an ignore list of headers together with hidden details, and a request with a body",
     "the body of a request is stored although details are hidden, if some of its headers are kept for matching",
     [("booktest/requests.py", """                del rv["headers"]
            if "body" in rv:
""", """                del rv["headers"]
            elif "body" in rv:
""")], '''
from booktest.requests import RequestKey
k = RequestKey.from_properties("http://h/", "POST", {"Accept": "a"}, "secret", ["x-token"])
assert "body" not in k.to_json_object(True), k.to_json_object(True)
''')

seed("c22-prefix", "C22", "a stray file whose name continues the name of an existing test",
     "files next to a test whose names start with the test's name are not garbage",
     [(TS, '''                names.add(path.join(exp_dir, name + "/"))''', '''                names.add(path.join(exp_dir, name))'''),
      (TS, '''                if ng.endswith("/") and file.startswith(ng):''', '''                if not ng.endswith(".md") and file.startswith(ng):''')], '''
def f(t):
    t.tln("x")
write("books/a.md", "x\\n")
write("books/a/pic.png", "x\\n")
write("books/ab.md", "x\\n")
rc, text = main([("a", f)], "--garbage")
assert text.split() == ["books/ab.md"], text
''')

seed("c23-same-leaf", "C23", "consecutive cases in directories whose last component is equal and whose parents differ",
     "tests of b/x after tests of a/x are listed under a/x in the index",
     [(REV, "            if name_domain != domain:", "            if name_domain[-1:] != domain[-1:]:")], '''
def f(t):
    t.tln("x")
main([("a/x/one", f), ("b/x/two", f)], "*")
text = read("books/index.md")
assert " * b\\n" in text, text
''')

seed("c24-equals", "C24", "a configuration value that contains an equals sign with blanks around it",
     "a value with several equals signs is cut at the last one",
     [("booktest/config.py", "                key, value = line.strip().split('=', 1)", "                key, value = line.strip().rsplit('=', 1)")], '''
write(".booktest", "diff_tool=meld --opt=3\\n")
from booktest.config import resolve_default_config
c = resolve_default_config(".booktest")
assert c.get("diff_tool") == "meld --opt=3", c
''')

seed("c25-no-handlers", "C25", "a process without log handlers before the test",
     "if there were no root log handlers before, the test's closed handler stays installed",
     [(TC, "        if self.orig_handlers is not None:\n            logger", "        if self.orig_handlers:\n            logger")], '''
import logging
logging.getLogger().handlers = []
def f(t):
    logging.getLogger().warning("hello")
run([("x", f)])
assert logging.getLogger().handlers == [], logging.getLogger().handlers
''')

seed("c26-overwrite", "C26", "storing a key again before the cache overflows",
     "storing a held key again does not make it recent, so the latest value may be dropped first",
     [("booktest/cache.py", "            self.__cache[key] = value\n            self.__cache.move_to_end(key)\n", "            self.__cache[key] = value\n")], '''
from booktest.cache import LruCache
c = LruCache(2)
c["a"] = 1
c["b"] = 2
c["a"] = 3
c["c"] = 4
assert "a" in c and c["a"] == 3 and "b" not in c
''')

seed("c28-tmp", "C28", "a case with temporary files but no output files, run twice",
     "temporary files of an earlier run survive if the earlier run left no output directory",
     [(TC, '''            shutil.rmtree(self.out_dir_name)

        if path.exists(self.out_tmp_dir_name):
            shutil.rmtree(self.out_tmp_dir_name)
''', '''            shutil.rmtree(self.out_dir_name)

            if path.exists(self.out_tmp_dir_name):
                shutil.rmtree(self.out_tmp_dir_name)
''')], '''
seen = []
def f(t):
    p = t.tmp_file("left.txt")
    seen.append(os.path.exists(p))
    write(p, "x")
run([("x", f)])
run([("x", f)])
assert seen == [False, False], seen
''')

seed("c29-copy", "C29", "the process dies while a result is accepted",
     "accepting rewrites the snapshot in place, so a crash leaves it empty or cut",
     [(REV, "    os.rename(out_file_name, exp_file_name)\n", '''    with open(exp_file_name, "w") as exp_f:
        # keeps the owner and the permissions of the snapshot
        with open(out_file_name, "r") as out_f:
            exp_f.write(out_f.read())
    os.remove(out_file_name)
''')], '''
# the process dies at the k-th time a file is opened or changed
write("prog.py", """
import os, sys, booktest as bt
def f(t):
    t.tln("new line")
tests = bt.Tests([["x", f]])
left = [int(sys.argv[1])]
def hook(event, args):
    if event in ("open", "os.rename", "os.remove", "shutil.rmtree") and "books" in str(args[0]):
        left[0] -= 1
        if left[0] == 0:
            os._exit(3)
sys.addaudithook(hook)
tests.exec("books", ["-a", "*"])
""")
for k in range(1, 60):
    shutil.rmtree("books", ignore_errors=True)
    write("books/x.md", "old line\\n")
    p = subprocess.run([sys.executable, "prog.py", str(k)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    assert read("books/x.md") in ("old line\\n", "new line\\n"), (k, read("books/x.md"))
    if p.returncode != 3:
        break
''')

seed("c03-limit", "C03", "an informational measurement of a very long operation",
     "an informational time measurement fails above one hour",
     [(TC, "        return self.tmsln(f, sys.maxsize)", "        return self.tmsln(f, 60 * 60 * 1000)")], '''
import time
real = time.time
gone = [0]
time.time = lambda: real() + gone[0]
def f(t):
    def slow():
        gone[0] += 4000
    t.imsln(slow)
r = run([("x", f)], config={"accept": True})
assert r["x"] == "OK", r
''')

seed("c05-trailing", "C05", "lines that end in blanks",
     "blanks at line ends are dropped from the output file",
     [(TC, "        self.out.write(self.out_line)\n", "        self.out.write(self.out_line.rstrip())\n")], '''
def f(t):
    t.tln("a  ")
run([("x", f)])
assert read("books/.out/x.md") == "a  \\n", read("books/.out/x.md")
''')

seed("c07-prefix", "C07", "a header that continues another header's text and comes earlier in the snapshot",
     "a section is compared with the first section whose header starts with its header",
     [(TC, "        return self.seek(lambda x: x == anchor, begin, end)", "        return self.seek(lambda x: x.startswith(anchor), begin, end)")], '''
def f(t):
    t.h1("part")
    t.tln("one")
    t.h1("part two")
    t.tln("two")
write("books/x.md", "# part two\\n\\ntwo\\n\\n# part\\n\\none\\n")
r = run([("x", f)])
assert r["x"] == "OK", r
''')

seed("c10-fail-fast", "C10", "fail-fast with a case that differs",
     "with fail-fast the run goes on after a case that is DIFF",
     [(TR, "                   (self.fail_fast and fails > 0):", "                   (self.fail_fast and rv == TestResult.FAIL):")], '''
ran = []
def f(t):
    ran.append(t.name)
    t.tln("x")
run([("a", f), ("b", f)], config={"fail_fast": True})
assert ran == ["a"], ran
''')

seed("c27-inner-prefix", "C27", "a suite path in which the dropped prefix appears again",
     "dropping a prefix removes it everywhere in the case names",
     [("booktest/testsuite.py", "            cases.append([case[0][len(full_prefix):], case[1]])", "            cases.append([case[0].replace(full_prefix, \"\"), case[1]])")], '''
def f(t):
    t.tln("x")
from booktest.testsuite import drop_prefix
t = drop_prefix("test", bt.Tests([["test/a/test/b", f]]))
assert t.all_names() == ["a/test/b"], t.all_names()
''')

seed("c30-empty", "C30", "an empty list or dictionary inside a value",
     "empty lists and dictionaries are shown as scalars",
     [(TC, "    if value_type is list:\n", "    if not value:\n        rv = value_type.__name__\n    elif value_type is list:\n")], '''
assert bt.value_format({"a": [], "b": {}, "c": [0]}) == {"a": [], "b": {}, "c": ["int"]}, bt.value_format({"a": [], "b": {}, "c": [0]})
''')

seed("c31-cr", "C31", "a cell with a carriage return",
     "a carriage return in a cell breaks the row in two",
     [(TC, """                          .replace("\\r", " ")\\
                          .replace("\\n", " ")\\
""", """                          .replace("\\n", " ")\\
""")], '''
def f(t):
    t.ttable({"a": ["one\\rtwo", "three"]})
run([("x", f)], config={"accept": True})
r = run([("x", f)])
assert r["x"] == "OK", r
''')

seed("c06-fraction", "C06", "decimals that are numeric but no digits, like one half",
     "a decimal point followed by a numeric character that is no digit is split from its decimals",
     [("booktest/tokenizer.py", """                    i = i + 1
                    while i < len(self.buf) and self.buf[i].isnumeric():
""", """                    i = i + 1
                    while i < len(self.buf) and self.buf[i].isdigit():
""")], '''
from booktest.tokenizer import TestTokenizer
assert list(TestTokenizer("1.\u00bd")) == ["1.\u00bd"], list(TestTokenizer("1.\u00bd"))
''')

seed("c32-forget", "C32", "forgetting a case whose name begins another case's name",
     "forgetting a case also removes the records of cases whose names continue its name",
     [(TS, "            reports = [i for i in reports if i[0] not in cases]", "            reports = [i for i in reports if not i[0].startswith(tuple(cases))]")], '''
def f(t):
    t.tln("a")
cases = [("a", f), ("ab", f)]
main(cases, "-a", "a", "ab")
main(cases, "--forget", "a")
got = read("books/.out/cases.txt").split("\\t")[0]
assert got == "ab", got
''')

seed("c33-new", "C33", "viewing a case that has no snapshot yet",
     "the viewer is given the missing snapshot of a new case together with the output",
     [(REV, """            if os.path.exists(exp_file_name):
                files""", """            if os.path.exists(exp_file_name) or test_result == TestResult.DIFF:
                files""")], '''
import builtins
write("tool.sh", "#!/bin/sh\\nfor i in \\"$@\\"; do test -e \\"$i\\" && echo yes >> %s/seen || echo no >> %s/seen; done\\n" % (D, D))
os.chmod("tool.sh", 0o755)
def f(t):
    t.tln("a")
answers = ["v", "c"]
builtins.input = lambda prompt: answers.pop(0)
main([("x", f)], "-i", "-md-viewer", D + "/tool.sh", "x")
assert "no" not in read("seen"), read("seen")
''')

seed("c35-case", "C35", "two cases whose names differ only in upper and lower case",
     "results are looked up in memory by the lower case path, so cases that differ in case share one",
     [(TR, "                if bin_path in self.cache:\n                    return True, self.cache[bin_path]",
     "                if bin_path.lower() in self.cache:\n                    return True, self.cache[bin_path.lower()]"),
     (TR, "        self.cache[bin_path] = result\n", "        self.cache[bin_path.lower()] = result\n")], '''
got = []
def a(t):
    return 1
def b(t):
    return 2
@bt.depends_on(a)
def c(t, v):
    got.append(v)
run([("x/a", a), ("x/A", b), ("x/c", c)])
assert got == [1], got
''')

seed("c36-empty-body", "C36", "a request with an empty body under a body encoding of the user",
     "the given body encoding is not called for empty bodies",
     [("booktest/requests.py", """        if body is not None:
            json_object["body"] = encode_body(body, url, method)
        return""", """        if body:
            json_object["body"] = encode_body(body, url, method)
        return""")], '''
from booktest.requests import RequestKey
seen = []
def enc(body, url, method):
    seen.append(body)
    return "always the same"
a = RequestKey.from_properties("http://h/", "POST", {}, b"", True, None, enc)
b = RequestKey.from_properties("http://h/", "POST", {}, b"x", True, None, enc)
assert seen == [b"", b"x"] and a == b, seen
''')

seed("c37-order", "C37", "configured places whose order is not that of the alphabet",
     "the configured places are visited in the order of their names",
     [("booktest/cli.py", "    for path in default_paths:", "    for path in sorted(set(default_paths)):")], '''
write("zz/a_test.py", "def test_a(t):\\n    t.tln(\'a\')\\n")
write("bb/b_test.py", "def test_b(t):\\n    t.tln(\'b\')\\n")
write(".booktest", "test_paths=zz,bb\\ndefault_tests=zz,bb\\n")
out = subprocess.run([sys.executable, "-m", "booktest", "-l"], stdout=subprocess.PIPE, text=True).stdout
assert out.split() == ["zz/a/a", "bb/b/b"], out
''')

seed("c38-combined", "C38", "a method of a test class under depends_on with another decorator above it",
     "a dependency of a method decorated above depends_on is not bound to its instance when the run is planned",
     [("booktest/dependencies.py", """    self = get_decorated_attr(method, "__self__")

    if dep""", """    self = getattr(method, "__self__", None)

    if dep""")], '''
class Book(bt.TestBook):
    def __init__(self, path, value):
        super().__init__(path)
        self.value = value
    def test_make(self, t):
        return self.value
    @bt.depends_on(test_make)
    def test_use(self, t, v):
        got.append(v)
got = []
from booktest.testsuite import decorate_tests
tests = decorate_tests(bt.mock_env({"A": "x"}), [Book("one", 1), Book("two", 2)])
main(tests, "two/use")
assert got == [2], got
''')

seed("c39-trailing", "C39", "a case whose log ends with empty lines, shown with -L",
     "all empty lines at the end of a log or report are dropped, not only the one after the last line end",
     [("booktest/reports.py", """            if len(rv) > 0 and len(rv[len(rv)-1]) == 0:
                # remove empty trailing line
                rv = rv[:len(rv)-1]
""", """            while len(rv) > 0 and len(rv[-1]) == 0:
                # remove empty trailing lines
                rv.pop()
""")], '''
def case(t):
    sys.stderr.write("one\\n\\n\\n")
    t.tln("x")
write("books/s/a.md", "x\\n")
rc, text = main([("s/a", case)], "-L", "*")
assert "    log: one\\n    log: \\n    log: \\n  s/a.." in text or "    log: one\\n    log: \\n    log: \\n  a.." in text, text
''')

seed("c27-mark", "C27", "a file whose name has a test mark in the middle as well as at its end",
     "every mark of a test in a file's name is taken away, not only the one at its end, so files share their cases' names",
     [("booktest/naming.py", '        name = name[0:(len(name) - len("_test"))]', '        name = name.replace("_test", "")')], '''
write("proj/a_test_run_test.py", "def test_x(t):\\n    t.tln('x')\\n")
sys.path.insert(0, D)
from booktest.detection import detect_test_suite
got = detect_test_suite("proj").all_names()
assert got == ["proj/a_test_run/x"], got
''')

seed("c28-hash", "C28", "two files that differ only far from their beginning",
     "the name of a hashed file depends on its first block only, so files with the same beginning overwrite each other",
     [(TC, '                for chunk in iter(lambda: f.read(4096), b""):\n                    sha1.update(chunk)', '                sha1.update(f.read(1 << 20))')], '''
names = []
def f(t):
    for i in "ab":
        p = t.file("plot.png")
        write(p, "-" * (1 << 20) + i)
        names.append(t.rename_file_to_hash(p, ".png"))
    t.tln("x")
run([("x", f)])
assert len(set(names)) == 2, names
''')

seed("c34-capture", "C34", "a parallel run that is asked to capture missing snapshots",
     "workers of a parallel run do not capture missing snapshots, so cases fail that pass in a serial run",
     [("booktest/runs.py", '        job_config["interactive"] = False\n', '        job_config["interactive"] = False\n        job_config["complete_snapshots"] = False\n')], '''
write("cap.py", """
import booktest as bt
def now():
    return 7
@bt.snapshot_functions(now)
def test_a(t):
    t.tln(str(now()))
if __name__ == "__main__":
    import cap
    bt.Tests([["a", cap.test_a]]).exec("books", ["-p", "-s", "-a", "*"])
""")
p = subprocess.run([sys.executable, "cap.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=REPO + ":" + D))
assert read("books/.out/cases.txt").split("\\t")[:2] == ["a", "OK"], p.stdout
''')

seed("c23-reorder", "C23", "consecutive cases in directories made of the same components in another order",
     "the common part of two directories is counted by any place, so a directory with swapped components gets no heading of its own",
     [(REV, "                       name_domain[cut] == domain[cut]):", "                       name_domain[cut] in domain):")], '''
def f(t):
    t.tln("x")
run([("a/b/x", f), ("b/a/y", f)], config={"accept": True})
t = read("books/index.md")
assert " * a\\n     * b\\n         * [x](a/b/x.md)" in t and " * b\\n     * a\\n         * [y](b/a/y.md)" in t, t
''')

seed("c18-missing-empty", "C18", "a variable that is set to the empty text under mock_missing_env",
     "a variable that is set but empty counts as missing and is mocked",
     [("booktest/env.py", "                if self._do_mock and old_value is None and value is not None:", "                if self._do_mock and not old_value and value is not None:")], '''
os.environ["BTV_E"] = ""
seen = []
@bt.mock_missing_env({"BTV_E": "mock"})
def f(t):
    seen.append(os.environ.get("BTV_E"))
    t.tln("x")
run([("x", f)])
assert seen == [""], seen
''')

seed("c13-none", "C13", "two instances of a test class whose first method returned nothing",
     "a dependency of the same instance whose result is None is looked up elsewhere instead",
     [("booktest/dependencies.py", """            #    This allows for tests to share same data or prepared model
            if not found:
""", """            #    This allows for tests to share same data or prepared model
            if result is None:
""")], '''
got = []
class B(bt.TestBook):
    def __init__(self, n):
        super().__init__(full_path=n)
        self.n = n
    def test_a(self, t):
        t.tln("a")
        return None if self.n == "two" else "of one"
    @bt.depends_on(test_a)
    def test_b(self, t, v):
        got.append(v)
        t.tln("b")
r = run(bt.merge_tests([B("one"), B("two")]), config={"accept": True})
assert got == ["of one", None] and set(r.values()) == {"OK"}, (got, r)
''')

seed("c15-running", "C15", "a parallel run with a dependency that is still running when the next tests are planned",
     "a dependency that was started counts as finished, so its dependents start before its result is there",
     [("booktest/runs.py", "                if dependency in self.todo and dependency not in self.done:\n", "                if dependency in todo:\n")], '''
write("late.py", """
import time, booktest as bt
def test_a(t):
    time.sleep(2)
    t.tln("a")
    return 1
@bt.depends_on(test_a)
def test_b(t, v):
    t.tln("b")
def test_c(t):
    t.tln("c")
if __name__ == "__main__":
    import late
    bt.Tests([["a", late.test_a], ["b", late.test_b], ["c", late.test_c]]).exec("books", ["-p", "-a", "*"])
""")
p = subprocess.run([sys.executable, "late.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=REPO + ":" + D))
got = sorted(tuple(l.split("\\t")[:2]) for l in read("books/.out/cases.txt").splitlines())
assert got == [("a", "OK"), ("b", "OK"), ("c", "OK")], p.stdout
''')

seed("c10-quit", "C10", "an interactive run that is quit at a case",
     "the case at which the run was quit is missing from the report",
     [(TR, """                CaseReports.write_case(
                    report_f, case_name, res, duration)

                # manage situations, where testing should
                # be aborted
                if request == UserRequest.ABORT or \\
                   (self.fail_fast and fails > 0):
                    break
""", """                # manage situations, where testing should
                # be aborted
                if request == UserRequest.ABORT:
                    break

                CaseReports.write_case(
                    report_f, case_name, res, duration)

                if self.fail_fast and fails > 0:
                    break
""")], '''
def f(t):
    t.tln("new")
write("books/x.md", "old\\n")
write("books/y.md", "old\\n")
sys.stdin = io.StringIO("q\\n")
with contextlib.redirect_stdout(io.StringIO()):
    r = run([("x", f), ("y", f)], config={"interactive": True})
assert r == {"x": "DIFF"}, r
''')

seed("c07-far", "C07", "a section that has moved more than a thousand lines away from where the test is in the snapshot",
     "sections are sought in the first thousand lines of the snapshot only",
     [(TC, "    def seek(self, is_line_ok, begin=0, end=sys.maxsize):", "    def seek(self, is_line_ok, begin=0, end=1000):"),
      (TC, "        return self.seek(lambda x: x.startswith(prefix))", "        return self.seek(lambda x: x.startswith(prefix), 0, 1000)"),
      (TC, "    def seek_line(self, anchor, begin=0, end=sys.maxsize):", "    def seek_line(self, anchor, begin=0, end=1000):")], '''
def f(t):
    for i in order:
        t.h1("section %d" % i)
        for k in range(10):
            t.tln("line %d of %d" % (k, i))
order = list(range(120))
run([("x", f)], config={"accept": True})
order = [119] + list(range(119))
r = run([("x", f)])
assert r["x"] == "OK", r
''')

seed("c16-count", "C16", "a parallel run of which exactly 256 cases, or a multiple, are not OK",
     "the exit status of a parallel run is the number of cases that were not OK, which the shell sees modulo 256",
     [("booktest/runs.py", """                    if reviewed_result != TestResult.OK:
                        exit_code = -1
""", """                    if reviewed_result != TestResult.OK:
                        exit_code -= 1
"""), ("booktest/runs.py", """                    if result != TestResult.OK:
                        exit_code = -1
""", """                    if result != TestResult.OK:
                        exit_code -= 1
""")], '''
from booktest import runs
from booktest.reports import CaseReports, TestResult
names = ["c%d" % i for i in range(256)]
class Ready:
    def ready(self):
        return True
class Pool:
    def __init__(self, *a, **k):
        pass
    def __enter__(self):
        return self
    def apply_async(self, f, args):
        with contextlib.redirect_stdout(io.StringIO()):
            f(*args)
        return Ready()
    def close(self):
        pass
    join = close
class Context:
    Pool = Pool
runs.multiprocessing.get_context = lambda kind: Context()
def f(t):
    t.tln("new")
with contextlib.redirect_stdout(io.StringIO()):
    rc = bt.Tests([[n, f] for n in names]).exec("books", ["-p2", "*"])
assert rc % 256 != 0, rc
''')

seed("c20-long", "C20", "two requests with large bodies that differ only at their ends",
     "only the beginning of a large request decides which requests are equal",
     [("booktest/requests.py", "    h.update(json.dumps(json_object, sort_keys=True).encode())\n", "    h.update(json.dumps(json_object, sort_keys=True).encode()[:2048])\n")], '''
import requests
from requests import adapters
def send(adapter, request, **kw):
    r = requests.Response()
    r.status_code, r.url, r.request, r._content, r._content_consumed = 200, request.url, request, request.body[-1:].encode(), True
    return r
adapters.HTTPAdapter.send = send
got = []
@bt.snapshot_requests()
def f(t):
    for c in order:
        got.append(requests.post("http://h/", data="x" * 5000 + c).content)
    t.tln("end")
order = ["a", "b"]
run([("x", f)], config={"complete_snapshots": True, "accept": True})
got.clear()
order = ["b", "a"]
run([("x", f)])
assert got == [b"b", b"a"], got
''')

seed("c19-long", "C19", "two calls with large arguments that differ only at their ends",
     "only the first four kilobytes of a call decide which calls are equal",
     [("booktest/functions.py", "            h.update(json.dumps(self.json_object).encode())\n", "            h.update(json.dumps(self.json_object).encode()[:4096])\n")], '''
import types
m = types.ModuleType("demo_m")
sys.modules["demo_m"] = m
def g(x):
    return x[-1]
g.__module__ = "demo_m"
m.g = g
got = []
@bt.snapshot_functions(g)
def f(t):
    for c in "ab":
        got.append(m.g("x" * 5000 + c))
    t.tln("end")
run([("x", f)], config={"complete_snapshots": True, "accept": True})
got.clear()
run([("x", f)])
assert got == ["a", "b"], got
''')

seed("c26-falsy", "C26", "a stored zero or empty value that is read before the cache overflows",
     "reading an empty value does not make it recent, so it is dropped before older ones",
     [("booktest/cache.py", """        if key not in self.__cache:
            return None
        else:
            self.__cache.move_to_end(key)
            return self.__cache[key]
""", """        value = self.__cache.get(key)
        if value:
            self.__cache.move_to_end(key)
        return value
""")], '''
from booktest.cache import LruCache
c = LruCache(2)
c["a"] = 0
c["b"] = 1
assert c["a"] == 0
c["c"] = 2
assert "a" in c and "b" not in c
''')

seed("c09-stale", "C09", "accepting a test that wrote files before and writes none now",
     "the files of the old snapshot stay when the accepted output has none",
     [(REV, """    if path.exists(exp_dir_name):
        shutil.rmtree(exp_dir_name)
    os.rename(out_file_name, exp_file_name)
    if path.exists(out_dir_name):
""", """    os.rename(out_file_name, exp_file_name)
    if path.exists(out_dir_name):
        if path.exists(exp_dir_name):
            shutil.rmtree(exp_dir_name)
""")], '''
first = [True]
def f(t):
    t.tln("a")
    if first[0]:
        write(t.file("data.txt"), "x")
run([("x", f)], config={"accept": True})
first[0] = False
run([("x", f)], config={"accept": True, "update": True})
assert not os.path.exists("books/x/data.txt")
''')

seed("c22-dot", "C22", "a left-over file whose name starts with a dot",
     "cleaning leaves hidden files that no test owns",
     [(TS, "                for f in files:\n                    p =", "                for f in files:\n                    if f.startswith('.'):\n                        continue\n                    p =")], '''
def f(t):
    t.tln("a")
write("books/x.md", "a\\n")
write("books/.env.json", "{}")
main([("x", f)], "--clean")
assert not os.path.exists("books/.env.json")
''')
