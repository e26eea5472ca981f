"""More small changes: (properties that must notice, name, file, old, new)"""
T = "testcaserun.py"
MUTANTS = [
 ("C01", "diff-only-first-line", T, "        if self.line_diff is None:\n            self.line_diff = len(self.out_line)", "        if self.line_diff is None and self.diffs == 0:\n            self.line_diff = len(self.out_line)"),
 ("C01", "last-line-unchecked", T, "            self.feed_token(\"\\n\", check=self.last_checked)\n        elif self.line_error", "            self.feed_token(\"\\n\")\n        elif self.line_error"),
 ("C01", "empty-snapshot-ok", T, "        self.exp_file_exists = path.exists(self.exp_file_name)", "        self.exp_file_exists = path.exists(self.exp_file_name) and path.getsize(self.exp_file_name) > 0"),
 ("C01", "line-end-case", T, "           and token != exp_token \\", "           and token.lower() != (exp_token.lower() if exp_token is not None else None) \\"),
 ("C01", "crlf", T, "self.exp_line = line[:-1] if line.endswith('\\n') else line", "self.exp_line = line.rstrip() if line.endswith('\\n') else line"),
 ("C01", "no-diff-new", T, "elif self.diffs != 0 or not path.exists(self.exp_file_name):", "elif self.diffs != 0:"),
 ("C03", "ifloat-float", T, "        except ValueError:\n            old = None", "        except ValueError:\n            old = 0.0 / 1 if False else old"),
 ("C03", "ifloat-inf", T, "                old = float(old)", "                old = int(float(old) * 1000) / 1000"),
 ("C03", "set-last-checked", T, "        self.last_checked = check\n", "        self.last_checked = check or self.last_checked\n"),
 ("C07", "header-check", T, "check = self.last_checked and self.exp_line is not None", "check = self.exp_line is not None"),
 ("C07", "header-check2", T, "check = self.last_checked and self.exp_line is not None", "check = self.last_checked"),
 ("C04", "assert-none", T, "        if cond:\n            self.iln(\"ok\")", "        if cond or cond is None:\n            self.iln(\"ok\")"),
 ("C04", "fail-unfinished", T, "        elif self.line_error is not None or self.line_diff is not None:\n            self.report_line()", "        elif self.line_diff is not None:\n            self.report_line()"),
 ("C04", "must-equal-is", T, "lambda x: x == value)", "lambda x: x == value or x is None)"),
 ("C04", "must-be-a", T, "lambda x: type(x) == typ,", "lambda x: isinstance(x, typ),"),
 ("C04", "contain-empty", T, "lambda x: member in x)", "lambda x: member in x or not x)"),
 ("C04", "tms-bound", T, "        if ms > max_ms:\n", "        if int(ms) > max_ms:\n"),
 ("C04", "errors-one", T, "                self.errors += 1\n", "                self.errors ^= 1\n"),
 ("C04", "base-exception", "testrun.py", "            t.iln().fail().iln(f\"test raised exception {e}:\")", "            t.iln()\n            if len(str(e)) > 0:\n                t.fail()\n            t.iln(f\"test raised exception {e}:\")"),
 ("C05", "report-width", T, "{self.out_line:60s} | \"\n                            f\"{self.exp_line}\")", "{self.out_line:.60s} | \"\n                            f\"{self.exp_line}\")"),
 ("C05", "report-symbol", T, "            self.report(f\"  {self.out_line}\")", "            self.report(f\"  {self.out_line}\".rstrip())"),
 ("C05", "error-wins", T, "            if self.line_error is not None:\n                symbol = \"!\"", "            if self.line_error is not None:\n                symbol = \"!\" if self.line_diff is None else \"?\""),
 ("C05", "eof", T, "            if self.exp_line is not None:\n                self.report(f\"{symbol}", "            if self.exp_line:\n                self.report(f\"{symbol}"),
 ("C07", "seek-from-next", T, "            self.jump(begin)\n                while", "            self.jump(begin + 1)\n                while"),
 ("C07", "seek-no-restart", T, "                       and self.exp_line_number < at_line_number):", "                       and self.exp_line_number < at_line_number - 1):"),
 ("C07", "seek-prefix-strip", T, "lambda x: x.startswith(prefix))", "lambda x: x.strip().startswith(prefix.strip()))"),
 ("C07", "jump-number", T, "            if line_number < self.exp_line_number:\n                self.reset", "            if line_number < self.exp_line_number and self.exp is not None:\n                self.reset"),
 ("C07", "seek-skip-current", T, "            at_line_number = self.exp_line_number\n", "            at_line_number = self.exp_line_number\n            if self.last_checked and self.exp_line is not None and self.line_number > 3:\n                self.next_exp_line()\n"),
 ("C08", "leftover-one", T, "            if len(compare) > 0:\n                self.diff()", "            if len(compare) > 1:\n                self.diff()"),
 ("C08", "no-remove", T, "                    compare.remove(i_str)\n", "                    compare.discard(i_str.strip())\n"),
 ("C08", "no-jump", T, "                self.diff()\n            self.jump(end)", "                self.diff()\n                self.jump(end)"),
 ("C08", "late-diff", T, "            if len(compare) > 0:\n                self.diff()", "            if len(compare) > 0 and self.exp_line is not None:\n                self.diff()"),
 ("C28", "tmp-kept", T, "        if path.exists(self.out_tmp_dir_name):\n            shutil.rmtree(self.out_tmp_dir_name)", "        if path.exists(self.out_tmp_dir_name) and len(os.listdir(self.out_tmp_dir_name)) < 2:\n            shutil.rmtree(self.out_tmp_dir_name)"),
 ("C28", "rel-prefix", T, "abs_file.startswith(os.path.join(abs_out_base_dir, \"\"))", "abs_file.startswith(abs_out_base_dir)"),
 ("C28", "hash-first-chunk", T, "                for chunk in iter(lambda: f.read(4096), b\"\"):\n                    sha1.update(chunk)", "                sha1.update(f.read(4096))"),
 ("C28", "tmp-dir-exist", T, "        rv = self.tmp_path(dir_name)\n        os.mkdir(rv)", "        rv = self.tmp_path(dir_name)\n        os.makedirs(rv, exist_ok=True)"),
 ("C30", "bool-value", T, "        rv = value_type.__name__\n", "        rv = value_type.__name__ if value is not None else None\n"),
 ("C30", "dict-sort", T, "        for key in value:\n            rv[key]", "        for key in sorted(value):\n            rv[key]"),
 ("C30", "list-same", T, "            rv.append(value_format(item))", "            f = value_format(item)\n            if f not in rv or len(rv) > 1:\n                rv.append(f)"),
 ("C31", "col-by-pos", T, "pad = \" \" * (pads[j]-len(buf))", "pad = \" \" * (pads[j]-len(str(df[column][i])))"),
 ("C31", "info-cell", T, "                self.t(buf)\n\n", "                (self.t if buf else self.i)(buf)\n\n"),
 ("C31", "header-pads", T, "                max_len = max(max_len, len(str(df[column][i])))", "                max_len = max(max_len, len(str(df[column][i]).strip()))"),
 ("C31", "index-first", T, "        df = df.reset_index(drop=True)", "        df = df if df.index.is_unique else df.drop_duplicates().reset_index(drop=True)"),
 ("C31", "pad-isspace", T, "if exp is None or exp.isspace():", "if exp is None or exp != '|':"),
 ("C25", "formatter", T, "formatter = self.orig_handlers[0].formatter", "formatter = self.orig_handlers[-1].formatter"),
 ("C25", "handlers-append", T, "        logger.handlers = [self.log]\n", "        logger.handlers.append(self.log)\n"),
 ("C25", "stderr-real", T, "            sys.stderr = self.orig_err\n", "            sys.stderr = sys.__stderr__\n"),
 ("C02", "anchor-info", T, "        self.tln(f\" {value}\")\n", "        self.tln(f\" {str(value).strip()}\")\n"),
 ("C02", "image-alt", T, "os.path.splitext(os.path.basename(file))[0]", "os.path.splitext(os.path.basename(file))[0] + str(self.exp_file_exists)"),
 ("C05", "keyvalue-strip", T, "        self.tln(f\" {value}\")\n", "        self.tln(f\" {str(value).strip()}\")\n"),
 ("C05", "format-sort", T, "json.dumps(value_format(value), indent=2)", "json.dumps(value_format(value), indent=2, sort_keys=True)"),
]
