"""The surroundings of the code under test: a scratch directory, guarded destructive calls, a clock, input(),
os.system, and reset of process state between paths.  The same in symbolic and concrete runs."""
import asyncio, builtins, copy, io, json, logging, os, pickle, shlex, shutil, subprocess, sys, time, types

from . import core

NOBODY = 65534


class Escape(BaseException):
    """the code tried to touch something outside the scratch directory"""


def drop_privileges():
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
    except OSError:
        pass


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


_real = {}


class Env:
    def __init__(self, base):
        self.base = base                     # owned by this process
        self.dir = os.path.join(base, "p")   # cwd of the code under test
        self.active = False
        self.effect_hook = None
        self.after_effects = False      # also effects after a file was opened or renamed
        self.opened = []
        self.install()
        self.globals0 = None

    # ------------------------------------------------------------ guards
    def inside(self, p):
        if isinstance(p, int):
            return True
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        q = os.path.normpath(os.path.join(_real["getcwd"](), p))
        par = os.path.realpath(os.path.dirname(q))
        q = os.path.join(par, os.path.basename(q))
        return q == self.base or q.startswith(self.base + "/")

    def guard(self, what, *paths):
        if not self.active:
            return
        for p in paths:
            if not self.inside(p):
                raise Escape("%s of %r, outside the scratch directory" % (what, p))

    def effect(self, what, path):
        """called before each change of the file system made by the code under test"""
        if self.active and self.effect_hook is not None:
            h = self.effect_hook
            self.effect_hook = None
            try:
                h(what, path)
            finally:
                if self.effect_hook is None:
                    self.effect_hook = h

    def install(self):
        env = self
        R = _real
        if R:
            raise RuntimeError("one Env per process")
        for n in ("remove", "unlink", "rmdir", "rename", "replace", "mkdir", "makedirs", "system", "getcwd", "symlink",
                  "link", "truncate", "kill", "killpg", "chmod", "chown"):
            R[n] = getattr(os, n)
        R["rmtree"] = shutil.rmtree
        R["move"] = shutil.move
        R["open"] = builtins.open
        R["time"] = time.time
        R["sleep"] = time.sleep
        R["input"] = builtins.input

        def one(n):
            def f(p, *a, **k):
                if env.active and not (k.get("dir_fd") is not None):
                    env.guard("os." + n, p)
                    env.effect(n, p)
                return R[n](p, *a, **k)
            f.__name__ = n
            return f
        for n in ("remove", "unlink", "rmdir", "mkdir", "truncate", "chmod", "chown"):
            setattr(os, n, one(n))

        def two(n):
            def f(a, b, *x, **k):
                if env.active:
                    env.guard("os." + n, a, b)
                    env.effect(n, b)
                    r = R[n](a, b, *x, **k)
                    if env.after_effects:
                        env.effect("after " + n, b)
                    return r
                return R[n](a, b, *x, **k)
            f.__name__ = n
            return f
        for n in ("rename", "replace", "link"):
            setattr(os, n, two(n))

        def symlink(a, b, *x, **k):
            env.guard("os.symlink", b)
            return R["symlink"](a, b, *x, **k)
        os.symlink = symlink

        def rmtree(p, *a, **k):
            if env.active:
                env.guard("shutil.rmtree", p)
                env.effect("rmtree", p)
                h, env.effect_hook = env.effect_hook, None
                try:
                    return R["rmtree"](p, *a, **k)
                finally:
                    env.effect_hook = h
            return R["rmtree"](p, *a, **k)
        shutil.rmtree = rmtree

        def open_(file, mode="r", *a, **k):
            if env.active and isinstance(mode, str) and any(c in mode for c in "wax+") and not isinstance(file, int):
                env.guard("open(%r)" % mode, file)
                env.effect("open", file)
                f = R["open"](file, mode, *a, **k)
                if env.after_effects:
                    env.opened.append(f)
                    env.effect("after open", file)
                return f
            return R["open"](file, mode, *a, **k)
        builtins.open = open_
        io.open = open_

        def blocked(n):
            def f(*a, **k):
                raise Escape("%s is blocked" % n)
            return f
        for n in ("kill", "killpg"):
            setattr(os, n, blocked(n))
        for n in ("execv", "execve", "execvp", "execvpe", "posix_spawn"):
            pass
        os.system = self.system
        R["subprocess_run"], R["Popen"] = subprocess.run, subprocess.Popen

        def run(args, *a, **k):
            if not env.active:
                return R["subprocess_run"](args, *a, **k)
            if core.E.path is not None:
                from . import hooks
                args = hooks.realize(args)
            if isinstance(args, str) and k.get("shell"):
                rc = env.system(args)
            else:
                argv = [args] if isinstance(args, str) else [os.fspath(x) for x in args]
                env.commands.append(" ".join(argv))
                rc = env.command(argv)
            if k.get("check") and rc:
                raise subprocess.CalledProcessError(rc, args)
            return subprocess.CompletedProcess(args, rc, "" if k.get("text") else b"", "" if k.get("text") else b"")

        def call(args, *a, **k):
            return run(args, *a, **k).returncode if env.active else R["Popen"](args, *a, **k).wait()

        def check_call(args, *a, **k):
            k["check"] = True
            return call(args, *a, **k)
        subprocess.run, subprocess.call, subprocess.check_call = run, call, check_call
        time.time = self.time
        time.sleep = self.sleep
        builtins.input = self.input
        from . import coop, hooks
        coop.install(self)
        # symbolic path names are matched with what exists whichever name the function goes by
        for n, m in [(n, os) for n in ("remove", "unlink", "rmdir", "mkdir", "truncate", "chmod", "rename", "replace", "link", "symlink")] + [
                (n, shutil) for n in ("rmtree", "move")] + [("open", builtins)]:
            impl, f = hooks.TABLE.get(R[n]), getattr(m, n)
            if impl is not None and f is not R[n]:
                hooks.TABLE[f] = impl

    # ------------------------------------------------------------ stand ins
    def time(self):
        if not self.active:
            return _real["time"]()
        return self.clock()

    def default_clock(self):
        self._now += 0.0004
        return self._now

    def sleep(self, s):
        if not self.active:
            return _real["sleep"](s)
        if self.sleep_hook is not None:
            return self.sleep_hook(s)
        self._now += s

    def input(self, prompt=""):
        if not self.active:
            return _real["input"](prompt)
        self.prompts.append(str(prompt))
        if self.input_hook is None:
            raise EOFError("no input")
        return self.input_hook(prompt)

    def system(self, cmd):
        """mkdir -p, rm -rf and cat as a shell would run them, confined; anything else is only recorded"""
        if not self.active:
            return _real["system"](cmd)
        if core.E.path is not None:
            from . import hooks
            cmd = hooks.realize(cmd)
        self.commands.append(cmd)
        try:
            argv = shlex.split(cmd)
        except ValueError:
            return 2
        return self.command(argv)

    def command(self, argv):
        if argv[:2] == ["mkdir", "-p"]:
            rc = 0
            for p in argv[2:]:
                self.guard("mkdir -p", p)
                self.effect("mkdir", p)
                try:
                    _real["makedirs"](p, exist_ok=True)
                except OSError:
                    rc = 1
            return rc
        if argv[:2] == ["rm", "-rf"]:
            for p in argv[2:]:
                self.guard("rm -rf", p)
                self.effect("rmtree", p)
                if os.path.isdir(p):
                    _real["rmtree"](p, ignore_errors=True)
                elif os.path.lexists(p):
                    _real["remove"](p)
            return 0
        if argv[:1] == ["cat"]:
            rc = 0
            for p in argv[1:]:
                try:
                    with _real["open"](p) as f:
                        sys.stdout.write(f.read())
                except OSError:
                    rc = 1
            return rc
        self.tools.append(argv)
        return self.tool_rc

    # ------------------------------------------------------------ state between paths
    def remember(self, prefixes=("booktest",)):
        """module level state that a run may change"""
        self.globals0 = []
        for name, mod in list(sys.modules.items()):
            if mod is None or name.split(".")[0] not in prefixes:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__") or isinstance(v, (types.FunctionType, type, types.ModuleType)):
                    continue
                try:
                    c = copy.deepcopy(v)
                except Exception:
                    continue
                self.globals0.append((mod, k, v, c))
        self.names0 = {name: set(vars(mod)) for name, mod in sys.modules.items()
                       if mod is not None and name.split(".")[0] in prefixes}
        self.funcs0 = []
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.split(".")[0] in prefixes:
                for k, v in list(vars(mod).items()):
                    if isinstance(v, (types.FunctionType, type)):
                        self.funcs0.append((mod, k, v))
        self.environ0 = dict(os.environ)
        self.path0 = list(sys.path)
        self.mods0 = set(sys.modules)
        self.session0 = None
        try:
            import requests, httpx
            self.session0 = [(c, n, c.__dict__.get(n)) for c, n in
                             ((requests.Session, "send"), (requests.Session, "get_adapter"),
                              (httpx.HTTPTransport, "handle_request"),
                              (httpx.AsyncHTTPTransport, "handle_async_request"))]
        except ImportError:
            pass

    def fresh_process(self):
        """module level state as in a process that has just imported the code"""
        for mod, k, v, c in self.globals0 or ():
            setattr(mod, k, copy.deepcopy(c))
        for mod, k, v in self.funcs0:
            if vars(mod).get(k) is not v:
                setattr(mod, k, v)
        for name, ks in self.names0.items():
            mod = sys.modules.get(name)
            if mod is not None:
                for k in set(vars(mod)) - ks:
                    delattr(mod, k)

    def begin(self):
        """fresh scratch directory and process state"""
        self.active = False
        self.effect_hook = None
        self.after_effects = False
        self.opened = []
        self.clock = self.default_clock
        self._now = 1000.0
        self.sleep_hook = None
        self.coop = None
        self.input_hook = None
        self.prompts = []
        self.commands = []
        self.tools = []
        self.tool_rc = 0
        self.fresh_process()
        if dict(os.environ) != self.environ0:
            os.environ.clear()
            os.environ.update(self.environ0)
        sys.path[:] = self.path0
        for m in set(sys.modules) - self.mods0:
            if getattr(sys.modules[m], "__file__", None) and str(sys.modules[m].__file__).startswith(self.base):
                del sys.modules[m]
        for c, n, v in self.session0 or ():
            if c.__dict__.get(n) is not v:
                setattr(c, n, v)
        root = logging.getLogger()
        root.handlers = []
        root.setLevel(logging.WARNING)
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        sys.stdout, sys.stderr = self.stdout, self.stderr
        if os.path.exists(self.dir):
            _real["rmtree"](self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        os.chdir(self.dir)
        self.active = True

    def end(self):
        self.active = False
        self.effect_hook = None
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
