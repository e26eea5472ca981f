"""Parallel runs: the code's own runner over a process pool and threads that the harness controls."""
import io, os, sys
from sx import coop as C
from props import lib
import booktest.runs as runs
from booktest.cache import LruCache


class World(C.Coop):
    """late: how many times a look at a task may find it unfinished; preempts: changes of threads at locks"""

    def __init__(self, ctx, late, preempts=0, fails=None, shared=True):
        super().__init__(preempt=self.may_preempt if preempts else None)
        self.ctx = ctx
        self.late, self.preempts = late, preempts
        self.fails = fails or {}
        self.shared = shared
        self.asked = self.offered = 0
        self.working = False
        self.started, self.finished = [], []
        self.on_started = None

    def may_preempt(self):
        if self.preempts <= 0 or self.working:
            return False
        self.offered += 1
        if self.ctx.flag("preempt%d" % self.offered):
            self.preempts -= 1
            return True
        return False

    def on_start(self, task):
        name = task.args[0]
        if self.on_started is not None:
            self.on_started(name, [x for x in self.started if x not in self.finished], list(self.finished))
        self.started.append(name)

    def on_poll(self, task):
        if self.late > 0:
            self.asked += 1
            if self.ctx.flag("late%d" % self.asked):
                self.late -= 1
                return
        task.pool.complete(task)

    def work(self, task):
        name = task.args[0]
        old = sys.stdout
        self.working = True
        sys.stdout = io.StringIO()
        if not self.shared and hasattr(runs, "PROCESS_LOCAL_CACHE"):
            # another worker process
            runs.PROCESS_LOCAL_CACHE = LruCache(8)
        try:
            how = self.fails.get(name)
            if how == "dead":
                raise RuntimeError("the worker failed")
            rv = task.fn(*task.args)
            if how == "torn":
                # it ended before its report was on disk
                for root, dirs, files in os.walk("books/.out/.batches"):
                    for f in files:
                        if f == "cases.txt" and lib.read(os.path.join(root, f)).startswith(name + "\t"):
                            lib.write(os.path.join(root, f), "")
            return rv
        finally:
            sys.stdout = old
            self.working = False
            self.finished.append(name)

    def sleep(self, s):
        self.ctx.env._now += s
        if not self.working:
            self.switch()


    def run_main(self, tests, args, main=None, **k):
        env = self.ctx.env
        env.coop = self
        env.sleep_hook = self.sleep
        try:
            return (main or lib.main)(tests, args, **k)
        except C.Stuck as e:
            self.ctx.fail("the run does not end: %s" % e)
        finally:
            self.finish()
            env.coop = None
            env.sleep_hook = None


class Overlap(World):
    """a worker is stopped at one of its changes of files, another does all its work, and the first goes on"""

    def __init__(self, ctx, most):
        super().__init__(ctx, 0, shared=False)
        self.at = ctx.int("stopped at", 0, most)
        self.first = ctx.flag("the later first")
        self.count = 0
        self.met = False
        self.process = self.state()

    def state(self):
        import logging
        root = logging.getLogger()
        return dict(out=sys.stdout, err=sys.stderr, handlers=root.handlers, listed=list(root.handlers), level=root.level,
                    cache=getattr(runs, "PROCESS_LOCAL_CACHE", None), environ=dict(os.environ))

    def put(self, st):
        import logging
        root = logging.getLogger()
        sys.stdout, sys.stderr = st["out"], st["err"]
        root.handlers = st["handlers"]
        root.handlers[:] = st["listed"]
        root.level = st["level"]
        if hasattr(runs, "PROCESS_LOCAL_CACHE"):
            runs.PROCESS_LOCAL_CACHE = st["cache"]
        os.environ.clear()
        os.environ.update(st["environ"])

    def on_poll(self, task):
        waiting = [t for t in task.pool.tasks if not t.finished]
        if self.first:
            task = waiting[-1]
        task.pool.complete(task)

    def work(self, task):
        others = [t for t in task.pool.tasks if not t.finished and t is not task]
        env = self.ctx.env
        if self.met or not others:
            return super().work(task)

        def hook(what, path):
            if self.met or env._now is None:
                return
            if bool(self.at == self.count):
                self.met = True
                self.other(others[0])
            self.count += 1
        env.effect_hook, env.after_effects = hook, True
        try:
            return super().work(task)
        finally:
            env.effect_hook, env.after_effects = None, False

    def other(self, task):
        env = self.ctx.env
        mine, hook = self.state(), env.effect_hook
        env.effect_hook, env.after_effects = None, False
        self.put(self.process)
        error = []

        def body():
            try:
                task.pool.complete(task)
            except BaseException as e:
                error.append(e)
        coop, env.coop = env.coop, None
        try:
            th = C.RealThread(target=body)
            th.start()
            th.join()
        finally:
            env.coop = coop
            self.put(mine)
            self.working = True
            env.effect_hook, env.after_effects = hook, True
        if error:
            raise error[0]
