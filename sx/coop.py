"""Threads and process pools under control of the harness: one thread runs at a time, it changes only at sleeps, locks and
joins, and a pool's tasks finish when the harness says so.  Off (env.coop is None), everything is the real thing."""
import _thread, multiprocessing, sys, threading, traceback


class Stuck(BaseException):
    """the run does not end"""


class Killed(BaseException):
    """a leftover thread is taken down"""


_allocate = _thread.allocate_lock


class Coop:
    def __init__(self, preempt=None, bound=3000):
        self.preempt = preempt          # () -> bool: change thread here?
        self.bound = bound
        self.switches = 0
        self.threads = []               # of _Task
        self.main = _Task(None)
        self.main.alive = True
        self.current = self.main
        self.threads.append(self.main)
        self.pending = None             # exception for the main thread
        self.killing = False
        self.died = []                  # texts of exceptions that ended threads
        self.events = []
        self.pools = []

    # ---------------------------------------------------------- switching
    def switch(self):
        """let the next living thread run"""
        if self.killing:
            if self.current is not self.main:
                raise Killed()
            return
        me = self.current
        self.switches += 1
        if self.switches > self.bound:
            self.stop(Stuck("no progress after %d changes of threads%s" %
                            (self.bound, "; a thread ended with " + self.died[-1] if self.died else "")))
        live = [t for t in self.threads if t.alive]
        i = live.index(me) if me in live else -1
        self.give(live[(i + 1) % len(live)])

    def give(self, t):
        me = self.current
        if t is me:
            return
        self.current = t
        t.baton.release()
        if me.alive:
            me.baton.acquire()
            self.resumed(me)

    def resumed(self, me):
        if self.killing and me is not self.main:
            raise Killed()
        if me is self.main and self.pending is not None:
            e, self.pending = self.pending, None
            raise e

    def stop(self, e):
        """an exception of the harness or the engine: the main thread raises it"""
        if self.current is self.main:
            raise e
        if self.pending is None:
            self.pending = e
        raise Killed()

    def maybe(self):
        if self.preempt is not None and not self.killing and len([t for t in self.threads if t.alive]) > 1:
            if self.preempt():
                self.switch()

    def finish(self):
        """take down what is left"""
        self.killing = True
        for t in self.threads:
            if t is not self.main and t.alive and t.started:
                self.current = t
                t.baton.release()
                t.real_join()

    # ---------------------------------------------------------- threads
    def run(self, task, target):
        task.baton.acquire()
        try:
            if self.killing:
                return
            target()
        except Killed:
            pass
        except Exception as e:
            self.died.append("%s: %s" % (type(e).__name__, e))
        except BaseException as e:
            if self.pending is None:
                self.pending = e
        finally:
            task.alive = False
            if not self.killing:
                self.current = self.main
                self.main.baton.release()


class _Task:
    def __init__(self, thread):
        self.thread = thread
        self.alive = False
        self.started = False
        self.baton = _allocate()
        self.baton.acquire()

    def real_join(self):
        RealThread.join(self.thread, 10)


class CoopLock:
    def __init__(self, coop):
        self.coop = coop
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        self.coop.maybe()
        n = 0
        while self.held:
            if not blocking or (timeout is not None and timeout >= 0 and n > 3):
                return False
            n += 1
            self.coop.switch()
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        if not self.coop.killing:
            self.coop.maybe()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


RealThread = threading.Thread
_real = dict(Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock,
             get_context=multiprocessing.get_context, Pool=multiprocessing.Pool)


class Task:
    """what apply_async returns"""

    def __init__(self, pool, fn, args):
        self.pool, self.fn, self.args = pool, fn, args
        self.finished = False
        self.value = self.error = None

    def ready(self):
        if not self.finished and not self.pool.coop.killing:
            self.pool.poll(self)
        return self.finished

    def get(self, timeout=None):
        self.wait(timeout)
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        while not self.ready():
            self.pool.coop.switch()

    def successful(self):
        return self.error is None


class Pool:
    """tasks wait in a queue; `poll` is called when the code looks at a task and may finish any of them"""

    def __init__(self, coop, processes):
        self.coop, self.processes = coop, processes
        coop.pools.append(self)
        self.tasks = []
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        t = Task(self, fn, tuple(args))
        t.callback, t.error_callback = callback, error_callback
        self.tasks.append(t)
        self.coop.on_start(t)
        return t

    def poll(self, task):
        self.coop.on_poll(task)

    def complete(self, task):
        try:
            task.value = self.coop.work(task)
        except Exception as e:
            task.error = e
        task.finished = True

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        # every task handed over is finished first
        for t in self.tasks:
            if not t.finished and not self.coop.killing:
                self.complete(t)


def install(env):
    env.coop = None

    class CoopThread(RealThread):
        def __init__(self, *a, **k):
            coop, env.coop = env.coop, None
            try:
                RealThread.__init__(self, *a, **k)
                if coop is not None:
                    self.daemon = True
            finally:
                env.coop = coop

        def start(self):
            coop = env.coop
            if coop is None:
                return RealThread.start(self)
            self._coop = coop
            task = self._task = _Task(self)
            coop.threads.append(task)
            body = self.run
            self.run = lambda: coop.run(task, body)
            task.alive = task.started = True
            env.coop = None
            try:
                RealThread.start(self)
            finally:
                env.coop = coop
            coop.maybe()

        def join(self, timeout=None):
            coop = getattr(self, "_coop", None)
            if coop is None:
                return RealThread.join(self, timeout)
            n = 0
            while self._task.alive and not coop.killing:
                n += 1
                if timeout is not None and n > 3:
                    return
                coop.switch()

        def is_alive(self):
            if getattr(self, "_coop", None) is not None:
                return self._task.alive
            return RealThread.is_alive(self)
    CoopThread.__name__ = CoopThread.__qualname__ = "Thread"
    threading.Thread = CoopThread

    def lock():
        return CoopLock(env.coop) if env.coop is not None else _real["Lock"]()
    threading.Lock = lock

    def rlock():
        return threading._PyRLock() if env.coop is not None else _real["RLock"]()
    threading.RLock = rlock

    def alloc():
        return CoopLock(env.coop) if env.coop is not None else _real["alloc"]()
    threading._allocate_lock = alloc

    class Context:
        def Pool(self, processes=None, *a, **k):
            return Pool(env.coop, processes)

        def Lock(self):
            return lock()

        def cpu_count(self):
            return 2

    def get_context(*a, **k):
        return Context() if env.coop is not None else _real["get_context"](*a, **k)
    multiprocessing.get_context = get_context

    def pool(processes=None, *a, **k):
        return Pool(env.coop, processes) if env.coop is not None else _real["Pool"](processes, *a, **k)
    multiprocessing.Pool = pool
