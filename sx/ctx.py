"""What a harness sees.  The same harness runs symbolically on the instrumented code and, with the values of a
solver model, on the real code."""
import os
from .core import (E, IS, Path, Pruned, Violation, Inconclusive, SymBool, SymInt, mkbool, asf, f_and, f_or, f_not,
                   charset, ALL_UNICODE, BASE, num, sym)


class CtxBase:
    symbolic = False

    def __init__(self, env, known, tier):
        self.env = env
        self.known = known          # ids of listed findings
        self.tier = tier
        self.obs = []
        self.findings = {}
        self.reached = {}

    def observe(self, label, value):
        self.obs.append([label, value])

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def alpha(self, alphabet):
        return charset(alphabet) if isinstance(alphabet, str) else alphabet

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def flag(self, name):
        return self.pick(name, 2) == 1


class SymCtx(CtxBase):
    symbolic = True

    def char(self, name, alphabet):
        p = E.path
        return p.chr(p.new_char(name, self.alpha(alphabet)))

    def text(self, name, n, alphabet):
        lo, hi = (n, n) if isinstance(n, int) else n
        k = lo if lo == hi else int(self.int(name + "#", lo, hi))
        a = self.alpha(alphabet)
        return "".join(self.char("%s.%d" % (name, i), a) for i in range(k))

    def int(self, name, lo, hi):
        v = E.path.new_int(name, lo, hi)
        key = "i:" + name
        return SymInt(v, lambda m: m[key])

    def pick(self, name, n):
        """an integer in range(n), one path each"""
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if v <= mid:
                hi = mid
            else:
                lo = mid + 1
        return lo

    def eq(self, a, b):
        from . import hooks
        return mkbool(hooks.eq_f(a, b))

    def all(self, conds):
        return mkbool(f_and([asf(c) for c in conds]))

    def any(self, conds):
        return mkbool(f_or([asf(c) for c in conds]))

    def inset(self, c, chars):
        from . import hooks
        return mkbool(hooks.c_in(c, self.alpha(chars)))

    def iff(self, a, b):
        fa, fb = asf(a), asf(b)
        return mkbool(f_or([f_and([fa, fb]), f_and([f_not(fa), f_not(fb)])]))

    def assume(self, cond):
        E.path.assume(asf(cond))

    def check(self, cond, msg, finding=None):
        self.reached["check"] = self.reached.get("check", 0) + 1
        m = E.path.check(asf(cond))
        if m is None:
            return True
        if finding is not None and finding in self.known:
            if finding not in self.findings:
                self.findings[finding] = (self.message(msg, m), m)
            return False
        E.path.dead = True
        raise Violation(self.message(msg, m), m)

    def message(self, msg, m):
        if not callable(msg):
            return str(msg)
        E.path.pinned = m
        try:
            return str(msg())
        finally:
            E.path.pinned = None

    def fail(self, msg, finding=None):
        return self.check(False, msg, finding)


class ConcCtx(CtxBase):
    def __init__(self, env, known, tier, model):
        super().__init__(env, known, tier)
        self.model = model

    def char(self, name, alphabet):
        v = self.model.get("c:" + name)
        if v is None:
            v = ord(sym(self.alpha(alphabet)[0][0]))
        return chr(v)

    def text(self, name, n, alphabet):
        lo, hi = (n, n) if isinstance(n, int) else n
        k = lo if lo == hi else self.int(name + "#", lo, hi)
        return "".join(self.char("%s.%d" % (name, i), alphabet) for i in range(k))

    def int(self, name, lo, hi):
        return self.model.get("i:" + name, lo)

    def pick(self, name, n):
        return 0 if n == 1 else self.int(name, 0, n - 1)

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def inset(self, c, chars):
        return self.alpha(chars).has(num(ord(c)))

    def iff(self, a, b):
        return bool(a) == bool(b)

    def assume(self, cond):
        if not cond:
            raise Pruned()

    def check(self, cond, msg, finding=None):
        if cond:
            return True
        msg = str(msg() if callable(msg) else msg)
        if finding is not None and finding in self.known:
            self.findings.setdefault(finding, (msg, self.model))
            return False
        raise Violation(msg, self.model)

    def fail(self, msg, finding=None):
        return self.check(False, msg, finding)


class Harness:
    """fn(ctx, **params); params per tier; `doc` says what is symbolic and what is checked"""

    def __init__(self, name, fn, quick=None, thorough=None, timeout=20, doc="", bounds="", witness=()):
        self.name, self.fn = name, fn
        self.params = {"quick": quick or {}, "thorough": thorough if thorough is not None else (quick or {})}
        self.timeout = timeout
        self.doc = doc or (fn.__doc__ or "").strip()
        self.bounds = bounds
        self.witness = witness      # reach labels that must be seen at least once
