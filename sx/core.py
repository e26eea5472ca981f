"""Path-exploring symbolic execution core.

Symbolic characters are solver variables.  At run time a symbolic character is carried by an ordinary str whose
code point lies in plane 15 (U+F0000 + id), so that everything that merely moves text around (slicing, joining,
formatting, files, pickling) works unchanged, and everything that looks at text goes through hooks.py, which the
instrumented code calls, and ends here in `decide`: both outcomes of a condition are put to the solver, one is
taken and the other is queued.  A path is re-executed from the start with its decision prefix.
"""
import os, sys, time

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

BASE = 0xF0000
TOP = 0xFFFFD
BASE_CHR = chr(BASE)


# ---------------------------------------------------------------- outcomes (BaseException: code under test must not catch them)
class Pruned(BaseException):
    """an assumption excludes this path"""


class Violation(BaseException):
    def __init__(self, msg, model, known=None):
        super().__init__(msg)
        self.msg, self.model, self.known = msg, model, known


class Inconclusive(BaseException):
    """the engine cannot decide (unsupported, solver unknown)"""


class PathTimeout(BaseException):
    pass


class CrashNow(BaseException):
    """simulated death of the process"""


# ---------------------------------------------------------------- sets of code points
class IS(tuple):
    """sorted disjoint closed intervals"""
    __slots__ = ()

    def has(self, v):
        for lo, hi in self:
            if v < lo:
                return False
            if v <= hi:
                return True
        return False

    def size(self):
        return sum(h - l + 1 for l, h in self)

    def inter(self, o):
        r = []
        i = j = 0
        while i < len(self) and j < len(o):
            l = max(self[i][0], o[j][0])
            h = min(self[i][1], o[j][1])
            if l <= h:
                r.append((l, h))
            if self[i][1] < o[j][1]:
                i += 1
            else:
                j += 1
        return IS(r)

    def minus(self, o):
        r = []
        for l, h in self:
            for ol, oh in o:
                if oh < l or ol > h:
                    continue
                if ol > l:
                    r.append((l, ol - 1))
                l = oh + 1
                if l > h:
                    break
            if l <= h:
                r.append((l, h))
        return IS(r)

    def union(self, o):
        r = []
        for l, h in sorted(list(self) + list(o)):
            if r and l <= r[-1][1] + 1:
                r[-1] = (r[-1][0], max(r[-1][1], h))
            else:
                r.append((l, h))
        return IS(r)

    def values(self):
        for l, h in self:
            yield from range(l, h + 1)


# Characters are numbered so that the sets str's predicates define are few intervals: ASCII as it is, then the rest
# sorted by what the predicates say about it.  `num` and `sym` convert; surrogates have no number.
PREDS = ("isspace", "isalnum", "isalpha", "isnumeric", "isdecimal", "isdigit", "isupper", "islower", "istitle",
         "isprintable")


def _numbering():
    import operator
    fs = [operator.methodcaller(p) for p in PREDS]
    codes = [v for v in list(range(0x80, 0xD800)) + list(range(0xE000, 0x32400)) + list(range(0xE0000, 0xE0200))]
    rest = [(0x32400, 0xDFFFF), (0xE0200, 0xEFFFF)]

    def sig(v):
        c = chr(v)
        return sum(1 << i for i, f in enumerate(fs) if f(c)) | (1024 if len(c.splitlines()) != 1 or c.splitlines() != [c] else 0)
    groups = {}
    for v in codes:
        groups.setdefault(sig(v), []).append(v)
    order = []
    bounds = []
    for g in sorted(groups):
        bounds.append((128 + len(order), 128 + len(order) + len(groups[g]) - 1, g))
        order.extend(groups[g])
    return order, rest, bounds


_order, _rest, _bounds = _numbering()
_num = {v: 128 + i for i, v in enumerate(_order)}
_R0 = 128 + len(_order)
_NR0 = _rest[0][1] - _rest[0][0] + 1
NCHARS = _R0 + _NR0 + _rest[1][1] - _rest[1][0] + 1


def num(code):
    """the number of a code point; -1 if it cannot be the value of a symbolic character"""
    if code < 128:
        return code
    r = _num.get(code)
    if r is not None:
        return r
    if _rest[0][0] <= code <= _rest[0][1]:
        return _R0 + code - _rest[0][0]
    if _rest[1][0] <= code <= _rest[1][1]:
        return _R0 + _NR0 + code - _rest[1][0]
    return -1


def sym(n):
    """the character with that number"""
    if n < 128:
        return chr(n)
    if n < _R0:
        return chr(_order[n - 128])
    n -= _R0
    return chr(_rest[0][0] + n) if n < _NR0 else chr(_rest[1][0] + n - _NR0)


_is_cache = {}


def charset(s):
    """IS of the characters of a string"""
    r = _is_cache.get(s)
    if r is None:
        r = IS()
        for v in sorted(set(num(ord(c)) for c in s)):
            if v >= 0:
                r = r.union(IS([(v, v)]))
        _is_cache[s] = r
    return r


_pred_cache = {}


def predset(name, f=None):
    """IS of all characters c with c.<name>() true, or f(c)"""
    r = _pred_cache.get(name)
    if r is None:
        if f is None:
            if name not in PREDS:
                raise Inconclusive("str." + name)
            bit = 1 << PREDS.index(name)
            out = [(l, h) for l, h, g in _bounds if g & bit]
            for n in range(128):
                if getattr(chr(n), name)():
                    out.append((n, n))
            if getattr(chr(_rest[0][0]), name)():
                out.append((_R0, NCHARS - 1))
            r = IS().union(IS(out))
        else:
            out, start = [], None
            for v in range(0, _R0):
                t = f(sym(v))
                if t and start is None:
                    start = v
                elif not t and start is not None:
                    out.append((start, v - 1))
                    start = None
            if start is not None:
                out.append((start, _R0 - 1))
            if f(sym(_R0)):
                out.append((_R0, NCHARS - 1))
            r = IS().union(IS(out))
        _pred_cache[name] = r
    return r


ALL_UNICODE = IS([(0, NCHARS - 1)])
ASCII = IS([(0, 127)])


def single_c(c):
    v = num(ord(c))
    return IS([(v, v)]) if v >= 0 else IS()


def out_model(m):
    """a model with code points instead of character numbers"""
    return {k: ord(sym(v)) if k[0] == "c" else v for k, v in m.items()}


def single(v):
    return IS([(v, v)])


# ---------------------------------------------------------------- formulas
# ('in', cid, IS) ('eq', cid, cid) ('and', tuple) ('or', tuple) ('not', f) ('z', key, z3expr, pyfunc) or Python bool

def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    return ("not", f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


class Engine:
    def __init__(self):
        self.names = {}      # char variable name -> cid
        self.cname = []      # cid -> name
        self.cvar = []       # cid -> z3 Int
        self.ivar = {}       # int variable name -> z3 Int
        self.zcache = {}
        self.solver = None
        self.stack = []
        self.marks = []      # where each solver scope begins in the stack      # z3 expressions currently pushed
        self.path = None
        self.stats = dict(paths=0, pruned=0, decisions=0, forced=0, queries=0, solver_s=0.0, obligations=0,
                          sat=0, unsat=0, replays=0)
        self.realized = {}

    # ------------------------------------------------------------ variables
    def char(self, name):
        cid = self.names.get(name)
        if cid is None:
            cid = len(self.cname)
            self.names[name] = cid
            self.cname.append(name)
            self.cvar.append(z3.Int("c:" + name))
        return cid

    def int(self, name):
        v = self.ivar.get(name)
        if v is None:
            v = self.ivar[name] = z3.Int("i:" + name)
        return v

    # ------------------------------------------------------------ z3 encoding
    def z(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if f[0] == "z":
            return f[2]
        r = self.zcache.get(f)
        if r is not None:
            return r
        k = f[0]
        if k == "in":
            v = self.cvar[f[1]]
            parts = [(v == lo) if lo == hi else z3.And(v >= lo, v <= hi) for lo, hi in f[2]]
            r = z3.BoolVal(False) if not parts else parts[0] if len(parts) == 1 else z3.Or(parts)
        elif k == "eq":
            r = self.cvar[f[1]] == self.cvar[f[2]]
        elif k == "and":
            r = z3.And([self.z(g) for g in f[1]])
        elif k == "or":
            r = z3.Or([self.z(g) for g in f[1]])
        elif k == "not":
            r = z3.Not(self.z(f[1]))
        else:
            raise AssertionError(k)
        self.zcache[f] = r
        return r

    def sync(self):
        """make the solver stack hold exactly the path's constraints"""
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 60000)
        cons = self.path.cons
        stack, marks = self.stack, self.marks
        n = 0
        while n < len(stack) and n < len(cons) and stack[n] is cons[n]:
            n += 1
        k = 0
        while marks and len(stack) > n:
            # scopes hold the constraints added between two queries
            k += 1
            del stack[marks.pop():]
        if k:
            self.solver.pop(k)
        n = len(stack)
        if n < len(cons):
            self.solver.push()
            marks.append(n)
            new = cons[n:]
            self.solver.add(*new)
            stack.extend(new)

    def query(self, extra=None):
        """sat? of the path condition (and extra); the model values or None"""
        self.sync()
        t = time.perf_counter()
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        self.stats["queries"] += 1
        m = None
        if r == z3.sat:
            self.stats["sat"] += 1
            m = self.extract(self.solver.model())
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        if extra is not None:
            self.solver.pop()
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive("solver: unknown (" + self.solver.reason_unknown() + ")")
        return m

    def extract(self, zm):
        p = self.path
        out = {}
        for cid in p.chars:
            out["c:" + self.cname[cid]] = zm.eval(self.cvar[cid], model_completion=True).as_long()
        for n in p.ints:
            out["i:" + n] = zm.eval(self.ivar[n], model_completion=True).as_long()
        return out


E = Engine()


class Path:
    def __init__(self, prefix=(), model=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.cons = []
        self.model = model
        self.chars = {}      # cid -> None (creation order)
        self.ints = {}
        self.dom = {}        # rep cid -> IS
        self.rep = {}        # cid -> cid
        self.decided = {}
        self.alts = []       # (prefix, model) queued by this path
        self.intvals = {}
        self.tables = {}     # per path tables of opaque injective functions
        self.order = []      # local index (what a placeholder carries) -> cid; independent of other paths
        self.local = {}
        self.dead = False
        self.pinned = None   # a model: values are read from it, nothing is decided
        self.reached = {}

    # -------------------------------------------------- variables
    def chr(self, cid):
        return chr(BASE + self.local[cid])

    def find(self, c):
        r = self.rep
        while r[c] != c:
            c = r[c]
        return c

    def new_char(self, name, dom, extra=None, init=None):
        """a fresh symbolic character; `extra` is a z3 constraint that defines it, `init` its value under a model"""
        cid = E.char(name)
        if cid in self.chars:
            return cid
        self.chars[cid] = None
        self.local[cid] = len(self.order)
        self.order.append(cid)
        self.rep[cid] = cid
        self.dom[cid] = dom
        self.cons.append(E.z(("in", cid, dom)) if extra is None else extra)
        if self.model is not None and "c:" + name not in self.model:
            self.model["c:" + name] = init(self.model) if init else dom[0][0]
        return cid

    def new_int(self, name, lo, hi):
        v = E.int(name)
        if name in self.ints:
            return v
        self.ints[name] = (lo, hi)
        key = ("idom", name, lo, hi)
        e = E.zcache.get(key)
        if e is None:
            e = E.zcache[key] = z3.And(v >= lo, v <= hi)
        self.cons.append(e)
        if self.model is not None and "i:" + name not in self.model:
            self.model["i:" + name] = lo
        return v

    # -------------------------------------------------- three-valued evaluation from what is already decided
    def eval3(self, f):
        if f is True or f is False:
            return f
        d = self.decided.get(f if f[0] != "z" else ("z", f[1]))
        if d is not None:
            return d
        k = f[0]
        if k == "in":
            d = self.dom[self.find(f[1])]
            i = d.inter(f[2])
            if not i:
                return False
            if i == d:
                return True
            return None
        if k == "eq":
            a, b = self.find(f[1]), self.find(f[2])
            if a == b:
                return True
            da, db = self.dom[a], self.dom[b]
            i = da.inter(db)
            if not i:
                return False
            if da.size() == 1 and db.size() == 1:
                return True
            return None
        if k == "not":
            r = self.eval3(f[1])
            return None if r is None else not r
        if k == "and":
            res = True
            for g in f[1]:
                r = self.eval3(g)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if k == "or":
            res = False
            for g in f[1]:
                r = self.eval3(g)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        return None

    def evalm(self, f, m):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "in":
            return f[2].has(m["c:" + E.cname[f[1]]])
        if k == "eq":
            return m["c:" + E.cname[f[1]]] == m["c:" + E.cname[f[2]]]
        if k == "not":
            return not self.evalm(f[1], m)
        if k == "and":
            return all(self.evalm(g, m) for g in f[1])
        if k == "or":
            return any(self.evalm(g, m) for g in f[1])
        return bool(f[3](m))

    def refine(self, f, val):
        if f is True or f is False:
            return
        k = f[0]
        self.decided[f if k != "z" else ("z", f[1])] = val
        if k == "in":
            r = self.find(f[1])
            d = self.dom[r]
            self.dom[r] = d.inter(f[2]) if val else d.minus(f[2])
        elif k == "eq":
            a, b = self.find(f[1]), self.find(f[2])
            if val:
                if a != b:
                    if self.local[b] < self.local[a]:
                        a, b = b, a
                    d = self.dom[a].inter(self.dom[b])
                    self.rep[b] = a
                    self.dom[a] = d
            else:
                if self.dom[a].size() == 1:
                    self.dom[b] = self.dom[b].minus(self.dom[a])
                elif self.dom[b].size() == 1:
                    self.dom[a] = self.dom[a].minus(self.dom[b])
        elif k == "not":
            self.refine(f[1], not val)
        elif k == "and" and val:
            for g in f[1]:
                self.refine(g, True)
        elif k == "or" and not val:
            for g in f[1]:
                self.refine(g, False)

    def add(self, f, val):
        g = f if val else f_not(f)
        self.cons.append(E.z(g))
        self.refine(f, val)

    def ensure_model(self):
        if self.model is None:
            self.model = E.query()
            if self.model is None:
                raise Inconclusive("infeasible path reached")

    # -------------------------------------------------- branching
    def decide(self, f):
        r = self.eval3(f)
        if r is not None:
            return r
        if self.pinned is not None:
            return self.evalm(f, self.pinned)
        if self.dead:
            raise Pruned()
        E.stats["decisions"] += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            if val is not True and val is not False:
                raise Inconclusive("path replay diverged")
            self.pos += 1
            self.decisions.append(val)
            self.add(f, val)
            return val
        self.ensure_model()
        val = self.evalm(f, self.model)
        other = E.query(E.z(f_not(f) if val else f))
        if other is not None:
            self.alts.append((self.decisions + [not val], other))
        else:
            E.stats["forced"] += 1
        self.pos += 1
        self.decisions.append(val)
        self.add(f, val)
        return val

    def assume(self, f):
        r = self.eval3(f)
        if r is True:
            return
        if r is False:
            raise Pruned()
        if self.pos < len(self.prefix):
            self.add(f, True)
            return
        self.ensure_model()
        if not self.evalm(f, self.model):
            m = E.query(E.z(f))
            if m is None:
                raise Pruned()
            self.model = m
        self.add(f, True)

    def check(self, f):
        """None if f holds for every value on this path, else a model that breaks it"""
        E.stats["obligations"] += 1
        if f is False:
            self.ensure_model()
            m = E.query()
            return m if m is not None else self.model
        r = self.eval3(f)
        if r is True:
            return None
        return E.query(E.z(f_not(f)))


# ---------------------------------------------------------------- symbolic booleans and integers
class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.path.decide(self.f)

    def __and__(self, o):
        return mkbool(f_and([self.f, asf(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, asf(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            g = asf(o)
            if g is True:
                return self
            if g is False:
                return mkbool(f_not(self.f))
            return mkbool(f_or([f_and([self.f, g]), f_and([f_not(self.f), f_not(g)])]))
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce__(self):
        return (bool, (bool(self),))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def asf(x):
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


class SymInt:
    __slots__ = ("z", "py")

    def __init__(self, z, py):
        self.z, self.py = z, py

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SymInt(z3.IntVal(o), lambda m, o=o: o)
        return None

    def _cmp(self, o, op, pyop):
        if isinstance(o, float):
            return pyop(self.__index__(), o)
        o2 = SymInt.lift(o)
        if o2 is None:
            return NotImplemented
        a, b = self.py, o2.py
        e = z3.simplify(op(self.z, o2.z))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        # keep one object per expression: identity is used to synchronise the solver stack
        e = E.zcache.setdefault(("ze", e.get_id()), e)
        return SymBool(("z", e.get_id(), e, lambda m: pyop(a(m), b(m))))

    def __eq__(self, o):
        r = self._cmp(o, lambda x, y: x == y, lambda x, y: x == y)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda x, y: x != y, lambda x, y: x != y)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, lambda x, y: x >= y)

    def _ar(self, o, op, r=False):
        if isinstance(o, (float, str, list, tuple)):
            return op(o, int(self)) if r else op(int(self), o)
        o2 = SymInt.lift(o)
        if o2 is None:
            return NotImplemented
        x, y = (o2, self) if r else (self, o2)
        a, b = x.py, y.py
        return SymInt(z3.simplify(op(x.z, y.z)), lambda m: op(a(m), b(m)))

    def __add__(self, o):
        return self._ar(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._ar(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._ar(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._ar(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._ar(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        """fork over the possible values"""
        p = E.path
        zs = z3.simplify(self.z)
        if z3.is_int_value(zs):
            return zs.as_long()
        if p.pinned is not None:
            return self.py(p.pinned)
        key = zs.get_id()
        if key in p.intvals:
            return p.intvals[key][0]
        for _ in range(5000):
            if p.pos < len(p.prefix):
                # the value tried is recorded in the prefix as a pair
                d = p.prefix[p.pos]
                if type(d) is bool:
                    raise Inconclusive("path replay diverged")
                val, v = d
                c = self == v
                E.stats["decisions"] += 1
            else:
                p.ensure_model()
                v = self.py(p.model)
                c = self == v
                E.stats["decisions"] += 1
                other = E.query(E.z(f_not(c.f)))
                if other is not None:
                    p.alts.append((p.decisions + [(False, v)], other))
                else:
                    E.stats["forced"] += 1
                val = True
                d = (True, v)
            p.pos += 1
            p.decisions.append(d)
            p.add(c.f, val)
            if val:
                p.intvals[key] = (v, zs)
                return v
        raise Inconclusive("integer with too many values")

    __int__ = __index__

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return repr(int(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(int(self), spec)

    def __float__(self):
        return float(int(self))

    def __truediv__(self, o):
        return int(self) / o

    def __reduce__(self):
        return (int, (int(self),))


def realize_char(cid):
    """fork over the possible values of a character; returns the character"""
    p = E.path
    for _ in range(5000):
        d = p.dom[p.find(cid)]
        if d.size() == 1:
            return sym(d[0][0])
        if p.pinned is not None:
            return sym(p.pinned["c:" + E.cname[cid]])
        if p.pos < len(p.prefix):
            e = p.prefix[p.pos]
            if type(e) is bool:
                raise Inconclusive("path replay diverged")
            val, v = e
            f = ("in", cid, single(v))
            E.stats["decisions"] += 1
        else:
            p.ensure_model()
            v = p.model["c:" + E.cname[cid]]
            f = ("in", cid, single(v))
            E.stats["decisions"] += 1
            other = E.query(E.z(f_not(f)))
            if other is not None:
                p.alts.append((p.decisions + [(False, v)], other))
            else:
                E.stats["forced"] += 1
            val = True
            e = (True, v)
        p.pos += 1
        p.decisions.append(e)
        p.add(f, val)
        if val:
            return sym(v)
    raise Inconclusive("character with too many values")
