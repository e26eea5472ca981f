"""What instrumented code calls.  Values without symbolic parts take the ordinary Python route."""
import builtins, collections, functools, hashlib, json, os, os.path, pathlib, posixpath, re, sys, types, base64

from . import core
from .core import z3
from .core import (E, IS, SymBool, SymInt, mkbool, asf, f_and, f_or, f_not, charset, predset, single_c, realize_char,
                   Inconclusive, BASE, TOP, ASCII, num, sym, _order)

_symre = re.compile("[\U000F0000-\U000FFFFD]")
_symreb = re.compile(rb"\xf3[\xb0-\xbf][\x80-\xbf][\x80-\xbf]")
entered = set()
realized_at = collections.Counter()
_defer = False       # inside an operand of a merged `and` or `or`


def enter(fid):
    entered.add(fid)


def has_sym(s):
    return not s.isascii() and _symre.search(s) is not None


def has_symb(b):
    return not b.isascii() and _symreb.search(b) is not None


def symbolic(x, depth=4):
    if type(x) is str:
        return has_sym(x)
    if isinstance(x, (SymBool, SymInt)):
        return True
    if isinstance(x, str):
        return has_sym(str.__str__(x))
    if isinstance(x, (bytes, bytearray)):
        return has_symb(bytes(x))
    if depth and isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return any(symbolic(i, depth - 1) for i in x)
    if isinstance(x, pathlib.PurePath):
        return has_sym(str(x))
    if depth and isinstance(x, (dict,)):
        return any(symbolic(k, depth - 1) or symbolic(v, depth - 1) for k, v in x.items())
    return False


def issym(c):
    return BASE <= ord(c) <= TOP


def cid_of(c):
    v = ord(c)
    if v < BASE or v > TOP:
        return None
    p = E.path
    if p is None or v - BASE >= len(p.order):
        raise Inconclusive("plane 15 character that is not a variable of this path: %r" % c)
    return p.order[v - BASE]


# ---------------------------------------------------------------- formulas about characters and strings
def c_in(c, s):
    """formula: character c is in IS s"""
    cid = cid_of(c)
    if cid is None:
        return s.has(num(ord(c)))
    return ("in", cid, s)


def c_eq(a, b):
    if a == b:
        return True
    x, y = cid_of(a), cid_of(b)
    if x is None and y is None:
        return False
    if x is None:
        return ("in", y, single_c(a))
    if y is None:
        return ("in", x, single_c(b))
    return ("eq", min(x, y), max(x, y))


def s_eq(a, b):
    if len(a) != len(b):
        return False
    if a == b:
        return True
    return f_and([c_eq(x, y) for x, y in zip(a, b)])


def decide(f):
    if f is True or f is False:
        return f
    if _defer:
        return SymBool(f)
    return E.path.decide(f)


def ascii_only(c):
    """the character if it is known or decided to be ASCII, or concrete; else a concrete character (forks)"""
    cid = cid_of(c)
    if cid is None or decide(("in", cid, ASCII)):
        return c
    return realize_char(cid)


def c_lt(a, b):
    """formula: a < b; forks on whether the characters are ASCII, where the numbering is the code point"""
    if a == b:
        return False
    a, b = ascii_only(a), ascii_only(b)
    x, y = cid_of(a), cid_of(b)
    if x is None and y is None:
        return a < b
    if y is None:
        if ord(b) > 127:
            return True
        return ("in", x, IS([(0, ord(b) - 1)])) if ord(b) else False
    if x is None:
        if ord(a) > 126:
            return False
        return ("in", y, IS([(ord(a) + 1, 127)]))
    key = ("lt", x, y)
    z = E.zcache.get(("clt", x, y))
    if z is None:
        z = E.zcache[("clt", x, y)] = E.cvar[x] < E.cvar[y]
    n, m = "c:" + E.cname[x], "c:" + E.cname[y]
    return ("z", key, z, lambda mod: mod[n] < mod[m])


def s_cmp(a, b):
    """-1, 0, 1; forks"""
    for x, y in zip(a, b):
        if decide(c_eq(x, y)):
            continue
        return -1 if decide(c_lt(x, y)) else 1
    return (len(a) > len(b)) - (len(a) < len(b))


class _Top:
    pass


def eq_f(a, b):
    """formula or Python bool for a == b"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a == b:
            return True
        if len(a) != len(b) or not (has_sym(a) or has_sym(b)):
            return False
        return s_eq(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return eq_f(str.__str__(a), str.__str__(b)) if ta.__eq__ is str.__eq__ and tb.__eq__ is str.__eq__ \
            else asf(a == b)
    if ta in (bytes, bytearray) and tb in (bytes, bytearray):
        if a == b:
            return True
        if not (has_symb(bytes(a)) or has_symb(bytes(b))):
            return False
        try:
            return eq_f(bytes(a).decode("utf-8"), bytes(b).decode("utf-8"))
        except UnicodeDecodeError:
            raise Inconclusive("comparison of symbolic binary data")
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        if isinstance(a, SymBool) and isinstance(b, SymInt) or isinstance(a, SymInt) and isinstance(b, SymBool):
            return asf(int(a) == int(b))
        r = (a == b) if isinstance(a, (SymInt, SymBool)) else (b == a)
        return False if r is NotImplemented else asf(r)
    if ta is tb and ta in (list, tuple):
        if len(a) != len(b):
            return False
        return f_and([eq_f(x, y) for x, y in zip(a, b)])
    if isinstance(a, (list,)) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        if (symbolic(a) or symbolic(b)) and ta.__eq__ in (list.__eq__, tuple.__eq__):
            if len(a) != len(b):
                return False
            return f_and([eq_f(x, y) for x, y in zip(list(a), list(b))])
    if isinstance(a, dict) and isinstance(b, dict) and (symbolic(a) or symbolic(b)):
        if len(a) != len(b):
            return False
        fs = []
        for k, v in list(a.items()):
            k2 = canon(b, k)
            if not dict.__contains__(b, k2):
                return False
            fs.append(eq_f(v, b[k2]))
        return f_and(fs)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (symbolic(a) or symbolic(b)):
        if len(a) != len(b):
            return False
        return all(canon(b, k) in b for k in list(a))
    if isinstance(a, pathlib.PurePath) and isinstance(b, pathlib.PurePath):
        return eq_f(str(a), str(b))
    r = (a == b)
    if r is True or r is False:
        return r
    if isinstance(r, SymBool):
        return r.f
    return bool(r)


# ---------------------------------------------------------------- realisation
def realize_str(s):
    if not has_sym(s):
        return s
    return "".join(realize_char(cid_of(c)) if issym(c) else c for c in s)


def realize(x, depth=6):
    if type(x) is str:
        if has_sym(x):
            realized_at[sys._getframe(1).f_code.co_name] += 1
            return realize_str(x)
        return x
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return int(x)
    if depth == 0 or not symbolic(x):
        return x
    if type(x) is bytes:
        return realize_str(x.decode("utf-8")).encode("utf-8")
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(realize(i, depth - 1) for i in x)
    if type(x) is dict:
        return {realize(k, depth - 1): realize(v, depth - 1) for k, v in x.items()}
    return x


def resolve(s, chars):
    """decide for each symbolic character whether it is one of `chars` (str or IS); those that are become concrete"""
    if not has_sym(s):
        return s
    cs = charset(chars) if isinstance(chars, str) else chars
    out = []
    for c in s:
        cid = cid_of(c)
        if cid is not None and decide(("in", cid, cs)):
            c = realize_char(cid)
        out.append(c)
    return "".join(out)


def norm(s):
    """replace every symbolic character whose value is decided, and use one representative per known equality"""
    if not has_sym(s):
        return s
    p = E.path
    out = []
    for c in s:
        cid = cid_of(c)
        if cid is not None:
            r = p.find(cid)
            d = p.dom[r]
            c = sym(d[0][0]) if d.size() == 1 else p.chr(r)
        out.append(c)
    return "".join(out)


# ---------------------------------------------------------------- keys of dicts and sets
def keysym(k):
    if type(k) is str:
        return has_sym(k)
    if isinstance(k, (SymInt, SymBool)):
        return True
    if isinstance(k, (tuple, frozenset)):
        return any(keysym(i) for i in k)
    if isinstance(k, bytes):
        return has_symb(k)
    return False


def canon(container, k):
    """the key of `container` that equals k, or k"""
    if isinstance(k, (SymInt, SymBool)):
        k = realize(k)
    if not isinstance(k, (str, tuple, bytes, frozenset)):
        return k
    ks = keysym(k)
    for x in list(container):
        if x is k:
            return k
        if type(x) is type(k) and (ks or keysym(x)):
            if decide(eq_f(x, k)):
                return x
    return k


def iscont(d):
    return isinstance(d, (dict, set, frozenset)) and not isinstance(d, os._Environ)


def needs(d, k):
    """may the ordinary lookup of k in d be wrong?"""
    if isinstance(k, (SymInt, SymBool)):
        return True
    if not isinstance(k, (str, tuple, bytes, frozenset)):
        return False
    if keysym(k):
        return True
    for x in (dict.__iter__(d) if isinstance(d, dict) else d):
        if keysym(x):
            return True
    return False


def key(d, k):
    if isinstance(d, os._Environ):
        return realize(k)
    if iscont(d) and needs(d, k):
        return canon(d, k)
    return k


class Boxed:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __setitem__(self, k, v):
        self.d[key(self.d, k)] = v

    def __getitem__(self, k):
        return getitem(self.d, k)

    def __delitem__(self, k):
        del self.d[key(self.d, k)]


def boxed(d):
    return Boxed(d) if iscont(d) else d


def getitem(d, k):
    if isinstance(d, dict):
        if needs(d, k):
            k = canon(d, k)
        return d[k]
    if type(d) is _Env:
        return d[realize(k)]
    return d[k]


def mkdict(items):
    d = {}
    for star, k, v in items:
        if star:
            for k2, v2 in v.items():
                d[key(d, k2)] = v2
        else:
            d[key(d, k)] = v
    return d


def mkset(items):
    s = set()
    for i in items:
        s.add(key(s, i))
    return s


# ---------------------------------------------------------------- comparisons
def contains(a, b):
    """formula for a in b"""
    if type(b) is str:
        if type(a) is str:
            if not (has_sym(a) or has_sym(b)):
                return a in b
            if len(a) == 0:
                return True
            if len(a) == 1:
                if not has_sym(b):
                    return c_in(a, charset(b))
                return f_or([c_eq(a, c) for c in b])
            return f_or([s_eq(a, b[i:i + len(a)]) for i in range(len(b) - len(a) + 1)])
        return a in b
    if isinstance(b, (dict, set, frozenset)) and not isinstance(b, os._Environ):
        if needs(b, a):
            a = canon(b, a)
        return a in b
    if type(b) in (list, tuple) or isinstance(b, (type({}.keys()), type({}.values()), collections.deque)):
        if isinstance(b, type({}.keys())):
            return contains(a, b.mapping if type(b.mapping) is dict else set(b))
        for x in b:
            f = eq_f(x, a)
            if f is True or f is not False and decide(f):
                return True
        return False
    if isinstance(b, os._Environ):
        return realize(a) in b
    if isinstance(b, range) and isinstance(a, SymInt):
        return realize(a) in b
    if isinstance(b, (bytes, bytearray)) and (symbolic(a) or symbolic(b)):
        return contains(a.decode("utf-8"), bytes(b).decode("utf-8"))
    return a in b


def cmp(op, a, b):
    if op == "==":
        ta = type(a)
        if ta is str or ta is int or a is None:
            if ta is type(b) and ta is not str:
                return a == b
        return decide(eq_f(a, b))
    if op == "!=":
        tn = getattr(type(a), "__ne__", None)
        if tn is not object.__ne__ and not symbolic(a) and not symbolic(b):
            return a != b
        return negate(cmp("==", a, b))
    if op == "in":
        return decide(contains(a, b))
    if op == "not in":
        return negate(decide(contains(a, b)))
    if op == "is":
        if isinstance(a, SymBool):
            a = bool(a)
        if isinstance(b, SymBool):
            b = bool(b)
        if isinstance(a, str) and isinstance(b, str) and (has_sym(a) or has_sym(b)):
            return decide(eq_f(a, b))
        return a is b
    if op == "is not":
        return not cmp("is", a, b)
    # ordering
    if type(a) is str and type(b) is str:
        if has_sym(a) or has_sym(b):
            r = s_cmp(a, b)
            return r < 0 if op == "<" else r <= 0 if op == "<=" else r > 0 if op == ">" else r >= 0
    elif isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (symbolic(a) or symbolic(b)):
        if op in ("<=", "<"):
            r = all(decide(contains(x, b)) for x in list(a))
            return r and (op == "<=" or len(a) < len(b))
        r = all(decide(contains(x, a)) for x in list(b))
        return r and (op == ">=" or len(a) > len(b))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (symbolic(a) or symbolic(b)):
        for x, y in zip(a, b):
            if not cmp("==", x, y):
                return cmp(op.rstrip("=") if op in ("<=", ">=") else op, x, y)
        return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
    elif isinstance(a, (bytes, bytearray)) and (symbolic(a) or symbolic(b)):
        return cmp(op, bytes(a).decode("utf-8"), bytes(b).decode("utf-8"))
    if isinstance(b, SymInt) and isinstance(a, float):
        b = int(b)
    r = a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b
    return bool(r) if isinstance(r, SymBool) else r


def negate(v):
    return ~v if isinstance(v, SymBool) else not v


def later(f):
    """the value of an operand, symbolic if it depends on the input"""
    global _defer
    old = _defer
    _defer = True
    try:
        return f()
    finally:
        _defer = old


def either(*fs):
    """`a or b` of operands without effects: one formula instead of one branch per operand"""
    for k, f in enumerate(fs):
        v = later(f)
        if k == len(fs) - 1:
            return v
        if isinstance(v, SymBool):
            return _merge(v, fs[k + 1:], f_or)
        if v:
            return v


def both(*fs):
    for k, f in enumerate(fs):
        v = later(f)
        if k == len(fs) - 1:
            return v
        if isinstance(v, SymBool):
            return _merge(v, fs[k + 1:], f_and)
        if not v:
            return v


def _merge(v, fs, join):
    vals = [v.f]
    for k, f in enumerate(fs):
        try:
            w = later(f)
        except Exception:
            w = None
        if isinstance(w, (bool, SymBool)):
            vals.append(asf(w))
            continue
        # not to be merged: decide what has been seen, and go on as usual
        so = mkbool(join(vals))
        if bool(so) == (join is f_or):
            return so
        return (either if join is f_or else both)(*fs[k:])
    return mkbool(join(vals))


def cmpchain(a, *rest):
    r = True
    for i in range(0, len(rest), 2):
        b = rest[i + 1]()
        r = cmp(rest[i], a, b)
        if not r:
            return r
        a = b
    return r


# ---------------------------------------------------------------- operators
def _setop(op, a, b):
    if op == "|":
        r = set(a)
        for x in b:
            r.add(key(r, x))
        return r
    if op == "&":
        return set(x for x in a if decide(contains(x, b)))
    if op == "-":
        return set(x for x in a if not decide(contains(x, b)))
    return _setop("|", _setop("-", a, b), _setop("-", b, a))


def _issetlike(x):
    return isinstance(x, (set, frozenset, type({}.keys())))


def binop(op, a, b):
    if _issetlike(a) and _issetlike(b):
        if symbolic(list(a)) or symbolic(list(b)):
            r = _setop(op, list(a) if not isinstance(a, (set, frozenset)) else a, set(b))
            return frozenset(r) if isinstance(a, frozenset) else r
    if op == "|":
        if isinstance(a, dict) and isinstance(b, dict) and (symbolic(a) or symbolic(b)):
            d = dict(a)
            for k, v in b.items():
                d[key(d, k)] = v
            return d
        return a | b
    if op == "&":
        return a & b
    if op == "-":
        return a - b
    if op == "^":
        return a ^ b
    if op == "%":
        if isinstance(a, str):
            return _percent(a, b)
        return a % b
    if op == "/":
        if isinstance(a, pathlib.PurePath) or isinstance(b, pathlib.PurePath):
            return fsx.div(a, b)
        return a / b
    raise AssertionError(op)


def iop(op, a, b):
    if isinstance(a, set) and (symbolic(a) or symbolic(list(b))):
        r = _setop(op, set(a), set(b) if not isinstance(b, dict) else set(b))
        a.clear()
        a.update(r)
        return a
    if op == "|":
        a |= b
    elif op == "&":
        a &= b
    elif op == "-":
        a -= b
    else:
        a ^= b
    return a


def _percent(a, b):
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict):
        return a % realize(b)
    if any(isinstance(x, (SymInt, SymBool)) for x in args):
        args = tuple(realize(x) if isinstance(x, (SymInt, SymBool)) else x for x in args)
        b = args if isinstance(b, tuple) else args[0]
    if symbolic(args) and "%r" in a:
        return a % realize(b)
    return a % b


# ---------------------------------------------------------------- text of values
_plain = None


def plainset():
    """characters that repr() and json.dumps() of a str leave as they are"""
    global _plain
    if _plain is None:
        _plain = predset("isprintable").minus(charset("'\"\\"))
        _plain = _plain.inter(ASCII)
    return _plain


def plainly(s):
    """symbolic characters that are not copied verbatim by repr/json become concrete"""
    if not has_sym(s):
        return s
    ps = plainset()
    out = []
    for c in s:
        cid = cid_of(c)
        if cid is not None and not decide(("in", cid, ps)):
            c = realize_char(cid)
        out.append(c)
    return "".join(out)


_unpriv = re.compile(r"\\U000f([0-9a-f]{4})")


def reprv(x):
    if isinstance(x, (SymInt, SymBool)):
        return repr(realize(x))
    if type(x) is str:
        if not has_sym(x):
            return repr(x)
        return _unpriv.sub(lambda m: chr(0xF0000 + int(m.group(1), 16)), repr(plainly(x)))
    if not symbolic(x):
        return repr(x)
    if type(x) is list:
        return "[" + ", ".join(reprv(i) for i in x) + "]"
    if type(x) is tuple:
        return "(" + ", ".join(reprv(i) for i in x) + (",)" if len(x) == 1 else ")")
    if type(x) is dict:
        return "{" + ", ".join(reprv(k) + ": " + reprv(v) for k, v in x.items()) + "}"
    if type(x) is set:
        return "{" + ", ".join(reprv(i) for i in x) + "}" if x else "set()"
    return repr(realize(x))


def strv(x):
    if type(x) is str:
        return x
    if isinstance(x, (SymInt, SymBool)):
        return str(realize(x))
    if isinstance(x, (list, tuple, dict, set)) and symbolic(x):
        return reprv(x)
    if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__,):
        if len(x.args) == 1:
            return strv(x.args[0])
        return reprv(x.args) if x.args else ""
    if isinstance(x, KeyError) and len(x.args) == 1:
        return reprv(x.args[0])
    return str(x)


def fmt(v, conv, spec):
    if conv == 115:
        v = strv(v)
    elif conv == 114:
        v = reprv(v)
    elif conv == 97:
        v = ascii(realize(v))
    if spec == "" or spec is None:
        if type(v) is str:
            return v
        if isinstance(v, (SymInt, SymBool, list, tuple, dict, set, BaseException)):
            return strv(v)
        return format(v, "")
    spec = realize(spec)
    if isinstance(v, (SymInt, SymBool)):
        v = realize(v)
    return format(v, spec)


# ---------------------------------------------------------------- str methods
def _sym2(s, args):
    return has_sym(s) or any(type(a) is str and has_sym(a) or isinstance(a, (SymInt, SymBool, tuple, list))
                             for a in args)


def _bounds(s, start, end):
    n = len(s)
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, n + start)
    if end < 0:
        end = max(0, n + end)
    return start, min(end, n)


def m_startswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return any(m_startswith(s, q, start, end) for q in p)
    a, b = _bounds(s, start, end)
    if a > len(s):
        return False
    s = s[a:b]
    return decide(s_eq(s[:len(p)], p))


def m_endswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return any(m_endswith(s, q, start, end) for q in p)
    a, b = _bounds(s, start, end)
    if a > len(s):
        return False
    s = s[a:b]
    if len(p) > len(s):
        return False
    return decide(s_eq(s[len(s) - len(p):], p))


def m_find(s, p, start=None, end=None):
    a, b = _bounds(s, start, end)
    for i in range(a, b - len(p) + 1):
        if decide(s_eq(s[i:i + len(p)], p)):
            return i
    return -1


def m_rfind(s, p, start=None, end=None):
    a, b = _bounds(s, start, end)
    for i in range(b - len(p), a - 1, -1):
        if decide(s_eq(s[i:i + len(p)], p)):
            return i
    return -1


def m_index(s, p, *a):
    r = m_find(s, p, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def m_rindex(s, p, *a):
    r = m_rfind(s, p, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def m_count(s, p, start=None, end=None):
    a, b = _bounds(s, start, end)
    if p == "":
        return max(0, b - a + 1)
    n = 0
    while True:
        i = m_find(s, p, a, b)
        if i < 0:
            return n
        n += 1
        a = i + len(p)


def m_replace(s, a, b, count=-1):
    count = int(count)
    if a == "":
        return s.replace(a, b, count)
    out, i, n = [], 0, 0
    while count < 0 or n < count:
        j = m_find(s, a, i)
        if j < 0:
            break
        out.append(s[i:j])
        out.append(b)
        i = j + len(a)
        n += 1
    out.append(s[i:])
    return "".join(out)


def ws():
    return predset("isspace")


def m_split(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    if sep is None:
        return resolve(s, ws()).split(None, maxsplit)
    if sep == "":
        raise ValueError("empty separator")
    out, i = [], 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = m_find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    if sep is None:
        return resolve(s, ws()).rsplit(None, maxsplit)
    if maxsplit < 0:
        return m_split(s, sep)
    out, e = [], len(s)
    while len(out) < maxsplit:
        j = m_rfind(s, sep, 0, e)
        if j < 0:
            break
        out.append(s[j + len(sep):e])
        e = j
    out.append(s[:e])
    return out[::-1]


def m_partition(s, sep):
    j = m_find(s, sep)
    return (s, "", "") if j < 0 else (s[:j], sep, s[j + len(sep):])


def m_rpartition(s, sep):
    j = m_rfind(s, sep)
    return ("", "", s) if j < 0 else (s[:j], sep, s[j + len(sep):])


LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def m_splitlines(s, keepends=False):
    return resolve(s, LINEBREAKS).splitlines(keepends)


def _member(c, chars):
    """is the character one of chars (None: whitespace)"""
    if chars is None:
        return decide(c_in(c, ws()))
    return decide(contains(c, chars))


def m_lstrip(s, chars=None):
    i = 0
    while i < len(s) and _member(s[i], chars):
        i += 1
    return s[i:]


def m_rstrip(s, chars=None):
    j = len(s)
    while j > 0 and _member(s[j - 1], chars):
        j -= 1
    return s[:j]


def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars)


_maps = {}


def _case(s, kind):
    if not has_sym(s):
        return getattr(s, kind)()
    up = IS([(65, 90)]) if kind == "lower" else IS([(97, 122)])
    dist = 32 if kind == "lower" else -32
    out = []
    for c in s:
        cid = cid_of(c)
        if cid is None:
            out.append(c)
        elif decide(("in", cid, ASCII)):
            out.append(shift(cid, dist) if decide(("in", cid, up)) else c)
        else:
            out.append(_nonascii_case(c, cid, kind))
    t = "".join(out)
    # the concrete characters (context matters only for the Greek final sigma, which is concrete here)
    return "".join(getattr(c, kind)() if not issym(c) and "\u03a3" not in t else c for c in t) \
        if "\u03a3" not in t else getattr(realize_str(t), kind)()


def _nonascii_case(c, cid, kind):
    same = predset("same_" + kind, lambda ch: getattr(ch, kind)() == ch)
    if decide(("in", cid, same)):
        return c
    return realize_char(cid)


def shift(cid, dist):
    """the character dist code points after a symbolic one (both ASCII)"""
    p = E.path
    d = p.dom[p.find(cid)]
    if d.size() == 1:
        return chr(d[0][0] + dist)
    name = "%s%+d" % (E.cname[cid], dist)
    ncid = E.char(name)
    k = ("shift", cid, dist)
    z = E.zcache.get(k)
    if z is None:
        z = E.zcache[k] = E.cvar[ncid] == E.cvar[cid] + dist
    src = "c:" + E.cname[cid]
    p.new_char(name, IS((l + dist, h + dist) for l, h in d), z, lambda m: m[src] + dist)
    return p.chr(ncid)


def m_lower(s):
    return _case(s, "lower")


def m_upper(s):
    return _case(s, "upper")


def m_casefold(s):
    if all(ord(c) < 128 or issym(c) for c in s):
        ok = True
        for c in s:
            cid = cid_of(c)
            if cid is not None and not decide(("in", cid, ASCII)):
                ok = False
        if ok:
            return _case(s, "lower")
    return realize_str(s).casefold()


def _pred(name, empty=False):
    def m(s):
        if s == "":
            return empty
        st = predset(name)
        return decide(f_and([c_in(c, st) for c in s]))
    return m


def m_isupper(s):
    """at least one cased character and no lower/title case one"""
    if len(s) == 1:
        return decide(c_in(s, predset("isupper")))
    bad = predset("islower").union(predset("istitle").minus(predset("isupper")))
    if decide(f_or([c_in(c, bad) for c in s])):
        return False
    return decide(f_or([c_in(c, predset("isupper")) for c in s]))


def m_islower(s):
    if len(s) == 1:
        return decide(c_in(s, predset("islower")))
    bad = predset("isupper").union(predset("istitle").minus(predset("isupper")))
    if decide(f_or([c_in(c, bad) for c in s])):
        return False
    return decide(f_or([c_in(c, predset("islower")) for c in s]))


def m_isascii(s):
    return decide(f_and([c_in(c, ASCII) for c in s]))


def m_join(sep, items):
    items = list(items)
    items = [i for i in items]
    return sep.join(items)


def m_encode(s, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    if enc in ("utf-8", "utf8"):
        return s.encode("utf-8", errors)
    if enc in ("ascii", "latin-1", "iso-8859-1") and all(ord(c) < 128 or issym(c) for c in s):
        s = "".join(ascii_only(c) for c in s)
        if all(ord(c) < 128 or issym(c) for c in s):
            return s.encode("utf-8")
    return realize_str(s).encode(encoding, errors)


def m_format(s, *args, **kwargs):
    if not has_sym(s):
        args = tuple(realize(a) if isinstance(a, (SymInt, SymBool)) else a for a in args)
        kwargs = {k: realize(a) if isinstance(a, (SymInt, SymBool)) else a for k, a in kwargs.items()}
        if "!r" not in s and not any(isinstance(a, (list, tuple, dict, set)) and symbolic(a)
                                     for a in list(args) + list(kwargs.values())):
            return s.format(*args, **kwargs)
    return realize_str(s).format(*realize(args), **realize(kwargs))


def m_removeprefix(s, p):
    return s[len(p):] if m_startswith(s, p) else s


def m_removesuffix(s, p):
    return s[:len(s) - len(p)] if p and m_endswith(s, p) else s


def m_str__eq(s, o):
    return decide(eq_f(s, o))


STR = dict(startswith=m_startswith, endswith=m_endswith, find=m_find, rfind=m_rfind, index=m_index, rindex=m_rindex,
           count=m_count, replace=m_replace, split=m_split, rsplit=m_rsplit, partition=m_partition,
           rpartition=m_rpartition, splitlines=m_splitlines, strip=m_strip, lstrip=m_lstrip, rstrip=m_rstrip,
           lower=m_lower, upper=m_upper, casefold=m_casefold, isupper=m_isupper, islower=m_islower,
           isalnum=_pred("isalnum"), isalpha=_pred("isalpha"), isdigit=_pred("isdigit"),
           isnumeric=_pred("isnumeric"), isdecimal=_pred("isdecimal"), isspace=_pred("isspace"),
           isprintable=_pred("isprintable", True), isascii=m_isascii, join=m_join, encode=m_encode, format=m_format,
           removeprefix=m_removeprefix, removesuffix=m_removesuffix, __eq__=m_str__eq,
           __ne__=lambda s, o: not m_str__eq(s, o), __contains__=lambda s, o: decide(contains(o, s)),
           __len__=lambda s: len(s), __str__=lambda s: s, __getitem__=lambda s, i: s[i], __add__=lambda s, o: s + o,
           ljust=lambda s, n, *a: s.ljust(int(n), *a), rjust=lambda s, n, *a: s.rjust(int(n), *a),
           center=lambda s, n, *a: s.center(int(n), *a), __iter__=lambda s: iter(s), __hash__=lambda s: hash(realize_str(s)))


def strm(s, name, args, kw):
    if not has_sym(s):
        if not args and not kw:
            return getattr(s, name)()
        if not any(symbolic(a, 2) for a in args if not isinstance(a, types.GeneratorType)):
            if name == "join":
                return m_join(s, *args)
            return getattr(s, name)(*args, **kw)
    f = STR.get(name)
    if f is not None:
        return f(s, *args, **kw)
    realized_at["str." + name] += 1
    return getattr(realize_str(s), name)(*realize(args), **realize(kw))


def bytesm(b, name, args, kw):
    if not symbolic(b) and not symbolic(args):
        return getattr(b, name)(*args, **kw)
    if name == "decode":
        enc = (args[0] if args else kw.get("encoding", "utf-8")).lower().replace("_", "-")
        if enc in ("utf-8", "utf8"):
            return b.decode("utf-8", *args[1:])
        s = bytes(b).decode("utf-8")
        if enc in ("ascii", "latin-1", "iso-8859-1") and all(ord(c) < 128 or issym(c) for c in s):
            s = "".join(ascii_only(c) for c in s)
            if all(ord(c) < 128 or issym(c) for c in s):
                return s
        return realize_str(s).encode("utf-8").decode(*args, **kw)
    if name in ("startswith", "endswith", "find", "split", "strip", "replace", "lower", "upper", "join", "count"):
        def dec(x):
            if isinstance(x, (bytes, bytearray)):
                return bytes(x).decode("utf-8")
            if isinstance(x, (tuple, list)):
                return type(x)(dec(i) for i in x)
            return x

        def enc(x):
            if isinstance(x, str):
                return x.encode("utf-8")
            if isinstance(x, list):
                return [enc(i) for i in x]
            return x
        return enc(strm(dec(b), name, tuple(dec(a) for a in args), kw))
    return getattr(realize(bytes(b)), name)(*realize(args), **realize(kw))


# ---------------------------------------------------------------- dict, set, list methods
def dictm(d, name, args, kw):
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "__delitem__",
                "move_to_end", "has_key") and args and needs(d, args[0]):
        args = (canon(d, args[0]),) + tuple(args[1:])
    elif name == "update" or name == "__init__":
        src = args[0] if args else {}
        if symbolic(d) or symbolic(src if isinstance(src, (dict, list, tuple)) else []):
            items = src.items() if hasattr(src, "keys") else src
            for k, v in list(items):
                d[key(d, k)] = v
            for k, v in kw.items():
                d[key(d, k)] = v
            return None
    elif name == "fromkeys":
        return mkdict([(False, k, args[1] if len(args) > 1 else None) for k in args[0]])
    return getattr(d, name)(*args, **kw)


def setm(s, name, args, kw):
    if name in ("add", "remove", "discard", "__contains__"):
        if needs(s, args[0]):
            args = (canon(s, args[0]),)
        return getattr(s, name)(*args)
    if name in ("update", "union", "difference", "intersection", "symmetric_difference", "difference_update",
                "intersection_update", "symmetric_difference_update", "issubset", "issuperset", "isdisjoint"):
        args = [list(a) for a in args]
        if symbolic(s) or any(symbolic(a) for a in args):
            if name == "issubset":
                return all(decide(contains(x, args[0])) for x in list(s))
            if name == "issuperset":
                return all(decide(contains(x, s)) for x in args[0])
            if name == "isdisjoint":
                return not any(decide(contains(x, s)) for x in args[0])
            op = {"up": "|", "un": "|", "di": "-", "in": "&", "sy": "^"}[name[:2]]
            r = set(s)
            for a in args:
                r = _setop(op, r, set(a) if not symbolic(a) else mkset(a))
            if name.endswith("update"):
                s.clear()
                s.update(r)
                return None
            return type(s)(r)
    return getattr(s, name)(*args, **kw)


def listm(l, name, args, kw):
    if name in ("index", "remove", "count", "__contains__") and (symbolic(l) or symbolic(args)):
        if name == "count":
            return builtins.sum(1 for x in l if decide(eq_f(x, args[0])))
        if name == "__contains__":
            return decide(contains(args[0], l))
        lo = int(args[1]) if len(args) > 1 else 0
        for i in range(lo, len(l)):
            if decide(eq_f(l[i], args[0])):
                if name == "index":
                    return i
                del l[i]
                return None
        raise ValueError("list.%s(x): x not in list" % name)
    if name == "sort":
        if not l:
            return l.sort(*args, **kw)
        ks = kw.get("key")
        keys = [call(ks, x) for x in l] if ks is not None else l
        if symbolic(keys) or symbolic(kw.get("reverse")):
            l[:] = b_sorted(l, **kw)
            return None
        return l.sort(*args, **kw)
    return getattr(l, name)(*args, **kw)


# ---------------------------------------------------------------- builtins
def b_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    ks = [call(key, x) for x in xs] if key is not None else xs
    if not symbolic(ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]
    # insertion sort, stable
    rev = bool(reverse)
    out = []
    for i in range(len(xs)):
        j = len(out)
        while j > 0 and (lt(ks[out[j - 1]], ks[i]) if rev else lt(ks[i], ks[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return [xs[i] for i in out]


def lt(a, b):
    return cmp("<", a, b)


def _minmax(gt):
    def f(*args, key=None, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise ValueError("arg is an empty sequence")
        ks = [call(key, x) for x in xs] if key is not None else xs
        b = 0
        for i in range(1, len(xs)):
            if (lt(ks[b], ks[i]) if gt else lt(ks[i], ks[b])):
                b = i
        return xs[b]
    return f


def b_str(*args, **kw):
    if len(args) == 1 and not kw:
        return strv(args[0])
    if args and isinstance(args[0], (bytes, bytearray)):
        return bytesm(bytes(args[0]), "decode", args[1:], kw)
    return str(*args, **kw)


def b_int(*args, **kw):
    if len(args) == 1 and isinstance(args[0], (SymInt,)):
        return args[0]
    return int(*realize(args), **kw)


def b_bool(*args):
    return bool(*args)


def b_isinstance(x, t):
    if isinstance(x, (SymBool, SymInt)):
        proxy = True if isinstance(x, SymBool) else 1
        return isinstance(proxy, t)
    return isinstance(x, t)


def b_type(*args, **kw):
    if len(args) == 1 and not kw:
        if isinstance(args[0], SymBool):
            return bool
        if isinstance(args[0], SymInt):
            return int
    return type(*args, **kw)


def b_map(f, *its):
    for xs in zip(*its):
        yield call(f, *xs)


def b_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def b_dict(*args, **kw):
    if args:
        src = args[0]
        if hasattr(src, "keys"):
            items = [(False, k, src[k]) for k in src.keys()]
        else:
            items = [(False, k, v) for k, v in src]
    else:
        items = []
    d = mkdict(items)
    for k, v in kw.items():
        d[key(d, k)] = v
    return d


def b_ord(c):
    if type(c) is str and len(c) == 1 and issym(c):
        c = ascii_only(c)
        cid = cid_of(c)
        if cid is not None:
            n = "c:" + E.cname[cid]
            return SymInt(E.cvar[cid], lambda m: m[n])
    return ord(c)


def b_chr(v):
    if isinstance(v, SymInt):
        return chr(int(v))
    return chr(v)


def b_hash(x):
    if keysym(x):
        return hash(realize(x))
    return hash(x)


def b_print(*args, sep=" ", end="\n", file=None, flush=False):
    if sep is None:
        sep = " "
    if end is None:
        end = "\n"
    text = sep.join([strv(a) for a in args]) + end
    if file is None:
        file = sys.stdout
    if file is None:
        return
    callm(file, "write", text)
    if flush:
        callm(file, "flush")


def b_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def b_reversed(x):
    return reversed(x)


def b_callable(x):
    return callable(x)


def b_getattr(o, n, *d):
    return getattr(o, realize(n), *d)


def b_setattr(o, n, v):
    return setattr(o, realize(n), v)


def b_hasattr(o, n):
    return hasattr(o, realize(n))


def b_format(v, spec=""):
    return fmt(v, -1, spec)


def b_divmod(a, b):
    return divmod(realize(a), realize(b))


def b_float(*a):
    return float(*realize(a))


def b_list(*a):
    return list(*a)


def b_defaultdict(*args, **kw):
    return collections.defaultdict(*args, **kw)


def b_ordereddict(*args, **kw):
    d = collections.OrderedDict()
    if args or kw:
        for k, v in b_dict(*args, **kw).items():
            d[k] = v
    return d


def b_reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


def b_counter(*args, **kw):
    if args and not hasattr(args[0], "keys"):
        c = collections.Counter()
        for x in args[0]:
            c[key(c, x)] += 1
        return c
    return collections.Counter(*args, **kw)


# ---------------------------------------------------------------- files, paths
def f_write(f, text):
    """text that goes through a text stream: line ends are decided, they are what reading looks for"""
    if type(text) is str and has_sym(text):
        text = resolve(text, "\n\r")
    return text


def path_parts(p):
    """symbolic characters of a path that are separators, dots or NUL become concrete, and a component that equals
    an existing directory entry becomes that entry"""
    p = resolve(p, "/\0")
    out = []
    cur = "/" if p.startswith("/") else "."
    for comp in p.split("/"):
        if comp and has_sym(comp):
            for special in (".", ".."):
                if len(comp) == len(special) and decide(s_eq(comp, special)):
                    comp = special
                    break
            else:
                try:
                    names = sorted(os.listdir(cur))
                except OSError:
                    names = []
                for n in names:
                    if len(n) == len(comp) and decide(s_eq(n, comp)):
                        comp = n
                        break
        elif comp and cur is not None and not has_sym(comp):
            # a concrete component may equal an existing entry with symbolic characters
            try:
                if not os.path.lexists(posixpath.join(cur, comp)):
                    for n in sorted(os.listdir(cur)):
                        if len(n) == len(comp) and has_sym(n) and decide(s_eq(n, comp)):
                            comp = n
                            break
            except OSError:
                pass
        out.append(comp)
        if comp:
            cur = posixpath.join(cur, comp)
    return "/".join(out)


def fs_path(p):
    if isinstance(p, pathlib.PurePath):
        p = str(p)
    if type(p) is str and E.path is not None and E.path.tables.get("symfs"):
        return path_parts(p)
    if type(p) is str and has_sym(p):
        E.path.tables["symfs"] = True
        return path_parts(p)
    return p


_ospath = {}
for _n in dir(posixpath):
    _f = getattr(posixpath, _n)
    if isinstance(_f, types.FunctionType) or isinstance(_f, types.BuiltinFunctionType):
        _ospath[_f] = _n
for _n in ("exists", "lexists", "isfile", "isdir", "islink", "getsize", "getmtime", "getatime", "getctime",
           "samefile", "ismount"):
    _f = getattr(os.path, _n, None)
    if _f is not None:
        _ospath[_f] = _n
_pathpure = {"join", "split", "splitext", "basename", "dirname", "abspath", "relpath", "normpath", "isabs",
             "expanduser", "expandvars", "commonprefix", "commonpath", "normcase", "splitdrive", "splitroot"}


def c_ospath(f, name, args, kw):
    if name in _pathpure:
        def fix(a):
            if type(a) is str:
                return resolve(a, "/.~$\0")
            if isinstance(a, (list, tuple)):
                return type(a)(fix(x) for x in a)
            return a
        if symbolic(args) or symbolic(kw):
            if name in fsx.OSPATH:
                return fsx.OSPATH[name](*args, **kw)
            args = tuple(os.fspath(a) if isinstance(a, pathlib.PurePath) else a for a in args)
            args = tuple(fix(a) for a in args)
            kw = {k: fix(a) for k, a in kw.items()}
        return f(*args, **kw)
    if E.path is not None and (symbolic(args) or E.path.tables.get("symfs")):
        args = tuple(fs_path(a) for a in args)
    return f(*args, **kw)


# functions whose str arguments are file paths
def _pathcall(f, args, kw):
    if E.path is not None and (symbolic(args) or symbolic(kw) or E.path.tables.get("symfs")):
        args = tuple(fs_path(a) for a in args)
        kw = {k: fs_path(a) for k, a in kw.items()}
        args = tuple(realize(a) if isinstance(a, (SymInt, SymBool)) else a for a in args)
    return f(*args, **kw)


def b_open(file, mode="r", *args, **kw):
    if E.path is not None and (symbolic(file) or E.path.tables.get("symfs")):
        file = fs_path(file)
    return builtins.open(file, mode, *args, **kw)


# ---------------------------------------------------------------- opaque injective functions
class SymHash:
    """a hash function as an injective function: equal inputs (decided by the solver) get equal digests"""

    def __init__(self, ctor, *args, **kw):
        self.ctor = ctor
        self.name = ctor().name
        self.buf = b""
        if args:
            self.update(*args)

    def update(self, b):
        self.buf += bytes(b)

    def _canon(self):
        p = E.path
        if p is None:
            return self.buf
        tab = p.tables.setdefault(("hash", self.name), [])
        try:
            s = norm(self.buf.decode("utf-8"))
        except UnicodeDecodeError:
            s = None
        if s is None:
            return self.buf
        for t in tab:
            if t == s:
                return t.encode("utf-8")
            if len(t) == len(s) and (has_sym(t) or has_sym(s)) and decide(s_eq(t, s)):
                return t.encode("utf-8")
        tab.append(s)
        return s.encode("utf-8")

    def hexdigest(self, *a):
        return self.ctor(self._canon()).hexdigest(*a)

    def digest(self, *a):
        return self.ctor(self._canon()).digest(*a)

    def copy(self):
        h = SymHash(self.ctor)
        h.buf = self.buf
        return h

    @property
    def digest_size(self):
        return self.ctor().digest_size


def _mkhash(ctor):
    def f(*args, **kw):
        return SymHash(ctor, *args)
    return f


def c_b64encode(b, *a):
    if symbolic(b):
        b = norm(bytes(b).decode("utf-8")).encode("utf-8")
        tab = E.path.tables.setdefault("b64", [])
        s = b.decode("utf-8")
        for t in tab:
            if t == s or len(t) == len(s) and decide(s_eq(t, s)):
                return base64.b64encode(t.encode("utf-8"), *a)
        tab.append(s)
    return base64.b64encode(b, *a)


_sur = re.compile(r"\\u(db[89ab][0-9a-f])\\u(d[c-f][0-9a-f]{2})")


def _unsur(m):
    hi, lo = int(m.group(1), 16), int(m.group(2), 16)
    return chr(0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00))


def _jsonprep(x):
    if type(x) is str:
        return plainly(x)
    if isinstance(x, (SymInt, SymBool)):
        return realize(x)
    if isinstance(x, dict):
        return type(x)((_jsonprep(k), _jsonprep(v)) for k, v in x.items()) if type(x) in (dict, collections.OrderedDict) \
            else {_jsonprep(k): _jsonprep(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(_jsonprep(i) for i in x)
    return x


def c_json_dumps(obj, **kw):
    if symbolic(obj, 12):
        obj = _jsonprep(obj)
        if kw.get("sort_keys"):
            def srt(x):
                if isinstance(x, dict):
                    ks = b_sorted(list(x.keys()))
                    return {k: srt(x[k]) for k in ks}
                if isinstance(x, (list, tuple)):
                    return [srt(i) for i in x]
                return x
            obj = srt(obj)
            kw = dict(kw, sort_keys=False)
        return _sur.sub(_unsur, json.dumps(obj, **kw))
    return json.dumps(obj, **kw)


def c_json_dump(obj, fp, **kw):
    fp.write(c_json_dumps(obj, **kw))


def c_json_loads(s, *a, **kw):
    return json.loads(s, *a, **kw)


# ---------------------------------------------------------------- the call hook
TABLE = {}


def reg(f, impl):
    TABLE[f] = impl


def reg_ctor(cls, fix):
    """calls of cls from instrumented code get their keyword arguments through fix"""
    TABLE[cls] = lambda *a, **k: cls(*a, **fix(k))


for _f, _i in ((sorted, b_sorted), (min, _minmax(False)), (max, _minmax(True)), (str, b_str), (int, b_int),
               (bool, b_bool), (float, b_float), (isinstance, b_isinstance), (type, b_type), (map, b_map),
               (filter, b_filter), (dict, b_dict), (set, lambda *a: mkset(list(a[0])) if a else set()),
               (frozenset, lambda *a: frozenset(mkset(list(a[0]))) if a else frozenset()),
               (ord, b_ord), (chr, b_chr), (hash, b_hash), (print, b_print), (sum, b_sum), (repr, reprv),
               (format, b_format), (getattr, b_getattr), (setattr, b_setattr), (hasattr, b_hasattr),
               (divmod, b_divmod), (builtins.open, b_open), (functools.reduce, b_reduce),
               (collections.OrderedDict, b_ordereddict), (collections.Counter, b_counter),
               (base64.b64encode, c_b64encode), (json.dumps, c_json_dumps), (json.dump, c_json_dump),
               (json.loads, c_json_loads)):
    reg(_f, _i)
for _h in ("sha1", "sha256", "md5", "sha512", "sha224", "sha384", "blake2b", "blake2s"):
    reg(getattr(hashlib, _h), _mkhash(getattr(hashlib, _h)))

# functions that only move their arguments around
PASS = set()
for _f in (len, list, tuple, iter, next, enumerate, zip, reversed, any, all, range, id, callable, vars, slice, object,
           issubclass, super, delattr, staticmethod, classmethod, property, json.load, bytes, bytearray, input,
           functools.partial, functools.wraps, functools.update_wrapper):
    PASS.add(_f)
PASSMOD = {"copy", "pickle", "_pickle", "asyncio", "contextlib", "functools", "logging", "threading", "types",
           "inspect", "collections", "time", "itertools", "operator", "io", "_io", "pandas", "traceback", "_operator",
           "argparse", "requests", "httpx", "queue", "weakref", "abc", "enum", "dataclasses", "multiprocessing",
           "coverage", "importlib", "sys", "tempfile", "_thread", "concurrent", "asyncio.runners", "argcomplete",
           "atexit", "signal", "gc", "warnings", "unittest", "numpy"}
import shutil as _shutil
import pickle as _pickle
for _m, _ns in ((os, ("mkdir makedirs rename replace remove unlink rmdir listdir scandir stat lstat walk access chmod "
                      "utime symlink link readlink chdir truncate removedirs renames open fspath fsencode").split()),
                (_shutil, "rmtree move copy copy2 copyfile copytree".split())):
    for _n in _ns:
        _f = getattr(_m, _n, None)
        if _f is not None:
            def _mk(m, n):
                # looked up at call time: env.py puts guards on these
                return lambda *a, **k: _pathcall(getattr(m, n), a, k)
            reg(_f, _mk(_m, _n))

foreign_stub = {}        # filled by env.py: {function: stand in}


def call(f, *args, **kw):
    try:
        impl = TABLE.get(f)
    except TypeError:
        impl = None
    if impl is not None:
        return impl(*args, **kw)
    t = type(f)
    if t is types.FunctionType:
        g = f.__globals__
        if "__sx__" in g:
            return f(*args, **kw)
        return foreign(f, args, kw)
    if t is types.MethodType:
        if "__sx__" in getattr(f.__func__, "__globals__", ()):
            return f(*args, **kw)
        return foreign(f, args, kw)
    if t is types.BuiltinFunctionType:
        o = f.__self__
        if o is not None and not isinstance(o, types.ModuleType):
            return callm(o, f.__name__, *args, **kw)
        return foreign(f, args, kw)
    if t is types.MethodDescriptorType and args and f.__objclass__ in (str, dict, set, list, frozenset, bytes):
        return callm(args[0], f.__name__, *args[1:], **kw)
    if isinstance(f, type):
        if f in PASS:
            return f(*args, **kw)
        top = f.__module__.split(".")[0]
        if top != "builtins" and (top in PASSMOD or top not in sys.stdlib_module_names or issubclass(f, BaseException)):
            return f(*args, **kw)
        if issubclass(f, BaseException):
            return f(*args, **kw)
        return foreign(f, args, kw)
    return f(*args, **kw)


def foreign(f, args, kw):
    """code that is not instrumented: give it concrete values unless it only moves them"""
    name = _ospath.get(f)
    if name is not None:
        return c_ospath(f, name, args, kw)
    if f in PASS:
        return f(*args, **kw)
    mod = getattr(f, "__module__", None) or ""
    if mod.split(".")[0] in PASSMOD or getattr(f, "__sx_pass__", False) or mod.startswith(("sx.", "booktest", "props")):
        return f(*args, **kw)
    if symbolic(args) or symbolic(kw):
        realized_at[getattr(f, "__qualname__", str(f))] += 1
        return f(*realize(args), **realize(kw))
    return f(*args, **kw)


_PATHNAMES = {}


_Env = type(os.environ)


_BYTYPE = {}


def callm(o, name, *args, **kw):
    t = type(o)
    h = _BYTYPE.get(t)
    if h is not None:
        return h(o, name, args, kw)
    if t is type and o in (dict, collections.OrderedDict) and name == "fromkeys":
        return dictm({}, name, args, kw)
    f = getattr(o, name, None)
    if type(f) is types.MethodType:
        if "__sx__" in getattr(f.__func__, "__globals__", ()):
            return f(*args, **kw)
    if name == "write" or name == "writelines":
        if args and t is not types.ModuleType:
            if name == "write":
                a = args[0]
                if type(a) is str and has_sym(a):
                    args = (f_write(o, a),)
            else:
                args = ([f_write(o, a) for a in args[0]],)
            return getattr(o, name)(*args, **kw)
    if t is re.Pattern:
        from . import resym
        return resym.patternm(o, name, args, kw)
    if f is None:
        f = getattr(o, name)
    if t is types.ModuleType:
        if o is re:
            from . import resym
            return resym.modulem(name, args, kw)
        return call(f, *args, **kw)
    if type(f) is types.BuiltinFunctionType:
        # a method of an object implemented in C
        return f(*args, **kw)
    return call(f, *args, **kw)


def _envm(o, name, args, kw):
    # names are concrete; values only need to be free of NUL
    if name in ("get", "pop", "setdefault", "__setitem__", "__getitem__", "__contains__", "copy", "items", "keys", "values") \
       and not kw:
        args = tuple([realize(a) if i == 0 else resolve(a, "\0") if type(a) is str else a for i, a in enumerate(args)])
        return getattr(o, name)(*args)
    if name == "update":
        d = dict(*args, **kw)
        for k, v in d.items():
            o[realize(k)] = resolve(v, "\0") if type(v) is str else v
        return None
    return getattr(o, name)(*realize(args), **realize(kw))


from . import fsx
TABLE.update(fsx.table())
_BYTYPE.update(fsx.BYTYPE)
_BYTYPE.update({str: strm, dict: dictm, collections.OrderedDict: dictm, collections.defaultdict: dictm, list: listm,
                set: setm, frozenset: setm, bytes: bytesm, _Env: _envm})
