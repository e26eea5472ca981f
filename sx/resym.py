"""re on text with symbolic characters: the compiled pattern's parse tree is matched by backtracking, and every
question about a character goes to the solver."""
import re
import re._parser as sre_parse
import re._constants as C
from . import hooks as H
from .core import IS, predset, charset, single_c, num, ASCII, sym, f_or, f_not, Inconclusive, ALL_UNICODE


def _cat(cat):
    n = str(cat)
    table = {"CATEGORY_DIGIT": ("isdecimal", None), "CATEGORY_SPACE": ("isspace", None),
             "CATEGORY_WORD": ("re_word", lambda c: c.isalnum() or c == "_")}
    neg = "_NOT_" in n
    name, f = table[n.replace("_NOT_", "_")]
    st = predset(name, f)
    return ALL_UNICODE.minus(st) if neg else st


def _range(lo, hi):
    st = IS([(lo, min(hi, 127))]) if lo < 128 else IS()
    if hi >= 128:
        st = st.union(predset(("range", lo, hi), lambda c: 128 <= ord(c) and lo <= ord(c) <= hi))
    return st


def _inset(items):
    st, neg = IS(), False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            st = st.union(single_c(chr(av)))
        elif op is C.RANGE:
            st = st.union(_range(*av))
        elif op is C.CATEGORY:
            st = st.union(_cat(av))
        else:
            raise Inconclusive("re class %s" % op)
    return ALL_UNICODE.minus(st) if neg else st


class M:
    def __init__(self, pattern, s, flags):
        self.pattern, self.s, self.flags = pattern, s, flags
        self.tree = sre_parse.parse(pattern, flags & ~re.UNICODE if isinstance(pattern, bytes) else flags)

    def cset(self, st, i):
        if i >= len(self.s):
            return False
        c = self.s[i]
        if self.flags & re.IGNORECASE:
            st2 = st
            for v in [x for x in st.values()] if st.size() < 5000 else []:
                for w in (sym(v).lower(), sym(v).upper()):
                    if len(w) == 1:
                        st2 = st2.union(single_c(w))
            st = st2
        return H.decide(H.c_in(c, st))

    def run(self, items, i, groups, k):
        """match items from position i, then continue with k(i, groups)"""
        if not items:
            return k(i, groups)
        (op, av), rest = items[0], items[1:]
        nxt = lambda j, g: self.run(rest, j, g, k)
        s = self.s
        if op is C.LITERAL:
            return nxt(i + 1, groups) if self.cset(single_c(chr(av)), i) else None
        if op is C.NOT_LITERAL:
            return nxt(i + 1, groups) if self.cset(ALL_UNICODE.minus(single_c(chr(av))), i) else None
        if op is C.ANY:
            st = ALL_UNICODE if self.flags & re.DOTALL else ALL_UNICODE.minus(single_c(chr(10)))
            return nxt(i + 1, groups) if self.cset(st, i) else None
        if op is C.IN:
            return nxt(i + 1, groups) if self.cset(_inset(av), i) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, _, _, p = av

            def close(j, g, gid=gid, i=i):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return nxt(j, g)
            return self.run(list(p), i, groups, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)

            def rep(n, j, g):
                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None
                    return self.run(p, j, g, lambda j2, g2: None if j2 == j and n >= lo else rep(n + 1, j2, g2))
                if n < lo:
                    return more()
                if op is C.MIN_REPEAT:
                    r = nxt(j, g)
                    return r if r is not None else more()
                r = more()
                return r if r is not None else nxt(j, g)
            return rep(0, i, groups)
        if op is C.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0 or (n == "AT_BEGINNING" and self.flags & re.MULTILINE and self.cset(single_c(chr(10)), i - 1))
            elif n == "AT_END":
                ok = i == len(s) or (i == len(s) - 1 and self.cset(single_c(chr(10)), i)) or \
                    (self.flags & re.MULTILINE and self.cset(single_c(chr(10)), i))
            elif n == "AT_END_STRING":
                ok = i == len(s)
            elif n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                w = _cat("CATEGORY_WORD")
                a = i > 0 and self.cset(w, i - 1)
                b = i < len(s) and self.cset(w, i)
                ok = (a != b) == (n == "AT_BOUNDARY")
            else:
                raise Inconclusive("re " + n)
            return nxt(i, groups) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                r = None
                if lo == hi and i - lo >= 0:
                    r = self.run(list(p), i - lo, groups, lambda j, g: (j, g) if j == i else None)
            else:
                r = self.run(list(p), i, groups, lambda j, g: (j, g))
            if (r is not None) == (op is C.ASSERT):
                return nxt(i, r[1] if r is not None else groups)
            return None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            t = s[a:b]
            if i + len(t) <= len(s) and H.decide(H.s_eq(s[i:i + len(t)], t)):
                return nxt(i + len(t), groups)
            return None
        raise Inconclusive("re operator %s" % op)

    def at(self, i, full=False):
        end = (lambda j, g: (j, g) if j == len(self.s) else None) if full else (lambda j, g: (j, g))
        r = self.run(list(self.tree), i, {}, end)
        if r is None:
            return None
        return Match(self, i, r[0], r[1])

    def search(self, i=0):
        for j in range(i, len(self.s) + 1):
            m = self.at(j)
            if m is not None:
                return m
        return None

    def finditer(self):
        i = 0
        while i <= len(self.s):
            m = self.search(i)
            if m is None:
                return
            yield m
            i = m.e if m.e > m.b else m.e + 1


class Match:
    def __init__(self, m, b, e, groups):
        self.m, self.b, self.e, self.g = m, b, e, groups
        self.string = m.s
        self.ng = m.tree.state.groups - 1
        self.names = m.tree.state.groupdict

    def _id(self, i):
        return self.names[i] if isinstance(i, str) else i

    def span(self, i=0):
        i = self._id(i)
        return (self.b, self.e) if i == 0 else self.g.get(i, (-1, -1))

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def group(self, *ids):
        if not ids:
            ids = (0,)
        out = []
        for i in ids:
            a, b = self.span(i)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if self.span(i)[0] >= 0 else default for i in range(1, self.ng + 1))

    def groupdict(self, default=None):
        return {n: self.group(n) if self.span(n)[0] >= 0 else default for n in self.names}

    @property
    def lastindex(self):
        return max(self.g) if self.g else None


def _do(pattern, flags, name, args, kw):
    s = args[0]
    m = M(pattern, s, flags)
    if name == "match":
        return m.at(*(args[1:2] or (0,)))
    if name == "fullmatch":
        return m.at(0, True)
    if name == "search":
        return m.search(*(args[1:2] or (0,)))
    if name == "finditer":
        return m.finditer()
    if name == "findall":
        out = []
        for x in m.finditer():
            out.append(x.group() if x.ng == 0 else x.group(1) if x.ng == 1 else x.groups())
        return out
    raise Inconclusive("re." + name)


def patternm(p, name, args, kw):
    if name in ("sub", "subn"):
        repl, s = args[0], args[1]
        if not H.symbolic(s) and not H.symbolic(repl):
            return getattr(p, name)(*args, **kw)
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        m = M(p.pattern, s, p.flags)
        out, i, n = [], 0, 0
        for x in m.finditer():
            if count and n >= count:
                break
            out.append(s[i:x.b])
            out.append(H.call(repl, x) if callable(repl) else
                       re.sub(r"\\(\d)", lambda q: x.group(int(q.group(1))) or "", repl))
            i = x.e
            n += 1
        out.append(s[i:])
        r = "".join(out)
        return (r, n) if name == "subn" else r
    if name == "split":
        s = args[0]
        if not H.symbolic(s):
            return getattr(p, name)(*args, **kw)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        m = M(p.pattern, s, p.flags)
        out, i, n = [], 0, 0
        for x in m.finditer():
            if mx and n >= mx:
                break
            out.append(s[i:x.b])
            out.extend(x.groups())
            i = x.e
            n += 1
        out.append(s[i:])
        return out
    if not H.symbolic(args):
        return getattr(p, name)(*args, **kw)
    return _do(p.pattern, p.flags, name, args, kw)


def modulem(name, args, kw):
    if name == "escape":
        s = args[0]
        return re.escape(H.realize(s))
    if not H.symbolic(args) or name in ("compile", "purge"):
        return getattr(re, name)(*args, **kw)
    flags = kw.pop("flags", 0)
    pat = args[0] if isinstance(args[0], re.Pattern) else re.compile(H.realize(args[0]), flags)
    return patternm(pat, name, args[1:], kw)
