"""Library functions on paths and on the file system's names that compare texts themselves: pathlib, glob, fnmatch,
os.path.relpath and the like; also operator, groupby and function caches."""
import fnmatch, functools, glob, itertools, operator, os, pathlib, posixpath, re
from . import hooks as H
from .core import E

CHARS = "/.\0"


def _sym(x):
    return H.has_sym(x) if type(x) is str else isinstance(x, pathlib.PurePath) and H.has_sym(str(x))


def fix(a):
    return H.resolve(a, CHARS) if type(a) is str and H.has_sym(a) else a


# ---------------------------------------------------------------- os.path
def common(rows):
    """number of leading elements in which all rows agree"""
    k = 0
    while all(len(r) > k for r in rows) and all(H.decide(H.eq_f(rows[0][k], r[k])) for r in rows[1:]):
        k += 1
    return k


def commonprefix(m):
    m = list(m)
    return m[0][:common(m)] if m else ""


def commonpath(paths):
    paths = [fix(os.fspath(p)) for p in paths]
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    if len({p.startswith("/") for p in paths}) != 1:
        raise ValueError("Can't mix absolute and relative paths")
    parts = [[c for c in p.split("/") if c and c != "."] for p in paths]
    return ("/" if paths[0].startswith("/") else "") + "/".join(parts[0][:common(parts)])


def relpath(path, start=None):
    path = fix(os.fspath(path))
    if not path:
        raise ValueError("no path specified")
    a = [x for x in posixpath.abspath(fix(os.fspath(start or "."))).split("/") if x]
    b = [x for x in posixpath.abspath(path).split("/") if x]
    i = common([a, b])
    return "/".join([".."] * (len(a) - i) + b[i:]) or "."


OSPATH = {"commonprefix": commonprefix, "commonpath": commonpath, "relpath": relpath}


# ---------------------------------------------------------------- patterns of names
def match(name, pattern):
    if _sym(name):
        from . import resym
        return resym.modulem("match", (fnmatch.translate(pattern), name), {}) is not None
    return re.match(fnmatch.translate(pattern), name) is not None


def _entries(d):
    try:
        return sorted(os.listdir(d or "."))
    except OSError:
        return []


def _glob(base, parts, hidden, recursive):
    """paths below base that match the components of a pattern"""
    if not parts:
        if os.path.lexists(base or "."):
            yield base
        return
    p, rest = parts[0], parts[1:]
    if p == "**" and recursive:
        yield from _glob(base, rest, hidden, recursive) if rest else [base] if base else []
        for n in _entries(base):
            if n.startswith(".") and not hidden:
                continue
            q = posixpath.join(base, n)
            if os.path.isdir(q) and not os.path.islink(q):
                yield from _glob(q, parts, hidden, recursive)
            elif not rest and recursive != "dirs":
                yield q
    elif p in ("", ".") or not glob.has_magic(p):
        q = posixpath.join(base, p)
        if os.path.lexists(q):
            yield from _glob(q, rest, hidden, recursive)
    else:
        for n in _entries(base):
            if n.startswith(".") and not (hidden or p.startswith(".")):
                continue
            if match(n, p):
                yield from _glob(posixpath.join(base, n), rest, hidden, recursive)


def symfs():
    return E.path is not None and E.path.tables.get("symfs")


def c_glob(pattern, *, root_dir=None, recursive=False, include_hidden=False, **kw):
    if not symfs():
        return glob.glob(pattern, root_dir=root_dir, recursive=recursive, include_hidden=include_hidden)
    base = "/" if pattern.startswith("/") else ""
    if root_dir:
        base = posixpath.join(os.fspath(root_dir), "")
    out = list(_glob(base, [x for x in pattern.split("/") if x], include_hidden, recursive))
    return [x[len(base):] if root_dir else x for x in out]


# ---------------------------------------------------------------- pathlib
FS = {"read_text", "write_text", "read_bytes", "write_bytes", "exists", "is_file", "is_dir", "open", "mkdir", "unlink",
      "rmdir", "iterdir", "stat", "lstat", "touch", "rename", "replace", "resolve", "chmod", "is_symlink", "walk"}


def new(cls):
    def f(*args, **kw):
        return cls(*[fix(a) for a in args], **kw)
    return f


def pathm(o, name, args, kw):
    s = str(o)
    cls = type(o)
    if name in ("glob", "rglob") and symfs():
        pat = args[0] if name == "glob" else "**/" + args[0]
        return iter([cls(x) for x in _glob(s, pat.split("/"), True, "dirs" if pat.endswith("**") else True)])
    if not (H.has_sym(s) or any(_sym(a) for a in args) or symfs()):
        return getattr(o, name)(*args, **kw)
    if name in ("relative_to", "is_relative_to"):
        other = cls(*[fix(a) for a in args])
        k = common([o.parts, other.parts])
        if name == "is_relative_to":
            return k == len(other.parts)
        if k < len(other.parts):
            raise ValueError("%r is not in the subpath of %r" % (s, str(other)))
        return cls(*o.parts[k:])
    if name in ("match", "full_match", "samefile"):
        raise H.Inconclusive("pathlib.%s" % name)
    if name in FS and symfs() or name in FS and H.has_sym(s):
        o = cls(H.fs_path(s))
        if name == "write_text":
            args = (H.f_write(None, args[0]),) + args[1:]
        elif name in ("rename", "replace"):
            args = (H.fs_path(str(args[0])),)
    return getattr(o, name)(*[fix(a) for a in args], **kw)


def div(a, b):
    return fix(a) / fix(b)


# ---------------------------------------------------------------- operator, itertools, functools
def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and H.decide(H.eq_f(out[-1][0], k)):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])


def cached(fn=None, **kw):
    if fn is None or not callable(fn):
        return cached
    memo = []

    @functools.wraps(fn)
    def f(*args, **kw):
        for a, v in memo:
            if H.decide(H.eq_f(a, (args, kw))):
                return v
        v = fn(*args, **kw)
        memo.append(((args, kw), v))
        return v
    f.cache_clear = memo.clear
    return f


def table():
    t = {fnmatch.fnmatch: match, fnmatch.fnmatchcase: match,
         fnmatch.filter: lambda names, pat: [n for n in names if match(n, pat)],
         glob.glob: c_glob, glob.iglob: lambda *a, **k: iter(c_glob(*a, **k)),
         itertools.groupby: groupby, functools.cache: cached, functools.lru_cache: cached,
         operator.contains: lambda a, b: H.cmp("in", b, a)}
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        t[getattr(operator, n)] = functools.partial(H.cmp, op)
    for c in (pathlib.Path, pathlib.PosixPath, pathlib.PurePath, pathlib.PurePosixPath):
        t[c] = new(c)
    return t


BYTYPE = {pathlib.PosixPath: pathm, pathlib.PurePosixPath: pathm}
