"""C26 The memory cache stays within its size and returns the latest values"""
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, large
import booktest as bt
from booktest.cache import LruCache, NoCache

ASSUMPTIONS = ["keys are texts; the value None is not stored"]
OPS = ["set", "get", "in"]
# what is stored by the n-th operation: different values, some of them empty or zero
VALUES = [[], "value 1", 0, "", {}, [5], 6, False]


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def lru(ctx, sizes, nops, keys, alphabet, ops=OPS):
    """any operations on a bounded cache against a list ordered by use"""
    size = ctx.choice("size", sizes)
    cache = LruCache(size)
    model = []                       # [key, value], the most recently used last
    for i in range(nops):
        op = ctx.choice("op%d" % i, ops if i else ops[:1])
        k = "k" + ctx.char("key%d" % i, alphabet)
        at = None
        for j, (m, v) in enumerate(model):
            if ctx.eq(m, k):
                at = j
                break
        if op == "set":
            value = VALUES[i]
            cache[k] = value
            if at is not None:
                del model[at]
            model.append((k, value))
            if len(model) > size:
                del model[0]
                ctx.reach("dropped")
        elif op == "get":
            v = cache[k]
            if at is None:
                ctx.check(v is None, lambda: "unknown or dropped %r reads as %r" % (k, v))
            else:
                ctx.check(same(v, model[at][1]), lambda: "%r reads as %r instead of %r" % (k, v, model[at][1]))
                ctx.reach("held")
                model.append(model.pop(at))
        else:
            ctx.check((k in cache) == (at is not None), lambda: "%r in cache is %r, held %r" % (k, at is None, model))
        ctx.check(len(cache) == len(model), lambda: "%d entries instead of %d, size %d" % (len(cache), len(model), size))
    for k, v in list(model):
        ctx.check(k in cache and same(cache[k], v), lambda: "%r is lost or wrong: %r, held %r" % (k, cache[k], model))
    ctx.reach("done")


def none(ctx, nops):
    """the cache that holds nothing"""
    cache = NoCache()
    for i in range(nops):
        k = ctx.char("key%d" % i, ALL_UNICODE)
        if ctx.flag("set%d" % i):
            cache[k] = i + 1
        ctx.check(len(cache) == 0 and k not in cache and cache[k] is None, "holds something")
    ctx.reach("done")


HARNESSES = [
    Harness("lru", lru, dict(sizes=[0, 1, 2, 3], nops=5, keys=4, alphabet=charset("abcd")), dict(sizes=[0, 1, 2, 3, 4], nops=6, keys=5, alphabet=charset("abcdef")),
            bounds="five (six) operations on any keys, sizes 0 to 3 (4)", witness=("dropped", "held", "done")),
    Harness("sets", lru, dict(sizes=[1, 2, 3, 4, 8], nops=6, keys=6, alphabet=ALL_UNICODE, ops=["set", "get"]), dict(sizes=[2, 3, 4, 8], nops=7, keys=6, alphabet=ALL_UNICODE, ops=["set", "get"]),
            bounds="six (seven) stores and reads of any keys, sizes up to 8", witness=("dropped", "held", "done")),
    Harness("none", none, dict(nops=3), bounds="three operations", witness=("done",)),
    Harness("large", large.lru, dict(sizes=[9, 16, 64]),
            dict(sizes=[9, 16, 64, 100, 128, 200]),
            bounds="sizes up to 64, filled up to twice, with a read anywhere", timeout=120, witness=("held", "dropped")),
]
