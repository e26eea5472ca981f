"""C21 Ignored headers and hidden details never reach HTTP snapshots"""
import json, os, shutil
from sx.ctx import Harness
from sx.core import charset
from props import lib, http
import booktest as bt

ASSUMPTIONS = ["SHA-1 is an injective function", "texts are printable ASCII", "the network is a stand-in whose answers do not repeat the request"]
PLAIN = charset("".join(chr(c) for c in range(32, 127) if c not in (34, 92)))
NAMES = ["Authorization", "authorization", "AUTHORIZATION"]


def files():
    out = {}
    for top in ("books",):
        for p, b in lib.tree(top).items():
            if b is not None and not p.endswith(("cases.txt", "index.md")):
                out[p] = b.decode("utf-8", "replace")
    return out


def stores(ctx, libs, lists, alphabet, others, hides, bodies):
    """two captures and a replay that differ only in headers; what is stored, and what distinguishes requests"""
    lib_ = ctx.choice("library", libs)
    ignore = ctx.choice("ignore", lists)
    hide = ctx.choice("hide", hides)
    kwargs = {}
    if ignore is not True:
        kwargs["ignore_headers"] = ignore
    if hide is not True:
        kwargs["lose_request_details"] = hide
    req = {}
    got = []

    def respond(n):
        return 200, {"Content-Type": "text/plain"}, b"answer"

    def body(t):
        q = http.prepare(lib_, req["method"], req["path"], req["headers"], req["body"])
        r = yield q
        got.append(r.status)
        t.tln("line")
    def fill(run):
        req["method"], req["path"], req["body"] = "POST", "p", "BODYBODYBODY"
        h = req["headers"] = {}
        if ctx.flag("secret sent %d" % run):
            h[ctx.choice("secret name %d" % run, NAMES)] = "SECRET" + ctx.char("secret %d" % run, alphabet)
        if ctx.flag("other sent %d" % run):
            h["X-Other"] = ctx.char("other %d" % run, alphabet)
    with http.Net(respond) as net:
        case, sess = http.case_of(lib_, http.decorator(lib_)(**kwargs), body)
        fill(1)
        first = dict(req)
        r = lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(len(got) == 1 and net.intact(), lambda: "not captured: %s" % lib.read("books/.out/x.md"))
        stored = files()
        name = "x/" + http.snapshot_file(lib_)
        ctx.check(name in stored, lambda: "nothing stored in %r" % (sorted(stored),))
        record = json.loads(stored[name])
        ctx.check(len(record) == 1, "not one record")
        q = list(record.values())[0]["request"]
        low = set() if not ignore or ignore is True else set(i.lower() for i in ignore)
        for p, text in stored.items():
            if ignore is True or "authorization" in low or hide:
                ctx.check("SECRET" not in text, lambda: "an ignored header is stored in %s: %s" % (p, text))
            if hide:
                ctx.check("BODY" not in text and "Qk9EWUJPRFlCT0RZ" not in text, lambda: "the body is stored in %s: %s" % (p, text))
        if hide:
            ctx.check(sorted(q) == ["hash", "method", "url"], lambda: "stored of the request: %r" % (q,))
        elif ignore is not True:
            keep = {k.lower(): v for k, v in first["headers"].items() if k.lower() not in low}
            have = {k.lower(): v for k, v in q.get("headers", {}).items() if k.lower() in ("authorization", "x-other")}
            ctx.check(sorted(keep) == sorted(have), lambda: "headers stored %r instead of %r" % (have, keep))
            ctx.check(ctx.all([ctx.eq(keep[k], have[k]) for k in keep]), lambda: "headers stored %r instead of %r" % (have, keep))
        # again with other headers, and perhaps another method, address or body
        fill(2)
        change = ctx.choice("change", others)
        if change == "method":
            req["method"] = "PUT"
        elif change == "path":
            req["path"] = "q"
        elif change == "body":
            req["body"] = ctx.choice("body", bodies)
        conds = [change is None]
        if ignore is not True:
            a = {k.lower(): v for k, v in first["headers"].items() if k.lower() not in low}
            b = {k.lower(): v for k, v in req["headers"].items() if k.lower() not in low}
            # names as they are sent count as well, where the library keeps them
            if lib_ == "requests":
                a2 = set(k for k in first["headers"] if k.lower() not in low)
                b2 = set(k for k in req["headers"] if k.lower() not in low)
                if sorted(a) == sorted(b):
                    ctx.assume(a2 == b2)
            conds.append(sorted(a) == sorted(b) and ctx.all([ctx.eq(a[k], b[k]) for k in a]))
        same = ctx.all(conds)
        r = lib.run([("x", case)])
        ctx.check(net.intact() and len(net.sent) == 1, "a request was sent while replaying")
        ctx.check(ctx.iff(len(got) == 2, same), lambda: "%s, headers %r then %r, ignoring %r" %
                  ("replayed" if len(got) == 2 else "not replayed", first["headers"], req["headers"], ignore))
        ctx.reach("replayed" if len(got) == 2 else "distinguished")
        if len(got) != 2:
            return
        ctx.check(r.of("x") == "OK", lambda: "verdict %s of the replay" % r.of("x"))
        # what a new capture stores does not depend on the ignored headers
        shutil.rmtree("books")
        lib.run([("x", case)], {"refresh_snapshots": True, "accept": True})
        again = files()
        ctx.check(sorted(again) == sorted(stored), "other files")
        for p in again:
            ctx.check(ctx.eq(again[p], stored[p]), lambda: "%s depends on an ignored header: %r, %r" % (p, stored[p], again[p]))


HARNESSES = [
    Harness("default", stores, dict(libs=["requests", "httpx", "httpx-async"], lists=[True], alphabet=PLAIN, others=[None, "method", "path", "body"], hides=[True, False],
                                    bodies=["BODY", "", None]),
            bounds="any header values and presence in two captures and a replay, all headers ignored, details hidden or not", witness=("replayed", "distinguished")),
    Harness("list", stores, dict(libs=["requests", "httpx"], lists=[["authorization"], ["AUTHORIZATION", "X-None"], ["Authorization", "x-other"]], alphabet=PLAIN,
                                 others=[None], hides=[True, False], bodies=[None]),
            dict(libs=["requests", "httpx", "httpx-async"], lists=[["authorization"], ["AUTHORIZATION", "X-None"], ["Authorization", "x-other"], ["X-OTHER"], ("authorization",)],
                 alphabet=PLAIN, others=[None, "method", "path", "body"], hides=[True, False], bodies=["BODY", "", None]),
            bounds="ignore lists in any letter case", witness=("replayed", "distinguished")),
    Harness("none", stores, dict(libs=["requests", "httpx"], lists=[False, []], alphabet=PLAIN, others=[None], hides=[True, False], bodies=[None]),
            bounds="no header ignored", witness=("replayed", "distinguished")),
]
