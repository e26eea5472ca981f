"""C36 Custom request hashes and body encodings decide which requests are equal"""
import json
from sx.ctx import Harness
from sx.core import charset
from props import lib, http
import booktest as bt
from booktest.requests import json_to_sha1

ASSUMPTIONS = ["SHA-1 is an injective function", "the network below HTTPAdapter.send and HTTPTransport.handle_request is a stand-in",
               "the given hash function depends on its argument only"]
TEXT = charset("".join(chr(c) for c in range(32, 127) if c not in (34, 92)))
AB = charset("ab")


def no_query(o):
    """drops the part of the address that changes with time"""
    o["url"] = o["url"].split("?")[0]
    return json_to_sha1(o)


def pure(o):
    """the same without touching its argument"""
    return json_to_sha1({"where": o["url"].split("?")[0], "body": o.get("body"), "method": o["method"], "key": o.get("headers", {}).get("x-key")})


def only_path(o):
    return "hash-of-" + o["url"].split("?")[0]


def no_body(o):
    o.pop("body", None)
    o["url"] = o["url"].split("?")[0]
    return json_to_sha1(o)


HASHES = {"default": None, "no_query": no_query, "pure": pure, "only_path": only_path, "no_body": no_body}


def encoded(ctx, calls):
    def encode(body, url, method):
        calls.append((body, str(url), str(method)))
        text = body.decode("utf-8") if isinstance(body, bytes) else body
        # an empty body is encoded like the one that leaves nothing
        return text[1:]
    return encode


def parts(q, hash_, enc, ignore, lib_):
    """what two equal requests agree on"""
    url = q["path"] if hash_ == "default" else q["path"].split("?")[0]
    body = q["body"]
    if body is None and lib_ != "requests":
        body = ""
    if body is not None and enc:
        body = body[1:]
    header = None if ignore is True else q["headers"].get("x-key")
    if hash_ == "only_path":
        return [url]
    if hash_ == "no_body":
        body = None
    return [url, q["method"], body, header]


def opt_eq(ctx, a, b):
    if a is None or b is None:
        return a is b
    return ctx.eq(a, b)


def equal(ctx, a, b, *how):
    return ctx.all([opt_eq(ctx, x, y) for x, y in zip(parts(a, *how), parts(b, *how))])


def request_of(ctx, name, lib_, alphabet, time_alphabet, varied):
    time = "?t=" + (ctx.char(name + " time", time_alphabet) if lib_ == "requests" else ctx.choice(name + " time", ["1", "2"])) if "time" in varied else ""
    q = {"method": "POST" if "body" in varied else "GET", "path": ctx.choice(name + " path", ["p", "q"]) + time, "body": None,
         "headers": {"x-key": "k"}}
    if "body" in varied:
        q["body"] = ctx.char(name + " stamp", time_alphabet) + ctx.char(name + " body", alphabet)
    elif "short body" in varied:
        q["method"] = "POST"
        q["body"] = ctx.choice(name + " length", ["", "s", "sb", None])
        if q["body"]:
            q["body"] = ctx.char(name + " stamp", time_alphabet) + (ctx.char(name + " body", alphabet) if q["body"] == "sb" else "")
    if "header" in varied:
        q["headers"]["x-key"] = ctx.char(name + " header", time_alphabet)
    return q


def custom(ctx, libs, hashes, encs, ignores, before, after, alphabet, times, varied, modes, hides=(True,)):
    lib_ = ctx.choice("library", libs)
    hash_ = ctx.choice("hash", hashes)
    enc = ctx.choice("encoded", encs)
    ignore = ctx.choice("ignore", ignores)
    how = (hash_, enc, ignore, lib_)
    kwargs = {"ignore_headers": ignore, "lose_request_details": ctx.choice("hide", hides)}
    if HASHES[hash_]:
        kwargs["json_to_hash"] = HASHES[hash_]
    calls = []
    if enc:
        kwargs["encode_body"] = encoded(ctx, calls)
    reqs, got = [], []

    def respond(n):
        return 200 + n, {"Content-Type": "text/plain"}, b"content %d" % n

    def body(t):
        for q in reqs:
            r = yield http.prepare(lib_, q["method"], q["path"], q["headers"], q["body"])
            got.append(r.status - 200)
        t.tln("line")
    with http.Net(respond) as net:
        case, sess = http.case_of(lib_, http.decorator(lib_)(**kwargs), body)
        n = ctx.choice("recorded", before)
        reqs[:] = [request_of(ctx, "old%d" % i, lib_, alphabet, times, varied) for i in range(n)]
        lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(net.intact() and got == list(range(n)), lambda: "captured %r of %d\n%s" % (got, n, lib.read("books/.out/x.md")))
        record = [(q, sum(1 for p in reqs[:i] if equal(ctx, p, q, *how)), i) for i, q in enumerate(reqs)]
        if enc:
            ctx.check(len(calls) >= len([q for q in reqs if q["body"] is not None or lib_ != "requests"]), "the given body encoding was not used")
            for q, (b, url, method) in zip([q for q in reqs if q["body"] is not None or lib_ != "requests"], calls):
                b = b.decode("utf-8") if isinstance(b, bytes) else b
                ctx.check(ctx.all([ctx.eq(b, q["body"] or ""), ctx.eq(url, http.URL + q["path"]), method == q["method"]]),
                          lambda: "encoding called with %r %r %r" % (b, url, method))
        mode = ctx.choice("mode", modes)
        old = list(reqs)
        m = ctx.choice("later", after)
        reqs[:] = [request_of(ctx, "new%d" % i, lib_, alphabet, times, varied) for i in range(m)]
        del got[:]
        lib.run([("x", case)], dict({mode: True} if mode else {}, accept=True, update=True))
        ctx.check(net.intact(), "transport not restored")
        used, now = n, []
        for j, q in enumerate(reqs):
            nth = sum(1 for p in reqs[:j] if equal(ctx, p, q, *how))
            hit = None
            for k, o, a in record:
                if o == nth and equal(ctx, k, q, *how):
                    hit = a
            if hit is None and not mode:
                ctx.reach("missing")
                ctx.check(len(got) == len(now), lambda: "request %r without record got %r" % (q, got[-1]))
                ctx.check(len(net.sent) == used, "sent while replaying")
                ctx.check(lib.read_cases("books/.out/cases.txt")[0][1] == "FAIL", "no failure although a record was missing")
                return
            ctx.check(len(got) > j, lambda: "request %d %r got no response after %r, hash %s" % (j, q, old, hash_))
            if hit is None:
                ctx.reach("sent")
                hit = used
                used += 1
            else:
                ctx.reach("replayed")
            ctx.check(got[j] == hit, lambda: "request %d %r got response %d instead of %d, recorded %r" % (j, q, got[j], hit, old))
            now.append(hit)
        ctx.check(len(net.sent) == used, lambda: "%d requests sent instead of %d" % (len(net.sent), used))
        # later runs: the same requests at another time
        for j, q in enumerate(reqs):
            if "time" in varied and hash_ != "default":
                q["path"] = q["path"].split("?")[0] + "?t=9"
            if enc and q["body"]:
                q["body"] = "~" + q["body"][1:]
            if ignore is True:
                q["headers"] = {"x-key": "~", "x-new": "1"}
        del got[:]
        r = lib.run([("x", case)])
        ctx.check(net.intact() and len(net.sent) == used, "a request was sent while replaying")
        ctx.check(got == now, lambda: "the same requests at a later time: %r instead of %r, %s" % (got, now, r.text))
        ctx.check(r.of("x") == "OK", lambda: "verdict of the replay: %s" % r.of("x"))
        ctx.reach("done")


HARNESSES = [
    Harness("hash", custom, dict(libs=["requests", "httpx"], hashes=["default", "no_query", "pure", "only_path"], encs=[False], ignores=[True], before=[1, 2], after=[2],
                                 alphabet=AB, times=charset("12"), varied=["time"], modes=["", "complete_snapshots"]),
            dict(libs=["requests", "httpx", "httpx-async"], hashes=["default", "no_query", "pure", "only_path", "no_body"], encs=[False], ignores=[True], before=[0, 1, 2, 3],
                 after=[1, 2, 3], alphabet=AB, times=charset("12"), varied=["time"], modes=["", "complete_snapshots"]),
            bounds="one and two (three) recorded, two (three) later requests to either of two addresses with a changing query, four (five) hash functions",
            witness=("replayed", "sent", "missing", "done")),
    Harness("body", custom, dict(libs=["requests", "httpx"], hashes=["default", "no_body", "pure"], encs=[False, True], ignores=[True], before=[1], after=[1, 2],
                                 alphabet=TEXT, times=TEXT, varied=["body"], modes=["", "complete_snapshots"]),
            dict(libs=["requests", "httpx", "httpx-async"], hashes=["default", "no_body", "pure", "only_path"], encs=[False, True], ignores=[True], before=[1, 2], after=[1, 2],
                 alphabet=TEXT, times=TEXT, varied=["body"], modes=["", "complete_snapshots"], hides=(True, False)),
            bounds="bodies of two arbitrary characters, the first of which the encoding drops; one (two) recorded, two later requests",
            witness=("replayed", "sent", "missing", "done")),
    Harness("empty", custom, dict(libs=["requests", "httpx"], hashes=["default", "pure"], encs=[True], ignores=[True], before=[1], after=[1],
                                  alphabet=TEXT, times=TEXT, varied=["short body"], modes=["", "complete_snapshots"]),
            dict(libs=["requests", "httpx", "httpx-async"], hashes=["default", "pure"], encs=[True, False], ignores=[True], before=[1, 2], after=[1],
                 alphabet=TEXT, times=TEXT, varied=["short body"], modes=["", "complete_snapshots"]),
            bounds="one (two) recorded and one later request with no body, an empty one or one or two arbitrary characters",
            witness=("replayed", "sent", "missing", "done")),
    Harness("header", custom, dict(libs=["requests", "httpx"], hashes=["default", "no_query", "pure"], encs=[False], ignores=[True, ["Other"]], before=[1], after=[1],
                                   alphabet=TEXT, times=TEXT, varied=["header"], modes=["", "complete_snapshots"], hides=(True, False)),
            bounds="any one-character header value, considered or not", witness=("replayed", "sent", "missing", "done")),
    Harness("three", custom, dict(libs=["requests", "httpx"], hashes=["pure"], encs=[False], ignores=[True], before=[3], after=[3],
                                  alphabet=charset("a"), times=charset("12"), varied=["time"], modes=[""]),
            dict(libs=["requests", "httpx", "httpx-async"], hashes=["no_query", "pure"], encs=[False], ignores=[True], before=[3], after=[3, 4],
                 alphabet=charset("a"), times=charset("12"), varied=["time"], modes=["", "complete_snapshots"]),
            bounds="three recorded and three (four) later requests to an address with a changing query", witness=("replayed", "done")),
]
