"""C20 HTTP snapshots replay the recorded exchanges without network"""
import asyncio, gzip
from sx.ctx import Harness
from sx.core import charset
from props import lib, http, large
import booktest as bt
import requests, httpx

ASSUMPTIONS = ["SHA-1 is an injective function", "texts are printable ASCII", "the network below HTTPAdapter.send and "
               "HTTPTransport.handle_request is a stand-in; responses were read when the test ends; httpx drops content-encoding (the content "
               "is stored decoded)"]
TEXT = charset("".join(chr(c) for c in range(32, 127)))
PLAIN = charset("".join(chr(c) for c in range(32, 127) if c not in (34, 92)))
MODES = ["", "complete_snapshots", "refresh_snapshots", "complete_snapshots refresh_snapshots"]


def opt_eq(ctx, a, b):
    if a is None or b is None:
        return a is b
    return ctx.eq(a, b)


def same_key(ctx, a, b, considered):
    conds = [a["method"] == b["method"], ctx.eq(a["path"], b["path"]), opt_eq(ctx, a["body"] or None, b["body"] or None)]
    for h in considered:
        conds.append(opt_eq(ctx, a["headers"].get(h), b["headers"].get(h)))
    return ctx.all(conds)


def request_of(ctx, name, lib_, symbolic, alphabet, methods):
    q = {"method": ctx.choice(name + " method", methods), "path": "p", "body": None, "headers": {"x-key": "k"}}
    if "path" in symbolic:
        q["path"] = ctx.char(name + " path", alphabet) if lib_ == "requests" else ctx.choice(name + " path", ["a", "b"])
    if "body" in symbolic:
        q["body"] = ctx.char(name + " body", alphabet) if ctx.flag(name + " has body") else None
    if "header" in symbolic:
        q["headers"]["x-key"] = ctx.char(name + " header", alphabet)
    return q


def replay(ctx, before, after, libs, symbolic, alphabet, values, modes, methods=("GET",), ignore=True, hide=True, raises=(False,), binary=False):
    """capture, then replay, complete or refresh with other requests, then replay those"""
    lib_ = ctx.choice("library", libs)
    answers = []

    def respond(n):
        k = len(answers)
        content = ("%s" % ctx.char("content %d" % k, values) if k < 2 else "content %d" % k).encode("utf-8")
        if binary and k == 0:
            content = ctx.choice("binary", [b"", b"\xff\x00\xfe", b"\x80abc", b"a\r\n\xc3\xa9"])
        answers.append((200 + k, {"X-Answer": ctx.char("answer %d" % k, values) if k < 1 else "h%d" % k, "Content-Type": "text/plain"}, content))
        return answers[-1]
    considered = [] if ignore is True else ["x-key"]
    reqs, got, raising = [], [], [False]

    def body(t):
        for q in reqs:
            r = yield http.prepare(lib_, q["method"], q["path"], q["headers"], q["body"])
            got.append((r.status, r.headers["x-answer"], r.headers["content-type"], r.content))
        t.tln("line")
        if raising[0]:
            raise KeyError("boom")
    with http.Net(respond) as net:
        case, sess = http.case_of(lib_, http.decorator(lib_)(lose_request_details=hide, ignore_headers=ignore), body)

        def want(a):
            return a[0], a[1]["X-Answer"], a[1]["Content-Type"], a[2]

        def same(a, b):
            return ctx.all([a[0] == b[0], ctx.eq(a[1], b[1]), a[2] == b[2], ctx.eq(text(a[3]), text(b[3]))])

        def text(b):
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                return repr(b)

        def undone():
            return net.intact() and (lib_ != "requests" or sess.get_adapter("http://h/") is sess.adapters["http://"])
        n = ctx.choice("recorded", before)
        reqs[:] = [request_of(ctx, "old%d" % i, lib_, symbolic, alphabet, methods) for i in range(n)]
        r = lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(undone(), "the transport was not restored after capturing")
        ctx.check(len(got) == n and len(net.sent) == n, lambda: "captured %d of %d\n%s" % (len(got), n, lib.read("books/.out/x.md")))
        record = []
        for i in range(n):
            ctx.check(same(got[i], want(answers[i])), lambda: "while capturing %r instead of %r" % (got[i], answers[i]))
            record.append((reqs[i], sum(1 for j in range(i) if same_key(ctx, reqs[j], reqs[i], considered)), want(answers[i])))
        mode = ctx.choice("mode", modes)
        raising[0] = ctx.choice("raises", raises)
        old = list(reqs)
        reqs[:] = [old[int(k)] if k != "n" else request_of(ctx, "new%d" % j, lib_, symbolic, alphabet, methods)
                   for j, k in enumerate(ctx.choice("requests", after)) if k == "n" or int(k) < n]
        k0 = len(answers)
        del got[:]
        lib.run([("x", case)], dict({m: True for m in mode.split()}, accept=True, update=True))
        ctx.check(undone(), lambda: "the transport was not restored, mode %r raising %r" % (mode, raising[0]))
        now, used, missing = [], k0, False
        for j, q in enumerate(reqs):
            nth = sum(1 for i in range(j) if same_key(ctx, reqs[i], q, considered))
            hit = None
            if "refresh_snapshots" not in mode:
                for k, o, a in record:
                    if o == nth and same_key(ctx, k, q, considered):
                        hit = a
            if hit is None and not mode:
                missing = True
                break
            ctx.check(len(got) > j, lambda: "request %d got no response, mode %r, %r after %r" % (j, mode, reqs, old))
            if hit is not None:
                ctx.reach("replayed")
                ctx.check(same(got[j], hit), lambda: "request %r got %r instead of %r" % (q, got[j], hit))
                now.append(hit)
            else:
                ctx.reach("sent")
                ctx.check(len(answers) > used, lambda: "request %r was not sent in mode %r" % (q, mode))
                ctx.check(same(got[j], want(answers[used])), lambda: "request %r got %r instead of %r" % (q, got[j], answers[used]))
                now.append(want(answers[used]))
                used += 1
        ctx.check(len(answers) == used, lambda: "%d requests sent instead of %d, mode %r" % (len(answers) - k0, used - k0, mode))
        if missing:
            ctx.reach("missing")
            ctx.check(len(got) == len(now), lambda: "request without record got %r" % (got[-1],))
            ctx.check(lib.read_cases("books/.out/cases.txt")[0][1] == "FAIL", "no failure although a record was missing")
            return
        if raising[0]:
            return
        del got[:]
        r = lib.run([("x", case)])
        ctx.check(undone(), "the transport was not restored")
        ctx.check(len(answers) == used, "a request was sent while replaying")
        ctx.check(len(got) == len(now), lambda: "replay stopped after %d of %d: %s" % (len(got), len(now), r.text))
        for j, v in enumerate(now):
            ctx.check(same(got[j], v), lambda: "later replay of request %d: %r instead of %r" % (j, got[j], v))
        ctx.check(r.of("x") == "OK", lambda: "verdict of the replay: %s" % r.of("x"))
        ctx.reach("done")


CLIENTS = ["requests get", "requests session", "requests stream", "requests raw", "requests part", "httpx get", "httpx stream", "async get", "async stream"]


def plain_transport(base):
    class Transport(base):
        # does not connect
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        async def __aenter__(self):
            return self

        async def __aexit__(self, *a):
            pass

        async def aclose(self):
            pass
    return base.__new__(Transport)


async def ask(how, method, url, body, follow, again=False, change=None):
    """what a test sees of the response to a request made with a client"""
    lib_, kind = how.split(" ")
    if lib_ == "requests":
        s = http.session() if kind != "get" else requests
        for i in range(2 if again and kind != "get" else 1):
            r = s.request(method, url, data=body, stream=kind in ("stream", "raw", "part"), allow_redirects=follow, timeout=7, verify=False)
            if kind == "raw":
                content = r.raw.read(3)
                text = content + r.raw.read()
            elif kind == "part":
                content = next(r.iter_content(2), None)
                r.close()
                text = None
            else:
                content = b"".join(r.iter_content(2)) if kind == "stream" else r.content
                text = r.text
        cookies = r.cookies if kind == "get" else s.cookies
    elif lib_ == "httpx":
        with httpx.Client(transport=plain_transport(httpx.HTTPTransport), trust_env=False, follow_redirects=follow) as c:
            for i in range(2 if again else 1):
                if kind == "stream":
                    with c.stream(method, url, content=body and iter([body])) as r:
                        content = b"".join(r.iter_bytes())
                else:
                    r = c.request(method, url, content=body)
                    content = r.content
            cookies = c.cookies
    else:
        async def sending():
            yield body
        async with httpx.AsyncClient(transport=plain_transport(httpx.AsyncHTTPTransport), trust_env=False, follow_redirects=follow) as c:
            for i in range(2 if again else 1):
                if kind == "stream":
                    async with c.stream(method, url, content=body and sending()) as r:
                        content = b"".join([x async for x in r.aiter_bytes()])
                else:
                    r = await c.request(method, url, content=body)
                    content = r.content
            cookies = c.cookies
    try:
        r.raise_for_status()
        error = None
    except Exception as e:
        error = str(e)
    seen = {"status": r.status_code, "content": content, "url": str(r.url), "headers": sorted((k.lower(), v) for k, v in r.headers.items()),
            "history": [h.status_code for h in r.history], "type": (r.headers.get("content-type"), r.headers.get("CONTENT-TYPE")),
            "reason": r.reason if lib_ == "requests" else r.reason_phrase, "error": error, "cookies": dict(cookies),
            "elapsed": r.elapsed is not None, "sent": {k: v for k, v in r.request.headers.items() if k.lower() == "cookie"},
            "text": text if lib_ == "requests" else r.text, "is redirect": r.is_redirect, "encoding": r.encoding}
    if change == "encoding" and lib_ == "requests":
        r.encoding = "utf-16"
    elif change == "status":
        r.status_code = 500
    elif change == "header":
        r.headers["Content-Type"] = "text/changed; charset=utf-16"
    elif change == "more":
        r.headers["X-More"] = "more"
    elif change == "fewer":
        del r.headers["Content-Type"]
    return seen


def replayed(ctx, how, respond, asked, considered=True, mode="complete_snapshots"):
    """captures a test that awaits asked(), replays it, and compares what it saw"""
    seen = []

    async def body(t):
        seen.append(await asked())
    lib_ = "requests" if how.startswith("requests") else "httpx"
    with http.Net(respond) as net:
        respond.net = net
        case = http.decorator(lib_)(ignore_headers=considered)(body)
        r = lib.run([("x", case)], {mode: True, "accept": True})
        ctx.check(net.intact() and len(seen) == 1, lambda: "capturing: %s %r %s" % (r.text, r.cases, lib.read("books/.out/x.md")))
        ctx.check(all([kw.get("timeout") == 7 and kw.get("verify") is False for kw in net.given]), lambda: "sent with %r" % net.given)
        sent = len(net.sent)
        for i in range(2):
            # the second time from the file the replay wrote
            r = lib.run([("x", case)], {"accept": True})
            ctx.check(net.intact(), "not restored")
            ctx.check(len(net.sent) == sent, "sent while replaying")
            ctx.check(len(seen) == 2 + i, lambda: "not replayed: %s" % lib.read("books/.out/x.md"))
            a, b = seen[0], seen[1 + i]
            if lib_ == "httpx" and isinstance(a, dict):
                # the content is stored decoded, and then has another length
                drop = ("content-encoding", "content-length", "transfer-encoding")
                a, b = [dict(d, headers=[h for h in d["headers"] if h[0] not in drop]) for d in (a, b)]
            ctx.check(a == b, lambda: "replayed %r, captured %r" % (b, a))
            ctx.check(r.of("x") == "OK", lambda: r.of("x"))
    ctx.reach("done")


def clients(ctx, statuses):
    """through the libraries' clients: redirects, streaming, case of header names"""
    how = ctx.choice("client", CLIENTS)
    status = ctx.choice("status", statuses)
    name = ctx.choice("header name", ["Location", "location", "LOCATION"])
    target = ctx.choice("location", ["/next", "http://h/next", "next"])
    encoding = ctx.choice("encoding", [None, "gzip"]) if how != "requests raw" else None

    def respond(n):
        # the network answers by address
        q = respond.net.sent[-1]
        if str(q.url).endswith("/next"):
            return 200, [("Content-Type", "text/plain")], b"final"
        headers = [(name, target), ("Content-Type", "text/html")]
        if encoding:
            # an answer that was compressed
            return status, headers + [("Content-Encoding", encoding)], gzip.compress(b"moved")
        return status, headers, b"moved"
    replayed(ctx, how, respond, lambda: ask(how, "GET", "http://h/first", None, how != "requests session"))


def answers(ctx, reasons, cookies):
    """reasons, cookies, bodies sent as streams"""
    how = ctx.choice("client", CLIENTS)
    status = ctx.choice("status", [200, 404, 299])
    reason = ctx.choice("reason", reasons)
    given = ctx.choice("cookies", cookies)
    sent = ctx.choice("body", [None, b"ab"])
    considered = ctx.choice("ignored headers", [True, ["user-agent"]])

    def respond(n):
        headers = [("Content-Type", "text/plain")] + [("Set-Cookie", c) for c in given]
        return (status, headers, b"answer") + ((reason,) if reason else ())
    replayed(ctx, how, respond, lambda: ask(how, "POST" if sent else "GET", "http://h/first", sent, True, again=True), considered)


def changed(ctx, changes):
    """a test that changes the response it was given"""
    how = ctx.choice("client", CLIENTS)
    change = ctx.choice("change", changes)
    status = ctx.choice("status", [200, 404])

    def respond(n):
        return status, [("Content-Type", "text/plain"), ("X-Some", "some")], b"answer"
    replayed(ctx, how, respond, lambda: ask(how, "GET", "http://h/first", None, True, change=change))


def retries(ctx, requested, modes):
    """a test that tries again when the network fails"""
    how = ctx.choice("client", ["requests session", "requests get", "httpx client", "httpx-async client"])
    sent = [ctx.char("request %d" % i, charset("ab")) for i in range(1 + ctx.pick("requests", requested))]
    error = requests.exceptions.ConnectionError if how.startswith("requests") else httpx.ConnectError
    answered = []

    def respond(n):
        if ctx.flag("fails %d" % n) and n - len(answered) < 2:
            raise error("no network")
        answered.append(n)
        return 200, [("Content-Type", "text/plain")], b"answer %d" % n

    async def asked():
        out = []
        for b in sent:
            for attempt in range(3):
                try:
                    out.append((await ask(how, "POST", "http://h/p", b.encode(), True))["content"])
                    break
                except error:
                    pass
        return out
    mode = ctx.choice("mode", modes)
    replayed(ctx, how, respond, asked, mode=mode)


def together(ctx, sizes, modes):
    """requests of an AsyncClient made at the same time, answered in any order"""
    n = ctx.choice("requests", sizes)
    bodies = [ctx.char("body %d" % i, charset("ab")) for i in range(n)]
    answers, got, gates = [], [], []
    order = [ctx.choice("answered %d" % i, range(n - i)) for i in range(n)]

    def respond(k):
        answers.append("answer %d" % len(answers))
        return 200, {"Content-Type": "text/plain"}, answers[-1].encode()

    async def send(req):
        return (await http.aexchange("httpx-async", None, req)).content.decode()

    async def answer():
        # lets the answers through in the order given
        for i in range(10):
            await asyncio.sleep(0)
        waiting = list(gates)
        for k in order[:len(waiting)]:
            waiting.pop(k if k < len(waiting) else 0).set()
            for i in range(5):
                await asyncio.sleep(0)

    async def body(t):
        reqs = [http.prepare("httpx-async", "POST", "p", {}, b) for b in bodies]
        del gates[:]
        tasks = [asyncio.ensure_future(send(q)) for q in reqs] + [asyncio.ensure_future(answer())]
        got.append(await asyncio.gather(*tasks[:-1]))
        await tasks[-1]
    with http.Net(respond) as net:
        plain = http.httpx.AsyncHTTPTransport.handle_async_request

        async def slow(transport, request):
            rv = await plain(transport, request)
            gate = asyncio.Event()
            gates.append(gate)
            await gate.wait()
            return rv
        http.httpx.AsyncHTTPTransport.handle_async_request = slow
        case = bt.snapshot_httpx()(body)
        mode = ctx.choice("mode", modes)
        r = lib.run([("x", case)], dict({m: True for m in mode.split()}, accept=True))
        ctx.check(len(got) == 1 and len(net.sent) == n, lambda: "captured %r of %d: %s" % (got, n, lib.read("books/.out/x.md")))
        ctx.check(sorted(got[0]) == sorted(answers), lambda: "captured %r of %r" % (got, answers))
        r = lib.run([("x", case)])
        ctx.check(len(net.sent) == n, "sent while replaying")
        ctx.check(len(got) == 2, lambda: "not replayed: %s" % lib.read("books/.out/x.md"))
        ctx.check(got[0] == got[1], lambda: "requests %r made together got %r, and %r when captured" % (bodies, got[1], got[0]))
        ctx.check(r.of("x") == "OK", lambda: r.of("x"))
    ctx.reach("done")


HARNESSES = [
    Harness("sequence", replay, dict(before=[0, 1, 2], after=["0", "n", "00", "01", "0n", "nn"], libs=["requests", "httpx", "httpx-async"], symbolic=["path"],
                                     alphabet=charset("ab1"), values=charset("ab"), modes=MODES),
            dict(before=[0, 1, 2, 3], after=["0", "n", "00", "01", "012", "0n", "nn", "10", "0n0", "nn0"], libs=["requests", "httpx", "httpx-async"], symbolic=["path"],
                 alphabet=charset("ab1"), values=charset("ab"), modes=MODES),
            bounds="up to two (three) recorded and two (three) later requests with any one-character path, all modes and libraries",
            witness=("replayed", "sent", "missing", "done")),
    Harness("repeats", replay, dict(before=[3], after=["012", "01n"], libs=["requests", "httpx"], symbolic=["path"], alphabet=charset("ab"),
                                    values=charset("a"), modes=["", "complete_snapshots"]),
            dict(before=[3, 4], after=["012", "0123", "nnn", "210"], libs=["requests", "httpx", "httpx-async"], symbolic=["path"], alphabet=charset("ab"),
                 values=charset("a"), modes=MODES),
            bounds="three (four) recorded requests of either of two paths", witness=("replayed", "done")),
    Harness("keys", replay, dict(before=[1], after=["n"], libs=["requests", "httpx"], symbolic=["path", "body", "header"], alphabet=PLAIN, values=charset("a"),
                                 modes=["", "complete_snapshots"], methods=("GET", "POST"), ignore=["Other"]),
            bounds="one recorded and one later request with any one-character path (requests), body, header, and either of two methods; headers considered",
            witness=("replayed", "sent", "missing", "done")),
    Harness("content", replay, dict(before=[1], after=["0"], libs=["requests", "httpx"], symbolic=[], alphabet=TEXT, values=TEXT, modes=MODES, raises=(False, True)),
            bounds="any one-character content and header of the response, raising tests", witness=("replayed", "sent", "done")),
    Harness("binary", replay, dict(before=[1], after=["0"], libs=["requests", "httpx"], symbolic=[], alphabet=TEXT, values=charset("a"), modes=MODES, binary=True),
            bounds="four contents that are empty, not UTF-8 or hold line ends", witness=("replayed", "sent", "done")),
    Harness("clients", clients, dict(statuses=[200, 301, 302, 307]), bounds="the clients of both libraries: redirects, streaming, header names in any case",
            witness=("done",)),
    Harness("answers", answers, dict(reasons=["OK", "Not Found", "Odd"], cookies=[[], ["a=1; Path=/"], ["a=1", "b=2; Expires=Wed, 21 Oct 2099 07:28:00 GMT"]]),
            bounds="three statuses and reasons, up to two cookies, bodies sent at once or streamed, two requests of a session in all clients",
            witness=("done",)),
    Harness("changed", changed, dict(changes=["encoding", "status", "header", "more", "fewer"]),
            bounds="a test that changes encoding, status or headers of a response", witness=("done",)),
    Harness("retries", retries, dict(requested=2, modes=["complete_snapshots", "refresh_snapshots"]), dict(requested=3, modes=["complete_snapshots", "refresh_snapshots"]),
            bounds="up to two (three) requests, equal or not, with up to two failures of the network anywhere", witness=("done",)),
    Harness("together", together, dict(sizes=[2, 3], modes=["complete_snapshots", "refresh_snapshots"]),
            bounds="two or three requests at the same time with any of two bodies, answered in any order", witness=("done",)),
    Harness("many", large.exchanges, dict(libs=http.LIBS, n=40, same=3),
            dict(libs=http.LIBS, n=200, same=7),
            bounds="40 requests, 13 of them the same; contents of 100000 characters", timeout=120, witness=("done",)),
]
