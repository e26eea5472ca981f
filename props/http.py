"""Shared by C20 and C21: requests and httpx with a stand-in for the network."""
import http.client, io, os, sys, types
import booktest as bt
import requests, httpx, urllib3
from requests import adapters
from requests.structures import CaseInsensitiveDict
from sx import hooks

URL = "http://h/"
LIBS = ("requests", "httpx", "httpx-async")


class Net:
    """the network: records what is sent and answers with `respond(request number)`"""

    def __init__(self, respond):
        self.respond = respond
        self.sent = []
        self.given = []

    def __enter__(self):
        net = self
        self.saved = (adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request,
                      requests.Session.send)

        def send(adapter, request, **kw):
            net.sent.append(request)
            net.given.append(kw)
            status, headers, content, *reason = net.respond(len(net.sent) - 1)
            r = requests.Response()
            r.status_code = status
            r.reason = reason[0] if reason else None
            r.headers = CaseInsensitiveDict(joined(headers))
            r.encoding = "utf-8"
            r._content = content
            r._content_consumed = True
            r.url = request.url
            r.request = request
            if isinstance(headers, list):
                # as from the network: nothing is read yet
                message = http.client.HTTPMessage()
                for k, v in headers:
                    message[k] = v
                r.encoding = requests.utils.get_encoding_from_headers(r.headers)
                r._content, r._content_consumed = False, False
                r.raw = urllib3.HTTPResponse(body=io.BytesIO(content), headers=urllib3.HTTPHeaderDict(headers), status=status, reason=r.reason,
                                             preload_content=False, original_response=Original(message))
                requests.cookies.extract_cookies_to_jar(r.cookies, request, r.raw)
            return r

        def handle(transport, request, stream=Stream):
            net.sent.append(request)
            status, headers, content, *reason = net.respond(len(net.sent) - 1)
            extensions = {"reason_phrase": reason[0].encode()} if reason else {}
            if isinstance(headers, list):
                # not read yet, as from the network
                return httpx.Response(status, headers=hx_headers(headers), stream=stream(content), extensions=extensions)
            return httpx.Response(status, headers=hx_headers(headers), content=content, extensions=extensions)

        async def ahandle(transport, request):
            return handle(transport, request, AStream)
        self.fakes = (send, handle, ahandle)
        adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request = self.fakes
        return self

    def intact(self):
        return (adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request) == self.fakes \
            and requests.Session.send is self.saved[3] and requests.Session.get_adapter is _get_adapter

    def __exit__(self, *a):
        (adapters.HTTPAdapter.send, httpx.HTTPTransport.handle_request, httpx.AsyncHTTPTransport.handle_async_request,
         requests.Session.send) = self.saved
        requests.Session.get_adapter = _get_adapter


class Original:
    """what urllib3 keeps of http.client's response"""

    def __init__(self, msg):
        self.msg = msg

    def isclosed(self):
        return True

    def close(self):
        pass


class Stream(httpx.SyncByteStream):
    def __init__(self, content):
        self.content = content
        self.closed = False

    def __iter__(self):
        for i in range(0, len(self.content), 3):
            assert not self.closed
            yield self.content[i:i + 3]

    def close(self):
        self.closed = True


class AStream(httpx.AsyncByteStream):
    def __init__(self, content):
        self.stream = Stream(content)

    async def __aiter__(self):
        for i in self.stream:
            yield i

    async def aclose(self):
        self.stream.close()


def joined(headers):
    """repeated headers in one, as requests gives them"""
    return dict(urllib3.HTTPHeaderDict(headers)) if isinstance(headers, list) else headers


_get_adapter = requests.Session.get_adapter


def hx_headers(headers):
    # utf-8, so that symbolic characters pass
    return httpx.Headers([(k.encode() if isinstance(k, str) else k, v.encode("utf-8") if not isinstance(v, bytes) else v)
                          for k, v in (headers.items() if hasattr(headers, "items") else headers)])


def _fix(kw):
    if hooks.symbolic(kw.get("headers")):
        # the library would encode them as ASCII
        kw["headers"] = hx_headers(kw["headers"])
    return kw


hooks.reg_ctor(httpx.Response, _fix)


class Got:
    def __init__(self, r):
        self.status = r.status_code
        self.headers = r.headers
        self.content = r.content


def prepare(lib, method, path, headers, body):
    if lib == "requests":
        r = requests.PreparedRequest()
        r.method, r.url, r.headers, r.body, r.hooks = method, URL + path, CaseInsensitiveDict(headers), body, {"response": []}
        r._cookies = requests.cookies.RequestsCookieJar()
        return r
    r = httpx.Request(method, URL + path, headers=hx_headers(headers), content=None if body is None else body.encode("utf-8"))
    return r


def session():
    s = requests.Session()
    s.trust_env = False
    return s


def exchange(lib, sess, req):
    """send with the plain library"""
    if lib == "requests":
        return Got(sess.send(req))
    return Got(httpx.HTTPTransport.__new__(httpx.HTTPTransport).handle_request(req))


async def aexchange(lib, sess, req):
    if lib == "httpx-async":
        return Got(await httpx.AsyncHTTPTransport.__new__(httpx.AsyncHTTPTransport).handle_async_request(req))
    return exchange(lib, sess, req)


def decorator(lib):
    return bt.snapshot_requests if lib == "requests" else bt.snapshot_httpx


def snapshot_file(lib):
    return ".requests.json" if lib == "requests" else ".httpx.json"


def case_of(lib, dec, body):
    """a test that calls body(t) ; body is a generator of requests, gets responses sent in"""
    sess = session()

    @dec
    async def case(t):
        g = body(t)
        try:
            q = next(g)
            while True:
                q = g.send(await aexchange(lib, sess, q))
        except StopIteration:
            pass
    return case, sess
