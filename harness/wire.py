"""Transport seam: every HTTP request the library makes goes to a handler inside this process; nothing touches a socket."""
import contextlib
import io
import time

import requests
import requests.adapters
from requests.structures import CaseInsensitiveDict

from core import HarnessError, fail

_real_send = requests.adapters.HTTPAdapter.send
_real_sleep = time.sleep
_current = None


class Http:
    """One HTTP request as it left the library."""

    __slots__ = ("method", "url", "headers", "body", "timeout", "verify", "cert", "proxies", "adapter", "prepared")

    def __init__(self, prepared, timeout, verify, cert, proxies, adapter):
        b = prepared.body
        if isinstance(b, str):
            b = b.encode("utf-8")
        self.method, self.url, self.headers, self.body = prepared.method, prepared.url, CaseInsensitiveDict(prepared.headers), b
        self.timeout, self.verify, self.cert, self.proxies, self.adapter = timeout, verify, cert, dict(proxies or {}), adapter
        self.prepared = prepared


class Reply:
    def __init__(self, status=200, body=b"", headers=None, reason=None):
        self.status, self.body, self.headers = status, body, headers or {}
        self.reason = reason or {200: "OK", 401: "Unauthorized", 500: "Internal Server Error"}.get(status, "Status")


class _Raw:
    """What requests and the authentication handlers touch of a urllib3 response."""

    def __init__(self, cert=None):
        self.version = 11
        self._original_response = None
        self.cert = cert
        self.headers = {}

        class _Sock:
            def getpeercert(s, binary_form=False):
                return cert

        class _C:
            sock = _Sock() if cert is not None else None

        self.connection = self._connection = _C()
        self._fp = io.BytesIO(b"")

    def release_conn(self):
        pass

    def close(self):
        pass

    def read(self, *a, **k):
        return b""

    def stream(self, *a, **k):
        return iter(())


def _respond(reply, prepared, adapter, cert):
    r = requests.Response()
    r.status_code = reply.status
    r.reason = reply.reason
    r.headers = CaseInsensitiveDict(reply.headers)
    r._content = reply.body
    r._content_consumed = True
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    r.url = prepared.url
    r.request = prepared
    r.connection = adapter
    r.raw = _Raw(cert)
    return r


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    if _current is None:
        raise HarnessError("a request was made outside of a wire")
    h = Http(request, timeout, verify, cert, proxies, self)
    w = _current
    w.count += 1
    if w.count > w.limit:
        fail("more than %d requests were sent: the client does not stop asking", w.limit)
    reply = w.handler(h)
    if isinstance(reply, BaseException):
        raise reply
    return _respond(reply, request, self, w.peer_cert)


class Wire:
    def __init__(self, handler, limit=2000, peer_cert=None):
        self.handler, self.limit, self.peer_cert = handler, limit, peer_cert
        self.count = 0
        self.sleeps = []


@contextlib.contextmanager
def wire(handler, limit=2000, peer_cert=None):
    """Route all requests to handler(Http) -> Reply or exception instance; time.sleep only records."""
    global _current
    w = Wire(handler, limit, peer_cert)
    old = _current
    requests.adapters.HTTPAdapter.send = _send
    time.sleep = w.sleeps.append
    _current = w
    try:
        yield w
    finally:
        _current = old
        if old is None:
            requests.adapters.HTTPAdapter.send = _real_send
            time.sleep = _real_sleep
        else:
            time.sleep = old.sleeps.append
