"""C12: encrypted sessions never expose message content and decrypt exactly."""
import base64
import contextlib
import hashlib
import os
import tempfile

import requests_credssp.credssp as credssp
import spnego
from hypothesis import strategies as st

import gens
import psrp
import sec
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import WinRMError, WinRMTransportError
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.wsman import WSMan

PROPERTY = "C12"
RULE = ("messages: generated request and response contents (imitating the framing, around the 16 KiB block size, up to 80 000 bytes) over a session sealed by a model of the security context, for all schemes, hosts, "
        "header and padding sizes, response splits; reject: responses with a wrong declared length or corrupted data; pool: a pool and pipelines over a sealed session; ntlm: the same messages over real NTLM contexts on both "
        "sides. Non-trivial: a message larger than a block, imitating the framing or split, a padding, or a rejected response.")

LEAK = b"TopSecret"
BITS = ["a", "b", "\u20ac", "<s:Body>", "--Encrypted Boundary\r\n", "--Encrypted Boundary--\r\n", "-- Encrypted Boundary\r\n", "\tContent-Type: application/octet-stream\r\n", "Length=7\r\n",
        "OriginalContent: type=application/soap+xml;charset=UTF-8;Length=3", "\x00", "\r\n", "\x10\x00\x00\x00", "TopSecret!!", "\U0001f600", "--"]
BLOCK = 16384
sizes = gens.choose(st.integers(0, 300), st.tuples(st.sampled_from([1, 2, 3, 4]), st.integers(-3, 3)).map(lambda t: t[0] * BLOCK + t[1]), st.integers(0, 80000))
content = st.tuples(st.lists(st.sampled_from(BITS), min_size=1, max_size=4), sizes)


def make(c):
    """Content spec -> UTF-8 bytes of about that many bytes (exactly, padded with x)."""
    bits, n = c
    unit = "".join(bits)
    b = (unit * (n // len(unit.encode()) + 1)).encode("utf-8")[:n]
    b = b.decode("utf-8", "ignore").encode("utf-8")
    return b + b"x" * (n - len(b))


hosts = st.sampled_from(["srv", "SRV01", "Srv.Example.COM", "10.0.0.1", "fe80::1", "FE80:0:0:0:0:0:0:A", "m\xfcnchen.example", "under_score"])
sealing = st.fixed_dictionaries({
    "auth": st.sampled_from(["negotiate", "ntlm", "kerberos", "credssp"]), "offer": st.sampled_from(["Negotiate", "Kerberos"]), "ssl": st.booleans(), "host": hosts, "legs": st.integers(1, 3),
    "headers": st.lists(st.sampled_from([16, 13, 60, 45, 200, 300, 1500, 70000]), min_size=1, max_size=3), "pads": st.lists(st.integers(0, 15), min_size=1, max_size=3)})
reply_shape = st.fixed_dictionaries({"cuts": st.lists(st.one_of(st.integers(1, 50), st.sampled_from([BLOCK, BLOCK - 1, 5000])), max_size=3), "headers": st.lists(st.sampled_from([16, 13, 70, 300, 1500, 70000]), min_size=1, max_size=2),
                                     "space": st.sampled_from(["", "", " "]), "boundary": st.sampled_from(["Encrypted Boundary", "Encrypted Boundary", "gc0pJq0M:08jU534c0p", "b(1)+?.x", "=_Part'1"])})
message = st.fixed_dictionaries({"req": content, "rsp": content, "shape": reply_shape, "status": st.sampled_from([200, 200, 200, 500])})


class Endpoint:
    """Authenticates by the planned legs, opens what is sealed and seals the answers."""

    def __init__(self, s, inner, shapes=None):
        self.s, self.inner, self.shapes = s, inner, list(shapes or [])
        self.scheme = "CredSSP" if s["auth"] == "credssp" else s["offer"] if s["auth"] != "ntlm" else "Negotiate"
        self.proto = sec.CREDSSP if s["auth"] == "credssp" else sec.KERBEROS if self.scheme == "Kerberos" else sec.SPNEGO
        self.leg = 0
        self.tokens = [b"client token %d" % i for i in range(s["legs"])]
        self.in_ = sec.Sealer(b"c2sk")
        self.out = sec.Sealer(b"s2ck")
        self.parts = 0
        self.opened = 0

    def __call__(self, http):
        if self.leg < len(self.tokens):
            require(not http.body, "a request with %d bytes of content is sent before there is a security context: %r", len(http.body or b""), (http.body or b"")[:80])
            a = http.headers.get("Authorization")
            if a is None:
                return wire.Reply(401, b"", {"WWW-Authenticate": self.scheme})
            a = a.decode() if isinstance(a, bytes) else a
            same(a, self.scheme + " " + base64.b64encode(self.tokens[self.leg]).decode(), "token of leg %d" % self.leg)
            self.leg += 1
            t = {"WWW-Authenticate": self.scheme + " " + base64.b64encode(b"server token %d" % self.leg).decode()}
            return wire.Reply(200 if self.leg == len(self.tokens) else 401, b"", t)
        plain = self.open(http)
        status, body = self.inner(plain, http)
        if body is None:
            return wire.Reply(status)
        return self.seal(status, body)

    def open(self, http):
        body = http.body or b""
        require(LEAK not in body, "the plain text is in the body of the request")
        for k, v in http.headers.items():
            require("TopSecret" not in (v if isinstance(v, str) else v.decode("latin-1")), "the plain text is in the header %s", k)
        parts = sec.parse_sealed(body, self.proto)
        plain = b""
        for n, h, d in parts:
            p, pad = self.in_.open(h, d)
            same(n, len(p) + pad, "declared length of a part of %d bytes and %d of padding" % (len(p), pad))
            require(self.proto != sec.CREDSSP or len(p) <= BLOCK, "a sealed block of %d bytes", len(p))
            plain += p
        multi = self.proto == sec.CREDSSP and len(plain) > BLOCK
        require(multi or len(parts) == 1, "%d bytes are sealed in %d parts", len(plain), len(parts))
        ct = http.headers.get("Content-Type")
        ct = ct.decode() if isinstance(ct, bytes) else ct
        same(ct, 'multipart/%s;protocol="%s";boundary="Encrypted Boundary"' % ("x-multi-encrypted" if multi else "encrypted", self.proto), "content type")
        same(int(http.headers.get("Content-Length")), len(body), "content length")
        self.parts = max(self.parts, len(parts))
        self.opened += 1
        return plain

    def seal(self, status, body):
        shape = self.shapes[(self.opened - 1) % len(self.shapes)] if self.shapes else {"cuts": [], "headers": [16], "space": "", "boundary": "Encrypted Boundary"}
        self.out.headers = shape["headers"]
        pieces = sec.cut(body, shape["cuts"]) if shape["cuts"] else [body]
        parts = []
        for p in pieces:
            h, d, _ = self.out.seal(p)
            parts.append((len(p), h, d))
        self.parts = max(self.parts, len(parts))
        ct, b = sec.build_sealed(parts, self.proto, shape["boundary"], shape["space"])
        return wire.Reply(status, b, {"Content-Type": ct})


class FakeCred:
    def __init__(self, ctx):
        self.ctx = ctx

    def credssp_generator(self):
        i = None
        while not self.ctx.complete:
            o = self.ctx.step(i)
            i = yield o, "stage"

    def wrap_winrm(self, data):
        return self.ctx.wrap_winrm(data)

    def unwrap_winrm(self, h, d):
        return self.ctx.unwrap_winrm(h, d)


@contextlib.contextmanager
def fake(s, ep):
    def ctx(kw):
        return sec.FakeContext(kw, ep.tokens, b"k", s["headers"], s["pads"])

    old = credssp.CredSSPContext
    credssp.CredSSPContext = lambda *a, **k: FakeCred(ctx(a))
    try:
        with sec.contexts(ctx) as made:
            yield made
    finally:
        credssp.CredSSPContext = old


def new_wsman(s, **kw):
    return WSMan(s["host"], username="u", password="p", auth=s["auth"], ssl=s["ssl"], encryption="always" if s["ssl"] else "auto", **kw)


message_cases = st.fixed_dictionaries({"sealing": sealing, "msgs": st.lists(message, min_size=1, max_size=3)})


def exchange(case, ep, w):
    interesting = False
    for m in case["msgs"]:
        req, rsp = make(m["req"]), make(m["rsp"])
        ep.want, ep.answer = req, (m["status"], rsp)
        interesting = interesting or max(len(req), len(rsp)) > BLOCK or any("Boundary" in b for b in m["req"][0] + m["rsp"][0])
        n = ep.opened
        try:
            got = w.transport.send(req)
            require(m["status"] == 200, "a sealed %d answer counts as success", m["status"])
        except WinRMTransportError as e:
            require(m["status"] == 500, "a sealed 200 answer raises %s", e)
            same(e.code, 500, "code of the error")
            same(e.response_text, rsp.decode("utf-8"), "text of the error")
        else:
            same(got, rsp, "content of the response")
        same(ep.opened, n + 1, "requests that arrived")
    return interesting


def check_messages(case):
    s = case["sealing"]

    def inner(plain, http):
        same(plain, ep.want, "content of the request")
        return ep.answer

    ep = Endpoint(s, inner, [m["shape"] for m in case["msgs"]])
    with wire.wire(ep), fake(s, ep):
        interesting = exchange(case, ep, new_wsman(s))
    return Info(interesting or ep.parts > 1 or any(s["pads"]), [s["auth"], "https" if s["ssl"] else "http"] + (["several parts"] if ep.parts > 1 else []))


reject_cases = st.fixed_dictionaries({"sealing": sealing, "rsp": content, "shape": reply_shape, "part": st.integers(0, 1000),
                                      "damage": st.one_of(st.tuples(st.just("length"), st.sampled_from([-1, 1, 2, -7, 1000])), st.tuples(st.just("flip"), st.integers(0, 1 << 20)), st.tuples(st.just("swap"), st.just(0)))})


def check_reject(case):
    s, sh = case["sealing"], case["shape"]
    body = make(case["rsp"])

    class Bad(Endpoint):
        def seal(self, status, b):
            self.out.headers = sh["headers"]
            parts = [(len(p),) + self.out.seal(p)[:2] for p in (sec.cut(b, sh["cuts"]) if sh["cuts"] else [b])]
            i = case["part"] % len(parts)
            kind, x = case["damage"]
            n, h, d = parts[i]
            lengths = [p[0] for p in parts]
            self.damaged = True
            if kind == "length":
                lengths[i] = max(0, n + x)
                self.damaged = lengths[i] != n
            elif kind == "flip" and d:
                k = x % len(d)
                parts[i] = (n, h, d[:k] + bytes([d[k] ^ 1]) + d[k + 1 :])
            elif kind == "swap" and len(parts) > 1:
                j = (i + 1) % len(parts)
                parts[i], parts[j] = parts[j], parts[i]
                lengths[i], lengths[j] = lengths[j], lengths[i]
            else:
                self.damaged = False
            ct, out = sec.build_sealed(parts, self.proto, sh["boundary"], sh["space"], lengths=lengths)
            return wire.Reply(status, out, {"Content-Type": ct})

    ep = Bad(s, lambda plain, http: (200, body))
    with wire.wire(ep), fake(s, ep):
        w = new_wsman(s)
        try:
            got = w.transport.send(b"x")
        except (WinRMError, sec.SealError) as e:
            require(ep.damaged, "an intact response is rejected: %s", e)
            require(case["damage"][0] != "length" or isinstance(e, WinRMError), "a wrong length raises %r", e)
        else:
            require(not ep.damaged, "a response with %s is accepted", {"length": "a wrong declared length", "flip": "a flipped bit", "swap": "swapped parts"}[case["damage"][0]])
            same(got, body, "content of the response")
    return Info(ep.damaged, [case["damage"][0] if ep.damaged else "intact"])


pool_cases = st.fixed_dictionaries({"sealing": sealing, "shapes": st.lists(reply_shape, min_size=1, max_size=3), "script": content, "out": st.lists(content, min_size=1, max_size=3)})


def check_pool(case):
    s = case["sealing"]
    out = [make(c).decode("utf-8") for c in case["out"]]
    ok = [ch for ch in out]

    class Srv(server.Server):
        def unseal(self, http):
            return http.plain

        def run_pipeline(self, sh, c, m):
            self.finish(sh, c, *[("PIPELINE_OUTPUT", ("S", o)) for o in ok])

    srv = Srv()

    class H:
        pass

    def inner(plain, http):
        h = H()
        h.plain, h.body, h.headers, h.url, h.timeout = plain, plain, http.headers, http.url, http.timeout
        r = srv(h)
        return r.status, r.body

    ep = Endpoint(s, inner, case["shapes"])
    with wire.wire(ep), fake(s, ep):
        w = new_wsman(s)
        with RunspacePool(w) as pool:
            ps = PowerShell(pool)
            script = "TopSecret" + make(case["script"]).decode()
            ps.add_script(script)
            same(list(ps.invoke()), out, "output of the pipeline")
    c = [m for _, _, m in srv.msgs if m.name == "CREATE_PIPELINE"][0]
    same(c.node().prop("PowerShell").prop("Cmds").items[0].prop("Cmd").value, script, "the script that arrives")
    return Info(True, [s["auth"]])


# ---------------------------------------------------------------- real NTLM
ntlm_cases = st.fixed_dictionaries({"msgs": st.lists(message, min_size=1, max_size=4), "user": st.sampled_from(["user", "DOM\\user", "\xfcser"]), "password": st.sampled_from(["pw", "p\xe4ss: w\u20ac", "x" * 40]),
                                    "offer": st.sampled_from(["Negotiate", "NTLM"]), "ssl": st.booleans()})


def check_ntlm(case):
    tmp = tempfile.mkdtemp(prefix="verif-c12-")
    store = os.path.join(tmp, "creds")
    old = os.environ.get("NTLM_USER_FILE")
    try:
        dom, _, user = case["user"].rpartition("\\")
        with open(store, "w", encoding="utf-8") as f:
            f.write("%s:%s:%s\n" % (dom, user, case["password"].replace(":", "")))
        os.environ["NTLM_USER_FILE"] = store

        class Real(Endpoint):
            ctx = None

            def __call__(self, http):
                if self.ctx is None or not self.ctx.complete:
                    require(not http.body, "content is sent before there is a security context")
                    a = http.headers.get("Authorization")
                    if a is None:
                        return wire.Reply(401, b"", {"WWW-Authenticate": self.scheme})
                    a = a.decode() if isinstance(a, bytes) else a
                    scheme, _, tok = a.partition(" ")
                    same(scheme, self.scheme, "scheme of the token")
                    if self.ctx is None:
                        self.ctx = spnego.server(protocol="ntlm" if self.scheme == "NTLM" else "negotiate", options=spnego.NegotiateOptions.use_ntlm if self.scheme == "NTLM" else spnego.NegotiateOptions.use_negotiate)
                    out = self.ctx.step(base64.b64decode(tok))
                    h = {"WWW-Authenticate": self.scheme + " " + base64.b64encode(out).decode()} if out else {}
                    return wire.Reply(200 if self.ctx.complete else 401, b"", h)
                plain = self.open(http)
                status, body = self.inner(plain, http)
                return self.seal(status, body)

        class Via:
            """Gives the server side of the real context the interface of the model."""

            def __init__(self, ep):
                self.ep, self.headers = ep, []

            def open(self, h, d):
                return self.ep.ctx.unwrap_winrm(h, d), 0

            def seal(self, p):
                r = self.ep.ctx.wrap_winrm(p)
                return r.header, r.data, r.padding_length

        ep = Real({"auth": "negotiate", "offer": case["offer"], "legs": 0}, lambda plain, http: (same(plain, ep.want, "content of the request"), ep.answer)[1],
                  [dict(m["shape"], cuts=[]) for m in case["msgs"]])
        ep.in_ = ep.out = Via(ep)
        with wire.wire(ep):
            w = WSMan("srv", username=case["user"], password=case["password"].replace(":", ""), auth="ntlm", ssl=case["ssl"], encryption="always")
            interesting = exchange(case, ep, w)
    finally:
        if old is None:
            os.environ.pop("NTLM_USER_FILE", None)
        else:
            os.environ["NTLM_USER_FILE"] = old
        if os.path.exists(store):
            os.unlink(store)
        os.rmdir(tmp)
    return Info(True, [case["offer"]])


SUBS = [
    Sub("messages", lambda: message_cases, check_messages, quick=250, thorough=5000, qshards=3, tshards=8),
    Sub("reject", lambda: reject_cases, check_reject, quick=150, thorough=3000, qshards=1, tshards=4),
    Sub("pool", lambda: pool_cases, check_pool, quick=40, thorough=800, qshards=2, tshards=4),
    Sub("ntlm", lambda: ntlm_cases, check_ntlm, quick=60, thorough=1000, qshards=2, tshards=4),
]
