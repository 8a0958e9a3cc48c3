"""C15: negotiate authentication relays every token faithfully until it completes."""
import base64

import spnego
from hypothesis import strategies as st

import gens
import sec
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import AuthenticationError, WinRMTransportError
from pypsrp.wsman import WSMan

PROPERTY = "C15"
RULE = ("handshakes: one to four requests on one session, each answered straight away or after a generated handshake of one to six legs with random tokens, header spellings, offered schemes, and an ending (token with the "
        "answer, no token, refusal at any leg, final answer before the context completes, a server error, an error of the context). Every request the server gets and every token the context is given is compared with "
        "the plan. Non-trivial: a handshake of at least two legs, or a refusal.")

OFFERS = ["Negotiate", "negotiate", "NEGOTIATE", "Kerberos", "NTLM", "Negotiate, Kerberos", "Kerberos, Negotiate", "Negotiate, NTLM", 'Negotiate, Basic realm="WSMAN"', 'Basic realm="WSMAN", Negotiate', 'Basic realm="WSMAN", Kerberos',
          'Negotiate, CredSSP, Kerberos, Basic realm="WSMAN"']
NO_OFFER = ["Basic realm=\"WSMAN\"", "", "Digest realm=\"x\", nonce=\"y\"", "CredSSP"]
TOKEN_HEADERS = ["%(s)s %(t)s", "%(s)s %(t)s", "%(l)s %(t)s", "%(s)s  %(t)s", '%(s)s %(t)s, Basic realm="WSMAN"', 'Basic realm="WSMAN", %(s)s %(t)s', "%(s)s %(t)s,CredSSP"]
token = st.one_of(st.binary(min_size=1, max_size=40), st.tuples(st.binary(min_size=1, max_size=8), st.integers(1, 400)).map(lambda t: t[0] * t[1]))
shake = st.fixed_dictionaries({"client": st.lists(token, min_size=1, max_size=6), "server": st.lists(token, min_size=6, max_size=6), "header": st.sampled_from(TOKEN_HEADERS), "offer": gens.choose(st.sampled_from(OFFERS), st.sampled_from(OFFERS), st.sampled_from(OFFERS + NO_OFFER)),
                               "end": st.sampled_from(["token", "token", "none", "refuse", "refuse token", "early", "500", "500 token", "error", "complete early", "extra leg"]), "at": st.integers(0, 5), "body": st.booleans()})
OPTION = {"negotiate_service": st.sampled_from(["WSMAN", "HTTP", "host"]), "negotiate_hostname_override": st.sampled_from(["other.example.com", "other", "SRV"]), "negotiate_delegate": st.booleans(),
          "read_timeout": st.sampled_from([5, 31, 61, 90.5]), "connection_timeout": st.sampled_from([3, 29, 45]), "cert_validation": st.sampled_from([False, True, "/etc/ca.pem"]), "proxy": st.just("http://proxy:8080"),
          "path": st.sampled_from(["wsman", "a/b"]), "encryption": st.just("auto"), "port": st.sampled_from([5986, 443, 80, 12345])}
HOSTS = ["srv", "srv", "SRV01", "srv.example.com", "Srv.Corp.Example.com", "10.0.0.5", "127.0.0.1", "localhost", "fe80::1", "2001:db8::10", "s-1.x"]
cases = st.fixed_dictionaries({"host": st.sampled_from(HOSTS), "options": st.fixed_dictionaries({}, optional=OPTION), "user": st.sampled_from(["u", "u", "CORP\\u", "u@corp.example", None]), "password": st.sampled_from(["p", "p", "p w\u00e9", None]), "auth": st.sampled_from(["negotiate", "negotiate", "kerberos", "ntlm"]), "requests": st.lists(st.tuples(st.one_of(st.none(), shake), st.binary(max_size=200)), min_size=1, max_size=4)})


class Boom(Exception):
    pass


class Ctx(sec.FakeContext):
    raise_at = None

    def step(self, in_token=None, *a, **k):
        r = sec.FakeContext.step(self, in_token)
        if self.raise_at is not None and self.n - 1 == self.raise_at:
            raise Boom("bad token")
        return r


def scheme_ok(auth, offer):
    """The schemes that may be used; None: nothing supported; []: nothing that suits the options."""
    o = offer.lower()
    have = [s for s in ("negotiate", "kerberos", "ntlm") if s in o]
    if not have:
        return None
    if auth == "negotiate":
        return have
    return [s for s in have if s in ("negotiate", auth)]


class Srv:
    def __init__(self):
        self.reqs = []
        self.scheme = None
        self.how = None

    def start(self, plan, body):
        self.plan, self.body, self.reqs, self.legs, self.scheme = plan, body, [], 0, None

    def token_header(self, i):
        return {"WWW-Authenticate": self.plan["header"] % {"s": self.scheme, "l": self.scheme.lower(), "t": base64.b64encode(self.plan["server"][i]).decode()}}

    def __call__(self, http):
        p = self.plan
        self.reqs.append(http)
        how = (http.method, http.url, http.timeout, http.verify, http.cert, http.proxies)
        same(how, self.how or how, "method, address, timeouts, verification, certificate and proxies of request %d of the session" % len(self.reqs))
        self.how = how
        same(http.body or b"", self.body, "body of request %d of the handshake" % len(self.reqs))
        same(http.headers.get("Content-Type"), "application/soap+xml;charset=UTF-8", "content type of request %d of the handshake" % len(self.reqs))
        a = http.headers.get("Authorization")
        a = a.decode() if isinstance(a, bytes) else a
        if p is None:
            return wire.Reply(200, b"straight", soap.SOAP_TYPE)
        if a is None:
            require(len(self.reqs) == 1, "request %d of the handshake has no token", len(self.reqs))
            return wire.Reply(401, b"first", {"WWW-Authenticate": p["offer"]})
        scheme, _, tok = a.partition(" ")
        if self.scheme is None:
            self.scheme = scheme
            require(scheme.lower() in scheme_ok(self.auth, p["offer"]), "the scheme %r is used, the server offered %r", scheme, p["offer"])
        same(scheme, self.scheme, "scheme of leg %d" % self.legs)
        n = len(p["client"])
        require(self.legs < n, "a token too many is sent: %s", clip(a))
        same(base64.b64decode(tok, validate=True), p["client"][self.legs], "token of leg %d" % self.legs)
        self.legs += 1
        k = self.legs
        end, at = p["end"], p["at"] % n + 1
        if end == "refuse" and k == at:
            return wire.Reply(401, b"refused", {"WWW-Authenticate": self.scheme})
        if end == "early" and k == at:
            return wire.Reply(200, b"answer")
        if k < n:
            return wire.Reply(401, b"go on", self.token_header(k - 1))
        if end in ("token", "complete early", "error"):
            return wire.Reply(200, b"answer", self.token_header(k - 1))
        if end == "extra leg":
            return wire.Reply(401, b"refused", self.token_header(k - 1))
        if end == "refuse token":
            return wire.Reply(401, b"refused", self.token_header(k - 1))
        if end == "500":
            return wire.Reply(500, b"broken")
        if end == "500 token":
            return wire.Reply(500, b"broken", self.token_header(k - 1))
        return wire.Reply(200, b"answer")


def check(case):
    srv = Srv()
    srv.auth = case["auth"]
    cur = [None]

    def make(kw):
        p = cur[0]
        n = len(p["client"])
        # complete once the last token of the server is in, or already when its own last token is out
        c = Ctx(kw, p["client"], complete_at=n if p["end"] in ("complete early", "none", "500", "refuse") else n + 1)
        if p["end"] == "error":
            c.raise_at = p["at"] % n + 1
        return c

    labels = set()
    with wire.wire(srv), sec.contexts(make) as made:
        o = case["options"]
        w = WSMan(case["host"], username=case["user"], password=case["password"], auth=case["auth"], ssl=True, negotiate_send_cbt=False, **o)
        for p, body in case["requests"]:
            cur[0] = p
            srv.start(p, body)
            before = len(made)
            want, refusal = None, None
            if p is None:
                want = b"straight"
            else:
                ok = scheme_ok(case["auth"], p["offer"])
                n = len(p["client"])
                if ok is None:
                    refusal = AuthenticationError
                elif not ok or case["auth"] != "negotiate" and len(scheme_ok("negotiate", p["offer"])) > len(ok):
                    refusal = ValueError if not ok else (ValueError, type(None))
                elif p["end"].startswith("refuse") or p["end"] == "extra leg":
                    refusal = AuthenticationError
                elif p["end"].startswith("500"):
                    refusal = WinRMTransportError
                elif p["end"] == "error":
                    refusal = Boom
                elif n == 1 and p["end"] == "early":
                    want = b"answer"
                else:
                    want = b"answer"
            if isinstance(refusal, tuple):
                continue  # a limited client and a server that offers other schemes as well
            try:
                got = w.transport.send(body)
            except Exception as e:
                require(refusal is not None and isinstance(e, refusal), "a handshake that ends with %r raises %s: %s", p and p["end"], type(e).__name__, e)
                labels.add("refused")
                if isinstance(e, WinRMTransportError):
                    same((e.code, e.response_text), (500, "broken"), "the server's error")
            else:
                require(refusal is None, "a handshake that ends with %r counts as success", p and p["end"])
                same(got, want, "answer")
            if p is None:
                same(len(made), before, "security contexts made for a request that needs none")
                same(len(srv.reqs), 1, "requests sent")
                require(srv.reqs[0].headers.get("Authorization") is None, "a request that needs no authentication carries a token")
                continue
            if not scheme_ok(case["auth"], p["offer"]):
                same(len(srv.reqs), 1, "requests sent to a server without a supported scheme")
                continue
            same(len(made), before + 1, "security contexts made")
            ctx = made[-1]
            same(ctx.kw.get("protocol"), case["auth"] if case["auth"] != "negotiate" else (srv.scheme or "").lower(), "protocol of the context")
            same((ctx.kw.get("username"), ctx.kw.get("password")), (case["user"], case["password"]), "user and password of the context")
            name = o.get("negotiate_hostname_override")
            require(ctx.kw.get("hostname") == name if name else ctx.kw.get("hostname", "").lower() == case["host"].lower(), "the service to authenticate to is on %r, the server is %r, the override %r", ctx.kw.get("hostname"), case["host"], name)
            same(ctx.kw.get("service"), o.get("negotiate_service", "host"), "service to authenticate to")
            same(bool(ctx.kw.get("context_req", 0) & spnego.ContextReq.delegate), o.get("negotiate_delegate", False), "whether the credentials are delegated")
            same(ctx.kw.get("channel_bindings"), None, "channel bindings of a session that does not send them")
            # tokens the context was given
            n = len(p["client"])
            at = p["at"] % n + 1
            if p["end"] in ("refuse", "early"):
                legs, given = at, at - 1
            elif p["end"] in ("none", "500"):
                legs, given = n, n - 1
            elif p["end"] == "error":
                legs = given = at
            else:
                legs = given = n
            same(ctx.given, [None] + p["server"][:given], "tokens the security context was given (ending %r)" % p["end"])
            same(srv.legs, legs, "legs of the handshake")
            same(len(srv.reqs), legs + 1, "requests of the handshake")
            if n > 1:
                labels.add("legs")
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("handshakes", lambda: cases, check, quick=600, thorough=10000, qshards=4, tshards=8)]
