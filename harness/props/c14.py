"""C14: connection options decide endpoint, encryption, credentials and TLS exactly."""
import base64
import contextlib
import datetime
import functools
import ipaddress
import os
import shutil
import ssl as ssllib
import tempfile
import warnings
from urllib.parse import urlsplit

import requests
import requests.utils
import requests_credssp.credssp as credssp
import spnego
import urllib3.poolmanager
from hypothesis import strategies as st

import gens
import loop
import sec
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c12
from pypsrp.client import Client as PsrpClient
from pypsrp.exceptions import AuthenticationError
from pypsrp.wsman import WSMan

PROPERTY = "C14"
RULE = ("options: one or two clients at a time over the cross product of host spellings, ports, paths, authentication, encryption, credentials, certificate, proxy, timeout and retry options and environment variables; every "
        "request that leaves is compared with a model of the options. tls: real TLS connections on the loopback interface with generated certificates, verification settings and client certificates. release: connections to a real server on the loopback interface, one for all messages, ended when the client is closed or its context left. Non-trivial: an option "
        "that is not the default or a rejected combination.")

AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
SEALING = ["credssp", "kerberos", "negotiate", "ntlm"]
HOSTS = ["srv", "Srv.Example.com", "10.1.2.3", "fe80::1", "2001:0db8:0000:0000:0000:0000:0000:00ff", "m\xfcnchen.example", "localhost", "127.0.0.1", "::1"]
maybe = lambda *v: st.sampled_from([None] + list(v))
creds = st.one_of(st.none(), st.sampled_from(["user", "DOM\\user", "user@DOM.LOCAL", "us:er", "\xfcser"]))
config = st.fixed_dictionaries({
    "server": st.sampled_from(HOSTS), "ssl": st.sampled_from([None, True, False]), "port": maybe(5985, 5986, 80, 443, 65535), "path": maybe("wsman", "powershell?x=1", "a/b"),
    "auth": gens.choose(st.sampled_from(AUTHS), st.sampled_from([None] + AUTHS + ["digest", "Basic", ""])), "encryption": maybe("auto", "always", "never", "auto", "never", "Always"),
    "username": creds, "password": st.one_of(st.none(), st.sampled_from(["pass", "", "p\xe4ss:w"])), "cert_validation": maybe(True, False, "/ca/bundle.pem"), "proxy": maybe("http://proxy:3128"), "no_proxy": maybe(True, False),
    "connection_timeout": maybe(7), "read_timeout": maybe(99), "reconnection_retries": maybe(4), "reconnection_backoff": maybe(0.5), "op_timeout": maybe(50),
    "certificate_key_pem": maybe("/k.pem"), "certificate_pem": maybe("/c.pem"), "negotiate_delegate": maybe(True, False), "negotiate_hostname_override": maybe("other.host"), "negotiate_service": maybe("HTTP"), "negotiate_send_cbt": maybe(False),
    "credssp_auth_mechanism": maybe("ntlm", "kerberos"), "credssp_disable_tlsv1_2": maybe(True, False), "credssp_minimum_version": maybe(5), "offer": st.sampled_from(["Negotiate", "Kerberos"])})
environ = st.fixed_dictionaries({"HTTP_PROXY": maybe("http://envproxy:1"), "HTTPS_PROXY": maybe("http://envproxy:2"), "ALL_PROXY": maybe("http://envproxy:3"), "NO_PROXY": maybe("other.host", "*", "srv", "example.com,10.1.2.3"),
                                 "REQUESTS_CA_BUNDLE": maybe("/env/ca.pem"), "CURL_CA_BUNDLE": maybe("/env/curl.pem"), "netrc": st.booleans()})
cases = st.fixed_dictionaries({"configs": st.lists(config, min_size=1, max_size=2), "env": environ, "rounds": st.integers(1, 2)})
NOT_WSMAN = {"server", "op_timeout", "offer"}


@contextlib.contextmanager
def env_vars(env, netrc=None):
    names = [n for n in os.environ if n.lower().endswith("_proxy")] + ["REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC", "REQUEST_METHOD"]
    old = {n: os.environ.pop(n) for n in names if n in os.environ}
    put = {k: v for k, v in env.items() if v is not None and k != "netrc"}
    if netrc:
        put["NETRC"] = netrc
    os.environ.update(put)
    before = dict(os.environ)
    try:
        yield
        same(dict(os.environ), before, "environment of the process")
    finally:
        for n in put:
            os.environ.pop(n, None)
        os.environ.update(old)


def reject(c):
    """None, or when the options are rejected: 'new' or 'send'."""
    auth, enc, tls = c["auth"] if c["auth"] is not None else "negotiate", c["encryption"] or "auto", c["ssl"] is not False
    if auth not in AUTHS or enc not in ("auto", "always", "never"):
        return "new"
    if (enc == "always" or enc == "auto" and not tls) and auth not in SEALING:
        return "new"
    if auth in ("basic", "credssp") and (c["username"] is None or c["password"] is None):
        return "send"
    if auth == "certificate" and (not c["certificate_key_pem"] or not c["certificate_pem"] or not tls):
        return "send"
    return None


def proxy_of(c, env):
    tls = c["ssl"] is not False
    if c["proxy"]:
        return c["proxy"]
    if c["no_proxy"]:
        return None
    host = c["server"].lower()
    np = env["NO_PROXY"]
    if np == "*" or np == "srv" and host == "srv" or np == "example.com,10.1.2.3" and host in ("srv.example.com", "10.1.2.3"):
        return None
    return env["HTTPS_PROXY" if tls else "HTTP_PROXY"] or env["ALL_PROXY"]


class Client:
    def __init__(self, c, env):
        self.c, self.env = c, env
        self.auth, self.tls = c["auth"] or "negotiate", c["ssl"] is not False
        enc = c["encryption"] or "auto"
        self.sealed = enc == "always" or enc == "auto" and not self.tls
        self.n = 0
        self.s = {"auth": self.auth, "offer": c["offer"], "legs": 2, "headers": [16], "pads": [0]}
        self.ep = c12.Endpoint(self.s, self.answer)
        self.leg = 0
        self.w = None
        self.msg = None

    def new(self):
        kw = {k: v for k, v in self.c.items() if v is not None and k not in NOT_WSMAN}
        self.w = WSMan(self.c["server"], **kw)

    def answer(self, plain, http):
        self.n += 1
        self.msg = plain
        return 200, b"answer %d" % self.n

    # the server's side
    def __call__(self, http):
        c = self.c
        self.check_http(http)
        if self.sealed:
            return self.ep(http)
        same(http.headers.get("Content-Type"), "application/soap+xml;charset=UTF-8", "content type")
        a = http.headers.get("Authorization")
        a = a.decode() if isinstance(a, bytes) else a
        if self.auth == "basic":
            same(a, "Basic " + base64.b64encode(("%s:%s" % (c["username"], c["password"])).encode("latin-1")).decode(), "authorization")
        elif self.auth == "certificate":
            same(a, "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual", "authorization")
        elif self.leg < 2:
            if a is None:
                return wire.Reply(401, b"", {"WWW-Authenticate": self.ep.scheme})
            same(a, self.ep.scheme + " " + base64.b64encode(self.ep.tokens[self.leg]).decode(), "token")
            self.leg += 1
            t = {"WWW-Authenticate": self.ep.scheme + " " + base64.b64encode(b"t%d" % self.leg).decode()}
            if self.leg < 2:
                return wire.Reply(401, b"", t)
            st_, body = self.answer(http.body, http)
            return wire.Reply(st_, body, t)
        st_, body = self.answer(http.body, http)
        return wire.Reply(st_, body, soap.SOAP_TYPE)

    def check_http(self, http):
        c, env = self.c, self.env
        u = urlsplit(http.url)
        same(u.scheme, "https" if self.tls else "http", "scheme of the endpoint")
        host = c["server"]
        try:
            host = ipaddress.IPv6Address(host).compressed
        except ValueError:
            host = host.lower().encode("idna").decode()
        same(u.hostname, host, "host of the endpoint")
        same(u.port, c["port"] or (5986 if self.tls else 5985), "port of the endpoint")
        same(u.path + ("?" + u.query if u.query else ""), "/" + (c["path"] or "wsman"), "path of the endpoint")
        same(http.method, "POST", "method")
        cv = c["cert_validation"]
        same(http.verify, (env["REQUESTS_CA_BUNDLE"] or env["CURL_CA_BUNDLE"] or True) if cv in (None, True) else cv, "verification of the server certificate")
        same(http.cert, (c["certificate_pem"], c["certificate_key_pem"]) if self.auth == "certificate" else None, "client certificate")
        same(requests.utils.select_proxy(http.url, http.proxies) or None, proxy_of(c, env), "proxy")
        if self.timeout:
            same(http.timeout, self.timeout + 2, "HTTP timeout")
        else:
            same(tuple(http.timeout), (c["connection_timeout"] or 30, c["read_timeout"] or 30), "HTTP timeouts")
        same(http.headers.get("User-Agent"), "Python PSRP Client", "user agent")
        same(http.headers.get("Accept-Encoding"), "identity", "accepted encodings")
        r = http.adapter.max_retries
        same((r.total, r.connect, r.read, r.backoff_factor), (c["reconnection_retries"] or 0, c["reconnection_retries"] or 0, 0, c["reconnection_backoff"] or 2.0), "connection retries")


def check_options(case):
    env = case["env"]
    tmp = netrc = None
    if env["netrc"]:
        tmp = tempfile.mkdtemp(prefix="verif-c14-")
        netrc = os.path.join(tmp, "netrc")
        with open(netrc, "w") as f:
            f.write("machine srv login stranger password secret\nmachine 10.1.2.3 login stranger password secret\n")
        os.chmod(netrc, 0o600)
    pristine = dict(urllib3.poolmanager.pool_classes_by_scheme)
    current = [None]
    credargs = []

    def ctx(kw):
        return sec.FakeContext(kw, current[0].ep.tokens)

    def cred(*a, **k):
        credargs.append((a, k))
        return c12.FakeCred(sec.FakeContext({}, current[0].ep.tokens))

    class Plain(c12.Endpoint):
        pass

    old = credssp.CredSSPContext
    credssp.CredSSPContext = cred
    labels = set()
    try:
        with env_vars(env, netrc), wire.wire(lambda http: current[0](http)) as wi, sec.contexts(ctx) as made, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            clients = []
            for c in case["configs"]:
                cl = Client(c, env)
                why = reject(c)
                try:
                    cl.new()
                except ValueError as e:
                    require(why == "new", "%r is rejected: %s", {k: v for k, v in c.items() if v is not None}, e)
                    require(str(e), "the error has no text")
                    labels.add("rejected")
                    continue
                require(why != "new", "an impossible combination is accepted: auth %r, encryption %r, ssl %r", c["auth"], c["encryption"], c["ssl"])
                clients.append(cl)
            same(wi.count, 0, "requests sent while the clients are created")
            for rnd in range(case["rounds"]):
                for cl in clients:
                    current[0] = cl
                    c = cl.c
                    cl.timeout = c["op_timeout"]
                    n = wi.count
                    n_made, n_cred = len(made), len(credargs)
                    msg = b"<message %d/>" % rnd
                    try:
                        got = cl.w.transport.send(msg, timeout=cl.timeout + 2 if cl.timeout else None)
                    except ValueError as e:
                        require(reject(c) == "send", "auth %r with %r is rejected: %s", cl.auth, {k: v for k, v in c.items() if v is not None}, e)
                        same(wi.count, n, "requests sent before the options are rejected")
                        labels.add("rejected")
                        continue
                    require(reject(c) is None, "auth %r without what it needs is accepted", cl.auth)
                    same(cl.msg, msg, "content that arrives")
                    same(got, b"answer %d" % cl.n, "answer")
                    labels.add(cl.auth + (" sealed" if cl.sealed else ""))
                    if cl.auth in ("negotiate", "kerberos", "ntlm"):
                        same(len(made) - n_made, 1 if rnd == 0 else 0, "security contexts made")
                        if rnd == 0:
                            check_context(cl, made[-1].kw)
                    elif cl.auth == "credssp" and rnd == 0:
                        same(len(credargs) - n_cred, 1, "CredSSP contexts made")
                        host = urlsplit(cl.w.transport.endpoint).hostname.encode("idna").decode() if ":" not in c["server"] else ipaddress.IPv6Address(c["server"]).compressed
                        same(credargs[-1][0], (host, c["username"], c["password"], c["credssp_auth_mechanism"] or "auto", bool(c["credssp_disable_tlsv1_2"]), c["credssp_minimum_version"] or 2), "CredSSP settings")
            for cl in clients:
                cl.w.close()
            same(dict(urllib3.poolmanager.pool_classes_by_scheme), pristine, "connection classes of urllib3")
            other = requests.Session()
            same(other.headers["User-Agent"], requests.utils.default_user_agent(), "user agent of other sessions")
            same(dict(other.get_adapter("https://x").poolmanager.pool_classes_by_scheme), pristine, "connection classes of other sessions")
            other.close()
    finally:
        credssp.CredSSPContext = old
        if tmp:
            shutil.rmtree(tmp)
    return Info(bool(labels) or any(v is not None for c in case["configs"] for v in c.values()), sorted(labels))


def check_context(cl, kw):
    c = cl.c
    same(kw.get("username"), c["username"], "username of the security context")
    same(kw.get("password"), c["password"], "password of the security context")
    host = ipaddress.IPv6Address(c["server"]).compressed if ":" in c["server"] else c["server"].lower().encode("idna").decode()
    same(kw.get("hostname"), c["negotiate_hostname_override"] or host, "host name of the security context")
    same(kw.get("service"), c["negotiate_service"] or "host", "service of the security context")
    # a named protocol limits negotiation, the server's choice applies otherwise
    same(kw.get("protocol"), cl.auth if cl.auth != "negotiate" else cl.ep.scheme.lower(), "protocol of the security context")
    req = spnego.ContextReq(kw.get("context_req", spnego.ContextReq.default))
    same(bool(req & spnego.ContextReq.delegate), bool(c["negotiate_delegate"]), "credential delegation")
    same(req & ~spnego.ContextReq.delegate, spnego.ContextReq.default, "flags of the security context")
    opt = spnego.NegotiateOptions(kw.get("options") or 0)
    same(bool(opt & spnego.NegotiateOptions.wrapping_winrm), cl.sealed, "sealing requested of the security context")
    same(kw.get("channel_bindings"), None, "channel bindings without a certificate")


# ---------------------------------------------------------------- real TLS
@functools.lru_cache(None)
def pki():
    """Two authorities, server certificates and a client certificate with a protected key; all PEM bytes."""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID

    def name(cn):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])

    def make(cn, issuer=None, ca=False, san=None):
        key = ec.generate_private_key(ec.SECP256R1())
        now = datetime.datetime(2020, 1, 1)
        b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(issuer[0] if issuer else name(cn)).public_key(key.public_key()).serial_number(x509.random_serial_number())
             .not_valid_before(now).not_valid_after(datetime.datetime(2090, 1, 1)).add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True))
        ski = x509.SubjectKeyIdentifier.from_public_key(key.public_key())
        b = b.add_extension(ski, critical=False)
        if ca:
            b = b.add_extension(x509.KeyUsage(True, False, False, False, False, True, True, False, False), critical=True)
        b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer[1].public_key() if issuer else key.public_key()), critical=False)
        if san:
            b = b.add_extension(x509.SubjectAlternativeName(san), critical=False)
        cert = b.sign(issuer[1] if issuer else key, hashes.SHA256())
        return name(cn), key, cert

    def pem(c):
        return c[2].public_bytes(serialization.Encoding.PEM)

    def keypem(c, password=None):
        return c[1].private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.BestAvailableEncryption(password) if password else serialization.NoEncryption())

    import ipaddress as ip
    ca, other = make("Test CA", ca=True), make("Other CA", ca=True)
    good = make("srv", ca and (ca[0], ca[1]), san=[x509.DNSName("localhost"), x509.IPAddress(ip.ip_address("127.0.0.1"))])
    wrong = make("srv", (ca[0], ca[1]), san=[x509.DNSName("elsewhere.example")])
    client = make("client", (ca[0], ca[1]))
    return {"ca": pem(ca), "other": pem(other), "good": pem(good) + keypem(good), "wrong": pem(wrong) + keypem(wrong), "client": pem(client), "client_key": keypem(client), "client_locked": keypem(client, b"p\xc3\xa4ss w"),
            "client_der": client[2].public_bytes(serialization.Encoding.DER)}


tls_cases = st.fixed_dictionaries({"validate": st.sampled_from([True, False, "ca", "ca", "other"]), "env": maybe("ca", "other"), "server": st.sampled_from(["good", "good", "wrong"]), "auth": st.sampled_from(["basic", "certificate", "certificate"]),
                                   "locked": st.booleans(), "password": st.sampled_from(["right", "right", "right", "none", "bad"]), "host": st.sampled_from(["127.0.0.1", "localhost"]), "two": st.booleans(), "tunnel": st.booleans()})


def check_tls(case):
    p = pki()
    tmp = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        for n, data in p.items():
            if isinstance(data, bytes):
                with open(os.path.join(tmp, n), "wb") as f:
                    f.write(data)
        f = lambda n: os.path.join(tmp, n)
        ctx = ssllib.SSLContext(ssllib.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(f(case["server"]))
        ctx.load_verify_locations(f("ca"))
        ctx.verify_mode = ssllib.CERT_OPTIONAL
        seen = []

        class L(loop.Loop):
            pass

        def handler(g):
            seen.append((g.body, g.headers.get("authorization")))
            return wire.Reply(200, b"fine", soap.SOAP_TYPE)

        # what the server sees of the client's certificate
        peers = []
        old_wrap = ctx.wrap_socket

        class Tls:
            def wrap_socket(self, c, server_side):
                s = old_wrap(c, server_side=server_side)
                peers.append(s.getpeercert(True))
                return s

        kw = {}
        cert = case["auth"] == "certificate"
        if cert:
            kw = {"certificate_pem": f("client"), "certificate_key_pem": f("client_locked" if case["locked"] else "client_key")}
            pw = {"right": "p\xe4ss w", "none": None, "bad": "wrong"}[case["password"]]
            if pw is not None and (case["locked"] or case["password"] == "right"):
                kw["certificate_key_password"] = pw
        else:
            kw = {"username": "u", "password": "p"}
        if cert and case["locked"] and case["password"] == "none":
            return Info(False, ["no password given"])  # OpenSSL would ask on the terminal
        v = case["validate"]
        trusts = None if v is False else (case["env"] if v is True else v)
        works = v is False or trusts == "ca" and case["server"] == "good"
        if cert and case["locked"] and case["password"] == "bad":
            works = False
        with env_vars({"REQUESTS_CA_BUNDLE": f(case["env"]) if case["env"] else None}), loop.Loop(handler, Tls(), tunnel=case["tunnel"]) as srv, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            way = {"proxy": "http://127.0.0.1:%d" % srv.port} if case["tunnel"] else {"no_proxy": True}
            ws = WSMan(case["host"], port=srv.port, auth=case["auth"], cert_validation=f(v) if isinstance(v, str) else v, connection_timeout=10, read_timeout=10, **way, **kw)
            if case["two"]:
                other = WSMan(case["host"], port=srv.port, auth="basic", username="o", password="o", cert_validation=False, **way)
                other.transport.send(b"<other/>")
                same(peers.pop(), None, "client certificate of another client")
                seen.clear()
            try:
                got = ws.transport.send(b"<msg/>")
            except (requests.exceptions.RequestException, ssllib.SSLError, OSError) as e:
                require(not works, "a connection that is trusted fails: %s", e)
                same(seen, [], "what a server that is not trusted gets to see")
            else:
                require(works, "a connection that must not be trusted is used (validation %s, environment %s, server certificate %s, key password %s)", v, case["env"], case["server"], case["password"])
                same(got, b"fine", "answer")
                same([b for b, _ in seen], [b"<msg/>"], "content")
                same(peers[-1], p["client_der"] if cert else None, "client certificate the server got")
                if case["tunnel"]:
                    same(srv.tunnels[-1].split("\r\n")[0], "CONNECT %s:%d HTTP/1.%s" % (case["host"], srv.port, srv.tunnels[-1].split("\r\n")[0][-1]), "what the proxy is asked to connect to")
            ws.close()
    finally:
        shutil.rmtree(tmp)
    return Info(True, ["trusted" if works else "not trusted", case["auth"]])


# ----- connections: one for all that is sent, and none is left when the client is closed or its context is left
release_cases = st.fixed_dictionaries({"clients": st.lists(st.fixed_dictionaries({"n": st.integers(1, 4), "via": st.sampled_from(["WSMan", "Client"]), "leave": st.sampled_from(["close", "context", "context raises"]), "size": st.sampled_from([1, 100, 70000]), "again": st.booleans()}), min_size=1, max_size=3)})


class Left(Exception):
    pass


def check_release(case):
    def handler(g):
        return wire.Reply(200, b"answer to " + g.body[:20] + b"%d" % len(g.body), {"Content-Type": "application/soap+xml;charset=UTF-8"})

    keep = []
    with env_vars({}), loop.Loop(handler) as srv:
        for i, c in enumerate(case["clients"]):
            kw = dict(ssl=False, port=srv.port, auth="basic", encryption="never", username="u%d" % i, password="p", connection_timeout=10, read_timeout=10, no_proxy=True)
            o = WSMan("127.0.0.1", **kw) if c["via"] == "WSMan" else PsrpClient("127.0.0.1", **kw)
            ws = o if c["via"] == "WSMan" else o.wsman
            keep.append((o, ws))

            def use(n):
                k = srv.opened
                for j in range(n):
                    body = (b"<m%d/>" % j).ljust(c["size"] + 4, b" ")
                    same(ws.transport.send(body), b"answer to " + body[:20] + b"%d" % len(body), "answer")
                same(srv.opened - k, 1, "connections opened for %d messages" % n)

            for rnd in range(1 + c["again"]):
                if c["leave"] == "close":
                    use(c["n"])
                    require(not srv.ended.acquire(blocking=False), "the connection is closed while the client is open")
                    o.close()
                else:
                    try:
                        with o as inner:
                            require(inner is o, "the context gives %s", clip(inner))
                            use(c["n"])
                            require(not srv.ended.acquire(blocking=False), "the connection is closed while the client is open")
                            if c["leave"] == "context raises":
                                raise Left()
                    except Left:
                        pass
                    else:
                        require(c["leave"] == "context", "an error does not leave the context of the client")
                require(srv.ended.acquire(timeout=10), "closing a %s (%s) leaves its connection open", c["via"], c["leave"])
        require(not srv.errors, "errors of the server: %s", srv.errors)
    return Info(True, sorted({c["via"] + " " + c["leave"] for c in case["clients"]}))


SUBS = [
    Sub("release", lambda: release_cases, check_release, quick=60, thorough=600),
    Sub("options", lambda: cases, check_options, quick=500, thorough=8000, qshards=4, tshards=8),
    Sub("tls", lambda: tls_cases, check_tls, quick=200, thorough=600, qshards=2, tshards=4),
]
