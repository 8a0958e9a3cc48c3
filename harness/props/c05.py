"""C05: secure strings travel encrypted under the exchanged session key, and only so."""
import base64
import struct

from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import DictionaryMeta, ListMeta, ObjectMeta, PSCredential, PSInvocationState
from pypsrp.exceptions import InvalidPSRPOperation
from pypsrp.host import PSHost, PSHostUserInterface
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.serializer import SerializationError

PROPERTY = "C05"
RULE = ("history: one or two pools whose servers return different session keys; generated histories of exchanges asked for by the client, by the server or by both at once, repeated, answered late or after a timeout, with secure "
        "strings and credentials of any text sent as arguments, parameters, input, host answers and inside collections, and received the same ways, before and after; every secret the server gets is compared with its own encryption, "
        "all that was sent is searched for the plain text. Non-trivial: a secret was sent or received after an exchange, or asked for before one.")

secret = gens.choose(gens.text(20), st.tuples(st.sampled_from(["", "S3cretEnd", "\ufeff", "\ufffe", " "]), st.text(st.sampled_from("\u2020\u2028\u0a0a\u0909\u0000\u0010\u1010\u0100 \t"), min_size=1, max_size=9)).map("".join), gens.ident(8).map(lambda s: "S3cret" + s), gens.ident(8).map(lambda s: "S3cret" + s), st.integers(0, 40).map(lambda n: "\xe9" * n), gens.text(30).map(lambda t: "S3cret" + t),
                     st.integers(1, 3000).map(lambda n: "S3cret" + "\U0001f600x" * (n // 2)))
shape = st.sampled_from(["ss", "ss", "cred", "cred", "list", "dict", "list of cred", "dict of cred", "pieces"])
send = st.fixed_dictionaries({"where": st.sampled_from(["parameter", "argument", "input", "pipeline host", "pool host"]), "shape": shape, "text": secret, "user": gens.text(8)})
recv = st.fixed_dictionaries({"where": st.sampled_from(["output", "output", "pipeline host", "pool host", "event", "error"]), "shape": st.sampled_from(["ss", "cred", "list", "dict", "bag"]), "text": secret, "user": gens.text(8)})
exchange = st.fixed_dictionaries({"how": st.sampled_from(["client", "client", "server", "both", "server twice"]), "noise": st.integers(0, 3), "empty": st.integers(0, 2), "late": st.sampled_from([False, False, False, True]), "zero": st.sampled_from([None, None, 0, -1])})
op = gens.choose(st.tuples(st.just("exchange"), st.integers(0, 1), exchange), st.tuples(st.just("send"), st.integers(0, 1), send), st.tuples(st.just("send"), st.integers(0, 1), send), st.tuples(st.just("recv"), st.integers(0, 1), recv),
                 st.tuples(st.sampled_from(["again", "reconnect"]), st.integers(0, 1), st.none()))
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(20, 200), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 6), max_size=3), "bom": st.booleans()})
cases = st.fixed_dictionaries({"keys": st.lists(st.binary(min_size=32, max_size=32), min_size=2, max_size=2, unique=True), "pools": st.integers(1, 2), "ops": st.tuples(st.sampled_from([0, 1, 1]), exchange, st.lists(op, min_size=1, max_size=9)).map(lambda t: [("exchange", 0, t[1])] * t[0] + t[2]), "plan": plans, "env": st.sampled_from([153600, 8000])})

_real = rsa.generate_private_key
_pairs = []


def fake_generate(public_exponent, key_size, backend=None):
    """two key pairs of the real generator, used in turn (generating one per case takes too long)"""
    while len(_pairs) < 2:
        _pairs.append({})
    _state[0] += 1
    d = _pairs[_state[0] % 2]
    k = (public_exponent, key_size)
    if k not in d:
        d[k] = _real(public_exponent=public_exponent, key_size=key_size)
    _state[1].append(d[k])
    return d[k]


_state = [0, []]


def encrypt(key, text):
    raw = text.encode("utf-16-le", "surrogatepass")
    n = 16 - len(raw) % 16
    e = Cipher(algorithms.AES(key), modes.CBC(b"\x00" * 16)).encryptor()
    return e.update(raw + bytes([n]) * n) + e.finalize()


CRED = ["System.Management.Automation.PSCredential", "System.Object"]


class Srv(server.Server):
    max_frags = 6

    def __init__(self, plan, keys):
        server.Server.__init__(self, plan)
        self.keys = list(keys)
        self.key = {}
        self.how = None
        self.wanted = None

    def opened(self, sh):
        self.key[sh.id] = self.keys.pop(0)
        sh.public = []
        sh.withheld = []
        sh.started = []
        server.Server.opened(self, sh)

    def noise(self, sh, n):
        for _ in range(n):
            self.push(sh, None, ("USER_EVENT", psrp.user_event(1, "noise")))

    def on_PUBLIC_KEY(self, sh, c, m):
        d = rc.plain(m.node())["ms"]
        same(list(d), ["PublicKey"], "members of the key message")
        same(d["PublicKey"][0], "S", "type of the key")
        blob = self.b64(d["PublicKey"][1])
        same(blob[:16], bytes.fromhex("0602000000a400005253413100080000"), "header of the public key")
        same(len(blob), 276, "length of the public key")
        e, n = struct.unpack("<I", blob[16:20])[0], int.from_bytes(blob[20:], "little")
        require(n.bit_length() == 2048 and n % 2 == 1 and e % 2 == 1 and e > 2, "the public key (%d bits, exponent %d) cannot be used", n.bit_length(), e)
        sh.public.append(n)
        enc = rsa.RSAPublicNumbers(e, n).public_key().encrypt(self.key[sh.id], padding.PKCS1v15())
        how = self.how or {"noise": 0, "empty": 0, "how": "client", "late": False, "zero": None}
        for _ in range(3000):  # the padding is random: some encrypted keys start or end in a zero
            if how["zero"] is None or not enc[how["zero"]]:
                break
            enc = rsa.RSAPublicNumbers(e, n).public_key().encrypt(self.key[sh.id], padding.PKCS1v15())
        b = bytes.fromhex("010200001066000000a40000") + enc[::-1]
        if how["how"] == "both":
            self.push(sh, None, ("PUBLIC_KEY_REQUEST", ("S", "")))
        self.noise(sh, how["noise"])
        sh.empty = how["empty"]
        msg = ("ENCRYPTED_SESSION_KEY", psrp.encrypted_session_key(base64.b64encode(b).decode()))
        if how["late"]:
            sh.withheld.append(msg)
        else:
            self.push(sh, None, msg)
            self.noise(sh, how["noise"] // 2)

    def receive(self, req, sh, c):
        if c is None and getattr(sh, "empty", 0):
            sh.empty -= 1
            import soap

            return soap.ok(req, self.receive_body(None, []))
        return server.Server.receive(self, req, sh, c)

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        for x in sh.withheld:
            self.push(sh, None, x)
        sh.withheld = []
        for x in self.wanted or ():
            self.push(sh, None, x)
        self.wanted = None
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 1)))

    def run_pipeline(self, sh, c, m):
        if not c.shell.started:
            sh.started = []
        n = m.node()
        c.spec = n
        c.got_input = []
        if not n.prop("NoInput").value:
            return
        self.go(sh, c)

    def go(self, sh, c):
        msgs = list(self.wanted or ())
        self.wanted = None
        self.finish(sh, c, *msgs)

    def on_PIPELINE_INPUT(self, sh, c, m):
        c.got_input.append(rc.plain(m.node()))

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.go(sh, c)


def check(case):
    srv = Srv(server.Plan(case["plan"]), case["keys"])
    labels = set()
    secrets = []  # (text, number of requests before)
    old = rsa.generate_private_key
    rsa.generate_private_key = fake_generate
    _state[1].clear()
    try:
        with wire.wire(srv):
            pools = []
            for n in range(case["pools"]):
                h = PSHost(None, None, False, "h", None, PSHostUserInterface(), "1")
                pool = RunspacePool(server.new_wsman(max_envelope_size=case["env"]), host=h)
                pool.open()
                p = {"pool": pool, "sh": list(srv.shells.values())[-1], "done": False, "host": h, "args": []}
                p["key"] = srv.key[p["sh"].id]
                pools.append(p)
            for name, i, x in case["ops"]:
                step(srv, pools[i % len(pools)], name, x, labels, secrets)
                for p in pools:
                    require(len(p["sh"].public) == (1 if p["done"] else 0), "%d public keys were sent for %s exchange", len(p["sh"].public), "one" if p["done"] else "no")
            for p in pools:
                p["pool"].get_available_runspaces()
                if len(pools) > 1 and pools[0]["done"] and pools[1]["done"]:
                    require(pools[0]["sh"].public != pools[1]["sh"].public, "two pools use the same key pair")
                p["pool"].close()
    finally:
        rsa.generate_private_key = old
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    # nothing that was sent shows a secret
    sent = [m.xml for _, _, m in srv.msgs]
    raw = [r.http.body.decode("utf-8", "replace") for r in srv.reqs]
    for t in secrets:
        if not t.startswith("S3cret"):
            continue
        t = t[:14]  # the part that needs no escaping
        t = t[: next((k for k, ch in enumerate(t) if not (ch.isascii() and ch.isalnum())), len(t))]
        forms = [t] + [base64.b64encode(t.encode(e))[:-4].decode() for e in ("utf-8", "utf-16-le")]
        for f in forms:
            if len(f) < 7:
                continue
            require(not any(f in s for s in sent), "the plain text of %s was sent", clip(t))
            require(not any(f in s for s in raw), "the plain text of %s was sent", clip(t))
    return Info(bool(labels & {"sent", "received", "refused"}), sorted(labels))


def make(pool, x):
    t, k = x["text"], x["shape"]
    if k == "ss":
        return pool.serialize(t, ObjectMeta("SS"))
    if k == "cred":
        return PSCredential(username=x["user"], password=t)
    if k == "list":
        return pool.serialize([t, t + "2", ""], ListMeta(list_value_meta=ObjectMeta("SS")))
    if k == "dict":
        return pool.serialize({"k": t}, DictionaryMeta(dict_value_meta=ObjectMeta("SS", name="Value")))
    if k == "list of cred":
        return [PSCredential(username=x["user"], password=t), 5, PSCredential(username="2", password=t + "2")]
    if k == "dict of cred":
        return {"c": PSCredential(username=x["user"], password=t)}
    return [pool.serialize(t, ObjectMeta("SS")), "plain", pool.serialize(t + "2", ObjectMeta("SS"))]


def expect(key, x):
    t, k = x["text"], x["shape"]
    E = lambda s: ("SS", encrypt(key, s))

    def cred(u, s):
        return {"types": tuple(CRED), "tostring": CRED[0], "props": {"UserName": ("S", u), "Password": E(s)}}

    if k == "ss":
        return E(t)
    if k == "cred":
        return cred(x["user"], t)
    if k == "list":
        return [E(t), E(t + "2"), E("")]
    if k == "dict":
        return {"k": E(t)}
    if k == "list of cred":
        return [cred(x["user"], t), ("I32", 5), cred("2", t + "2")]
    if k == "dict of cred":
        return {"c": cred(x["user"], t)}
    return [E(t), ("S", "plain"), E(t + "2")]


def check_sent(got, key, x, what):
    w = expect(key, x)
    if isinstance(w, list):
        got = got.get("items") if isinstance(got, dict) else got
    elif x["shape"].startswith("dict"):
        got = {k[1]: v for k, v in got["items"]} if isinstance(got, dict) else got
    require(got == w, "%s: the server got %s, want %s", what, clip(got), clip(w))


def spec(key, x):
    E = lambda s: ("SS", encrypt(key, s))
    t, k = x["text"], x["shape"]
    if k == "ss":
        return E(t)
    if k == "cred":
        return psrp.obj([], types=CRED, tostring=CRED[0], props=[("UserName", ("S", x["user"])), ("Password", E(t))])
    if k == "list":
        return ("lst", ["System.Object[]", "System.Array", "System.Object"], [E(t), ("S", "plain"), E("")])
    if k == "dict":
        return ("dct", ["System.Collections.Hashtable", "System.Object"], [(("S", "k"), E(t))])
    return psrp.obj([("P", E(t))], types=["Some.Type", "System.Object"])


def check_received(got, x, what):
    t, k = x["text"], x["shape"]
    if k == "ss":
        same(got, t, what)
    elif k == "cred":
        require(hasattr(got, "username"), "%s: got %s, want a credential", what, clip(got))
        same((got.username, got.password), (x["user"], t), what)
    elif k == "list":
        same(got, [t, "plain", ""], what)
    elif k == "dict":
        same(got, {"k": t}, what)
    else:
        same(got.extended_properties.get("P"), t, what)


def step(srv, p, name, x, labels, secrets):
    pool, sh, key = p["pool"], p["sh"], p["key"]
    n0 = len(srv.reqs)
    if name == "reconnect":
        pool.disconnect()
        pool.connect()
    elif name == "again":
        if p["done"]:
            pool.exchange_keys()
            same(len(srv.reqs), n0, "requests of a repeated exchange")
    elif name == "exchange":
        was = p["done"]
        if was:
            x = dict(x, late=False)
        srv.how = x
        if x["how"] in ("client", "both"):
            if x["late"]:
                pool.session_key_timeout_ms = -1
                try:
                    pool.exchange_keys()
                except InvalidPSRPOperation:
                    labels.add("timed out")
                else:
                    fail("an exchange that is not answered succeeds")
                pool.session_key_timeout_ms = 60000
            else:
                pool.exchange_keys()
        else:
            srv.how = dict(x, late=False)
            srv.wanted = [("PUBLIC_KEY_REQUEST", ("S", ""))] * (2 if x["how"] == "server twice" else 1)
            pool.get_available_runspaces()
        p["done"] = True
        same(len(sh.public), 1, "public keys sent after an exchange")
        if sh.withheld:
            # the answer comes with something else
            blocked = True
            try:
                pool.serialize("S3cretBeforeTheKey", ObjectMeta("SS"))
                blocked = False
            except SerializationError:
                pass
            require(blocked, "a secure string is made before the key arrived")
            pool.get_available_runspaces()
        srv.how = None
        if was:
            labels.add("repeated")
        else:
            labels.add("exchange " + x["how"])
    elif name == "send":
        secrets.append(x["text"])
        if not p["done"]:
            return early(srv, p, x, labels)
        labels.add("sent")
        v = make(pool, x)
        where = x["where"]
        if where == "pool host":
            p["host"].ui.ReadLineAsSecureString = lambda runspace, pipeline: v
            srv.wanted = [("RUNSPACEPOOL_HOST_CALL", psrp.host_call(3, 12, "ReadLineAsSecureString", []))]
            k = len(srv.msgs)
            pool.get_available_runspaces()
            r = [m for s, _, m in srv.msgs[k:] if m.name == "RUNSPACEPOOL_HOST_RESPONSE"]
            same(len(r), 1, "answers")
            return check_sent(rc.plain(r[0].node())["ms"]["mr"], key, x, "answer of a host method")
        ps = PowerShell(pool)
        ps.add_cmdlet("Cmd")
        if where == "parameter":
            ps.add_parameter("P", v)
        elif where == "argument":
            ps.add_argument(v)
        elif where == "pipeline host":
            p["host"].ui.ReadLineAsSecureString = lambda runspace, pipeline: v
            srv.wanted = [("PIPELINE_HOST_CALL", psrp.host_call(3, 12, "ReadLineAsSecureString", []))]
        k = len(srv.msgs)
        ps.invoke([v, "next"] if where == "input" else None)
        c = list(sh.commands.values())[-1]
        if where == "input":
            same(len(c.got_input), 2, "input objects")
            check_sent(c.got_input[0], key, x, "input")
        elif where == "pipeline host":
            r = [m for s, _, m in srv.msgs[k:] if m.name == "PIPELINE_HOST_RESPONSE"]
            same(len(r), 1, "answers")
            check_sent(rc.plain(r[0].node())["ms"]["mr"], key, x, "answer of a host method")
        else:
            a = rc.plain(c.spec)["ms"]["PowerShell"]["ms"]["Cmds"]["items"][0]["ms"]["Args"]["items"]
            same(len(a), 1, "arguments")
            check_sent(a[0]["ms"]["V"], key, x, where)
        ps.close()
    elif name == "recv":
        if not p["done"]:
            return
        labels.add("received")
        s = spec(key, x)
        where = x["where"]
        if where == "pool host":
            srv.wanted = [("RUNSPACEPOOL_HOST_CALL", psrp.host_call(3, 16, "WriteLine2", [s]))]
        elif where == "pipeline host":
            srv.wanted = [("PIPELINE_HOST_CALL", psrp.host_call(3, 16, "WriteLine2", [s]))]
        elif where == "event":
            srv.wanted = [("USER_EVENT", psrp.user_event(9, "secret", data=s))]
        elif where == "error":
            srv.wanted = [("ERROR_RECORD", psrp.error_record(target=s))]
        else:
            srv.wanted = [("PIPELINE_OUTPUT", s), ("PIPELINE_OUTPUT", ("S", "after"))]
        got = []
        p["host"].ui.WriteLine2 = lambda runspace, pipeline, v: got.append(v)
        if where in ("pool host", "event"):
            pool.get_available_runspaces()
            if where == "event":
                got.append(pool.user_events[-1].data)
        else:
            ps = PowerShell(pool)
            ps.add_script("s")
            out = ps.invoke()
            if where == "output":
                same(len(out), 2, "output")
                same(out[1], "after", "output")
                got.append(out[0])
            elif where == "error":
                same(len(ps.streams.error), 1, "errors")
                got.append(ps.streams.error[0].target_object)
            ps.close()
        same(len(got), 1, "values received as " + where)
        check_received(got[0], x, "value received as " + where)


def early(srv, p, x, labels):
    """a secret before there is a key"""
    pool = p["pool"]
    labels.add("refused")
    k = len(srv.reqs)
    where = x["where"]
    try:
        v = make(pool, x)
    except SerializationError:
        require(x["shape"] not in ("cred", "list of cred", "dict of cred"), "the credential cannot be made")
        same(len(srv.reqs), k, "requests of making a secure string")
        return
    require("cred" in x["shape"], "a secure string is made before the key exchange: %s", clip(v))
    if where == "pool host":
        p["host"].ui.ReadLineAsSecureString = lambda runspace, pipeline: v
        srv.wanted = [("RUNSPACEPOOL_HOST_CALL", psrp.host_call(3, 12, "ReadLineAsSecureString", []))]
        k = len(srv.msgs)
        try:
            pool.get_available_runspaces()
        except SerializationError:
            require(not [m for _, _, m in srv.msgs[k:] if m.name == "RUNSPACEPOOL_HOST_RESPONSE"], "an answer was sent")
            pool.get_available_runspaces()
            return
        fail("a credential is sent before the key exchange")
    ps = PowerShell(pool)
    ps.add_cmdlet("Cmd")
    if where == "argument":
        ps.add_argument(v)
    elif where != "input":
        ps.add_parameter("P", v)
    try:
        ps.begin_invoke([v] if where == "input" else None)
    except SerializationError:
        if where != "input":
            same(len(srv.reqs), k, "requests of a refused start")
            same(ps.state, PSInvocationState.NOT_STARTED, "state of a pipeline that was not started")
    else:
        fail("a credential is sent before the key exchange")


SUBS = [Sub("history", lambda: cases, check, quick=400, thorough=12000, qshards=6, tshards=8)]
