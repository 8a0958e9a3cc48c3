"""C13: requests are retried only when safe, and each reply is delivered once."""
import xml.etree.ElementTree as ET

import requests
from hypothesis import strategies as st

import gens
import loop
import psrp
import sec
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c12
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.shell import Process, SignalCode, WinRS
from pypsrp.wsman import WSMan

PROPERTY = "C13"
RULE = ("ops: sequences of WSMan operations of every kind, each with a generated sequence of connection and read timeouts and connection errors before the answer, plain or sealed; loops: processes and pipelines whose "
        "requests and answers get lost or whose server reports operation timeouts at any point; sockets: a real server on the loopback interface that hangs, closes or resets after it has read the request. Non-trivial: at "
        "least one fault was injected.")

TIMEOUTS = ["ReadTimeout", "ConnectTimeout"]
FAULTS = TIMEOUTS + ["ConnectionError"]
OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
URI = soap.SHELL + "/cmd"


def is_a(e, kind):
    """The exception the transport raised, possibly wrapped in the one of the library's own (its cause then)."""
    return type(e) is getattr(requests, kind, None) or type(e) is getattr(requests.exceptions, kind)


op = st.fixed_dictionaries({"op": gens.choose(st.just("receive"), st.sampled_from(OPS)), "faults": gens.choose(st.just([]), st.lists(st.sampled_from(FAULTS), max_size=2), st.lists(st.sampled_from(TIMEOUTS), min_size=1, max_size=8)),
                            "auth_faults": gens.choose(st.just([]), st.lists(st.sampled_from(FAULTS + TIMEOUTS), max_size=2), st.lists(st.sampled_from(TIMEOUTS), max_size=6)), "timeout": st.sampled_from([None, None, 5])})
ops_cases = st.fixed_dictionaries({"sealing": st.one_of(st.none(), c12.sealing), "ops": st.lists(op, min_size=1, max_size=5), "backoff": st.sampled_from([0.0, 2.0, 0.5]), "certificate": st.booleans()})


def check_ops(case):
    s = case["sealing"]
    state = {"faults": [], "auth_faults": [], "seen": [], "n": 0}

    def answer(plain, http):
        state["seen"].append(plain)
        if state["faults"]:
            return None
        state["n"] += 1
        req = soap.Req(plain, http)
        state["token"] = "answer %d" % state["n"]
        r = soap.ok(req, "<rsp:Answer>%s</rsp:Answer>" % state["token"])
        return r.status, r.body

    class Ep(c12.Endpoint):
        def __call__(self, http):
            if self.leg < len(self.tokens) and http.headers.get("Authorization") is None and state["auth_faults"]:
                require(not http.body, "content is sent before there is a security context")
                return getattr(requests, state["auth_faults"].pop(0))("injected")
            if self.leg == len(self.tokens) and state["faults"]:
                self.open(http)  # read, then the connection breaks
                k = state["faults"].pop(0)
                state["seen"].append(None)
                self.reset()
                return getattr(requests, k)("injected")
            return c12.Endpoint.__call__(self, http)

        def reset(self):
            self.leg, self.in_, self.out = 0, sec.Sealer(b"c2sk"), sec.Sealer(b"s2ck")

        def open(self, http):
            p = c12.Endpoint.open(self, http)
            state["plain"].append(p)
            return p

    def plain_handler(http):
        state["plain"].append(http.body)
        if state["faults"]:
            return getattr(requests, state["faults"].pop(0))("injected")
        r = answer(http.body, http)
        return wire.Reply(r[0], r[1], soap.SOAP_TYPE)

    if s:
        h = Ep(s, answer)
    else:
        h = plain_handler
    with wire.wire(h) as w, (c12.fake(s, h) if s else sec.contexts(lambda kw: None)):
        kw = {"reconnection_backoff": case["backoff"]}
        ws = c12.new_wsman(s, **kw) if s else WSMan("srv", ssl=True, **(dict(auth="certificate", certificate_pem="/c.pem", certificate_key_pem="/k.pem") if case["certificate"] else dict(auth="basic", username="u", password="p")), **kw)
        for o in case["ops"]:
            state["plain"], state["faults"] = [], list(o["faults"])
            retry = o["op"] == "receive"
            # what happens until the answer, or until the fault that is reported
            bad, attempts, failed = None, 0, 0
            fa, fm = list(o["auth_faults"]) if s else [], list(o["faults"])
            state["auth_faults"] = list(fa)
            ctx = not s or h.leg == len(h.tokens)
            while bad is None:
                if not ctx and fa:
                    k = fa.pop(0)
                else:
                    attempts += 1
                    if not fm:
                        break
                    k, ctx = fm.pop(0), not s
                failed += 1
                if k == "ConnectionError" or not retry or failed > 5:
                    bad = k
            body = ET.Element("{%s}X" % soap.NS["rsp"])
            body.text = "payload"
            try:
                got = getattr(ws, o["op"])(URI, body, timeout=o["timeout"])
            except requests.RequestException as e:
                require(bad is not None, "%s with the faults %r raises %r although it can be retried", o["op"], o["faults"], e)
                require(is_a(e, bad), "%s with the faults %r raises %s, want %s", o["op"], o["faults"], type(e).__name__, bad)
            else:
                require(bad is None, "%s with the faults %r succeeds", o["op"], o["faults"])
                same(got.findtext(soap.q("rsp:Answer")), state["token"], "answer of the %s operation" % o["op"])
            state["faults"], state["auth_faults"] = [], []
            same(len(state["plain"]), attempts, "times the %s request was sent with the faults %r" % (o["op"], o["faults"]))
            for p in state["plain"]:
                require(p == state["plain"][0], "a repeated request differs: %s / %s", clip(state["plain"][0]), clip(p))
            for x in w.sleeps:
                require(x >= 0, "a pause of %r seconds", x)
    return Info(any(o["faults"] for o in case["ops"]), ["sealed" if s else "plain"] + (["retries exhausted"] if any(len(o["faults"]) > 5 for o in case["ops"]) else []))


# ---------------------------------------------------------------- loops
lost = st.sampled_from(["", "", "", "lost request", "lost answer", "connect", "twice"])
plan = st.fixed_dictionaries({"frag_sizes": st.lists(st.integers(20, 400), min_size=1, max_size=3), "per_response": st.lists(st.integers(1, 4), min_size=1, max_size=3), "per_stream": st.lists(st.integers(1, 3), min_size=1, max_size=2),
                              "hold": st.lists(st.sampled_from([0, 0, 1, 2]), max_size=6)})
loop_cases = st.fixed_dictionaries({"kind": st.sampled_from(["process", "pipeline"]), "plan": plan, "lost": st.lists(lost, min_size=1, max_size=12), "out": st.lists(st.text(st.sampled_from("ab\u20ac\n"), max_size=60), max_size=6),
                                    "late": st.booleans(), "sealing": st.one_of(st.none(), c12.sealing)})


class Lossy:
    """Loses Receive requests or their answers; the same request again gets the same answer."""

    def __init__(self, srv, plan):
        self.srv, self.plan = srv, list(plan)
        self.cache = {}
        self.count = {}
        self.used = 0
        self.other = []

    def __call__(self, http):
        body = getattr(http, "plain", None) or http.body
        req = soap.Req(body, http)
        if req.action != "Receive":
            self.other.append(req.msgid)
            return self.srv(http)
        k = self.count[req.msgid] = self.count.get(req.msgid, 0) + 1
        if k == 1 and self.plan:
            self.todo = {"": [], "lost request": ["q"], "lost answer": ["a"], "connect": ["c"], "twice": ["a", "q"]}[self.plan.pop(0)]
        elif k == 1:
            self.todo = []
        if self.todo:
            f = self.todo.pop(0)
            self.used += 1
            if f == "a" and req.msgid not in self.cache:
                self.cache[req.msgid] = self.srv(http)
            return requests.ConnectTimeout("lost") if f == "c" else requests.ReadTimeout("lost")
        if req.msgid in self.cache:
            return self.cache[req.msgid]
        return self.srv(http)


def check_loops(case):
    outs = case["out"]

    class Srv(server.Server):
        def unseal(self, http):
            return getattr(http, "plain", None) or http.body

        def run_pipeline(self, sh, c, m):
            if not case["late"]:
                self.on_idle(sh, c)

        def on_process(self, c):
            if not case["late"]:
                self.on_idle(c.shell, c)

        def on_idle(self, sh, c):
            if c is None or c.done:
                return
            if sh.ps:
                self.finish(sh, c, *[("PIPELINE_OUTPUT", ("S", o)) for o in outs])
            else:
                for i, o in enumerate(outs):
                    c.out.append(("stderr" if i % 3 == 2 else "stdout", o.encode()))
                c.rc, c.done = 7, True

    srv = Srv(case["plan"])
    lossy = Lossy(srv, case["lost"])
    s = case["sealing"]
    if s:
        class Ep(c12.Endpoint):
            def __call__(self, http):
                if self.leg == len(self.tokens):
                    h = loop.Got(0, "POST", http.url, http.headers, http.body)
                    h.plain = self.open(http)
                    r = lossy(h)
                    if isinstance(r, Exception):
                        self.leg, self.in_, self.out = 0, sec.Sealer(b"c2sk"), sec.Sealer(b"s2ck")
                        return r
                    return self.seal(r.status, r.body)
                return c12.Endpoint.__call__(self, http)

        h = Ep(s, None)
    else:
        h = lossy
    with wire.wire(h), (c12.fake(s, h) if s else sec.contexts(lambda kw: None)):
        ws = c12.new_wsman(s) if s else server.new_wsman()
        if case["kind"] == "process":
            with WinRS(ws) as sh:
                p = Process(sh, "cmd")
                p.invoke()
            same(p.stdout, b"".join(o.encode() for i, o in enumerate(outs) if i % 3 != 2), "stdout")
            same(p.stderr, b"".join(o.encode() for i, o in enumerate(outs) if i % 3 == 2), "stderr")
            same(p.rc, 7, "exit code")
        else:
            with RunspacePool(ws) as pool:
                ps = PowerShell(pool)
                ps.add_script("x")
                same(list(ps.invoke()), outs, "output")
    require(len(set(lossy.other)) == len(lossy.other), "a request other than Receive was sent twice")
    require(all(n <= 6 for n in lossy.count.values()), "a Receive request was sent %d times", max(lossy.count.values(), default=0))
    return Info(lossy.used > 0 or any(case["plan"]["hold"]), [case["kind"]] + (["lost %d" % min(3, lossy.used)] if lossy.used else []))


# ---------------------------------------------------------------- sockets
socket_cases = st.fixed_dictionaries({"op": st.sampled_from(["command", "send", "create", "signal", "delete", "get"]), "how": st.sampled_from(["hang", "close", "reset", "500", "close", "reset"]), "retries": st.sampled_from([0, 1, 3]),
                                      "warm": st.booleans(), "drop": st.booleans()})


def check_sockets(case):
    def handler(g):
        req = soap.Req(g.body)
        if req.body and req.body[0].text == "target":
            arrived.append(req.msgid)
            if case["how"] == "500":
                return wire.Reply(500, b"broken", {"Content-Type": "text/plain"})
            return case["how"]
        return soap.ok(req, "<rsp:Answer>fine</rsp:Answer>")

    def call(op, text):
        el = ET.Element("{%s}X" % soap.NS["rsp"])
        el.text = text
        return getattr(ws, op)(URI, el)

    arrived = []
    with loop.Loop(handler) as srv:
        ws = WSMan("127.0.0.1", port=srv.port, ssl=False, auth="basic", encryption="never", username="u", password="p", read_timeout=0.15, connection_timeout=2, reconnection_retries=case["retries"], reconnection_backoff=0.0, no_proxy=True)
        if case["warm"]:
            same(call("get", "x").findtext(soap.q("rsp:Answer")), "fine", "answer")
            if case["drop"]:
                srv.drop_all()
        try:
            call(case["op"], "target")
        except (requests.RequestException, Exception) as e:
            require(not isinstance(e, (AttributeError, TypeError, KeyError)), "%s raises %r", case["how"], e)
        else:
            fail("a %s request that is not answered (%s) counts as success", case["op"], case["how"])
        # a connection the server had dropped may show only when the request is written: it then did not arrive at all
        require(len(arrived) == 1 or case["warm"] and case["drop"] and not arrived, "the %s request arrived %d times at a server that reads it and then does: %s", case["op"], len(arrived), case["how"])
        same(call("get", "x").findtext(soap.q("rsp:Answer")), "fine", "answer of a later request")
        ws.close()
    for e in srv.errors:
        raise e
    return Info(True, [case["how"], "retries %d" % case["retries"]])


SUBS = [
    Sub("ops", lambda: ops_cases, check_ops, quick=250, thorough=5000, qshards=3, tshards=6),
    Sub("loops", lambda: loop_cases, check_loops, quick=150, thorough=3000, qshards=3, tshards=6),
    Sub("sockets", lambda: socket_cases, check_sockets, quick=60, thorough=500, qshards=1, tshards=2),
]
