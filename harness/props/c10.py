"""C10: every failed exchange is an error with the server's details."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import psrp
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import AuthenticationError, WinRMError, WinRMTransportError, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.shell import Process, SignalCode, WinRS
from pypsrp.wsman import WSMan

PROPERTY = "C10"
RULE = ("answers: every HTTP status from 400 to 599 with a fault made of any subset of its parts, with XML that is no fault, text, markup or nothing, against every operation, then a success; "
        "sessions: whole WinRS and PSRP sessions whose k-th request is answered with a fault, a transport error or a refused authentication. Non-trivial: a body of at least two parts, or a failure past the first request.")
_BAD = dict.fromkeys(list(range(0, 9)) + [11, 12] + list(range(14, 32)) + [0xFFFE, 0xFFFF])
xtext = gens.long(st.one_of(gens.text(14).map(lambda s: s.translate(_BAD)), st.sampled_from(["Access is denied. ", "  padded\n", "100%d %s {0}", "\u4e2d\u6587"])), 200)
opt = lambda s: st.one_of(st.none(), s)
code = st.one_of(st.sampled_from([5, 2150858843, 995, 2147942405, 0]), st.integers(1, 2**32 - 1)).filter(lambda c: c != soap.OP_TIMEOUT)

fault = st.fixed_dictionaries({"code": opt(st.one_of(code, code.map(str), st.sampled_from(["0x80338000", "abc"]))), "sub": opt(st.one_of(st.sampled_from(["wsman:InvalidSelectors", "w:AccessDenied"]), gens.ident(6))),
                               "value": opt(st.sampled_from(["s:Sender", "s:Receiver"])), "reason": opt(xtext), "machine": opt(xtext), "message": opt(xtext), "provider": opt(xtext), "path": opt(xtext),
                               "pfault": opt(xtext), "detail": st.booleans(), "wmi": opt(xtext)})
other = st.one_of(st.sampled_from(["", "nope", "<html><body>503</body></html>", "<a>", "<a/>", "<?xml version='1.0'?><error code='1'>x</error>", "{\"a\": 1}", "<s:Envelope", "caf\xe9 <b", " ", "\n"]),
                  xtext, st.just("ENV"))
OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
cases = st.fixed_dictionaries({"status": st.one_of(st.sampled_from([400, 401, 401, 403, 404, 407, 411, 413, 500, 500, 500, 502, 503, 504, 599]), st.integers(400, 599)),
                               "body": st.one_of(st.tuples(st.just("fault"), fault), st.tuples(st.just("fault"), fault), st.tuples(st.just("other"), other)), "op": st.sampled_from(OPS),
                               "relates": st.booleans(), "ok_body": gens.ident(5), "pretty": st.booleans()})


def wmi_xml(text):
    return '<p:MSFT_WmiError xmlns:p="http://schemas.microsoft.com/wbem/wsman/1/wmi"><p:Message>%s</p:Message></p:MSFT_WmiError>' % soap.xesc(text) if text is not None else None


def clean(t):
    """text as an XML parser delivers it, without the white space around it"""
    return (t or "").strip() or None


def expect(f):
    """(code, machine, reason, provider, path, fault) the answer states"""
    c = f["sub"] if f["sub"] is not None else f["value"]
    m = p = pp = pf = None
    reason = clean(f["reason"])
    if f["detail"]:
        if f["code"] is not None:
            c = f["code"]
        m, p, pp = f["machine"], f["provider"], f["path"]
        if any(f[k] is not None for k in ("provider", "path", "pfault")):
            pf = clean(f["pfault"])
        reason = clean(f["message"]) or reason
    try:
        c = int(c)
    except (TypeError, ValueError):
        pass
    return c, m, reason, p, pp, pf


def norm_attr(t):
    """attribute value normalisation: the writer escapes with quoteattr, which keeps \\n \\r \\t"""
    return t


def check(case):
    kind, b = case["body"]

    def handler(http):
        req = soap.Req(http.body, http)
        if box["ok"]:
            return soap.ok(req, "<x>%s</x>" % case["ok_body"])
        rel = req.msgid if case["relates"] else None
        if kind == "fault":
            text = soap.fault_xml(rel, b["code"], b["sub"], b["value"], b["reason"], b["machine"], b["message"], b["provider"], b["path"], b["pfault"], b["detail"], wmi_xml(b["wmi"]))
        else:
            text = soap.envelope("<x/>", req.action_uri, rel) if b == "ENV" else b
        box["text"] = text
        return wire.Reply(case["status"], text.encode("utf-8"), soap.SOAP_TYPE)

    box = {"ok": False}
    with wire.wire(handler) as net:
        w = WSMan("srv", username="the user", password="p", auth="basic", ssl=True)
        el = ET.Element("{urn:x}a")
        err = None
        try:
            r = getattr(w, case["op"])(server.CMD_URI, el)
        except WinRMError as e:
            err = e
        require(err is not None, "HTTP %d with %s is taken as success: %r", case["status"], clip(box["text"]), err or r)
        require(net.count == 1, "%d requests were sent", net.count)
        text = str(err)
        require(isinstance(text, str) and text, "the error has no text")
        if case["status"] == 401:
            require(isinstance(err, AuthenticationError), "401 raises %r", err)
        elif kind == "fault":
            require(isinstance(err, WSManFaultError), "a fault raises %s %s", type(err).__name__, clip(text))
            want = expect(b)
            got = (err.code, err.machine, err.reason or None, err.provider, err.provider_path, err.provider_fault or None)
            same(got, want, "code, machine, reason, provider, path and fault")
            for v in want:
                if v:
                    require(str(v) in text, "the text of the error lacks %s: %s", clip(str(v)), clip(text))
        else:
            require(isinstance(err, WinRMTransportError), "HTTP %d without a fault raises %s %s", case["status"], type(err).__name__, clip(text))
            same(err.code, case["status"], "code")
            same(err.response_text, box["text"], "response text")
            require(str(case["status"]) in text, "the text of the error lacks the status: %s", clip(text))
        # the session goes on
        box["ok"] = True
        r = getattr(w, case["op"])(server.CMD_URI, ET.Element("{urn:x}b"))
        same("".join(r.itertext()), case["ok_body"], "the next answer")
    parts = sum(v not in (None, False) for v in b.values()) if kind == "fault" else 0
    return Info(kind == "other" or parts > 1, [kind, "401" if case["status"] == 401 else "%dxx" % (case["status"] // 100)])


# ---------------------------------------------------------------- sessions
SCEN = ["winrs", "pool"]
sess_cases = st.fixed_dictionaries({"scen": st.sampled_from(SCEN), "at": st.integers(0, 9), "how": st.sampled_from(["fault", "transport", "401", "plain"]), "code": code, "input": st.booleans()})


class Srv(server.Server):
    def intercept(self, req):
        k = self.k
        self.k += 1
        if k == self.case["at"]:
            self.failed = req.action
            how = self.case["how"]
            if how == "fault":
                return soap.fault(req, self.case["code"], reason="broken here", machine="m1")
            if how == "plain":
                return wire.Reply(500, soap.fault_xml(req.msgid, None, "wsman:InternalError", reason="broken here", detail=False).encode(), soap.SOAP_TYPE)
            if how == "transport":
                return wire.Reply(503, b"<html>gateway</html>", {"Content-Type": "text/html; charset=utf-8"})
            return wire.Reply(401, b"", {})

    def on_process(self, c):
        c.out.append(("stdout", b"hello"))
        c.rc, c.done = 0, True

    def run_pipeline(self, sh, c, m):
        if m.node().prop("NoInput").value:
            self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "hello")))

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "hello")))


def steps(case, w, out):
    """generators of steps; each sends at least one request"""
    if case["scen"] == "winrs":
        sh = WinRS(w)
        yield sh.open
        p = Process(sh, "cmd", ["a"])
        yield p.begin_invoke
        if case["input"]:
            yield lambda: p.send(b"x", end=True)
        yield p.end_invoke
        yield lambda: p.signal(SignalCode.TERMINATE)
        yield sh.close
        out.append(p.stdout)
    else:
        pool = RunspacePool(w)
        yield pool.open
        ps = PowerShell(pool)
        ps.add_script("x")
        yield lambda: ps.begin_invoke(input=["1"] if case["input"] else None)
        yield ps.end_invoke
        yield ps.close
        yield pool.close
        out.append(ps.output)


def check_sess(case):
    srv = Srv()
    srv.k, srv.case, srv.failed = 0, case, None
    out = []
    with wire.wire(srv):
        w = server.new_wsman()
        for i, step in enumerate(steps(case, w, out)):
            err = None
            try:
                step()
            except WinRMError as e:
                err = e
            if srv.failed:
                require(err is not None, "step %d hides that its %s request failed (%s)", i, srv.failed, case["how"])
                str(err)
                cls = {"fault": WSManFaultError, "plain": WSManFaultError, "transport": WinRMTransportError, "401": AuthenticationError}[case["how"]]
                require(isinstance(err, cls), "the failed %s raises %s: %s", srv.failed, type(err).__name__, err)
                if case["how"] == "fault":
                    same((err.code, err.machine, err.reason), (case["code"], "m1", "broken here"), "details")
                elif case["how"] == "transport":
                    same((err.code, err.response_text), (503, "<html>gateway</html>"), "details")
                elif case["how"] == "plain":
                    same((err.code, err.reason), ("wsman:InternalError", "broken here"), "details")
                return Info(case["at"] > 0, [srv.failed, case["how"]])
            if err is not None:
                raise err
    same([list(x) if isinstance(x, list) else x for x in out], [b"hello"] if case["scen"] == "winrs" else [["hello"]], "what the session returns")
    return Info(False, ["no failure"])


SUBS = [
    Sub("answers", lambda: cases, check, quick=500, thorough=10000, qshards=3, tshards=8),
    Sub("sessions", lambda: sess_cases, check_sess, quick=200, thorough=2000, qshards=2, tshards=2),
]
