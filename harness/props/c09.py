"""C09: WSMan requests are well formed, addressed as configured, and answers are matched."""
import ipaddress
import re
import urllib.parse
import uuid
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import WinRMError
from pypsrp.wsman import NAMESPACES, OptionSet, SelectorSet, WSMan

PROPERTY = "C09"
RULE = ("requests: one or two clients with generated configurations send generated operations with generated bodies, options, selectors and timeouts, interleaved; every request is parsed by the independent "
        "SOAP reader and compared, and the answers are compared with what is returned; config: advertised maximum envelope sizes. Non-trivial: an operation with a body, options or selectors, or an answer that "
        "does not belong to the request.")

# what XML can carry
_BAD = dict.fromkeys(list(range(0, 9)) + [11, 12] + list(range(14, 32)) + [0xFFFE, 0xFFFF])
xtext = gens.text(16).map(lambda s: s.translate(_BAD))
xname = st.one_of(gens.ident(8), gens.ident(8), st.sampled_from(["WINRS_NOPROFILE", "ShellId", "protocolversion"]))
host = st.one_of(st.sampled_from(["srv", "host.example.com", "10.0.0.7", "a-b.c1"]), st.ip_addresses(v=6).map(str), st.sampled_from(["::1", "fe80::1", "2001:db8:0:0:0:0:0:1", "2001:0DB8::0001"]))
locale = st.sampled_from(["en-US", "de-DE", "fr", "zh-Hans-CN", "nb-NO"])
path = st.sampled_from(["wsman", "PowerShell", "a/b/wsman", "wsman-x_1", "powershell?PSVersion=5.1", ""])

config = st.fixed_dictionaries({
    "server": host, "port": st.one_of(st.none(), st.integers(1, 65535)), "ssl": st.booleans(), "path": st.one_of(st.none(), path), "locale": st.one_of(st.none(), locale), "data_locale": st.one_of(st.none(), locale),
    "max_envelope_size": st.one_of(st.none(), st.integers(8192, 4194304)), "operation_timeout": st.one_of(st.none(), st.integers(1, 3600), st.integers(3601, 200000)), "connection_timeout": st.one_of(st.none(), st.integers(1, 300)),
    "read_timeout": st.one_of(st.none(), st.integers(1, 300))})

xid = st.builds(lambda a, b: a + b, st.sampled_from("abcXYZ"), gens.ident(5))
tree = st.recursive(
    st.tuples(xid, st.lists(st.tuples(xid, xtext), max_size=2, unique_by=lambda t: t[0]), xtext, st.just(())),
    lambda c: st.tuples(xid, st.lists(st.tuples(xid, xtext), max_size=2, unique_by=lambda t: t[0]), xtext, st.lists(c, max_size=3).map(tuple)), max_leaves=5)
pair = st.tuples(xname, st.one_of(xtext, st.integers(0, 99)), st.dictionaries(xid, xtext, max_size=2))
pairs = gens.choose(st.none(), st.lists(pair, max_size=4), st.lists(pair, max_size=4), st.lists(pair, max_size=4), st.lists(st.tuples(xname, st.integers(0, 999), st.just({})), min_size=5, max_size=40))
OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal", "invoke"]
OPTIONAL = {"delete", "enumerate", "get", "pull", "put", "reconnect", "invoke"}
op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "who": st.integers(0, 1), "uri": st.one_of(st.sampled_from([server.CMD_URI, server.PWSH_URI + "Microsoft.PowerShell", server.PWSH_URI + "my.config&x=1"]), xtext.filter(bool)),
                            "body": st.one_of(st.none(), tree), "options": pairs, "selectors": pairs, "timeout": st.one_of(st.none(), st.integers(1, 600), st.integers(601, 200000)), "reply": tree, "action": st.sampled_from(["urn:custom/Action", "http://x/y?a=1&b=2"]),
                            "relates": gens.choose(*([st.just("ok")] * 3 + [st.sampled_from(["none", "other", "previous", "noprefix", "twice", "empty"])])), "decl": st.booleans()})
cases = st.fixed_dictionaries({"configs": st.lists(config, min_size=2, max_size=2), "ops": st.lists(op, min_size=1, max_size=5)})

METHOD_ACTION = {k: soap.URIS[k.capitalize()] for k in OPS if k != "invoke"}


def build(t):
    tag, attrs, text, children = t
    e = ET.Element("{urn:t}" + tag)
    for k, v in attrs:
        e.set(k, v)
    e.text = text
    for c in children:
        e.append(build(c))
    return e


def as_tree(e):
    """element -> (tag, attrs, text, children), text without what cannot be told apart"""
    return (e.tag[e.tag.index("}") + 1 :], sorted(e.attrib.items()), e.text or "", tuple(as_tree(c) for c in e))


def want_tree(t):
    return (t[0], sorted(t[1]), t[2], tuple(want_tree(c) for c in t[3]))


def xml_of(t):
    tag, attrs, text, children = t
    from xml.sax.saxutils import quoteattr

    at = "".join(" %s=%s" % (k, quoteattr(v, {"\r": "&#13;", "\n": "&#10;", "\t": "&#9;"})) for k, v in attrs)
    return "<t:%s xmlns:t='urn:t'%s>%s%s</t:%s>" % (tag, at, soap.xesc(text), "".join(map(xml_of, children)), tag)


def mkset(cls, items):
    if items is None:
        return None
    s = cls()
    for n, v, at in items:
        if at:
            s.add_option(n, v, dict(at))
        else:
            s.add_option(n, v)
    return s


def want_url(c):
    h = c["server"]
    try:
        h = "[%s]" % ipaddress.IPv6Address(h).compressed
    except ValueError:
        pass
    p = c["path"] if c["path"] is not None else "wsman"
    port = c["port"] if c["port"] is not None else (5986 if c["ssl"] else 5985)
    return "%s://%s:%d/%s" % ("https" if c["ssl"] else "http", h, port, p)


def check(case):
    clients, seen = [], [[], []]
    box = {}

    def handler(http):
        req = soap.Req(http.body, http)
        box["req"] = req
        o = box["op"]
        r = o["relates"]
        prev = seen[o["who"]][-1].msgid if seen[o["who"]] else "uuid:" + str(uuid.UUID(int=5)).upper()
        rel = {"ok": req.msgid, "other": "uuid:" + str(uuid.UUID(int=9)).upper(), "previous": prev, "noprefix": req.msgid[5:], "twice": req.msgid + req.msgid, "empty": "", "none": None}[r]
        env = soap.envelope(xml_of(o["reply"]), req.action_uri + "Response", rel)
        if o["decl"]:
            env = '<?xml version="1.0" encoding="utf-8"?>' + env
        return wire.Reply(200, env.encode("utf-8"), soap.SOAP_TYPE)

    with wire.wire(handler):
        for c in case["configs"]:
            kw = {k: v for k, v in c.items() if v is not None}
            if not c["ssl"]:
                kw["encryption"] = "never"
            clients.append(WSMan(username="u", password="p", auth="basic", **kw))
        nontrivial = False
        for o in case["ops"]:
            w, c = clients[o["who"]], case["configs"][o["who"]]
            body = build(o["body"]) if o["body"] is not None else None
            if body is None and o["op"] not in OPTIONAL:
                body = ET.Element("{urn:t}empty")
            box.clear()
            box["op"] = o
            args = (o["uri"], body, mkset(OptionSet, o["options"]), mkset(SelectorSet, o["selectors"]), o["timeout"])
            err = res = None
            try:
                if o["op"] == "invoke":
                    res = w.invoke(o["action"], *args)
                    res = res.find("s:Body", namespaces=NAMESPACES)
                else:
                    res = getattr(w, o["op"])(*args)
            except WinRMError as e:
                err = e
            require("req" in box, "%s sent nothing", o["op"])
            req = box["req"]
            http = req.http
            # addressing
            same(http.method, "POST", "HTTP method")
            url = want_url(c)
            same(req.to, url, "To")
            got, want = urllib.parse.urlsplit(http.url), urllib.parse.urlsplit(url)
            same((got.scheme, got.netloc.lower(), got.path or "/", got.query), (want.scheme, want.netloc.lower(), want.path or "/", want.query), "the URL connected to")
            same(req.action_uri, o["action"] if o["op"] == "invoke" else METHOD_ACTION[o["op"]], "Action")
            same(req.resource, o["uri"], "ResourceURI")
            require(re.fullmatch(r"uuid:[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}", req.msgid or ""), "MessageID %r", req.msgid)
            require(req.msgid not in {r.msgid for s in seen for r in s}, "message id %r is used twice", req.msgid)
            require(re.fullmatch(r"uuid:[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}", req.session or ""), "SessionId %r", req.session)
            for r in seen[o["who"]]:
                same(req.session, r.session, "session id of one client")
            for r in seen[1 - o["who"]]:
                require(req.session != r.session, "two clients share the session id")
            same(req.reply_to, soap.ANON, "ReplyTo")
            optimeout = o["timeout"] or c["operation_timeout"] or 20
            same(req.op_timeout, "PT%dS" % optimeout, "OperationTimeout")
            same(req.max_env, str(c["max_envelope_size"] or 153600), "MaxEnvelopeSize")
            same(req.locale, c["locale"] or "en-US", "Locale")
            same(req.data_locale, c["data_locale"] or c["locale"] or "en-US", "DataLocale")
            for h in ("wsa:Action", "wsman:ResourceURI", "wsman:MaxEnvelopeSize"):
                same(req.must_understand(h), "true", "mustUnderstand of " + h)
            for h in ("wsman:Locale", "wsmv:DataLocale", "wsmv:SessionId"):
                same(req.must_understand(h), "false", "mustUnderstand of " + h)
            if o["options"]:
                same(req.must_understand("wsman:OptionSet"), "true", "mustUnderstand of OptionSet")
            for what, got, want in (("options", req.options, o["options"]), ("selectors", req.selectors, o["selectors"])):
                same(got or [], [(n, str(v), dict(at)) for n, v, at in want or []], what)
            if body is None:
                same(req.body, [], "body")
            else:
                require(len(req.body) == 1, "the body has %d elements", len(req.body))
                same(as_tree(req.body[0]), want_tree(o["body"]) if o["body"] is not None else ("empty", [], "", ()), "body")
            ct, ru = c["connection_timeout"] or 30, c["read_timeout"] or 30
            if o["timeout"] is None:
                same(http.timeout, (ct, ru), "HTTP timeouts")
            else:
                t = http.timeout
                require(isinstance(t, (int, float)) and o["timeout"] < t <= o["timeout"] + 60, "HTTP timeout %r for an operation timeout of %d s", t, o["timeout"])
            same(http.headers.get("Content-Type"), "application/soap+xml;charset=UTF-8", "content type")
            # the answer
            if o["relates"] == "ok":
                if err is not None:
                    raise err
                require(res is not None and res.tag == soap.q("s:Body"), "returns %r", res)
                same([as_tree(x) for x in res], [want_tree(o["reply"])], "what is returned")
            else:
                require(err is not None, "an answer that relates to %s is taken as the answer", o["relates"])
                nontrivial = True
            nontrivial = nontrivial or o["body"] is not None or bool(o["options"]) or bool(o["selectors"])
            seen[o["who"]].append(req)
    return Info(nontrivial, sorted({o["op"] for o in case["ops"]}) + ["answer " + o["relates"] for o in case["ops"]])


cfg_cases = st.tuples(st.one_of(st.integers(16, 64), st.sampled_from([32, 150, 500, 512, 1024, 8192]), st.integers(16, 8192)), st.integers(16384, 600000), st.one_of(st.none(), st.integers(16384, 4000000)), st.sampled_from(["srv", "a" * 200 + ".example.com"]))


def check_cfg(case):
    kb, first, direct, name = case
    srv = server.Server()
    srv.config_kb = kb
    with wire.wire(srv):
        w = server.new_wsman(max_envelope_size=first, server=name)
        before = w.max_payload_size
        if direct:
            w.update_max_payload_size(direct)
            size = direct
            same(len(srv.reqs), 0, "requests sent for a size given by the caller")
        else:
            w.update_max_payload_size()
            size = kb * 1024
            same([r.action for r in srv.reqs], ["Get"], "requests sent")
            same(srv.reqs[0].resource, "http://schemas.microsoft.com/wbem/wsman/1/config", "resource asked for")
        same(w.max_envelope_size, size, "maximum envelope size")
        el = w.get_server_config()
        same(srv.reqs[-1].max_env, str(size), "MaxEnvelopeSize of the next request")
        require(el.findtext("cfg:Config/cfg:MaxEnvelopeSizekb", namespaces=NAMESPACES) == str(kb), "server configuration")
        # measure a real Send request with that payload
        sel = SelectorSet()
        sel.add_option("ShellId", psid)
        send = ET.Element(soap.q("rsp:Send"))
        ET.SubElement(send, soap.q("rsp:Stream"), Name="stdin", CommandId=psid).text = ""
        srv2 = []
        with wire.wire(lambda h: (srv2.append(h), soap.ok(soap.Req(h.body), ""))[1]):
            w.send(server.CMD_URI, send, selector_set=sel)
        over = len(srv2[0].body)
        b64 = (w.max_payload_size + 2) // 3 * 4
        require(over + b64 <= size, "a Send request with %d bytes of payload takes %d bytes, the limit is %d", w.max_payload_size, over + b64, size)
        require(over + b64 + 1024 >= size, "%d bytes of payload leave %d of %d bytes unused", w.max_payload_size, size - over - b64, size)
    return Info(True, ["given" if direct else "from the server"])


psid = "00000000-0000-0000-0000-000000000000"
SUBS = [
    Sub("requests", lambda: cases, check, quick=350, thorough=6000, qshards=4, tshards=8),
    Sub("config", lambda: cfg_cases, check_cfg, quick=100, thorough=1500, tshards=2),
]
