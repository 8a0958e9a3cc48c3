"""Independent WS-Management side: parses the requests of the client strictly and writes the answers of a server."""
import re
import uuid
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from core import fail
from wire import Reply

NS = {
    "s": "http://www.w3.org/2003/05/soap-envelope", "wsa": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
    "wsman": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd", "wsmv": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd",
    "rsp": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell", "wsen": "http://schemas.xmlsoap.org/ws/2004/09/enumeration",
    "wst": "http://schemas.xmlsoap.org/ws/2004/09/transfer", "cfg": "http://schemas.microsoft.com/wbem/wsman/1/config",
    "pwsh": "http://schemas.microsoft.com/powershell", "f": "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault",
    "wse": "http://schemas.xmlsoap.org/ws/2004/08/eventing",
}
XMLNS = "{http://www.w3.org/XML/1998/namespace}"
SHELL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
ACT = {
    SHELL + "/Command": "Command", SHELL + "/Receive": "Receive", SHELL + "/Send": "Send", SHELL + "/Signal": "Signal", SHELL + "/Connect": "Connect",
    SHELL + "/Disconnect": "Disconnect", SHELL + "/Reconnect": "Reconnect", NS["wst"] + "/Create": "Create", NS["wst"] + "/Delete": "Delete",
    NS["wst"] + "/Get": "Get", NS["wst"] + "/Put": "Put", NS["wsen"] + "/Enumerate": "Enumerate", NS["wsen"] + "/Pull": "Pull",
}
URIS = {v: k for k, v in ACT.items()}
ANON = "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous"


def q(prefixed):
    p, n = prefixed.split(":")
    return "{%s}%s" % (NS[p], n)


class Req:
    """A parsed request. options/selectors: list of tuples or None; body: list of elements."""

    def __init__(self, raw, http=None):
        self.raw, self.http = raw, http
        try:
            root = ET.fromstring(raw)
        except ET.ParseError as e:
            fail("the request is not well-formed XML: %s: %r", e, raw[:300])
        if root.tag != q("s:Envelope"):
            fail("the request is a %s, not an Envelope", root.tag)
        if [c.tag for c in root] != [q("s:Header"), q("s:Body")]:
            fail("the envelope holds %r, not one Header and one Body", [c.tag for c in root])
        head, body = list(root)
        seen = {}
        for c in head:
            if c.tag in seen:
                fail("header %s is there twice", c.tag)
            seen[c.tag] = c
        self.headers = seen

        def text(name):
            e = seen.get(q(name))
            if e is None:
                fail("the request has no %s header", name)
            return e.text

        self.action_uri = text("wsa:Action")
        self.action = ACT.get(self.action_uri, self.action_uri)
        self.to = text("wsa:To")
        self.resource = text("wsman:ResourceURI")
        self.msgid = text("wsa:MessageID")
        self.session = text("wsmv:SessionId")
        self.op_timeout = text("wsman:OperationTimeout")
        self.max_env = text("wsman:MaxEnvelopeSize")
        self.locale = self._lang("wsman:Locale")
        self.data_locale = self._lang("wsmv:DataLocale")
        rt = seen.get(q("wsa:ReplyTo"))
        self.reply_to = rt.find(q("wsa:Address")).text if rt is not None and rt.find(q("wsa:Address")) is not None else None
        self.options = self._set("wsman:OptionSet", "wsman:Option")
        self.selectors = self._set("wsman:SelectorSet", "wsman:Selector")
        self.body = list(body)

    def _lang(self, name):
        e = self.headers.get(q(name))
        if e is None:
            fail("the request has no %s header", name)
        return e.get(XMLNS + "lang")

    def _set(self, name, child):
        e = self.headers.get(q(name))
        if e is None:
            return None
        out = []
        for c in e:
            if c.tag != q(child):
                fail("%s in %s", c.tag, name)
            at = dict(c.attrib)
            n = at.pop("Name", None)
            if n is None:
                fail("a %s has no name", child)
            out.append((n, c.text or "", at))
        return out

    def must_understand(self, name):
        e = self.headers.get(q(name))
        return None if e is None else e.get(q("s:mustUnderstand"))

    def selector(self, name):
        for n, v, _ in self.selectors or []:
            if n == name:
                return v
        return None

    def one(self, tag):
        if len(self.body) != 1 or self.body[0].tag != q(tag):
            fail("the body of a %s request holds %r, want one %s", self.action, [b.tag for b in self.body], tag)
        return self.body[0]

    def __repr__(self):
        return "<%s %s>" % (self.action, self.resource)


def xesc(s):
    return escape(s).replace("\r", "&#13;")


_XMLNS_ATTRS = " ".join('xmlns:%s="%s"' % kv for kv in NS.items())


def envelope(body, action, relates_to, extra_headers=""):
    rel = "<wsa:RelatesTo>%s</wsa:RelatesTo>" % xesc(relates_to) if relates_to is not None else ""
    return ('<s:Envelope xml:lang="en-US" %s><s:Header><wsa:Action>%s</wsa:Action><wsa:MessageID>uuid:%s</wsa:MessageID>'
            '<wsa:To>%s</wsa:To>%s%s</s:Header><s:Body>%s</s:Body></s:Envelope>') % (_XMLNS_ATTRS, xesc(action), str(uuid.UUID(int=7)).upper(), ANON, rel, extra_headers, body)


SOAP_TYPE = {"Content-Type": "application/soap+xml;charset=UTF-8"}


def ok(req, body, relates_to=None):
    return Reply(200, envelope(body, req.action_uri + "Response", relates_to if relates_to is not None else req.msgid).encode("utf-8"), SOAP_TYPE)


def fault_xml(relates_to=None, code=None, sub="wsman:InternalError", value="s:Receiver", reason="The fault reason", machine=None, message=None, provider=None, path=None, pfault=None,
              detail=True, wmi=None):
    """Any subset of the parts of a WSMan fault; None leaves a part out."""
    b = "<s:Fault>"
    if value is not None or sub is not None:
        b += "<s:Code>%s%s</s:Code>" % ("<s:Value>%s</s:Value>" % xesc(value) if value is not None else "",
                                        "<s:Subcode><s:Value>%s</s:Value></s:Subcode>" % xesc(sub) if sub is not None else "")
    if reason is not None:
        b += '<s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason>' % xesc(reason)
    if detail:
        at = ""
        if code is not None:
            at += " Code=%s" % quoteattr(str(code))
        if machine is not None:
            at += " Machine=%s" % quoteattr(machine)
        inner = ""
        if message is not None or provider is not None or path is not None or pfault is not None:
            pf = ""
            if provider is not None or path is not None or pfault is not None:
                pf = "<f:ProviderFault%s%s>%s</f:ProviderFault>" % (" provider=%s" % quoteattr(provider) if provider is not None else "", " path=%s" % quoteattr(path) if path is not None else "",
                                                                    xesc(pfault or ""))
            inner = "<f:Message>%s%s</f:Message>" % (xesc(message or ""), pf)
        b += "<s:Detail>%s<f:WSManFault%s>%s</f:WSManFault></s:Detail>" % (wmi or "", at, inner)
    b += "</s:Fault>"
    return envelope(b, "http://schemas.dmtf.org/wbem/wsman/1/wsman/fault", relates_to)


OP_TIMEOUT = 2150858793


def fault(req, code=2150858843, status=500, **kw):
    return Reply(status, fault_xml(req.msgid if req else None, code, **kw).encode("utf-8"), SOAP_TYPE)


def op_timeout(req):
    return fault(req, OP_TIMEOUT, sub="wsman:TimedOut", reason="The WS-Management service cannot complete the operation within the time specified in OperationTimeout.", machine="srv",
                 message="The WS-Management service cannot complete the operation within the time specified in OperationTimeout.  ")


DURATION = re.compile(r"^PT(\d+(\.\d+)?)S$")
