S, P, W, SH, EN, NG = "serializer.py", "powershell.py", "wsman.py", "shell.py", "encryption.py", "negotiate.py"
NET = '''
import base64
import refclixml as rc
import psrp, soap, wire
from server import Server, new_wsman
from pypsrp.powershell import RunspacePool, PowerShell, Fragmenter, Fragment
from pypsrp.serializer import Serializer
from pypsrp.shell import WinRS, Process
from pypsrp.wsman import WSMan, OptionSet, SelectorSet
from pypsrp.exceptions import *
'''
BUGS = [
    dict(id="c06-counter", prop="C06", needs="a pool that has sent more than 4095 messages", breaks="object ids start again after 4095 messages",
         edits=[(P, "        self.outgoing_counter += 1\n        return fragments", "        self.outgoing_counter = self.outgoing_counter % 0xFFF + 1\n        return fragments")],
         demo=NET + '''
from pypsrp.messages import EndOfPipelineInput
f = Fragmenter(32768, Serializer())
last = 0
for i in range(5000):
    (b,) = f.fragment(EndOfPipelineInput(), "11111111-1111-1111-1111-111111111111", "11111111-1111-1111-1111-111111111112")
    (g,) = psrp.split_blob(b)
    require(g.oid > last, "object id %d after %d", g.oid, last)
    last = g.oid
'''),
    dict(id="c06-fid", prop="C06", needs="a message of more than 256 fragments", breaks="fragment ids start again after 256 fragments",
         edits=[(P, '''        data += struct.pack(">Q", self.fragment_id)''', '''        data += struct.pack(">Q", self.fragment_id & 0xFF)''')],
         demo=NET + '''
from pypsrp.messages import PipelineInput
f = Fragmenter(200, Serializer())
fr = [g for b in f.fragment(PipelineInput(data="x" * 60000), "11111111-1111-1111-1111-111111111111", "11111111-1111-1111-1111-111111111112") for g in psrp.split_blob(b)]
same([g.fid for g in fr], list(range(len(fr))), "fragment ids")
'''),
    dict(id="c07-oid", prop="C07", needs="object ids beyond 32 bits from two interleaved objects", breaks="only the low 32 bits of an object id tell objects apart",
         edits=[(P, '''        object_id = struct.unpack(">Q", data[0:8])[0]''', '''        object_id = struct.unpack(">I", data[4:8])[0]''')],
         demo=NET + '''
a = psrp.pack("PIPELINE_OUTPUT", "11111111-1111-1111-1111-111111111111", None, "<S>a</S>")
fa = psrp.fragment(5, a, [20])
fb = psrp.fragment(5 + (1 << 32), a, [20])
d = Fragmenter(32768, Serializer())
got = 0
for x, y in zip(fa, fb):
    for z in (x, y):
        try:
            got += len(d.defragment(z.pack()))
        except FragmentError as e:
            fail("%s", e)
same(got, 2, "messages")
'''),
    dict(id="c07-len", prop="C07", needs="a fragment with a blob of 64 KiB or more", breaks="only the low 16 bits of the blob length are read",
         edits=[(P, '''        length = struct.unpack(">I", data[17:21])[0]''', '''        length = struct.unpack(">H", data[19:21])[0]''')],
         demo=NET + '''
f = Fragment(1, 0, b"x" * 70000, True, True).pack()
g, rest = Fragment.unpack(f)
same(len(g.data), 70000, "blob length")
'''),
    dict(id="c07-start", prop="C07", needs="a start fragment that is sent again for an object that is still incomplete", breaks="a repeated start fragment silently starts the object again",
         edits=[(P, '''            if frag.fragment_id != incoming_buffer["id"]:''', '''            if frag.fragment_id != incoming_buffer["id"] and not frag.start:''')],
         demo=NET + '''
d = Fragmenter(32768, Serializer())
d.defragment(Fragment(1, 0, b"abc", True, False).pack())
try:
    d.defragment(Fragment(1, 0, b"abc", True, False).pack())
except FragmentError:
    pass
else:
    fail("a repeated fragment is accepted")
'''),
    dict(id="c09-dup", prop="C09", needs="an option set with the same name twice", breaks="of options with the same name only the last is sent",
         edits=[(W, "        for key, value, attributes in self.values:\n", "        for key, value, attributes in {v[0]: v for v in self.values}.values():\n")],
         demo=NET + '''
o = OptionSet()
o.add_option("a", "1")
o.add_option("a", "2")
same([e.text for e in o.pack()], ["1", "2"], "options")
'''),
    dict(id="c09-relates", prop="C09", needs="a response without a RelatesTo header", breaks="a response that relates to nothing is taken as the answer",
         edits=[(W, "        if message_id != relates_to:\n", "        if relates_to and message_id != relates_to:\n")],
         demo=NET + '''
def handler(http):
    return wire.Reply(200, b'<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Header/><s:Body/></s:Envelope>')
w = new_wsman()
with wire.wire(handler):
    try:
        w.get("urn:x")
    except WinRMError:
        pass
    else:
        fail("a response that relates to nothing was accepted")
'''),
    dict(id="c10-machine", prop="C10", needs="a fault detail with a machine and no message", breaks="the machine of a fault is only read along with a message",
         edits=[(W, '''            machine = wsman_fault.attrib.get("Machine")

            message_info = wsman_fault.find("wsmanfault:Message", namespaces=NAMESPACES)
            if message_info is not None:
''', '''            message_info = wsman_fault.find("wsmanfault:Message", namespaces=NAMESPACES)
            if message_info is not None:
                machine = wsman_fault.attrib.get("Machine")
''')],
         demo=NET + '''
e = WSMan._parse_wsman_fault('<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Body><s:Fault><s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Code="5" Machine="srv"/></s:Detail></s:Fault></s:Body></s:Envelope>')
same((e.code, e.machine), (5, "srv"), "code and machine")
'''),
    dict(id="c10-nofault", prop="C10", needs="a failed response whose body is an XML document that holds no fault", breaks="the code of a fault detail is only used when it is larger than zero as a signed number",
         edits=[(W, '''            code = wsman_fault.attrib.get("Code", code)''', '''            code = wsman_fault.attrib.get("Code", "").lstrip("0") or code''')],
         demo=NET + '''
e = WSMan._parse_wsman_fault('<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Body><s:Fault><s:Detail><f:WSManFault xmlns:f="http://schemas.microsoft.com/wbem/wsman/1/wsmanfault" Code="0" Machine="srv"/></s:Detail></s:Fault></s:Body></s:Envelope>')
same((e.code, e.machine), (0, "srv"), "code and machine")
'''),
    dict(id="c11-bump", prop="C11", needs="a configured envelope size between 150 and 500 KiB and a server of protocol 2.2 or later", breaks="any configured envelope size from 150 KiB is raised to 500 KiB after negotiation",
         edits=[(P, '''if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:''',
                 '''if version_equal_or_newer(msg.protocol_version or "", "2.2") and 153600 <= self.connection.max_envelope_size < 512000:''')],
         demo=NET + '''
srv = Server()
w = new_wsman(max_envelope_size=200000)
with wire.wire(srv):
    with RunspacePool(w) as p:
        ps = PowerShell(p)
        ps.add_script("x" * 400000)
        ps.invoke()
worst = max(len(r.raw) for r in srv.reqs)
require(worst <= 200000, "a request of %d bytes", worst)
'''),
    dict(id="c12-exact", prop="C12", needs="CredSSP and an envelope of exactly 16 KiB", breaks="a message of exactly one block is declared as multi-part",
         edits=[(EN, "if self.protocol == self.CREDSSP and len(message) > self.SIXTEEN_KB:", "if self.protocol == self.CREDSSP and len(message) >= self.SIXTEEN_KB:")],
         demo='''
from pypsrp.encryption import WinRMEncryption
import sec
s = sec.FakeContext({}, [])
for n, want in ((16383, "multipart/encrypted"), (16384, "multipart/encrypted"), (16385, "multipart/x-multi-encrypted")):
    ct, _ = WinRMEncryption(s, WinRMEncryption.CREDSSP).wrap_message(b"x" * n)
    same(ct, want, "content type for %d bytes" % n)
'''),
    dict(id="c12-tail", prop="C12", needs="a sealed part whose last bytes are a line feed", breaks="line ends at the end of the sealed data are removed",
         edits=[(EN, '''            wrapped_data = payload.replace(b"\\tContent-Type: application/octet-stream\\r\\n", b"")''', '''            wrapped_data = payload.replace(b"\\tContent-Type: application/octet-stream\\r\\n", b"").rstrip(b"\\r\\n")''')],
         demo='''
from pypsrp.encryption import WinRMEncryption
import struct
class C:
    def unwrap_winrm(self, header, data):
        return data
body = (b"--Encrypted Boundary\\r\\n\\tContent-Type: application/HTTP-SPNEGO-session-encrypted\\r\\n\\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=6\\r\\n"
        b"--Encrypted Boundary\\r\\n\\tContent-Type: application/octet-stream\\r\\n" + struct.pack("<i", 1) + b"h" + b"abcd\\r\\n" + b"--Encrypted Boundary--\\r\\n")
same(WinRMEncryption(C(), WinRMEncryption.SPNEGO).unwrap_message(body, "Encrypted Boundary"), b"abcd\\r\\n", "content")
'''),
    dict(id="c13-send", prop="C13", needs="a Send whose response times out", breaks="a Send is silently sent again after a read timeout",
         edits=[(W, "        res = self.invoke(WSManAction.SEND, resource_uri, resource, option_set, selector_set, timeout)\n", "        res = self.invoke(\n            WSManAction.SEND, resource_uri, resource, option_set, selector_set, timeout, retries_on_read_timeout=1\n        )\n")],
         demo=NET + '''
import requests
class T(Server):
    n = 0
    def intercept(self, req):
        if req.action == "Send":
            self.n += 1
            raise requests.ReadTimeout("slow")
srv = T()
w = new_wsman(reconnection_backoff=0)
with wire.wire(srv):
    s = WinRS(w)
    s.open()
    try:
        p = Process(s, "cat")
        p.begin_invoke()
        p.send(b"x")
    except Exception:
        pass
same(srv.n, 1, "times the input was sent")
'''),
    dict(id="c13-backoff", prop="C13", needs="a receive that times out six times", breaks="the retry budget of a Receive is used up one attempt early when the connect timed out",
         edits=[(W, "                if attempt == retries_on_read_timeout:\n                    raise\n\n                attempt += 1\n                time.sleep(self.reconnection_backoff * (2**attempt - 1))", "                if attempt >= retries_on_read_timeout - isinstance(e, requests.ConnectTimeout):\n                    raise\n\n                attempt += 1\n                time.sleep(self.reconnection_backoff * (2**attempt - 1))")],
         demo=NET + '''
import requests
class T(Server):
    n = 0
    def intercept(self, req):
        if req.action == "Receive":
            self.n += 1
            if self.n <= 5:
                raise requests.ConnectTimeout("slow")
    def on_process(self, c):
        c.done, c.rc = True, 0
srv = T()
w = new_wsman(reconnection_backoff=0)
with wire.wire(srv):
    with WinRS(w) as s:
        Process(s, "cat").invoke()
'''),
    dict(id="c15-final", prop="C15", needs="a server that sends one more token when the client's context is complete and has a token to send", breaks="the server's last token is not given to the context",
         edits=[(NG, '''            if in_token in [None, b""]:''', '''            if in_token in [None, b""] or context.complete:''')],
         demo='''
import base64
import requests, spnego
import pypsrp.negotiate as n
class Ctx:
    steps = []
    @property
    def complete(self):
        return len(self.steps) >= 2
    def step(self, tok=None):
        self.steps.append(tok)
        return b"out%d" % len(self.steps) if len(self.steps) < 3 else None
spnego.client = lambda *a, **k: Ctx()
class Conn:
    sent = 0
    def send(self, request, **kw):
        Conn.sent += 1
        return resp(200 if Conn.sent == 2 else 401, b"in%d" % Conn.sent, request)
class Raw:
    def release_conn(self):
        pass
def resp(code, tok, request):
    r = requests.Response()
    r.status_code = code
    r._content = b""
    r.url = "http://h:5985/wsman"
    r.headers["WWW-Authenticate"] = "Negotiate" + (" " + base64.b64encode(tok).decode() if tok else "")
    r.connection = Conn()
    r.request = request
    r.raw = Raw()
    return r
req = requests.Request("POST", "http://h:5985/wsman").prepare()
a = n.HTTPNegotiateAuth("u", "p", send_cbt=False)
a.response_hook(resp(401, None, req))
same(Ctx.steps, [None, b"in1", b"in2"], "tokens")
'''),
    dict(id="c16-sha224", prop="C16", needs="a certificate signed with SHA-224", breaks="a SHA-224 signature hash is replaced by SHA-256",
         edits=[(NG, '''hash_algorithm.name in ["md5", "sha1"]''', '''hash_algorithm.digest_size < 32''')],
         demo='''
import datetime, hashlib
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import rsa
from pypsrp.negotiate import HTTPNegotiateAuth
k = rsa.generate_private_key(65537, 2048)
n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, "a")])
c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(1).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(k, hashes.SHA224())
d = c.public_bytes(serialization.Encoding.DER)
same(HTTPNegotiateAuth._get_certificate_hash(d), hashlib.sha224(d).digest(), "hash")
'''),
    dict(id="c17-rc", prop="C17", needs="a negative exit code", breaks="exit codes are reported as unsigned 32 bit numbers",
         edits=[(SH, '''            rc = int(rc_et.text or "0")''', '''            rc = int(rc_et.text or "0") & 0xFFFFFFFF''')],
         demo=NET + '''
class T(Server):
    def on_process(self, c):
        c.done, c.rc = True, -1073741510
with wire.wire(T()):
    with WinRS(new_wsman()) as s:
        p = Process(s, "x")
        p.invoke()
same(p.rc, -1073741510, "exit code")
'''),
    dict(id="c17-end", prop="C17", needs="a server that sends the last output in the stream element with the end mark", breaks="data in a stream element that ends the stream is ignored",
         edits=[(SH, "            if s.text is None:\n", '''            if s.text is None or (s.attrib.get("End", "").lower() == "true" and rc is not None):\n''')],
         demo=NET + '''
class T(Server):
    def on_process(self, c):
        c.done, c.rc = True, 0
    def receive_body(self, c, items):
        return ('<rsp:ReceiveResponse><rsp:Stream Name="stdout" CommandId="%s" End="true">YWJj</rsp:Stream><rsp:CommandState CommandId="%s" State="%s/CommandState/Done">'
                '<rsp:ExitCode>0</rsp:ExitCode></rsp:CommandState></rsp:ReceiveResponse>') % (c.id, c.id, soap.SHELL)
with wire.wire(T()):
    with WinRS(new_wsman()) as s:
        p = Process(s, "x")
        p.invoke()
same(p.stdout, b"abc", "output")
'''),
    dict(id="c18-env", prop="C18", needs="an environment variable with an empty value", breaks="variables with an empty value are not sent",
         edits=[(SH, '''                ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)''', '''                if str(value):
                    ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with WinRS(new_wsman(), environment={"A": "", "B": "x"}):
        pass
el = list(srv.shells.values())[0].element
same([v.get("Name") for v in el.iter(soap.q("rsp:Variable"))], ["A", "B"], "variables")
'''),
    dict(id="c18-close", prop="C18", needs="a Delete that fails and a second close", breaks="a shell counts as closed although its deletion failed",
         edits=[(SH, "        self.wsman.delete(self.resource_uri, selector_set=self._selector_set)\n        self.id = None\n        self.opened = False\n", "        self.opened = False\n        self.wsman.delete(self.resource_uri, selector_set=self._selector_set)\n        self.id = None\n")],
         demo=NET + '''
class T(Server):
    n = 0
    def intercept(self, req):
        if req.action == "Delete":
            self.n += 1
            if self.n == 1:
                return soap.fault(req)
srv = T()
with wire.wire(srv):
    s = WinRS(new_wsman())
    s.open()
    try:
        s.close()
    except WSManFaultError:
        pass
    s.close()
same([x.deleted for x in srv.shells.values()], [1], "deletions")
'''),
]
