W, SH, CL, S, P, N, E, CO = "wsman.py", "shell.py", "client.py", "serializer.py", "powershell.py", "negotiate.py", "encryption.py", "complex_objects.py"
NET = '''
import base64, os, tempfile, shutil
import requests
import refclixml as rc
import psrp, sec, soap, wire
from server import Server, new_wsman
from pypsrp.client import Client
from pypsrp.powershell import RunspacePool, PowerShell, Fragmenter, Fragment
from pypsrp.serializer import Serializer
from pypsrp.shell import WinRS, Process, SignalCode
from pypsrp.wsman import WSMan, OptionSet, SelectorSet
from pypsrp.complex_objects import *
from pypsrp.messages import *
from pypsrp.exceptions import *
def out(srv, *msgs):
    def run(sh, c, m):
        srv.finish(sh, c, *msgs)
    srv.run_pipeline = run
    return srv
'''
BUGS = [
    dict(id="c14-local", prop="C14", needs="plain HTTP to the local host", breaks="content for localhost is not encrypted by default over plain HTTP",
         edits=[(W, '            self.wrap_required = not encryption == "never"', '            self.wrap_required = not encryption == "never" and server not in ("localhost", "127.0.0.1", "::1")')],
         demo=NET + '''
for host in ("srv", "localhost", "127.0.0.1", "::1"):
    try:
        WSMan(host, ssl=False, auth="basic", username="u", password="p")
    except ValueError:
        continue
    fail("basic authentication over plain HTTP is accepted for %s", host)
'''),
    dict(id="c14-cabundle", prop="C14", needs="a proxy given as an option and a certificate bundle named by the environment", breaks="the certificate bundle of the environment is ignored when a proxy is given",
         edits=[(W, '        session.trust_env = True\n', '        session.trust_env = self.proxy is None\n')],
         demo=NET + '''
os.environ["REQUESTS_CA_BUNDLE"] = "/etc/bundle.pem"
seen = []
def handler(http):
    seen.append(http.verify)
    return wire.Reply(200, b"x")
with wire.wire(handler):
    for kw in ({}, {"proxy": "http://proxy:3128"}):
        WSMan("srv", username="u", password="p", auth="basic", **kw).transport.send(b"x")
same(seen, ["/etc/bundle.pem"] * 2, "verification")
'''),
    dict(id="c14-credssp", prop="C14", needs="CredSSP over HTTPS with encryption always", breaks="asking to always encrypt is ignored for CredSSP over HTTPS",
         edits=[(W, '            self.wrap_required = encryption == "always"\n            if', '            self.wrap_required = encryption == "always" and auth != "credssp"\n            if')],
         demo=NET + '''
def handler(http):
    require(not http.body, "content is sent in the clear: %r", http.body)
    raise RuntimeError("authenticating")
with wire.wire(handler):
    try:
        WSMan("srv", username="u", password="p", auth="credssp", encryption="always").transport.send(b"content")
    except RuntimeError:
        pass
'''),
    dict(id="c24-cmdid", prop="C24", needs="a server that gives the pipeline's command another id than the one asked for", breaks="input is sent to the id of the pipeline instead of the command's",
         edits=[(P, 'self.runspace_pool.shell.send("stdin", fragment, command_id=self._command_id)\n\n    def end_invoke', 'self.runspace_pool.shell.send("stdin", fragment, command_id=self.id)\n\n    def end_invoke')],
         demo=NET + '''
class T(Server):
    def command_id(self, sh, wanted):
        return self.new_id()
    def run_pipeline(self, sh, c, m):
        pass
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c)
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke(input=["x"])
'''),
    dict(id="c27-trunc", prop="C27", needs="a server that reports a hash that is cut off", breaks="a truncated hash is taken as a match",
         edits=[(CL, '                if actual_hash != expected_hash:\n                    raise WinRMError(\n                        "Failed to fetch', '                if not actual_hash.startswith(expected_hash):\n                    raise WinRMError(\n                        "Failed to fetch')],
         demo=NET + '''
import hashlib
h = hashlib.sha1(b"abc").hexdigest()
d = tempfile.mkdtemp()
try:
    for x in (h[:20], ""):
        with wire.wire(out(Server(), ("PIPELINE_OUTPUT", "<S>%s</S>" % base64.b64encode(b"abc").decode()), ("PIPELINE_OUTPUT", "<S>%s</S>" % x))):
            try:
                Client("srv", username="u", password="p", auth="basic", ssl=True).fetch("x", d + "/f")
            except WinRMError:
                pass
            else:
                fail("the hash %r is accepted", x)
        require(not os.path.exists(d + "/f"), "the file is written")
finally:
    shutil.rmtree(d)
'''),
    dict(id="c27-errors", prop="C27", needs="a script that writes an error record after the file and its hash", breaks="an error is only reported when there is no output",
         edits=[(CL, '            _handle_powershell_error(powershell, "Failed to fetch file %s" % src)', '            if len(powershell.output) < 2:\n                _handle_powershell_error(powershell, "Failed to fetch file %s" % src)')],
         demo=NET + '''
import hashlib
h = hashlib.sha1(b"abc").hexdigest()
d = tempfile.mkdtemp()
class T(Server):
    def run_pipeline(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", "<S>%s</S>" % base64.b64encode(b"abc").decode()), ("PIPELINE_OUTPUT", "<S>%s</S>" % h), state=5, err=psrp.error_record("x"))
try:
    with wire.wire(T()):
        try:
            Client("srv", username="u", password="p", auth="basic", ssl=True).fetch("x", d + "/f")
        except WinRMError:
            pass
        else:
            fail("a failed script counts as success")
finally:
    shutil.rmtree(d)
'''),
    dict(id="c31-keynull", prop="C31", needs="a key event without a control key state", breaks="a key event's control key state that is not set is left out instead of null",
         edits=[(CO, 'ObjectMeta("I32", name="controlKeyState"))', 'ObjectMeta("I32", name="controlKeyState", optional=True))')],
         demo=NET + '''
e = Serializer().serialize(KeyInfo(code=1, character="a", key_down=True))
same([x.tag for x in e.iter() if x.get("N") == "controlKeyState"], ["Nil"], "control key state")
'''),
    dict(id="c31-cell", prop="C31", needs="a buffer cell without a background color", breaks="a background color that is not set becomes the foreground color",
         edits=[(CO, '        self.background_color = kwargs.get("background_color")\n        self.cell_type', '        self.background_color = kwargs.get("background_color", self.foreground_color)\n        self.cell_type')],
         demo=NET + '''
c = BufferCell(character="a", foreground_color=Color(value=Color.RED), cell_type=0)
e = Serializer().serialize(c)
same([x.tag for x in e.iter() if x.get("N") == "backgroundColor"], ["Nil"], "background color")
'''),
    dict(id="c15-delegate", prop="C15", needs="delegation asked for and negotiate authentication that is not limited to Kerberos", breaks="credentials are only delegated when the protocol is Kerberos",
         edits=[(N, '        if self.delegate:\n', '        if self.delegate and auth_provider == "kerberos":\n')],
         demo=NET + '''
import spnego
def handler(http):
    if http.headers.get("Authorization"):
        return wire.Reply(200, b"x")
    return wire.Reply(401, b"", {"WWW-Authenticate": "Negotiate"})
with wire.wire(handler), sec.contexts(lambda kw: sec.FakeContext(kw, [b"a"])) as made:
    WSMan("srv", username="u", password="p", negotiate_delegate=True, negotiate_send_cbt=False).transport.send(b"x")
require(made[0].kw["context_req"] & spnego.ContextReq.delegate, "delegation is not asked for")
'''),
    dict(id="c15-legs", prop="C15", needs="a configured read timeout and a handshake", breaks="the requests of a handshake have no timeout",
         edits=[(N, '            response = response.connection.send(request, **kwargs)\n', '            response = response.connection.send(request, **{k: v for k, v in kwargs.items() if k != "timeout"})\n')],
         demo=NET + '''
seen = []
def handler(http):
    seen.append(http.timeout)
    if http.headers.get("Authorization"):
        return wire.Reply(200, b"x")
    return wire.Reply(401, b"", {"WWW-Authenticate": "Negotiate"})
with wire.wire(handler), sec.contexts(lambda kw: sec.FakeContext(kw, [b"a"])):
    WSMan("srv", username="u", password="p", negotiate_send_cbt=False, read_timeout=7, connection_timeout=6).transport.send(b"x")
same([tuple(t) for t in seen if t], [(6, 7)] * 2, "timeouts")
'''),
    dict(id="c17-empty", prop="C17", needs="an empty stream element before one with data in the same answer", breaks="output that follows an empty stream element is lost",
         edits=[(SH, '            if s.text is None:\n                continue', '            if s.text is None:\n                break')],
         demo=NET + '''
class T(Server):
    def on_process(self, c):
        c.out += [("stderr", b""), ("stdout", b"x")]
        c.rc, c.done = 0, True
with wire.wire(T()):
    with WinRS(new_wsman()) as sh:
        p = Process(sh, "cmd")
        p.invoke()
        same(p.stdout, b"x", "stdout")
'''),
    dict(id="c18-uri", prop="C18", needs="a server that reports a shell's resource URI in another form", breaks="the resource URI the server gives a shell is not used",
         edits=[(SH, '            "rsp:ResourceUri": "resource_uri",\n', '')],
         demo=NET + '''
class T(Server):
    def on_create(self, sh):
        sh.uri += "/v2"
srv = T()
with wire.wire(srv):
    with WinRS(new_wsman()):
        pass
require(srv.reqs[-1].resource.endswith("/v2"), "the shell is closed as %r", srv.reqs[-1].resource)
'''),
    dict(id="c12-header", prop="C12", needs="a security header of more than 255 bytes", breaks="only the low byte of the header's length is read",
         edits=[(E, 'struct.unpack("<i", wrapped_data[:4])[0]', 'wrapped_data[0]')],
         demo=NET + '''
from pypsrp.encryption import WinRMEncryption
s = sec.Sealer(b"s2ck", headers=(300,))
h, d, _ = s.seal(b"hello")
ct, body = sec.build_sealed([(5, h, d)], sec.SPNEGO)
e = WinRMEncryption(sec.FakeContext({}, []), sec.SPNEGO)
same(e.unwrap_message(body, "Encrypted Boundary"), b"hello", "content")
'''),
    dict(id="c13-cert", prop="C13", needs="certificate authentication and a Receive that times out as often as it may", breaks="without an authentication handler a Receive is retried once less",
         edits=[(W, '        attempt = 0\n        while True:', '        attempt = 0 if self.session.auth else 1\n        while True:')],
         demo=NET + '''
for kw in (dict(auth="basic", username="u", password="p"), dict(auth="certificate", certificate_pem="/a", certificate_key_pem="/b")):
    n = [0]
    def handler(http):
        n[0] += 1
        return requests.ReadTimeout("x")
    with wire.wire(handler):
        try:
            WSMan("srv", **kw).transport.send(b"x", retries_on_read_timeout=5)
        except requests.ReadTimeout:
            pass
    same(n[0], 6, "times the request is sent")
'''),
    dict(id="c09-cap", prop="C09", needs="an operation timeout of more than an hour", breaks="operation timeouts are limited to one hour",
         edits=[(W, '"PT%sS" % str(timeout or self.operation_timeout)', '"PT%sS" % str(min(timeout or self.operation_timeout, 3600))')],
         demo=NET + '''
seen = []
def handler(http):
    r = soap.Req(http.body, http)
    seen.append(r.op_timeout)
    return soap.ok(r, "")
with wire.wire(handler):
    new_wsman().get("urn:x", timeout=7200)
same(seen, ["PT7200S"], "operation timeout")
'''),
]
