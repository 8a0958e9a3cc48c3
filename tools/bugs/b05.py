W, SH, CL, S, P, N, E, CO, MS, PM = "wsman.py", "shell.py", "client.py", "serializer.py", "powershell.py", "negotiate.py", "encryption.py", "complex_objects.py", "messages.py", "_pool_manager.py"
NET = '''
import base64, os, tempfile, shutil, uuid
import requests
import refclixml as rc
import psrp, sec, soap, wire
from server import Server, new_wsman
from pypsrp.client import Client
from pypsrp.powershell import RunspacePool, PowerShell, Fragmenter, Fragment
from pypsrp.serializer import Serializer
from pypsrp.shell import WinRS, Process, SignalCode
from pypsrp.wsman import WSMan, OptionSet, SelectorSet
from pypsrp.complex_objects import *
from pypsrp.messages import *
from pypsrp.exceptions import *
def out(srv, *msgs):
    def run(sh, c, m):
        srv.finish(sh, c, *msgs)
    srv.run_pipeline = run
    return srv
def created(srv):
    return [m.node() for _, _, m in srv.msgs if m.name == "CREATE_PIPELINE"]
'''
BUGS = [
    dict(id="c05-again", prop="C05", needs="a key requested while the answer to an earlier request is not there yet", breaks="a second request makes a new client key, the answer to the first one cannot be opened",
         edits=[(P, "        if self._key_exchanged or self._exchange_key is not None:\n", "        if self._key_exchanged:\n")],
         demo=NET + '''
sent = []
class T(Server):
    def on_PUBLIC_KEY(self, sh, c, m):
        sent.append(m)
srv = T()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        calls = []
        real = p._receive
        def receive(*a, **k):
            calls.append(1)
            if len(calls) > 1:
                raise RuntimeError("waiting")
            p.exchange_keys()
        p._receive = receive
        try:
            p.exchange_keys()
        except RuntimeError:
            pass
        p._receive = real
same(len(sent), 1, "keys sent")
'''),
    dict(id="c29-nostate", prop="C29", needs="a server that does not tell the state of the shell", breaks="a shell whose state is not told counts as disconnected and closes the pool",
         edits=[(P, 'is_closed = state.get("State", "") == "Disconnected"', 'is_closed = state.get("State", "Disconnected") == "Disconnected"')],
         demo=NET + '''
class T(Server):
    def do_Get(self, req):
        return soap.ok(req, "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId></rsp:Shell>" % list(self.shells.values())[0].id)
srv = T()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        same(p.is_alive(), True, "alive")
'''),
    dict(id="c23-order", prop="C23", needs="parameters that are not in alphabetical order", breaks="the parameters of a command are sorted by name",
         edits=[(P, "        for parameter_name, value in parameters.items():\n", "        for parameter_name, value in sorted(parameters.items()):\n")],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_cmdlet("a").add_parameters({"z": 1, "a": 2})
        ps.invoke()
args = created(srv)[0].prop("PowerShell").prop("Cmds").items[0].prop("Args").items
same([a.prop("N").value for a in args], ["z", "a"], "parameters")
'''),
    dict(id="c32-front", prop="C32", needs="two user events", breaks="later events are listed before earlier ones",
         edits=[(P, "        self.user_events.append(user_event)", "        self.user_events.insert(0, user_event)")],
         demo=NET + '''
def event(n):
    return ("USER_EVENT", psrp.obj([("PSEventArgs.EventIdentifier", ("I32", n)), ("PSEventArgs.SourceIdentifier", ("S", "s")), ("PSEventArgs.TimeGenerated", ("DT", "2020-01-02T03:04:05Z")),
        ("PSEventArgs.Sender", ("Nil",)), ("PSEventArgs.SourceArgs", ("Nil",)), ("PSEventArgs.MessageData", ("Nil",)), ("PSEventArgs.ComputerName", ("S", "c")), ("PSEventArgs.RunspaceId", ("G", "11111111-2222-3333-4444-555555555555"))]))
class T(Server):
    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.push(sh, None, event(1), event(2), ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 1)))
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        p.get_available_runspaces()
        same([e.event_id for e in p.user_events], [1, 2], "events")
'''),
    dict(id="c26-warnings", prop="C26", needs="a copy that gives two warnings", breaks="only the first warning of the remote script is shown",
         edits=[(CL, "for warning in powershell.streams.warning:", "for warning in powershell.streams.warning[:1]:")],
         demo=NET + '''
import warnings
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("WARNING_RECORD", psrp.informational("Warning", "one")), ("WARNING_RECORD", psrp.informational("Warning", "two")), ("PIPELINE_OUTPUT", ("S", "C:\\\\f")))
d = tempfile.mkdtemp()
try:
    open(d + "/f", "w").close()
    with wire.wire(T()), warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        Client("srv", username="u", password="p", auth="basic", ssl=True).copy(d + "/f", "C:\\\\f")
    same([str(w.message) for w in got if w.category is UserWarning], ["one", "two"], "warnings")
finally:
    shutil.rmtree(d)
'''),
    dict(id="c26-errors", prop="C26", needs="a remote script that reports several errors", breaks="only the last error of a failed transfer is reported",
         edits=[(CL, 'error = "\\n".join([str(err) for err in errors])', 'error = str(errors[-1]) if errors else ""')],
         demo=NET + '''
def err(t):
    return psrp.obj([("FullyQualifiedErrorId", ("S", "x")), ("ErrorCategory_Category", ("I32", 14)), ("SerializeExtendedInfo", ("B", False))], types=["System.Management.Automation.ErrorRecord", "System.Object"], tostring=t)
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("ERROR_RECORD", err("disk full")), state=5, err=err("aborted"))
d = tempfile.mkdtemp()
try:
    open(d + "/f", "w").close()
    with wire.wire(T()):
        try:
            Client("srv", username="u", password="p", auth="basic", ssl=True).copy(d + "/f", "C:\\\\f")
        except WinRMError as e:
            require("disk full" in str(e) and "aborted" in str(e), "error %s", e)
        else:
            fail("no error")
finally:
    shutil.rmtree(d)
'''),
    dict(id="c28-progress", prop="C28", needs="CLIXML output with strings of other streams than the error stream", breaks="strings of all streams are taken for errors",
         edits=[(CL, """element.findall("{%s}S[@S='Error']" % namespace)""", """element.findall("{%s}S" % namespace)""")],
         demo=NET + '''
same(Client.sanitise_clixml('#< CLIXML\\r\\n<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"><S S="Warning">w</S><S S="Error">e</S><S S="verbose">v</S></Objs>'), "e", "text")
'''),
    dict(id="c28-rc", prop="C28", needs="a command that was stopped before it had an exit code", breaks="a command without an exit code is reported as successful",
         edits=[(CL, "rc = process.rc if process.rc is not None else -1", "rc = process.rc or 0")],
         demo=NET + '''
class T(Server):
    def on_process(self, c):
        c.done, c.rc = True, None
with wire.wire(T()):
    same(Client("srv", username="u", password="p", auth="basic", ssl=True).execute_cmd("x")[2], -1, "exit code")
'''),
    dict(id="c08-pid", prop="C08", needs="the id of a pipeline in a message that is not about the creation of one", breaks="messages other than the known pipeline messages lose the id of the pipeline",
         edits=[(MS, "        data += self.pid.bytes_le\n", "        data += self.pid.bytes_le if self.message_type & 0x40000 or self.message_type == MessageType.CREATE_PIPELINE else b\"\\0\" * 16\n")],
         demo=NET + '''
s = Serializer()
i = "11111111-2222-3333-4444-555555555555"
d = Message(Destination.SERVER, i, i, GetCommandMetadata(["*"]), s).pack()
same(uuid.UUID(bytes_le=d[24:40]), uuid.UUID(i), "pipeline id")
'''),
    dict(id="c04-collection", prop="C04", needs="a read-only collection of a generic type", breaks="the type names of elements of generic collections lose their first letter",
         edits=[(S, "                    list_info = obj_type[53:-1]", "                    list_info = obj_type[54:-1]")],
         demo=NET + '''
x = '<Obj RefId="0"><TN RefId="0"><T>System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]</T><T>System.Object</T></TN><LST><I32>1</I32></LST></Obj>'
same(Serializer().deserialize(x), [1], "value")
'''),
    dict(id="c25-cmdid", prop="C25", needs="a server that gives the pipeline's command another id than the one asked for", breaks="the answer to a host call names the command id instead of the pipeline",
         edits=[(P, "            pid = pipeline.id if pipeline is not None else None\n", "            pid = pipeline._command_id if pipeline is not None else None\n")],
         demo=NET + '''
from pypsrp.host import PSHost, PSHostUserInterface
class UI(PSHostUserInterface):
    def ReadLine(self, runspace, pipeline):
        return "x"
class T(Server):
    def command_id(self, sh, wanted):
        return self.new_id()
srv = out(T(), ("PIPELINE_HOST_CALL", psrp.host_call(5, 11, "ReadLine", [])))
with wire.wire(srv):
    with RunspacePool(new_wsman(), host=PSHost(None, None, False, "h", None, UI(), "1.0")) as p:
        a = PowerShell(p)
        a.add_script("a")
        a.invoke()
same([m.pid.upper() for _, _, m in srv.msgs if "RESPONSE" in m.name], [a.id], "pipelines")
'''),
    dict(id="c16-once", prop="C16", needs="one authentication object used with two servers", breaks="the channel binding of the first certificate is used for every server",
         edits=[(N, "                    cert_hash = HTTPNegotiateAuth._get_certificate_hash(cert)\n", "                    cert_hash = HTTPNegotiateAuth._known = getattr(HTTPNegotiateAuth, \"_known\", None) or HTTPNegotiateAuth._get_certificate_hash(cert)\n")],
         demo='''
import datetime, hashlib, io
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import rsa
from pypsrp.negotiate import HTTPNegotiateAuth
from urllib3.response import HTTPResponse
class Box:
    pass
def der(name):
    k = rsa.generate_private_key(65537, 2048)
    n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, name)])
    c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(1).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(k, hashes.SHA256())
    return c.public_bytes(serialization.Encoding.DER)
for name in "ab":
    d = der(name)
    r = Box()
    r.raw = HTTPResponse(io.BytesIO(b""))
    fp = Box(); fp.fp = Box(); fp.fp.raw = Box(); fp.fp.raw._sock = Box()
    fp.fp.raw._sock.getpeercert = lambda binary, d=d: d
    r.raw._fp = fp
    same(HTTPNegotiateAuth._get_cbt_data(r), b"tls-server-end-point:" + hashlib.sha256(d).digest(), "binding of " + name)
'''),
    dict(id="c30-running", prop="C30", needs="a pool on the server with pipelines of more than one session, listed twice", breaks="only the first pipeline of a found pool is listed",
         edits=[(P, '            for command in commands:\n                command_id', '            for command in commands[:1] if len(shells) > 1 else commands:\n                command_id')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    w = new_wsman()
    pools = [RunspacePool(w) for _ in range(2)]
    srv.run_pipeline = lambda sh, c, m: None
    for p in pools:
        p.open()
        for _ in range(2):
            ps = PowerShell(p)
            ps.add_script("a")
            ps.begin_invoke()
        p.disconnect()
    same([len(p.create_disconnected_power_shells()) for p in RunspacePool.get_runspace_pools(new_wsman())], [2, 2], "pipelines")
'''),
]
