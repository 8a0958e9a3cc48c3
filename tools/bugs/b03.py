S, P, W, SH, EN, NG, M, C, H, CL, PM, U = ("serializer.py", "powershell.py", "wsman.py", "shell.py", "encryption.py", "negotiate.py", "messages.py", "complex_objects.py", "host.py", "client.py", "_pool_manager.py", "_utils.py")
NET = '''
import base64
import refclixml as rc
import psrp, soap, wire
from server import Server, new_wsman
from pypsrp.powershell import RunspacePool, PowerShell, Fragmenter, Fragment
from pypsrp.serializer import Serializer
from pypsrp.shell import WinRS, Process
from pypsrp.wsman import WSMan, OptionSet, SelectorSet
from pypsrp.complex_objects import *
from pypsrp.messages import *
from pypsrp.exceptions import *
R, PID = "11111111-1111-1111-1111-111111111111", "11111111-1111-1111-1111-111111111112"
def out(srv, *msgs):
    def run(sh, c, m):
        srv.finish(sh, c, *msgs)
    srv.run_pipeline = run
    return srv
'''
BUGS = [
    dict(id="c05-nul", prop="C05", needs="a secure string that ends in NUL characters", breaks="NUL characters at the end of a secure string are lost on decryption",
         edits=[(S, '''to_unicode(unpadded_bytes, "utf-16-le")''', '''to_unicode(unpadded_bytes, "utf-16-le").rstrip("\\0")''')],
         demo=NET + '''
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
s = Serializer()
s.cipher = Cipher(algorithms.AES(b"k" * 32), modes.CBC(b"\\0" * 16))
for v in ("abc", "a\\0b", "abc\\0"):
    x = s.serialize(v, ObjectMeta("SS"))
    same(s.deserialize(x, ObjectMeta("SS")), v, "secure string")
'''),
    dict(id="c05-done", prop="C05", needs="a server that asks for the key a second time after the exchange is complete", breaks="a later request for the key replaces a key the pool already exchanged",
         edits=[(P, '''            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),''', '''            MessageType.PUBLIC_KEY_REQUEST: lambda m: setattr(self, "_key_exchanged", False) or self.exchange_keys(),''')],
         demo=NET + '''
from cryptography.hazmat.primitives.asymmetric import rsa, padding
class T(Server):
    n = 0
    def on_PUBLIC_KEY(self, sh, c, m):
        self.n += 1
        b = base64.b64decode(m.node().prop("PublicKey").value)
        e, n = int.from_bytes(b[16:20], "little"), int.from_bytes(b[20:], "little")
        x = rsa.RSAPublicNumbers(e, n).public_key().encrypt(bytes([self.n] * 32), padding.PKCS1v15())
        self.push(sh, None, ("ENCRYPTED_SESSION_KEY", psrp.encrypted_session_key(base64.b64encode(b"\\1\\2\\0\\0\\x10\\x66\\0\\0\\0\\xa4\\0\\0" + x[::-1]).decode())))
    def run_pipeline(self, sh, c, m):
        self.push(sh, c, ("PUBLIC_KEY_REQUEST", "<S></S>"))
        self.finish(sh, c)
srv = T()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        p.exchange_keys()
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
same(srv.n, 1, "public keys sent")
'''),
    dict(id="c08-connect", prop="C08", needs="a ConnectRunspacePool message with only one of the two limits", breaks="a limit is lost when the other one is not set",
         edits=[(M, '''            self.data.min_runspaces is None and self.data.max_runspaces is None''', '''            self.data.min_runspaces is None or self.data.max_runspaces is None''')],
         demo=NET + '''
m = Message(2, R, None, ConnectRunspacePool(max_runspaces=5), Serializer()).pack()
require(b"5" in m[40:], "the limit is not sent: %r", m[40:])
'''),
    dict(id="c19-negclose", prop="C19", needs="a pool whose negotiation fails after the shell was created", breaks="a pool that is still negotiating is not deleted on close",
         edits=[(P, "        if self.state in [RunspacePoolState.CLOSED, RunspacePoolState.CLOSING, RunspacePoolState.BROKEN]:", "        if self.state in [\n            RunspacePoolState.CLOSED,\n            RunspacePoolState.CLOSING,\n            RunspacePoolState.BROKEN,\n            RunspacePoolState.NEGOTIATION_SENT,\n        ]:")],
         demo=NET + '''
class T(Server):
    def intercept(self, req):
        if req.action == "Receive":
            return soap.fault(req, 5)
srv = T()
with wire.wire(srv):
    try:
        with RunspacePool(new_wsman()):
            pass
    except WSManFaultError:
        pass
same([s.deleted for s in srv.shells.values()], [1], "deletions")
'''),
    dict(id="c19-disc", prop="C19", needs="a disconnect request that the server refuses", breaks="a pool counts as disconnected although the server refused",
         edits=[(P, '''        self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
        self.state = RunspacePoolState.DISCONNECTED
''', '''        self.state = RunspacePoolState.DISCONNECTED
        self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
''')],
         demo=NET + '''
class T(Server):
    def do_Disconnect(self, req):
        return soap.fault(req, 5)
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        try:
            p.disconnect()
        except WSManFaultError:
            pass
        same(p.state, RunspacePoolState.OPENED, "state")
'''),
    dict(id="c19-broken", prop="C19", needs="a server that reports the pool as broken", breaks="the broken state of a pool is not recorded",
         edits=[(P, '''        self.state = state_msg.state
        if self.state == RunspacePoolState.BROKEN:
''', '''        if state_msg.state != RunspacePoolState.BROKEN:
            self.state = state_msg.state
        else:
''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        self.push(sh, c, ("RUNSPACEPOOL_STATE", psrp.pool_state(5, psrp.error_record("gone"))))
        self.finish(sh, c)
with wire.wire(T()):
    p = RunspacePool(new_wsman())
    p.open()
    ps = PowerShell(p)
    ps.add_script("a")
    try:
        ps.invoke()
    except InvalidPSRPOperation:
        pass
    same(p.state, RunspacePoolState.BROKEN, "state")
'''),
    dict(id="c20-refused", prop="C20", needs="a server that refuses a new maximum", breaks="a refused maximum is kept as the pool's maximum",
         edits=[(P, '''        set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)''', '''        self._max_runspaces = max_runspaces
        set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)''')],
         demo=NET + '''
class T(Server):
    def on_SET_MAX_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("CI").value, False)))
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        try:
            p.max_runspaces = 7
        except InvalidPSRPOperation:
            pass
        same(p.max_runspaces, 1, "maximum")
'''),
    dict(id="c20-avail0", prop="C20", needs="a pool with no runspace available", breaks="the answer 0 counts as no answer",
         edits=[(P, '''            if isinstance(self.ci_table[ci], int):''', '''            if isinstance(self.ci_table[ci], int) and self.ci_table[ci]:''')],
         demo=NET + '''
class T(Server):
    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 0)))
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        same(p.get_available_runspaces(), 0, "available")
'''),
    dict(id="c21-none", prop="C21", needs="$null in the output of a pipeline", breaks="null objects are dropped from the output",
         edits=[(P, '''            if response[0] == MessageType.PIPELINE_OUTPUT:
''', '''            if response[0] == MessageType.PIPELINE_OUTPUT and response[1].data.data is not None:
''')],
         demo=NET + '''
with wire.wire(out(Server(), ("PIPELINE_OUTPUT", "<S>a</S>"), ("PIPELINE_OUTPUT", "<Nil/>"), ("PIPELINE_OUTPUT", "<S>b</S>"))):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        same(ps.invoke(), ["a", None, "b"], "output")
'''),
    dict(id="c21-progress", prop="C21", needs="several progress records of one activity", breaks="only the last progress record of an activity is kept",
         edits=[(P, '''        self.streams.progress.append(typing.cast(ProgressRecord, message.data))''', '''        record = typing.cast(ProgressRecord, message.data)
        if self.streams.progress and self.streams.progress[-1].activity_id == record.activity_id:
            self.streams.progress.pop()
        self.streams.progress.append(record)''')],
         demo=NET + '''
with wire.wire(out(Server(), ("PROGRESS_RECORD", psrp.progress("a", 1, percent=10)), ("PROGRESS_RECORD", psrp.progress("a", 1, percent=20)))):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
        same([x.percent_complete for x in ps.streams.progress], [10, 20], "progress")
'''),
    dict(id="c21-err", prop="C21", needs="a pipeline that is stopped by the server with an error", breaks="the error of the final state is only kept for failed pipelines",
         edits=[(P, '''        if msg_state.error_record is not None:
            self.streams.error.append(msg_state.error_record)

        if self.state == PSInvocationState.FAILED:
            self.had_errors = True
''', '''        if self.state == PSInvocationState.FAILED:
            self.had_errors = True
            if msg_state.error_record is not None:
                self.streams.error.append(msg_state.error_record)
''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        self.finish(sh, c, state=3, err=psrp.error_record("stopped"))
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
        same(len(ps.streams.error), 1, "errors")
'''),
    dict(id="c22-alias", prop="C22", needs="output kept from an earlier invocation when the streams are cleared", breaks="clearing the streams empties results returned before",
         edits=[(P, '''        self.streams = PSDataStreams()
        self.output = []

    def close''', '''        self.streams = PSDataStreams()
        self.output.clear()

    def close''')],
         demo=NET + '''
with wire.wire(out(Server(), ("PIPELINE_OUTPUT", "<S>a</S>"))):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        o = ps.invoke()
        ps.clear_streams()
        same(o, ["a"], "the earlier result")
'''),
    dict(id="c22-discbegin", prop="C22", needs="a pipeline of another client and a second invocation", breaks="a disconnected pipeline may be started again",
         edits=[(P, '''            PSInvocationState.NOT_STARTED,
            PSInvocationState.STOPPED,
            PSInvocationState.COMPLETED,
            PSInvocationState.FAILED,
        ]
        if self.state not in valid_states:''', '''            PSInvocationState.NOT_STARTED,
            PSInvocationState.STOPPED,
            PSInvocationState.COMPLETED,
            PSInvocationState.FAILED,
        ]
        if self.state not in valid_states and self.state != PSInvocationState.DISCONNECTED:''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
with wire.wire(T()):
    p = RunspacePool(new_wsman())
    p.open()
    ps = PowerShell(p)
    ps.add_script("a")
    ps.begin_invoke()
    p.disconnect()
    try:
        ps.begin_invoke()
    except InvalidPipelineStateError:
        pass
    else:
        fail("a disconnected pipeline was started again")
'''),
    dict(id="c22-conn", prop="C22", needs="a connect to a pipeline that the server refuses", breaks="a pipeline counts as running although the connect was refused",
         edits=[(P, '''        self.runspace_pool.connection.connect(
            self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
        )
        self.state = PSInvocationState.RUNNING
''', '''        self.state = PSInvocationState.RUNNING
        self.runspace_pool.connection.connect(
            self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
        )
''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
    def do_Connect(self, req):
        return soap.fault(req, 5)
with wire.wire(T()):
    p = RunspacePool(new_wsman())
    p.open()
    ps = PowerShell(p)
    ps.add_script("a")
    ps.begin_invoke()
    p.disconnect()
    try:
        ps.connect_async()
    except WSManFaultError:
        pass
    same(ps.state, PSInvocationState.DISCONNECTED, "state")
'''),
    dict(id="c23-sta", prop="C23", needs="an invocation that overrides the pool's apartment state with STA, which is 0", breaks="the apartment state STA given for an invocation is ignored",
         edits=[(P, '''        if apartment_state is None:
            apartment_state = self.runspace_pool.apartment_state''', '''        if not apartment_state:
            apartment_state = self.runspace_pool.apartment_state''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with RunspacePool(new_wsman(), apartment_state=1) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke(apartment_state=0)
(m,) = [m for _, _, m in srv.msgs if m.name == "CREATE_PIPELINE"]
same(m.node().prop("ApartmentState").value, 0, "apartment state")
'''),
    dict(id="c23-merge", prop="C23", needs="an error merge that is undone before the invocation", breaks="undoing an error merge leaves its old form for version 2 in place",
         edits=[(P, '''        if to == "none":
            my_result = self.commands[-1].merge_error
''', '''        if to == "none":
            my_result = self.commands[-1].merge_my_result
''')],
         demo=NET + '''
with wire.wire(Server()):
    with RunspacePool(new_wsman()) as p:
        a, b = PowerShell(p), PowerShell(p)
        a.add_script("a").merge_error("output").merge_error("none")
        same(a.commands[0].merge_my_result.value, PipelineResultTypes.NONE, "merge my result")
'''),
    dict(id="c23-ver", prop="C23", needs="a server of protocol version 2.10", breaks="protocol versions are compared as text",
         edits=[(U, '''        if int(version) < current_version:''', '''        if version < str(current_version):''')],
         demo=NET + '''
from pypsrp._utils import version_equal_or_newer as v
for a, b, r in (("2.10", "2.2", True), ("2.3", "2.2", True), ("2.2", "2.2", True), ("2.1", "2.2", False)):
    same(v(a, b), r, "%s against %s" % (a, b))
'''),
    dict(id="c24-tuple", prop="C24", needs="an input of tuples", breaks="a tuple in the input is sent as several objects",
         edits=[(P, '''                    if not isinstance(next_input, list):
                        next_input = [next_input]
''', '''                    if not isinstance(next_input, (list, tuple)):
                        next_input = [next_input]
''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke(input=(x for x in ["a", ("b", "c")]))
same([m.name for _, _, m in srv.msgs if m.name in ("PIPELINE_INPUT", "END_OF_PIPELINE_INPUT")], ["PIPELINE_INPUT"] * 2 + ["END_OF_PIPELINE_INPUT"], "messages")
'''),
    dict(id="c24-empty", prop="C24", needs="a generator that yields nothing", breaks="the end of the input is not sent when there was none",
         edits=[(P, '''            while not input_ended:
''', '''            while not input_ended and next_input is not end:
''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke(input=(x for x in []))
same([m.name for _, _, m in srv.msgs if m.name in ("PIPELINE_INPUT", "END_OF_PIPELINE_INPUT")], ["END_OF_PIPELINE_INPUT"], "messages")
'''),
    dict(id="c25-false", prop="C25", needs="a host method whose answer is a false value", breaks="false answers of host methods are not sent",
         edits=[(P, '''        if response is not None:
            msg = response_obj()''', '''        if response:
            msg = response_obj()''')],
         demo=NET + '''
from pypsrp.host import PSHost, PSHostUserInterface
class UI(PSHostUserInterface):
    def ReadLine(self, runspace, pipeline):
        return ""
srv = out(Server(), ("PIPELINE_HOST_CALL", psrp.host_call(5, 11, "ReadLine", [])))
with wire.wire(srv):
    with RunspacePool(new_wsman(), host=PSHost(None, None, False, "h", None, UI(), "1.0")) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
same([m.name for _, _, m in srv.msgs if "RESPONSE" in m.name], ["PIPELINE_HOST_RESPONSE"], "answers")
'''),
    dict(id="c25-nested", prop="C25", needs="a host call of a pipeline", breaks="the answer to a pipeline's host call does not name the pipeline's command when the pool has several pipelines",
         edits=[(P, '''            pid = pipeline.id if pipeline is not None else None
''', '''            pid = pipeline.id if pipeline is not None and len(self.pipelines) == 1 else None
''')],
         demo=NET + '''
from pypsrp.host import PSHost, PSHostUserInterface
class UI(PSHostUserInterface):
    def ReadLine(self, runspace, pipeline):
        return "x"
srv = out(Server(), ("PIPELINE_HOST_CALL", psrp.host_call(5, 11, "ReadLine", [])))
with wire.wire(srv):
    with RunspacePool(new_wsman(), host=PSHost(None, None, False, "h", None, UI(), "1.0")) as p:
        a, b = PowerShell(p), PowerShell(p)
        for x in (a, b):
            x.add_script("a")
            x.begin_invoke()
        a.end_invoke()
        b.end_invoke()
same([m.pid.upper() for _, _, m in srv.msgs if "RESPONSE" in m.name], [a.id, b.id], "pipelines")
'''),
    dict(id="c26-tilde", prop="C26", needs="a relative path that starts with a tilde", breaks="a tilde in the local path is expanded although expansion is off",
         edits=[(CL, '''            src = os.path.expanduser(os.path.expandvars(src))
        b_src''', '''            src = os.path.expandvars(src)
        src = os.path.expanduser(src)
        b_src''')],
         demo=NET + '''
import os, tempfile, hashlib
from pypsrp.client import Client
class T(Server):
    data = b""
    def on_PIPELINE_INPUT(self, sh, c, m):
        self.data += base64.b64decode(m.node().value)
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", "<S>C:\\\\a</S>"))
    def run_pipeline(self, sh, c, m):
        pass
srv = T()
os.environ["HOME"] = "/nonexistent"
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.chdir(d)
    os.mkdir("~")
    open("~/a", "w").write("hello")
    with wire.wire(srv):
        c = Client("srv", username="u", password="p", auth="basic", ssl=True)
        try:
            c.copy("~/a", "x")
        except OSError as e:
            fail("the file was not found: %s", e)
finally:
    os.chdir(old)
    import shutil
    shutil.rmtree(d)
require(srv.data.startswith(b"hello"), "sent %r", srv.data)
'''),
    dict(id="c27-join", prop="C27", needs="a file whose pieces are no multiple of three bytes", breaks="the pieces are joined before they are decoded",
         edits=[(CL, '''b"".join(base64.b64decode(o) for o in powershell.output[:-1])''', '''base64.b64decode("".join(powershell.output[:-1]))''')],
         demo=NET + '''
import os, tempfile, hashlib
from pypsrp.client import Client
pieces = [b"a", b"bcdef", b"g"]
srv = out(Server(), *[("PIPELINE_OUTPUT", "<S>%s</S>" % base64.b64encode(x).decode()) for x in pieces], ("PIPELINE_OUTPUT", "<S>%s</S>" % hashlib.sha1(b"".join(pieces)).hexdigest()))
d = tempfile.mkdtemp()
try:
    with wire.wire(srv):
        try:
            Client("srv", username="u", password="p", auth="basic", ssl=True).fetch("x", d + "/f")
        except WinRMError as e:
            fail("%s", e)
    same(open(d + "/f", "rb").read(), b"abcdefg", "content")
finally:
    import shutil
    shutil.rmtree(d)
'''),
    dict(id="c28-stderr", prop="C28", needs="error output of a process in another code page", breaks="the error output is decoded as UTF-8 whenever it happens to be valid UTF-8",
         edits=[(CL, '''        return to_unicode(process.stdout, encoding), to_unicode(process.stderr, encoding), rc''', '''        stderr = process.stderr.decode("utf-8", "replace")
        if "\\ufffd" in stderr:
            stderr = to_unicode(process.stderr, encoding)
        return to_unicode(process.stdout, encoding), stderr, rc''')],
         demo=NET + '''
from pypsrp.client import Client
class T(Server):
    def on_process(self, c):
        c.out.append(("stderr", "\\xc3\\xa9".encode("latin-1")))
        c.done, c.rc = True, 0
with wire.wire(T()):
    o = Client("srv", username="u", password="p", auth="basic", ssl=True).execute_cmd("x", encoding="latin-1")
same(o, ("", "\\xc3\\xa9", 0), "result")
'''),
    dict(id="c29-reset", prop="C29", needs="an is_alive call that fails and a request afterwards in the same thread", breaks="new connections stay disabled after an is_alive call that failed",
         edits=[(PM, '''        self.__class__._contextvar.reset(self._contextvar_token)
        del''', '''        if exc_type is None:
            self.__class__._contextvar.reset(self._contextvar_token)
        del''')],
         demo=NET + '''
from pypsrp._pool_manager import DisableNewConnectionsContext as D
class T(Server):
    def do_Get(self, req):
        return soap.fault(req, 5)
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        try:
            p.is_alive()
        except WSManFaultError:
            pass
require(D.current() is None, "new connections are still disabled")
'''),
    dict(id="c29-code", prop="C29", needs="a server that no longer knows the shell", breaks="an unknown shell is reported as an error instead of as not alive",
         edits=[(P, '''                0x8033805B,  # ERROR_WSMAN_UNEXPECTED_SELECTORS
''', '''                0x80338057,  # ERROR_WSMAN_UNEXPECTED_SELECTORS
''')],
         demo=NET + '''
class T(Server):
    def do_Get(self, req):
        return soap.fault(req, 0x8033805B)
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        try:
            same(p.is_alive(), False, "alive")
        except WSManFaultError as e:
            fail("%s", e)
'''),
    dict(id="c30-share", prop="C30", needs="two disconnected pools with pipelines", breaks="pools found on the server list each other's pipelines",
         edits=[(P, '''        runspace_pools = []
        for shell in shells:
''', '''        runspace_pools = []
        pipelines: typing.Dict[str, "PowerShell"] = {}
        for shell in shells:
'''), (P, '''            commands = resp.findall("wsen:EnumerateResponse/wsman:Items/rsp:Command", NAMESPACES)
            pipelines = {}
''', '''            commands = resp.findall("wsen:EnumerateResponse/wsman:Items/rsp:Command", NAMESPACES)
''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
with wire.wire(T()):
    w = new_wsman()
    for i in range(2):
        p = RunspacePool(w)
        p.open()
        ps = PowerShell(p)
        ps.add_script("a")
        ps.begin_invoke()
        p.disconnect()
    same([len(p.create_disconnected_power_shells()) for p in RunspacePool.get_runspace_pools(w)], [1, 1], "pipelines")
'''),
    dict(id="c30-newclient", prop="C30", needs="a connect to a pool of another client that fails the first time", breaks="after a failed connect the pool is taken for one of this client",
         edits=[(P, '''            self._connect_new_client()
            self._new_client = False
''', '''            self._new_client = False
            self._connect_new_client()
''')],
         demo=NET + '''
class T(Server):
    n = 0
    def do_Connect(self, req):
        self.n += 1
        return soap.fault(req, 5) if self.n == 1 else super().do_Connect(req)
srv = T()
with wire.wire(srv):
    w = new_wsman()
    p = RunspacePool(w)
    p.open()
    p.disconnect()
    (p,) = RunspacePool.get_runspace_pools(w)
    try:
        p.connect()
    except WSManFaultError:
        pass
    p.connect()
same(srv.n, 2, "connects")
'''),
    dict(id="c32-ns", prop="C32", needs="an empty list of namespaces", breaks="an empty list of namespaces is sent as null",
         edits=[(P, '''        get_msg = GetCommandMetadata(names, command_types, namespace, arguments)''', '''        get_msg = GetCommandMetadata(names, command_types, namespace or None, arguments or None)''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        try:
            p.get_command_metadata("a", namespace=[])
        except IndexError:
            pass
(m,) = [m for _, _, m in srv.msgs if m.name == "GET_COMMAND_METADATA"]
require(isinstance(m.node().prop("Namespace"), rc.Obj), "an empty list is sent as %r", m.node().prop("Namespace"))
'''),
    dict(id="c32-event", prop="C32", needs="two events with the same identifier", breaks="events with the identifier of an earlier one are dropped",
         edits=[(P, '''        self.user_events.append(user_event)''', '''        if all(e.event_id != user_event.event_id for e in self.user_events):
            self.user_events.append(user_event)''')],
         demo=NET + '''
class T(Server):
    def run_pipeline(self, sh, c, m):
        self.push(sh, c, ("USER_EVENT", psrp.user_event(1, "a")), ("USER_EVENT", psrp.user_event(1, "b")))
        self.finish(sh, c)
with wire.wire(T()):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
        same([e.source_id for e in p.user_events], ["a", "b"], "events")
'''),
]
