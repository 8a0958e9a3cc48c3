"""A model WinRM endpoint: WinRS shells and PowerShell runspace pools, scripted by the checks.

It parses every request on its own (soap, psrp, refclixml), keeps what it was sent, and delivers what it sends in
whatever pieces the delivery plan asks for.
"""
import base64
import collections
import uuid

import psrp
import refclixml as rc
import soap
from core import HarnessError, fail, require
from soap import NS, q, xesc

PWSH_URI = "http://schemas.microsoft.com/powershell/"
CMD_URI = soap.SHELL + "/cmd"
ENUM_SHELL = soap.SHELL
ENUM_COMMAND = soap.SHELL + "/Command"


class Cycle:
    """Cycles through a list of ints; the position is kept over the whole run."""

    def __init__(self, items, default):
        self.items = list(items) if items else [default]
        self.k = 0

    def next(self):
        v = self.items[self.k % len(self.items)]
        self.k += 1
        return v


class Plan:
    """How output is delivered: frag_sizes, per_response (items per Receive answer), per_stream (items per Stream element),
    hold (0: answer, 1: operation timeout first, 2: empty answer first), picks (interleaving)."""

    def __init__(self, d=None):
        d = d or {}
        self.frag_sizes = list(d.get("frag_sizes") or [32768])
        self.per_response = Cycle(d.get("per_response"), 3)
        self.per_stream = Cycle(d.get("per_stream"), 1)
        self.hold = Cycle(d.get("hold"), 0)
        self.picks = list(d.get("picks") or [0])
        self.bom = bool(d.get("bom"))
        self.end_mark = bool(d.get("end_mark"))  # the last output of a process comes in the element with the end mark


class Command:
    def __init__(self, shell, cid, executable, args, options):
        self.shell, self.id, self.executable, self.args, self.options = shell, cid, executable, args, options
        self.out = collections.deque()  # packed fragments, or (stream, bytes) for a process
        self.done = False  # no more output will come; the last receive answer says Done
        self.rc = None
        self.reported_done = False
        self.msgs = []  # messages the client sent to this pipeline
        self.input = []  # (stream, bytes, end) sends to a process
        self.signals = []
        self.gone = False
        self.pid = None  # the pipeline's id
        self.receives = 0
        self.after_done = 0
        self.idle = 0
        self.held = False


class Shell:
    def __init__(self, sid, uri, element, options):
        self.id, self.uri, self.element, self.options = sid, uri, element, options
        self.ps = uri.startswith(PWSH_URI)
        self.commands = collections.OrderedDict()
        self.asm = psrp.Assembler()
        self.out = collections.deque()
        self.msgs = []
        self.state = "Connected"
        self.deleted = 0
        self.sender = None
        self.idle = 0
        self.held = False
        self.bytes_in = b""


class Server:
    """Routes requests; subclasses override the on_* methods."""

    max_idle = 25
    max_frags = None

    def __init__(self, plan=None, proto="2.3", private=(), initial=(1, 1)):
        self.plan = plan if isinstance(plan, Plan) else Plan(plan)
        self.reqs = []
        self.shells = collections.OrderedDict()
        self.proto, self.private, self.initial = proto, list(private), initial
        self.msgs = []  # (shell, command or None, Msg) in arrival order
        self.unknown = []  # requests that name something that does not exist
        self.ids = 0
        self.config_kb = 500

    # ---- plumbing
    def __call__(self, http):
        req = soap.Req(self.unseal(http), http)
        self.reqs.append(req)
        early = self.intercept(req)
        if early is not None:
            return early
        m = getattr(self, "do_" + req.action, None)
        if m is None:
            fail("the server was sent the action %r", req.action_uri)
        return m(req)

    def unseal(self, http):
        return http.body

    def intercept(self, req):
        return None

    def new_id(self):
        self.ids += 1
        return str(uuid.uuid5(uuid.NAMESPACE_OID, "srv%d" % self.ids)).upper()

    def shell_of(self, req):
        sid = req.selector("ShellId")
        sh = self.shells.get((sid or "").upper())
        if sh is None or sh.deleted:
            self.unknown.append((req, sid))
            return None
        return sh

    def no_shell(self, req):
        return soap.fault(req, 2150858843, sub="wsman:InvalidSelectors", reason="The request for the Windows Remote Shell with ShellId %s failed because the shell was not found on the server." % req.selector("ShellId"))

    # ---- shells
    def do_Create(self, req):
        el = req.one("rsp:Shell")
        sid = el.get("ShellId") or self.new_id()
        sh = Shell(sid, req.resource, el, req.options)
        self.shells[sid.upper()] = sh
        if sh.ps:
            sh.sender = psrp.Sender(sid, self.plan.frag_sizes, self.plan.bom)
            sh.sender.max_frags = self.max_frags
            cx = el.find("{%s}creationXml" % NS["pwsh"])
            require(cx is not None and cx.text, "a PowerShell shell is created without creationXml")
            self.psrp_in(sh, None, self.b64(cx.text))
        self.on_create(sh)
        return soap.ok(req, self.create_response(sh))

    def create_response(self, sh):
        el = sh.element
        ins = el.findtext(q("rsp:InputStreams")) or ""
        outs = el.findtext(q("rsp:OutputStreams")) or ""
        return ('<wst:ResourceCreated><wsa:Address>http://srv:5985/wsman</wsa:Address><wsa:ReferenceParameters><wsman:ResourceURI>%s</wsman:ResourceURI>'
                '<wsman:SelectorSet><wsman:Selector Name="ShellId">%s</wsman:Selector></wsman:SelectorSet></wsa:ReferenceParameters></wst:ResourceCreated>'
                '<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>me</rsp:Owner><rsp:ClientIP>1.2.3.4</rsp:ClientIP>'
                '<rsp:IdleTimeOut>PT7200.000S</rsp:IdleTimeOut><rsp:InputStreams>%s</rsp:InputStreams><rsp:OutputStreams>%s</rsp:OutputStreams>'
                '<rsp:ShellRunTime>P0DT0H0M1S</rsp:ShellRunTime><rsp:ShellInactivity>P0DT0H0M0S</rsp:ShellInactivity></rsp:Shell>'
                ) % (xesc(sh.uri), sh.id, sh.id, xesc(sh.uri), xesc(ins), xesc(outs))

    def on_create(self, sh):
        pass

    def do_Delete(self, req):
        require(not req.body, "a Delete request has a body: %r", req.body)
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        sh.deleted += 1
        return soap.ok(req, "")

    def do_Get(self, req):
        if req.resource == "http://schemas.microsoft.com/wbem/wsman/1/config":
            return soap.ok(req, "<cfg:Config><cfg:MaxEnvelopeSizekb>%s</cfg:MaxEnvelopeSizekb><cfg:MaxTimeoutms>60000</cfg:MaxTimeoutms></cfg:Config>" % self.config_kb)
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        return soap.ok(req, "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:State>%s</rsp:State></rsp:Shell>" % (sh.id, sh.state))

    # ---- commands
    def do_Command(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        el = req.one("rsp:CommandLine")
        exe = el.findall(q("rsp:Command"))
        require(len(exe) == 1, "a CommandLine has %d Command elements", len(exe))
        args = [a.text or "" for a in el.findall(q("rsp:Arguments"))]
        cid = self.command_id(sh, el.get("CommandId"))
        c = Command(sh, cid, exe[0].text or "", args, req.options)
        if sh.ps:
            require(c.executable == "" and len(args) == 1, "a pipeline command carries %r %r", c.executable, args)
        old = sh.commands.get(cid.upper())
        if old is not None and not old.gone:
            self.unknown.append((req, cid))
            return soap.fault(req, 2150859174, reason="The command id %s is in use" % cid)
        sh.commands[cid.upper()] = c
        if sh.ps:
            self.psrp_in(sh, c, self.b64(args[0]))
        else:
            self.on_process(c)
        return soap.ok(req, "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % c.id)

    def command_id(self, sh, wanted):
        return wanted or self.new_id()

    def command_of(self, sh, req, cid):
        c = sh.commands.get((cid or "").upper())
        if c is None or c.gone:
            self.unknown.append((req, cid))
            return None
        return c

    def no_command(self, req):
        return soap.fault(req, 2150858843, sub="wsman:InvalidSelectors", reason="The command was not found")

    def on_process(self, c):
        pass

    @staticmethod
    def b64(text):
        try:
            return base64.b64decode((text or "").encode("ascii"), validate=True)
        except Exception as e:
            fail("data in a request is not base64: %s: %r", e, (text or "")[:80])

    def do_Send(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        el = req.one("rsp:Send")
        for st in el:
            require(st.tag == q("rsp:Stream"), "Send holds a %s", st.tag)
            cid = st.get("CommandId")
            c = None
            if cid is not None:
                c = self.command_of(sh, req, cid)
                if c is None:
                    return self.no_command(req)
            data = self.b64(st.text)
            if sh.ps:
                require(st.get("Name") in ("stdin", "pr"), "Send to the stream %r of a pool", st.get("Name"))
                self.psrp_in(sh, c, data, st.get("Name"))
            else:
                require(c is not None, "Send to a shell without a command")
                c.input.append((st.get("Name"), data, st.get("End")))
                self.on_input(c, st.get("Name"), data, st.get("End"))
        return soap.ok(req, "<rsp:SendResponse/>")

    def on_input(self, c, stream, data, end):
        pass

    def do_Signal(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        el = req.one("rsp:Signal")
        c = self.command_of(sh, req, el.get("CommandId"))
        if c is None:
            return self.no_command(req)
        code = el.findtext(q("rsp:Code"))
        c.signals.append(code)
        r = self.on_signal(c, code)
        if code is not None and code.lower().endswith("/signal/terminate"):
            c.gone = True
        return r or soap.ok(req, "<rsp:SignalResponse/>")

    def on_signal(self, c, code):
        pass

    def do_Receive(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        el = req.one("rsp:Receive")
        ds = el.find(q("rsp:DesiredStream"))
        require(ds is not None, "Receive without DesiredStream")
        cid = ds.get("CommandId")
        if cid is None:
            return self.receive(req, sh, None)
        c = self.command_of(sh, req, cid)
        if c is None:
            return self.no_command(req)
        c.receives += 1
        if c.reported_done:
            c.after_done += 1
        return self.receive(req, sh, c)

    def on_idle(self, sh, c):
        """Nothing to deliver; may queue something."""

    def receive(self, req, sh, c):
        t = c if c is not None else sh
        if not t.out and not (c is not None and c.done):
            self.on_idle(sh, c)
        if not t.held:
            h = self.plan.hold.next()
            if h and (c is not None or h == 2):
                t.held = True
                if h == 1:
                    return soap.op_timeout(req)
                return soap.ok(req, self.receive_body(c, []))
        t.held = False
        if not t.out and not (c is not None and c.done):
            t.idle += 1
            if t.idle > self.max_idle:
                fail("the client keeps waiting for %s although nothing more will be sent", "the pipeline or process" if c is not None else "the pool")
            if c is not None:
                return soap.op_timeout(req)
            return soap.ok(req, self.receive_body(None, []))
        t.idle = 0
        n = max(1, self.plan.per_response.next())
        items = [t.out.popleft() for _ in range(min(n, len(t.out)))]
        return soap.ok(req, self.receive_body(c, items))

    def receive_body(self, c, items):
        """items: packed fragments, or (stream name, bytes)."""
        at = ' CommandId="%s"' % c.id if c is not None else ""
        out = []
        i = 0
        while i < len(items):
            if isinstance(items[i], tuple):
                name, data = items[i]
                out.append((name, data))
                i += 1
            else:
                k = max(1, self.plan.per_stream.next())
                out.append(("stdout", b"".join(items[i : i + k])))
                i += k
        last = c is not None and c.done and not c.out
        ends = self.end_streams(c) if last else []
        tail = {}
        if last and self.plan.end_mark and out:
            # the last piece of a stream carries the end mark itself
            tail = {n: max(i for i, (k, _) in enumerate(out) if k == n) for n in ends if n in [k for k, _ in out]}
        b = "".join('<rsp:Stream Name="%s"%s%s>%s</rsp:Stream>' % (n, at, ' End="true"' if tail.get(n) == i else "", base64.b64encode(d).decode()) for i, (n, d) in enumerate(out))
        if c is not None:
            if last:
                c.reported_done = True
                b += "".join('<rsp:Stream Name="%s"%s End="true"></rsp:Stream>' % (n, at) for n in ends if n not in tail)
                b += '<rsp:CommandState%s State="%s/CommandState/Done">%s</rsp:CommandState>' % (at, soap.SHELL, "<rsp:ExitCode>%d</rsp:ExitCode>" % c.rc if c.rc is not None else "")
            elif not c.shell.ps or self.plan.bom:
                b += '<rsp:CommandState%s State="%s/CommandState/Running"></rsp:CommandState>' % (at, soap.SHELL)
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % b

    def end_streams(self, c):
        return [] if c.shell.ps else ["stdout", "stderr"]

    # ---- disconnect and enumerate
    def do_Disconnect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        req.one("rsp:Disconnect")
        sh.state = "Disconnected"
        return soap.ok(req, "<rsp:DisconnectResponse/>")

    def do_Reconnect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        sh.state = "Connected"
        return soap.ok(req, "")

    def do_Connect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        el = req.one("rsp:Connect")
        cid = el.get("CommandId")
        if cid is not None:
            c = self.command_of(sh, req, cid)
            if c is None:
                return self.no_command(req)
            c.connected = True
            return soap.ok(req, "<rsp:ConnectResponse/>")
        cx = [e for e in el if e.tag.endswith("connectXml")]
        require(len(cx) == 1, "Connect to a pool without connectXml")
        sh.asm = psrp.Assembler()
        self.psrp_in(sh, None, self.b64(cx[0].text))
        sh.state = "Connected"
        return soap.ok(req, '<rsp:ConnectResponse><pwsh:connectResponseXml>%s</pwsh:connectResponseXml></rsp:ConnectResponse>' % base64.b64encode(self.connect_response(sh)).decode())

    def connect_response(self, sh):
        fr = []
        fr += sh.sender.frags("SESSION_CAPABILITY", psrp.session_capability(self.proto))
        fr += sh.sender.frags("RUNSPACEPOOL_INIT_DATA", psrp.init_data(*self.initial))
        return b"".join(f.pack() for f in fr)

    def do_Enumerate(self, req):
        if req.resource == ENUM_SHELL:
            items = "".join(self.shell_item(s) for s in self.shells.values() if not s.deleted)
        elif req.resource == ENUM_COMMAND:
            el = req.one("wsen:Enumerate")
            sel = el.find("%s/%s/%s" % (q("wsman:Filter"), q("wsman:SelectorSet"), q("wsman:Selector")))
            require(sel is not None and sel.get("Name") == "ShellId", "commands are enumerated without naming the shell")
            sh = self.shells.get((sel.text or "").upper())
            items = "".join("<rsp:Command><rsp:ShellId>%s</rsp:ShellId><rsp:CommandId>%s</rsp:CommandId><rsp:CommandLine></rsp:CommandLine><rsp:State>Running</rsp:State></rsp:Command>" % (sh.id, c.id)
                            for c in sh.commands.values() if not c.gone) if sh else ""
        else:
            fail("unknown enumeration %r", req.resource)
        return soap.ok(req, "<wsen:EnumerateResponse><wsman:Items>%s</wsman:Items><wsen:EnumerationContext></wsen:EnumerationContext><wsman:EndOfSequence/></wsen:EnumerateResponse>" % items)

    def shell_item(self, s):
        return ("<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:Name>%s</rsp:Name><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>me</rsp:Owner><rsp:ClientIP>1.2.3.4</rsp:ClientIP>"
                "<rsp:State>%s</rsp:State></rsp:Shell>") % (s.id, getattr(s, "name", "Runspace1"), xesc(s.uri), s.state)

    # ---- PSRP
    def psrp_in(self, sh, c, data, stream="stdin"):
        sh.bytes_in += data
        for raw in sh.asm.feed(data):
            m = psrp.unpack(raw)
            m.stream = stream
            if m.dest != psrp.SERVER:
                fail("a message of the client has the destination %d", m.dest)
            if m.name is None:
                fail("the client sent the message type %#x", m.mtype)
            if m.rpid.upper() != sh.id.upper():
                fail("a message for the pool %s carries the pool id %s", sh.id, m.rpid)
            self.msgs.append((sh, c, m))
            if c is not None and c.pid is None:
                c.pid = m.pid  # the command id can be another one
            (c.msgs if c is not None else sh.msgs).append(m)
            f = getattr(self, "on_" + m.name, None)
            if f is not None:
                f(sh, c, m)

    def push(self, sh, c, *msgs, order=None):
        """Queue messages (type, spec) for delivery; c None: to the pool. order: interleaving picks."""
        lists = [sh.sender.frags(t, spec, (c.pid or c.id) if c is not None else None) for t, spec in msgs]
        fr = psrp.interleave(lists, order) if order else [f for l in lists for f in l]
        (c.out if c is not None else sh.out).extend(f.pack() for f in fr)

    def on_INIT_RUNSPACEPOOL(self, sh, c, m):
        self.opened(sh)

    def opened(self, sh):
        self.push(sh, None, ("SESSION_CAPABILITY", psrp.session_capability(self.proto)), ("APPLICATION_PRIVATE_DATA", psrp.app_private_data(self.private)),
                  ("RUNSPACEPOOL_STATE", psrp.pool_state(2)))

    def on_CONNECT_RUNSPACEPOOL(self, sh, c, m):
        self.push(sh, None, ("APPLICATION_PRIVATE_DATA", psrp.app_private_data(self.private)))

    def on_CREATE_PIPELINE(self, sh, c, m):
        self.run_pipeline(sh, c, m)

    def run_pipeline(self, sh, c, m):
        """Default: nothing but completed."""
        self.finish(sh, c)

    def finish(self, sh, c, *msgs, state=4, err=None, order=None):
        self.push(sh, c, *(list(msgs) + [("PIPELINE_STATE", psrp.pipeline_state(state, err))]), order=order)
        c.done = True


POOL_STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "NegotiationSent", "NegotiationSucceeded", "Connecting", "Disconnected"]
PIPELINE_STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]


def tells_states(e, names):
    """the message of an error about a state names the state there is and the ones there should be"""
    want = e.expected_state if isinstance(e.expected_state, (list, tuple, set)) else [e.expected_state]
    for s in [e.current_state] + list(want):
        require(names[s] in str(e), "the error %r does not name the state %s", str(e), names[s])


def new_wsman(**kw):
    from pypsrp.wsman import WSMan

    o = dict(server="srv", username="user", password="pass", auth="basic", ssl=True)
    o.update(kw)
    return WSMan(**o)
