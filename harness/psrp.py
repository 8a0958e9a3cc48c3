"""Independent model of the PSRP wire format: fragments, message headers and the bodies a server sends."""
import struct
import uuid

import refclixml as rc
from core import Violation, clip, fail

CLIENT, SERVER = 1, 2
EMPTY = "00000000-0000-0000-0000-000000000000"
MT = {
    "SESSION_CAPABILITY": 0x00010002, "INIT_RUNSPACEPOOL": 0x00010004, "PUBLIC_KEY": 0x00010005, "ENCRYPTED_SESSION_KEY": 0x00010006,
    "PUBLIC_KEY_REQUEST": 0x00010007, "CONNECT_RUNSPACEPOOL": 0x00010008, "RUNSPACEPOOL_INIT_DATA": 0x0002100B, "RESET_RUNSPACE_STATE": 0x0002100C,
    "SET_MAX_RUNSPACES": 0x00021002, "SET_MIN_RUNSPACES": 0x00021003, "RUNSPACE_AVAILABILITY": 0x00021004, "RUNSPACEPOOL_STATE": 0x00021005,
    "CREATE_PIPELINE": 0x00021006, "GET_AVAILABLE_RUNSPACES": 0x00021007, "USER_EVENT": 0x00021008, "APPLICATION_PRIVATE_DATA": 0x00021009,
    "GET_COMMAND_METADATA": 0x0002100A, "RUNSPACEPOOL_HOST_CALL": 0x00021100, "RUNSPACEPOOL_HOST_RESPONSE": 0x00021101,
    "PIPELINE_INPUT": 0x00041002, "END_OF_PIPELINE_INPUT": 0x00041003, "PIPELINE_OUTPUT": 0x00041004, "ERROR_RECORD": 0x00041005,
    "PIPELINE_STATE": 0x00041006, "DEBUG_RECORD": 0x00041007, "VERBOSE_RECORD": 0x00041008, "WARNING_RECORD": 0x00041009,
    "PROGRESS_RECORD": 0x00041010, "INFORMATION_RECORD": 0x00041011, "PIPELINE_HOST_CALL": 0x00041100, "PIPELINE_HOST_RESPONSE": 0x00041101,
}
NAMES = {v: k for k, v in MT.items()}
HDR = 21


class Frag:
    __slots__ = ("oid", "fid", "start", "end", "data")

    def __init__(self, oid, fid, start, end, data):
        self.oid, self.fid, self.start, self.end, self.data = oid, fid, start, end, data

    def pack(self):
        return struct.pack(">QQBI", self.oid, self.fid, (1 if self.start else 0) | (2 if self.end else 0), len(self.data)) + self.data

    def __repr__(self):
        return "Frag(object %d, fragment %d%s%s, %d bytes)" % (self.oid, self.fid, ", start" if self.start else "", ", end" if self.end else "", len(self.data))


def split_blob(blob):
    """A blob of packed fragments -> list of Frag; strict."""
    out = []
    pos = 0
    while pos < len(blob):
        if len(blob) - pos < HDR:
            fail("a fragment header is cut off: %d bytes left", len(blob) - pos)
        oid, fid, flags, n = struct.unpack_from(">QQBI", blob, pos)
        if flags & ~3:
            fail("reserved bits set in the flags of a fragment: %#x", flags)
        if len(blob) - pos - HDR < n:
            fail("fragment of object %d declares %d bytes, %d are there", oid, n, len(blob) - pos - HDR)
        out.append(Frag(oid, fid, bool(flags & 1), bool(flags & 2), blob[pos + HDR : pos + HDR + n]))
        pos += HDR + n
    return out


class Assembler:
    """Strict reassembly of what the client sends: object ids increase, fragment ids count from 0, flags only where due."""

    def __init__(self):
        self.cur = None
        self.last_oid = 0
        self.buf = b""
        self.next = 0
        self.seen = 0

    def feed(self, blob):
        msgs = []
        for f in split_blob(blob):
            self.seen += 1
            if self.cur is None:
                if f.oid <= self.last_oid:
                    fail("object id %d is not greater than the one before (%d)", f.oid, self.last_oid)
                if f.fid != 0:
                    fail("the first fragment of object %d has fragment id %d", f.oid, f.fid)
                if not f.start:
                    fail("the first fragment of object %d has no start flag", f.oid)
                self.cur = f.oid
                self.buf = bytearray()
                self.next = 0
            else:
                if f.oid != self.cur:
                    fail("fragment of object %d while object %d is incomplete", f.oid, self.cur)
                if f.fid != self.next:
                    fail("object %d: fragment id %d, expected %d", f.oid, f.fid, self.next)
                if f.start:
                    fail("object %d: start flag on fragment %d", f.oid, f.fid)
            self.buf += f.data
            self.next += 1
            self.last_oid = self.cur
            if f.end:
                msgs.append(bytes(self.buf))
                self.cur = None
        return msgs

    @property
    def pending(self):
        return self.cur is not None


class Msg:
    def __init__(self, dest, mtype, rpid, pid, xml):
        self.dest, self.mtype, self.rpid, self.pid, self.xml = dest, mtype, rpid, pid, xml
        self.name = NAMES.get(mtype)

    def node(self):
        return rc.read(self.xml)

    def __repr__(self):
        return "Msg(%s, pid %s, %s)" % (self.name or hex(self.mtype), self.pid, clip(self.xml, 200))


def unpack(data):
    """Packed message -> Msg (client to server direction is not assumed)."""
    if len(data) < 40:
        fail("a message of %d bytes has no complete header", len(data))
    dest, mtype = struct.unpack_from("<II", data, 0)
    rpid, pid = uuid.UUID(bytes_le=data[8:24]), uuid.UUID(bytes_le=data[24:40])
    body = data[40:]
    if body[:3] == b"\xef\xbb\xbf":
        body = body[3:]
    return Msg(dest, mtype, str(rpid), str(pid), body.decode("utf-8"))


def pack(mtype, rpid, pid, xml, dest=CLIENT, bom=False):
    m = MT[mtype] if isinstance(mtype, str) else mtype
    return (struct.pack("<II", dest, m) + uuid.UUID(rpid).bytes_le + uuid.UUID(pid or EMPTY).bytes_le + (b"\xef\xbb\xbf" if bom else b"") + xml.encode("utf-8"))


def fragment(oid, data, sizes, empty=()):
    """Split a packed message: sizes is cycled through (each at least 1); empty: where fragments without data are put in."""
    parts = []
    pos = 0
    sizes = [max(1, s) for s in sizes] or [32768]
    while pos < len(data) or not parts:
        n = sizes[len(parts) % len(sizes)]
        parts.append(data[pos : pos + n])
        pos += n
    for k in empty:
        parts.insert(k % (len(parts) + 1), b"")
    return [Frag(oid, i, i == 0, i == len(parts) - 1, p) for i, p in enumerate(parts)]


# ---------------------------------------------------------------- bodies the server sends (specs for refclixml)
def obj(ms=(), types=(), tostring=None, props=(), value=None):
    return ("obj", {"types": list(types), "tostring": tostring, "props": list(props), "ms": list(ms), "value": value})


def S(v):
    return ("Nil",) if v is None else ("S", v)


def I(v):
    return ("Nil",) if v is None else ("I32", v)


def session_capability(proto="2.3", ps="2.0", ser="1.1.0.1"):
    return obj([("protocolversion", ("Version", proto)), ("PSVersion", ("Version", ps)), ("SerializationVersion", ("Version", ser))])


PRIMDICT = ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"]


def app_private_data(items=()):
    return obj([("ApplicationPrivateData", ("dct", PRIMDICT, [(("S", k), v) for k, v in items]))])


def init_data(lo, hi):
    return obj([("MinRunspaces", ("I32", lo)), ("MaxRunspaces", ("I32", hi))])


def availability(ci, response):
    r = ("B", response) if isinstance(response, bool) else ("I64", response)
    return obj([("SetMinMaxRunspacesResponse", r), ("ci", ("I64", ci))])


def enum(name, text, i, base="System.Enum"):
    return ("enum", [name, base, "System.ValueType", "System.Object"], text, i)


def error_record(msg="boom", fqid="Err,Cmd", category=7, reason="RuntimeException", exc=None, invocation=None, target=None, activity=""):
    """The shape a serialized ErrorRecord has (MS-PSRP 2.2.3.15)."""
    ms = [
        ("Exception", exc or obj(types=["System.Management.Automation.RuntimeException", "System.SystemException", "System.Exception", "System.Object"], tostring="%s: %s" % (reason, msg),
                                 props=[("Message", S(msg)), ("Data", ("dct", ["System.Collections.ListDictionaryInternal", "System.Object"], []))])),
        ("TargetObject", target or ("Nil",)),
        ("FullyQualifiedErrorId", S(fqid)),
        ("InvocationInfo", ("Nil",)),
        ("ErrorCategory_Category", ("I32", category)),
        ("ErrorCategory_Activity", S(activity)),
        ("ErrorCategory_Reason", S(reason)),
        ("ErrorCategory_TargetName", S("")),
        ("ErrorCategory_TargetType", S("")),
        ("ErrorCategory_Message", S("%s: (:) [], %s" % ("NotSpecified", reason))),
        ("SerializeExtendedInfo", ("B", bool(invocation))),
    ]
    if invocation:
        ms += [("InvocationInfo_%s" % k, v) for k, v in invocation]
    return obj(ms, types=["System.Management.Automation.ErrorRecord", "System.Object"], tostring=msg)


def pool_state(state, err=None):
    return obj([("RunspaceState", ("I32", state))] + ([("ExceptionAsErrorRecord", err)] if err else []))


def pipeline_state(state, err=None):
    return obj([("PipelineState", ("I32", state))] + ([("ExceptionAsErrorRecord", err)] if err else []))


def informational(kind, text, invocation=None):
    n = "System.Management.Automation.%sRecord" % kind
    return obj([("InformationalRecord_Message", S(text)), ("InformationalRecord_SerializeInvocationInfo", ("B", bool(invocation))),
                ("InformationalRecord_PipelineIterationInfo", ("lst", ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"],
                                                               [("I32", 0), ("I32", 1)]) if invocation else ("Nil",))],
               types=[n, "System.Management.Automation.InformationalRecord", "System.Object"], tostring=text)


def progress(activity, aid=0, status="s", op=None, parent=-1, percent=-1, kind=0, secs=-1):
    return obj([("Activity", S(activity)), ("ActivityId", ("I32", aid)), ("StatusDescription", S(status)), ("CurrentOperation", S(op)),
                ("ParentActivityId", ("I32", parent)), ("PercentComplete", ("I32", percent)),
                ("Type", enum("System.Management.Automation.ProgressRecordType", ["Processing", "Completed"][kind], kind)), ("SecondsRemaining", ("I32", secs))])


def information(data, source="src", tags=("PSHOST",), user="u", computer="c", pid=4, ntid=0, mtid=1):
    return obj([("MessageData", data), ("Source", S(source)), ("TimeGenerated", ("DT", "2020-01-02T03:04:05.6789012Z")),
                ("Tags", ("lst", ["System.Collections.Generic.List`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"], [("S", t) for t in tags])),
                ("User", S(user)), ("Computer", S(computer)), ("ProcessId", ("U32", pid)), ("NativeThreadId", ("U32", ntid)), ("ManagedThreadId", ("U32", mtid))])


def host_call(ci, mi, name, params):
    return obj([("ci", ("I64", ci)), ("mi", enum("System.Management.Automation.Remoting.RemoteHostMethodId", name, mi)),
                ("mp", ("lst", ["System.Collections.ArrayList", "System.Object"], list(params)))])


def user_event(i, source, sender=("Nil",), args=("Nil",), data=("Nil",)):
    return obj([("PSEventArgs.EventIdentifier", ("I32", i)), ("PSEventArgs.SourceIdentifier", S(source)), ("PSEventArgs.TimeGenerated", ("DT", "2020-01-02T03:04:05Z")),
                ("PSEventArgs.Sender", sender), ("PSEventArgs.SourceArgs", args), ("PSEventArgs.MessageData", data), ("PSEventArgs.ComputerName", S("pc")),
                ("PSEventArgs.RunspaceId", ("G", "11111111-2222-3333-4444-555555555555"))])


def encrypted_session_key(b64):
    return obj([("EncryptedSessionKey", ("S", b64))])


class Sender:
    """Turns messages of the server into fragments, with ids of its own per pool."""

    max_frags = None  # bounds the number of fragments per message, by making them longer

    def __init__(self, rpid, sizes=(), bom=False):
        self.rpid, self.sizes, self.bom = rpid, list(sizes) or [32768], bom
        self.oid = 0
        self.k = 0

    def frags(self, mtype, spec, pid=None):
        """spec: refclixml spec, or an XML string."""
        xml = spec if isinstance(spec, str) else rc.write(spec)
        self.oid += 1
        self.k += 1
        s = self.sizes[self.k % len(self.sizes) :] + self.sizes[: self.k % len(self.sizes)]
        data = pack(mtype, self.rpid, pid, xml, CLIENT, self.bom)
        if self.max_frags:
            s = [max(x, len(data) // self.max_frags + 1) for x in s]
        return fragment(self.oid, data, s)


def interleave(lists, picks):
    """Merge lists of fragments keeping the order in each; picks steers which list goes next."""
    lists = [list(l) for l in lists if l]
    out = []
    k = 0
    while lists:
        i = picks[k % len(picks)] % len(lists) if picks else 0
        k += 1
        out.append(lists[i].pop(0))
        if not lists[i]:
            lists.pop(i)
    return out


# MS-PSRP 2.2.3.17
HOST_METHODS = dict(enumerate((
    "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine "
    "ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 "
    "PromptForCredential2 PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition SetWindowPosition "
    "GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey "
    "FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed").split(), 1))
