"""C08: PSRP messages encode and decode losslessly."""
import inspect
import struct
import uuid
import warnings
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
from core import HarnessError, Info, Sub, Violation, clip, fail, require, same
from pypsrp import complex_objects as co
from pypsrp import messages as pm
from pypsrp.serializer import Serializer

PROPERTY = "C08"
RULE = ("encode: every message type the client sends with generated fields, packed by the library and read by the independent parser; decode: every message type a server sends, written by the "
        "independent writer, unpacked by the library, with and without byte order mark, with a pipeline id or none; roundtrip: what the library packs it unpacks to the same; resend: what was read from a server, or the same object made by its constructor, is sent and read again; partial: output of a type the client knows without the members it wants is read as an object of any type; unknown: type codes outside "
        "the protocol. Non-trivial: always, except messages without fields.")

i32 = st.one_of(st.sampled_from([0, 1, -1, 2**31 - 1, -(2**31)]), st.integers(-(2**31), 2**31 - 1))
i64 = st.one_of(st.sampled_from([0, 1, -1, 2**63 - 1, -(2**63)]), st.integers(-(2**63), 2**63 - 1))
text = gens.text(16)
uuids = st.uuids().map(str)
version = st.lists(st.integers(0, 99), min_size=2, max_size=4).map(lambda l: ".".join(map(str, l)))

# values: (spec to write, what the library is to give); only kinds C04 covers in depth
leaf = st.one_of(st.tuples(st.just("S"), text), st.tuples(st.just("I32"), i32), st.tuples(st.just("B"), st.booleans()), st.just(("Nil",)),
                 st.tuples(st.just("I64"), i64), st.tuples(st.just("BA"), st.binary(max_size=12)))
value = st.recursive(leaf, lambda c: st.one_of(
    st.tuples(st.just("lst"), st.just(["System.Object[]", "System.Array", "System.Object"]), st.lists(c, max_size=3)),
    st.tuples(st.just("dct"), st.just(["System.Collections.Hashtable", "System.Object"]), st.lists(st.tuples(st.tuples(st.just("S"), gens.ident(4)), c), max_size=3, unique_by=lambda kv: kv[0][1]))), max_leaves=5)


def py(spec):
    k = spec[0]
    if k == "Nil":
        return None
    if k == "lst":
        return [py(i) for i in spec[2]]
    if k == "dct":
        return {py(a): py(b) for a, b in spec[2]}
    return spec[1]


def norm(v):
    """library value -> plain comparable"""
    if isinstance(v, list):
        return [norm(i) for i in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if isinstance(v, str):
        return str(v)
    return v


def eq(got, want, what):
    got = norm(got)
    if got != want or (type(got) is not type(want)):
        fail("%s: got %s, want %s", what, clip(got), clip(want))


opt = lambda s: st.one_of(st.none(), s)
strs = st.lists(text, max_size=3)
inv_fields = st.fixed_dictionaries({
    "invocation_name": opt(text), "invocation_line": opt(text), "invocation_offset_in_line": opt(i32), "invocation_position_message": opt(text), "invocation_script_name": opt(text),
    "invocation_script_line_number": opt(i32), "invocation_history_id": opt(i64), "invocation_pipeline_length": opt(i32), "invocation_pipeline_position": opt(i32),
    "invocation_expecting_input": opt(st.booleans()), "invocation_command_origin": opt(st.integers(0, 1)), "invocation_bound_parameters": opt(st.dictionaries(gens.ident(5), i32, max_size=2)),
    "invocation_unbound_arguments": opt(strs), "invocation_pipeline_iteration_info": opt(st.lists(i32, max_size=3)), "command_type": opt(st.sampled_from([1, 2, 3, 8, 13, 511])),
    "command_definition": opt(text), "command_name": opt(text), "command_visibility": opt(st.integers(0, 1)), "pipeline_iteration_info": opt(st.lists(i32, max_size=3))})
INV = [("invocation_name", "InvocationInfo_InvocationName", "S"), ("invocation_line", "InvocationInfo_Line", "S"), ("invocation_offset_in_line", "InvocationInfo_OffsetInLine", "I32"),
       ("invocation_position_message", "InvocationInfo_PositionMessage", "S"), ("invocation_script_name", "InvocationInfo_ScriptName", "S"),
       ("invocation_script_line_number", "InvocationInfo_ScriptLineNumber", "I32"), ("invocation_history_id", "InvocationInfo_HistoryId", "I64"),
       ("invocation_pipeline_length", "InvocationInfo_PipelineLength", "I32"), ("invocation_pipeline_position", "InvocationInfo_PipelinePosition", "I32"),
       ("invocation_expecting_input", "InvocationInfo_ExpectingInput", "B"), ("command_definition", "CommandInfo_Definition", "S"), ("command_name", "CommandInfo_Name", "S")]
CT = [("Alias", 1), ("Function", 2), ("Filter", 4), ("Cmdlet", 8), ("ExternalScript", 16), ("Application", 32), ("Script", 64), ("Workflow", 128), ("Configuration", 256)]


def ct_text(v):
    return "All" if v == 511 else ", ".join(n for n, b in CT if v & b)


GENERIC_LIST = ["System.Collections.Generic.List`1[[System.Object, mscorlib]]", "System.Object"]


def inv_ms(f, iter_name):
    """fields -> note properties of the wire"""
    ms = []
    for attr, n, tag in INV:
        if f[attr] is not None:
            ms.append((n, (tag, f[attr])))
    if f["invocation_command_origin"] is not None:
        v = f["invocation_command_origin"]
        ms.append(("InvocationInfo_CommandOrigin", psrp.enum("System.Management.Automation.CommandOrigin", ["Runspace", "Internal"][v], v)))
    if f["command_type"] is not None:
        ms.append(("CommandInfo_CommandType", psrp.enum("System.Management.Automation.CommandTypes", ct_text(f["command_type"]), f["command_type"])))
    if f["command_visibility"] is not None:
        v = f["command_visibility"]
        ms.append(("CommandInfo_Visibility", psrp.enum("System.Management.Automation.SessionStateEntryVisibility", ["Public", "Private"][v], v)))
    if f["invocation_bound_parameters"] is not None:
        ms.append(("InvocationInfo_BoundParameters", ("dct", ["System.Management.Automation.PSBoundParametersDictionary", "System.Object"],
                                                      [(("S", k), ("I32", v)) for k, v in f["invocation_bound_parameters"].items()])))
    if f["invocation_unbound_arguments"] is not None:
        ms.append(("InvocationInfo_UnboundArguments", ("lst", GENERIC_LIST, [("S", v) for v in f["invocation_unbound_arguments"]])))
    if f["invocation_pipeline_iteration_info"] is not None:
        ms.append(("InvocationInfo_PipelineIterationInfo", ("lst", ["System.Int32[]", "System.Array", "System.Object"], [("I32", v) for v in f["invocation_pipeline_iteration_info"]])))
    if f["pipeline_iteration_info"] is not None:
        ms.append((iter_name, ("lst", ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib]]", "System.Object"], [("I32", v) for v in f["pipeline_iteration_info"]])))
    return ms


def inv_check(o, f, what):
    for k, v in f.items():
        got = getattr(o, k)
        if k in ("invocation_command_origin", "command_type", "command_visibility"):
            if v is None:
                require(got is None, "%s.%s is %r, nothing was sent", what, k, got)
            else:
                eq(got.value, v, "%s.%s" % (what, k))
        else:
            eq(got, v, "%s.%s" % (what, k))


err_fields = st.fixed_dictionaries({"fq_error": text, "category": st.integers(0, 31), "activity": opt(text), "reason": opt(text), "target_name": opt(text), "target_type": opt(text), "message": opt(text),
                                    "details_message": opt(text), "action": opt(text), "script_stacktrace": opt(text), "target_object": opt(leaf), "invocation": st.booleans(), "tostring": opt(text),
                                    "exc": opt(text), "inv": opt(inv_fields), "info": st.none() | st.tuples(st.booleans(), st.dictionaries(gens.ident(5), leaf, max_size=2), st.booleans()), "target_exc": st.booleans(), "shuffle": st.integers(0, 5)})
ERR = [("fq_error", "FullyQualifiedErrorId"), ("activity", "ErrorCategory_Activity"), ("reason", "ErrorCategory_Reason"), ("target_name", "ErrorCategory_TargetName"),
       ("target_type", "ErrorCategory_TargetType"), ("message", "ErrorCategory_Message"), ("details_message", "ErrorDetails_Message"), ("action", "ErrorDetails_RecommendedAction"),
       ("script_stacktrace", "ErrorDetails_ScriptStackTrace")]


def err_spec(f):
    ms = [(n, ("S", f[a])) for a, n in ERR if f[a] is not None]
    ms += [("ErrorCategory_Category", ("I32", f["category"])), ("SerializeExtendedInfo", ("B", f["invocation"]))]
    exc = None
    if f["exc"] is not None:
        exc = psrp.obj(types=["System.Exception", "System.Object"], tostring=f["exc"], props=[("Message", ("S", f["exc"]))])
        ms.append(("Exception", ("same", exc)))
    if f.get("target_exc") and exc is not None:
        ms.append(("TargetObject", ("same", exc)))
    elif f["target_object"] is not None:
        ms.append(("TargetObject", f["target_object"]))
    if f.get("info") is not None:
        typed, members, again = f["info"]
        info = psrp.obj(types=["System.Management.Automation.InvocationInfo", "System.Object"] if typed else [], props=sorted(members.items()))
        ms.append(("InvocationInfo", ("same", exc) if again and exc is not None else info))
    if f["inv"]:
        ms += inv_ms(f["inv"], "PipelineIterationInfo")
    k = f["shuffle"] % len(ms)
    return psrp.obj(ms[k:] + ms[:k], types=["System.Management.Automation.ErrorRecord", "System.Object"], tostring=f["tostring"])


def err_check(o, f, what):
    require(isinstance(o, co.ErrorRecord) or hasattr(o, "fq_error"), "%s decodes as %r", what, type(o))
    for a, _ in ERR:
        eq(getattr(o, a), f[a], "%s.%s" % (what, a))
    eq(o.category, f["category"], what + ".category")
    eq(o.invocation, f["invocation"], what + ".invocation")
    eq(o.extended_info_present, f["invocation"], what + ".extended_info_present")
    if f.get("target_exc") and f["exc"] is not None:
        require(o.target_object is o.exception, "%s.target_object is %r, the server sent a reference to the exception", what, o.target_object)
    else:
        eq(o.target_object, None if f["target_object"] is None else py(f["target_object"]), what + ".target_object")
    info = f.get("info")
    if info is None:
        require(o.invocation_info is None, "%s.invocation_info is %r", what, o.invocation_info)
    elif info[2] and f["exc"] is not None:
        require(o.invocation_info is o.exception, "%s.invocation_info is %r, the server sent a reference", what, o.invocation_info)
    else:
        eq(dict(o.invocation_info.adapted_properties), {k: py(v) for k, v in info[1].items()}, what + ".invocation_info")
    if f["tostring"] is not None:
        eq(str(o), f["tostring"], "text of " + what)
    if f["exc"] is not None:
        eq(o.exception.adapted_properties["Message"], f["exc"], what + ".exception.Message")
        eq(str(o.exception), f["exc"], "text of the exception")
    else:
        require(o.exception is None, "%s.exception is %r", what, o.exception)
    if f["inv"]:
        inv_check(o, f["inv"], what)


DT = st.sampled_from(["2020-01-02T03:04:05.6789012Z", "1999-12-31T23:59:59Z", "2018-03-12T10:00:00.1-05:00"])
HM = psrp.HOST_METHODS

# --- what the server sends: name -> (strategy of fields, spec, check)
SRV = {
    "SESSION_CAPABILITY": (st.fixed_dictionaries({"p": version, "ps": version, "s": version, "tz": opt(st.binary(min_size=1, max_size=20))}),
        lambda f: psrp.obj([("protocolversion", ("Version", f["p"])), ("PSVersion", ("Version", f["ps"])), ("SerializationVersion", ("Version", f["s"]))] + ([("TimeZone", ("BA", f["tz"]))] if f["tz"] else [])),
        lambda o, f: (eq(o.protocol_version, f["p"], "protocol version"), eq(o.ps_version, f["ps"], "PSVersion"), eq(o.serialization_version, f["s"], "SerializationVersion"), eq(o.time_zone, f["tz"], "time zone"))),
    "APPLICATION_PRIVATE_DATA": (st.dictionaries(gens.ident(6), value, max_size=4),
        lambda f: psrp.app_private_data(f.items()), lambda o, f: eq(o.data, {k: py(v) for k, v in f.items()}, "application private data")),
    "RUNSPACEPOOL_INIT_DATA": (st.tuples(i32, i32), lambda f: psrp.init_data(*f), lambda o, f: (eq(o.min_runspaces, f[0], "min"), eq(o.max_runspaces, f[1], "max"))),
    "ENCRYPTED_SESSION_KEY": (text, lambda f: psrp.encrypted_session_key(f), lambda o, f: eq(o.session_key, f, "session key")),
    "PUBLIC_KEY_REQUEST": (st.just(""), lambda f: ("S", ""), lambda o, f: require(isinstance(o, pm.PublicKeyRequest), "decodes as %r", o)),
    "RUNSPACE_AVAILABILITY": (st.tuples(i64, st.one_of(st.booleans(), i64)), lambda f: psrp.availability(*f), lambda o, f: (eq(o.ci, f[0], "ci"), eq(o.response, f[1], "response"))),
    "RUNSPACEPOOL_STATE": (st.tuples(st.integers(0, 8), opt(err_fields)), lambda f: psrp.pool_state(f[0], err_spec(f[1]) if f[1] else None),
        lambda o, f: (eq(o.state, f[0], "state"), err_check(o.error_record, f[1], "error record") if f[1] else require(o.error_record is None, "error record %r", o.error_record))),
    "PIPELINE_STATE": (st.tuples(st.integers(0, 6), opt(err_fields)), lambda f: psrp.pipeline_state(f[0], err_spec(f[1]) if f[1] else None),
        lambda o, f: (eq(o.state, f[0], "state"), err_check(o.error_record, f[1], "error record") if f[1] else require(o.error_record is None, "error record %r", o.error_record))),
    "USER_EVENT": (st.fixed_dictionaries({"id": i32, "src": text, "t": DT, "sender": value, "args": value, "data": value, "pc": opt(text), "rid": uuids}),
        lambda f: psrp.obj([("PSEventArgs.EventIdentifier", ("I32", f["id"])), ("PSEventArgs.SourceIdentifier", ("S", f["src"])), ("PSEventArgs.TimeGenerated", ("DT", f["t"])), ("PSEventArgs.Sender", f["sender"]),
                            ("PSEventArgs.SourceArgs", f["args"]), ("PSEventArgs.MessageData", f["data"]), ("PSEventArgs.ComputerName", psrp.S(f["pc"])), ("PSEventArgs.RunspaceId", ("G", f["rid"]))]),
        lambda o, f: (eq(o.event_id, f["id"], "event id"), eq(o.source_id, f["src"], "source"), eq(o.time, f["t"], "time"), eq(o.sender, py(f["sender"]), "sender"), eq(o.args, py(f["args"]), "args"),
                      eq(o.data, py(f["data"]), "data"), eq(o.computer, f["pc"], "computer"), require(uuid.UUID(str(o.runspace_id)) == uuid.UUID(f["rid"]), "runspace id %r", o.runspace_id))),
    "PIPELINE_OUTPUT": (value, lambda f: f, lambda o, f: eq(o.data, py(f), "output")),
    "ERROR_RECORD": (err_fields, err_spec, lambda o, f: err_check(o, f, "error")),
    "PROGRESS_RECORD": (st.fixed_dictionaries({"a": text, "i": i32, "s": opt(text), "op": opt(text), "par": i32, "pc": i32, "t": st.integers(0, 1), "sec": i32}),
        lambda f: psrp.progress(f["a"], f["i"], f["s"], f["op"], f["par"], f["pc"], f["t"], f["sec"]),
        lambda o, f: (eq(o.activity, f["a"], "activity"), eq(o.activity_id, f["i"], "activity id"), eq(o.description, f["s"], "description"), eq(o.current_operation, f["op"], "operation"),
                      eq(o.parent_activity_id, f["par"], "parent"), eq(o.percent_complete, f["pc"], "percent"), eq(o.progress_type.value, f["t"], "type"), eq(o.seconds_remaining, f["sec"], "seconds"))),
    "INFORMATION_RECORD": (st.fixed_dictionaries({"d": value, "s": opt(text), "tags": strs, "u": opt(text), "c": opt(text), "p": st.integers(0, 2**32 - 1), "n": st.integers(0, 2**32 - 1), "m": st.integers(0, 2**32 - 1)}),
        lambda f: psrp.information(f["d"], f["s"], f["tags"], f["u"], f["c"], f["p"], f["n"], f["m"]),
        lambda o, f: (eq(o.message_data, py(f["d"]), "message data"), eq(o.source, f["s"], "source"), eq(o.tags, f["tags"], "tags"), eq(o.user, f["u"], "user"), eq(o.computer, f["c"], "computer"),
                      eq(o.pid, f["p"], "process id"), eq(o.native_thread_id, f["n"], "native thread id"), eq(o.managed_thread_id, f["m"], "managed thread id"), eq(o.time_generated, "2020-01-02T03:04:05.6789012Z", "time"))),
}
for _k in ("Debug", "Verbose", "Warning"):
    SRV[_k.upper() + "_RECORD"] = (
        st.fixed_dictionaries({"m": opt(text), "inv": st.booleans(), "f": opt(inv_fields), "shuffle": st.integers(0, 5)}),
        lambda f, k=_k: (lambda ms: psrp.obj(ms[f["shuffle"] % len(ms):] + ms[: f["shuffle"] % len(ms)], types=["System.Management.Automation.%sRecord" % k, "System.Management.Automation.InformationalRecord", "System.Object"], tostring=f["m"]))(
            [("InformationalRecord_Message", psrp.S(f["m"])), ("InformationalRecord_SerializeInvocationInfo", ("B", f["inv"]))] + (inv_ms(f["f"], "InformationalRecord_PipelineIterationInfo") if f["f"] else [])),
        lambda o, f: (eq(o.message, f["m"], "message"), eq(o.invocation, f["inv"], "invocation"), f["f"] and inv_check(o, f["f"], "record")))
for _k in ("RUNSPACEPOOL_HOST_CALL", "PIPELINE_HOST_CALL"):
    SRV[_k] = (st.tuples(i64, st.sampled_from(sorted(HM)), st.lists(value, max_size=3)), lambda f: psrp.host_call(f[0], f[1], HM[f[1]], f[2]),
               lambda o, f: (eq(o.ci, f[0], "call id"), eq(o.mi.value, f[1], "method id"), eq(o.mp, [py(v) for v in f[2]], "parameters")))

decode_case = st.sampled_from(sorted(SRV)).flatmap(lambda n: st.tuples(st.just(n), SRV[n][0], uuids, st.one_of(st.none(), uuids), st.booleans(), st.booleans(), st.integers(0, 3)))
CLS = {"SESSION_CAPABILITY": "SessionCapability", "APPLICATION_PRIVATE_DATA": "ApplicationPrivateData", "RUNSPACEPOOL_INIT_DATA": "RunspacePoolInitData", "ENCRYPTED_SESSION_KEY": "EncryptedSessionKey",
       "PUBLIC_KEY_REQUEST": "PublicKeyRequest", "RUNSPACE_AVAILABILITY": "RunspaceAvailability", "RUNSPACEPOOL_STATE": "RunspacePoolStateMessage", "PIPELINE_STATE": "PipelineState", "USER_EVENT": "UserEvent",
       "PIPELINE_OUTPUT": "PipelineOutput", "ERROR_RECORD": "ErrorRecordMessage", "PROGRESS_RECORD": "ProgressRecord", "INFORMATION_RECORD": "InformationRecord", "DEBUG_RECORD": "DebugRecord",
       "VERBOSE_RECORD": "VerboseRecord", "WARNING_RECORD": "WarningRecord", "RUNSPACEPOOL_HOST_CALL": "RunspacePoolHostCall", "PIPELINE_HOST_CALL": "PipelineHostCall"}


def check_decode(case):
    name, f, rpid, pid, bom, selfclose, first = case
    _, spec, chk = SRV[name]
    xml = rc.write(spec(f), self_close=selfclose, first_ref=first)
    data = psrp.pack(name, rpid, pid, xml, psrp.CLIENT, bom)
    m = pm.Message.unpack(data, Serializer())
    same(m.destination, psrp.CLIENT, "destination")
    same(m.message_type, psrp.MT[name], "message type")
    same(str(m.rpid).lower(), rpid, "pool id")
    same(str(m.pid).lower(), pid or psrp.EMPTY, "pipeline id")
    same(type(m.data).__name__, CLS[name], "class of the message")
    chk(m.data, f)
    return Info(bool(f), [name] + (["bom"] if bom else []) + ([] if pid else ["no pipeline"]))


# --- what the client sends: name -> (strategy, make, expected plain body)
def P(spec):
    return rc.plain(rc.read(rc.write(spec)))


def E(name, t, v):
    return psrp.enum(name, t, v)


TO = {0: "Default", 1: "UseNewThread", 2: "ReuseThread", 3: "UseCurrentThread"}
AS = {0: "STA", 1: "MTA", 2: "UNKNOWN"}
RSO = [("AddInvocationInfoToErrorRecord", 1), ("AddInvocationInfoToWarningRecord", 2), ("AddInvocationInfoToDebugRecord", 4), ("AddInvocationInfoToVerboseRecord", 8)]


def rso_text(v):
    return "AddInvocationInfo" if v == 15 else ", ".join(n for n, b in RSO if v & b)


def host_null():
    return psrp.obj([("_isHostNull", ("B", True)), ("_isHostUINull", ("B", True)), ("_isHostRawUINull", ("B", True)), ("_useRunspaceHost", ("B", True))])


MI = "System.Management.Automation.Remoting.RemoteHostMethodId"
PUBLIC = gens.ident(30)


def resp_spec(f):
    ms = [("ci", ("I64", f["ci"])), ("mi", E(MI, HM[f["mi"]], f["mi"])), ("mr", f["mr"])]
    if f["me"] is not None:
        e = f["me"]
        em = [("SerializeExtendedInfo", ("B", False)), ("FullyQualifiedErrorId", ("S", e["fq"])), ("ErrorCategory_Category", ("I32", e["cat"]))]
        em += [(n, ("S", e[a])) for a, n in [("reason", "ErrorCategory_Reason"), ("message", "ErrorCategory_Message"), ("script_stacktrace", "ErrorDetails_ScriptStackTrace")] if e[a] is not None]
        if e["target"] is not None:
            em.append(("TargetObject", e["target"]))
        ms.append(("me", psrp.obj(em, types=["System.Management.Automation.ErrorRecord", "System.Object"])))
    return psrp.obj(ms)


def resp_make(cls):
    def make(f):
        e = f["me"]
        if e is not None:
            e = co.ErrorRecord(fq_error=e["fq"], category=e["cat"], reason=e["reason"], message=e["message"], script_stacktrace=e["script_stacktrace"], target_object=None if e["target"] is None else py(e["target"]))
        return cls(ci=f["ci"], mi=co.HostMethodIdentifier(value=f["mi"]), mr=py(f["mr"]), me=e)

    return make


sleaf = st.one_of(st.tuples(st.just("S"), text), st.tuples(st.just("I32"), i32), st.tuples(st.just("B"), st.booleans()), st.tuples(st.just("BA"), st.binary(max_size=12)))
resp_fields = st.fixed_dictionaries({"ci": i64, "mi": st.sampled_from(sorted(HM)), "mr": st.one_of(sleaf, st.just(("Nil",))),
                                     "me": opt(st.fixed_dictionaries({"fq": text, "cat": st.integers(0, 31), "reason": opt(text), "message": opt(text), "script_stacktrace": opt(text), "target": opt(sleaf)}))})
pipeline_fields = st.fixed_dictionaries({"no_input": st.booleans(), "ap": st.integers(0, 2), "rso": st.integers(0, 15), "hist": st.booleans(), "nested": st.booleans(), "script": text, "isn": st.booleans()})


def pipeline_make(f):
    c = co.Command(protocol_version="2.3", cmd=f["script"], is_script=True, use_local_scope=None)
    c.end_of_statement = True
    p = co.Pipeline(is_nested=f["isn"], cmds=[c], history=None, redirect_err_to_out=False)
    return pm.CreatePipeline(no_input=f["no_input"], apartment_state=co.ApartmentState(value=f["ap"]), remote_stream_options=co.RemoteStreamOptions(value=f["rso"]), add_to_history=f["hist"],
                             host_info=co.HostInfo(host=None), pipeline=p, is_nested=f["nested"])


def strip_ps(d):
    """keep only the parts of a CreatePipeline this property is about (C23 decides the pipeline itself)"""
    ps = d["ms"]["PowerShell"]["ms"]
    cmds = ps["Cmds"]["items"]
    d["ms"]["PowerShell"] = (ps["IsNested"], [c["ms"]["Cmd"] for c in cmds], [c["ms"]["IsScript"] for c in cmds])
    return d


CLI = {
    "SESSION_CAPABILITY": (st.fixed_dictionaries({"p": version, "ps": version, "s": version, "tz": opt(st.binary(min_size=1, max_size=20))}),
        lambda f: pm.SessionCapability(f["p"], f["ps"], f["s"], time_zone=f["tz"]), lambda f: P(SRV["SESSION_CAPABILITY"][1](f))),
    "INIT_RUNSPACEPOOL": (st.fixed_dictionaries({"lo": i32, "hi": i32, "to": st.integers(0, 3), "ap": st.integers(0, 2), "args": opt(st.dictionaries(gens.ident(5), sleaf, max_size=3))}),
        lambda f: pm.InitRunspacePool(f["lo"], f["hi"], co.PSThreadOptions(value=f["to"]), co.ApartmentState(value=f["ap"]), co.HostInfo(host=None), {k: py(v) for k, v in f["args"].items()} if f["args"] is not None else None),
        lambda f: P(psrp.obj([("MinRunspaces", ("I32", f["lo"])), ("MaxRunspaces", ("I32", f["hi"])), ("PSThreadOptions", E("System.Management.Automation.Runspaces.PSThreadOptions", TO[f["to"]], f["to"])),
                              ("ApartmentState", E("System.Management.Automation.Runspaces.ApartmentState", AS[f["ap"]], f["ap"])), ("HostInfo", host_null()),
                              ("ApplicationArguments", ("Nil",) if f["args"] is None else ("dct", psrp.PRIMDICT, [(("S", k), v) for k, v in f["args"].items()]))]))),
    "PUBLIC_KEY": (PUBLIC, lambda f: pm.PublicKey(f), lambda f: P(psrp.obj([("PublicKey", ("S", f))]))),
    "CONNECT_RUNSPACEPOOL": (st.one_of(st.none(), st.tuples(opt(i32), opt(i32))), lambda f: pm.ConnectRunspacePool(*(f or ())),
        lambda f: P(("S", "")) if f is None or f == (None, None) else P(psrp.obj([(n, ("I32", v)) for n, v in zip(("MinRunspaces", "MaxRunspaces"), f) if v is not None]))),
    "RESET_RUNSPACE_STATE": (i64, lambda f: pm.ResetRunspaceState(f), lambda f: P(psrp.obj([("ci", ("I64", f))]))),
    "SET_MAX_RUNSPACES": (st.tuples(i32, i64), lambda f: pm.SetMaxRunspaces(*f), lambda f: P(psrp.obj([("MaxRunspaces", ("I32", f[0])), ("CI", ("I64", f[1]))]))),
    "SET_MIN_RUNSPACES": (st.tuples(i32, i64), lambda f: pm.SetMinRunspaces(*f), lambda f: P(psrp.obj([("MinRunspaces", ("I32", f[0])), ("CI", ("I64", f[1]))]))),
    "GET_AVAILABLE_RUNSPACES": (i64, lambda f: pm.GetAvailableRunspaces(f), lambda f: P(psrp.obj([("ci", ("I64", f))]))),
    "GET_COMMAND_METADATA": (st.fixed_dictionaries({"n": st.lists(text, min_size=1, max_size=3), "ct": st.integers(1, 511), "ns": opt(strs), "al": opt(st.lists(sleaf, max_size=3))}),
        lambda f: pm.GetCommandMetadata(list(f["n"]), co.CommandType(value=f["ct"]), None if f["ns"] is None else list(f["ns"]), None if f["al"] is None else [py(v) for v in f["al"]]),
        lambda f: P(psrp.obj([("Name", ("lst", ["System.String[]", "System.Array", "System.Object"], [("S", n) for n in f["n"]])), ("CommandType", E("System.Management.Automation.CommandTypes", ct_text(f["ct"]), f["ct"])),
                              ("Namespace", ("Nil",) if f["ns"] is None else ("lst", ["System.Object[]", "System.Array", "System.Object"], [("S", n) for n in f["ns"]])),
                              ("ArgumentList", ("Nil",) if f["al"] is None else ("lst", ["System.Object[]", "System.Array", "System.Object"], list(f["al"])))]))),
    "PIPELINE_INPUT": (sleaf, lambda f: pm.PipelineInput(py(f)), lambda f: P(f)),
    "END_OF_PIPELINE_INPUT": (st.just(None), lambda f: pm.EndOfPipelineInput(), lambda f: None),
    "RUNSPACEPOOL_HOST_RESPONSE": (resp_fields, resp_make(pm.RunspacePoolHostResponse), lambda f: P(resp_spec(f))),
    "PIPELINE_HOST_RESPONSE": (resp_fields, resp_make(pm.PipelineHostResponse), lambda f: P(resp_spec(f))),
    "CREATE_PIPELINE": (pipeline_fields, pipeline_make,
        lambda f: strip_ps(P(psrp.obj([("NoInput", ("B", f["no_input"])), ("ApartmentState", E("System.Management.Automation.Runspaces.ApartmentState", AS[f["ap"]], f["ap"])),
                                       ("RemoteStreamOptions", E("System.Management.Automation.Runspaces.RemoteStreamOptions", rso_text(f["rso"]), f["rso"])), ("AddToHistory", ("B", f["hist"])), ("HostInfo", host_null()),
                                       ("PowerShell", psrp.obj([("IsNested", ("B", f["isn"])), ("Cmds", ("lst", ["x"], [psrp.obj([("Cmd", ("S", f["script"])), ("IsScript", ("B", True))])]))])), ("IsNested", ("B", f["nested"]))])))),
}
encode_case = st.sampled_from(sorted(CLI)).flatmap(lambda n: st.tuples(st.just(n), CLI[n][0], uuids, st.one_of(st.none(), uuids), st.sampled_from([1, 2])))


def check_encode(case):
    name, f, rpid, pid, dest = case
    _, make, want = CLI[name]
    data = pm.Message(dest, rpid, pid, make(f), Serializer()).pack()
    require(isinstance(data, bytes), "pack gives %s", type(data).__name__)
    same(struct.unpack_from("<II", data), (dest, psrp.MT[name]), "destination and type")
    same(data[8:24], uuid.UUID(rpid).bytes_le, "pool id")
    same(data[24:40], uuid.UUID(pid or psrp.EMPTY).bytes_le, "pipeline id")
    body = want(f)
    m = psrp.unpack(data)
    if body is None:
        same(m.xml, "", "body")
    else:
        got = rc.plain(m.node())
        if name == "CREATE_PIPELINE":
            got = strip_ps(got)
        if got != body:
            fail("body of %s: got %s\nwant %s", name, clip(got, 1500), clip(body, 1500))
    return Info(f is not None, [name])


# --- what the library packs, it unpacks
RT = {
    "SESSION_CAPABILITY": ("protocol_version", "ps_version", "serialization_version", "time_zone"), "PUBLIC_KEY": ("public_key",), "SET_MAX_RUNSPACES": ("max_runspaces", "ci"), "SET_MIN_RUNSPACES": ("min_runspaces", "ci"),
    "GET_AVAILABLE_RUNSPACES": ("ci",), "RESET_RUNSPACE_STATE": ("ci",), "GET_COMMAND_METADATA": ("names", "namespace", "argument_list"), "PIPELINE_INPUT": ("data",), "RUNSPACEPOOL_HOST_RESPONSE": ("ci", "mr"),
    "PIPELINE_HOST_RESPONSE": ("ci", "mr"),
}
round_case = st.sampled_from(sorted(RT)).flatmap(lambda n: st.tuples(st.just(n), CLI[n][0], uuids, st.one_of(st.none(), uuids)))


def check_round(case):
    name, f, rpid, pid = case
    o = CLI[name][1](f)
    data = pm.Message(2, rpid, pid, o, Serializer()).pack()
    m = pm.Message.unpack(data, Serializer())
    same((m.destination, m.message_type, str(m.rpid), str(m.pid)), (2, psrp.MT[name], rpid, pid or psrp.EMPTY), "header")
    same(type(m.data), type(o), "class")
    for a in RT[name]:
        eq(getattr(m.data, a), norm(getattr(o, a)), a)
    return Info(True, [name])


# --- what the server sends, sent on or made by the caller: records are objects like any other
RECORD = {"ERROR_RECORD": ["ErrorRecord"], "INFORMATION_RECORD": ["InformationRecord"]}
RECORD.update({k + "_RECORD": [k.capitalize() + "Record", "InformationalRecord"] for k in ("DEBUG", "VERBOSE", "WARNING")})
RESEND = [n for n in SRV if n not in ("PUBLIC_KEY_REQUEST", "PIPELINE_OUTPUT", "RUNSPACEPOOL_STATE")]
resend_case = st.sampled_from(sorted(RESEND) + 2 * sorted(RECORD)).flatmap(lambda n: st.tuples(st.just(n), SRV[n][0], uuids, st.booleans()))


def rebuild(o):
    """The same object made by its constructor."""
    ps = inspect.signature(type(o).__init__).parameters
    names = [n for n, p in ps.items() if n != "self" and p.kind == p.POSITIONAL_OR_KEYWORD]
    if any(p.kind == p.VAR_KEYWORD for p in ps.values()):
        names += [n for n in vars(o) if n[0] != "_" and n not in names]
    return type(o)(**{n: getattr(o, n) for n in names if hasattr(o, n)})


def check_resend(case):
    name, f, rpid, made = case
    chk = SRV[name][2]
    o = pm.Message.unpack(psrp.pack(name, rpid, None, rc.write(SRV[name][1](f)), psrp.CLIENT), Serializer()).data
    if made:
        o = rebuild(o)
        if name == "ERROR_RECORD":
            f = dict(f, tostring=None)  # the text is the server's
        elif name == "PIPELINE_STATE" and f[1]:
            o.error_record = rebuild(o.error_record)
            f = (f[0], dict(f[1], tostring=None))
    for again in range(2):
        chk(o, f)
        data = pm.Message(psrp.SERVER, rpid, None, o, Serializer()).pack()
        if name in RECORD and made:
            tn = [t.text for t in ET.fromstring(data[40:].lstrip(b"\xef\xbb\xbf")).find("TN")]
            same(tn, ["System.Management.Automation." + t for t in RECORD[name]] + ["System.Object"], "type names of the %s sent" % name)
        m = pm.Message.unpack(data, Serializer())
        same((m.destination, m.message_type, type(m.data)), (psrp.SERVER, psrp.MT[name], type(o)), "header and class of what is sent")
        chk(m.data, f)
    return Info(bool(f), [name, "made" if made else "sent on"])


unknown_case = st.tuples(st.one_of(st.integers(0, 2**32 - 1), st.sampled_from(sorted(psrp.NAMES)).flatmap(lambda t: st.integers(0, 31).map(lambda b: t ^ (1 << b))),
                                   st.sampled_from([0x00010001, 0x00010003, 0x00010009, 0x00021001, 0x0002100D, 0x00041001, 0x00041012, 0x00041102])).filter(lambda t: t not in psrp.NAMES), uuids, st.booleans())


def check_unknown(case):
    t, rpid, bom = case
    data = psrp.pack(t, rpid, None, rc.write(("S", "x")), psrp.CLIENT, bom)
    try:
        m = pm.Message.unpack(data, Serializer())
    except Exception:
        return Info(True)
    fail("the message type %#x is accepted and read as a %s", t, type(m.data).__name__)


# output of a type the client knows, without members the client wants: it is read as an object of any type
PARTIAL = {"System.Management.Automation.Host.Coordinates": [("X", "I32"), ("Y", "I32")], "System.Management.Automation.Host.Size": [("Width", "I32"), ("Height", "I32")],
           "System.Globalization.CultureInfo": [("LCID", "I32"), ("Name", "S"), ("DisplayName", "S"), ("IetfLanguageTag", "S"), ("ThreeLetterISOLanguageName", "S"), ("ThreeLetterWindowsLanguageName", "S"), ("TwoLetterISOLanguageName", "S")],
           "System.Management.Automation.Host.KeyInfo": [("VirtualKeyCode", "I32"), ("Character", "C"), ("ControlKeyState", "I32"), ("KeyDown", "B")],
           "System.Management.Automation.PSCredential": [("UserName", "S"), ("Password", "S")], "System.Management.Automation.ErrorRecord": []}


def partial_cases():
    from props import c04

    def of(t):
        known = PARTIAL[t]
        mine = st.lists(st.sampled_from(known), unique=True, max_size=len(known) - 1) if known else st.just([])
        val = {"I32": i32, "S": text, "B": st.booleans(), "C": st.characters(min_codepoint=32, max_codepoint=126)}
        mine = mine.flatmap(lambda l: st.tuples(*[st.tuples(st.just(n), st.tuples(st.just(k), val[k])) for n, k in l]).map(list))
        more = st.lists(st.tuples(gens.ident(5).map(lambda n: "my" + n), c04.trees(5)), max_size=3, unique_by=lambda kv: kv[0])
        return st.fixed_dictionaries({"types": st.just([t, "System.Object"]), "tostring": st.none() | text, "props": st.tuples(mine, more).map(lambda p: p[0] + p[1]), "ms": more}).map(lambda d: dict(d, value=None))

    bag = st.sampled_from(sorted(PARTIAL)).flatmap(of)
    style = st.tuples(st.booleans(), st.booleans(), st.sampled_from([0, 0, 3, 17]), st.booleans())
    return st.tuples(bag.map(lambda d: ("obj", d)), st.lists(st.integers(0, 30), min_size=1, max_size=6), style, st.just(False), st.just(False)).map(c04.add_refs)


def check_partial(case):
    from props import c04

    spec, (raw, upper, first, sc), _, _ = case
    doc = rc.Writer(astral_raw=raw, upper=upper, first_ref=first, self_close=sc).write(spec)
    ser = Serializer()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = pm.Message.unpack(psrp.pack("PIPELINE_OUTPUT", str(uuid.UUID(int=7)), str(uuid.UUID(int=9)), doc, psrp.CLIENT, False), ser)
        c = c04.Cmp()
        c.go(spec, m.data.data, "output")
        # and the next message is read as if nothing had happened
        full = rc.write(("obj", {"types": ["System.Management.Automation.Host.Coordinates", "System.ValueType", "System.Object"], "props": [("X", ("I32", 3)), ("Y", ("I32", 4))]}), first_ref=first)
        o = pm.Message.unpack(psrp.pack("PIPELINE_OUTPUT", str(uuid.UUID(int=7)), str(uuid.UUID(int=9)), full, psrp.CLIENT, False), ser).data.data
    require(type(o) is co.Coordinates and (o.x, o.y) == (3, 4), "the message after it is read as %s", clip(o))
    return Info(True, [spec[1]["types"][0].split(".")[-1]] + sorted(c.labels & c04.INTERESTING))


SUBS = [
    Sub("partial", lambda: partial_cases(), check_partial, quick=250, thorough=8000, tshards=2),
    Sub("decode", lambda: decode_case, check_decode, quick=1500, thorough=30000, qshards=2, tshards=8),
    Sub("encode", lambda: encode_case, check_encode, quick=1200, thorough=20000, qshards=2, tshards=4),
    Sub("roundtrip", lambda: round_case, check_round, quick=400, thorough=8000, tshards=2),
    Sub("resend", lambda: resend_case, check_resend, quick=500, thorough=8000, qshards=2, tshards=4),
    Sub("unknown", lambda: unknown_case, check_unknown, quick=300, thorough=3000, tshards=1),
]
