"""C32: command metadata, events and warnings of a pool reach the caller complete and in order."""
import base64
import struct
import warnings

from cryptography.hazmat.primitives.asymmetric import padding, rsa
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import wire
from core import Info, Sub, clip, fail, require, same
from props import c04, c21, c31
from pypsrp.complex_objects import CommandType, RunspacePoolState
from pypsrp.exceptions import InvalidPSRPOperation, WinRMError
from pypsrp.powershell import PowerShell, RunspacePool, RunspacePoolWarning

PROPERTY = "C32"
RULE = ("metadata: one to three queries for command metadata on a pool, with generated patterns, types, namespaces and arguments, answered with generated commands (or a failure before or after some of them), records "
        "of other streams between, cut and delivered in generated pieces; pipelines before and after. pool: events with generated values and warnings of the server mixed with the answers to limit and availability "
        "requests, beside running pipelines and requests of the server for the key of secure strings. Non-trivial: at least one command or a failure (metadata), at least two events or warnings (pool).")

patterns = st.lists(gens.choose(st.sampled_from(["*", "Get-*", "Out-String", "[a-z]*", "", "Get-A,Get-B", "m\\x;y z"]), gens.text(8)), min_size=1, max_size=3)
query = st.fixed_dictionaries({
    "names": patterns, "single": st.booleans(), "types": st.none() | st.integers(1, 511), "namespace": st.none() | patterns,
    "arguments": st.none() | st.lists(st.one_of(gens.text(6).map(lambda v: ("S", v)), st.integers(-9, 9).map(lambda v: ("I32", v)), st.booleans().map(lambda v: ("B", v))), max_size=3),
    "commands": st.lists(c31.fields("CommandMetadata"), max_size=4), "tostring": st.none() | gens.text(6), "extra": st.booleans(), "order": st.lists(st.floats(0, 1), min_size=24, max_size=24),
    "end": gens.choose(st.just(("ok",)), st.just(("ok",)), st.tuples(st.sampled_from(["failed", "stopped"]), gens.xtext(12).filter(bool), st.integers(0, 6))), "noise": st.lists(st.integers(0, 3), max_size=3),
    "kind": st.sampled_from(["Selected.System.Management.Automation.CmdletInfo", "Selected.System.Management.Automation.FunctionInfo", "Deserialized.Selected.System.Management.Automation.CmdletInfo"])})
cases = st.fixed_dictionaries({"queries": st.lists(query, min_size=1, max_size=3), "plan": c21.plans, "between": st.booleans()})
COUNT = ["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Management.Automation.PSCustomObject", "System.Object"]
NOISE = [("WARNING_RECORD", psrp.informational("Warning", "noise")), ("VERBOSE_RECORD", psrp.informational("Verbose", "noise")), ("ERROR_RECORD", psrp.error_record("noise")),
         ("PROGRESS_RECORD", psrp.progress("noise"))]


class Srv(server.Server):
    query = None
    seen = None

    def run_pipeline(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "fine")))

    def on_GET_COMMAND_METADATA(self, sh, c, m):
        q = self.query
        self.seen.append(m.node())
        out = [("PIPELINE_OUTPUT", psrp.obj([("Count", ("I32", len(q["commands"])))], types=COUNT))]
        for v in q["commands"]:
            kind, d = c31.spec_of("CommandMetadata", v, dict(q, types="plain", missing=False))
            out.append(("PIPELINE_OUTPUT", (kind, dict(d, types=[q["kind"], "System.Management.Automation.PSCustomObject", "System.Object"]))))
        err = None
        state = 4
        if q["end"][0] != "ok":
            out = out[:q["end"][2]]
            state = {"failed": 5, "stopped": 3}[q["end"][0]]
            err = psrp.error_record(q["end"][1])
        else:
            for i, n in enumerate(q["noise"]):
                out.insert((i * 2 + n) % (len(out) + 1), NOISE[n])
        self.finish(sh, c, *out, state=state, err=err)


def plain(n):
    return [(i.tag, i.value) for i in n.items] if getattr(n, "container", None) else (n.tag, n.value)


def check_metadata(case):
    srv = Srv(case["plan"])
    srv.max_frags = 40
    srv.seen = []
    labels = set()
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman())
        pool.open()

        def run():
            ps = PowerShell(pool)
            ps.add_script("x")
            same(ps.invoke(), ["fine"], "output of a pipeline")
            ps.close()

        for q in case["queries"]:
            srv.query = q
            del srv.seen[:]
            names = q["names"][:1] if q["single"] else q["names"]
            kw = {k: v for k, v in (("command_types", q["types"]), ("namespace", q["namespace"] and list(q["namespace"])), ("arguments", None if q["arguments"] is None else [v for _, v in q["arguments"]])) if v is not None}
            try:
                got = pool.get_command_metadata(names[0] if q["single"] else list(names), **kw)
            except WinRMError as e:
                require(q["end"][0] != "ok", "getting the metadata of commands raises %r, the server sent it", e)
                if q["end"][0] == "failed":
                    require(q["end"][1] in str(e), "the error %s of a failed query does not carry the error of the server (%s)", clip(str(e)), clip(q["end"][1]))
                labels.add("failed")
            else:
                require(q["end"][0] == "ok", "a query that %s returns %d commands and no error", q["end"][0], len(got))
                same(len(got), len(q["commands"]), "commands")
                for i, (v, o) in enumerate(zip(q["commands"], got)):
                    c31.compare("CommandMetadata", v, o, "command %d" % i)
                if got:
                    labels.add("commands")
            same(len(srv.seen), 1, "queries the server got")
            n = srv.seen[0]
            same(plain(n.prop("Name")), [("S", x) for x in names], "patterns of the query")
            ct = n.prop("CommandType")
            same(ct.sets[0].value if hasattr(ct, "sets") else ct.value, CommandType.ALL if q["types"] is None else q["types"], "command types of the query")
            same(plain(n.prop("Namespace")), ("Nil", None) if q["namespace"] is None else [("S", x) for x in q["namespace"]], "namespaces of the query")
            same(plain(n.prop("ArgumentList")), ("Nil", None) if q["arguments"] is None else list(q["arguments"]), "arguments of the query")
            same(pool.state, RunspacePoolState.OPENED, "state of the pool after a query")
            if case["between"]:
                run()
        run()
        pool.close()
    return Info(bool(labels), sorted(labels))


# ---------------------------------------------------------------- events and warnings of the pool
value = c04.trees(4).map(c04.fix_typeless)
event = st.tuples(st.just("event"), st.integers(-2**31, 2**31 - 1), gens.text(8), value, value, value)
warning = st.tuples(st.just("warning"), gens.text(12))
said = st.lists(st.one_of(event, event, warning), max_size=3)
# now and then the server asks for the key of secure strings in the middle of them
said_open = st.lists(gens.choose(event, event, event, warning, event, warning, st.just(("key",))), max_size=4)
act = st.sampled_from(["available", "available", "min", "max", "reset", "run"])
pool_cases = st.fixed_dictionaries({"steps": st.lists(st.tuples(act, said_open, said_open), min_size=1, max_size=4), "opening": said, "plan": c21.plans})


class Pool(server.Server):
    before, after = (), ()

    keys = 0

    def on_PUBLIC_KEY(self, sh, c, m):
        self.keys += 1
        blob = base64.b64decode(rc.plain(m.node())["ms"]["PublicKey"][1])
        n = rsa.RSAPublicNumbers(struct.unpack("<I", blob[16:20])[0], int.from_bytes(blob[20:], "little")).public_key()
        self.push(sh, None, ("ENCRYPTED_SESSION_KEY", psrp.encrypted_session_key(base64.b64encode(bytes.fromhex("010200001066000000a40000") + n.encrypt(b"k" * 32, padding.PKCS1v15())[::-1]).decode())))

    def message(self, s):
        if s[0] == "key":
            return ("PUBLIC_KEY_REQUEST", ("S", ""))
        if s[0] == "event":
            return ("USER_EVENT", psrp.user_event(s[1], s[2], s[3], s[4], s[5]))
        return ("WARNING_RECORD", psrp.informational("Warning", s[1]))

    def answer(self, sh, ci, v):
        self.push(sh, None, *([self.message(s) for s in self.before] + [("RUNSPACE_AVAILABILITY", psrp.availability(ci, v))] + [self.message(s) for s in self.after]))

    def opened(self, sh):
        self.push(sh, None, ("SESSION_CAPABILITY", psrp.session_capability(self.proto)), ("APPLICATION_PRIVATE_DATA", psrp.app_private_data(())), *([self.message(s) for s in self.before] + [("RUNSPACEPOOL_STATE", psrp.pool_state(2))]))

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.answer(sh, m.node().prop("ci").value, 3)

    def on_SET_MIN_RUNSPACES(self, sh, c, m):
        self.answer(sh, m.node().prop("CI").value, True)

    on_SET_MAX_RUNSPACES = on_SET_MIN_RUNSPACES

    def on_RESET_RUNSPACE_STATE(self, sh, c, m):
        self.answer(sh, m.node().prop("ci").value, True)

    def run_pipeline(self, sh, c, m):
        self.push(sh, None, *[self.message(s) for s in list(self.before) + list(self.after)])
        self.finish(sh, c, ("WARNING_RECORD", psrp.informational("Warning", "mine")), ("PIPELINE_OUTPUT", ("S", "fine")))


def check_event(s, e):
    same((e.event_id, e.source_id, e.computer, e.time, str(e.runspace_id)), (s[1], s[2], "pc", "2020-01-02T03:04:05Z", "11111111-2222-3333-4444-555555555555"), "event")
    for f, v in (("sender", s[3]), ("args", s[4]), ("data", s[5])):
        c04.Cmp().go(v, getattr(e, f), "%s of the event" % f)


def check_pool(case):
    srv = Pool(case["plan"])
    srv.max_frags = 40
    events, warned, keys = [], [], []

    def note(what):
        for s in what:
            (events if s[0] == "event" else warned if s[0] == "warning" else keys).append(s)

    with wire.wire(srv), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        pool = RunspacePool(server.new_wsman(), min_runspaces=1, max_runspaces=5)
        srv.before = case["opening"]
        pool.open()
        note(case["opening"])
        lo, hi = 1, 5
        for name, before, after in case["steps"]:
            srv.before, srv.after = before, after
            if name == "available":
                same(pool.get_available_runspaces(), 3, "available runspaces")
            elif name == "min":
                lo = 3 - lo
                pool.min_runspaces = lo
            elif name == "max":
                hi = 11 - hi
                pool.max_runspaces = hi
            elif name == "reset" and hasattr(pool, "reset_runspace_state"):
                pool.reset_runspace_state()
            else:
                ps = PowerShell(pool)
                ps.add_script("x")
                same(ps.invoke(), ["fine"], "output of a pipeline")
                same([r.message for r in ps.streams.warning], ["mine"], "warnings of a pipeline")
                ps.close()
            note(before)
            note(after)
        srv.before, srv.after = (), ()
        same(pool.get_available_runspaces(), 3, "available runspaces at the end")  # collects what is left
        for i in range(20):
            if not any(sh.out for sh in srv.shells.values()):
                break
            pool.get_available_runspaces()
        same((pool.min_runspaces, pool.max_runspaces), (lo, hi), "limits")
        same(len(pool.user_events), len(events), "events")
        for s, e in zip(events, pool.user_events):
            check_event(s, e)
        same([str(w.message) for w in caught if issubclass(w.category, RunspacePoolWarning)], [s[1] for s in warned], "warnings")
        same(srv.keys, 1 if keys else 0, "keys that were sent")
        same(pool.state, RunspacePoolState.OPENED, "state of the pool")
        pool.close()
    return Info(len(events) + len(warned) > 1, sorted({"event"} if events else set()) + (["warning"] if warned else []) + (["key"] if keys else []))


SUBS = [
    Sub("metadata", lambda: cases, check_metadata, quick=120, thorough=2500, qshards=4, tshards=8),
    Sub("pool", lambda: pool_cases, check_pool, quick=150, thorough=3000, qshards=3, tshards=6),
]
