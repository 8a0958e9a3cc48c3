"""C19: opening, closing, disconnecting and connecting a pool; its state is the one the server or an operation established."""
import base64

from hypothesis import strategies as st

import gens
import hosts
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c02, c08
from pypsrp.complex_objects import RunspacePoolState as RS
from pypsrp.exceptions import InvalidPSRPOperation, InvalidRunspacePoolStateError, WSManFaultError
from pypsrp.powershell import RunspacePool

PROPERTY = "C19"
RULE = ("open: pools with generated limits, options, hosts, configuration names and application arguments up to several envelopes long, opened against a server that answers with generated capabilities, private data and initial "
        "state; everything the server received and what the pool reports is compared with what was configured. history: generated histories of open, close, disconnect, connect, queries, context managers left normally or by an "
        "exception, refused requests and states announced by the server, against a model of the pool's state; after every operation the state, the requests and the error are compared. Non-trivial: arguments beyond one "
        "envelope, private data or a broken start; history: an operation was refused, a state came from the server, or a pool was reconnected.")

key = st.one_of(gens.ident(6), gens.text(8))
big = st.integers(2000, 150000).map(lambda n: ("p", "S", "z" * n, False))
args = gens.choose(st.none(), st.dictionaries(key, c02.values(5), max_size=4), st.dictionaries(key, c02.values(5), max_size=3), st.dictionaries(key, gens.choose(big, c02.values(4)), min_size=1, max_size=3))
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(5, 200), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 6), max_size=3), "per_stream": st.lists(st.integers(1, 4), max_size=2),
                               "hold": st.lists(st.sampled_from([0, 0, 2]), max_size=3), "bom": st.booleans()})
vers = st.sampled_from(["2.3", "2.3", "2.2", "2.1", "2.0"])
open_cases = st.fixed_dictionaries({
    "lo": st.integers(-3, 50), "hi": st.integers(-3, 50), "to": st.integers(0, 3), "ap": st.integers(0, 2), "host": hosts.host, "conf": gens.choose(st.none(), gens.ident(12), st.just("Microsoft.PowerShell32"), gens.ident(200)),
    "no_profile": st.booleans(), "idle": st.sampled_from([None, 60, 7200]), "args": args, "env": st.sampled_from([153600, 153600, 8000, 20000, 512000]), "plan": plans, "proto": vers,
    "ps": c08.version, "ser": c08.version, "private": c08.SRV["APPLICATION_PRIVATE_DATA"][0], "end": st.sampled_from(["opened", "opened", "opened", "broken", "broken plain"]), "err": c08.err_fields, "ctx": st.booleans()})
NAMES = {"UNKNOWN": "Unknown", "STA": "STA", "MTA": "MTA"}


class Srv(server.Server):
    max_frags = 6

    def __init__(self, case):
        server.Server.__init__(self, server.Plan(case["plan"]), proto=case["proto"])
        self.case = case

    def opened(self, sh):
        c = self.case
        self.push(sh, None, ("SESSION_CAPABILITY", psrp.session_capability(c["proto"], c["ps"], c["ser"])), ("APPLICATION_PRIVATE_DATA", c08.SRV["APPLICATION_PRIVATE_DATA"][1](c["private"])))
        if c["end"] == "opened":
            self.push(sh, None, ("RUNSPACEPOOL_STATE", psrp.pool_state(2)))
        else:
            self.push(sh, None, ("RUNSPACEPOOL_STATE", psrp.pool_state(5, c08.err_spec(c["err"]) if c["end"] == "broken" else None)))


def check_open(case):
    srv = Srv(case)
    labels = set()
    kw = {"configuration_name": case["conf"]} if case["conf"] is not None else {}
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman(max_envelope_size=case["env"]), case["ap"], case["to"], hosts.make(case["host"]), min_runspaces=case["lo"], max_runspaces=case["hi"], no_profile=case["no_profile"],
                            idle_timeout=case["idle"], **kw)
        same(pool.state, RS.BEFORE_OPEN, "state of a new pool")
        same((pool.application_private_data, pool.protocol_version), (None, None), "what a new pool knows of the server")
        given = None if case["args"] is None else {k: c02.build(v) for k, v in case["args"].items()}
        snap = c02.snap(given)
        err = None
        try:
            pool.open(given) if given is not None else pool.open()
        except InvalidPSRPOperation as e:
            err = e
        same(c02.snap(given), snap, "the application arguments of the caller after opening")
        same(len(srv.shells), 1, "shells created")
        sh = list(srv.shells.values())[0]
        same(sh.id.upper(), pool.id.upper(), "id of the shell")
        same(sh.uri, "http://schemas.microsoft.com/powershell/" + (case["conf"] or "Microsoft.PowerShell"), "resource URI")
        o = {x[0]: x[1] for x in sh.options}
        require(o.get("protocolversion") == "2.3", "the options %r lack the protocol version", o)
        same("WINRS_NOPROFILE" in o, case["no_profile"], "WINRS_NOPROFILE")
        same(sh.element.findtext(soap.q("rsp:IdleTimeOut")), None if case["idle"] is None else "PT%dS" % case["idle"], "idle timeout")
        same((sh.element.findtext(soap.q("rsp:InputStreams")), sh.element.findtext(soap.q("rsp:OutputStreams"))), ("stdin pr", "stdout"), "streams")
        require(not sh.asm.pending, "the last message was not sent completely")
        same([m.name for m in sh.msgs], ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], "messages of opening")
        d = rc.plain(sh.msgs[0].node())["ms"]
        same(d, {"protocolversion": ("Version", "2.3"), "PSVersion": ("Version", "2.0"), "SerializationVersion": ("Version", "1.1.0.1")}, "session capability")
        n = sh.msgs[1].node()
        aa = n.prop("ApplicationArguments")
        d = rc.plain(n)["ms"]
        got_args = d.pop("ApplicationArguments")
        want = rc.plain(rc.read(rc.write(psrp.obj([("MinRunspaces", ("I32", case["lo"])), ("MaxRunspaces", ("I32", case["hi"])),
                                                   ("PSThreadOptions", c08.E("System.Management.Automation.Runspaces.PSThreadOptions", c08.TO[case["to"]], case["to"])),
                                                   ("ApartmentState", c08.E("System.Management.Automation.Runspaces.ApartmentState", c08.AS[case["ap"]], case["ap"])), ("HostInfo", hosts.spec(case["host"]))]))))["ms"]
        for k in want:
            require(d.get(k) == want[k], "%s sent: %s, want %s", k, clip(d.get(k)), clip(want[k]))
        same(sorted(d), sorted(want), "members of the initialization")
        if given is None:
            same(got_args, ("Nil", None), "application arguments")
        else:
            same(tuple(got_args["types"]), tuple(psrp.PRIMDICT), "types of the application arguments")
            same([k for k, _ in got_args["items"]], [("S", k) for k in case["args"]], "names of the application arguments")
            for (k, v), w in zip(got_args["items"], case["args"].values()):
                w = c02.expect(w)
                require(v == w, "the application argument %s arrives as %s, want %s", clip(k), clip(v), clip(w))
        sends = [r for r in srv.reqs if r.action == "Send"]
        if sends:
            labels.add("beyond one envelope")
        if case["end"] == "opened":
            require(err is None, "opening fails: %s", err)
            same(pool.state, RS.OPENED, "state after opening")
            same((pool.protocol_version, pool.ps_version, pool.serialization_version), (case["proto"], case["ps"], case["ser"]), "capabilities")
            c08.SRV["APPLICATION_PRIVATE_DATA"][2](pool.application_private_data, case["private"])
            same((pool.min_runspaces, pool.max_runspaces), (case["lo"], case["hi"]), "limits")
            if case["private"]:
                labels.add("private data")
            # nothing of this changes by opening again
            k = len(srv.reqs)
            pool.open({"other": 1})
            same(len(srv.reqs), k, "requests of opening an open pool")
            pool.close()
            same((pool.state, sh.deleted), (RS.CLOSED, 1), "state and deletions after closing")
        else:
            labels.add("broken")
            require(err is not None, "open succeeds although the server broke the pool")
            same(pool.state, RS.BROKEN, "state of a broken pool")
            if case["end"] == "broken" and case["err"]["tostring"]:
                require(case["err"]["tostring"] in str(err), "the error %s does not carry the error record %s", clip(str(err)), clip(case["err"]["tostring"]))
            k = len(srv.reqs)
            pool.close()
            same((len(srv.reqs), pool.state), (k, RS.BROKEN), "closing a broken pool")
            try:
                pool.open()
            except InvalidRunspacePoolStateError:
                pass
            else:
                fail("a broken pool is opened again")
            same(len(srv.reqs), k, "requests of opening a broken pool")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels), sorted(labels))


# ---- histories
OPS = ["open", "open", "close", "disconnect", "disconnect", "connect", "connect", "available", "reset", "metadata", "keys", "min", "max", "with", "with raise", "announce", "announce", "fault", "fault", "stuck", "new", "user event"]
op = st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.sampled_from([5, 2150858843, 2150859174, 2150858778]))
announced = st.lists(st.sampled_from([2, 2, 3, 4]), min_size=0, max_size=2).flatmap(lambda l: st.sampled_from([l, l, l + [5]])).filter(bool)
ensure = st.just(("ensure", 0, 5))
deep = st.tuples(st.sampled_from(["disconnect", "connect", "disconnect", "connect", "announce", "fault", "fault", "close", "available", "reset", "open", "with", "with raise", "keys", "metadata"]), st.integers(0, 3), st.sampled_from([5, 2150858843]))
block = gens.choose(op.map(lambda o: [o]), st.tuples(ensure, st.lists(deep, min_size=1, max_size=6)).map(lambda t: [t[0]] + t[1]), st.tuples(ensure, st.lists(deep, min_size=2, max_size=8)).map(lambda t: [t[0]] + t[1]))
hist_cases = st.fixed_dictionaries({"ops": st.lists(block, min_size=1, max_size=7).map(lambda l: [o for b in l for o in b]), "said": st.lists(announced, min_size=1, max_size=3), "start": st.lists(st.sampled_from(["ok", "ok", "ok", "broken"]), min_size=1, max_size=3),
                                    "plan": plans, "proto": st.sampled_from(["2.3", "2.3", "2.2", "2.1", "2.10", "3.1"])})
ALLOWED = {"open": [RS.BEFORE_OPEN], "disconnect": [RS.OPENED], "connect": [RS.DISCONNECTED], "available": [RS.OPENED], "reset": [RS.OPENED], "metadata": [RS.OPENED], "keys": [RS.OPENED]}


class Hist(server.Server):
    def __init__(self, case):
        server.Server.__init__(self, server.Plan(case["plan"]), proto=case["proto"])
        self.case = case
        self.k = 0
        self.refuse = None
        self.stuck = None
        self.say = None

    def intercept(self, req):
        if self.stuck and req.action == "Receive":
            code, self.stuck = self.stuck, None
            return soap.fault(req, code)
        if self.refuse is not None and req.action not in ("Receive", "Get"):
            code, self.refuse = self.refuse, None
            self.refused = req
            return soap.fault(req, code)

    def opened(self, sh):
        l = self.case["start"]
        how = l[self.k % len(l)]
        self.k += 1
        self.last_start = how
        self.push(sh, None, ("SESSION_CAPABILITY", psrp.session_capability(self.proto)), ("APPLICATION_PRIVATE_DATA", psrp.app_private_data([])))
        self.push(sh, None, ("RUNSPACEPOOL_STATE", psrp.pool_state(2) if how == "ok" else psrp.pool_state(5, psrp.error_record("start %d failed" % self.k))))

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        for s in self.say or ():
            self.push(sh, None, ("RUNSPACEPOOL_STATE", psrp.pool_state(s, psrp.error_record("broken for reason %d" % self.k) if s == 5 else None)))
        self.say = None
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 1)))

    def on_RESET_RUNSPACE_STATE(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, True)))

    def run_pipeline(self, sh, c, m):
        self.finish(sh, c)

    def on_GET_COMMAND_METADATA(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", psrp.obj([("Count", ("I32", 0))], types=["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Object"])))


def check_history(case):
    srv = Hist(case)
    labels = set()
    with wire.wire(srv):

        def new():
            return RunspacePool(server.new_wsman())

        pool, model, sh = new(), RS.BEFORE_OPEN, None
        all_shells = []
        told = 0

        def refused(f, name):
            labels.add("refused")
            k = len(srv.reqs)
            try:
                f()
            except InvalidRunspacePoolStateError as e:
                same(e.current_state, model, "current state in the error of %s" % name)
                for w in ALLOWED.get(name, ()):
                    require(w in (e.expected_state if isinstance(e.expected_state, (list, tuple, set)) else [e.expected_state]), "the error of %s does not have the expected state %s", name, w)
                server.tells_states(e, server.POOL_STATES)
            else:
                fail("%s is accepted in the state %r", name, model)
            same(len(srv.reqs), k, "requests of a refused %s" % name)

        def faulty(f, code, action, name):
            """the request of f is refused: the error is passed on and nothing changes"""
            srv.refuse = code
            k = len(srv.reqs)
            try:
                f()
            except WSManFaultError as e:
                same(e.code, code, "code of the fault of %s" % name)
            else:
                fail("%s hides that the server refused it", name)
            finally:
                srv.refuse = None
            same([r.action for r in srv.reqs[k:]], [action], "requests of a failed %s" % name)
            labels.add("failed")

        def do_open(f):
            nonlocal model, sh
            k, n = len(srv.reqs), len(srv.shells)
            try:
                f()
                ok = True
            except InvalidPSRPOperation as e:
                require("start %d failed" % srv.k in str(e), "the error %s does not carry the error record of the server", e)
                ok = False
            same(len(srv.shells), n + 1, "shells created by opening")
            sh = list(srv.shells.values())[-1]
            all_shells.append((sh, pool))
            same(srv.last_start == "ok", ok, "opening succeeds")
            model = RS.OPENED if ok else RS.BROKEN
            if not ok:
                labels.add("broken")
            same([m.name for m in sh.msgs], ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], "messages of opening")
            return ok

        def do_close(f, why="close"):
            nonlocal model
            k = len(srv.reqs)
            f()
            if model in (RS.CLOSED, RS.CLOSING, RS.BROKEN, RS.BEFORE_OPEN):
                same(len(srv.reqs), k, "requests of %s in the state %r" % (why, model))
                if model == RS.BEFORE_OPEN:
                    model = RS.CLOSED
            else:
                same([(r.action, r.selector("ShellId")) for r in srv.reqs[k:]], [("Delete", sh.id)], "requests of %s" % why)
                model = RS.CLOSED

        for name, i, code in case["ops"]:
            k = len(srv.reqs)
            if name == "new":
                if model in (RS.CLOSED, RS.BROKEN, RS.CLOSING):
                    pool, model, sh = new(), RS.BEFORE_OPEN, None
            elif name == "ensure":
                if model in (RS.CLOSED, RS.BROKEN, RS.CLOSING, RS.NEGOTIATION_SENT):
                    pool, model, sh = new(), RS.BEFORE_OPEN, None
                if model == RS.BEFORE_OPEN:
                    do_open(pool.open)
            elif name == "open":
                if model == RS.OPENED:
                    pool.open()
                    same(len(srv.reqs), k, "requests of opening an open pool")
                elif model != RS.BEFORE_OPEN:
                    refused(pool.open, "open")
                else:
                    do_open(pool.open)
            elif name == "close":
                do_close(pool.close)
            elif name in ("disconnect", "connect"):
                f = getattr(pool, name)
                have, after = (RS.OPENED, RS.DISCONNECTED) if name == "disconnect" else (RS.DISCONNECTED, RS.OPENED)
                if model == after:
                    f()
                    same(len(srv.reqs), k, "requests of %s when it is done" % name)
                elif model != have:
                    refused(f, name)
                else:
                    f()
                    same([(r.action, r.selector("ShellId"), r.resource) for r in srv.reqs[k:]], [("Disconnect" if name == "disconnect" else "Reconnect", sh.id, sh.uri)], "requests of %s" % name)
                    model = after
                    if name == "connect":
                        labels.add("reconnected")
            elif name in ("available", "reset", "metadata", "keys"):
                f = {"available": pool.get_available_runspaces, "reset": pool.reset_runspace_state, "metadata": lambda: pool.get_command_metadata("*"), "keys": pool.exchange_keys}[name]
                if name == "reset" and model == RS.BEFORE_OPEN:
                    f()
                    same(len(srv.reqs), k, "requests of resetting a pool that is not open")
                elif model == RS.OPENED:
                    if name == "reset" and tuple(map(int, case["proto"].split("."))) < (2, 3):
                        try:
                            f()
                        except InvalidPSRPOperation:
                            labels.add("refused")
                        else:
                            fail("a runspace of the protocol version %s is reset", case["proto"])
                        same(len(srv.reqs), k, "requests of a refused reset")
                    elif name != "keys":
                        f()
                elif model != RS.DISCONNECTED or name in ("reset", "metadata"):
                    refused(f, name)
            elif name in ("min", "max"):
                if model not in (RS.OPENED, RS.DISCONNECTED):
                    setattr(pool, name + "_runspaces", i)
                    same(len(srv.reqs), k, "requests of setting a limit while the pool is not open")
            elif name == "stuck":
                # the shell is created, then waiting for its answer fails
                if model == RS.BEFORE_OPEN:
                    srv.stuck = code
                    n = len(srv.shells)
                    try:
                        if i % 2:
                            with pool:
                                fail("the context of a pool that could not be opened is entered")
                        else:
                            pool.open()
                            fail("opening hides the fault of the server")
                    except WSManFaultError as e:
                        same(e.code, code, "code of the fault of opening")
                    finally:
                        srv.stuck = None
                    same(len(srv.shells), n + 1, "shells created by opening")
                    sh = list(srv.shells.values())[-1]
                    all_shells.append((sh, pool))
                    if i % 2:
                        same(sh.deleted, 1, "deletions of the shell of a pool whose context could not be entered")
                        model = RS.CLOSED
                    else:
                        same(sh.deleted, 0, "deletions by opening")
                        model = RS.NEGOTIATION_SENT
                    labels.add("failed")
            elif name in ("with", "with raise"):
                if model == RS.BEFORE_OPEN:
                    boom = ValueError("left") if i % 2 else KeyboardInterrupt("left")
                    opened = []

                    def body():
                        with pool as p:
                            require(p is pool, "the context manager hands over something else")
                            opened.append(1)
                            same(pool.state, RS.OPENED, "state in the context")
                            if i % 4 > 1:
                                pool.disconnect()
                                same(pool.state, RS.DISCONNECTED, "state in the context after disconnecting")
                            if name == "with raise":
                                raise boom

                    n = len(srv.shells)
                    caught = None
                    try:
                        body()
                    except InvalidPSRPOperation as e:
                        require(srv.last_start != "ok" and "start %d failed" % srv.k in str(e), "entering the context fails: %s", e)
                        model = RS.BROKEN
                        labels.add("broken")
                    except (ValueError, KeyboardInterrupt) as e:
                        caught = e
                    sh = list(srv.shells.values())[-1]
                    all_shells.append((sh, pool))
                    if opened:
                        require(caught is (boom if name == "with raise" else None), "the context ends with %r", caught)
                        same(sh.deleted, 1, "deletions on leaving the context")
                        model = RS.CLOSED
                elif model == RS.OPENED:

                    def f():
                        with pool:
                            same(len(srv.reqs), k, "requests of entering the context of an open pool")

                    do_close(f, "leaving the context")
                else:

                    def f():
                        with pool:
                            fail("the context of a pool in the state %r is entered", model)

                    refused(f, "entering the context")
            elif name == "announce":
                if model == RS.OPENED:
                    said = case["said"][i % len(case["said"])]
                    srv.say = said
                    try:
                        same(pool.get_available_runspaces(), 1, "available runspaces")
                        require(5 not in said, "a broken pool raises no error")
                    except InvalidPSRPOperation as e:
                        require(5 in said, "an error is raised although nothing is broken: %s", e)
                        require("broken for reason %d" % srv.k in str(e), "the error %s does not carry the error record of the server", e)
                    model = said[-1]
                    labels.add("announced")
            elif name == "user event":
                if model == RS.OPENED:
                    srv.push(sh, None, ("USER_EVENT", psrp.user_event(told, "src")))
                    told_before = [e.event_id for e in pool.user_events]
                    pool.get_available_runspaces()
                    same([e.event_id for e in pool.user_events], told_before + [told], "events")
                    told += 1
            elif name == "fault":
                f = ["open", "close", "disconnect", "connect"][i]
                if f == "open" and model == RS.BEFORE_OPEN:
                    n = len(srv.shells)
                    faulty(pool.open, code, "Create", f)
                    same(len(srv.shells), n, "shells")
                elif f == "close" and model in (RS.OPENED, RS.DISCONNECTED, RS.NEGOTIATION_SENT):
                    faulty(pool.close, code, "Delete", f)
                elif f == "disconnect" and model == RS.OPENED:
                    faulty(pool.disconnect, code, "Disconnect", f)
                elif f == "connect" and model == RS.DISCONNECTED:
                    faulty(pool.connect, code, "Reconnect", f)
            same(pool.state, model, "state after %s" % name)
            for s, p in all_shells:
                require(s.deleted <= 1, "a pool was deleted twice")
                if p is pool:
                    if model in (RS.OPENED, RS.DISCONNECTED):
                        same(s.deleted, 0, "deletions of an open pool")
                        same(s.state, "Connected" if model == RS.OPENED else "Disconnected", "state on the server")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("open", lambda: open_cases, check_open, quick=400, thorough=8000, qshards=5, tshards=8), Sub("history", lambda: hist_cases, check_history, quick=600, thorough=15000, qshards=5, tshards=8)]
