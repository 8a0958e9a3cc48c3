"""C30: pools and pipelines left on the server are found and resume without losing output."""
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import soap
import wire
from core import HarnessError, Info, Sub, clip, fail, finding, require, same
from props import c08
from pypsrp.complex_objects import PSInvocationState as PS, RunspacePoolState as RS
from pypsrp.exceptions import WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool

PROPERTY = "C30"
RULE = ("inventory: generated lists of shells of several kinds, states and configurations with their commands, listed and compared; some are connected, used and closed. resume: a client opens pools, starts pipelines, receives part of "
        "their output and disconnects or goes away; the same or another client finds and connects pools and pipelines, with refused connects in between, and what both received is compared with what the server produced. Non-trivial: a "
        "shell that is no pool or a pool with commands is listed; resume: output was kept for a pipeline that was connected.")

ids = st.uuids().map(str)
conf = gens.choose(st.just("Microsoft.PowerShell"), st.just("Microsoft.PowerShell32"), gens.ident(8), gens.ident(60))
shell = st.fixed_dictionaries({"kind": st.sampled_from(["pool", "pool", "pool", "cmd", "other"]), "conf": conf, "id": st.tuples(ids, st.booleans()), "state": st.sampled_from(["Connected", "Disconnected"]), "name": gens.xtext(8),
                               "commands": st.lists(st.tuples(ids, st.booleans()), max_size=3), "lo": st.integers(-2, 20), "hi": st.integers(-2, 20), "bare": st.booleans()})
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(20, 200), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 4), max_size=3), "per_stream": st.lists(st.integers(1, 3), max_size=2),
                               "hold": st.lists(st.integers(0, 2), max_size=3), "bom": st.booleans()})
inv_cases = st.fixed_dictionaries({"shells": st.lists(shell, max_size=5, unique_by=lambda s: s["id"][0]), "plan": plans, "use": st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["connect", "connect", "connect command", "refused", "close", "connect command"])), max_size=6),
                                   "private": c08.SRV["APPLICATION_PRIVATE_DATA"][0], "proto": st.sampled_from(["2.3", "2.2", "2.1"]), "twice": st.booleans()})


def case_of(t):
    return t[0].upper() if t[1] else t[0]


class Piece(bytes):
    done = None
    first = False


class Srv(server.Server):
    """keeps what was not delivered completely for the client that connects next"""

    max_frags = 6

    def __init__(self, case):
        server.Server.__init__(self, server.Plan(case["plan"]), proto=case.get("proto", "2.3"))
        self.case = case
        self.refuse = None
        self.todo = {}
        self.seen_private = set()

    def intercept(self, req):
        if self.refuse is not None and req.action in self.refuse:
            self.refuse = None
            return soap.fault(req, 2150858843)

    def connect_response(self, sh):
        self.initial = sh.limits
        return server.Server.connect_response(self, sh)

    def on_CONNECT_RUNSPACEPOOL(self, sh, c, m):
        require(m.xml == "<S></S>" or rc.plain(m.node()) in (("S", ""),), "connecting asks for %s", clip(m.xml))
        self.push(sh, None, ("APPLICATION_PRIVATE_DATA", c08.SRV["APPLICATION_PRIVATE_DATA"][1](self.case["private"])))

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 3)))

    def say(self, c, name, spec, what):
        l = [Piece(f.pack()) for f in c.shell.sender.frags(name, spec, c.id)]
        l[-1].done = what
        c.out.extend(l)

    def receive_body(self, c, items):
        if c is not None:
            for p in items:
                if isinstance(p, Piece):
                    c.part.append(p)
                    if p.done is not None:
                        c.told.append(p.done)
                        c.part = []
        return server.Server.receive_body(self, c, items)

    def do_Connect(self, req):
        r = server.Server.do_Connect(self, req)
        el = req.one("rsp:Connect")
        sh = self.shells.get((req.selector("ShellId") or "").upper())
        if el.get("CommandId") is None and sh is not None and r.status == 200:
            for c in sh.commands.values():
                # a message the former client has in part is sent again
                c.out.extendleft(reversed(c.part))
                c.part = []
                c.connected = False
        return r

    def do_Receive(self, req):
        el = req.one("rsp:Receive")
        cid = el.find(soap.q("rsp:DesiredStream")).get("CommandId")
        sh = self.shells.get((req.selector("ShellId") or "").upper())
        if cid is not None and sh is not None and cid.upper() in sh.commands:
            require(sh.commands[cid.upper()].connected, "output of a pipeline is asked for before it is connected")
            require(sh.state == "Connected", "output is asked for while the pool is disconnected")
        return server.Server.do_Receive(self, req)

    def new_command(self, sh, c, out, state, err):
        c.told, c.part, c.connected = [], [], True
        for o in out:
            self.say(c, "PIPELINE_OUTPUT", ("S", o), o)
        c.all = list(out)
        c.end = state

    def end(self, c):
        if not c.done:
            self.say(c, "PIPELINE_STATE", psrp.pipeline_state(c.end, psrp.error_record("failed") if c.end == 5 else None), ("state", c.end))
            c.done = True

    def on_idle(self, sh, c):
        if c is not None:
            self.end(c)

    def shell_item(self, s):
        more = "" if getattr(s, "bare", False) else "<rsp:Name>%s</rsp:Name><rsp:Owner>me</rsp:Owner><rsp:ClientIP>::1</rsp:ClientIP>" % soap.xesc(getattr(s, "name", "n"))
        return "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId>%s<rsp:ResourceUri>%s</rsp:ResourceUri><rsp:State>%s</rsp:State></rsp:Shell>" % (s.id, more, soap.xesc(s.uri), s.state)

    def run_pipeline(self, sh, c, m):
        r = self.todo
        self.new_command(sh, c, r["out"], r["state"], None)
        if r["done"]:
            self.end(c)


def add_shell(srv, s):
    uri = {"pool": "http://schemas.microsoft.com/powershell/" + s["conf"], "cmd": server.CMD_URI, "other": "http://schemas.example.com/" + s["conf"]}[s["kind"]]
    sh = server.Shell(case_of(s["id"]), uri, None, None)
    sh.name, sh.bare = s["name"], s["bare"]
    sh.state = s["state"]
    sh.limits = (s["lo"], s["hi"])
    if sh.ps:
        sh.sender = psrp.Sender(sh.id, srv.plan.frag_sizes, srv.plan.bom)
        sh.sender.max_frags = 6
    for t in s["commands"]:
        c = server.Command(sh, case_of(t), "", [], None)
        if sh.ps:
            srv.new_command(sh, c, ["kept %s" % t[0][:8], "2"], 4, None)
            c.connected = False
            srv.end(c)
        sh.commands[c.id.upper()] = c
    srv.shells[sh.id.upper()] = sh
    return sh


def check_state(pool, what):
    """-> a known finding or None"""
    if pool.state == RS.OPENED:
        return None
    k = finding("C30", "state-after-connect")
    if pool.state == RS.DISCONNECTED and k:
        return k
    fail("state after %s: %r", what, pool.state)


def check_inventory(case):
    srv = Srv(case)
    labels, known = set(), None
    shells = [add_shell(srv, s) for s in case["shells"]]
    want = [sh for sh, s in zip(shells, case["shells"]) if s["kind"] == "pool"]
    if len(want) != len(shells):
        labels.add("no pools")
    with wire.wire(srv):
        con = server.new_wsman()
        if case["twice"]:
            RunspacePool.get_runspace_pools(con)
        pools = RunspacePool.get_runspace_pools(con)
        same([p.id.upper() for p in pools], [sh.id.upper() for sh in want], "pools listed")
        for p, sh in zip(pools, want):
            same(p.state, RS.DISCONNECTED, "state of a listed pool")
            require(p.connection is con, "a listed pool uses another connection")
            same(sorted(p.pipelines), sorted(c.id for c in sh.commands.values()), "pipelines of a listed pool")
            for k, ps in p.pipelines.items():
                same((ps.id, ps.state), (k, PS.DISCONNECTED), "id and state of a listed pipeline")
                require(ps.runspace_pool is p, "a listed pipeline belongs to another pool")
            same(sorted(x.id for x in p.create_disconnected_power_shells()), sorted(p.pipelines), "disconnected pipelines")
            if sh.commands:
                labels.add("commands")
        same([r.action for r in srv.reqs if r.action != "Enumerate"], [], "requests of listing")
        state = {}
        for i, how in case["use"]:
            if not pools:
                break
            i %= len(pools)
            p, sh = pools[i], want[i]
            k = len(srv.reqs)
            if state.get(i) == "closed":
                continue
            if how == "refused" and i not in state:
                srv.refuse = ("Connect",)
                try:
                    p.connect()
                except WSManFaultError:
                    same(p.state, RS.DISCONNECTED, "state after a refused connect")
                else:
                    fail("connect hides that the server refused it")
            elif how == "close":
                p.close()
                same([(r.action, r.resource, (r.selector("ShellId") or "").upper()) for r in srv.reqs[k:]], [("Delete", sh.uri, sh.id.upper())], "requests of closing a listed pool")
                same(p.state, RS.CLOSED, "state after closing")
                state[i] = "closed"
            elif how == "connect" and i not in state:
                p.connect()
                labels.add("connected")
                known = check_state(p, "connect") or known
                r = srv.reqs[k]
                same((r.action, r.resource, (r.selector("ShellId") or "").upper()), ("Connect", sh.uri, sh.id.upper()), "request of connecting")
                state[i] = "connected"
                same((p.min_runspaces, p.max_runspaces), sh.limits, "limits after connecting")
                same((p.protocol_version, p.ps_version, p.serialization_version), (case["proto"], "2.0", "1.1.0.1"), "capabilities after connecting")
                same(p.get_available_runspaces(), 3, "available runspaces of a connected pool")
                c08.SRV["APPLICATION_PRIVATE_DATA"][2](p.application_private_data, case["private"])
                for j, q in enumerate(pools):
                    if j != i and j not in state:
                        same(q.state, RS.DISCONNECTED, "state of another pool")
                ps = PowerShell(p)
                ps.add_script("s")
                srv.todo = {"out": ["new"], "state": 4, "done": True}
                same([str(o) for o in ps.invoke()], ["new"], "output of a new pipeline of a connected pool")
                ps.close()
            elif how == "connect command" and state.get(i) == "connected":
                l = p.create_disconnected_power_shells()
                if l:
                    ps = l[0]
                    c = sh.commands[ps.id.upper()]
                    same([str(o) for o in ps.connect()], c.all, "kept output")
                    same(ps.state, PS.COMPLETED, "state of a connected pipeline that completed")
                    labels.add("kept output")
                    ps.close()
                    require(c.gone, "a connected pipeline is not released by closing it")
                    require(ps.id not in p.pipelines, "a closed pipeline is still registered")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels & {"no pools", "commands"}), sorted(labels), known)


# ---- resume
run = st.fixed_dictionaries({"out": st.lists(gens.text(10), max_size=6), "state": st.sampled_from([4, 4, 5]), "done": st.booleans()})
cmd = st.fixed_dictionaries({"run": run, "polls": st.integers(0, 3), "after": st.sampled_from(["connect", "twice", "async", "twice", "async", "connect", "leave"])})
res_cases = st.fixed_dictionaries({"pools": st.lists(st.fixed_dictionaries({"cmds": st.lists(cmd, max_size=3), "refuse": st.booleans(), "conf": conf, "rounds": st.integers(1, 3)}), min_size=1, max_size=2), "same": st.booleans(), "again": st.booleans(),
                                   "plan": plans, "private": c08.SRV["APPLICATION_PRIVATE_DATA"][0], "gone": st.booleans(), "order": st.booleans()})


def check_resume(case):
    srv = Srv(case)
    labels, known = set(), None
    with wire.wire(srv):
        con = server.new_wsman()
        mine = []
        for pc in case["pools"]:
            pool = RunspacePool(con if case["again"] else server.new_wsman(), configuration_name=pc["conf"], min_runspaces=2, max_runspaces=5)
            pool.open()
            sh = list(srv.shells.values())[-1]
            sh.limits = (2, 5)
            cmds = []
            for cc in pc["cmds"]:
                ps = PowerShell(pool)
                ps.add_script("s")
                srv.todo = cc["run"]
                ps.begin_invoke()
                cmds.append([ps, list(sh.commands.values())[-1], cc, []])
            for x in cmds:
                for _ in range(x[2]["polls"]):
                    if x[0].state == PS.RUNNING:
                        x[0].poll_invoke()
            mine.append((pool, sh, pc, cmds))
        for pool, sh, pc, cmds in mine:
            k = len(srv.reqs)
            had = {x[0].id: x[0].state for x in cmds}
            if not case["gone"] or case["same"]:
                pool.disconnect()
                same([r.action for r in srv.reqs[k:]], ["Disconnect"], "requests of disconnecting")
            else:
                sh.state = "Disconnected"
            same(sh.deleted, 0, "deletions by disconnecting")
            for x in cmds:
                require(not x[1].gone, "a pipeline is released by disconnecting")
                x[3] = [str(o) for o in x[0].output]
                same(x[3], [t for t in x[1].told if not isinstance(t, tuple)], "output received before disconnecting")
                if not case["gone"] or case["same"]:
                    same(x[0].state, PS.DISCONNECTED if had[x[0].id] == PS.RUNNING else had[x[0].id], "state of a pipeline after disconnecting")
        if not case["same"]:
            found = RunspacePool.get_runspace_pools(server.new_wsman())
            same(sorted(p.id.upper() for p in found), sorted(sh.id.upper() for _, sh, _, _ in mine), "pools found")
            found = {p.id.upper(): p for p in found}
        for pool, sh, pc, cmds in mine if case["order"] else reversed(mine):
            p = pool if case["same"] else found[sh.id.upper()]
            for rnd in range(pc["rounds"] if case["same"] else 1):
                if pc["refuse"] and rnd == 0:
                    srv.refuse = ("Connect", "Reconnect")
                    try:
                        p.connect()
                    except WSManFaultError:
                        same(p.state, RS.DISCONNECTED, "state after a refused connect")
                    else:
                        fail("connect hides that the server refused it")
                    labels.add("refused")
                if case["same"]:
                    for c in sh.commands.values():
                        c.connected = False
                p.connect()
                same(sh.state, "Connected", "state on the server after connecting")
                if case["same"]:
                    same(p.state, RS.OPENED, "state after connecting again")
                else:
                    known = check_state(p, "connect") or known
                same((p.min_runspaces, p.max_runspaces), (2, 5), "limits after connecting")
                if rnd < pc["rounds"] - 1 and case["same"]:
                    p.disconnect()
            same(p.get_available_runspaces(), 3, "available runspaces after connecting")
            if not case["same"]:
                c08.SRV["APPLICATION_PRIVATE_DATA"][2](p.application_private_data, case["private"])
            dis = {x.id: x for x in p.create_disconnected_power_shells()}
            left = []
            for ps, c, cc, before in cmds:
                if case["same"]:
                    same(ps.id in dis, ps.state == PS.DISCONNECTED, "a pipeline is offered for connecting")
                    if ps.state != PS.DISCONNECTED:
                        continue
                    require(dis[ps.id] is ps, "another object is offered for a pipeline of this client")
                    q = ps
                else:
                    require(ps.id in dis, "a pipeline the server keeps is not offered")
                    q = dis[ps.id]
                    require(q is not ps, "the object of another client is handed out")
                if cc["after"] == "leave" or c.reported_done:  # (the former client was told that it ended)
                    left.append((q, c))
                    continue
                undelivered = c.all[len(before):]
                if cc["after"] == "connect":
                    out = q.connect()
                else:
                    q.connect_async()
                    same(q.state, PS.RUNNING, "state after connecting a pipeline")
                    q.poll_invoke()
                    if cc["after"] == "twice" and case["same"] and q.state == PS.RUNNING:
                        # left and connected once more while it runs
                        p.disconnect()
                        same((p.state, q.state), (RS.DISCONNECTED, PS.DISCONNECTED), "states after disconnecting again")
                        for d in sh.commands.values():
                            d.connected = False
                        p.connect()
                        same([x.id for x in p.create_disconnected_power_shells() if x is q], [q.id], "pipelines offered after disconnecting again")
                        q.connect_async()
                        labels.add("twice")
                    out = q.end_invoke()
                got = [str(o) for o in out]
                same(got, (before if case["same"] else []) + undelivered, "output after connecting")
                same(q.state, c.end, "state of a pipeline that ended")
                same(q.had_errors, c.end == 5, "had_errors of a pipeline that ended")
                if undelivered:
                    labels.add("kept output")
                q.close()
                require(c.gone, "a connected pipeline is not released by closing it")
            for q, c in left:
                same(q.state, PS.DISCONNECTED, "state of a pipeline that was not connected")
            k = len(srv.reqs)
            p.close()
            same([(r.action, r.resource) for r in srv.reqs[k:]], [("Delete", sh.uri)], "requests of closing")
            same(sh.deleted, 1, "deletions")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info("kept output" in labels, sorted(labels), known)


SUBS = [Sub("inventory", lambda: inv_cases, check_inventory, quick=400, thorough=8000, qshards=4, tshards=8), Sub("resume", lambda: res_cases, check_resume, quick=400, thorough=8000, qshards=4, tshards=8)]
