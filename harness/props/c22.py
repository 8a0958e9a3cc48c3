"""C22: pipeline operations are accepted exactly in the states that allow them."""
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import PSInvocationState as PS, RunspacePoolState
from pypsrp.exceptions import InvalidPipelineStateError, InvalidPSRPOperation, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.shell import SignalCode

PROPERTY = "C22"
RULE = ("history: generated histories of building, begin, poll, end, invoke, stop, close, connect, nesting, clearing, refused starts and disconnecting and reconnecting the pool, over up to four pipelines, against a model of "
        "the states; after every operation the state, the requests that were sent, the registered pipelines, output, errors and flags are compared with the model. Non-trivial: an operation was refused for the state, a "
        "pipeline was stopped, started again or connected.")

run = st.fixed_dictionaries({"out": st.lists(gens.ident(4), max_size=3), "errs": st.integers(0, 1), "state": st.sampled_from([4, 4, 5, 3]), "idle": st.integers(0, 2), "why": st.sampled_from([True, True, False])})
plans = st.fixed_dictionaries({"per_response": st.lists(st.integers(1, 3), max_size=4), "hold": st.lists(st.integers(0, 2), max_size=4)})
I = st.integers(0, 3)
OPS = ["begin", "begin", "begin", "invoke", "poll", "poll", "end", "stop", "stop", "close", "close", "connect", "connect_async", "nest", "build", "clear", "clear_streams", "refuse", "again", "resume", "resume"]
op = st.one_of(*([st.tuples(st.just(o), I, st.integers(0, 2)) for o in OPS] + [st.tuples(st.just(o), st.just(0), st.just(0)) for o in ("disconnect", "reconnect", "disconnect", "reconnect")]))
cases = st.fixed_dictionaries({"runs": st.lists(run, min_size=1, max_size=4), "ops": st.lists(op, min_size=3, max_size=25), "plan": plans, "other_id": st.sampled_from([False, False, True]),
                               "from_start": st.integers(1, 2)})
VALID = {"begin": [PS.NOT_STARTED, PS.STOPPED, PS.COMPLETED, PS.FAILED], "close": [PS.COMPLETED, PS.STOPPED, PS.FAILED], "stop": PS.RUNNING, "connect": PS.DISCONNECTED, "nest": PS.RUNNING}


class Srv(server.Server):
    def __init__(self, plan, runs, other):
        server.Server.__init__(self, plan)
        self.runs, self.k, self.other = runs, 0, other
        self.refuse = None
        self.created = []

    def intercept(self, req):
        if self.refuse is not None and req.action in ("Command", "Connect", "Signal"):
            code, self.refuse = self.refuse, None
            return soap.fault(req, code)

    def command_id(self, sh, wanted):
        return self.new_id() if self.other else wanted

    def run_pipeline(self, sh, c, m):
        c.run = self.runs[self.k % len(self.runs)]
        c.no = self.k
        self.k += 1
        self.created.append(c)
        c.spec = m.node()
        c.told = []
        for n, o in enumerate(c.run["out"]):
            self.say(c, "PIPELINE_OUTPUT", "%d:%d:%s" % (c.no, n, o))
        if c.run["errs"]:
            self.say(c, "ERROR_RECORD", "%d:err" % c.no)
        c.left = c.run["idle"]
        if not c.left:
            self.end(c)

    def say(self, c, name, v):
        spec = {"PIPELINE_OUTPUT": lambda: ("S", v), "ERROR_RECORD": lambda: psrp.error_record(v), "PIPELINE_STATE": lambda: psrp.pipeline_state(*v)}[name]()
        l = [Piece(f.pack()) for f in c.shell.sender.frags(name, spec, c.id)]
        l[-1].done = (name, v)
        c.out.extend(l)

    def end(self, c):
        self.say(c, "PIPELINE_STATE", (c.run["state"], psrp.error_record("%d:end" % c.no) if c.run["state"] == 5 and c.run["why"] else None))
        c.done = True

    def on_idle(self, sh, c):
        if c is not None and not c.done:
            c.left -= 1
            if c.left <= 0:
                self.end(c)

    def receive_body(self, c, items):
        if c is not None:
            c.told.extend(p.done for p in items if p.done)
        return server.Server.receive_body(self, c, items)


class Piece(bytes):
    done = None


class Model:
    def __init__(self, ps, nested):
        self.ps, self.nested = ps, nested
        self.state = PS.NOT_STARTED
        self.cmds = []  # what was built
        self.out, self.errs, self.had = [], [], False
        self.c = None  # the command on the server, None once released
        self.read = 0
        self.remote = False
        self.registered = False
        self.old = []


def check(case):
    srv = Srv(server.Plan(case["plan"]), case["runs"], case["other_id"])
    labels = set()
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman())
        pool.open()
        sh = list(srv.shells.values())[0]
        ms = []
        connected = [True]

        def new(ps, nested):
            m = Model(ps, nested)
            ms.append(m)
            return m

        def build(m, k):
            n = len(m.cmds)
            if k == 0:
                m.ps.add_cmdlet("Cmd-%d" % n)
            else:
                m.ps.add_script("script %d" % n)
            m.cmds.append(("Cmd-%d" if k == 0 else "script %d") % n)

        for _ in range(case["from_start"]):
            build(new(PowerShell(pool), False), 0)

        def absorb(m):
            """what the server has delivered since"""
            if m.c is None:
                return
            for n, v in m.c.told[m.read:]:
                if n == "PIPELINE_OUTPUT":
                    m.out.append(v)
                elif n == "ERROR_RECORD":
                    m.errs.append(v)
                else:
                    m.state = v[0]
                    if v[1] is not None:
                        m.errs.append("%d:end" % m.c.no)
                    m.had = v[0] == PS.FAILED
            m.read = len(m.c.told)

        def show(what):
            for i, m in enumerate(ms):
                p = m.ps
                same(p.state, m.state, "state of pipeline %d after %s" % (i, what))
                same(list(p.output), m.out, "output of pipeline %d after %s" % (i, what))
                same([str(e) for e in p.streams.error], m.errs, "errors of pipeline %d after %s" % (i, what))
                same(p.had_errors, m.had, "had_errors of pipeline %d after %s" % (i, what))
                same([c.cmd for c in p.commands], m.cmds, "commands of pipeline %d after %s" % (i, what))
                for o, w in m.old:
                    same(list(o), w, "output of an earlier run of pipeline %d after %s" % (i, what))
            same(sorted(pool.pipelines), sorted(m.ps.id for m in ms if m.registered), "registered pipelines after %s" % what)
            dis = pool.create_disconnected_power_shells()
            same(sorted(p.id for p in dis), sorted(m.ps.id for m in ms if m.state == PS.DISCONNECTED), "disconnected pipelines after %s" % what)

        def refused(f, m, key, what):
            labels.add("refused")
            try:
                f()
            except InvalidPipelineStateError as e:
                same(e.current_state, m.state, "current state of the error of %s" % what)
                lst = lambda v: sorted(v) if isinstance(v, (list, tuple, set)) else [v]
                same(lst(e.expected_state), lst(VALID[key]), "expected states of the error of %s" % what)
                server.tells_states(e, server.PIPELINE_STATES)
            else:
                fail("%s is accepted for a pipeline in the state %r", what, m.state)

        def start(m, f, what):
            """f starts the pipeline; the model follows"""
            if m.state not in VALID["begin"]:
                return refused(f, m, "begin", what)
            if not m.cmds:
                try:
                    f()
                except InvalidPSRPOperation:
                    return labels.add("empty")
                fail("%s starts a pipeline without commands", what)
            if m.c is not None:  # documented: close it first
                close(m)
            n = len(srv.created)
            if srv.refuse is not None:
                code = srv.refuse
                try:
                    f()
                except WSManFaultError as e:
                    same(e.code, code, "code of the fault")
                    m.had = False
                    m.registered = m.ps.id in pool.pipelines  # either is fine as nothing runs
                    return labels.add("start refused")
                fail("%s hides that the server refused the pipeline", what)
            if m.state != PS.NOT_STARTED:
                labels.add("again")
            m.state, m.had, m.remote, m.registered = PS.RUNNING, False, False, True
            r = f()
            same(len(srv.created), n + 1, "pipelines created by %s" % what)
            m.c, m.read = srv.created[-1], 0
            got = m.c.spec
            same(got.prop("IsNested").value, m.nested, "nested flag of the pipeline")
            same([c.prop("Cmd").value for c in got.prop("PowerShell").prop("Cmds").items], m.cmds, "commands sent")
            absorb(m)
            return r

        def faulty(f, action, code, n0, what):
            """the server refuses the request: the caller is told and nothing changes"""
            srv.refuse = code
            try:
                f()
            except WSManFaultError as e:
                same(e.code, code, "code of the fault of %s" % what)
            else:
                fail("%s hides that the server refused it", what)
            finally:
                srv.refuse = None
            same([r.action for r in srv.reqs[n0:]], [action], "requests of a failed %s" % what)
            labels.add("failed")

        def close(m):
            n0, k = len(srv.reqs), len(m.c.signals)
            m.ps.close()
            same(len(srv.reqs), n0 + 1, "requests of closing")
            same([x.lower() for x in m.c.signals[k:]], [soap.SHELL + "/signal/terminate"], "signal of closing")
            m.c, m.registered = None, False

        todo = []
        for o in list(case["ops"]) + [("reconnect", 0, 0)]:
            if o[0] == "resume":  # a detour that single operations rarely make up
                todo += [("reconnect", 0, 0), ("begin", o[1], 0), ("disconnect", 0, 0), ("end" if o[2] else "stop", o[1], 0), ("reconnect", 0, 0), ("connect" if o[2] == 2 else "connect_async", o[1], 0), ("nest", o[1], 0)]
            else:
                todo.append(o)
        for o in todo:
            m = ms[o[1] % len(ms)]
            p, n0 = m.ps, len(srv.reqs)
            k = o[0]
            if k in ("disconnect", "reconnect"):
                if (k == "disconnect") != connected[0]:
                    continue
                if k == "disconnect":
                    pool.disconnect()
                    for x in ms:
                        if x.state == PS.RUNNING:
                            x.state = PS.DISCONNECTED
                    connected[0] = False
                else:
                    pool.connect()
                    connected[0] = True
                same(len(srv.reqs), n0 + 1, "requests of %s" % k)
            elif k == "build":
                build(m, o[2] % 2)
                same(len(srv.reqs), n0, "requests of building")
            elif k == "clear":
                p.clear_commands()
                m.cmds = []
            elif k == "clear_streams":
                m.old.append((p.output, list(m.out)))
                p.clear_streams()
                m.out, m.errs = [], []
            elif k == "close":
                if m.state == PS.NOT_STARTED or (m.c is None and m.state in VALID["close"]):
                    p.close()
                    same(len(srv.reqs), n0, "requests of closing a pipeline that is not there")
                elif m.state not in VALID["close"]:
                    refused(p.close, m, "close", "close")
                    same(len(srv.reqs), n0, "requests of a refused close")
                elif connected[0] and o[2] == 2:
                    faulty(p.close, "Signal", 5, n0, k)
                elif connected[0]:
                    close(m)
            elif k == "stop":
                if m.state == PS.STOPPED:
                    p.stop()
                    same(len(srv.reqs), n0, "requests of stopping a stopped pipeline")
                elif m.state != PS.RUNNING:
                    refused(p.stop, m, "stop", "stop")
                    same(len(srv.reqs), n0, "requests of a refused stop")
                else:
                    j = len(m.c.signals)
                    p.stop()
                    same(len(srv.reqs), n0 + 1, "requests of stopping")
                    same(m.c.signals[j:], [SignalCode.PS_CTRL_C], "signal of stopping")
                    m.state, m.registered = PS.STOPPED, False
                    labels.add("stopped")
            elif k == "nest":
                if m.state != PS.RUNNING:
                    refused(p.create_nested_power_shell, m, "nest", "nesting")
                elif m.remote:
                    try:
                        p.create_nested_power_shell()
                    except InvalidPSRPOperation:
                        labels.add("refused")
                    else:
                        fail("a nested pipeline is created in one that was connected")
                elif len(ms) < 4:
                    n = new(p.create_nested_power_shell(), True)
                    same(n.ps.is_nested, True, "is_nested")
                    build(n, 1)
                same(len(srv.reqs), n0, "requests of nesting")
            elif k == "refuse":
                if connected[0] and srv.refuse is None and m.cmds and m.state in VALID["begin"]:
                    if m.c is not None:
                        close(m)
                    srv.refuse = [5, 2150859174, 2150858843][o[2]]
                    start(m, p.begin_invoke, "a refused start")
            elif k in ("begin", "invoke"):
                ok = m.state in VALID["begin"] and m.cmds
                if ok and not connected[0]:
                    continue
                if k == "begin":
                    start(m, p.begin_invoke, k)
                    same(len(srv.reqs) > n0, bool(ok), "requests of begin")
                elif start(m, p.invoke, k) is not None:
                    require(m.state in VALID["close"], "invoke returns in the state %r", m.state)
                if not ok:
                    same(len(srv.reqs), n0, "requests of a refused start")
            elif k == "again":
                if connected[0] and m.c is not None and m.state in VALID["close"] and m.cmds:
                    close(m)
                    m.old.append((p.output, list(m.out)))
                    p.clear_streams()
                    m.out, m.errs = [], []
                    start(m, p.begin_invoke, k)
            elif k == "poll":
                if m.state == PS.RUNNING and connected[0]:
                    p.poll_invoke()
                    same(len(srv.reqs), n0 + 1, "requests of a poll")
                    absorb(m)
            elif k == "end":
                if m.state == PS.RUNNING and connected[0]:
                    r = p.end_invoke()
                    absorb(m)
                    require(m.state in VALID["close"], "end_invoke returns while the pipeline is in the state %r", m.state)
                    require(len(m.c.told) == len(m.c.run["out"]) + m.c.run["errs"] + 1, "end_invoke returns before all of the output was received")
                else:
                    r = p.end_invoke()
                    same(len(srv.reqs), n0, "requests of waiting for a pipeline that is not running")
                same(list(r), m.out, "output of end_invoke")
            else:
                f = p.connect if k == "connect" else p.connect_async
                if m.state != PS.DISCONNECTED:
                    refused(f, m, "connect", k)
                    same(len(srv.reqs), n0, "requests of a refused connect")
                elif connected[0] and o[2] == 2 and k == "connect_async":
                    faulty(f, "Connect", 2150858843, n0, k)
                elif connected[0]:
                    r = f()
                    labels.add("connected")
                    q = srv.reqs[n0]
                    same((q.action, q.one("rsp:Connect").get("CommandId")), ("Connect", m.c.id), "request of connecting")
                    m.remote, m.state = True, PS.RUNNING
                    if k == "connect":
                        absorb(m)
                        same(list(r), m.out, "output of connect")
                        require(m.state in VALID["close"], "connect returns while the pipeline is in the state %r", m.state)
                    else:
                        same(len(srv.reqs), n0 + 1, "requests of connect_async")
            show(k)
        pool.close()
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    for c in srv.created:
        require(len([s for s in c.signals if s.lower().endswith("terminate")]) <= 1, "a pipeline was released twice")
        same(c.after_done, 0, "requests for output after the end")
    return Info(bool(labels - {"empty"}), sorted(labels))


SUBS = [Sub("history", lambda: cases, check, quick=700, thorough=15000, qshards=6, tshards=8)]
