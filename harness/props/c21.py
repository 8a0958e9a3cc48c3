"""C21: pipeline output and stream records are delivered once, in order, complete."""
from hypothesis import strategies as st

import gens
import psrp
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c08
from pypsrp.complex_objects import PSInvocationState
from pypsrp.exceptions import WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool

PROPERTY = "C21"
RULE = ("streams: one to three pipelines of one pool whose server sends generated records of all seven streams, host calls nobody asked for, a final state with or without error, cut into fragments, interleaved and "
        "delivered in generated pieces with operation timeouts, empty answers and faults between; the caller polls, waits and starts them in generated orders. After every step each stream holds exactly the records whose "
        "last fragment was delivered. Non-trivial: a record spread over two answers, a timeout or fault, or two pipelines running at once.")

STREAMS = {"PIPELINE_OUTPUT": "output", "ERROR_RECORD": "error", "WARNING_RECORD": "warning", "VERBOSE_RECORD": "verbose", "DEBUG_RECORD": "debug", "PROGRESS_RECORD": "progress", "INFORMATION_RECORD": "information"}


def rec(n):
    return st.tuples(st.just(n), c08.SRV[n][0])


record = gens.choose(*([rec(n) for n in STREAMS] + [rec("PIPELINE_OUTPUT"), rec("PIPELINE_HOST_CALL")]))
recs = gens.choose(*([st.lists(record, max_size=8)] * 5 + [st.tuples(st.lists(record, min_size=1, max_size=4), st.integers(8, 40)).map(lambda t: t[0] * t[1])]))
script = st.fixed_dictionaries({"recs": recs, "state": st.sampled_from([4, 4, 5, 5, 3]), "err": st.none() | c08.err_fields, "running": st.booleans(),
                                "order": st.lists(st.integers(0, 3), max_size=5), "wait": st.booleans()})
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(1, 60), st.integers(200, 2000), st.just(32768)), min_size=1, max_size=3), "per_response": st.lists(st.integers(1, 6), max_size=4),
                               "per_stream": st.lists(st.integers(1, 3), max_size=3), "hold": st.lists(st.integers(0, 2), max_size=6), "bom": st.booleans()})
op = st.one_of(st.tuples(st.just("begin"), st.integers(0, 2)), st.tuples(st.just("poll"), st.integers(0, 2), st.sampled_from([None, None, 1, 40])), st.tuples(st.just("poll"), st.integers(0, 2), st.none()),
               st.tuples(st.just("end"), st.integers(0, 2)), st.tuples(st.just("invoke"), st.integers(0, 2)), st.tuples(st.just("fault"), st.integers(0, 2), st.sampled_from([5, 2150858843, 995])))
cases = st.fixed_dictionaries({"pipes": st.lists(script, min_size=1, max_size=3), "ops": st.lists(op, max_size=14), "plan": plans})


class Piece(bytes):
    """a packed fragment that knows which message it completes"""

    done = None


class Srv(server.Server):
    max_frags = 8

    def __init__(self, plan):
        server.Server.__init__(self, plan)
        self.scripts = []
        self.fault_next = None

    def run_pipeline(self, sh, c, m):
        s = c.script = self.scripts.pop(0)
        c.seen = []  # messages whose last fragment was delivered
        c.answers = 0
        msgs = list(s["recs"])
        if s["running"]:
            msgs.insert(len(msgs) // 2, ("PIPELINE_STATE", (1, None)))
        lists = []
        for n, f in msgs:
            l = [self.piece(x) for x in sh.sender.frags(n, c08.SRV[n][1](f), c.id)]
            l[-1].done = (n, f)
            lists.append(l)
        c.out.extend(psrp.interleave(lists, s["order"]) if s["order"] else [f for l in lists for f in l])
        if s["wait"]:
            c.idles = 2  # the end comes late
        else:
            self.end(sh, c)

    def end(self, sh, c):
        s = c.script
        f = (s["state"], s["err"])
        l = [self.piece(x) for x in sh.sender.frags("PIPELINE_STATE", c08.SRV["PIPELINE_STATE"][1](f), c.id)]
        l[-1].done = ("PIPELINE_STATE", f)
        c.out.extend(l)
        c.done = True

    def on_idle(self, sh, c):
        if c is not None and not c.done:
            c.idles -= 1
            if c.idles <= 0:
                self.end(sh, c)

    def piece(self, f):
        return Piece(f.pack())

    def do_Receive(self, req):
        if self.fault_next is not None:
            code, self.fault_next = self.fault_next, None
            return soap.fault(req, code)
        return server.Server.do_Receive(self, req)

    def receive_body(self, c, items):
        for p in items:
            if c is not None and p.done:
                c.seen.append(p.done)
        if c is not None and items:
            c.answers += 1
        return server.Server.receive_body(self, c, items)


def check(case):
    srv = Srv(server.Plan(case["plan"]))
    labels = set()
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman())
        pool.open()
        sh = list(srv.shells.values())[0]
        pipes = []
        for k in range(len(case["pipes"])):
            ps = PowerShell(pool)
            ps.add_script("pipe %d" % k)
            pipes.append(ps)
        cmds = [None] * len(pipes)

        def show(what):
            """every pipeline shows what it was delivered, not only the one that was polled"""
            for i, ps in enumerate(pipes):
                c = cmds[i]
                seen = c.seen if c is not None else []
                got = {"output": ps.output}
                got.update({n: getattr(ps.streams, n) for n in STREAMS.values() if n != "output"})
                want = {n: [] for n in got}
                state, had = (1 if c is not None else 0), False
                for n, f in seen:
                    if n in STREAMS:
                        want[STREAMS[n]].append((n, f))
                    elif n == "PIPELINE_STATE":
                        state = f[0]
                        had = f[0] == 5
                        if f[1] is not None:
                            want["error"].append(("ERROR_RECORD", f[1]))
                for n in got:
                    same(len(got[n]), len(want[n]), "number of records in the %s stream of pipeline %d after %s" % (n, i, what))
                    for k, (o, (kind, f)) in enumerate(zip(got[n], want[n])):
                        if n == "output":
                            c08.eq(o, c08.py(f), "output %d of pipeline %d" % (k, i))
                        else:
                            same(type(o).__name__ if kind != "ERROR_RECORD" else "ErrorRecordMessage", c08.CLS[kind], "class of a record in the %s stream" % n)
                            c08.SRV[kind][2](o, f)
                same(ps.state, state, "state of pipeline %d after %s" % (i, what))
                same(ps.had_errors, had, "had_errors of pipeline %d after %s" % (i, what))

        pending = [None]

        def wait(f):
            try:
                f()
            except WSManFaultError as e:
                same(e.code, pending[0], "code of the fault")
                pending[0] = None
                labels.add("fault")
                return False
            require(pending[0] is None or srv.fault_next is not None, "a fault of the server is not reported")
            return True

        def running(i):
            return cmds[i] is not None and pipes[i].state == PSInvocationState.RUNNING

        def begin(i, f):
            srv.scripts.append(case["pipes"][i])
            n = len(sh.commands)
            ok = wait(f)
            require(len(sh.commands) == n + 1, "no pipeline was created")
            cmds[i] = list(sh.commands.values())[-1]
            return ok

        def finished(i, what):
            require(any(n == "PIPELINE_STATE" and f[0] != 1 for n, f in cmds[i].seen), "%s returns before the pipeline ended", what)

        todo = list(case["ops"]) + [("begin", i) for i in range(len(pipes))] + [("end", i) for i in range(len(pipes))]
        for o in todo:
            i = o[1] % len(pipes)
            ps = pipes[i]
            n0 = len(srv.reqs)
            if o[0] in ("begin", "invoke"):
                if cmds[i] is not None:
                    continue
                if o[0] == "begin":
                    begin(i, ps.begin_invoke)
                elif begin(i, lambda: same(ps.invoke() is ps.output, True, "invoke returns the output")):
                    finished(i, "invoke")
                if sum(map(running, range(len(pipes)))) > 1:
                    labels.add("concurrent")
            elif o[0] == "poll":
                if not running(i):
                    continue
                wait(lambda: ps.poll_invoke(timeout=o[2]))
                same(len(srv.reqs), n0 + 1, "requests of a poll")
                r = srv.reqs[-1]
                same(r.op_timeout, "PT%dS" % (o[2] or 20), "operation timeout of a poll")
                d = r.one("rsp:Receive").find(soap.q("rsp:DesiredStream"))
                same((d.text, d.get("CommandId")), ("stdout", cmds[i].id), "stream and command of a poll")
            elif o[0] == "fault":
                if not running(i) or pending[0] is not None:
                    continue
                srv.fault_next = pending[0] = o[2]
            elif o[0] == "end":
                if cmds[i] is None:
                    continue
                out = []
                while not wait(lambda: out.append(ps.end_invoke())):
                    show("a fault")
                require(out[0] is ps.output, "end_invoke does not return the output")
                finished(i, "end_invoke")
                n1 = len(srv.reqs)
                require(ps.end_invoke() is ps.output, "end_invoke does not return the output")
                same(len(srv.reqs), n1, "requests of waiting for a pipeline that has ended")
            show(o[0])
        for i, c in enumerate(cmds):
            same(c.after_done, 0, "requests for output of pipeline %d after the server reported the end" % i)
            if c.answers > 1:
                labels.add("pieces")
        pool.close()
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    require(not [m for _, _, m in srv.msgs if "HOST_RESPONSE" in m.name], "a response to a host call without a host")
    if any(case["plan"]["hold"]):
        labels.add("timeouts")
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("streams", lambda: cases, check, quick=200, thorough=5000, qshards=6, tshards=8)]
