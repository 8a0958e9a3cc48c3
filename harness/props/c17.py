"""C17: a remote process's output, exit code and input arrive complete and in order."""
import re

from hypothesis import strategies as st

import gens
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import WSManFaultError
from pypsrp.shell import CommandState, Process, SignalCode, WinRS

PROPERTY = "C17"
RULE = ("process: one to three processes in one shell with generated command lines, output chunks over both streams, exit codes and deliveries (pieces per answer, operation timeouts, empty answers, faults), driven by generated "
        "sequences of begin, poll, send, signal, wait and invoking again. After every step each process shows exactly what its command was delivered. Non-trivial: output on a stream in at least two answers, input in at "
        "least two requests, or a timeout or fault in between.")

chunk = gens.choose(st.binary(max_size=6), st.text(max_size=4).map(lambda s: s.encode("utf-8", "surrogatepass")), st.tuples(st.binary(min_size=1, max_size=3), st.integers(1, 3000)).map(lambda t: t[0] * t[1]))
piece = st.tuples(st.sampled_from(["stdout", "stdout", "stderr"]), chunk)
output = gens.choose(*([st.lists(piece, max_size=8)] * 7 + [st.tuples(st.lists(piece, min_size=1, max_size=4), st.integers(4, 20)).map(lambda t: t[0] * t[1])]))
rcs = gens.choose(st.sampled_from([0, 1, 255, -1]), st.integers(-(2**31), 2**32 - 1))
run = st.fixed_dictionaries({"out": output, "late": output, "rc": rcs, "wait": st.sampled_from([None, None, "input", "signal"])})
proc = st.fixed_dictionaries({"exe": gens.xtext(), "args": gens.choose(st.none(), st.lists(gens.xtext(), max_size=4), st.lists(gens.xtext(), max_size=4), st.lists(gens.xtext(4), max_size=24)), "id": st.one_of(st.none(), gens.uuid_str), "no_shell": st.booleans(), "runs": st.lists(run, min_size=1, max_size=2)})
few = st.tuples(st.integers(1, 2), st.integers(-2, 2))
size = gens.choose(st.integers(0, 20), st.integers(0, 20), st.integers(0, 20), few, few, few, st.tuples(st.integers(3, 9), st.integers(-2, 2)))
op = st.one_of(st.tuples(st.just("begin"), st.integers(0, 2)), st.tuples(st.just("poll"), st.integers(0, 2), st.sampled_from([None, None, 1, 30])), st.tuples(st.just("poll"), st.integers(0, 2), st.just(None)),
               st.tuples(st.just("send"), st.integers(0, 2), size, st.booleans()), st.tuples(st.just("signal"), st.integers(0, 2), st.sampled_from(["CTRL_C", "CTRL_BREAK"])), st.tuples(st.just("end"), st.integers(0, 2)),
               st.tuples(st.just("fault"), st.integers(0, 2), st.sampled_from([5, 2150858843, 995])), st.tuples(st.just("invoke"), st.integers(0, 2)))
plans = st.fixed_dictionaries({"per_response": gens.choose(st.lists(st.integers(1, 4), max_size=4), st.lists(st.integers(1, 30), max_size=4)), "hold": st.lists(st.integers(0, 2), max_size=6), "end_mark": st.booleans()})
cases = st.fixed_dictionaries({"procs": st.lists(proc, min_size=1, max_size=3), "ops": st.lists(op, max_size=12), "plan": plans, "states": st.lists(st.sampled_from(["Running", "Pending", None]), max_size=3), "kb": st.sampled_from([None, 32, 200]), "renames": st.sampled_from([False, False, True])})


class Srv(server.Server):
    def __init__(self, plan, states):
        server.Server.__init__(self, plan)
        self.states = server.Cycle(states, "Running")
        self.start = []  # scripts for the next commands
        self.fault_next = None
        self.answers = {}
        self.renames = False

    def command_id(self, sh, wanted):
        return self.new_id() if self.renames else server.Server.command_id(self, sh, wanted)

    def on_process(self, c):
        s = self.start.pop(0)
        c.script = s
        c.seen = {"stdout": b"", "stderr": b""}
        c.pieces = {"stdout": 0, "stderr": 0}
        c.out.extend(s["out"])
        c.rc = s["rc"]
        if s["wait"] is None:
            self.release(c)

    def release(self, c):
        if not c.done:
            c.out.extend(c.script["late"])
            c.done = True

    def on_input(self, c, stream, data, end):
        if c.script["wait"] == "input" and end is not None and end.lower() == "true":
            self.release(c)

    def on_signal(self, c, code):
        if c.script["wait"] == "signal":
            self.release(c)

    def do_Receive(self, req):
        if self.fault_next is not None:
            code, self.fault_next = self.fault_next, None
            return soap.fault(req, code)
        return server.Server.do_Receive(self, req)

    def receive_body(self, c, items):
        for n, d in items:
            c.seen[n] += d
        for n in {n for n, d in items if d}:
            c.pieces[n] += 1
        b = server.Server.receive_body(self, c, items)
        state = self.states.next()
        running = re.compile('<rsp:CommandState [^>]*/Running"></rsp:CommandState>')
        b = running.sub("", b) if state is None else running.sub(lambda m: m.group(0).replace("/Running", "/" + state), b)
        said = re.search('/CommandState/([A-Za-z]+)"', b)
        c.said = said.group(1) if said else "Pending"
        return b


def check(case):
    srv = Srv(server.Plan(case["plan"]), case["states"])
    srv.renames = case["renames"]
    labels = set()
    with wire.wire(srv):
        w = server.new_wsman(**({} if case["kb"] is None else {"max_envelope_size": case["kb"] * 1024}))
        sh = WinRS(w)
        sh.open()
        procs = [Process(sh, p["exe"], None if p["args"] is None else list(p["args"]), id=p["id"], no_shell=p["no_shell"]) for p in case["procs"]]
        for x in procs:
            same((x.state, x.rc, x.stdout, x.stderr), (CommandState.PENDING, None, b"", b""), "what a process shows before it is started")
        state = [{"cmd": None, "run": 0, "sent": []} for _ in procs]
        payload = w.max_payload_size

        def show(i, what):
            c = state[i]["cmd"]
            require(procs[i].stdout == c.seen["stdout"], "stdout of process %d after %s: got %s, the server sent %s", i, what, clip(procs[i].stdout), clip(c.seen["stdout"]))
            require(procs[i].stderr == c.seen["stderr"], "stderr of process %d after %s: got %s, the server sent %s", i, what, clip(procs[i].stderr), clip(c.seen["stderr"]))
            same(procs[i].state, getattr(CommandState, getattr(c, "said", "Pending").upper()), "state of process %d after %s" % (i, what))
            if c.reported_done:
                same(procs[i].rc, c.rc, "exit code of process %d" % i)
                same(procs[i].state, CommandState.DONE, "state of process %d" % i)
            else:
                require(procs[i].state != CommandState.DONE, "process %d is done after %s, the server did not say so", i, what)
                same(procs[i].rc, None, "exit code of process %d before it is done" % i)

        def begin(i):
            s, p = state[i], case["procs"][i]
            k = s["run"] % len(p["runs"])
            s["run"] += 1
            srv.start.append(p["runs"][k])
            return p

        def begun(i, p):
            s = state[i]
            require(not srv.start, "no command was created")
            n = [r for r in srv.reqs if r.action == "Command"][-1]
            c = list(srv.shells.values())[0].commands
            cid = n.one("rsp:CommandLine").get("CommandId")
            same(cid, p["id"], "id of the command")
            c = [x for x in c.values()][-1] if p["id"] is None or case["renames"] else c[p["id"].upper()]
            s.update(cmd=c, sent=[])
            same(c.executable, p["exe"], "command")
            same(c.args, p["args"] or [], "arguments")
            same([(a, b) for a, b, _ in n.options or []], [("WINRS_SKIP_CMD_SHELL", str(p["no_shell"]))], "options of the command")
            same(procs[i].id, c.id, "id of process %d" % i)

        def can_begin(i):
            c = state[i]["cmd"]
            if c is None:
                return True
            if not c.reported_done:
                return False
            if c.id and case["procs"][i]["id"] and not c.gone:
                procs[i].signal(SignalCode.TERMINATE)  # the id is free again
                same(c.signals[-1:], [SignalCode.TERMINATE], "signal")
            return True

        def wait(i, what, f):
            try:
                f()
            except WSManFaultError as e:
                labels.add("fault")
                same(e.code, op_fault[0], "code of the fault")
                op_fault[0] = None
                return False
            require(op_fault[0] is None or srv.fault_next is not None, "%s hides a fault of the server", what)
            return True

        op_fault = [None]
        todo = list(case["ops"]) + [("begin", i) for i in range(len(procs))] + [("end", i) for i in range(len(procs))]
        for o in todo:
            i = o[1] % len(procs)
            P, s = procs[i], state[i]
            c = s["cmd"]
            n0 = len(srv.reqs)
            if o[0] in ("begin", "invoke"):
                if not can_begin(i) or (o in todo[len(case["ops"]) :] and c is not None):
                    continue
                p = begin(i)
                if o[0] == "begin" or p["runs"][(s["run"] - 1) % len(p["runs"])]["wait"]:
                    P.begin_invoke()
                    begun(i, p)
                    show(i, "begin")
                else:
                    ok = wait(i, "invoke", P.invoke)
                    begun(i, p)
                    if ok:
                        require(s["cmd"].reported_done, "invoke returns before the process is done")
                    show(i, "invoke")
                    labels.add("again" if s["run"] > 1 else "invoke")
                continue
            if c is None or c.gone:
                continue
            if o[0] == "poll":
                if c.reported_done or not c.out and not c.done:
                    continue
                k = c.receives
                wait(i, "poll", lambda: P.poll_invoke(timeout=o[2]))
                r = srv.reqs[-1]
                same(len(srv.reqs), n0 + 1, "requests of a poll")
                same(r.action, "Receive", "request of a poll")
                same(r.op_timeout, "PT%dS" % (o[2] or 20), "operation timeout of the poll")
                d = r.one("rsp:Receive").find(soap.q("rsp:DesiredStream"))
                same((d.text, d.get("CommandId")), ("stdout stderr", c.id), "streams and command of the poll")
                show(i, "poll")
            elif o[0] == "send":
                if c.reported_done:
                    continue
                z = o[2] if isinstance(o[2], int) else o[2][0] * payload + o[2][1]
                data = (b"%d:" % len(s["sent"]) + bytes(range(256)) * (z // 256 + 1))[:z]
                k = len(c.input)
                P.send(data, end=o[3])
                new = c.input[k:]
                same(b"".join(d for _, d, _ in new), data, "input of process %d" % i)
                same([n for n, _, _ in new], ["stdin"] * len(new), "stream of the input")
                same([e is not None and e.lower() for _, _, e in new], ["false"] * (len(new) - 1) + [str(o[3]).lower()], "end marks of the input")
                if len(new) > 1:
                    labels.add("split input")
                s["sent"].append(data)
            elif o[0] == "signal":
                if c.reported_done:
                    continue
                k = len(c.signals)
                P.signal(getattr(SignalCode, o[2]))
                same(c.signals[k:], [getattr(SignalCode, o[2])], "signals process %d got" % i)
                same(len(srv.reqs), n0 + 1, "requests of a signal")
            elif o[0] == "fault":
                if c.reported_done or not c.out and not c.done or op_fault[0] is not None:
                    continue
                srv.fault_next = op_fault[0] = o[2]
            elif o[0] == "end":
                if not c.done:
                    if c.script["wait"] == "input":
                        P.send(b"", end=True)
                    else:
                        P.signal(SignalCode.CTRL_C)
                while not wait(i, "end", P.end_invoke):
                    show(i, "a fault")
                require(c.reported_done, "waiting returns before the process is done")
                show(i, "end")
                n1 = len(srv.reqs)
                P.end_invoke()
                same(len(srv.reqs), n1, "requests of waiting for a process that is done")
                if max(c.pieces.values()) > 1:
                    labels.add("pieces")
        sh.close()
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    for c in list(srv.shells.values())[0].commands.values():
        same(c.after_done, 0, "requests for output after the command was done")
    if any(case["plan"]["hold"]):
        labels.add("timeouts")
    return Info(bool(labels - {"invoke"}), sorted(labels))


SUBS = [Sub("process", lambda: cases, check, quick=250, thorough=5000, qshards=4, tshards=8)]
