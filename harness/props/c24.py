"""C24: pipeline input reaches the server once, in order, then ends once."""
from hypothesis import strategies as st

import gens
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c02
from pypsrp.complex_objects import PSInvocationState
from pypsrp.powershell import PowerShell, RunspacePool

PROPERTY = "C24"
RULE = ("input: one to three pipelines of one pool, each started once or twice with generated input (none, single values, lists, generators of values and of lists, values of every kind also serialized beforehand, false values, values "
        "larger than an envelope, generators that start another pipeline while they run) over generated envelope sizes; the server's messages of each pipeline are compared with what was supplied. Non-trivial: two or more input objects, or an "
        "input spread over two requests, or a pipeline started from the input of another.")

val = c02.values(6)
big = st.integers(2000, 60000).map(lambda n: ("p", "S", "ab" * (n // 2), False))
edge = st.integers(4000, 6200).map(lambda n: ("p", "BA", b"x" * n, False))
element = st.tuples(st.sampled_from(["plain", "plain", "plain", "ser"]), gens.choose(val, val, val, big, edge, st.sampled_from([("none",), ("p", "S", "", False), ("p", "I32", 0, False), ("p", "B", False, False), ("l", [])])))
elements = st.lists(element, max_size=6)
many = st.integers(7, 120).map(lambda n: [("plain", ("p", "I32", k, False)) for k in range(n)])
scalar = element.filter(lambda e: e[1][0] not in ("none", "l") or e[0] == "ser" and e[1][0] == "l")
inputs = gens.choose(
    st.just(("none",)), st.tuples(st.just("scalar"), scalar), st.tuples(st.just("list"), elements), st.tuples(st.just("list"), many),
    st.tuples(st.just("gen"), st.lists(gens.choose(st.tuples(st.just("one"), element.filter(lambda e: e[1][0] != "l" or e[0] == "ser")), st.tuples(st.just("many"), elements), st.just(("begin",))), max_size=6)))
pipe = st.fixed_dictionaries({"input": inputs, "again": st.booleans(), "script": gens.choose(st.just("s"), st.just("s"), st.integers(1, 20000).map(lambda n: "#" * n)), "how": st.booleans()})
cases = st.fixed_dictionaries({"pipes": st.lists(pipe, min_size=1, max_size=3), "env": st.sampled_from([153600, 7000, 9000, 20000]), "other_id": st.booleans(), "hold": st.lists(st.integers(0, 1), max_size=2)})


class Srv(server.Server):
    other = False

    def command_id(self, sh, wanted):
        return self.new_id() if self.other else wanted

    def run_pipeline(self, sh, c, m):
        noinput = m.node().prop("NoInput").value
        if noinput:
            self.finish(sh, c)

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        if not c.done:
            self.finish(sh, c)


def check(case):
    srv = Srv(server.Plan({"hold": case["hold"]}))
    srv.other = case["other_id"]
    labels = set()
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman(max_envelope_size=case["env"]))
        pool.open()
        pipes = []
        for p in case["pipes"]:
            ps = PowerShell(pool)
            ps.add_script(p["script"])
            pipes.append(ps)
        started = {}

        def supply(i):
            """-> (input argument, list the expected objects are added to as they are supplied)"""
            kind = case["pipes"][i]["input"]
            sent = []
            snaps = []

            def make(e):
                form, s = e
                v = c02.build(s)
                if form == "ser" and s[0] != "none":
                    v = pool.serialize(v)
                else:
                    snaps.append((v, c02.snap(v)))
                sent.append(c02.expect(s))
                return v

            if kind[0] == "none":
                return None, None, snaps
            if kind[0] == "scalar":
                return make(kind[1]), sent, snaps
            if kind[0] == "list":
                if not kind[1]:
                    return [], None, snaps
                return [make(e) for e in kind[1]], sent, snaps

            def gen():
                for x in kind[1]:
                    if x[0] == "one":
                        yield make(x[1])
                    elif x[0] == "many":
                        yield [make(e) for e in x[1]]
                    else:
                        j = (i + 1) % len(pipes)
                        if j not in started:
                            labels.add("within")
                            begin(j)

            return gen(), sent, snaps

        def begin(i):
            started[i] = None
            ps = pipes[i]
            n0 = len(srv.msgs)
            inp, sent, snaps = supply(i)
            r0 = len(srv.reqs)
            how = case["pipes"][i]["how"]
            if inp is None and how:
                ps.begin_invoke()
            elif how:
                ps.begin_invoke(inp)
            else:
                ps.begin_invoke(input=inp)
            started[i] = (n0, sent)
            mine = [(c, m) for _, c, m in srv.msgs[n0:] if m.pid.upper() == ps.id.upper()]
            names = [m.name for _, m in mine]
            want = ["CREATE_PIPELINE"] + ([] if sent is None else ["PIPELINE_INPUT"] * len(sent) + ["END_OF_PIPELINE_INPUT"])
            same(names, want, "messages of pipeline %d" % i)
            same({id(c) for c, _ in mine}, {id(mine[0][0])}, "commands the messages of one pipeline were sent to")
            same({m.stream for _, m in mine}, {"stdin"}, "streams the messages were sent on")
            same(mine[0][1].node().prop("NoInput").value, sent is None, "NoInput of pipeline %d" % i)
            for k, (_, m) in enumerate(mine[1:-1] if sent is not None else []):
                got = rc.plain(m.node())
                require(got == sent[k], "input %d of pipeline %d: got %s, want %s", k, i, clip(got), clip(sent[k]))
            if sent is not None:
                same(mine[-1][1].xml, "", "body of the end of the input")
                if len(sent) > 1:
                    labels.add("inputs")
            if sum(1 for r in srv.reqs[r0:] if r.action == "Send") > 1:
                labels.add("requests")
            for v, s in snaps:
                require(c02.snap(v) == s, "sending changed an input of the caller")
            require(not any(s.asm.pending for s in srv.shells.values()), "the last message is incomplete")

        def finish(i):
            ps = pipes[i]
            n0 = len(srv.msgs)
            ps.end_invoke()
            same(ps.state, PSInvocationState.COMPLETED, "state of pipeline %d" % i)
            ps.close()
            same([m.name for _, _, m in srv.msgs[n0:]], [], "messages of waiting for a pipeline")

        for i in range(len(pipes)):
            if i not in started:
                begin(i)
        for i in range(len(pipes)):
            finish(i)
        for i, p in enumerate(case["pipes"]):
            if p["again"]:
                labels.add("again")
                started.update(dict.fromkeys(range(len(pipes))))  # the generator starts nothing then
                begin(i)
                finish(i)
        pool.close()
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels - {"again"}), sorted(labels))


SUBS = [Sub("input", lambda: cases, check, quick=200, thorough=4000, qshards=6, tshards=8)]
