"""C23: the pipeline sent is exactly the one the caller built."""
from hypothesis import strategies as st

import gens
import hosts
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c02, c08
from pypsrp.complex_objects import ApartmentState, Command, CommandParameter, PSInvocationState
from pypsrp.exceptions import InvalidPSRPOperation
from pypsrp.powershell import PowerShell, RunspacePool

PROPERTY = "C23"
RULE = ("build: generated sequences of builder calls (cmdlets, scripts, commands of the caller's own shared between pipelines, arguments, parameters, parameter dictionaries, statements, all merge settings, clearing) over up to three "
        "pipelines of pools of each protocol version with generated hosts, options, envelope sizes and values (also serialized beforehand and used twice), interleaved with invoking, inspecting and invoking again; the definition the server "
        "received is read by the reference reader and compared with the model of the calls. Non-trivial: two statements, two pipelines, a merge, or a definition of more than one fragment.")

TO = ["none", "output", "null"]
NUM = {"none": 0, "output": 1, "null": 8}
TXT = {0: "None", 1: "Output", 2: "Error", 8: "Null"}
TYPES = ("System.Management.Automation.Runspaces.PipelineResultTypes", "System.Enum", "System.ValueType", "System.Object")
val = c02.values(5)
big = st.integers(3000, 20000).map(lambda n: ("p", "S", "x" * n, False))
# how a value is given: as it is, serialized beforehand, or the value of an earlier call again
given = st.tuples(st.sampled_from(["plain", "plain", "plain", "ser", "again"]), gens.choose(val, val, val, big, st.just(("none",))))
pname = gens.choose(gens.ident(6), gens.text(8))
to = st.sampled_from(TO + ["none", "output", "bogus"])
local = st.sampled_from([None, True, False])
own = st.fixed_dictionaries({"cmd": gens.text(12), "is_script": st.booleans(), "local": local, "args": st.lists(st.tuples(st.none() | pname, val), max_size=3), "eos": st.booleans()})
P = st.sampled_from([0, 0, 0, 1, 1, 2])
op = gens.choose(
    st.tuples(st.just("cmdlet"), P, gens.text(12), local), st.tuples(st.just("cmdlet"), P, gens.ident(8), st.none()), st.tuples(st.just("script"), P, gens.text(20), local), st.tuples(st.just("own"), P, st.integers(0, 2)),
    st.tuples(st.just("arg"), P, given), st.tuples(st.just("param"), P, pname, given), st.tuples(st.just("param"), P, pname, st.none()), st.tuples(st.just("params"), P, st.lists(st.tuples(pname, given), max_size=3, unique_by=lambda x: x[0])),
    st.tuples(st.just("statement"), P), st.tuples(st.just("merge"), P, st.sampled_from(["error", "warning", "verbose", "debug", "information"]), to),
    st.tuples(st.just("merge"), P, st.just("all"), to), st.tuples(st.just("previous"), P, st.booleans()), st.tuples(st.just("reset"), P), st.tuples(st.just("invoke"), P), st.tuples(st.just("look"), P))
mod = gens.choose(st.tuples(st.just("arg"), given), st.tuples(st.just("param"), pname, given), st.tuples(st.just("merge"), st.sampled_from(["error", "warning", "verbose", "debug", "information", "all"]), to),
                  st.tuples(st.just("previous"), st.booleans()), st.tuples(st.just("params"), st.lists(st.tuples(pname, given), max_size=3, unique_by=lambda x: x[0])))
block = st.tuples(P, gens.choose(st.tuples(st.just("cmdlet"), gens.ident(8), local), st.tuples(st.just("script"), gens.text(20), local)), st.lists(mod, max_size=4), st.booleans()).map(
    lambda b: [(x[0], b[0]) + tuple(x[1:]) for x in [b[1]] + b[2] + ([("statement",)] if b[3] else [])])
rare = gens.choose(st.tuples(st.just("clear"), P), st.tuples(st.just("nest"), P))
options = st.fixed_dictionaries({"hist": st.booleans(), "ap": st.sampled_from([None, None, 0, 1, 2]), "redirect": st.booleans(), "rso": st.integers(0, 15), "history": st.none() | gens.text(12), "default": st.booleans()})
cases = st.fixed_dictionaries({"proto": st.sampled_from(["2.1", "2.2", "2.3", "2.0", "2.10", "3.0", "2.3.1"]), "host": hosts.host, "env": st.sampled_from([153600, 9000, 12000]), "pool_ap": st.integers(0, 2), "own": st.lists(own, min_size=1, max_size=3),
                               "ops": st.lists(gens.choose(op.map(lambda o: [o]), op.map(lambda o: [o]), block, block, rare.map(lambda o: [o])), min_size=1, max_size=12).map(lambda l: [o for b in l for o in b]), "opts": st.lists(options, min_size=1, max_size=3), "plan": st.fixed_dictionaries({"hold": st.lists(st.integers(0, 1), max_size=2)})})


def older(proto, minor):
    return tuple(map(int, proto.split("."))) < (2, minor)


class Srv(server.Server):
    def run_pipeline(self, sh, c, m):
        self.last = (c, m)
        self.finish(sh, c)


class Cmd:
    def __init__(self, cmd, is_script, local):
        self.cmd, self.is_script, self.local = cmd, is_script, local
        self.m = dict.fromkeys(["MyResult", "ToResult", "PreviousResults", "Error", "Warning", "Verbose", "Debug", "Information"], 0)
        self.args = []
        self.eos = False
        self.shared = False

    def plain(self, proto):
        ms = {"Cmd": ("S", self.cmd), "IsScript": ("B", self.is_script), "UseLocalScope": ("Nil", None) if self.local is None else ("B", self.local)}
        for n, v in self.m.items():
            if n in ("Error", "Warning", "Verbose", "Debug") and older(proto, 2) or n == "Information" and older(proto, 3):
                continue
            ms["Merge" + n] = {"types": TYPES, "tostring": "Output, Error" if v == 3 else TXT[v], "sets": [("I32", v)]}
        ms["Args"] = [{"N": ("Nil", None) if n is None else ("S", n), "V": v} for n, v in self.args]
        return ms


def got_cmd(d):
    ms = dict(d["ms"])
    a = ms.get("Args")
    require(isinstance(a, dict) and a.get("c") == "LST", "a command has no list of arguments: %s", clip(d))
    ms["Args"] = [i["ms"] for i in a["items"]]
    return ms


def got_list(d, what):
    require(isinstance(d, dict) and d.get("c") == "LST", "%s is no list: %s", what, clip(d))
    return d["items"]


def statements(cmds):
    out = [[]]
    for c in cmds:
        out[-1].append(c)
        if c.eos:
            out.append([])
    return [s for s in out if s]


def check(case):
    srv = Srv(server.Plan(case["plan"]), proto=case["proto"])
    proto = case["proto"]
    labels = set()
    with wire.wire(srv):
        pool = RunspacePool(server.new_wsman(max_envelope_size=case["env"]), host=hosts.make(case["host"]), apartment_state=case["pool_ap"])
        pool.open()
        pipes, models = [], []
        kept = []  # (value, spec, snap)

        def value(g):
            """-> (Python value, expected plain)"""
            if g is None:
                return None, ("Nil", None)
            form, s = g
            if form == "again" and kept:
                v, s, _ = kept[len(s) % len(kept)]
                return v, c02.expect(s)
            v = c02.build(s)
            if form == "ser" and s[0] != "none":
                return pool.serialize(v), c02.expect(s)
            kept.append((v, s, c02.snap(v)))
            return v, c02.expect(s)

        owned = []
        for o in case["own"]:
            m = Cmd(o["cmd"], o["is_script"], o["local"])
            m.shared, m.eos = True, o["eos"]
            m.args = [(n, c02.expect(s)) for n, s in o["args"]]
            c = Command(o["cmd"], protocol_version=proto, is_script=o["is_script"], use_local_scope=o["local"], args=[CommandParameter(name=n, value=c02.build(s)) for n, s in o["args"]], end_of_statement=o["eos"])
            owned.append((c, m))

        def look(i):
            """what the pipeline shows of itself"""
            ps, m = pipes[i], models[i]
            same(len(ps.commands), len(m), "number of commands of pipeline %d" % i)
            for k, (a, b) in enumerate(zip(ps.commands, m)):
                same((a.cmd, a.is_script, a.use_local_scope, bool(a.end_of_statement), [p.name for p in a.args]), (b.cmd, b.is_script, b.local, b.eos, [n for n, _ in b.args]), "command %d of pipeline %d" % (k, i))

        def send(i):
            ps, m = pipes[i], models[i]
            o = case["opts"][i % len(case["opts"])]
            n0 = len(srv.reqs)
            n1 = len(srv.msgs)
            kw, ap, rso, hist, redirect = {}, case["pool_ap"], 15, False, False
            ps.history_string = o["history"]
            if not o["default"]:
                kw = dict(add_to_history=o["hist"], redirect_shell_error_to_out=o["redirect"], remote_stream_options=o["rso"])
                rso, hist, redirect = o["rso"], o["hist"], o["redirect"]
                if o["ap"] is not None:
                    kw["apartment_state"] = ap = o["ap"]
            if not m:
                try:
                    ps.begin_invoke(**kw)
                except InvalidPSRPOperation:
                    same(len(srv.reqs), n0, "requests of invoking a pipeline without commands")
                    return
                fail("a pipeline without commands was invoked")
            ps.begin_invoke(**kw)
            if sum(1 for r in srv.reqs[n0:] if r.action in ("Command", "Send")) > 1:
                labels.add("fragments")
            new = srv.msgs[n1:]
            same([x[2].name for x in new], ["CREATE_PIPELINE"], "messages of starting a pipeline")
            c, msg = srv.last
            same(msg.pid.upper(), ps.id.upper(), "pipeline id of the message")
            d = rc.plain(msg.node())["ms"]
            nested = ps in nests
            want = rc.plain(rc.read(rc.write(psrp.obj([
                ("NoInput", ("B", True)), ("ApartmentState", c08.E("System.Management.Automation.Runspaces.ApartmentState", c08.AS[ap], ap)),
                ("RemoteStreamOptions", c08.E("System.Management.Automation.Runspaces.RemoteStreamOptions", c08.rso_text(rso), rso)), ("AddToHistory", ("B", hist)), ("HostInfo", hosts.spec(case["host"])),
                ("IsNested", ("B", nested))]))))["ms"]
            p = d.pop("PowerShell")["ms"]
            if rso == 0:
                same(d["RemoteStreamOptions"].get("sets"), [("I32", 0)], "stream options")
                d.pop("RemoteStreamOptions"), want.pop("RemoteStreamOptions")
            for k in want:
                require(d.get(k) == want[k], "%s of the pipeline: got %s, want %s", k, clip(d.get(k)), clip(want[k]))
            require(set(d) == set(want), "parts of the definition: %s", sorted(d))
            same(p.pop("IsNested"), ("B", nested), "IsNested of the pipeline")
            same(p.pop("History"), ("Nil", None) if o["history"] is None else ("S", o["history"]), "history of the pipeline")
            same(p.pop("RedirectShellErrorOutputPipe"), ("B", redirect), "redirection of shell errors")
            sts = statements(m)
            want = [[c.plain(proto) for c in s] for s in sts]
            got = [[got_cmd(x) for x in got_list(p.pop("Cmds"), "Cmds")]]
            ex = p.pop("ExtraCmds", ("Nil", None))
            if ex != ("Nil", None):
                allof = [[got_cmd(x) for x in got_list(e["ms"]["Cmds"], "Cmds of a statement")] for e in got_list(ex, "ExtraCmds")]
                require(allof and allof[0] == got[0], "the first statement is not the first of all statements: %s %s", clip(got), clip(allof))
                got = allof
            same(sorted(p), [], "further parts of the pipeline")
            same([[x["Cmd"] for x in s] for s in got], [[x["Cmd"] for x in s] for s in want], "statements and commands")
            for a, b in zip(got, want):
                for x, y in zip(a, b):
                    for k in y:
                        require(x.get(k) == y[k], "%s of the command %s: got %s, want %s", k, clip(y["Cmd"][1], 60), clip(x.get(k)), clip(y[k]))
                    same(sorted(x), sorted(y), "parts of the command %s" % clip(y["Cmd"][1], 60))
            if len(sts) > 1:
                labels.add("statements")
            if any(v for c in m for v in c.m.values()):
                labels.add("merge")
            # sending changed nothing of what was built
            for j in range(len(pipes)):
                look(j)
            for v, s, before in kept:
                require(c02.snap(v) == before, "sending a pipeline changed a value of the caller: %s was %s", clip(c02.snap(v)), clip(before))

        def finish(i):
            pipes[i].end_invoke()
            same(pipes[i].state, PSInvocationState.COMPLETED, "state")
            pipes[i].close()

        nests = []
        for k in range(3):
            pipes.append(PowerShell(pool))
            models.append([])
        todo = list(case["ops"]) + [("invoke", 0), ("invoke", 1), ("invoke", 2)]
        for o in todo:
            i = o[1]
            ps, m = pipes[i], models[i]
            kind = o[0]
            n0 = len(srv.reqs)
            last = m[-1] if m else None
            if kind in ("cmdlet", "script"):
                f = ps.add_cmdlet if kind == "cmdlet" else ps.add_script
                require((f(o[2]) if o[3] is None else f(o[2], use_local_scope=o[3])) is ps, "the builder does not return the pipeline")
                m.append(Cmd(o[2], kind == "script", o[3]))
            elif kind == "own":
                c, cm = owned[o[2] % len(owned)]
                require(ps.add_command(c) is ps, "the builder does not return the pipeline")
                m.append(cm)
            elif kind == "clear":
                require(ps.clear_commands() is ps, "the builder does not return the pipeline")
                del m[:]
            elif kind == "look":
                look(i)
            elif kind == "nest":
                if not m or ps in nests:
                    continue
                send(i)
                nest = ps.create_nested_power_shell()
                pipes.append(nest)
                models.append([])
                nests.append(nest)
                nest.add_script("nested")
                models[-1].append(Cmd("nested", True, None))
                labels.add("nested")
                send(len(pipes) - 1)
                finish(len(pipes) - 1)
                pipes.pop(), models.pop()
                finish(i)
                continue
            elif kind == "invoke":
                send(i)
                if m:
                    finish(i)
                continue
            elif last is None or last.shared:
                continue
            elif kind == "arg":
                v, e = value(o[2])
                require(ps.add_argument(v) is ps, "the builder does not return the pipeline")
                last.args.append((None, e))
            elif kind == "param":
                v, e = value(o[3])
                require((ps.add_parameter(o[2]) if o[3] is None else ps.add_parameter(o[2], v)) is ps, "the builder does not return the pipeline")
                last.args.append((o[2], e))
            elif kind == "params":
                vs = [(n, value(g)) for n, g in o[2]]
                require(ps.add_parameters({n: v for n, (v, _) in vs}) is ps, "the builder does not return the pipeline")
                last.args += [(n, e) for n, (_, e) in vs]
            elif kind == "statement":
                require(ps.add_statement() is ps, "the builder does not return the pipeline")
                last.eos = True
            elif kind == "previous":
                require((ps.merge_previous() if i == 1 and not o[2] else ps.merge_previous(o[2])) is ps, "the builder does not return the pipeline")
                last.m["PreviousResults"] = 3 if o[2] else 0
            elif kind in ("merge", "reset"):
                which, t = o[2:] if kind == "merge" else ("all", "none")
                refused = t == "bogus" or (which in ("error", "all") and t == "null") or (which in ("warning", "verbose", "debug") and older(proto, 2)) or (which == "information" and older(proto, 3))
                try:
                    if kind == "reset":
                        back = ps.merge_reset()
                    else:
                        back = getattr(ps, "merge_" + which)(*([] if i == 1 and t == "none" else [t]))
                    require(back is ps, "the builder does not return the pipeline")
                    require(not refused, "merging %s to %s was not refused by protocol %s", which, t, proto)
                except InvalidPSRPOperation:
                    require(refused, "merging %s to %s was refused by protocol %s", which, t, proto)
                    labels.add("refused")
                    continue
                n = NUM[t]
                if kind == "reset":
                    last.m["PreviousResults"] = 0
                if which in ("error", "all"):
                    last.m["Error"] = last.m["ToResult"] = n
                    last.m["MyResult"] = 2 if n else 0
                for s in ("warning", "verbose", "debug", "information"):
                    if which in (s, "all") and not older(proto, 3 if s == "information" else 2):
                        last.m[s.capitalize()] = n
            same(len(srv.reqs), n0, "requests of building a pipeline")
        if len({id(x) for x in models if x}) > 1 and any(models):
            labels.add("pipelines")
        pool.close()
    return Info(bool(labels - {"refused"}), sorted(labels))


SUBS = [Sub("build", lambda: cases, check, quick=300, thorough=5000, qshards=6, tshards=8)]
