"""C28: convenience execution returns exactly what the remote side produced."""
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c08, c21, c26
from pypsrp.client import Client
from pypsrp.powershell import DEFAULT_CONFIGURATION_NAME

PROPERTY = "C28"
RULE = ("cmd: commands with generated environments, encodings and outputs cut at any byte; script: scripts with generated environments, outputs, streams and final states; both with generated deliveries and failures of any request. clixml: "
        "generated CLIXML documents with any messages in all streams, and text that is none. Non-trivial: output in several pieces, a character cut in two, an environment, a failure, records or errors, or a message that has to be escaped.")

ENCODINGS = [None, "437", "utf-8", "cp1252", "utf-16-le", "shift_jis", "cp850", "utf-8-sig"]
env_ = st.none() | st.dictionaries(gens.xtext(8).filter(bool), gens.xtext(), max_size=3).map(lambda d: list(d.items()))
plans = st.fixed_dictionaries({"hold": st.lists(st.integers(0, 2), max_size=4), "per_response": st.lists(st.integers(1, 4), max_size=3), "frag_sizes": st.lists(gens.choose(st.integers(30, 3000), st.just(32768)), min_size=1, max_size=2)})
broken = gens.choose(st.none(), st.none(), st.tuples(st.integers(0, 10), st.sampled_from(["fault", "connection", "http"])))
cmd_cases = st.fixed_dictionaries({"command": gens.xtext(), "encoding": st.sampled_from(ENCODINGS), "out": gens.text(), "err": gens.text(), "cuts": st.lists(st.tuples(st.booleans(), st.integers(1, 7)), max_size=12), "env": env_,
                                   "rc": st.one_of(st.none(), st.sampled_from([0, 1, -1]), st.integers(-(2**31), 2**32 - 1)), "plan": plans, "broken": broken})


class CmdSrv(c26.Broken):
    def on_process(self, c):
        c.rc = self.rc
        c.out.extend(self.pieces)
        c.done = True


def encode(text, enc):
    b = text.encode(enc or "437", "ignore")
    return b, b.decode(enc or "437")


def released(srv, ok):
    for sh in srv.shells.values():
        if ok:
            same(sh.deleted, 1, "times the shell of the call was deleted")
        else:
            require(sh.deleted == 1 or srv.broken == "Delete", "the shell of a call that failed in a %s was deleted %d times", srv.broken, sh.deleted)


def check_cmd(case):
    srv = CmdSrv(case["plan"])
    srv.break_at = case["broken"]
    srv.rc = case["rc"]
    enc = case["encoding"]
    rest = {"stdout": encode(case["out"], enc), "stderr": encode(case["err"], enc)}
    want = {k: v[1] for k, v in rest.items()}
    left = {k: v[0] for k, v in rest.items()}
    srv.pieces = []
    labels = set()
    for is_err, n in case["cuts"]:
        k = "stderr" if is_err else "stdout"
        srv.pieces.append((k, left[k][:n]))
        left[k] = left[k][n:]
    srv.pieces += [(k, v) for k, v in left.items() if v]
    if len([p for p in srv.pieces if p[1]]) > 2:
        labels.add("pieces")
    kw = {}
    if enc is not None:
        kw["encoding"] = enc
    if case["env"] is not None:
        kw["environment"] = dict(case["env"])
    with wire.wire(srv):
        cl = c26.client()
        try:
            got = cl.execute_cmd(case["command"], **kw)
        except c26.ERRORS as e:
            require(srv.broken, "execute_cmd raises %r", e)
            labels.add("failure")
            released(srv, False)
            return Info(True, sorted(labels))
    require(not srv.broken, "execute_cmd reports success although a %s failed", srv.broken)
    released(srv, True)
    same(type(got), tuple, "type of the result")
    same(len(got), 3, "length of the result")
    same(got[0], want["stdout"], "stdout")
    same(got[1], want["stderr"], "stderr")
    same(got[2], -1 if case["rc"] is None else case["rc"], "exit code")
    sh = list(srv.shells.values())
    same(len(sh), 1, "number of shells")
    c = list(sh[0].commands.values())
    same([(x.executable, x.args) for x in c], [(case["command"], [])], "command that was run")
    same(sh[0].uri, server.CMD_URI, "kind of the shell")
    e = sh[0].element.find(soap.q("rsp:Environment"))
    gotenv = [(x.get("Name"), x.text or "") for x in e] if e is not None else []
    same(gotenv, list(case["env"] or []), "environment of the command")
    if case["env"]:
        labels.add("environment")
    return Info(bool(labels), sorted(labels))


rec = gens.choose(*([c21.rec(n) for n in c21.STREAMS if n != "PIPELINE_OUTPUT"] + [st.tuples(st.just("PIPELINE_OUTPUT"), gens.text()), st.tuples(st.just("PIPELINE_OUTPUT"), gens.text()), st.tuples(st.just("PIPELINE_OUTPUT"), gens.text())]))
ps_cases = st.fixed_dictionaries({"script": gens.text(), "config": st.none() | gens.ident(), "env": st.none() | st.dictionaries(gens.text(10), gens.text(), max_size=3).map(lambda d: list(d.items())), "recs": st.lists(rec, max_size=7), "state": st.sampled_from([4, 4, 4, 5, 5, 3]), "err": st.none() | c08.err_fields,
                                  "plan": plans, "broken": broken})


class PsSrv(c26.Broken):
    max_frags = 10

    def run_pipeline(self, sh, c, m):
        self.calls.append((c26.pipeline_of(m), m))
        msgs = [(n, ("S", f) if n == "PIPELINE_OUTPUT" else c08.SRV[n][1](f)) for n, f in self.case["recs"]]
        self.finish(sh, c, *msgs, state=self.case["state"], err=self.case["err"] and c08.err_spec(self.case["err"]))


def check_ps(case):
    srv = PsSrv(case["plan"])
    srv.case, srv.calls = case, []
    srv.break_at = case["broken"]
    kw, labels = {}, set()
    if case["config"]:
        kw["configuration_name"] = case["config"]
    if case["env"] is not None:
        kw["environment"] = dict(case["env"])
    with wire.wire(srv):
        cl = c26.client()
        try:
            got = cl.execute_ps(case["script"], **kw)
        except c26.ERRORS as e:
            require(srv.broken, "execute_ps raises %r", e)
            labels.add("failure")
            released(srv, False)
            return Info(True, sorted(labels))
    require(not srv.broken, "execute_ps reports success although a %s failed", srv.broken)
    released(srv, True)
    same(type(got), tuple, "type of the result")
    same(len(got), 3, "length of the result")
    out, streams, had = got
    same(out, "\n".join(f for n, f in case["recs"] if n == "PIPELINE_OUTPUT"), "output")
    want = {n: [] for n in c21.STREAMS.values() if n != "output"}
    for n, f in case["recs"]:
        if n != "PIPELINE_OUTPUT":
            want[c21.STREAMS[n]].append((n, f))
    if case["err"]:
        want["error"].append(("ERROR_RECORD", case["err"]))
    for n, l in want.items():
        have = getattr(streams, n)
        same(len(have), len(l), "number of records in the %s stream" % n)
        for o, (kind, f) in zip(have, l):
            c08.SRV[kind][2](o, f)
    same(had, case["state"] == 5, "had_errors")
    for r in srv.reqs:
        if r.action != "Get":
            same(r.resource, server.PWSH_URI + (case["config"] or DEFAULT_CONFIGURATION_NAME), "configuration of the call")
    same(len(srv.calls), 1, "pipelines that were run")
    stmts, m = srv.calls[0]
    # run the statements by their meaning: new items of env:, then the script
    env, ran = [], []
    for s in stmts:
        names = [x[0] for x in s]
        if names[:1] == ["New-Item"]:
            a = dict(s[0][2])
            same((a.get("Path"), a.get("Force")), (("S", "env:"), ("B", True)), "where a variable of the environment is set")
            require(len(a) == len(s[0][2]) == 4, "arguments of setting a variable: %s", s[0][2])
            require(not ran, "the environment is set after the script")
            same(names[1:], ["Out-Null"], "what becomes of the output of setting a variable")
            env.append((a.get("Name"), a.get("Value")))
        else:
            same(names, ["Invoke-Expression", "Out-String"], "commands that run the script")
            same(s[0][2], [("Command", ("S", case["script"]))], "the script that is run")
            require(s[1][2] in ([("Stream", ("Nil", None))], [("Stream", ("B", True))]), "arguments of Out-String: %s", s[1][2])
            ran.append(s)
        require(not any(x[1] for x in s), "a command is sent as a script")
    same(len(ran), 1, "times the script is run")
    same(env, [(("S", k), ("S", v)) for k, v in case["env"] or []], "environment of the script")
    same(m.node().prop("NoInput").value, True, "the pipeline has no input")
    for n, k in (("environment", case["env"]), ("records", any(want.values())), ("had errors", had), ("output", len(case["recs"]) > 1)):
        if k:
            labels.add(n)
    return Info(bool(labels), sorted(labels))


NSP = "http://schemas.microsoft.com/powershell/2004/04"
item = gens.choose(st.tuples(st.just("Error"), gens.text()), st.tuples(st.just("Error"), gens.text()), st.tuples(st.sampled_from(["Warning", "Verbose", "Debug", "Output", "Information", "error", "Errors", ""]), gens.text()),
                   st.tuples(st.just("progress"), gens.text()), st.tuples(st.just("object"), gens.text()))
doc = st.fixed_dictionaries({"items": gens.choose(*([st.lists(item, max_size=6)] * 15 + [st.tuples(st.lists(item, min_size=1, max_size=4), st.integers(20, 120)).map(lambda t: t[0] * t[1])])), "head": st.sampled_from(["#< CLIXML\r\n", "#< CLIXML\n", "#< CLIXML"]), "astral": st.booleans(), "upper": st.booleans(), "space": st.sampled_from(["", "\n", "\r\n  "]), "close": st.booleans(), "via": st.booleans()})
plain = gens.choose(gens.text(), gens.text().map(lambda s: " #< CLIXML\r\n" + s), gens.text().map(lambda s: "#< CLIXM" + s), gens.text().map(lambda s: "x#< CLIXML" + s), gens.text().map(lambda s: "<Objs>" + s + "</Objs>"), st.just("#<CLIXML\r\n<Objs/>"), st.just("#< clixml"))
clixml_cases = gens.choose(doc, doc, doc, st.builds(lambda s: {"plain": s}, plain.filter(lambda s: not s.startswith("#< CLIXML"))))


def check_clixml(case):
    if "plain" in case:
        same(Client.sanitise_clixml(case["plain"]), case["plain"], "text that is not CLIXML")
        return Info("CLIXML" in case["plain"] or "<" in case["plain"], ["plain"])
    parts = []
    e = lambda s: rc.esc(rc.encode_string(s, case["astral"], case["upper"]))
    for k, s in case["items"]:
        if k == "progress":
            parts.append('<Obj S="progress" RefId="0"><TN RefId="0"><T>System.Management.Automation.PSCustomObject</T><T>System.Object</T></TN><MS><I64 N="SourceId">1</I64><PR N="Record"><AV>%s</AV><AI>0</AI><Nil /><PI>-1</PI><PC>-1</PC>'
                         "<T>Completed</T><SR>-1</SR><SD> </SD></PR></MS></Obj>" % e(s))
        elif k == "object":
            parts.append('<Obj S="Error" RefId="1"><MS><S S="Error">%s</S></MS></Obj>' % e(s))
        elif case["close"] and not s:
            parts.append('<S S="%s" />' % k)
        else:
            parts.append('<S S="%s">%s</S>' % (k, e(s)))
    text = case["head"] + '<Objs Version="1.1.0.1" xmlns="%s">' % NSP + case["space"].join(parts) + "</Objs>" + case["space"]
    want = "".join(s for k, s in case["items"] if k == "Error")
    if case["via"]:
        srv = CmdSrv({})
        srv.rc, srv.pieces = 1, [("stderr", text.encode("utf-8")[:9]), ("stderr", text.encode("utf-8")[9:])]
        with wire.wire(srv):
            text = c26.client().execute_cmd("powershell", encoding="utf-8")[1]
    same(Client.sanitise_clixml(text), want, "message of a CLIXML document")
    return Info(any(k == "Error" and s for k, s in case["items"]), ["clixml"])


SUBS = [Sub("cmd", lambda: cmd_cases, check_cmd, quick=500, thorough=20000, qshards=2, tshards=4), Sub("script", lambda: ps_cases, check_ps, quick=300, thorough=10000, qshards=4, tshards=8),
        Sub("clixml", lambda: clixml_cases, check_clixml, quick=2000, thorough=60000, qshards=2, tshards=4)]
