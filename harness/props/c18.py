"""C18: remote shells follow their lifecycle: no use outside open, always closed."""
import xml.etree.ElementTree as ET

import requests
from hypothesis import strategies as st

import gens
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import WSManFaultError
from pypsrp.shell import SignalCode, WinRS
from pypsrp.wsman import OptionSet

PROPERTY = "C18"
RULE = ("shells: one to three shells with generated options over one connection, driven by generated sequences of open, close, contexts left by an exception at any point, commands, signals, input and receives, with servers "
        "that assign other ids, leave out optional elements or refuse requests. Every request is compared with a model of the lifecycle. Non-trivial: a close or open that has to be silent, an error inside a context, a "
        "refused request or a shell opened again.")

text = gens.xtext(16)
config = st.fixed_dictionaries({"id": st.one_of(st.none(), gens.uuid_str.map(str.upper)), "input_streams": st.sampled_from([None, "stdin", "stdin pr"]), "output_streams": st.sampled_from([None, "stdout", "stdout stderr"]),
                                "codepage": st.sampled_from([None, None, 437, 65001, 0]), "environment": st.one_of(st.none(), st.dictionaries(text.filter(bool), st.one_of(text, st.integers(0, 99)), max_size=4).map(lambda d: list(d.items()))),
                                "idle_time_out": st.sampled_from([None, 1, 60, 7200]), "lifetime": st.sampled_from([None, 5, 1000, 0]), "name": st.one_of(st.none(), text), "no_profile": st.sampled_from([None, True, False]),
                                "working_directory": st.one_of(st.none(), text), "resource_uri": st.sampled_from([None, None, "http://vendor/shell&x"]),
                                "options": st.one_of(st.none(), st.lists(st.tuples(gens.ident(), text), max_size=2)), "content": st.booleans(),
                                "assigned": st.booleans(), "element": st.sampled_from(["full", "full", "none", "id only"]), "reported": st.sampled_from(["", "", "", "/v2"])})
step = st.one_of(st.tuples(st.sampled_from(["open", "close", "open", "close", "command", "receive", "send", "signal"]), st.integers(0, 2)), st.tuples(st.just("refuse"), st.just(0)))
inner = st.lists(st.one_of(st.tuples(st.sampled_from(["open", "close", "command", "receive", "send", "signal", "raise"]), st.integers(0, 2)), st.tuples(st.just("refuse"), st.just(0))), max_size=4)
cases = st.fixed_dictionaries({"shells": st.lists(config, min_size=1, max_size=3), "shared": st.booleans(),
                               "ops": st.lists(gens.choose(step, step, st.tuples(st.just("with"), st.integers(0, 2), inner, st.sampled_from(["fault", "connection"]))), max_size=10)})
ARGS = ["id", "input_streams", "output_streams", "codepage", "idle_time_out", "lifetime", "name", "no_profile", "working_directory", "resource_uri"]


class Boom(Exception):
    pass


class Srv(server.Server):
    refuse = None
    cfg = None

    def intercept(self, req):
        if self.refuse:
            how, self.refuse = self.refuse, None
            return requests.exceptions.ConnectionError("injected") if how == "connection" else soap.fault(req, 5)

    def on_create(self, sh):
        if self.cfg["assigned"]:
            del self.shells[sh.id.upper()]
            sh.id = self.new_id()
            self.shells[sh.id.upper()] = sh

    def create_response(self, sh):
        if self.cfg["element"] == "full" and self.cfg["reported"] and not sh.uri.endswith(self.cfg["reported"]):
            sh.uri += self.cfg["reported"]
        b = server.Server.create_response(self, sh)
        if self.cfg["element"] != "full":
            b = b[: b.index("<rsp:Shell>")]
            if self.cfg["element"] == "id only":
                b += "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId></rsp:Shell>" % sh.id
        return b


def check(case):
    srv = Srv()
    labels = set()
    with wire.wire(srv):
        w = server.new_wsman()
        shells, model = [], []
        shared = OptionSet()
        for k, v in case["shells"][0]["options"] or []:
            shared.add_option(k, v)
        for c in case["shells"]:
            kw = {a: c[a] for a in ARGS if c[a] is not None}
            if c["environment"] is not None:
                kw["environment"] = dict(c["environment"])
            shells.append(WinRS(w, **kw))
            model.append({"open": False, "srv": None, "asked": c["id"], "idle": c["idle_time_out"], "n": 0})

        def create(i, r, bare=False):
            c, m = case["shells"][i], model[i]
            same(r.action, "Create", "request of open")
            uri = c["resource_uri"] or server.CMD_URI
            require(r.resource == uri or m["n"] and r.resource == m["uri"], "the shell is created with the resource URI %r, want %r", r.resource, uri)
            require(not r.selectors, "a create request has selectors")
            el = r.one("rsp:Shell")
            same(el.get("ShellId"), m["asked"], "id of the shell that is created")
            kids = [(e.tag, e) for e in el]
            names = [t for t, _ in kids]
            require(len(names) == len(set(names)), "an element of the shell is there twice: %s", names)
            get = dict(kids)
            txt = lambda n: None if get.get(soap.q(n)) is None else get[soap.q(n)].text or ""
            same(txt("rsp:InputStreams"), c["input_streams"] or "stdin", "input streams")
            same(txt("rsp:OutputStreams"), c["output_streams"] or "stdout stderr", "output streams")
            env = get.get(soap.q("rsp:Environment"))
            got = None if env is None else [(e.get("Name"), e.text or "") for e in env]
            want = None if c["environment"] is None else [(k, str(v)) for k, v in c["environment"]]
            if want or got:
                same(got, want, "environment")
            dur = lambda v: None if v is None else "PT%dS" % v
            idle = txt("rsp:IdleTimeOut")
            require(idle in ([dur(c["idle_time_out"])] if not m["n"] else [dur(c["idle_time_out"]), "PT7200.000S"]), "idle timeout: %r, want %r", idle, c["idle_time_out"])
            same(txt("rsp:Lifetime"), dur(c["lifetime"]), "lifetime")
            same(txt("rsp:Name"), c["name"], "name")
            same(txt("rsp:WorkingDirectory"), c["working_directory"], "working directory")
            known = {soap.q("rsp:" + n) for n in ("InputStreams", "OutputStreams", "Environment", "IdleTimeOut", "Lifetime", "Name", "WorkingDirectory")}
            extra = [e for t, e in kids if t not in known]
            same([(e.tag, e.text) for e in extra], [("{urn:x}extra", "content %d" % i)] if c["content"] else [], "extra content of the shell")
            opts = list(case["shells"][0 if case["shared"] else i]["options"] or [])
            if bare or case["shells"][i]["options"] is None:
                opts = []
            opts = [(a, b, {}) for a, b in opts]
            if c["no_profile"]:
                opts.append(("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"}))
            if c["codepage"] is not None:
                opts.append(("WINRS_CODEPAGE", str(c["codepage"]), {}))
            same(r.options or [], opts, "options of the shell")

        def target(i, r, action):
            m = model[i]
            same(r.action, action, "request")
            same(r.resource, m["uri"], "resource URI")
            same([(n, v) for n, v, _ in r.selectors or []], [("ShellId", m["srv"].id)], "selectors of the %s request" % action)

        def do(i, name, hard=True):
            """-> nothing; raises what the library raises"""
            S, m, c = shells[i], model[i], case["shells"][i]
            n0 = len(srv.reqs)
            refused = bool(srv.refuse)
            if name == "open":
                srv.cfg = c
                o = None
                if c["options"] is not None:
                    o = shared if case["shared"] else OptionSet()
                    if o is not shared:
                        for k, v in c["options"]:
                            o.add_option(k, v)
                content = None
                if c["content"]:
                    content = ET.Element("{urn:x}extra")
                    content.text = "content %d" % i
                kw = {}
                if o is not None:
                    kw["base_options"] = o
                if content is not None:
                    kw["open_content"] = content
                run = lambda: S.open(**kw)
            elif name == "close":
                run = S.close
            elif not m["open"]:
                return
            elif name == "command":
                run = lambda: S.command("exe", ["a"], command_id="C%d" % len(srv.reqs))
            else:
                cmds = [x for x in m["srv"].commands.values() if not x.gone]
                if not cmds:
                    return
                cmd = cmds[len(srv.reqs) % len(cmds)]
                run = {"receive": lambda: S.receive("stdout stderr", cmd.id), "send": lambda: S.send("stdin", b"abc", cmd.id, False), "signal": lambda: S.signal(SignalCode.CTRL_C, cmd.id)}[name]
                if name == "receive" and not cmd.out:
                    cmd.out.append(("stdout", b"x"))
            silent = name == "open" and m["open"] or name == "close" and not m["open"]
            try:
                r = run()
            except (WSManFaultError, requests.exceptions.ConnectionError, requests.exceptions.RequestException) as e:
                require(refused and not silent, "%s raises %s: %s", name, type(e).__name__, e)
                labels.add("refused")
                if name == "open":
                    require(not S.opened, "a shell whose creation was refused counts as open")
                if name == "close":
                    # it is still there: it counts as open, and closing it again has to delete it
                    require(S.opened, "a shell whose deletion failed counts as closed")
                    labels.add("close again")
                raise
            if silent:
                same(len(srv.reqs), n0, "requests of %s on a shell that is %s" % (name, "open" if m["open"] else "not open"))
                same(r, None, "result")
                labels.add("silent")
                same((S.opened, S.id if m["open"] else None), (m["open"], m["srv"].id if m["open"] and c["element"] != "none" else (S.id if m["open"] else None)), "shell after %s" % name)
                if not m["open"] and not m["n"]:
                    same(S.id, c["id"], "id of a shell that was never opened")
                return
            require(not refused, "a refused %s does not raise", name)
            same(len(srv.reqs), n0 + 1, "requests of %s" % name)
            req = srv.reqs[-1]
            if name == "open":
                create(i, req)
                m.update(open=True, srv=list(srv.shells.values())[-1])
                m["uri"] = m["srv"].uri
                if m["n"]:
                    labels.add("again")
                m["n"] += 1
                require(S.opened, "a shell that was opened does not count as open")
                if c["element"] != "none":
                    same(S.id, m["srv"].id, "id of the shell")
                if c["element"] == "full":
                    same((S.owner, S.client_ip, S.idle_time_out, S.shell_run_time, S.shell_inactivity, S.output_streams, S.resource_uri),
                         ("me", "1.2.3.4", "PT7200.000S", "P0DT0H0M1S", "P0DT0H0M0S", c["output_streams"] or "stdout stderr", m["uri"]), "what the server reported about the shell")
            elif name == "close":
                target(i, req, "Delete")
                same(m["srv"].deleted, 1, "times the shell was deleted")
                require(not S.opened, "a closed shell counts as open")
                m.update(open=False, asked=None)
            else:
                target(i, req, {"command": "Command", "receive": "Receive", "send": "Send", "signal": "Signal"}[name])
                if name == "signal":
                    s = req.one("rsp:Signal")
                    same((s.get("CommandId"), s.findtext(soap.q("rsp:Code"))), (cmd.id, SignalCode.CTRL_C), "signal")
                elif name == "send":
                    same(cmd.input[-1][:2], ("stdin", b"abc"), "input")

        for o in case["ops"]:
            name, i = o[0], o[1] % len(shells)
            if name == "refuse":
                srv.refuse = "fault" if len(srv.reqs) % 2 else "connection"
                continue
            if name != "with":
                try:
                    do(i, name)
                except (WSManFaultError, requests.exceptions.RequestException):
                    pass
                srv.refuse = None
                continue
            S, m, c = shells[i], model[i], case["shells"][i]
            if c["content"] or c["options"]:
                continue
            srv.cfg = c
            was, n0 = m["open"], len(srv.reqs)
            left, entered = None, False
            expect = Boom
            try:
                with S as got:
                    entered = True
                    require(got is S, "the context of a shell is not the shell")
                    if not was:
                        require(len(srv.reqs) == n0 + 1, "entering a context sends %d requests", len(srv.reqs) - n0)
                        create(i, srv.reqs[-1], True)
                        m.update(open=True, srv=list(srv.shells.values())[-1])
                        m["uri"] = m["srv"].uri
                        m["n"] += 1
                    else:
                        same(len(srv.reqs), n0, "requests of entering the context of an open shell")
                    for x in o[2]:
                        if x[0] == "raise":
                            labels.add("raise")
                            srv.refuse = None
                            raise Boom()
                        if x[0] == "refuse":
                            srv.refuse = o[3]
                            continue
                        j = x[1] % len(shells)
                        try:
                            do(j, x[0])
                        finally:
                            srv.refuse = None
                    srv.refuse = None
                    n1 = len(srv.reqs)
            except Boom as e:
                left = e
            except (WSManFaultError, requests.exceptions.RequestException) as e:
                left = e
            require(left is not None or "raise" not in [x[0] for x in o[2]], "an error inside a context is lost")
            if not entered:
                require(not m["open"], "entering the context of an open shell fails: %r", left)
                continue
            require(not S.opened, "the shell is still open after its context")
            if m["open"]:
                same(m["srv"].deleted, 1, "times the shell of a context was deleted")
                target(i, srv.reqs[-1], "Delete")
                m.update(open=False, asked=None)
        for m in model:
            if m["srv"] is not None:
                same(m["srv"].deleted, 0 if m["open"] else 1, "times a shell was deleted")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("shells", lambda: cases, check, quick=600, thorough=8000, qshards=4, tshards=8)]
