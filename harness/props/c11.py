"""C11: no request exceeds the maximum envelope size."""
import base64
import os
import tempfile

from hypothesis import strategies as st

import gens
import psrp
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.client import Client
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.shell import Process, WinRS
from pypsrp.wsman import WSMan

PROPERTY = "C11"
RULE = ("pool: sessions over generated envelope sizes (given, or learnt from the server), server and configuration names, locales and timeouts, sending application arguments, scripts, input and metadata of "
        "sizes on and around the payload limit; process: the same for input of a process and for file copies through the client. Every request is measured, everything sent must arrive. Non-trivial: some request is at "
        "least 90 % of the limit or a payload took several requests.")

sizes = st.one_of(st.sampled_from([32768, 51200, 153600, 153600, 512000]), st.integers(32768, 200000))
names = st.one_of(st.just("Microsoft.PowerShell"), st.sampled_from(["JEA.Maintenance_2", "x" * 60, "m" * 120]), gens.ident(40))
hosts = st.one_of(st.just("srv"), st.sampled_from(["a" * 60 + ".example.com", "fe80:1111:2222:3333:4444:5555:6666:7777"]))
config = st.fixed_dictionaries({"env": sizes, "server": hosts, "port": st.sampled_from([None, 65535]), "path": st.sampled_from(["wsman", "wsman", "powershell?PSVersion=5.1.19041.1237", "p" * 80]),
                                "conf": names, "locale": st.sampled_from(["en-US", "zh-Hans-CN"]), "timeout": st.sampled_from([20, 86400]), "advertise": st.booleans()})
# a length relative to the payload limit, or absolute
near = st.one_of(st.integers(-1500, 300), st.integers(-80, 40))
length = gens.choose(st.tuples(st.just("abs"), st.integers(0, 2000)), st.tuples(st.just("abs"), st.integers(0, 2000)), st.tuples(st.just("abs"), st.integers(0, 2000)), st.tuples(st.just("many"), near), *[st.tuples(st.sampled_from(["x1", "x2"]), st.one_of(st.integers(-1500, 300), st.integers(-420, -100), st.integers(-80, 40)))] * 3)


def chars(l, payload):
    k, n = l
    return max(0, n + {"abs": 0, "x1": payload, "x2": 2 * payload, "many": max(3, min(20, 1000000 // payload)) * payload}[k])


class Srv(server.Server):
    biggest = 0
    allowed = None  # the sizes that may be in force
    w = None

    def intercept(self, req):
        n = len(req.http.body)
        limit = int(req.max_env)
        self.biggest = max(self.biggest, n / limit)
        if self.allowed is not None:
            require(limit in self.allowed, "the %s request has a maximum envelope size of %d, the one in force is %s", req.action, limit, self.allowed)
        if n > limit:
            fail("the %s request takes %d bytes, the maximum envelope size is %d", req.action, n, limit)

    asks = None

    def run_pipeline(self, sh, c, m):
        if self.asks:
            self.push(sh, c, ("PIPELINE_HOST_CALL", psrp.host_call(3, 11, "ReadLine", [])))
        if m.node().prop("NoInput").value:
            self.finish(sh, c)

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c)

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACEPOOL_HOST_CALL", psrp.host_call(4, 11, "ReadLine", [])), ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 1)))

    def on_GET_COMMAND_METADATA(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", psrp.obj([("Count", ("I32", 0))])))


def make(case, srv):
    c = case["config"]
    kw = {"port": c["port"]} if c["port"] else {}
    srv.config_kb = c["env"] // 1024
    w = WSMan(c["server"], max_envelope_size=153600 if c["advertise"] else c["env"], username="u", password="p", auth="basic", ssl=True, path=c["path"], locale=c["locale"], operation_timeout=c["timeout"], **kw)
    if c["advertise"]:
        w.update_max_payload_size()
        same(w.max_envelope_size, c["env"] // 1024 * 1024, "envelope size in force")
    size = c["env"] // 1024 * 1024 if c["advertise"] else c["env"]
    # the default size is raised for a server that is known to support more
    srv.allowed = {size, 512000} if size == 153600 else {size}
    require(w.max_payload_size > 0, "payload size %d", w.max_payload_size)
    return w


pool_cases = st.fixed_dictionaries({"config": config, "args": st.one_of(st.none(), length), "proto": st.sampled_from(["2.3", "2.3", "2.2", "2.1"]), "found": st.booleans(),
                                    "ops": st.lists(gens.choose(st.tuples(st.just("run"), length, st.lists(length, max_size=3)), st.tuples(st.just("meta"), length), st.tuples(st.just("host"), length, st.booleans())), max_size=3)})


class Ui:
    """a host that answers ReadLine"""

    def __init__(self):
        self.ui, self.raw_ui = self, None

    def run_method(self, mi, args, rp, pl):
        return self.line


def check_pool(case):
    srv = Srv(proto=case["proto"])
    ui = Ui()
    with wire.wire(srv):
        w = make(case, srv)
        pay = w.max_payload_size
        pool = RunspacePool(w, configuration_name=case["config"]["conf"], host=ui)
        args = chars(case["args"], pay) if case["args"] else None
        pool.open({"a": "A" * args} if args is not None else None)
        if case["found"]:  # as another client finds it
            pool.disconnect()
            (pool,) = RunspacePool.get_runspace_pools(w)
            pool.host = ui
            pool.connect()
        for op in case["ops"]:
            if op[0] == "run":
                ps = PowerShell(pool)
                script = "S" * chars(op[1], pay)
                ps.add_script(script)
                data = [chr(97 + i) * chars(l, pay) for i, l in enumerate(op[2])]
                ps.begin_invoke(input=list(data) if data else None)
                ps.end_invoke()
                ps.close()
                c = [c for sh, c, m in srv.msgs if m.name == "CREATE_PIPELINE"][-1]
                same(c.msgs[0].node().prop("PowerShell").prop("Cmds").items[0].prop("Cmd").value, script, "the script that arrives")
                same([m.node().value for m in c.msgs if m.name == "PIPELINE_INPUT"], data, "the input that arrives")
            elif op[0] == "host":
                ui.line = "L" * chars(op[1], pay)
                if op[2]:
                    srv.asks = True
                    ps = PowerShell(pool)
                    ps.add_script("s")
                    ps.invoke()
                    ps.close()
                    srv.asks = None
                else:
                    pool.get_available_runspaces()
                m = [m for sh, c, m in srv.msgs if m.name.endswith("HOST_RESPONSE")][-1]
                same(m.node().prop("mr").value, ui.line, "the answer of the host that arrives")
            elif not case["found"]:  # (a pool that was found refuses it: the finding of C30)
                name = "N" * chars(op[1], pay)
                pool.get_command_metadata(name)
                m = [m for sh, c, m in srv.msgs if m.name == "GET_COMMAND_METADATA"][-1]
                same([i.value for i in m.node().prop("Name").items], [name], "the name that arrives")
        pool.close()
        if args is not None:
            m = [m for sh, c, m in srv.msgs if m.name == "INIT_RUNSPACEPOOL"][0]
            same([(k.value, v.value) for k, v in m.node().prop("ApplicationArguments").items], [("a", "A" * args)], "the application arguments that arrive")
    return Info(srv.biggest > 0.9, ["near the limit" if srv.biggest > 0.9 else "small"])


proc_cases = st.fixed_dictionaries({"config": config, "data": st.lists(length, min_size=1, max_size=3), "binary": st.booleans()})


class ProcSrv(Srv):
    def on_input(self, c, stream, data, end):
        self.got.append(data)
        if end and end.lower() == "true":
            c.rc, c.done = 0, True


def check_proc(case):
    srv = ProcSrv()
    srv.got = []
    with wire.wire(srv):
        w = make(case, srv)
        pay = w.max_payload_size
        with WinRS(w) as sh:
            p = Process(sh, "cmd")
            p.begin_invoke()
            want = [(b"\x00\xff\x10" if case["binary"] else b"abc") * (chars(l, pay) // 3 + 1) for l in case["data"]]
            for i, d in enumerate(want):
                p.send(d, end=i == len(want) - 1)
            p.end_invoke()
        same(b"".join(srv.got), b"".join(want), "the input that arrives")
    return Info(len(srv.got) > len(want) or srv.biggest > 0.9, ["split" if len(srv.got) > len(want) else "single"])


copy_cases = st.fixed_dictionaries({"config": config, "size": length, "name": gens.ident(20)})


class CopySrv(Srv):
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "C:\\t\\f")))


def check_copy(case):
    srv = CopySrv()
    tmp = tempfile.mkdtemp(prefix="verif-c11-")
    path = os.path.join(tmp, "f")
    try:
        with wire.wire(srv):
            cl = Client(case["config"]["server"], username="u", password="p", auth="basic", ssl=True, max_envelope_size=case["config"]["env"], path=case["config"]["path"])
            n = chars(case["size"], cl.wsman.max_payload_size)
            data = (bytes(range(256)) * (n // 256 + 1))[:n]
            with open(path, "wb") as f:
                f.write(data)
            cl.copy(path, "C:\\t\\" + case["name"], configuration_name=case["config"]["conf"])
            cl.close()
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(tmp)
    got = [base64.b64decode(m.node().value) for _, _, m in srv.msgs if m.name == "PIPELINE_INPUT"]
    same(b"".join(got[:-1]), data, "the content that arrives")
    return Info(srv.biggest > 0.9, ["near the limit" if srv.biggest > 0.9 else "small"])


SUBS = [
    Sub("pool", lambda: pool_cases, check_pool, quick=300, thorough=2500, qshards=4, tshards=8),
    Sub("process", lambda: proc_cases, check_proc, quick=160, thorough=1500, qshards=2, tshards=4),
    Sub("copy", lambda: copy_cases, check_copy, quick=60, thorough=600, qshards=2, tshards=4),
]
