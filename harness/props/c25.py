"""C25: host calls run the right host method once and answer exactly once."""
from hypothesis import strategies as st

import gens
import hosts
import psrp
import refclixml as rc
import server
import wire
from core import Info, Sub, clip, fail, require, same
from props import c02, c08
from pypsrp.complex_objects import Array, Coordinates, CultureInfo, KeyInfo, Size
from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface
from pypsrp.powershell import PowerShell, RunspacePool

PROPERTY = "C25"
RULE = ("calls: one or two pools with recording hosts whose methods return generated values of every kind (false values, structures, arrays, values serialized beforehand, nothing); the server calls generated methods with generated parameters "
        "from pipelines (also two at a time) and from the pool, mixed with output, cut and delivered in generated pieces; what was recorded and what was answered is compared with what was delivered after every step. console: histories of writes, settings "
        "and queries on the built-in host of two pools, compared with a model console. Non-trivial: a call with a parameter and an answer, or two hosts in use; console: a query after a setting.")

METHODS = psrp.HOST_METHODS
MI = "System.Management.Automation.Remoting.RemoteHostMethodId"
n32 = hosts.n32
cells = st.one_of(c02.prims(), st.tuples(st.just("Coordinates"), n32, n32))
grid = gens.choose(st.lists(cells, max_size=4), st.tuples(st.integers(1, 3), st.integers(1, 3)).flatmap(lambda d: st.lists(st.lists(cells, min_size=d[1], max_size=d[1]), min_size=d[0], max_size=d[0])),
                   st.just([[[("p", "I32", 1, False)], [("p", "I32", 2, False)]], [[("p", "I32", 3, False)], [("p", "I32", 4, False)]]]))
ret = gens.choose(
    st.none(), st.tuples(st.just("v"), c02.values(4)), st.tuples(st.just("v"), c02.values(4)), st.tuples(st.just("v"), st.sampled_from([("p", "B", False, False), ("p", "I32", 0, False), ("p", "S", "", False), ("l", []), ("d", [])])),
    st.tuples(st.just("ser"), c02.values(4)), st.tuples(st.just("v"), st.integers(1000, 30000).map(lambda n: ("p", "S", "y" * n, False))),
    st.tuples(st.just("Coordinates"), n32, n32), st.tuples(st.just("Size"), n32, n32), st.tuples(st.just("Key"), st.integers(0, 255), st.characters(max_codepoint=0xFFFF, exclude_categories=["Cs"]), st.integers(0, 511), st.booleans()),
    st.tuples(st.just("Array"), grid), st.tuples(st.just("Culture"), n32, gens.text(6)))
rect = st.tuples(st.just("rect"), st.dictionaries(st.sampled_from(["left", "top", "x", "y", "width", "caf\xe9"]), c08.leaf, min_size=1, max_size=3))
def rects_first(l):
    """a property bag without type names after a value of another kind is handed over as XML, which the documentation of the host describes"""
    return sorted(l, key=lambda p: p[0] != "rect")


param = gens.choose(c08.value, c08.value, rect)
call = st.fixed_dictionaries({"mi": st.integers(1, 54), "ci": c08.i64, "params": st.lists(param, max_size=4).map(rects_first), "ret": ret})
item = gens.choose(st.tuples(st.just("call"), call), st.tuples(st.just("call"), call), st.tuples(st.just("out"), c08.text))
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(5, 200), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 6), max_size=3), "hold": st.lists(st.integers(0, 2), max_size=3),
                               "bom": st.booleans()})
step = st.tuples(st.sampled_from(["pipe", "pipe", "pair", "pool"]), st.integers(0, 1), st.lists(item, max_size=5))
cases = st.fixed_dictionaries({"hosts": st.lists(gens.choose(hosts.host, hosts.raw), min_size=1, max_size=2), "steps": st.lists(step, min_size=1, max_size=4), "plan": plans, "env": st.sampled_from([153600, 8000]), "other_id": st.booleans()})


def pspec(p):
    if p[0] == "rect":
        return psrp.obj([(k, v) for k, v in p[1].items()])
    return p


def value(v):
    k = v[0]
    if k == "Coordinates":
        return Coordinates(x=v[1], y=v[2])
    if k == "Size":
        return Size(width=v[1], height=v[2])
    if k == "Key":
        return KeyInfo(code=v[1], character=v[2], state=v[3], key_down=v[4])
    if k == "Array":
        return Array(array=nest(v[1], value_cell))
    if k == "Culture":
        return CultureInfo(lcid=v[1], name=v[2], display_name=v[2], ietf_language_tag="t", three_letter_iso_name="e", three_letter_windows_name="E", two_letter_iso_language_name="n")
    return c02.build(v[1])


def nest(l, f):
    return [nest(i, f) if isinstance(i, list) else f(i) for i in l]


def value_cell(s):
    return value(s) if s[0] == "Coordinates" else c02.build(s)


def flat(l):
    return [x for i in l for x in (flat(i) if isinstance(i, list) else [i])]


XY = ("System.Management.Automation.Host.Coordinates", "System.ValueType", "System.Object")
WH = ("System.Management.Automation.Host.Size", "System.ValueType", "System.Object")


def xy(x, y):
    return {"types": XY, "props": {"X": ("I32", x), "Y": ("I32", y)}}


def wh(w, h):
    return {"types": WH, "props": {"Width": ("I32", w), "Height": ("I32", h)}}


def expect(v):
    k = v[0]
    if k == "Coordinates":
        return xy(v[1], v[2])
    if k == "Size":
        return wh(v[1], v[2])
    if k == "Key":
        return {"ms": {"virtualKeyCode": ("I32", v[1]), "character": ("C", v[2]), "controlKeyState": ("I32", v[3]), "keyDown": ("B", v[4])}}
    if k == "Array":
        dims, l = [], v[1]
        while isinstance(l, list):
            dims.append(len(l))
            l = l[0] if l else None
        return {"ms": {"mae": {"types": c02.ARR, "c": "LST", "items": [xy(*e[1:]) if e[0] == "Coordinates" else c02.expect(e) for e in flat(v[1])]}, "mal": {"types": c02.ARR, "c": "LST", "items": [("I32", n) for n in dims]}}}
    if k == "Culture":
        return {"props": {"LCID": ("I32", v[1]), "Name": ("S", v[2]), "DisplayName": ("S", v[2]), "IetfLanguageTag": ("S", "t"), "ThreeLetterISOLanguageName": ("S", "e"), "ThreeLetterWindowsLanguageName": ("S", "E"),
                          "TwoLetterISOLanguageName": ("S", "n")}}
    return c02.expect(v[1])


class Piece(bytes):
    done = None


class Srv(server.Server):
    max_frags = 6
    other = False

    def command_id(self, sh, wanted):
        return self.new_id() if self.other else wanted

    def __init__(self, plan):
        server.Server.__init__(self, plan)
        self.seen = []  # calls whose last fragment was delivered: (shell, command or None, call)
        self.items = None

    def put(self, sh, c, items):
        for kind, x in items:
            if kind == "call":
                l = sh.sender.frags("PIPELINE_HOST_CALL" if c is not None else "RUNSPACEPOOL_HOST_CALL", psrp.host_call(x["ci"], x["mi"], METHODS[x["mi"]], [pspec(p) for p in x["params"]]), c.pid if c is not None else None)
            else:
                l = sh.sender.frags("PIPELINE_OUTPUT", ("S", x), c.pid) if c is not None else []
            l = [Piece(f.pack()) for f in l]
            if l and kind == "call":
                l[-1].done = (sh, c, x)
            (c or sh).out.extend(l)

    def run_pipeline(self, sh, c, m):
        self.put(sh, c, self.items)
        self.finish(sh, c)

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.put(sh, None, self.items)
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 1)))

    def receive_body(self, c, items):
        for p in items:
            if isinstance(p, Piece) and p.done:
                self.seen.append(p.done)
                sh, _, x = p.done
                if x["mi"] < 52 and getattr(sh, "hosted", False):
                    RET.append(x["ret"])  # what the method returns next
        return server.Server.receive_body(self, c, items)


def answers(srv):
    return [(sh, c, m) for sh, c, m in srv.msgs if m.name in ("RUNSPACEPOOL_HOST_RESPONSE", "PIPELINE_HOST_RESPONSE")]


def check_answer(m, sh, pid, call, want, what):
    same(m.name, "PIPELINE_HOST_RESPONSE" if pid else "RUNSPACEPOOL_HOST_RESPONSE", "%s: type of the answer" % what)
    same(m.pid.upper(), (pid or psrp.EMPTY).upper(), "%s: pipeline of the answer" % what)
    same(m.rpid.upper(), sh.id.upper(), "%s: pool of the answer" % what)
    same(m.stream, "pr", "%s: stream of the answer" % what)
    d = rc.plain(m.node())["ms"]
    same(d.pop("ci"), ("I64", call["ci"]), "%s: call id of the answer" % what)
    e = rc.plain(rc.read(rc.write(psrp.enum(MI, METHODS[call["mi"]], call["mi"]))))
    require(d.get("mi") == e, "%s: method of the answer: %s, want %s", what, clip(d.get("mi")), clip(e))
    d.pop("mi")
    require(d.get("mr") == want, "%s: value of the answer: got %s, want %s", what, clip(d.get("mr")), clip(want))
    d.pop("mr")
    require(d.pop("me", ("Nil", None)) == ("Nil", None) and not d, "%s: further parts of the answer: %s", what, clip(d))


def check(case):
    srv = Srv(server.Plan(case["plan"]))
    srv.other = case["other_id"]
    labels = set()
    log = []  # what ran: (host number, method name, runspace, pipeline, args)
    with wire.wire(srv):
        pools = []
        for n, hs in enumerate(case["hosts"]):
            h = hosts.make(hs)
            pool = RunspacePool(server.new_wsman(max_envelope_size=case["env"]), host=h)
            for mi in range(1, 52):
                target = h if mi < 11 else getattr(h, "ui", None) if mi < 27 else getattr(getattr(h, "ui", None), "raw_ui", None)
                if target is not None:
                    setattr(target, METHODS[mi], recorder(n, METHODS[mi], log, pool))
            pool.open()
            pools.append((pool, list(srv.shells.values())[-1], hs))
            pools[-1][1].hosted = hs is not None
        RET.clear()

        def usable(hs, mi):
            """the host has the part the method is run on (a host without it is not asked by a server)"""
            return hs is None or mi < 11 or mi > 51 or (mi < 27 and hs != "ui") or isinstance(hs, dict)

        def compare(what, pid_of):
            ran = [(s, c, x) for s, c, x in srv.seen if x["mi"] < 52 and by_shell[s.id][2] is not None]
            same([(a, b) for a, b, _, _, _ in log], [(by_shell[s.id][3], METHODS[x["mi"]]) for s, _, x in ran], "host methods run after %s" % what)
            got = answers(srv)
            due = []
            for (n, name, rp, pl, args), (s, c, x) in zip(log, ran):
                require(rp is by_shell[s.id][0], "a host method was given another pool")
                same(None if pl is None else pl.id.upper(), None if c is None else c.pid.upper(), "pipeline given to %s" % name)
                same(len(args), len(x["params"]), "number of parameters of %s" % name)
                for k, (a, p) in enumerate(zip(args, x["params"])):
                    if p[0] == "rect":
                        require(hasattr(a, "extended_properties"), "parameter %d of %s is %s", k, name, clip(a))
                        c08.eq(dict(a.extended_properties), {n: c08.py(v) for n, v in p[1].items()}, "parameter %d of %s" % (k, name))
                    else:
                        c08.eq(a, c08.py(p), "parameter %d of %s" % (k, name))
                if x["ret"] is not None and not (x["ret"][0] in ("v", "ser") and x["ret"][1] == ("none",)):
                    due.append((s, c, x))
                    if x["params"]:
                        labels.add("answered")
            same(len(got), len(due), "number of answers after %s" % what)
            for (s, _, m), (s2, c, x) in zip(got, due):
                require(s is s2, "an answer was sent to another pool")
                check_answer(m, s, c.pid if c is not None else None, x, expect(x["ret"]), METHODS[x["mi"]])

        by_shell = {sh.id: (pool, sh, hs, n) for n, (pool, sh, hs) in enumerate(pools)}
        used = set()
        for kind, n, items in case["steps"]:
            pool, sh, hs = pools[n % len(pools)]
            used.add(n % len(pools))
            items = [(k, x) for k, x in items if k != "call" or usable(hs, x["mi"])]
            srv.items = items
            if kind == "pool":
                same(pool.get_available_runspaces(), 1, "available runspaces")
            elif kind == "pair":  # two pipelines at the same time
                two = []
                for i in (0, 1):
                    ps = PowerShell(pool)
                    ps.add_script("s")
                    srv.items = items[i::2]
                    ps.begin_invoke()
                    two.append(ps)
                while any(ps.state == 1 for ps in two):
                    for ps in two:
                        if ps.state == 1:
                            ps.poll_invoke()
                            compare("a poll", None)
                for i, ps in enumerate(two):
                    same([str(o) for o in ps.end_invoke()], [x for k, x in items[i::2] if k == "out"], "output of a pipeline")
                    ps.close()
                if items:
                    labels.add("pipelines")
            else:
                ps = PowerShell(pool)
                ps.add_script("s")
                ps.begin_invoke()
                for _ in range(3):
                    if ps.state == 1:
                        ps.poll_invoke()
                        compare("a poll", None)
                out = ps.end_invoke()
                same([str(o) for o in out], [x for k, x in items if k == "out"], "output")
                ps.close()
            same(len(srv.seen) >= len([1 for k, _ in items if k == "call"]), True, "all delivered")
            compare(kind, None)
            require(not RET, "a method did not run")
        if len(used) > 1:
            labels.add("hosts")
        for pool, _, _ in pools:
            pool.close()
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels), sorted(labels))


RET = []


def recorder(n, name, log, pool):
    def run(runspace, pipeline, *args):
        log.append((n, name, runspace, pipeline, args))
        require(RET, "%s ran although it was not called", name)
        r = RET.pop(0)
        if r is None:
            return None
        v = value(r)
        return pool.serialize(v) if r[0] == "ser" and v is not None else v

    return run


# ---- the built-in host
GET = {"GetForegroundColor": "fg", "GetBackgroundColor": "bg", "GetCursorPosition": "cursor", "GetWindowPosition": "window", "GetCursorSize": "cursor_size", "GetBufferSize": "buffer", "GetWindowSize": "size", "GetWindowTitle": "title",
       "GetMaxWindowSize": "max_window", "GetMaxPhysicalWindowSize": "max_physical", "GetKeyAvailable": None, "GetName": None, "GetVersion": None, "GetInstanceId": None, "GetCurrentCulture": None, "GetCurrentUICulture": None}
SET = {"SetForegroundColor": "fg", "SetBackgroundColor": "bg", "SetCursorPosition": "cursor", "SetWindowPosition": "window", "SetCursorSize": "cursor_size", "SetBufferSize": "buffer", "SetWindowSize": "size", "SetWindowTitle": "title"}
t = c08.text
color = st.integers(0, 15)
CALLS = {}
for _n in GET:
    CALLS[_n] = st.just([])
for _n, _a in SET.items():
    if _a in ("fg", "bg"):
        CALLS[_n] = color.map(lambda v: [("I32", v)])
    elif _a in ("cursor", "window"):
        CALLS[_n] = hosts.pair.map(lambda p: [psrp.obj([("x", ("I32", p[0])), ("y", ("I32", p[1]))])])
    elif _a in ("buffer", "size"):
        CALLS[_n] = hosts.pair.map(lambda p: [psrp.obj([("width", ("I32", p[0])), ("height", ("I32", p[1]))])])
    elif _a == "cursor_size":
        CALLS[_n] = n32.map(lambda v: [("I32", v)])
    else:
        CALLS[_n] = t.map(lambda v: [("S", v)])
for _n in ("Write1", "WriteLine2", "WriteErrorLine", "WriteDebugLine", "WriteVerboseLine", "WriteWarningLine"):
    CALLS[_n] = t.map(lambda v: [("S", v)])
for _n in ("Write2", "WriteLine3"):
    CALLS[_n] = st.tuples(color, color, t).map(lambda v: [("I32", v[0]), ("I32", v[1]), ("S", v[2])])
CALLS["WriteLine1"] = CALLS["NotifyBeginApplication"] = CALLS["NotifyEndApplication"] = CALLS["FlushInputBuffer"] = st.just([])
CALLS["SetShouldExit"] = n32.map(lambda v: [("I32", v)])
CALLS["WriteProgress"] = st.tuples(c08.i64, t).map(lambda v: [("I64", v[0]), ("S", v[1])])
NUMBER = {v: k for k, v in METHODS.items()}
ccall = st.one_of(st.sampled_from(sorted(CALLS)), st.sampled_from(sorted(SET) + sorted(GET))).flatmap(lambda n: st.tuples(st.just(n), CALLS[n]))
cstep = st.tuples(st.sampled_from(["pipe", "pool"]), st.integers(0, 1), st.lists(ccall, max_size=8))
ident = st.tuples(st.none() | t, st.lists(st.integers(0, 9), min_size=2, max_size=4).map(lambda l: ".".join(map(str, l))), st.booleans())
console_cases = st.fixed_dictionaries({"raws": st.tuples(hosts.raw, hosts.raw), "ids": st.tuples(ident, ident), "same": st.booleans(), "steps": st.lists(cstep, min_size=1, max_size=6), "plan": plans})


def check_console(case):
    srv = Srv(server.Plan(case["plan"]))
    labels = set()
    with wire.wire(srv):
        pools = []
        for n in range(2):
            raw, (name, version, cult) = case["raws"][n], case["ids"][n]
            base = hosts.make(raw)
            culture = value(("Culture", 1033, "en-US")) if cult else None
            if n == 1 and case["same"]:
                h, model = pools[0][2], pools[0][3]  # one host for two pools
            else:
                h = PSHost(culture, culture, False, name, None, base.ui, version)
                model = dict(raw)
                model.update(stdout=[], stderr=[], rc=None, name=name, version=version, cult=cult)
            pool = RunspacePool(server.new_wsman(), host=h)
            pool.open()
            pools.append((pool, list(srv.shells.values())[-1], h, model))
        sets = set()
        ci = 0
        for kind, n, calls in case["steps"]:
            pool, sh, h, m = pools[n]
            n0 = len(answers(srv))
            due, items = [], []
            for name, params in calls:
                ci += 1
                x = {"mi": NUMBER[name], "ci": ci, "params": params, "ret": None}
                items.append(("call", x))
                if name in GET:
                    a = GET[name]
                    if a is not None and a in sets:
                        labels.add("queried")
                    if a in ("fg", "bg"):
                        r = {"types": ("System.ConsoleColor", "System.Enum", "System.ValueType", "System.Object"), "tostring": COLORS[m[a]], "sets": [("I32", m[a])]}
                    elif a in ("cursor", "window"):
                        r = xy(*m[a])
                    elif a in ("buffer", "size", "max_window", "max_physical"):
                        r = wh(*m[a])
                    elif a == "cursor_size":
                        r = ("I32", m[a])
                    elif a == "title":
                        r = ("S", m[a])
                    elif name == "GetKeyAvailable":
                        r = ("B", False)
                    elif name == "GetName":
                        r = None if m["name"] is None else ("S", m["name"])
                    elif name == "GetVersion":
                        r = ("Version", m["version"])
                    elif name == "GetInstanceId":
                        r = ("G", h.instance_id)
                    else:
                        r = expect(("Culture", 1033, "en-US")) if m["cult"] else None
                    if r is not None:
                        due.append((x, r))
                elif name in SET:
                    a = SET[name]
                    v = params[0]
                    sets.add(a)
                    m[a] = v[1] if v[0] != "obj" else tuple(s[1] for _, s in v[1]["ms"])
                elif name == "SetShouldExit":
                    m["rc"] = params[0][1]
                elif name.startswith("Write") and name != "WriteProgress":
                    s = params[-1][1] if params else ""
                    pre = {"WriteDebugLine": "DEBUG: ", "WriteVerboseLine": "VERBOSE: ", "WriteWarningLine": "WARNING: "}.get(name, "")
                    end = "" if name in ("Write1", "Write2") else "\r\n"
                    m["stderr" if name == "WriteErrorLine" else "stdout"].append(pre + s + end)
            srv.items = items
            ps = None
            if kind == "pool":
                pool.get_available_runspaces()
            else:
                ps = PowerShell(pool)
                ps.add_script("s")
                ps.invoke()
                ps.close()
            got = answers(srv)[n0:]
            same(len(got), len(due), "number of answers")
            for (s, _, msg), (x, r) in zip(got, due):
                require(s is sh, "an answer was sent to another pool")
                check_answer(msg, sh, ps.id if ps else None, x, r, METHODS[x["mi"]])
            for pool, _, h, m in pools:
                same([str(x) for x in h.ui.stdout], m["stdout"], "text on the console")
                same([str(x) for x in h.ui.stderr], m["stderr"], "errors on the console")
                same(h.rc, m["rc"], "exit code of the host")
        for pool, _, _, _ in pools:
            pool.close()
    return Info(bool(labels), sorted(labels))


COLORS = "Black DarkBlue DarkGreen DarkCyan DarkRed DarkMagenta DarkYellow Gray DarkGray Blue Green Cyan Red Magenta Yellow White".split()
SUBS = [Sub("calls", lambda: cases, check, quick=150, thorough=4000, qshards=4, tshards=8), Sub("console", lambda: console_cases, check_console, quick=150, thorough=4000, qshards=3, tshards=6)]
