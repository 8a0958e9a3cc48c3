"""C20: the limits of a pool change only when the server agrees; answers belong to their requests."""
import warnings

from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import RunspacePoolState as RS
from pypsrp.exceptions import InvalidPSRPOperation, WSManFaultError
from pypsrp.host import PSHost
from pypsrp.powershell import RunspacePool, RunspacePoolWarning

PROPERTY = "C20"
RULE = ("limits: one or two pools on which generated sequences of setting the minimum and maximum, asking for available runspaces and resetting run; the server accepts or refuses each, sends its answers mixed with events, warnings, host "
        "calls and states, late after a failed receive, or in another order when a host method asks again while a request is waiting; what is sent, returned, raised and reported is compared with a model. Non-trivial: a refusal, "
        "a late answer, or a request made while another one waits.")

i32 = st.integers(-(2**31), 2**31 - 1)
val = st.one_of(st.integers(0, 4), st.integers(0, 4), i32)
noise = st.lists(st.sampled_from(["event", "warning", "host", "state", "private"]), max_size=3)
ask = st.fixed_dictionaries({"op": st.sampled_from(["min", "max", "min", "max", "available", "reset"]), "v": val, "ok": st.sampled_from([True, True, False]), "n": st.one_of(st.integers(0, 3), st.integers(0, 2**31 - 1))})
req = st.fixed_dictionaries({"ask": ask, "pool": st.integers(0, 1), "before": noise, "after": noise, "fault": st.sampled_from([False, False, False, True]), "late_first": st.booleans(),
                             "inner": gens.choose(st.none(), st.none(), ask), "inner_first": st.booleans(), "inner_late": st.booleans()})
what = gens.choose(*([req.map(lambda r: ("req", r))] * 8 + [st.tuples(st.sampled_from(["disconnect", "close", "set before"]), st.integers(0, 1))]))
plans = st.fixed_dictionaries({"frag_sizes": st.lists(gens.choose(st.integers(5, 200), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 6), max_size=3), "per_stream": st.lists(st.integers(1, 4), max_size=2),
                               "hold": st.lists(st.sampled_from([0, 0, 2]), max_size=3), "bom": st.booleans()})
cases = st.fixed_dictionaries({"pools": st.lists(st.fixed_dictionaries({"lo": val, "hi": val, "early": st.lists(st.tuples(st.sampled_from(["min", "max"]), val), max_size=2), "ctor": st.booleans()}), min_size=1, max_size=2),
                               "ops": st.lists(what, min_size=1, max_size=12), "plan": plans, "proto": st.sampled_from(["2.3", "2.3", "2.3", "2.2", "2.1", "2.10", "3.1"])})
TYPE = {"min": "SET_MIN_RUNSPACES", "max": "SET_MAX_RUNSPACES", "available": "GET_AVAILABLE_RUNSPACES", "reset": "RESET_RUNSPACE_STATE"}


class Srv(server.Server):
    max_frags = 6

    def __init__(self, case):
        server.Server.__init__(self, server.Plan(case["plan"]), proto=case["proto"])
        self.fault = False
        self.todo = []
        self.events = 0
        self.asked = []  # (shell, name, ci) not answered yet
        self.late = {}

    def intercept(self, req):
        if self.fault and req.action == "Receive":
            self.fault = False
            return soap.fault(req, 2150859174)

    def noise(self, sh, l):
        for k in l:
            self.events += 1
            sh.noise.append((k, self.events))
            if k == "event":
                m = ("USER_EVENT", psrp.user_event(self.events, "src"))
            elif k == "warning":
                m = ("WARNING_RECORD", psrp.informational("Warning", "warning %d" % self.events))
            elif k == "host":
                m = ("RUNSPACEPOOL_HOST_CALL", psrp.host_call(self.events, 9, "NotifyBeginApplication", []))
            elif k == "state":
                m = ("RUNSPACEPOOL_STATE", psrp.pool_state(2))
            else:
                m = ("APPLICATION_PRIVATE_DATA", psrp.app_private_data([("n", ("I32", self.events))]))
            self.push(sh, None, m)

    def answer(self, sh, ci, a):
        self.asked = [x for x in self.asked if x[0] is not sh or x[2] != ci]
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(ci, a["n"] if a["op"] == "available" else a["ok"])))

    def take(self, sh, c, m):
        n = m.node()
        d = rc.plain(n)["ms"]
        require(self.todo, "%s is sent although nothing was asked for", m.name)
        kind, r = self.todo.pop(0)
        a = r["ask"] if kind == "outer" else r["inner"]
        same(m.name, TYPE[a["op"]], "message sent for %s" % a["op"])
        ci = d.pop("CI" if a["op"] in ("min", "max") else "ci")
        same(ci[0], "I64", "type of the call id")
        same(d, {"MinRunspaces": ("I32", a["v"])} if a["op"] == "min" else {"MaxRunspaces": ("I32", a["v"])} if a["op"] == "max" else {}, "content of %s" % m.name)
        require((sh, ci[1]) not in [(s, i) for s, _, i in self.asked], "the call id %d is used for two requests at once", ci[1])
        self.asked.append((sh, m.name, ci[1]))
        late = self.late.setdefault(sh.id, [])
        if kind == "inner":
            # the outer request waits; both answers in either order
            both = [(ci[1], a), (self.waiting[0], self.waiting[1]["ask"])] if self.waiting else [(ci[1], a)]
            if not r["inner_first"]:
                both.reverse()
            if r["inner_late"] and self.waiting and r["inner_first"]:
                self.answer(sh, *both[0])
                self.after = both[1]
            else:
                for x in both:
                    self.answer(sh, *x)
            self.waiting = None
            return
        self.noise(sh, r["before"])
        if r["fault"]:
            self.fault = True
            late.append((ci[1], a))
            return
        if r["late_first"]:
            while late:
                self.answer(sh, *late.pop(0))
        self.waiting = None
        if r["inner"] is not None:
            self.waiting = (ci[1], r)
            self.push(sh, None, ("RUNSPACEPOOL_HOST_CALL", psrp.host_call(77, 10, "NotifyEndApplication", [])))
        else:
            self.answer(sh, ci[1], a)
            self.noise(sh, r["after"])
            while late:
                self.answer(sh, *late.pop(0))

    on_SET_MIN_RUNSPACES = on_SET_MAX_RUNSPACES = on_GET_AVAILABLE_RUNSPACES = on_RESET_RUNSPACE_STATE = take


def check(case):
    srv = Srv(case)
    labels = set()
    with wire.wire(srv), warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        pools = []
        inner = {}
        for c in case["pools"]:
            h = PSHost(None, None, False, "h", None, None, "1")
            pool = RunspacePool(server.new_wsman(), host=h, min_runspaces=c["lo"], max_runspaces=c["hi"]) if c["ctor"] else RunspacePool(server.new_wsman(), host=h)
            lim = {"min": c["lo"] if c["ctor"] else 1, "max": c["hi"] if c["ctor"] else 1}
            for k, v in c["early"]:
                setattr(pool, k + "_runspaces", v)
                lim[k] = v
            same(len(srv.reqs), 0 if not pools else len(srv.reqs), "requests of setting limits before opening")
            ran = []

            def end(runspace, pipeline, pool=pool):
                inner[pool]()

            h.NotifyEndApplication = end
            h.NotifyBeginApplication = lambda runspace, pipeline, ran=ran: ran.append(1)
            k = len(srv.reqs)
            pool.open()
            sh = list(srv.shells.values())[-1]
            sh.noise = []
            d = rc.plain(sh.msgs[1].node())["ms"]
            same((d["MinRunspaces"], d["MaxRunspaces"]), (("I32", lim["min"]), ("I32", lim["max"])), "limits of opening")
            pools.append((pool, sh, lim, ran))

        def issue(pool, a):
            return {"min": lambda: setattr(pool, "min_runspaces", a["v"]), "max": lambda: setattr(pool, "max_runspaces", a["v"]), "available": pool.get_available_runspaces, "reset": pool.reset_runspace_state}[a["op"]]()

        def judge(f, pool, lim, a, what):
            """run f and compare with what the server answers to a"""
            try:
                r = f()
                ok = True
            except InvalidPSRPOperation as e:
                ok, r = False, e
            if a["op"] == "available":
                require(ok, "%s raises %s", what, r)
                same(r, a["n"], "available runspaces of %s" % what)
            elif a["ok"]:
                require(ok, "%s raises %s although the server accepted", what, r)
                if a["op"] != "reset":
                    lim[a["op"]] = a["v"]
            else:
                labels.add("refused")
                require(not ok, "%s hides that the server refused", what)
            same((pool.min_runspaces, pool.max_runspaces), (lim["min"], lim["max"]), "limits after %s" % what)

        def silent(a, lim):
            """nothing has to be sent"""
            return a["op"] in ("min", "max") and lim[a["op"]] == a["v"]

        def old(a):
            return a["op"] == "reset" and tuple(map(int, case["proto"].split("."))) < (2, 3)

        gone = set()
        for o in case["ops"]:
            if o[0] != "req":
                pool, sh, lim, _ = pools[o[1] % len(pools)]
                if pool in gone:
                    continue
                if o[0] == "disconnect":
                    pool.disconnect()
                    pool.connect()
                elif o[0] == "close" and len(pools) > 1:
                    pool.close()
                    gone.add(pool)
                    k = len(srv.reqs)
                    pool.min_runspaces = 7
                    pool.max_runspaces = 8
                    same((len(srv.reqs), pool.min_runspaces, pool.max_runspaces), (k, 7, 8), "setting limits of a closed pool")
                continue
            r = o[1]
            pool, sh, lim, ran = pools[r["pool"] % len(pools)]
            if pool in gone:
                continue
            a = r["ask"]
            k = len(srv.reqs)
            if silent(a, lim):
                issue(pool, a)
                same(len(srv.reqs), k, "requests of setting a limit to what it is")
                continue
            if old(a):
                try:
                    issue(pool, a)
                except InvalidPSRPOperation:
                    same(len(srv.reqs), k, "requests of a reset the server cannot do")
                    continue
                fail("a reset is sent to a server of the version %s", case["proto"])
            r = dict(r)
            if r["inner"] is not None and old(r["inner"]):
                r["inner"] = None
            if r["fault"]:
                # an accepted limit whose answer got lost leaves open what is in force
                r["inner"] = None
                if a["op"] in ("min", "max"):
                    a = r["ask"] = dict(a, ok=False)
            srv.todo = [("outer", r)]
            srv.waiting = None
            srv.after = None
            if r["fault"]:
                labels.add("late")
                try:
                    issue(pool, a)
                except WSManFaultError:
                    pass
                else:
                    fail("%s hides that the answer could not be received", a["op"])
                finally:
                    srv.fault = False
                same((pool.min_runspaces, pool.max_runspaces), (lim["min"], lim["max"]), "limits after a failed receive")
                continue
            done = []

            def nested(pool=pool, sh=sh, lim=lim, r=r):
                b = r["inner"]
                done.append(1)
                labels.add("while waiting")
                outer = srv.waiting
                if silent(b, lim):
                    n = len(srv.reqs)
                    issue(pool, b)
                    same(len(srv.reqs), n, "requests of setting a limit to what it is")
                    srv.answer(sh, outer[0], outer[1]["ask"])
                    srv.waiting = None
                    return
                srv.todo = [("inner", r)]
                judge(lambda: issue(pool, b), pool, lim, b, "%s while %s waits" % (b["op"], r["ask"]["op"]))
                if srv.after:
                    srv.answer(sh, *srv.after)
                    srv.after = None

            inner[pool] = nested
            judge(lambda: issue(pool, a), pool, lim, a, a["op"])
            same(len(done), 1 if r["inner"] is not None else 0, "host calls made")
            for p, _, l, _ in pools:
                if p not in gone:
                    same((p.min_runspaces, p.max_runspaces), (l["min"], l["max"]), "limits of a pool")
                    same(p.state, RS.OPENED, "state of a pool")
        # the rest of what was sent arrives as well
        for pool, sh, lim, ran in pools:
            if pool in gone:
                continue
            r = {"ask": {"op": "available", "v": 0, "ok": True, "n": 5}, "before": [], "after": [], "fault": False, "late_first": True, "inner": None, "inner_first": True, "inner_late": False}
            srv.todo = [("outer", r)]
            judge(pool.get_available_runspaces, pool, lim, r["ask"], "available")
            same([e.event_id for e in pool.user_events], [n for k, n in sh.noise if k == "event"], "events received")
            same(len(ran), len([1 for k, n in sh.noise if k == "host"]), "host calls received")
            pd = [n for k, n in sh.noise if k == "private"]
            same(pool.application_private_data.data if pd else None, {"n": pd[-1]} if pd else None, "private data")
        if not gone:
            w = sorted(str(x.message) for x in warned if issubclass(x.category, RunspacePoolWarning))
            same(w, sorted("warning %d" % n for _, sh, _, _ in pools for k, n in sh.noise if k == "warning"), "warnings")
    require(not srv.unknown, "a request names something the server does not know: %s", srv.unknown)
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("limits", lambda: cases, check, quick=600, thorough=15000, qshards=6, tshards=8)]
