"""C29: asking whether a pool is alive answers truthfully and disturbs nothing."""
import threading

import requests
import urllib3
import urllib3.poolmanager
from hypothesis import strategies as st

import gens
import loop
import psrp
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import RunspacePoolState
from pypsrp.exceptions import AuthenticationError, WinRMError, WinRMTransportError, WSManFaultError
from pypsrp.powershell import PowerShell, RunspacePool
from pypsrp.wsman import WSMan

PROPERTY = "C29"
RULE = ("answers: an open pool that is asked, used and asked again, with generated shell states, faults, HTTP errors and transport failures, with and without a timeout of its own, beside a second pool of the same "
        "client; every question is one Get of that shell. sockets: the same over real connections that the server keeps, drops, resets, answers late or ends after an answer, with another client opening connections "
        "at the same time. Non-trivial: some question is not answered with the shell in the state Connected.")

LOST = [0x80338029, 0x8033805B]
codes = gens.choose(st.sampled_from(LOST), st.sampled_from([5, 995, 0x80338012, 0x80338028, 0x8033802A, 0x8033805A, 0x8033805C, 0x80338029 - 2**32]), st.integers(1, 2**32 - 1))
FAILURES = {"ConnectionError": requests.exceptions.ConnectionError, "ConnectTimeout": requests.exceptions.ConnectTimeout, "ReadTimeout": requests.exceptions.ReadTimeout, "SSLError": requests.exceptions.SSLError,
            "ProxyError": requests.exceptions.ProxyError, "TimeoutError": TimeoutError}
states = st.sampled_from(["Connected", "Connected", "Disconnected", "Creating", "Receiving", "disconnecting", None, ""])
answer = gens.choose(st.tuples(st.just("state"), states), st.tuples(st.just("state"), st.just("Connected")), st.tuples(st.just("state"), st.just("Connected")), st.tuples(st.just("fault"), codes), st.tuples(st.just("raise"), st.sampled_from(sorted(FAILURES))),
                     st.tuples(st.just("http"), st.sampled_from([401, 403, 404, 500, 503])), st.just(("gone",)))
timeouts = st.sampled_from([None, None, 0, 1, 5, 60, 3600])
step = gens.choose(st.tuples(st.just("alive"), st.integers(0, 1), answer, timeouts), st.tuples(st.just("alive"), st.integers(0, 1), answer, timeouts), st.tuples(st.just("run"), st.integers(0, 1)))
cases = st.fixed_dictionaries({"steps": st.lists(step, min_size=1, max_size=6), "pools": st.integers(1, 2), "context": st.booleans(), "op_timeout": st.sampled_from([20, 7]), "read": st.sampled_from([30, 12])})


class Srv(server.Server):
    answer = None

    def do_Get(self, req):
        if self.answer is None:
            return server.Server.do_Get(self, req)
        (kind, *x), self.answer = self.answer, None
        if kind == "fault":
            return soap.fault(req, x[0])
        if kind == "raise":
            return FAILURES[x[0]]("injected")
        if kind == "http":
            return wire.Reply(x[0], b"no", {"Content-Type": "text/plain"})
        if kind == "gone":
            return self.no_shell(req)
        return soap.ok(req, "<rsp:Shell><rsp:ShellId>%s</rsp:ShellId>%s</rsp:Shell>" % (req.selector("ShellId"), "" if x[0] is None else "<rsp:State>%s</rsp:State>" % x[0]))

    def run_pipeline(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "fine")))


def run(pool, what):
    ps = PowerShell(pool)
    ps.add_script("x")
    same(list(ps.invoke()), ["fine"], "output of a pipeline %s" % what)
    ps.close()


def check(case):
    srv = Srv()
    odd = False
    labels = set()
    with wire.wire(srv):
        w = server.new_wsman(operation_timeout=case["op_timeout"], read_timeout=case["read"], connection_timeout=9)
        pools = [RunspacePool(w) for _ in range(case["pools"])]
        for p in pools:
            p.open()
        shells = list(srv.shells.values())
        dead = [False] * len(pools)
        seen = []
        base = srv.__call__
        orig = srv.intercept
        srv.intercept = lambda req: seen.append(req)
        for s in case["steps"]:
            i = s[1] % len(pools)
            P = pools[i]
            if dead[i]:
                continue
            if s[0] == "run":
                run(P, "of a pool that is alive")
                continue
            del seen[:]
            srv.answer = s[2]
            kind = s[2][0]
            if kind == "http" and s[2][1] == 401:
                want = AuthenticationError
            elif kind == "http":
                want = WinRMTransportError
            elif kind == "fault" and s[2][1] not in LOST:
                want = WSManFaultError
            else:
                want = kind == "state" and s[2][1] != "Disconnected"
            odd = odd or s[2] != ("state", "Connected")
            labels.add(kind if isinstance(want, bool) else "error")
            before = P.state
            try:
                got = P.is_alive() if s[3] is None else P.is_alive(timeout=s[3])
            except (WinRMError, WSManFaultError, AuthenticationError, requests.exceptions.RequestException) as e:
                require(not isinstance(want, bool), "asking whether a pool is alive raises %r, the answer was %r", e, s[2])
                require(isinstance(e, want), "asking raises %r, the answer was %r", e, s[2])
                if kind == "fault":
                    same(e.code, s[2][1], "code of the fault")
                same(P.state, before, "state of the pool after an error that does not tell whether it is alive")
            else:
                same(got, want, "whether the pool is alive, answered with %r" % (s[2],))
                if got:
                    same(P.state, before, "state of a pool that is alive")
                else:
                    same(P.state, RunspacePoolState.CLOSED, "state of a pool that is not alive")
                    dead[i] = True
            srv.answer = None
            same([r.action for r in seen], ["Get"], "requests of asking once")
            r = seen[0]
            same((r.resource, [(n, v) for n, v, _ in r.selectors or []]), (soap.SHELL, [("ShellId", shells[i].id)]), "what is asked for")
            require(not r.body, "the question has a body: %r", r.body)
            t = case["op_timeout"] if s[3] is None else s[3]
            if s[3] != 0:
                same(r.op_timeout, "PT%dS" % t, "operation timeout of the question")
                ht = r.http.timeout
                same(ht if isinstance(ht, tuple) else (ht, ht), (9, case["read"]) if s[3] is None else (t + 2, t + 2), "connect and read timeout of the question")
            for j, Q in enumerate(pools):
                if not dead[j]:
                    same(Q.state, RunspacePoolState.OPENED, "state of a pool that is alive")
        for i, P in enumerate(pools):
            if not dead[i]:
                run(P, "after all questions")
            n = len(srv.reqs)
            if case["context"]:
                P.__exit__(None, None, None)
            else:
                P.close()
            same(len(srv.reqs) - n, 0 if dead[i] else 1, "requests of closing a pool that is %s" % ("not alive" if dead[i] else "alive"))
            same(shells[i].deleted, 0 if dead[i] else 1, "deletions of a shell")
    return Info(odd, sorted(labels))


# ---------------------------------------------------------------- sockets
sock_step = st.one_of(st.sampled_from(["alive", "alive", "drop", "close", "reset", "late", "disconnected"]))
socket_cases = st.fixed_dictionaries({"steps": st.lists(sock_step, min_size=1, max_size=4), "after": st.sampled_from(["keep", "keep", "end"]), "other": st.booleans(), "proxy": st.sampled_from([False, False, True])})


def check_sockets(case):
    inner = Srv()
    how = [None]

    def handler(g):
        h, how[0] = how[0], None
        req = soap.Req(g.body)
        if req.action == "Get" and h in ("close", "reset", "hang"):
            return h
        if h == "disconnected":
            inner.answer = ("state", "Disconnected")
        if req.action == "Get" and other is not None:
            # while the question is on its way another client and another pool of the same process need connections
            t = threading.Thread(target=foreign)
            t.start()
            t.join(10)
        r = inner(g)
        if req.action == "Get" and case["after"] == "end":
            r.headers = dict(r.headers, Connection="close")
        return r

    def client(port, proxy=False):
        if proxy:  # the same server, reached as the proxy of another
            return WSMan("there.invalid", port=5985, ssl=False, auth="basic", encryption="never", username="u", password="p", read_timeout=8, connection_timeout=3, reconnection_retries=0, proxy="http://127.0.0.1:%d" % port)
        return WSMan("127.0.0.1", port=port, ssl=False, auth="basic", encryption="never", username="u", password="p", read_timeout=8, connection_timeout=3, reconnection_retries=0, no_proxy=True)

    def foreign():
        try:
            w2 = client(other.port)
            require(w2.get("http://x").findtext(soap.q("rsp:Answer")) == "fine", "another client cannot connect")
            w2.close()
        except BaseException as e:
            trouble.append(e)

    trouble = []
    classes = dict(urllib3.poolmanager.pool_classes_by_scheme)
    other = loop.Loop(lambda g: soap.ok(soap.Req(g.body), "<rsp:Answer>fine</rsp:Answer>")) if case["other"] else None
    labels = set()
    try:
        with loop.Loop(handler) as srv:
            w = client(srv.port, case["proxy"])
            pool = RunspacePool(w)
            pool.open()
            usable = True  # the connection can still carry a request
            for s in case["steps"]:
                if s == "drop":
                    srv.drop_all()
                    usable = False
                    continue
                n0, g0 = srv.opened, len(srv.got)
                how[0] = {"alive": None, "late": "hang"}.get(s, s)
                kw = {"timeout": 1} if s == "late" else {}
                got = pool.is_alive(**kw)
                for e in srv.errors:
                    raise e
                want = usable and s == "alive"
                labels.add(s if usable else "no connection")
                same(got, want, "whether the pool is alive (the connection is %s, the server does: %s)" % ("there" if usable else "gone", s))
                same(srv.opened, n0, "connections the question opened")
                if not usable:
                    same(len(srv.got), g0, "requests that arrive without a connection")
                if not got:
                    same(pool.state, RunspacePoolState.CLOSED, "state of a pool that is not alive")
                    break
                same(pool.state, RunspacePoolState.OPENED, "state of a pool that is alive")
                if case["after"] == "end":
                    usable = False
            for e in trouble:
                raise e
            how[0] = None
            # the client itself is not limited: it connects again where that is not a question
            with RunspacePool(w) as p2:
                run(p2, "of a new pool")
            if pool.state != RunspacePoolState.CLOSED:
                run(pool, "of a pool that is alive")
            n = len(srv.got)
            alive = pool.state != RunspacePoolState.CLOSED
            pool.close()
            same(len(srv.got) - n, 1 if alive else 0, "requests of closing")
            w.close()
            for e in srv.errors:
                raise e
        same({k: v for k, v in urllib3.poolmanager.pool_classes_by_scheme.items()}, classes, "the connection pools of all other clients")
    finally:
        if other is not None:
            other.__exit__()
    return Info(bool(labels - {"alive"}), sorted(labels))


SUBS = [
    Sub("answers", lambda: cases, check, quick=400, thorough=8000, qshards=3, tshards=6),
    Sub("sockets", lambda: socket_cases, check_sockets, quick=50, thorough=600, qshards=2, tshards=4),
]
