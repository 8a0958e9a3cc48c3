"""C26: a copied file arrives byte for byte and is verified."""
import base64
import binascii
import contextlib
import functools
import hashlib
import os
import re
import shutil
import tempfile
import warnings

import requests
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import soap
import wire
from core import Info, Sub, clip, fail, require, same
from props import c08
from pypsrp.client import Client
from pypsrp.exceptions import WinRMError, WSManFaultError
from pypsrp.powershell import DEFAULT_CONFIGURATION_NAME, RunspacePool

PROPERTY = "C26"
RULE = ("copy: a file of generated content and a size at or around multiples of the piece the envelope limit allows, under generated local and remote paths, is copied to a server that runs the copy script's rules on what it "
        "receives; failures (an error record, a WS-Man fault, a lost connection, a damaged piece, a file that changes underneath) are injected at generated steps. Non-trivial: two or more pieces, an injected failure, "
        "an expanded path, or a file changed during the copy.")

pathname = st.text(st.sampled_from("ab $%~{}'\"`;&()[]\u00e9\u4e2d\U0001f600.-_"), min_size=1, max_size=12).filter(lambda s: s not in (".", ".."))
few = st.tuples(st.integers(1, 4), st.integers(-2, 2))
size = gens.choose(st.just(0), st.integers(1, 300), few, few, st.tuples(st.integers(0, 3), st.integers(0, 3000)), st.tuples(st.integers(0, 3), st.integers(0, 3000)), st.tuples(st.integers(5, 40), st.integers(-2, 2)))
content = gens.choose(st.binary(min_size=1, max_size=40), st.sampled_from([b"\x00", b"\r\n", b"\xff\xfe", bytes(range(256))]))
local = gens.choose(st.tuples(st.just("plain"), pathname), st.tuples(st.just("plain"), pathname), st.tuples(st.just("env"), st.sampled_from(["$PV_DIR/f", "${PV_DIR}/f.bin", "$PV_NONE.bin", "%PV_DIR%"])), st.tuples(st.just("home"), st.sampled_from(["~/f", "~"])))
failure = gens.choose(st.none(), st.none(), st.none(), st.tuples(st.just("record"), st.none() | c08.err_fields, st.booleans()), st.tuples(st.just("request"), st.integers(0, 12), st.sampled_from(["fault", "connection", "http"])),
                      st.tuples(st.just("damage"), st.integers(0, 4)), st.tuples(st.just("change"), st.integers(0, 700), st.integers(0, 8)))
remote = gens.xtext(24)
more = st.lists(st.sampled_from(["no space", "locked", "<a>"]), max_size=3)  # error records besides the one that ends the script
answer = gens.xtext(16).map(lambda s: ("C:\\" + s).strip()).filter(lambda s: s)
cases = st.fixed_dictionaries({"size": size, "content": content, "local": local, "expand": st.booleans(), "dest": remote, "answer": answer, "failure": failure, "env": st.sampled_from([6000, 8192, 9001, 20000, None]), "proto": st.sampled_from(["2.3", "2.1"]),
                               "config": st.none() | gens.ident(), "warnings": st.lists(gens.xtext(), max_size=2), "plan": st.fixed_dictionaries({"hold": st.lists(st.integers(0, 2), max_size=4), "frag_sizes": st.lists(st.integers(20, 3000), min_size=1, max_size=2)}),
                               "newline": st.sampled_from(["", "\r\n", " "]), "more": more})


def pipeline_of(m):
    """-> [[(command text, is a script, [(name or None, value spec)])]] of a CREATE_PIPELINE message"""
    ps = m.node().prop("PowerShell").prop("PowerShell") if m.node().prop("PowerShell").has("PowerShell") else m.node().prop("PowerShell")

    def cmds(lst):
        out = []
        for c in lst.items:
            args = []
            for a in c.prop("Args").items:
                n = a.prop("N")
                v = a.prop("V")
                args.append((None if isinstance(n, rc.Prim) and n.tag == "Nil" else n.value, (v.tag, v.value) if isinstance(v, rc.Prim) else v))
            out.append((c.prop("Cmd").value, c.prop("IsScript").value, args))
        return out

    if ps.has("ExtraCmds") and getattr(ps.prop("ExtraCmds"), "items", None):
        return [cmds(e.prop("Cmds")) for e in ps.prop("ExtraCmds").items]
    return [cmds(ps.prop("Cmds"))]


def bare(script):
    """the lines of a script that do something"""
    script = re.sub(r"<#.*?#>", "", script.replace("\r\n", "\n"), flags=re.S)
    return [l.strip() for l in script.split("\n") if l.strip() and not l.strip().startswith("#")]


class Broken(server.Server):
    """A server whose n-th request fails."""

    break_at = None
    broken = False

    def intercept(self, req):
        if self.break_at is not None and len(self.reqs) - 1 == self.break_at[0] and not self.broken:
            self.broken = req.action
            how = self.break_at[1]
            if how == "fault":
                return soap.fault(req, 5)
            if how == "http":
                return wire.Reply(500, b"", {"Content-Type": "text/plain"})
            return requests.exceptions.ConnectionError("injected")


ERRORS = (WinRMError, requests.exceptions.RequestException)


class Srv(Broken):
    def __init__(self, case):
        Broken.__init__(self, case["plan"], proto=case.get("proto", "2.3"))
        self.case = case
        self.files = {}
        self.error = None
        self.args = []
        self.pieces = 0
        self.damaged = False

    def on_create(self, sh):
        if self.case["failure"] and self.case["failure"][0] == "change":
            self.change()

    def run_pipeline(self, sh, c, m):
        p = pipeline_of(m)
        require(len(p) == 1 and len(p[0]) == 1, "the copy runs %s statements", [len(x) for x in p])
        text, is_script, args = p[0][0]
        with open(os.path.join(os.path.dirname(__import__("pypsrp").__file__), "pwsh_scripts", "copy.ps1"), "rb") as f:
            want = f.read().decode("utf-8")
        same(is_script, True, "the copy command is a script")
        same(bare(text), bare(want), "script of the copy")
        same([n for n, _ in args], [None, None], "names of the arguments of the copy script")
        c.args = [v for _, v in args]
        self.args.append(c.args)
        same(m.node().prop("NoInput").value, False, "the pipeline takes no input")
        c.file = []

    def on_PIPELINE_INPUT(self, sh, c, m):
        n = m.node()
        require(isinstance(n, rc.Prim) and n.tag == "S", "a piece of the file is sent as %r", n)
        c.file.append(n.value)

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        """what copy.ps1 does"""
        f = self.case["failure"]
        data = []
        for x in c.file:
            try:
                data.append(base64.b64decode(x.encode("ascii"), validate=True))
            except (binascii.Error, UnicodeEncodeError) as e:
                fail("a piece of the file does not decode on its own: %s: %s", e, clip(x, 80))
        self.pieces = len(data)
        out = [("WARNING_RECORD", psrp.informational("Warning", w)) for w in self.case["warnings"]]
        if f and f[0] == "record":
            if f[2]:
                out.append(("PIPELINE_OUTPUT", ("S", self.case["answer"])))
            out += [("ERROR_RECORD", record(x)) for x in self.case["more"]]
            return self.finish(sh, c, *out, state=5, err=f[1] and c08.err_spec(f[1]))
        if f and f[0] == "damage" and len(data) > 1:
            k = f[1] % (len(data) - 1)
            data[k] = data[k][:-1] if data[k] else b"x"
            self.damaged = True
        if not data:
            return self.finish(sh, c, *out, state=5, err=MISMATCH)
        body, digest = b"".join(data[:-1]), data[-1]
        if hashlib.sha1(body).hexdigest().encode() != digest:
            self.error = "hash"
            return self.finish(sh, c, *out, state=5, err=MISMATCH)
        self.files[c.args[0]] = body
        self.finish(sh, c, *out, ("PIPELINE_OUTPUT", ("S", self.case["answer"] + self.case["newline"])))


def record(text):
    return psrp.obj([("FullyQualifiedErrorId", ("S", "x")), ("ErrorCategory_Category", ("I32", 14)), ("ErrorCategory_Message", ("S", text)), ("SerializeExtendedInfo", ("B", False))],
                    types=["System.Management.Automation.ErrorRecord", "System.Object"], tostring=text)


def tells(err, texts):
    """the message of err has all the texts, in this order"""
    at = 0
    for t in texts:
        k = str(err).find(t, at)
        require(k >= 0, "the error says %r, the server said %r", str(err), texts)
        at = k + len(t)


MISMATCH = record("Transport failure, hash mismatch")


@contextlib.contextmanager
def scratch(**envs):
    """A scratch directory that is also the place for temporary files, the home and PV_DIR."""
    d = tempfile.mkdtemp(prefix="verif-files-")
    old = {k: os.environ.get(k) for k in ("TMPDIR", "HOME", "PV_DIR", "PV_NONE")}
    oldt, cwd = tempfile.tempdir, os.getcwd()
    try:
        for s in ("tmp", "home", "env", "lit"):
            os.mkdir(os.path.join(d, s))
        os.environ.update(TMPDIR=os.path.join(d, "tmp"), HOME=os.path.join(d, "home"), PV_DIR=os.path.join(d, "env"))
        os.environ.pop("PV_NONE", None)
        tempfile.tempdir = None
        os.chdir(os.path.join(d, "lit"))
        yield d
    finally:
        os.chdir(cwd)
        tempfile.tempdir = oldt
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d)


def place(d, how, name, expand):
    """-> (the path given to the library, the path it means)"""
    lit, envd, home = (os.path.join(d, x) for x in ("lit", "env", "home"))
    if how == "plain":
        given = os.path.join(lit, name)
        # an unusual name may itself be expanded; keep those literal
        return given, os.path.expanduser(os.path.expandvars(given)) if expand else given
    if how == "env":
        if not expand:
            return name, os.path.join(lit, name)  # relative, literally
        if name.startswith(("$PV_DIR", "${PV_DIR}")):
            return name, envd + name[name.index("/") :]
        return name, os.path.join(lit, name)  # an unknown variable stays
    if not expand:
        return name, os.path.join(lit, name)
    return (name, home + name[1:]) if name != "~" else ("~/g", os.path.join(home, "g"))


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def filler(content, n):
    out = bytearray((content * (n // len(content) + 1))[:n])
    for k in range(0, n, 997):  # no two pieces are the same
        out[k] = (k // 997 * 7 + out[k]) & 255
    return bytes(out)


def client(env=None):
    return Client("srv", username="user", password="pass", auth="basic", ssl=True, **({} if env is None else {"max_envelope_size": env}))


@functools.lru_cache(None)
def piece_size(env, proto):
    """what fits in one message; only to choose interesting sizes"""
    with wire.wire(server.Server(proto=proto)):
        c = client(env)
        with RunspacePool(c.wsman):
            return int((c.wsman.max_payload_size - 82) / 4 * 3)


def check(case):
    srv = Srv(case)
    labels = set()
    f = case["failure"]
    with scratch() as d:
        how, name = case["local"]
        given, path = place(d, how, name, case["expand"])
        if case["expand"] and how == "plain" and not path.startswith(d):
            return Info(False)
        with wire.wire(srv):
            cl = client(case["env"])
            b = piece_size(case["env"], case["proto"])
            n = case["size"]
            if isinstance(n, tuple):
                n = max(0, min(n[0], max(4, 400000 // b)) * b + n[1])
            data = filler(case["content"], n)
            write(path, data)
            if path != os.path.join(d, "lit", given) and how != "plain":
                write(os.path.join(d, "lit", given), b"not this one")
            now = [data]

            def change():
                k = f[1] % (len(data) + 1)
                new = [data[:k], data + data[:k] + b"x", data[:k] + b"?" + data[k + 1 :], b"", filler(b"zz", b), filler(b"yz", b + 1), filler(b"y", 2 * b), data + filler(b"q", b), data * 2][f[2]]
                write(path, new)
                now[0] = new

            srv.change = change
            if f and f[0] == "request":
                srv.break_at = f[1:]
            kw = {}
            if case["expand"]:
                kw["expand_variables"] = True
            if case["config"]:
                kw["configuration_name"] = case["config"]
            before = sorted(os.listdir(os.path.dirname(path)))
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                err = got = None
                try:
                    got = cl.copy(given, case["dest"], **kw)
                except Exception as e:
                    err = e
            warned = [str(w.message) for w in warned if w.category is UserWarning]
            same(sorted(os.listdir(os.path.dirname(path))), before, "local files next to the source")
            with open(path, "rb") as fh:
                require(fh.read() == now[0], "the local file was changed")
            bad = bool(srv.broken or srv.error or srv.damaged or f and f[0] == "record")
            if bad:
                labels.add("failure")
                require(err is not None, "the copy failed on the server (%s) and reports success: %r", srv.broken or srv.error or "error record", got)
                require(isinstance(err, ERRORS), "the failure of a copy is reported as %s: %s", type(err).__name__, err)
                if f and f[0] == "record" and not srv.broken:
                    tells(err, list(case["more"]) + [x["tostring"] for x in (f[1],) if x and x["tostring"]])
                require(srv.error is None or srv.damaged or f and f[0] == "change", "the hash that was sent is not the one of the content that was sent")
            else:
                if err is not None:
                    raise err
                same(list(srv.files), [("S", case["dest"])] if case["dest"] is not None else [], "destination of the copy")
                remote = srv.files[("S", case["dest"])]
                require(remote == now[0], "the remote file differs: %d bytes %s, local %d bytes %s", len(remote), clip(remote, 100), len(now[0]), clip(now[0], 100))
                same(got, case["answer"], "path that is returned")
                same(warned, case["warnings"], "warnings")
                if f and f[0] == "change":
                    labels.add("changed")
            for a in srv.args:
                same(a, [("S", case["dest"]), ("B", case["expand"])], "arguments of the copy script")
            for r in srv.reqs:
                if r.action != "Get":
                    same(r.resource, server.PWSH_URI + (case["config"] or DEFAULT_CONFIGURATION_NAME), "configuration the copy uses")
            for sh in srv.shells.values():
                require(sh.deleted or srv.broken == "Delete", "the pool of the copy stays open")
            if srv.pieces > 2:
                labels.add("pieces")
            if case["expand"] and how != "plain":
                labels.add("expanded")
    return Info(bool(labels), sorted(labels))


absent = st.fixed_dictionaries({"what": st.sampled_from(["missing", "directory", "gone"]), "name": pathname})


def check_local(case):
    """errors of the local file are raised and leave no pool behind"""
    srv = Srv({"plan": {}, "failure": None, "warnings": [], "answer": "x", "newline": ""})
    with scratch() as d:
        p = os.path.join(d, "lit", case["name"])
        if case["what"] == "directory":
            os.mkdir(p)
        elif case["what"] == "gone":
            write(p, b"abc")
            srv.on_create = lambda sh: os.unlink(p)
        with wire.wire(srv):
            try:
                r = client().copy(p, "dest")
            except OSError as e:
                pass
            else:
                fail("copying a file that is %s returns %r", case["what"], r)
            require(not srv.files, "a remote file was made of nothing")
            for sh in srv.shells.values():
                same(sh.deleted, 1, "times the pool was closed")
    return Info(True, [case["what"]])


SUBS = [Sub("copy", lambda: cases, check, quick=500, thorough=20000, qshards=7, tshards=8), Sub("local", lambda: absent, check_local, quick=30, thorough=300, tshards=1)]
