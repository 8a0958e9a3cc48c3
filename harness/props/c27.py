"""C27: a fetched file is byte-identical, or the fetch fails and leaves the target alone."""
import base64
import hashlib
import os
import resource
import signal

import psrp
import requests
from hypothesis import strategies as st

import gens
import server
import wire
from core import Info, Sub, clip, fail, require, same
from props import c08, c26
from pypsrp.exceptions import WinRMError
from pypsrp.powershell import DEFAULT_CONFIGURATION_NAME

PROPERTY = "C27"
RULE = ("fetch: a server file of generated content is sent in generated pieces to a local path that may exist, with expanded and literal names; the server reports wrong hashes, loses, repeats or damages pieces, ends with or without an error "
        "record, or a request fails at a generated step, or the local disk takes only a part. Non-trivial: two or more pieces, a failure, an expanded path or a short write.")

pieces = st.lists(gens.choose(st.binary(max_size=30), st.tuples(st.binary(min_size=1, max_size=5), st.integers(1, 9000)).map(lambda t: t[0] * t[1])), max_size=5)
failure = gens.choose(st.none(), st.none(), st.none(), st.tuples(st.just("record"), st.none() | c08.err_fields, st.integers(0, 6)), st.tuples(st.just("request"), st.integers(0, 9), st.sampled_from(["fault", "connection", "http"])),
                      st.tuples(st.just("hash"), st.sampled_from(["other", "empty", "short", "long", "flip"])), st.tuples(st.just("damage"), st.sampled_from(["drop", "repeat", "swap", "flip", "cut", "extra"]), st.integers(0, 4)),
                      st.tuples(st.just("stopped"), st.integers(0, 6)), st.tuples(st.just("disk"), st.integers(1, 4000)))
many = st.tuples(st.lists(st.binary(max_size=4), min_size=1, max_size=8), st.integers(4, 40)).map(lambda t: t[0] * t[1])
cases = st.fixed_dictionaries({"pieces": gens.choose(pieces, pieces, pieces, pieces, many), "more": c26.more, "src": gens.xtext(24), "local": c26.local, "expand": st.booleans(), "old": st.none() | st.binary(max_size=20), "failure": failure, "config": st.none() | gens.ident(),
                               "plan": st.fixed_dictionaries({"hold": st.lists(st.integers(0, 2), max_size=4), "frag_sizes": st.lists(gens.choose(st.integers(40, 3000), st.just(32768)), min_size=1, max_size=2), "per_response": st.lists(st.integers(1, 8), max_size=3)}),
                               "target": st.sampled_from(["file", "file", "file", "no directory"])})


class Srv(c26.Broken):
    max_frags = 30

    def __init__(self, case):
        c26.Broken.__init__(self, case["plan"])
        self.case = case
        self.sent = None
        self.args = []

    def run_pipeline(self, sh, c, m):
        p = c26.pipeline_of(m)
        require(len(p) == 1 and len(p[0]) == 1, "the fetch runs %s statements", [len(x) for x in p])
        text, is_script, args = p[0][0]
        with open(os.path.join(os.path.dirname(__import__("pypsrp").__file__), "pwsh_scripts", "fetch.ps1"), "rb") as f:
            want = f.read().decode("utf-8")
        same(is_script, True, "the fetch command is a script")
        same(c26.bare(text), c26.bare(want), "script of the fetch")
        same([n for n, _ in args], [None, None], "names of the arguments of the fetch script")
        self.args.append([v for _, v in args])
        f = self.case["failure"]
        out = list(self.case["pieces"])
        digest = hashlib.sha1(b"".join(out)).hexdigest()
        if f and f[0] == "hash":
            digest = {"other": hashlib.sha1(b"other").hexdigest(), "empty": "", "short": digest[:-1], "long": digest + "0", "flip": ("1" if digest[0] == "0" else "0") + digest[1:]}[f[1]]
        if f and f[0] == "damage" and out:
            k, l = f[2] % len(out), (f[2] + 1) % len(out)
            if f[1] == "drop":
                del out[k]
            elif f[1] == "repeat":
                out.insert(k, out[k])
            elif f[1] == "swap":
                out[k], out[l] = out[l], out[k]
            elif f[1] == "flip":
                out[k] = out[k][:-1] + bytes([out[k][-1] ^ 1]) if out[k] else b"\x00"
            elif f[1] == "cut":
                out[k] = out[k][:-1]
            else:
                out.insert(k, b"\x00")
        msgs = [base64.b64encode(b).decode() for b in out] + [digest]
        state, err = 4, None
        if f and f[0] == "record":
            msgs, state, err = msgs[: f[2]], 5, f[1] and c08.err_spec(f[1])
        if f and f[0] == "stopped":
            msgs, state = msgs[: min(f[1], len(msgs) - 1)], 3
            out = None if b"".join(out[: len(msgs) - 1]) != b"".join(self.case["pieces"]) else out
        self.sent = None if out is None else b"".join(out)
        self.hash = digest
        more = [("ERROR_RECORD", c26.record(x)) for x in self.case["more"] if state == 5]
        self.finish(sh, c, *[("PIPELINE_OUTPUT", ("S", x)) for x in msgs], *more, state=state, err=err)


def check(case):
    srv = Srv(case)
    f = case["failure"]
    labels = set()
    data = b"".join(case["pieces"])
    with c26.scratch() as d:
        how, name = case["local"]
        given, path = c26.place(d, how, name, case["expand"])
        if case["expand"] and how == "plain" and not path.startswith(d):
            return Info(False)
        if case["target"] == "no directory":
            given, path = os.path.join(d, "lit", "nowhere", "f"), os.path.join(d, "lit", "nowhere", "f")
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if how != "plain":
                c26.write(os.path.join(d, "lit", given), b"not this one")
            if case["old"] is not None:
                c26.write(path, case["old"])
            elif os.path.exists(path):
                os.unlink(path)
        if f and f[0] == "request":
            srv.break_at = f[1:]
        kw = {}
        if case["expand"]:
            kw["expand_variables"] = True
        if case["config"]:
            kw["configuration_name"] = case["config"]

        def tree():
            out = {}
            for b, ds, fs in os.walk(d):
                for n in fs:
                    with open(os.path.join(b, n), "rb") as fh:
                        out[os.path.relpath(os.path.join(b, n), d)] = fh.read()
            return out

        before = tree()
        limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        err = got = None
        with wire.wire(srv):
            cl = c26.client()
            try:
                if f and f[0] == "disk":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (f[1], limit[1]))
                got = cl.fetch(case["src"], given, **kw)
            except Exception as e:
                err = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        after = tree()
        rel = os.path.relpath(path, d)
        right = srv.sent is not None and hashlib.sha1(srv.sent).hexdigest() == srv.hash
        bad = bool(srv.broken or f and f[0] in ("record", "stopped") or not right or case["target"] == "no directory")
        if f and f[0] == "disk" and len(data) > f[1]:
            labels.add("disk")
            bad = True
        if bad:
            labels.add("failure")
            require(err is not None, "the fetch reports success although %s", f or case["target"])
            if f and f[0] == "record" and not srv.broken:
                require(isinstance(err, WinRMError), "a failure of the remote side is reported as %r", err)
                c26.tells(err, list(case["more"]) + [x["tostring"] for x in (f[1],) if x and x["tostring"]])
            elif f and f[0] in ("hash", "damage") and not srv.broken and not right:
                require(isinstance(err, WinRMError), "a wrong hash is reported as %r", err)
            elif srv.broken:
                require(isinstance(err, c26.ERRORS), "a failed request is reported as %r", err)
            # closing the pool may fail after everything arrived and was verified
            done = srv.broken == "Delete" and right and not (f and f[0] in ("record", "stopped")) and case["target"] == "file"
            same(after, dict(before, **{rel: data}) if done and after != before else before, "files after a fetch that failed (%s)" % (type(err).__name__,))
        else:
            if err is not None:
                raise err
            same(got, None, "result")
            want = dict(before)
            want[rel] = data
            require(after == want, "files after the fetch: %s, want %s", clip(after, 400), clip(want, 400))
        require(not os.listdir(os.path.join(d, "tmp")), "a temporary file stays: %s", os.listdir(os.path.join(d, "tmp")))
        for a in srv.args:
            same(a, [("S", case["src"]), ("B", case["expand"])], "arguments of the fetch script")
        for r in srv.reqs:
            if r.action != "Get":
                same(r.resource, server.PWSH_URI + (case["config"] or DEFAULT_CONFIGURATION_NAME), "configuration the fetch uses")
        for sh in srv.shells.values():
            require(sh.deleted or srv.broken == "Delete", "the pool of the fetch stays open")
        if len(case["pieces"]) > 1:
            labels.add("pieces")
        if case["expand"] and how != "plain":
            labels.add("expanded")
    return Info(bool(labels), sorted(labels))


SUBS = [Sub("fetch", lambda: cases, check, quick=500, thorough=20000, qshards=7, tshards=8)]
