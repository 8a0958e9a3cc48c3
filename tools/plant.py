"""Confirms planted bugs and writes /verif/seeded/<id>/ (run by hand).

usage: plant.py [-k substring] [--new] SPEC.py...
A spec module has BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].  For each: the edit is applied
to a clone of /repo, the stable tests must pass, the demonstration must fail with it and pass without it, then the property's check
is run with the edit in place and the result kept in /verif/tools/catches.json.  All of this happens in scratch clones of
/repo's HEAD, several at a time.
"""
import concurrent.futures, threading
import importlib.util, json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
LIB = ["server.py", "psrp.py", "soap.py", "wire.py", "refclixml.py", "sec.py"]
BASE = "53d34bf"
CORE = '''class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def clip(x, n=600):
    s = ascii(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def same(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation("%s: got %s, want %s" % (what, clip(got), clip(want)))
'''
HEAD = '''import os, sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.getcwd(), "src"), os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")]
import pypsrp

assert os.path.realpath(pypsrp.__file__).startswith(os.path.realpath("src") + os.sep), pypsrp.__file__
from core import Violation, fail, require, same
'''
SH = '''#!/bin/bash
# exits 0 where the property holds, not 0 where it is broken; run with the repository as working directory
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


TEST = """cd %(c)s && export PIP_NO_INDEX=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 TZ=UTC PYTHONPATH=%(c)s/src PYTHONPYCACHEPREFIX=%(t)s/pyc
unset PYPSRP_SERVER PYPSRP_USERNAME PYPSRP_PASSWORD PYPSRP_RUN_INTEGRATION REQUESTS_CA_BUNDLE CURL_CA_BUNDLE http_proxy https_proxy no_proxy all_proxy HTTP_PROXY HTTPS_PROXY NO_PROXY ALL_PROXY
/opt/venv/bin/python -c 'import pypsrp; assert pypsrp.__file__.startswith("%(c)s/"), pypsrp.__file__' || exit 9
/opt/venv/bin/python -m pytest tests/tests_pypsrp -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%(t)s/junit.xml
python3 /opt/vp/results.py %(t)s/o.json junit:%(t)s/junit.xml"""


def write_dir(b, diff):
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "lib"))
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(HEAD + b["demo"].strip("\n") + "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
    with open(os.path.join(d, "lib", "core.py"), "w") as f:
        f.write(CORE)
    for n in LIB:
        shutil.copy(os.path.join(ROOT, "harness", n), os.path.join(d, "lib", n))
    return d


def touches_original(c):
    """removed lines of the working tree's diff that are lines of the original repository"""
    n = 0
    for l in sh("git -C %s diff -U0" % c).stdout.splitlines():
        if l.startswith("--- "):
            f = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for k in range(start, start + cnt):
                # a line of the base commit is marked as a boundary
                if sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (c, k, k, f)).stdout.startswith("^"):
                    n += 1
    return n


def one(b):
    r = {"property": b["prop"], "ok": False}
    tmp = tempfile.mkdtemp(prefix="plant-")
    c = os.path.join(tmp, "repo")
    try:
        sh("git clone -q /repo %s" % c)
        for f, old, new in b["edits"]:
            p = c + "/src/pypsrp/" + f
            s = open(p).read()
            if s.count(old) != 1:
                r["why"] = "%d places for the edit in %s" % (s.count(old), f)
                return r
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % c).stdout
        if not touches_original(c):
            r["why"] = "changes no original line"
            return r
        d = write_dir(b, diff)
        x = sh("bash %s/demo.sh" % d, cwd=c)
        if x.returncode == 0:
            r["why"] = "the demonstration passes with the bug"
            return r
        r["demo"] = (x.stderr.strip().splitlines() or ["?"])[-1][:200]
        t = sh(TEST % {"c": c, "t": tmp})
        passed = set(json.load(open(tmp + "/o.json"))["passed"]) if os.path.exists(tmp + "/o.json") else set()
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base.get("passed") or base.get("stable") or base)
        if base - passed:
            r["why"] = "tests fail: %s" % (sorted(base - passed)[:3] if passed else t.stderr[-300:])
            return r
        r["caught"] = {}
        for pid in [b["prop"]] + list(b.get("also", [])):
            x = sh("VERIF_EVIDENCE=%s VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick %s/bin/check %s" % (tmp, c, ROOT, pid))
            r["caught"][pid] = x.returncode
            r["says"] = [l for l in x.stdout.splitlines() if l.startswith("---")][:1]
        sh("git -C %s checkout -- ." % c)
        x = sh("bash %s/demo.sh" % d, cwd=c)
        if x.returncode != 0:
            r["why"] = "the demonstration fails without the bug: %s" % x.stderr.strip()[-600:]
            return r
        r["ok"] = True
        return r
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    key, new = None, False
    if args and args[0] == "-k":
        key, args = args[1], args[2:]
    if args and args[0] == "--new":
        new, args = True, args[1:]
    cp = os.path.join(ROOT, "tools", "catches.json")
    res = json.load(open(cp)) if os.path.exists(cp) else {}
    todo = []
    for a in args:
        spec = importlib.util.spec_from_file_location("bugs", a)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo += [b for b in m.BUGS if not (key and key not in b["id"] or new and res.get(b["id"], {}).get("ok"))]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for b, r in zip(todo, ex.map(one, todo)):
            res[b["id"]] = r
            if not r["ok"]:
                shutil.rmtree(os.path.join(SEEDED, b["id"]), ignore_errors=True)
            print("%-28s %s %s" % (b["id"], "ok" if r["ok"] else "NOT KEPT " + r.get("why", ""), {1: "caught", 0: "MISSED"}.get(r.get("caught", {}).get(b["prop"]), r.get("caught"))), flush=True)
            if r["ok"]:
                print("      demo: %s\n      %s" % (r.get("demo", "")[:150], (r.get("says") or [""])[0][:220]), flush=True)
            json.dump(res, open(cp, "w"), indent=1, sort_keys=True)


main()
