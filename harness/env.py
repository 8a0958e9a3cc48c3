"""Puts the code under test (/repo's working tree) and Hypothesis on the path; imported before anything else."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

sys.dont_write_bytecode = True
# never trust byte code left beside the sources: read and write caches in a folder that does not exist
sys.pycache_prefix = os.path.join(VERIF, ".cache", "no-pyc", str(os.getpid()))
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)
if HERE not in sys.path:
    sys.path.insert(1, HERE)
if VT not in sys.path:
    sys.path.append(VT)


def quiet_environment():
    for k in list(os.environ):
        if k.lower().endswith("_proxy") or k in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC"):
            del os.environ[k]
    os.environ["HOME"] = os.path.join(VERIF, ".cache", "home")


def check_product():
    import pypsrp

    got = os.path.realpath(pypsrp.__file__)
    want = os.path.realpath(SRC) + os.sep
    if not got.startswith(want):
        raise RuntimeError("pypsrp imported from %s, not from %s" % (got, want))
