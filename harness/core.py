"""Property runner: drives generated cases through plain check functions and reports what was covered.

A property module defines PROPERTY, RULE and SUBS (a list of Sub).  A Sub has a Hypothesis strategy that makes
plain-data cases and a check(case) function that knows nothing of Hypothesis: it returns an Info or raises.
A failing case is shrunk by Hypothesis and written as a literal to a replay file; replaying calls check(case) directly.
"""
import ast, hashlib, json, os, pickle, resource, signal, sys, tempfile, time, traceback

import env


class Violation(Exception):
    """The property is broken by this case."""


class HarnessError(Exception):
    """The machinery, not the property, failed."""


class _Stop(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation("%s: got %s, want %s" % (what, clip(got), clip(want)))


def clip(x, n=600):
    s = ascii(x)
    return s if len(s) <= n else s[: n // 2] + " ...[%d]... " % len(s) + s[-n // 2 :]


def finding(pid, key):
    """The text of a known finding listed in known_findings.txt, or None."""
    try:
        with open(os.path.join(env.VERIF, "known_findings.txt")) as f:
            for line in f:
                head, _, rest = line.rstrip("\n").partition(": ")
                if head == "finding" and rest.startswith("property=%s key=%s " % (pid, key)):
                    return rest.split(" ", 2)[2]
    except FileNotFoundError:
        pass
    return None


class Info:
    def __init__(self, nontrivial=True, labels=(), known=None):
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.known = known


class Sub:
    """name; strategy: a function returning a Hypothesis strategy; check(case) -> Info;
    quick/thorough: number of examples *per shard*; qshards/tshards: shards (independent seeds)."""

    def __init__(self, name, strategy, check, quick=300, thorough=4000, qshards=1, tshards=4, fixed=(), budget=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": qshards, "thorough": tshards}
        self.fixed = list(fixed)
        self.budget = budget or {"quick": 100, "thorough": 2400}


def to_literal(x):
    return ascii(x)


def from_literal(s):
    return eval(s, {"__builtins__": {}}, {"inf": float("inf"), "nan": float("nan")})


def case_key(case):
    return hashlib.sha1(ascii(case).encode()).digest()[:10]


CPU_LIMIT = 60
WALL_LIMIT = 300


def _on_cpu(sig, frm):
    raise Violation("one case used more than %d s of processor time: the operation does not finish" % CPU_LIMIT)


def _on_wall(sig, frm):
    raise Violation("one case was blocked for more than %d s: the operation does not finish" % WALL_LIMIT)


def run_case(sub, case):
    """Run one case; returns Info or raises Violation / HarnessError."""
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        info = sub.check(case)
        return info if info is not None else Info()
    except (Violation, HarnessError, _Stop):
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        owner = ""
        for f in frames:
            if f.filename.startswith(env.SRC):
                owner = "product"
            elif f.filename.startswith(env.HERE):
                owner = "harness"
        if owner == "harness" and isinstance(e, (NameError, ImportError)):
            raise HarnessError("%s" % traceback.format_exc())
        tail = "".join(traceback.format_exception(e)[-6:])
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:400], tail)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_job(sub, tier, seed, shard):
    """Explore one sub-check with one seed; returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis import seed as hseed

    signal.signal(signal.SIGPROF, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    st = {"evals": 0, "nontrivial": set(), "labels": {}, "samples": [], "skipped": 0, "known": {}}
    fail_state = {"case": None, "msg": None, "first": None, "size": None}
    t0 = time.monotonic()
    budget = sub.budget[tier]

    def one(case):
        if fail_state["first"] is None and time.monotonic() - t0 > budget:
            st["skipped"] += 1
            return
        lit = to_literal(case)
        try:
            info = run_case(sub, case)
        except Violation as e:
            size = len(lit)
            if fail_state["size"] is None or size <= fail_state["size"]:
                fail_state.update(case=lit, msg=str(e), size=size)
            if fail_state["first"] is None:
                fail_state["first"] = time.monotonic()
                fail_state["origin"] = lit
            elif time.monotonic() - fail_state["first"] > (20 if tier == "quick" else 120):
                raise _Stop()
            raise
        if fail_state["first"] is not None:
            return
        st["evals"] += 1
        for l in info.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if info.known:
            st["known"][info.known] = st["known"].get(info.known, 0) + 1
        if info.nontrivial:
            k = case_key(lit)
            if k not in st["nontrivial"]:
                st["nontrivial"].add(k)
                n = len(st["nontrivial"])
                if len(st["samples"]) < 3 and n in (1, 7, 40) or (n == 150 and len(st["samples"]) < 4):
                    st["samples"].append(lit if len(lit) < 900 else lit[:900] + "...[%d chars]" % len(lit))

    out = {"name": sub.name, "shard": shard, "error": None, "violation": None}
    try:
        if shard == 0:
            for c in sub.fixed:
                try:
                    one(c)
                except Violation:
                    break
        if fail_state["first"] is None:
            strategy = sub.strategy()

            @hseed(seed * 1000003 + shard)
            @settings(
                max_examples=sub.n[tier],
                database=None,
                deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=Verbosity.quiet,
            )
            @given(strategy)
            def go(case):
                one(case)

            try:
                go()
            except (Violation, _Stop):
                pass
            except BaseException:
                if fail_state["first"] is None:
                    raise
                # Hypothesis reports e.g. Flaky when a failure does not repeat; decide by replaying below
    except Violation:
        pass
    except BaseException:
        out["error"] = traceback.format_exc()
    if fail_state["first"] is not None and out["error"] is None:
        # confirm from the literal, in the way a replay does
        # (the code under test draws keys and ids at random: a failure that depends on them may need several goes)
        t1 = time.monotonic()
        try:
            for lit in [fail_state["case"], fail_state["origin"]] * 10:
                run_case(sub, from_literal(lit))
                if time.monotonic() - t1 > 30:
                    break
            out["error"] = "failure did not repeat from its literal (harness is not deterministic): %s\n%s" % (
                clip(fail_state["case"]), fail_state["msg"])
        except Violation as e:
            out["violation"] = {"case": lit, "msg": str(e)}
        except BaseException:
            out["error"] = traceback.format_exc()
    out.update(
        evals=st["evals"], nontrivial=list(st["nontrivial"]), labels=st["labels"], samples=st["samples"],
        skipped=st["skipped"], known=st["known"], wall=time.monotonic() - t0,
    )
    return out


def run_property(mod, tier, seed, only=None):
    """Fork one worker per (sub, shard); gather; write evidence; return exit code."""
    t0 = time.monotonic()
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        for sh in range(sub.shards[tier]):
            jobs.append((sub, sh))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if scale != 1:
        for sub in mod.SUBS:
            sub.n = {k: max(1, int(v * scale)) for k, v in sub.n.items()}
    results, running = [], {}
    tmp = tempfile.mkdtemp(prefix="verif-")
    sys.stdout.flush()
    pending = list(jobs)
    maxp = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    try:
        while pending or running:
            while pending and len(running) < maxp:
                sub, sh = pending.pop(0)
                path = os.path.join(tmp, "%d.pkl" % len(results + list(running)) + "-%s-%d" % (sub.name, sh))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        r = run_job(sub, tier, seed, sh)
                        with open(path, "wb") as f:
                            pickle.dump(r, f)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (sub, sh, path)
            pid, status = os.wait()
            if pid not in running:
                continue
            sub, sh, path = running.pop(pid)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    results.append(pickle.load(f))
                os.unlink(path)
            else:
                results.append({"name": sub.name, "shard": sh, "error": "worker died with status %r" % status,
                    "violation": None, "evals": 0, "nontrivial": [], "labels": {}, "samples": [], "skipped": 0,
                    "known": {}, "wall": 0})
    finally:
        try:
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            os.rmdir(tmp)
        except OSError:
            pass

    results.sort(key=lambda r: (r["name"], r["shard"]))
    pid = mod.PROPERTY
    code = 0
    nviol = 0
    for r in results:
        if r["error"]:
            print("HARNESS-ERROR property=%s sub=%s shard=%d\n%s" % (pid, r["name"], r["shard"], r["error"]))
    for r in results:
        if r["violation"]:
            nviol += 1
            d = os.path.join(env.EVIDENCE, "replay")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha1(r["violation"]["case"].encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s-%s.json" % (pid, r["name"], h))
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": r["name"], "case": r["violation"]["case"],
                           "message": r["violation"]["msg"], "seed": seed, "tier": tier}, f, indent=1)
            print("--- %s/%s: %s" % (pid, r["name"], r["violation"]["msg"]))
            print("    case: %s" % clip(r["violation"]["case"], 1500))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    per, evals, distinct, samples = {}, 0, set(), []
    for r in results:
        p = per.setdefault(r["name"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}, "inconclusive_skips": 0, "wall_s": 0.0})
        p["evaluations"] += r["evals"]
        p["distinct_nontrivial"].update(r["nontrivial"])
        p["inconclusive_skips"] += r["skipped"]
        p["wall_s"] = round(max(p["wall_s"], r["wall"]), 2)
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        evals += r["evals"]
        distinct |= {(r["name"], x) for x in r["nontrivial"]}
        samples += [{"sub": r["name"], "case": s} for s in r["samples"][:2]]
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
        p["labels"] = dict(sorted(p["labels"].items()))
    known = {}
    for r in results:
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k, known[k]))
    if nviol:
        code = 1
    elif any(r["error"] for r in results):
        code = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                     "samples": samples[:12] or ["none"], "sub_checks": per, "known_findings_hit": known},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2), "violations": nviol,
    }
    if not only:
        d = env.EVIDENCE
        os.makedirs(d, exist_ok=True)
        tmpf = os.path.join(d, ".%s.%d.tmp" % (pid, os.getpid()))
        with open(tmpf, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmpf, os.path.join(d, "%s.json" % pid))
    print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs exit=%d" % (
        pid, tier, seed, evals, len(distinct), time.monotonic() - t0, code))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per, indent=1))
    return code


def replay(mod, path):
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    with open(path) as f:
        d = json.load(f)
    sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
    try:
        run_case(sub, from_literal(d["case"]))
    except Violation as e:
        print(str(e))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    print("replay of %s: property held" % path)
    return 0
