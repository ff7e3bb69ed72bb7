"""Runner: shards the facets of a property over forked workers, collects counts, shrinks and
re-confirms failures, writes evidence and replay files."""
import argparse, fcntl, hashlib, importlib, json, os, pickle, random, shutil, signal, subprocess, sys, tempfile
import time, traceback, warnings, zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EVID = os.path.join(HERE, "evidence")
NPROC = 8


# ------------------------------------------------------------------------------------------------
class Skip(Exception):
    """The generated case is outside of the property's domain (discarded, counted)."""


class Violation(AssertionError):
    pass


class _Stop(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


class Rec:
    """Per-case record: classes seen, and whether the case was non-trivial."""

    def __init__(self, workdir):
        self.classes = []
        self.nontrivial = False
        self._workdir = workdir
        self._n = 0

    def note(self, *classes):
        for c in classes:
            self.classes.append(str(c))

    def nt(self, cond=True):
        if cond: self.nontrivial = True

    def skip(self, cond=True, why=""):
        if cond: raise Skip(why)

    def check(self, cond, *msg):
        if not cond:
            raise Violation(" ".join(str(m) for m in msg))

    def scratch(self):
        """a fresh empty directory, removed with the whole run"""
        self._n += 1
        return tempfile.mkdtemp(dir=self._workdir)


class Facet:
    def __init__(self, fn, strategy, quick, thorough, shards, rule, name, case_s):
        self.fn, self._strategy, self.quick, self.thorough = fn, strategy, quick, thorough
        self.shards, self.rule, self.name, self.case_s = shards, rule, name or fn.__name__, case_s

    def strategy(self):
        return self._strategy() if not hasattr(self._strategy, "example") else self._strategy


_FACETS = []


def facet(strategy, quick, thorough=None, shards=NPROC, rule="", name=None, case_s=60):
    """Decorator: registers run(case, rec).  `strategy` generates JSON-able cases."""
    def deco(fn):
        _FACETS.append(Facet(fn, strategy, quick, thorough or quick * 12, shards, rule, name, case_s))
        return fn
    return deco


# ------------------------------------------------------------------------------------------------
def ensure_built():
    """Rebuild the Cython extensions of /repo if their sources changed (or they are missing)."""
    ext = "/opt/vp/ext.sh" if os.path.exists("/opt/vp/ext.sh") else os.path.join(HERE, "tools", "ext_fallback.sh")
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build", ".vt-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "-c", ". %s; build_ext" % ext], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
    if r.returncode != 0:
        print("BUILD-FAILED\n" + r.stdout[-3000:])
        sys.exit(2)


def setup_paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path: sys.path.insert(0, REPO)
    if HYP not in sys.path: sys.path.append(HYP)
    warnings.simplefilter("ignore")


def load_facets(pid):
    setup_paths()
    del _FACETS[:]
    devnull_out()
    try:
        import pygsti
    finally:
        devnull_out(False)
    assert os.path.realpath(pygsti.__file__).startswith(REPO + "/"), pygsti.__file__
    importlib.import_module("vt.props." + pid.lower())
    warnings.simplefilter("ignore")
    names = [f.name for f in _FACETS]
    assert len(set(names)) == len(names), "duplicate facet names"
    return list(_FACETS)


_saved_fds = []


def devnull_out(on=True):
    sys.stdout.flush(); sys.stderr.flush()
    if on:
        _saved_fds.append((os.dup(1), os.dup(2)))
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1); os.dup2(fd, 2); os.close(fd)
    else:
        a, b = _saved_fds.pop()
        os.dup2(a, 1); os.dup2(b, 2); os.close(a); os.close(b)


def run_case(fct, case, workdir):
    """Run one case; returns (rec, failure or None)."""
    import numpy as np
    rec = Rec(workdir)
    np.random.seed(20230817); random.seed(20230817)
    os.chdir(workdir)
    try:
        fct.fn(case, rec)
    except Skip:
        rec.classes = ["skipped"]; rec.nontrivial = False
        return rec, "skip"
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (t.filename.replace(HERE + "/", ""), t.lineno, t.name) for t in tb[-6:]]
        return rec, {"type": type(e).__name__, "msg": str(e)[:2000], "where": where}
    return rec, None


def _alarm(signum, frame):
    raise _CaseTimeout()


def run_shard(fct, seed, n, deadline, shrink_s, statusfile, workdir, outfile, excluded):
    """Body of a forked worker."""
    import hypothesis
    from hypothesis import settings, given, Phase, HealthCheck, Verbosity
    res = {"facet": fct.name, "evals": 0, "skipped": 0, "nt": set(), "classes": {}, "samples": [], "fail": None,
           "stopped": None, "error": None, "excluded": 0, "wall": 0.0, "maxcase": 0.0}
    t0 = time.time()
    best = {}
    state = {"first": None}
    signal.signal(signal.SIGALRM, _alarm)

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
              verbosity=Verbosity.quiet)
    @given(fct.strategy())
    def test(case):
        now = time.time()
        if state["first"] is None:
            if now > deadline: res["stopped"] = "time budget"; raise _Stop()
        elif now - state["first"] > shrink_s:
            raise _Stop()
        txt = json.dumps(case, sort_keys=True)
        case = json.loads(txt)
        if txt in excluded:
            res["excluded"] += 1
            return
        with open(statusfile, "w") as f: f.write(txt)
        signal.alarm(int(fct.case_s))
        try:
            rec, fail = run_case(fct, case, workdir)
        except _CaseTimeout:
            if state["first"] is None:
                best.update(txt=txt, fail={"type": "Timeout", "msg": "case exceeded %d s" % fct.case_s, "where": []})
            raise _Stop()
        finally:
            signal.alarm(0)
        res["maxcase"] = max(res["maxcase"], time.time() - now)
        if state["first"] is None:
            res["evals"] += 1
        if fail == "skip":
            res["skipped"] += 1
            hypothesis.reject()
        if state["first"] is None:
            for c in rec.classes: res["classes"][c] = res["classes"].get(c, 0) + 1
            if rec.nontrivial:
                res["nt"].add(hashlib.blake2b(txt.encode(), digest_size=8).digest())
                if len(res["samples"]) < 3 and len(txt) < 1500 and (len(txt) > 40 or res["evals"] > 20):
                    res["samples"].append(txt)
        if fail is not None:
            if state["first"] is None: state["first"] = time.time()
            if not best or len(txt) < len(best["txt"]) or fail["type"] == best["fail"]["type"] and len(txt) <= len(best["txt"]):
                best.update(txt=txt, fail=fail)
            raise Violation(fail["type"])
    try:
        test()
    except _Stop:
        pass
    except (Exception, BaseException) as e:
        if not best:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if best:
        res["fail"] = {"case": json.loads(best["txt"]), "fail": best["fail"], "seed": seed, "n": n}
    res["wall"] = time.time() - t0
    with open(outfile, "wb") as f: pickle.dump(res, f)


def spawn(fn):
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            devnull_out()
            fn()
            os._exit(0)
        except BaseException:
            os._exit(77)
    return pid


def confirm(fct, case, workdir):
    """Re-run a failing case in a fresh process without hypothesis. Returns failure dict, None, or 'crash'."""
    out = os.path.join(workdir, "confirm.%s" % fct.name)
    if os.path.exists(out): os.unlink(out)
    d = tempfile.mkdtemp(dir=workdir)

    def body():
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(fct.case_s))
        try: _, fail = run_case(fct, case, d)
        except _CaseTimeout:
            fail = {"type": "Timeout", "msg": "case exceeded %d s" % fct.case_s, "where": []}
        with open(out, "w") as f: json.dump(fail, f)
    p = spawn(body)
    _, status = os.waitpid(p, 0)
    if os.WIFSIGNALED(status):
        return {"type": "Crash", "msg": "process died with signal %d" % os.WTERMSIG(status), "where": []}
    if not os.path.exists(out):
        return {"type": "Exit", "msg": "no answer from confirmation", "where": []}
    with open(out) as f: r = json.load(f)
    return None if r == "skip" else r


def load_known(pid):
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path): return []
    with open(path) as f: data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--facet"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay"); ap.add_argument("--list", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--noevidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    ensure_built()
    workdir = tempfile.mkdtemp(prefix="vt-%s-" % a.pid)
    rc = 2
    try:
        rc = _main(a, tier, workdir, t0)
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir("/")
        shutil.rmtree(workdir, ignore_errors=True)
    return rc


def _main(a, tier, workdir, t0):
    pid = a.pid
    facets = load_facets(pid)
    if a.list:
        for f in facets: print(f.name, f.quick, f.thorough, f.rule)
        return 0
    byname = {f.name: f for f in facets}
    if a.replay:
        with open(a.replay) as f: rp = json.load(f)
        fct = byname[rp["facet"]]
        if rp.get("history"):
            out, st = os.path.join(workdir, "o"), os.path.join(workdir, "s")
            spawned = spawn(lambda: run_shard(fct, rp["history"]["seed"], rp["history"]["n"], time.time() + 3000, 1, st,
                                              workdir, out, set()))
            os.waitpid(spawned, 0)
            with open(out, "rb") as f: fail = (pickle.load(f)["fail"] or {}).get("fail")
        else:
            fail = confirm(fct, rp["case"], workdir)
        if fail:
            print("%s: %s" % (fail["type"], fail["msg"])); print("\n".join("  " + w for w in fail["where"]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        print("replay passes")
        return 0
    if a.facet:
        sel = a.facet.split(",")
        facets = [f for f in facets if f.name in sel]
        assert facets, "no such facet"

    # known findings: report each that still fails; exclude their inputs from the search
    excluded = {}
    nknown = 0
    for k in load_known(pid):
        fct = byname.get(k["facet"])
        if fct is None or (a.facet and fct not in facets): continue
        excluded.setdefault(k["facet"], set()).add(json.dumps(k["case"], sort_keys=True))
        if confirm(fct, k["case"], workdir):
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    budget = a.budget or (330.0 if tier == "quick" else 2400.0)
    deadline = t0 + budget
    shrink_s = 20.0 if tier == "quick" else 120.0
    tasks = []
    for f in facets:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * a.scale))
        k = max(1, min(f.shards, NPROC, n))
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            seed = zlib.crc32(("%d|%s|%s|%d" % (a.seed, pid, f.name, s)).encode())
            tasks.append((f, s, seed, m))
    # interleave so that all facets start early
    tasks.sort(key=lambda t: t[1])
    running, results, crashes, errors = {}, [], [], []
    ntask = len(tasks)
    failed_seen = False
    i = 0
    while i < ntask or running:
        while i < ntask and len(running) < NPROC and not failed_seen:
            f, s, seed, m = tasks[i]; i += 1
            d = tempfile.mkdtemp(dir=workdir)
            out, st = os.path.join(workdir, "out.%d" % i), os.path.join(workdir, "st.%d" % i)
            p = spawn(lambda: run_shard(f, seed, m, deadline, shrink_s, st, d, out, excluded.get(f.name, set())))
            running[p] = (f, seed, m, out, st, d, time.time())
        if failed_seen and not running: break
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.02)
            hard = (deadline + shrink_s + 150)
            if failed_seen and time.time() - failed_seen > shrink_s + 10 or time.time() > hard:
                for q in running:
                    try: os.kill(q, signal.SIGKILL)
                    except OSError: pass
            continue
        if p not in running: continue
        f, seed, m, out, st, d, ts = running.pop(p)
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out):
            with open(out, "rb") as fh: r = pickle.load(fh)
            results.append(r)
            if r["error"]: errors.append((f.name, r["error"]))
            if r["fail"] and not failed_seen: failed_seen = time.time()
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                                                signal.SIGBUS, signal.SIGILL):
            with open(st) as fh: case = json.loads(fh.read())
            crashes.append((f, case, os.WTERMSIG(status), seed, m))
            if not failed_seen: failed_seen = time.time()
        elif failed_seen or time.time() > deadline:
            pass
        else:
            errors.append((f.name, "worker ended with status %d" % status))

    # confirm and report
    violations = []
    os.makedirs(EVID, exist_ok=True)
    cand = [(byname[r["facet"]], r["fail"]) for r in results if r["fail"]]
    cand += [(f, {"case": c, "fail": {"type": "Crash", "msg": "signal %d" % sg, "where": []}, "seed": sd, "n": m})
             for f, c, sg, sd, m in crashes]
    cand.sort(key=lambda t: len(json.dumps(t[1]["case"])))
    done = set()
    for f, fl in cand:
        if f.name in done: continue
        again = confirm(f, fl["case"], workdir)
        rp = {"property": pid, "facet": f.name, "case": fl["case"], "failure": again or fl["fail"], "tier": tier,
              "verif_seed": a.seed}
        if again is None:
            # depends on the earlier cases of its run: the replay is that whole (deterministic) run
            others = [x for x in cand if x[0] is f and x[1] is not fl and (f.name, id(x[1])) not in done]
            if any(confirm(f, x[1]["case"], workdir) for x in others): continue
            rp["history"] = {"seed": fl["seed"], "n": fl["n"]}
        done.add(f.name)
        path = os.path.join(EVID, "replay-%s-%s.json" % (pid, f.name))
        with open(path, "w") as fh: json.dump(rp, fh, indent=1)
        violations.append((f.name, path, rp["failure"], bool(rp.get("history"))))

    # evidence
    fac = {}
    samples = []
    for f in facets:
        rs = [r for r in results if r["facet"] == f.name]
        nts = set().union(*[r["nt"] for r in rs]) if rs else set()
        cl = {}
        for r in rs:
            for c, v in r["classes"].items(): cl[c] = cl.get(c, 0) + v
        fac[f.name] = {"evaluations": sum(r["evals"] for r in rs), "distinct_nontrivial": len(nts),
                       "skipped": sum(r["skipped"] for r in rs), "excluded_known": sum(r["excluded"] for r in rs),
                       "nontrivial_rule": f.rule, "classes": dict(sorted(cl.items(), key=lambda t: -t[1])[:40]),
                       "cpu_s": round(sum(r["wall"] for r in rs), 2),
                       "slowest_case_s": round(max([r["maxcase"] for r in rs] or [0]), 2),
                       "inconclusive": [r["stopped"] for r in rs if r["stopped"]]}
        for r in rs[:1]:
            for s in r["samples"][:2]: samples.append({"facet": f.name, "case": s[:1500]})
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": sum(v["evaluations"] for v in fac.values()),
                       "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in fac.values()),
                       "rule": "each facet draws cases from its own Hypothesis strategy and runs the real code against "
                               "an independent oracle; non-trivial per facet: " +
                               "; ".join("%s: %s" % (f.name, f.rule or "case accepted") for f in facets),
                       "samples": samples or ["(none)"], "facets": fac},
          "wall_s": round(time.time() - t0, 2), "violations": len(violations), "known_findings": nknown}
    if not a.noevidence:
        with open(os.path.join(EVID, pid + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    for f in facets:
        v = fac[f.name]
        print("%-34s evals=%-6d nontrivial=%-6d skip=%-5d cpu=%.1fs max=%.2fs%s" %
              (f.name, v["evaluations"], v["distinct_nontrivial"], v["skipped"], v["cpu_s"], v["slowest_case_s"],
               " INCONCLUSIVE(%d) %s" % (len(v["inconclusive"]), v["inconclusive"][0]) if v["inconclusive"] else ""))
        if a.v:
            for c, k in v["classes"].items(): print("        %-40s %d" % (c, k))
    print("wall %.1fs" % (time.time() - t0))
    for nm, path, fl, hist in violations:
        print("--- %s%s: %s: %s" % (nm, " (whole run)" if hist else "", fl["type"], fl["msg"]))
        for w in fl["where"]: print("      " + w)
        with open(path) as fh: print("      case: " + json.dumps(json.load(fh)["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations: return 1
    if errors:
        for nm, e in errors[:3]: print("HARNESS-ERROR %s: %s" % (nm, e))
        return 2
    return 0
