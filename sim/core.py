"""Common driver of all simulation checks: seeds, processes, minimisation, replay, evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import shim

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
NWORK = int(os.environ.get("VSIM_WORKERS", "8"))
CPU_LIMIT = 60      # seconds of CPU a single scenario may burn (they take milliseconds)
WALL_LIMIT = 240    # a deadlocked scenario is ended after that and reported, never passed


class Violation(BaseException):
    """Raised by ctx.fail; BaseException so that code under test cannot swallow it."""


class Ctx:
    """What a scenario run reports to: one per scenario, lives in the forked child."""

    def __init__(self, workdir, replaying=False):
        self.dir = workdir                 # scratch directory of this scenario, with trailing slash
        self.violations = []
        self.stats = Counter()
        self.cover = set()
        self.nontrivial = False
        self.replaying = replaying
        self.simtime_ns = 0
        self._h = hashlib.sha256()
        self._trace = []

    def log(self, *a):
        """Event log: hashed (to prove determinism), kept for the replay output."""
        s = " ".join(str(x) for x in a).replace(self.dir, "<disk>/")
        self._h.update(s.encode("utf-8", "replace") + b"\n")
        if len(self._trace) < 400:
            self._trace.append(s[:400])

    def fail(self, cls, detail, key=None, stop=True):
        self.violations.append({"class": cls, "key": key or cls, "detail": str(detail)[:1500].replace(self.dir, "<disk>/")})
        self.log("VIOLATION", cls)
        if stop:
            raise Violation(cls)

    def result(self):
        return {"violations": self.violations, "stats": dict(self.stats), "cover": sorted(self.cover),
                "nontrivial": self.nontrivial, "hash": self._h.hexdigest()[:24], "simtime_ns": self.simtime_ns,
                "trace": self._trace if (self.violations or self.replaying) else []}


# --------------------------------------------------------------------------- helpers for scenarios
def fork_call(fn, timeout=WALL_LIMIT):
    """Run fn() in a forked process; returns (exit status, bytes written by fn to the given fd).

    fn receives the write end of a pipe.  A signal death is reported as 128+signal."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            code = fn(w)
            code = 0 if code is None else code
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
            code = 70
        finally:
            os._exit(code & 0xff)
    os.close(w)
    out = b""
    t_end = time.monotonic() + timeout
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
            return 128 + 14, out
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            out += b
    os.close(r)
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() > t_end:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            return 128 + 14, out
        time.sleep(0.0005)
    if os.WIFSIGNALED(st):
        return 128 + os.WTERMSIG(st), out
    return os.WEXITSTATUS(st), out


def jhash(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def child_quiet():
    """Point stdout/stderr of a simulated process at /dev/null."""
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1); os.dup2(fd, 2)
    os.close(fd)


def unexpected(e):
    """An exception that nothing provoked and that reached the harness: what it says about the code under test, or None.

    The real code raised where an answer is due, or its answer had a form (missing key, wrong type or shape) the oracle cannot
    even read.  Trouble of the sandbox (no memory, no space, no descriptors) and failed self-checks of the harness say nothing."""
    if isinstance(e, (MemoryError, AssertionError)) or not isinstance(e, Exception):
        return None
    if isinstance(e, OSError) and e.errno in (11, 12, 23, 24, 28):
        return None
    tb = traceback.extract_tb(e.__traceback__)
    here = [f for f in tb if "/meshmagick/" in f.filename]
    if here:
        return "%s: %s was raised at %s:%d by a call that must give an answer" % (type(e).__name__, e, os.path.basename(here[-1].filename), here[-1].lineno)
    if isinstance(e, (KeyError, TypeError, AttributeError, IndexError, ValueError)):
        return "an answer has a form that cannot be judged: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    return None


# --------------------------------------------------------------------------- one scenario
def run_scenario(mod, sc, root, replaying=False):
    """Execute one scenario in a forked child with its own scratch directory."""
    wd = tempfile.mkdtemp(prefix="s", dir=root) + "/"

    def body(w):
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
        try:
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        except (ValueError, OSError):
            pass
        os.chdir(wd)
        if not os.environ.get("VSIM_VERBOSE"):
            child_quiet()
        ctx = Ctx(wd, replaying)
        err = None
        try:
            mod.run(sc, ctx)
        except Violation:
            pass
        except BaseException as e:
            sys.settrace(None)
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            told = unexpected(e)
            if told:
                ctx.violations.append({"class": "unexpected-exception", "key": "unexpected-exception:" + type(e).__name__, "detail": (told + "\n" + text).replace(wd, "<disk>/")})
            else:                    # an error of the harness or of the sandbox, never a verdict
                err = text
        try:
            shim.end()
        except Exception:
            pass
        sys.settrace(None)
        res = ctx.result()
        if err:
            res["error"] = err
        data = json.dumps(res).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
        return 0

    status, out = fork_call(body)
    try:
        shutil.rmtree(wd)
    except OSError:
        pass
    if status == 0:
        try:
            return json.loads(out)
        except ValueError:
            return {"error": "no result from scenario", "violations": [], "stats": {}, "cover": [], "hash": "", "trace": [], "nontrivial": False, "simtime_ns": 0}
    base = {"violations": [], "stats": {}, "cover": [], "hash": "status%d" % status, "trace": [], "nontrivial": True, "simtime_ns": 0}
    if status in (128 + signal.SIGXCPU, 128 + 14, 128 + signal.SIGKILL):
        base["violations"] = [{"class": "does-not-terminate", "key": "does-not-terminate",
                               "detail": "the scenario did not finish (status %d)" % status}]
    elif status == 78:   # the shim ended the process: more file operations than any sound run needs
        base["violations"] = [{"class": "does-not-terminate", "key": "does-not-terminate",
                               "detail": "the system-call budget was exhausted"}]
    elif status in (128 + signal.SIGSEGV, 128 + signal.SIGABRT, 128 + signal.SIGBUS, 128 + signal.SIGFPE):
        base["violations"] = [{"class": "process-died", "key": "process-died",
                               "detail": "the process died with signal %d" % (status - 128)}]
    else:
        base["error"] = "scenario child exited with status %d" % status
    return base


# --------------------------------------------------------------------------- pool
def run_pool(mod, jobs, root, deadline, stop_after=None):
    """jobs: list of (index, scenario).  Yields (index, scenario, result) from NWORK forked workers."""
    nw = max(1, min(NWORK, len(jobs)))
    procs = []
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for p in procs:
                os.close(p[1])
            os.close(r)
            code = 0
            try:
                for idx, sc in jobs[k::nw]:
                    if time.monotonic() > deadline:
                        break
                    if callable(sc):
                        sc = sc()
                    res = run_scenario(mod, sc, root)
                    line = (json.dumps([idx, sc, res]) + "\n").encode()
                    while line:
                        n = os.write(w, line)
                        line = line[n:]
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        procs.append([pid, r, b""])
    live = {p[1]: p for p in procs}
    stopped = False
    bad_exit = []
    try:
        while live:
            rd, _, _ = select.select(list(live), [], [])
            for fd in rd:
                p = live[fd]
                b = os.read(fd, 1 << 20)
                if not b:
                    del live[fd]
                    os.close(fd)
                    _, st = os.waitpid(p[0], 0)
                    if st and not stopped:
                        bad_exit.append(st)
                    continue
                p[2] += b
                *lines, p[2] = p[2].split(b"\n")
                for l in lines:
                    idx, sc, res = json.loads(l)
                    yield idx, sc, res
            if stop_after is not None and not stopped and stop_after():
                stopped = True
                for p in live.values():
                    os.kill(p[0], signal.SIGKILL)
    finally:
        for p in live.values():
            try:
                os.kill(p[0], signal.SIGKILL)
                os.waitpid(p[0], 0)
            except OSError:
                pass
    if bad_exit:
        raise RuntimeError("worker processes failed: %s" % bad_exit)


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    """[(key, text)] of findings recorded (not repaired) for this property."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                parts = l.split(None, 3)
                if len(parts) >= 4 and parts[1] == "property=" + pid and parts[2].startswith("key="):
                    out.append((parts[2][4:], parts[3]))
    return out


# --------------------------------------------------------------------------- minimiser
def minimise(mod, sc, cls, root, budget_s=40, max_tries=400):
    """Greedy shrinking: accept any smaller scenario that still shows the same violation class."""
    t_end = time.monotonic() + budget_s
    tries = 0
    best, best_res = sc, None
    progress = True
    while progress and time.monotonic() < t_end and tries < max_tries:
        progress = False
        for cand in mod.shrink(best):
            if time.monotonic() > t_end or tries >= max_tries:
                break
            tries += 1
            res = run_scenario(mod, cand, root)
            if not res.get("error") and any(v["class"] == cls for v in res["violations"]):
                best, best_res = cand, res
                progress = True
                break
    return best, best_res, tries


# --------------------------------------------------------------------------- main
def load_check(pid):
    return importlib.import_module("sim.checks." + pid.lower())


def bootstrap():
    """Re-exec this interpreter with the shim preloaded and a pinned environment."""
    if os.environ.get("VSIM_BOOT") == "1":
        return
    so = shim.build()
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "TMPDIR") or k.startswith("VSIM_")}
    env.update(VSIM_BOOT="1", LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8", TZ="UTC", HDF5_USE_FILE_LOCKING="TRUE",
               PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"), VTK_SMP_MAX_THREADS="1")
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, "-B", "-m", "sim"] + sys.argv[1:], dict(env, PYTHONPATH=VERIF + os.pathsep + REPO))


def main(argv=None):
    ap = argparse.ArgumentParser(prog="check")
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--one", type=int, help="run only scenario number ONE and print it")
    ap.add_argument("--hashes", type=int, help="print the event-log hashes of the first N scenarios (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    t0 = time.monotonic()
    root = tempfile.mkdtemp(prefix="vsim-")
    owner = os.getpid()
    try:
        mod = load_check(pid)
        if hasattr(mod, "warm"):
            mod.warm()
        gc.collect()
        gc.freeze()      # forked scenarios then share the imported modules without copying pages
        if a.replay:
            return replay(mod, pid, a.replay, root)
        if a.one is not None:
            sc = make(mod, pid, a.seed, a.tier, a.one)
            print(json.dumps(sc)[:3000])
            print(json.dumps(run_scenario(mod, sc, root, True), indent=1))
            return 0
        if a.hashes:
            jobs = [(i, make(mod, pid, a.seed, a.tier, i)) for i in range(a.hashes)]
            out = {}
            for i, sc, res in run_pool(mod, jobs, root, time.monotonic() + 3000):
                out[i] = (jhash(sc), res["hash"])
            for i in sorted(out):
                print("HASH", i, *out[i])
            return 0
        return explore(mod, pid, a, root, t0)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(root, ignore_errors=True)


def make(mod, pid, seed, tier, i):
    rng = random.Random("%d:%s:%d" % (seed, pid, i))
    return mod.gen(rng, i, tier)


def replay(mod, pid, path, root):
    rec = json.load(open(path))
    res = run_scenario(mod, rec["scenario"], root, True)
    for l in res["trace"]:
        print("  ", l)
    if res.get("error"):
        print("HARNESS-ERROR", res["error"])
        return 2
    if res["violations"]:
        v = res["violations"][0]
        print("class:", v["class"])
        print("detail:", v["detail"])
        print("event-hash:", res["hash"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation")
    return 0


def explore(mod, pid, a, root, t0):
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    n = a.n or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    budget = 200 if tier == "quick" else 3600
    deadline = t0 + budget
    print("seed=%d property=%s tier=%s scenarios=%d" % (a.seed, pid, tier, n))
    known = dict(known_findings(pid))
    stats, covers = Counter(), set()
    nontrivial_keys = set()
    evals = 0
    errors = []
    bad = []          # (idx, scenario, violation)
    known_hits = Counter()
    samples = []
    hashes = {}
    simtime = 0
    distinct_runs = set()

    jobs = [(i, (lambda i=i: make(mod, pid, a.seed, tier, i))) for i in range(n)]
    # determinism probe: the first scenarios are executed a second time, by other workers
    nrep = min(n, 16 if tier == "quick" else 200)
    jobs += [(-1 - i, (lambda i=i: make(mod, pid, a.seed, tier, i))) for i in reversed(range(nrep))]
    fixed = getattr(mod, "fixed_scenarios", lambda tier: [])(tier)
    jobs = [("f%d" % i, s) for i, s in enumerate(fixed)] + jobs

    def stop():
        return len(bad) >= 3 or len(errors) > 20
    for idx, sc, res in run_pool(mod, jobs, root, deadline, stop):
        if isinstance(idx, int) and idx < 0:
            hashes.setdefault(-1 - idx, set()).add(res["hash"])
            stats["determinism_reruns"] += 1
            continue
        if isinstance(idx, int) and idx < nrep:
            hashes.setdefault(idx, set()).add(res["hash"])
        evals += 1
        stats.update(res["stats"])
        covers.update(res["cover"])
        simtime += res.get("simtime_ns", 0)
        distinct_runs.add(res["hash"])
        if res["nontrivial"]:
            nontrivial_keys.add(jhash(sc))
            if len(samples) < 2 and not res["violations"]:
                samples.append({"index": idx, "scenario": clip(sc), "stats": res["stats"]})
        if res.get("error"):
            errors.append((idx, res["error"]))
        for v in res["violations"]:
            if v["key"] in known:
                known_hits[v["key"]] += 1
            else:
                bad.append((idx, sc, v))
    t_explore = time.monotonic() - t0
    nondet = sorted(i for i, h in hashes.items() if len(h) > 1)

    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, text, known_hits[key]))

    exit_code = 0
    reported = set()
    replays = []
    if bad:
        exit_code = 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for idx, sc, v in bad:
            if v["class"] in reported or len(reported) >= 2:
                continue
            reported.add(v["class"])
            small, sres, tries = minimise(mod, sc, v["class"], root, 40 if tier == "quick" else 180)
            vv = next((x for x in (sres["violations"] if sres else [v]) if x["class"] == v["class"]), v)
            path = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (pid, len(replays), jhash(small)[:8]))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": a.seed, "tier": tier, "index": idx, "class": v["class"],
                           "detail": vv["detail"], "scenario": small, "original_scenario": sc, "shrink_tries": tries,
                           "trace": (sres or {}).get("trace", [])}, f, indent=1)
            # confirm in a fresh process
            ok = confirm(pid, path)
            replays.append(path)
            print("scenario %s: class=%s" % (idx, v["class"]))
            print("detail:", vv["detail"][:800])
            if not ok:
                print("note: the minimised replay did not fail again in a fresh process (code under test depends on state outside the simulation)")
            print("VIOLATION property=%s replay=%s" % (pid, path))
    elif errors:
        exit_code = 2
        for i, e in errors[:3]:
            print("HARNESS-ERROR scenario %s:\n%s" % (i, e))
    if nondet:
        print("NONDETERMINISTIC scenarios: %s" % nondet[:10])
        stats["nondeterministic_reruns"] += len(nondet)

    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe:")}
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": mod.LEVEL,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontrivial_keys), "rule": mod.RULE,
                       "samples": samples,
                       "runs_per_hour": int(evals / max(t_explore, 1e-9) * 3600),
                       "simulated_time_s": simtime / 1e9,
                       "faults_fired": faults, "probes": probes,
                       "distinct_histories": len(distinct_runs),
                       "distinct_measure": "distinct hashes of the complete event log (operations, results, faults, schedule)",
                       "coverage_points": len(covers), "coverage_point_list": sorted(covers)[:120],
                       "components_real": mod.REAL, "components_stub": mod.STUB,
                       "determinism_reruns": stats.get("determinism_reruns", 0), "determinism_mismatches": len(nondet),
                       "requested": n, "complete": evals >= n + len(fixed) or bool(bad),
                       "other_counts": {k: v for k, v in stats.items() if not k.startswith(("fault:", "probe:"))}},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.monotonic() - t0, 2), "violations": len(bad)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    print("runs=%d nontrivial=%d violations=%d errors=%d faults=%s probes=%s points=%d wall=%.1fs" % (
        evals, len(nontrivial_keys), len(bad), len(errors), json.dumps(faults), json.dumps(probes), len(covers), time.monotonic() - t0))
    if exit_code == 0 and evals < n // 4:
        print("HARNESS-ERROR: too few scenarios completed (%d of %d)" % (evals, n))
        exit_code = 2
    return exit_code


def clip(o, depth=0):
    if isinstance(o, dict):
        return {k: clip(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        return [clip(v, depth + 1) for v in o[:8]] + (["... %d in all" % len(o)] if len(o) > 8 else [])
    if isinstance(o, str) and len(o) > 300:
        return o[:300] + "..."
    return o


def confirm(pid, path):
    import subprocess
    env = {k: v for k, v in os.environ.items() if k not in ("VSIM_BOOT", "LD_PRELOAD")}
    p = subprocess.run([sys.executable, "-B", "-m", "sim", pid, "--replay", path], env=env, cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 1
