"""Staging of the code under test, job scheduling, violations, evidence and known findings.

The launcher copies the sources of the working tree to a scratch folder, compiles the extension
there and starts the check in a child process that imports bayesbay from the copy, so that
neither the repository nor anything else outside the scratch folder is written to.
"""
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BB_REPO", "/repo")
PY = "/opt/venv/bin/python"
JOB_TIMEOUT = {"quick": 420, "thorough": 5400}
CHECK_TIMEOUT = {"quick": 780, "thorough": 6 * 3600}
AFTER_VIOLATION = 60
MAX_REPORTED = 5


class HarnessError(Exception):
    """something the check itself cannot deal with: exit 2, never a violation"""


# ---------------------------------------------------------------- staging
def _source_key(root):
    h = hashlib.sha256()
    files = []
    for d, _, fs in os.walk(os.path.join(root, "src")):
        files += [os.path.join(d, f) for f in fs if f.endswith((".pyx", ".pxd"))]
    for f in sorted(files) + [os.path.join(root, "setup.py")]:
        h.update(os.path.relpath(f, root).encode())
        h.update(open(f, "rb").read())
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith(("model name", "flags")):
                h.update(line.encode())
            if line.startswith("flags"):
                break
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def stage(scratch):
    """copy the sources of the working tree and build the extension; returns the import folder"""
    dst = os.path.join(scratch, "tree")
    os.makedirs(dst)
    shutil.copytree(
        os.path.join(REPO, "src"), os.path.join(dst, "src"),
        ignore=shutil.ignore_patterns("*.so", "*.cpp", "*.c", "__pycache__", "*.egg-info"),
    )
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not f.startswith("."):
            shutil.copy(p, dst)
    key = _source_key(dst)
    cache = os.path.join(VERIF, ".build", key)
    pkg = os.path.join(dst, "src", "bayesbay")
    if os.path.isdir(cache):
        for f in os.listdir(cache):
            shutil.copy(os.path.join(cache, f), pkg)
        return os.path.join(dst, "src")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sos = [f for f in os.listdir(pkg) if f.endswith(".so")]
    if r.returncode or not sos:
        raise HarnessError("the extension does not build:\n" + r.stdout[-3000:])
    try:
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, ".build"))
        for f in sos:
            shutil.copy(os.path.join(pkg, f), tmp)
        os.rename(tmp, cache)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(dst, "src")


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    scratch = tempfile.mkdtemp(prefix="bbcheck-")
    try:
        src = stage(scratch)
        if argv[0] == "setup":
            return 0
        tier = argv[1] if len(argv) > 1 else "quick"
        work = os.path.join(scratch, "work")
        os.makedirs(os.path.join(work, "mpl"))
        env = dict(
            os.environ, PYTHONPATH=src + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
            MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"), BB_SRC=src, TMPDIR=work,
            JOBLIB_TEMP_FOLDER=work, HOME=work, PYTHONWARNINGS="ignore",
        )
        cmd = [PY, "-c", "from mc import core; core.child()", argv[0], tier] + argv[2:]
        p = subprocess.Popen(cmd, cwd=work, env=env, start_new_session=True)
        def stop(signum, frame):
            raise KeyboardInterrupt
        signal.signal(signal.SIGTERM, stop)
        try:
            return p.wait()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    except HarnessError as e:
        print("ERROR", e)
        return 2
    except KeyboardInterrupt:
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- jobs
class Job:
    """what one job of a check explored and found"""

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        self.states = self.transitions = self.traces = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.extra = {}
        self.error = None

    @property
    def quick(self):
        return self.tier == "quick"

    def violation(self, what, **data):
        if len(self.violations) < MAX_REPORTED:
            self.violations.append(dict(job=self.name, what=what, data=_jsonable(data)))
        if len(self.violations) >= MAX_REPORTED:
            raise StopJob()

    def require(self, cond, what, **data):
        if not cond:
            self.violation(what, **data)
        return cond

    def known_finding(self, what):
        if what not in self.known:
            self.known.append(what)

    def sample(self, **s):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(s))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


class StopJob(Exception):
    pass


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if x == x and abs(x) != float("inf") else repr(float(x))
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:400]


class _Timeout(BaseException):
    pass


RUN_TIMEOUT = 150       # one single execution of the code under test


def _alarm(signum, frame):
    """ticks: has the present execution, or the whole job, been going on for too long?"""
    from mc import rng
    now = time.time()
    if rng.Ctl.active and now - rng.Ctl.started > RUN_TIMEOUT:
        raise _Timeout("the code under test did not come to an end")
    if now - _alarm.t0 > _alarm.limit:
        if rng.Ctl.started < _alarm.t0 or now - rng.Ctl.started > RUN_TIMEOUT:
            raise _Timeout("the code under test did not come to an end")
        raise _Timeout(None)


def _cover():
    """MC_COV=folder: notes the lines of the library that the checks execute (a development aid)"""
    mon, src = sys.monitoring, os.environ["BB_SRC"]
    mon.use_tool_id(3, "mc")
    hit = set()

    def line(code, n):
        if code.co_filename.startswith(src):
            hit.add((os.path.relpath(code.co_filename, src), n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return hit


def _run_job(arg):
    if "MC_COV" not in os.environ:
        return _run_job_(arg)
    if not hasattr(_cover, "hit"):
        _cover.hit = _cover()
    hit = _cover.hit
    try:
        return _run_job_(arg)
    finally:
        with open(os.path.join(os.environ["MC_COV"], f"{arg[0]}-{arg[3]}-{os.getpid()}"), "w") as f:
            json.dump(sorted(hit), f)


def _run_job_(arg):
    modname, fname, args, name, tier, seed = arg
    from mc import rng
    rng.install()
    import random
    import numpy as np
    random.seed(seed)
    np.random.seed(seed)
    mod = importlib.import_module(modname)
    job = Job(name, tier, seed)
    t0 = time.time()
    _alarm.t0, _alarm.limit = t0, JOB_TIMEOUT[tier]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 10, 10)
    try:
        getattr(mod, fname)(job, *args)
    except StopJob:
        pass
    except _Timeout as e:
        if e.args[0]:
            job.violations.append(dict(job=name, what=e.args[0], data=dict(trace=traceback.format_exc()[-1500:])))
        else:
            job.error = "out of time: the exploration is larger than expected"
    except (HarnessError, MemoryError, rng.Unsupported, KeyboardInterrupt) as e:
        job.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    except rng.Truncated:
        job.violations.append(dict(job=name, what="endless redrawing", data={}))
    except BaseException as e:
        if _from_bayesbay(e):
            job.violations.append(dict(
                job=name, what=f"{type(e).__name__} raised for a valid input: {e}",
                data=dict(trace=traceback.format_exc()[-2500:])))
        else:
            job.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        rng.Ctl.active = False
        _end_workers()
    job.wall = time.time() - t0
    return job


def _end_workers():
    """idle worker processes of joblib would stay for minutes"""
    m = sys.modules.get("joblib.externals.loky.reusable_executor")
    if m is not None and m._executor is not None:
        m._executor.shutdown(wait=True, kill_workers=True)


def _from_bayesbay(e):
    """does the traceback of e, or of one of its causes, pass through the code under test?"""
    src = os.environ["BB_SRC"]
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if f.startswith(src) or "bayesbay" in f:
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


# ---------------------------------------------------------------- the child process
def known_findings():
    """{property: [what]} of the findings that are recorded and not repaired"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property="):
                pid, what = line[len("finding: property="):].strip().split(" ", 1)
                out.setdefault(pid, []).append(what)
    return out


def child():
    pid, tier = sys.argv[1], sys.argv[2]
    only = None
    if tier == "replay":
        rec = json.load(open(os.path.join(VERIF, sys.argv[3]) if not os.path.isabs(sys.argv[3]) else sys.argv[3]))
        only, tier = rec["job"], rec["tier"]
    elif len(sys.argv) > 3:
        only = sys.argv[3]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    code = _check(pid, tier, seed, only, t0)
    sys.stdout.flush()
    os._exit(code)


def _check(pid, tier, seed, only, t0):
    try:
        from mc import rng
        rng.install()
        import bayesbay
        assert bayesbay.__file__.startswith(os.environ["BB_SRC"]), bayesbay.__file__
        modname = f"mc.checks.{pid.lower()}"
        mod = importlib.import_module(modname)
        jobs = mod.jobs(tier)
    except Exception as e:
        traceback.print_exc()
        # a package that can no longer be imported or configured
        return 2
    args = []
    for j in jobs:
        name, fname, a = j[0], j[1], j[2:]
        if only is None or name == only:
            args.append((modname, fname, a, name, tier, seed))
    if not args:
        print(f"ERROR no such job {only}")
        return 2
    nproc = getattr(mod, "NPROC", 8)
    results = []
    if nproc == 1 or len(args) == 1:
        for a in args:
            results.append(_run_job(a))
    else:
        ctx = multiprocessing.get_context("fork")
        # (its workers may have children of their own)
        pool = concurrent.futures.ProcessPoolExecutor(min(nproc, len(args)), mp_context=ctx)
        results, left = _collect(pool, [pool.submit(_run_job, a) for a in args], t0 + CHECK_TIMEOUT[tier])
        if any(r.violations for r in results) or time.time() > t0 + CHECK_TIMEOUT[tier]:
            dead = []
        else:
            dead = [a for a in args if a[3] not in {r.name for r in results}]
        for a in dead:                          # which of the jobs was it?
            alone = concurrent.futures.ProcessPoolExecutor(1, mp_context=ctx)
            got, _ = _collect(alone, [alone.submit(_run_job, a)], t0 + CHECK_TIMEOUT[tier])
            if got:
                results += got
            elif time.time() < t0 + CHECK_TIMEOUT[tier]:
                r = Job(a[3], tier, seed)
                r.wall = 0.0
                r.violations.append(dict(job=a[3], what="the process of the job died", data={}))
                results.append(r)
        names = {r.name for r in results}
        for a in args:
            if a[3] not in names:
                r = Job(a[3], tier, seed)
                r.error, r.wall = "not finished (" + ("a violation was found" if not left else "out of time") + ")", 0.0
                results.append(r)
        order = {a[3]: i for i, a in enumerate(args)}
        results.sort(key=lambda r: order[r.name])
    return _report(pid, tier, seed, mod, results, t0, only)


def _collect(pool, futures, deadline):
    """results of the jobs; once there is a violation the others get little more time"""
    results, pending, found = [], set(futures), False
    while pending and time.time() < deadline:
        done, pending = concurrent.futures.wait(pending, timeout=max(0.1, deadline - time.time()),
                                                return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
            if f.exception() is not None:       # the process died
                continue
            r = f.result()
            results.append(r)
            if r.violations and not found:
                found = True
                deadline = min(deadline, time.time() + AFTER_VIOLATION)
    if not pending:
        pool.shutdown()
    else:
        for p in list(pool._processes.values()):
            p.kill()
    return results, not found


def _report(pid, tier, seed, mod, results, t0, only):
    errors = [r for r in results if r.error]
    viols = [v for r in results for v in r.violations]
    known = [k for r in results for k in r.known]
    listed = known_findings().get(pid, [])
    for k in dict.fromkeys(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {k}")
        else:
            viols.append(dict(job=[r.name for r in results if k in r.known][0], what=k, data={}))
    level = getattr(mod, "LEVEL", "model_checking")
    states = sum(r.states for r in results)
    transitions = sum(r.transitions for r in results)
    traces = sum(r.traces for r in results)
    samples = [dict(job=r.name, **s) for r in results for s in r.samples][:6]
    if not samples:
        samples = [dict(job=r.name, states=r.states) for r in results[:2]]
    extra = {}
    for r in results:
        for k, v in r.extra.items():
            extra[k] = extra.get(k, 0) + v
    if level == "model_checking":
        cov = dict(states=states, transitions=transitions, traces_validated_against_impl=traces, samples=samples)
    else:
        cov = dict(evaluations=transitions, distinct_nontrivial=states, rule=mod.RULE, samples=samples)
    cov["jobs"] = {r.name: dict(states=r.states, transitions=r.transitions, traces=r.traces,
                                wall_s=round(r.wall, 2)) for r in results}
    cov["bounds"] = getattr(mod, "BOUNDS", "")
    cov["exhaustive"] = not errors and not viols
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, allow_nan=False, default=str)
    for i, v in enumerate(viols[:MAX_REPORTED]):
        path = f"evidence/replay/{pid}-{i}.json"
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, replay_cmd=f"./check {pid} replay {path}", **v),
                      f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   [{v['job']}] {v['what']}")
        d = json.dumps(v["data"])
        print("   " + (d if len(d) < 1500 else d[:1500] + " ..."))
    for r in errors[:3]:
        print(f"ERROR in job {r.name}: {r.error}")
    print(f"{pid} {tier}: {len(results)} jobs, states={states} transitions={transitions} traces={traces} "
          f"violations={len(viols)} errors={len(errors)} {time.time() - t0:.1f}s")
    if viols:
        return 1
    return 2 if errors else 0
