"""Batch engine: seeds -> plans -> forked runs -> evidence / replay files.

A *plan* is a JSON value generated from one integer (property, VERIF_SEED,
index) and is the complete description of a run.  Each run happens in a child
forked from a pristine interpreter, so a run is a function of (plan, hash seed,
code under test) and of nothing else.
"""
import ctypes
import argparse  # noqa: F401 (preloaded for the simulated processes)
import gc
import hashlib
import importlib
import json
import locale  # noqa: F401
import shutil  # noqa: F401
import os
import pickle  # noqa: F401
import random
import resource
import select
import signal
import sys
import time
import traceback

from . import clock, locks, mon

LIBC = ctypes.CDLL(None, use_errno=True)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C%02d" % i for i in range(1, 19)] + ["C24", "C25"]
HASHSEEDS = (0, 1, 2, 3)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    """The run hit a budget that is not part of the property."""


class Ctx(object):
    """What a run records."""

    def __init__(self):
        self.counts = {}
        self.h = hashlib.sha256()
        self.cov = set()
        self.nontrivial = False
        self.extra = {}
        self.keep = None       # list to keep the raw log (replay mode)

    def log(self, *a):
        s = repr(a)
        self.h.update(s.encode("utf-8", "backslashreplace"))
        if self.keep is not None:
            self.keep.append(s)

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def cover(self, *a):
        self.cov.add(hashlib.md5(repr(a).encode()).hexdigest()[:12])


def die_with_parent():
    """No process of a check outlives it (PR_SET_PDEATHSIG)."""
    try:
        LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
    except (AttributeError, OSError):
        pass


def prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def plan_rng(pid, seed, i):
    return random.Random("%s/%s/%d" % (pid, seed, i))


def through_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(mon.PKG):
            return True
        tb = tb.tb_next
    return False


def run_plan(mod, plan, keep=False):
    """Execute a plan in this process (call in a forked child)."""
    ctx = Ctx()
    if keep:
        ctx.keep = []
    K = mon.K
    K.reset()
    res = {"status": "ok"}
    clock.use(plan.get("clock"))
    try:
        random.seed(12345)
        mod.execute(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "key": v.key, "msg": v.msg}
    except Inconclusive as e:
        res = {"status": "inconclusive", "key": str(e)}
    except BaseException as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if through_repo(e.__traceback__) and not isinstance(e, mon.StepLimit):
            res = {"status": "violation", "key": "crash:" + type(e).__name__,
                   "msg": "unexpected exception out of the package: " + tb[-1500:]}
        else:
            res = {"status": "error", "key": type(e).__name__, "msg": tb[-3000:]}
    finally:
        K.stop()
    if plan.get("clock"):
        ctx.count("fault:clock rate %g s/line" % (plan["clock"]["rate"] / 1e9))
        if plan["clock"]["jumps"]:
            ctx.count("fault:clock jump")
        ctx.count("clock reads by the package", clock.reads[0])
    ctx.log("status", res["status"], res.get("key"))
    ctx.log("steps", K.steps, K.switches, K.trace)
    res.update(counts=ctx.counts, cov=sorted(ctx.cov), steps=K.steps,
               switches=K.switches, digest=ctx.h.hexdigest()[:16],
               nontrivial=bool(ctx.nontrivial))
    if keep:
        res["log"] = ctx.keep
    return res


def fork_run(mod, plan, keep=False, wall=None):
    if wall is None:
        wall = getattr(mod, "WALL", 100)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (wall + 20, wall + 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            res = run_plan(mod, plan, keep)
            data = json.dumps(res).encode()
            while data:
                k = os.write(w, data)
                data = data[k:]
        except BrokenPipeError:
            os._exit(9)
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
            os._exit(9)
        os._exit(0)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return dict(status="error", key="wall-timeout", counts={}, cov=[],
                    msg="run exceeded %ds of real time" % wall, steps=0,
                    switches=0, digest="timeout", nontrivial=False)
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return dict(status="error", key="child-died", counts={}, cov=[],
                    msg="child ended with wait status %d" % st, steps=0,
                    switches=0, digest="died", nontrivial=False)


def isolated(fn, wall=60):
    """fn() evaluated in a forked child (no effect on this process)."""
    import pickle
    r, w = os.pipe()
    state = random.getstate()      # module random reseeds itself after fork
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        try:
            os.close(r)
            random.setstate(state)
            mon.K.stop()
            clock.elsewhere()
            try:
                data = pickle.dumps(("ok", fn()))
            except mon.StepLimit as e:
                data = pickle.dumps(("limit", str(e)))
            except (Exception, SystemExit) as e:
                data = pickle.dumps(("exc", type(e).__name__, str(e)))
            with os.fdopen(w, "wb", closefd=True) as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    while True:
        left = end - time.monotonic()
        ready = left > 0 and select.select([r], [], [], left)[0]
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("hang",)
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return ("died",)
    return pickle.loads(b"".join(buf))


class CleanServer(object):
    """A forked copy of this (still pristine) process that evaluates calls.

    ``ask(fn_path, *args)`` runs dst.<module>.<fn>(*args) in a fresh fork of
    that copy, so the answer depends on nothing this process does later."""

    def __init__(self):
        import pickle
        self.pickle = pickle
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        state = random.getstate()
        self.pid = os.fork()
        if self.pid == 0:
            die_with_parent()
            random.setstate(state)
            os.close(self.w)
            os.close(self.r)
            self._serve(r1, w2)
        os.close(r1)
        os.close(w2)

    def _serve(self, r, w):
        try:
            rf, wf = os.fdopen(r, "rb"), os.fdopen(w, "wb")
            while True:
                try:
                    path, args = self.pickle.load(rf)
                except EOFError:
                    break
                m, f = path.rsplit(".", 1)
                fn = getattr(importlib.import_module("dst." + m), f)
                res = isolated(lambda: fn(*args))
                self.pickle.dump(res, wf)
                wf.flush()
        finally:
            os._exit(0)

    def ask(self, path, *args):
        busy, mon.K.busy = mon.K.busy, True
        try:
            data = self.pickle.dumps((path, args))
            while data:
                k = os.write(self.w, data)
                data = data[k:]
            if not hasattr(self, "rf"):
                self.rf = os.fdopen(self.r, "rb")
            return self.pickle.load(self.rf)
        finally:
            mon.K.busy = busy

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


def boot():
    """Import the package from the repository, with redirectable std streams."""
    from . import streams
    if sys.path[0] != mon.REPO:
        sys.path.insert(0, mon.REPO)
    streams.install_proxies()
    clock.install()
    locks.install()
    import sudokutools
    assert os.path.realpath(sudokutools.__file__).startswith(mon.PKG), sudokutools.__file__
    import sudokutools.analyze, sudokutools.generate, sudokutools.shell  # noqa
    import sudokutools.solve, sudokutools.solvers, sudokutools.notation  # noqa
    import sudokutools.__main__  # noqa
    mon.K.install()
    gc.collect()
    gc.freeze()


# --------------------------------------------------------------------------
# worker process

def worker_main(argv):
    """argv: PROP TIER SEED WORKER NWORKERS TOTAL DEADLINE [digests]"""
    out = os.fdopen(os.dup(1), "w")
    pid, tier, seed, w, nw, total, deadline = argv[:7]
    digests = len(argv) > 7 and argv[7] == "digests"
    seed, w, nw, total = int(seed), int(w), int(nw), int(total)
    deadline = float(deadline)
    boot()
    mod = prop(pid)
    t0 = time.monotonic()
    agg = dict(runs=0, steps=0, switches=0, counts={}, cov=set(), digests=set(),
               nontrivial=set(), status={}, samples=[], truncated=False,
               fingerprints=[], max_steps=0)
    for i in range(w, total, nw):
        if time.monotonic() - t0 > deadline:
            agg["truncated"] = True
            break
        plan = mod.gen(plan_rng(pid, seed, i), tier)
        plan.setdefault("clock", clock.gen(plan_rng(pid + "/clock", seed, i)))
        res = fork_run(mod, plan)
        agg["runs"] += 1
        agg["steps"] += res["steps"]
        agg["max_steps"] = max(agg["max_steps"], res["steps"])
        agg["switches"] += res["switches"]
        for k, v in res["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["cov"].update(res["cov"])
        agg["digests"].add(res["digest"])
        if res["nontrivial"]:
            agg["nontrivial"].add(res["digest"])
        agg["status"][res["status"]] = agg["status"].get(res["status"], 0) + 1
        if digests:
            agg["fingerprints"].append([i, res["digest"], res["status"]])
        if len(agg["samples"]) < 1 and res["nontrivial"]:
            agg["samples"].append(dict(index=i, plan=plan))
        if res["status"] in ("violation", "error"):
            out.write(json.dumps(dict(kind=res["status"], index=i, plan=plan,
                                      key=res["key"], msg=res["msg"])) + "\n")
            out.flush()
            if res["status"] == "violation":
                break
        if res["status"] == "inconclusive":
            k = "inconclusive:" + str(res.get("key"))
            agg["counts"][k] = agg["counts"].get(k, 0) + 1
    for k in ("cov", "digests", "nontrivial"):
        agg[k] = sorted(agg[k])
    out.write(json.dumps(dict(kind="end", **agg)) + "\n")
    out.flush()


def one_main(argv):
    """Run one plan from a file; print the result as JSON.  argv: FILE"""
    out = os.fdopen(os.dup(1), "w")
    boot()
    d = json.load(open(argv[0]))
    mod = prop(d["property"])
    res = fork_run(mod, d["plan"], keep=True)
    out.write(json.dumps(res) + "\n")
    out.flush()


# --------------------------------------------------------------------------
# minimisation

def get_path(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def set_path(plan, path, val):
    new = json.loads(json.dumps(plan))
    tgt = new
    for p in path[:-1]:
        tgt = tgt[p]
    tgt[path[-1]] = val
    return new


def list_paths(plan, names):
    """All paths to lists whose last key is in names."""
    found = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in names and isinstance(x[k], list) and x[k]:
                    found.append(path + [k])
                walk(x[k], path + [k])
        elif isinstance(x, list) and len(path) < 6:
            for i, y in enumerate(x):
                if isinstance(y, (dict, list)):
                    walk(y, path + [i])
    walk(plan, [])
    return found


def shrink(mod, plan, key, seconds):
    t0 = time.monotonic()
    tried = [0]

    def left():
        return seconds - (time.monotonic() - t0)

    def fails(p):
        if left() <= 0:
            return False
        tried[0] += 1
        r = fork_run(mod, p, wall=max(5, int(left()) + 1))
        return r["status"] == "violation" and r["key"] == key

    for calm in (None, dict(base=10 ** 18, rate=plan["clock"]["rate"], jumps=[])
                 if plan.get("clock") else None):
        if plan.get("clock") and fails(dict(plan, clock=calm)):
            plan = dict(plan, clock=calm)
    names = getattr(mod, "SHRINK", ())
    changed = True
    while changed and left() > 0:
        changed = False
        for path in list_paths(plan, names):
            try:
                lst = get_path(plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and left() > 0:
                i = 0
                while i < len(lst) and left() > 0:
                    cand = lst[:i] + lst[i + size:]
                    p = set_path(plan, path, cand)
                    if fails(p):
                        plan, lst, changed = p, cand, True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        simp = getattr(mod, "simplify", None)
        if simp is not None:
            again = True
            while again and left() > 0:
                again = False
                for p in simp(json.loads(json.dumps(plan))):
                    if left() <= 0:
                        break
                    if p != plan and fails(p):
                        plan, again, changed = p, True, True
                        break
    return plan, tried[0]


def shrink_main(argv):
    """argv: FILE SECONDS ; rewrites FILE with the minimised plan."""
    boot()
    d = json.load(open(argv[0]))
    mod = prop(d["property"])
    plan, tried = shrink(mod, d["plan"], d["violation"]["key"], float(argv[1]))
    res = fork_run(mod, plan, keep=True)
    if res["status"] == "violation" and res["key"] == d["violation"]["key"]:
        d["plan"] = plan
        d["violation"] = dict(key=res["key"], msg=res["msg"])
        d["trace"] = res.get("log", [])[-200:]
        d["digest"] = res["digest"]
    d["shrink_runs"] = tried
    tmp = argv[0] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, argv[0])


def main(argv):
    die_with_parent()
    {"worker": worker_main, "one": one_main, "shrink": shrink_main}[argv[0]](argv[1:])
