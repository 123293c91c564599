"""Runs a check: starts workers, collects, minimises, writes evidence."""
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(OUT, "replays")
NW = 8

VENV = "/opt/venv/bin/python"


def interpreter():
    return VENV if os.path.exists(VENV) else sys.executable


def env(hashseed):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("PYTHON") or k == "PYTHONHOME"}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX=os.path.join(HERE, "evidence", "no-pycache"),
             PYTHONPATH=HERE, PYTHONUTF8="1", LC_ALL="C.UTF-8", TERM="dumb")
    return e


def spawn(args, hashseed, **kw):
    return subprocess.Popen([interpreter(), "-W", "ignore", "-m", "dst.child"] + args,
                            cwd=HERE, env=env(hashseed), **kw)


def load_prop(pid):
    sys.path.insert(0, HERE)
    from dst import engine
    return engine, engine.prop(pid)


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    out.append(line)
    except IOError:
        pass
    return out


def batch(pid, tier, seed, total, deadline, nw=NW, digests=False):
    procs = []
    results = []
    lock = threading.Lock()
    stop = threading.Event()

    def reader(p):
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                d = dict(kind="error", index=-1, key="garbage", msg=line[:500])
            with lock:
                results.append(d)
            if d["kind"] == "violation":
                stop.set()
        p.wait()

    threads = []
    for w in range(nw):
        hs = w % 4
        p = spawn(["worker", pid, tier, str(seed), str(w), str(nw), str(total),
                   str(deadline)] + (["digests"] if digests else []), hs,
                  stdout=subprocess.PIPE, text=True)
        procs.append(p)
        t = threading.Thread(target=reader, args=(p,), daemon=True)
        t.start()
        threads.append(t)
    t0 = time.monotonic()
    hard = deadline + 130
    while any(t.is_alive() for t in threads):
        for t in threads:
            t.join(0.1)
        if stop.is_set():
            end = time.monotonic() + 3
            while time.monotonic() < end and any(t.is_alive() for t in threads):
                time.sleep(0.05)
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
        if time.monotonic() - t0 > hard:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            with lock:
                results.append(dict(kind="error", index=-1, key="hard-timeout",
                                    msg="workers exceeded the deadline"))
            break
    for t in threads:
        t.join(5)
    for p in procs:
        if p.poll() is None:
            p.kill()
    with lock:
        if not stop.is_set():
            for p in procs:
                if p.wait() != 0:
                    results.append(dict(kind="error", index=-1, key="worker-exit",
                                        msg="worker ended with status %s" % p.returncode))
        return list(results)


def replay(path, quiet=False):
    d = json.load(open(path))
    p = spawn(["one", os.path.abspath(path)], d.get("hashseed", 0),
              stdout=subprocess.PIPE, text=True)
    try:
        out, _ = p.communicate(timeout=200)
    finally:
        if p.poll() is None:
            p.kill()
    res = json.loads(out)
    if not quiet:
        for line in res.get("log", [])[-60:]:
            print("  ", line[:300])
        print("status:", res["status"], res.get("key", ""))
        print(res.get("msg", ""))
    return d, res


def check(pid, tier, seed):
    t0 = time.monotonic()
    engine, mod = load_prop(pid)
    total = mod.RUNS[tier]
    deadline = 150 if tier == "quick" else getattr(mod, "THOROUGH_S", 600)
    if os.environ.get("DST_RUNS"):
        total = int(os.environ["DST_RUNS"])
    os.makedirs(REPLAYS, exist_ok=True)
    print("check %s tier=%s VERIF_SEED=%d runs=%d" % (pid, tier, seed, total), flush=True)
    results = batch(pid, tier, seed, total, deadline)
    ends = [r for r in results if r["kind"] == "end"]
    viols = sorted([r for r in results if r["kind"] == "violation"],
                   key=lambda r: r["index"])
    errors = [r for r in results if r["kind"] == "error"]
    search_s = time.monotonic() - t0

    agg = dict(runs=0, steps=0, switches=0, counts={}, status={}, samples=[],
               truncated=False, max_steps=0)
    cov, digests, nontrivial = set(), set(), set()
    for e in ends:
        for k in ("runs", "steps", "switches"):
            agg[k] += e[k]
        agg["max_steps"] = max(agg["max_steps"], e["max_steps"])
        for f in ("counts", "status"):
            for k, v in e[f].items():
                agg[f][k] = agg[f].get(k, 0) + v
        cov.update(e["cov"])
        digests.update(e["digests"])
        nontrivial.update(e["nontrivial"])
        agg["samples"] += e["samples"]
        agg["truncated"] |= e["truncated"]

    code = 0
    lines = []
    reported = 0
    if viols:
        v = viols[0]
        name = "%s-seed%d-%d.json" % (pid, seed, v["index"])
        path = os.path.join(REPLAYS, name)
        rec = dict(property=pid, seed=seed, tier=tier, index=v["index"],
                   hashseed=v["index"] % 4, plan=v["plan"], original_plan=v["plan"],
                   violation=dict(key=v["key"], msg=v["msg"]), minimised=False)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        budget = int(os.environ.get("DST_SHRINK_S") or (60 if tier == "quick" else 120))
        try:
            p = spawn(["shrink", path, str(budget)], rec["hashseed"],
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            p.wait(timeout=budget + 100)
        except subprocess.TimeoutExpired:
            p.kill()
        ok = False
        try:
            d, res = replay(path, quiet=True)
            ok = res["status"] == "violation" and res["key"] == d["violation"]["key"]
        except Exception as e:
            print("replay failed: %r" % (e,))
        if not ok:
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            try:
                d, res = replay(path, quiet=True)
                ok = res["status"] == "violation"
            except Exception as e:
                print("replay failed: %r" % (e,))
        d = json.load(open(path))
        d["minimised"] = d["plan"] != d.get("original_plan")
        d["replay_reproduces"] = ok
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        print("violation class: %s" % d["violation"]["key"])
        print(d["violation"]["msg"][:3000])
        if not ok:
            print("note: the recorded plan did not reproduce in a fresh process "
                  "(the code under test is itself nondeterministic here)")
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        reported = len(viols)
        code = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS ERROR index=%s %s: %s" % (e["index"], e["key"], e["msg"]))
        code = 2
    elif agg["runs"] < max(1, total // 5) and tier == "quick":
        print("HARNESS ERROR: only %d of %d runs within the time limit" % (agg["runs"], total))
        code = 2

    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(agg["counts"].items())
             if not k.startswith(("fault:", "probe:"))}
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=agg["runs"],
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=[json.loads(json.dumps(s)) for s in agg["samples"][:2]] or ["(no run completed)"],
            exhaustive=False,
            runs_per_hour_one_seed_each=int(agg["runs"] / max(search_s, .001) * 3600),
            simulated_time_unit="source lines of the package executed under the kernel",
            simulated_time=agg["steps"], longest_run=agg["max_steps"],
            baton_switches=agg["switches"],
            faults_injected=faults, probes=probes, counters=other,
            distinct_states=len(cov), distinct_states_measure=mod.MEASURE,
            distinct_executions=len(digests),
            run_status=agg["status"], truncated_by_wall_clock=agg["truncated"],
            components_real=mod.REAL, components_stubbed=mod.STUB,
            hash_seeds=list(range(4)), workers=NW,
        ),
        assumptions=mod.ASSUME, wall_s=round(wall, 3), violations=reported)
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_findings(pid):
        print(line)
    for line in lines:
        print(line)
    zero = [p for p in getattr(mod, "PROBES", ()) if not probes.get(p)]
    if zero and code == 0:
        print("note: probes never hit: %s" % ", ".join(zero))
    print("%s: %d runs (%s), %d distinct non-trivial, %d simulated lines, %.1fs" % (
        pid, agg["runs"], ", ".join("%s %d" % x for x in sorted(agg["status"].items())),
        len(nontrivial), agg["steps"], wall))
    return code


def determinism(pids, runs, seed):
    """Same seeds, twice, at two worker counts: event logs must be equal."""
    bad = 0
    for pid in pids:
        maps = []
        for nw in (8, 4, 12):
            rs = batch(pid, "quick", seed, runs, 600, nw=nw, digests=True)
            m = {}
            for r in rs:
                if r["kind"] == "end":
                    for i, d, s in r["fingerprints"]:
                        m[i] = (d, s)
                elif r["kind"] in ("error", "violation"):
                    print(pid, r["kind"], r["index"], r["key"], r["msg"][:500])
                    bad += 1
            maps.append(m)
        diff = [i for i in maps[0] if any(m.get(i) != maps[0][i] for m in maps[1:])]
        print("%s: %d runs x3, %d diverged %s" % (pid, len(maps[0]), len(diff), diff[:5]), flush=True)
        bad += len(diff) + (len(maps[0]) == 0)
    return 1 if bad else 0


def main(argv):
    if not argv:
        print("usage: check C01 [--tier quick|thorough] | --replay FILE | --determinism N [C01..] | --setup")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if argv[0] == "--replay":
        d, res = replay(argv[1])
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (d["property"], argv[1]))
            return 1
        return 0 if res["status"] == "ok" else 2
    if argv[0] == "--determinism":
        engine, _ = load_prop("C01")
        return determinism(argv[2:] or engine.PROPS, int(argv[1]), seed)
    if argv[0] == "--setup":
        engine, _ = load_prop("C01")
        for pid in engine.PROPS:
            try:
                engine.prop(pid)
            except ImportError as e:
                print("missing", pid, e)
        print("interpreter:", interpreter())
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return check(argv[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
