"""C05: the step-by-step solver finishes and its report replays."""
from .. import boards, readers, ref
from ..engine import Violation
from ..mon import K, Task, StepLimit

RUNS = {"quick": 1000, "thorough": 60000}
RULE = ("a case is a seeded plan: 1-4 boards (solvable, multi-solution, unsolvable, conflicting, "
        "full, empty) and solver runs on them, with callbacks that start nested runs or abort, "
        "runs cut by a fault before, and up to 3 threads; non-trivial when a solver run was "
        "nested, aborted, cut or overlapped by another, or the board has no solution")
MEASURE = "distinct (shape, kind, set of step classes reported, nesting/abort/cut pattern) tuples"
REAL = ["sudokutools.solvers", "sudokutools.analyze", "sudokutools.solve", "sudokutools.dlx",
        "sudokutools.sudoku", "real Python threads"]
STUB = ["thread scheduler (seeded baton)"]
ASSUME = ["finishing is judged by a cap of simulated lines far above what the pinned code needs "
          "(at most 120 million for a run that needs less than 2 million)"]
SHRINK = ("jobs", "schedule", "acts")
PROBES = ["unsolvable", "conflicting-givens", "multi-solution", "nested", "aborted", "cut",
          "replayed", "bruteforce-step", "threads"]

SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (3, 3), (1, 4), (4, 1)]


def gen_board(rng, small=False):
    bw, bh = rng.choice(SHAPES[:6] if small else SHAPES)
    n = bw * bh
    kind = rng.choice(("unique", "unique", "hard", "hard", "few", "many", "empty", "unsolvable",
                       "unsolvable", "random", "random", "conflict", "full", "pair"))
    if kind == "random":
        # a few random givens: often unsolvable without a direct conflict
        if n > 6:
            kind = "unique"
        else:
            grid = [0] * (n * n)
            for _ in range(rng.randint(1, 2 * n)):
                i = rng.randrange(n * n)
                v = rng.randint(1, n)
                if rng.random() < .15 or all(grid[j] != v for j in ref.geo(bw, bh).peers[i]):
                    grid[i] = v
    if kind == "empty" and n > 6:
        kind = "few"
    if kind == "unsolvable" and n >= 8:
        # one given changed on a well-filled board: contradictions show up at once
        g = ref.geo(bw, bh)
        full = ref.random_full(g, rng)
        keep = rng.sample(range(n * n), int(n * n * .6))
        base = [full[i] if i in keep else 0 for i in range(n * n)]
        grid = ref.spoil(g, full, base, rng) or base
    elif kind != "random":
        grid = boards.pick(rng, bw, bh, kind)
    b = dict(bw=bw, bh=bh, kind=kind, grid=list(grid))
    if rng.random() < 0.3:
        b["cands"] = boards.random_cands(rng, n)
    return b


def gen(rng, tier):
    nb = rng.choice((1, 1, 2, 3))
    bs = [gen_board(rng, i > 0) for i in range(nb)]
    if nb > 1 and rng.random() < .5:
        t = boards.twin_spec(rng, bs[0])
        if t:
            t.pop("cands", None)
            t["twin"] = 1
            bs[1] = t
    threads = rng.random() < 0.2
    jobs = []
    for _ in range(rng.randint(2, 4) if threads else rng.randint(1, 3)):
        acts = []
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                acts.append([rng.choice((0, 0, 1, 2, 5, 12, 30)),
                             rng.choice(("solve", "solve", "rate", "score", "abort-inner", "dlx",
                                         "hints")),
                             rng.randrange(nb)])
        j = dict(b=rng.randrange(nb), acts=acts, post=rng.choice(("rate", "score", "both", "none")))
        x = rng.random()
        if x < 0.2:
            j["abort"] = rng.choice((0, 1, 2, 7, 20))
        elif x < 0.35:
            j["cut"] = [rng.choice((5, 50, 300, 2000, 10000)),
                        rng.choice(("interrupt", "memory", "recursion"))]
        jobs.append(j)
    if nb > 1 and len(jobs) > 1 and bs[1].get("twin"):
        for i, j in enumerate(jobs[:2]):
            j["b"] = i
            j["post"] = "both"
    plan = dict(boards=bs, jobs=jobs, threads=threads)
    if threads:
        plan["schedule"] = [[rng.randrange(len(jobs)), rng.choice((1, 2, 5, 20, 150, 1000))]
                            for _ in range(rng.randint(2, 30))]
    return plan


class Abort(Exception):
    pass


def name(plan, b):
    sp = plan["boards"][b]
    return boards.text(sp["bw"], sp["bh"], sp["grid"])


def check_run(plan, ctx, b, out, steps):
    """Judge one finished solver run."""
    sp = plan["boards"][b]
    bw, bh, n = sp["bw"], sp["bh"], sp["bw"] * sp["bh"]
    g = ref.geo(bw, bh)
    if boards.shape(out) != (bw, bh):
        raise Violation("wrong-shape", "solve() of %s returned another shape" % name(plan, b))
    got = boards.nums(out)
    for i, v in enumerate(sp["grid"]):
        if v and got[i] != v:
            raise Violation("given-changed", "solve() of %s changed given %s: %s" % (
                name(plan, b), divmod(i, n), boards.text(bw, bh, got)))
    sols = ref.solutions(g, sp["grid"], 2, budget=500000)
    if sols:
        if 0 in got or ref.conflicts(g, got):
            raise Violation("not-solved", "solve() of the solvable %s returned %s" % (
                name(plan, b), boards.text(bw, bh, got)))
        if len(sols) > 1:
            ctx.count("probe:multi-solution")
    else:
        ctx.count("probe:unsolvable")
        ctx.nontrivial = True
        if ref.conflicts(g, sp["grid"]):
            ctx.count("probe:conflicting-givens")
    fresh = boards.build(bw, bh, sp["grid"])
    for i, v in enumerate(sp["grid"]):
        if v:
            fresh.set_candidates(i // n, i % n, [v])
    for s in steps:
        s.apply(fresh)
    if boards.full_state(fresh) != boards.full_state(out):
        raise Violation("replay-differs", "applying the %d reported steps to %s gives\n%s\n"
                        "instead of the returned\n%s" % (
                            len(steps), name(plan, b), boards.full_state(fresh)[2:],
                            boards.full_state(out)[2:]))
    ctx.count("probe:replayed")
    kinds = sorted({type(s).__name__ for s in steps})
    if "Bruteforce" in kinds:
        ctx.count("probe:bruteforce-step")
    return kinds


def job(plan, ctx, pkg, j):
    from itertools import islice
    from sudokutools import analyze, solvers
    from sudokutools.solve import dlx
    b = j["b"]
    steps = []
    state = dict(n=0)
    inner_results = []

    def report(step):
        i = state["n"]
        state["n"] += 1
        steps.append(step)
        for at, act, ob in j["acts"]:
            if at != i:
                continue
            ctx.count("probe:nested")
            ctx.nontrivial = True
            if act == "solve":
                inner = []
                o = solvers.solve(pkg[ob], inner.append)
                inner_results.append((ob, o, inner))
            elif act == "rate":
                analyze.rate(pkg[ob])
            elif act == "score":
                analyze.score(pkg[ob])
            elif act == "dlx":
                list(islice(dlx(pkg[ob]), 2))
            elif act == "hints":
                list(islice(solvers.hints(pkg[ob]), 3))
            elif act == "abort-inner":
                left = [2]

                def stop(s):
                    left[0] -= 1
                    if left[0] < 0:
                        raise Abort()
                try:
                    solvers.solve(pkg[ob], stop)
                except Abort:
                    pass
        if "abort" in j and i == j["abort"]:
            raise Abort()

    def attempt(rep):
        try:
            return solvers.solve(pkg[b], rep)
        except Abort:
            ctx.count("probe:aborted")
            ctx.nontrivial = True
            return None

    if "cut" in j:
        t = K.cur
        t.fault = (t.steps + j["cut"][0], j["cut"][1], None)
        try:
            solvers.solve(pkg[b], lambda s: None)
        except (KeyboardInterrupt, MemoryError, RecursionError):
            ctx.count("fault:" + j["cut"][1])
            ctx.count("probe:cut")
            ctx.nontrivial = True
        t.fault = None
    out = attempt(report)
    if out is None:
        # aborted: now an undisturbed run
        ctx.count("fault:callback-raises")
        steps = []
        out = attempt(lambda s: steps.append(s))
    res = []
    if j["post"] in ("rate", "both"):
        res.append(("rate", analyze.rate(pkg[b])))
    if j["post"] in ("score", "both"):
        res.append(("score", analyze.score(pkg[b])))
    busy, K.busy = K.busy, True
    try:
        kinds = check_run(plan, ctx, b, out, steps)
        for ob, o, inner in inner_results:
            check_run(plan, ctx, ob, o, inner)
        rat = [analyze.RATINGS[type(s)] for s in steps]
        for what, v in res:
            exp = (max(rat) if rat else 0) if what == "rate" else sum(rat)
            if v != exp:
                raise Violation(what, "%s of %s is %r, the reported steps give %r" % (
                    what, name(plan, b), v, exp))
        if [readers.step_key(s) for s in steps] == [] and 0 in plan["boards"][b]["grid"] \
                and ref.solutions(ref.geo(plan["boards"][b]["bw"], plan["boards"][b]["bh"]),
                                  plan["boards"][b]["grid"], 1, budget=500000):
            raise Violation("not-reported", "a board was solved without reporting a step")
        ctx.cover(plan["boards"][b]["bw"], plan["boards"][b]["bh"], plan["boards"][b]["kind"], kinds,
                  sorted(a[1] for a in j["acts"]), "abort" in j, "cut" in j)
        ctx.log(b, len(steps), kinds, res)
    finally:
        K.busy = busy


def execute(plan, ctx):
    pkg = [boards.build(b["bw"], b["bh"], b["grid"], b.get("cands")) for b in plan["boards"]]
    jobs = [j for j in plan["jobs"] if j["b"] < len(pkg)]
    K.start(cap=120000000 if any(len(p) > 64 for p in pkg) else 30000000)
    try:
        if plan["threads"]:
            ctx.count("probe:threads")
            ctx.nontrivial = True
            ts = [Task(i, (lambda j=j: job(plan, ctx, pkg, j))) for i, j in enumerate(jobs)]
            K.run_tasks(ts, plan["schedule"])
            for t in ts:
                if t.exc is not None:
                    raise t.exc
        else:
            for j in jobs:
                job(plan, ctx, pkg, j)
    except StepLimit:
        raise Violation("does-not-finish", "solving %s did not finish within %d steps" % (
            " | ".join(name(plan, j["b"]) for j in jobs), K.steps))
    finally:
        K.stop()


def simplify(plan):
    if plan["threads"]:
        yield dict(plan, threads=False)
    for i, j in enumerate(plan["jobs"]):
        for k in ("abort", "cut"):
            if k in j:
                js = list(plan["jobs"])
                js[i] = {a: b for a, b in j.items() if a != k}
                yield dict(plan, jobs=js)
        if j["post"] != "none":
            js = list(plan["jobs"])
            js[i] = dict(j, post="none")
            yield dict(plan, jobs=js)
    for i, b in enumerate(plan["boards"]):
        if b.get("cands"):
            bs = list(plan["boards"])
            bs[i] = {k: v for k, v in b.items() if k != "cands"}
            yield dict(plan, boards=bs)
