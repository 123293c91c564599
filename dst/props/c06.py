"""C06: generated sudokus are valid for every stream of random choices."""
from .. import boards, ref, scripted
from ..engine import Violation
from ..mon import K, Task, StepLimit

RUNS = {"quick": 3000, "thorough": 40000}
RULE = ("a case is a seeded plan: a script for the random source (uniform, constant extremes, "
        "alternating, cyclic, skewed, adversarial prefix), a sequence of generate / "
        "create_solution calls over box shapes, symmetries and minimum counts, optionally after "
        "calls cut by a fault and from 2-4 threads; non-trivial when the random source was not "
        "uniform, or calls overlapped, or a call had been cut before")
MEASURE = "distinct (call, box shape, symmetry, minimum-count bucket, script mode) tuples"
REAL = ["sudokutools.generate", "sudokutools.analyze.is_unique", "sudokutools.dlx",
        "sudokutools.sudoku", "random.choice/shuffle/sample"]
STUB = ["random source (bounded draws scripted by the plan)", "thread scheduler (seeded baton)"]
ASSUME = ["box shapes with at most 9 rows (12 rows for create_solution)",
          "uniqueness is judged by the reference solver"]
SHRINK = ("calls", "tasks", "schedule")
PROBES = ["value-error", "symmetric", "min-count-binding", "threads", "nonuniform", "cut-before"]

SYM = [None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"]
SHAPES = [(2, 2), (2, 2), (2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 3), (3, 1),
          (1, 1), (1, 2), (2, 1)]

STYLES = ("plain", "plain", "omit", "positional", "list")


def gen_call(rng, allow_big):
    x = rng.random()
    if x < .2:
        shape = rng.choice(SHAPES + [(3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (2, 5), (5, 2), (1, 5)])
        return dict(f="solution", box=list(shape), style=rng.choice(STYLES))
    shape = rng.choice(SHAPES)
    if allow_big and rng.random() < .25:
        shape = rng.choice(((3, 3), (3, 3), (2, 4), (4, 2)))
    n = shape[0] * shape[1]
    y = rng.random()
    if y < .4:
        mc = 0
    elif y < .8:
        mc = rng.randint(0, n * n)
    elif y < .9:
        mc = n * n
    elif y < .95:
        mc = -rng.randint(1, 5)
    else:
        mc = n * n + rng.choice((1, 1, 2, 50))
    sym = rng.choice(SYM + SYM + ["diagonal", "", "none"]) if rng.random() < .8 else None
    c = dict(f="generate", box=list(shape), min=mc, sym=sym, style=rng.choice(STYLES))
    if rng.random() < .08:
        c["cut"] = [rng.choice((3, 30, 300, 3000, 9000)), rng.choice(("interrupt", "memory", "recursion"))]
    return c


def gen(rng, tier):
    big = rng.random() < (.22 if tier == "quick" else .4)
    plan = dict(script=scripted.spec(rng))
    if rng.random() < .2:
        k = rng.randint(2, 4)
        plan["tasks"] = [dict(calls=[gen_call(rng, False) for _ in range(rng.randint(1, 2))])
                         for _ in range(k)]
        plan["schedule"] = [[rng.randrange(k), rng.choice((1, 3, 10, 50, 300, 2000))]
                            for _ in range(rng.randint(2, 40))]
    else:
        plan["calls"] = [gen_call(rng, big and i == 0) for i in range(rng.choice((1, 1, 2, 3)))]
    return plan


ROT = {
    "rotate-90": [lambda n, r, c: (c, n - 1 - r)],
    "rotate-180": [lambda n, r, c: (n - 1 - r, n - 1 - c)],
    "mirror-x": [lambda n, r, c: (n - 1 - r, c)],
    "mirror-y": [lambda n, r, c: (r, n - 1 - c)],
    "mirror-xy": [lambda n, r, c: (n - 1 - r, c), lambda n, r, c: (r, n - 1 - c)],
    None: [],
}


def judge(c, res, exc, ctx, mode):
    bw, bh = c["box"]
    n = bw * bh
    g = ref.geo(bw, bh)
    what = "%s(%s)" % (c["f"], ", ".join("%s=%r" % (k, c[k]) for k in ("min", "sym", "box") if k in c))
    bad = c["f"] == "generate" and (c["min"] > n * n or c["sym"] not in SYM)
    if bad:
        ctx.count("probe:value-error")
        if not isinstance(exc, ValueError):
            raise Violation("no-value-error", "%s gave %r instead of a ValueError" % (
                what, exc if exc is not None else "a sudoku"))
        return
    if exc is not None:
        raise Violation("raised", "%s raised %r" % (what, exc))
    if boards.shape(res) != (bw, bh) or tuple(res.box_size) != (bw, bh):
        raise Violation("wrong-shape", "%s returned box size %r" % (what, boards.shape(res)))
    v = boards.nums(res)
    txt = boards.text(bw, bh, v)
    if not all(isinstance(x, int) and 0 <= x <= n for x in v):
        raise Violation("bad-number", "%s returned %s" % (what, txt))
    if c["f"] == "solution":
        if 0 in v or ref.conflicts(g, v):
            raise Violation("not-complete", "%s returned %s" % (what, txt))
        return
    cnt = sum(1 for x in v if x)
    if cnt < c["min"]:
        raise Violation("min-count", "%s returned %d filled fields: %s" % (what, cnt, txt))
    k = len(ref.solutions(g, v, 2, budget=2000000))
    if k != 1:
        raise Violation("not-unique", "%s returned %s with %s solutions" % (
            what, txt, "no" if not k else "several"))
    for f in ROT[c["sym"]]:
        for r in range(n):
            for q in range(n):
                a, b = f(n, r, q)
                if bool(v[r * n + q]) != bool(v[a * n + b]):
                    raise Violation("symmetry", "%s returned the pattern %s: fields %s and %s "
                                    "differ" % (what, txt, (r, q), (a, b)))
    if c["sym"]:
        ctx.count("probe:symmetric")
    if cnt and cnt - 4 <= c["min"]:
        ctx.count("probe:min-count-binding")
    ctx.cover(c["f"], c["box"], c["sym"], (4 * max(0, c["min"])) // max(1, n * n), mode)
    ctx.log(what, txt)


def call(c, box, create_solution, generate):
    style = c.get("style")
    if style == "list":
        box = list(box)
    if c["f"] == "solution":
        if style == "omit" and box == (3, 3):
            return create_solution()
        return create_solution(box) if style != "plain" else create_solution(box_size=box)
    if style == "positional":
        return generate(c["min"], c["sym"], box)
    kw = dict(min_count=c["min"], symmetry=c["sym"], box_size=box)
    if style == "omit":
        for name, std in (("min_count", 0), ("symmetry", None), ("box_size", (3, 3))):
            if kw[name] == std:
                del kw[name]
    return generate(**kw)


def do(c, ctx, mode):
    from sudokutools.generate import create_solution, generate
    box = tuple(c["box"])
    t = K.cur
    res = exc = None
    if "cut" in c:
        t.fault = (t.steps + c["cut"][0], c["cut"][1], None)
        try:
            generate(0, None, box)
        except (KeyboardInterrupt, MemoryError, RecursionError):
            ctx.count("fault:" + c["cut"][1])
            ctx.count("probe:cut-before")
            ctx.nontrivial = True
        t.fault = None
    try:
        res = call(c, box, create_solution, generate)
    except Exception as e:
        exc = e
    busy, K.busy = K.busy, True
    try:
        judge(c, res, exc, ctx, mode)
    finally:
        K.busy = busy


def execute(plan, ctx):
    sc = scripted.Script(plan["script"])
    mode = plan["script"]["mode"]
    if mode != "uniform" or plan["script"].get("prefix"):
        ctx.count("probe:nonuniform")
        ctx.count("fault:random-script-" + mode)
        ctx.nontrivial = True
    K.start(cap=20000000)
    try:
        with scripted.installed(sc):
            if "tasks" in plan:
                ctx.count("probe:threads")
                ctx.nontrivial = True
                ts = [Task(i, (lambda t=t: [do(c, ctx, mode) for c in t["calls"]]))
                      for i, t in enumerate(plan["tasks"])]
                K.run_tasks(ts, plan["schedule"])
                for t in ts:
                    if t.exc is not None:
                        raise t.exc
            else:
                for c in plan["calls"]:
                    do(c, ctx, mode)
    except StepLimit:
        raise Violation("does-not-finish", "generating did not finish within %d steps: %r" % (
            K.steps, plan.get("calls") or plan.get("tasks")))
    finally:
        K.stop()
    ctx.log("draws", sc.draws)


def simplify(plan):
    for m in ("low", "high"):
        if plan["script"] != dict(mode=m):
            yield dict(plan, script=dict(mode=m))
    if plan["script"].get("prefix"):
        yield dict(plan, script={k: v for k, v in plan["script"].items() if k != "prefix"})
    if "tasks" in plan:
        for t in plan["tasks"]:
            yield {k: v for k, v in dict(plan, calls=t["calls"]).items() if k not in ("tasks", "schedule")}
    for i, c in enumerate(plan.get("calls", ())):
        for s in ([1, 1], [1, 2], [2, 2], [2, 3]):
            if s != c["box"] and s[0] * s[1] < c["box"][0] * c["box"][1]:
                cs = list(plan["calls"])
                cs[i] = dict(c, box=s)
                yield dict(plan, calls=cs)
        if "cut" in c:
            cs = list(plan["calls"])
            cs[i] = {k: v for k, v in c.items() if k != "cut"}
            yield dict(plan, calls=cs)
