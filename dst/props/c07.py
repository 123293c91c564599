"""C07: template generation keeps the pattern and honours its retry limit."""
from .. import boards, ref, scripted
from ..engine import Violation
from ..mon import K, Task, StepLimit

RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("a case is a seeded plan: a template (pattern of a unique puzzle, sparse, dense, full or "
        "empty, filled with arbitrary values), a script for the random source, and calls with "
        "0, 1, ... K, many and unlimited attempts under one and the same script, optionally with "
        "other threads generating; non-trivial when at least one attempt failed before a success "
        "or before the limit")
MEASURE = "distinct (box shape, pattern kind, script mode, index of first success) tuples"
REAL = ["sudokutools.generate", "sudokutools.analyze.is_unique", "sudokutools.dlx",
        "sudokutools.sudoku", "random.choice/shuffle"]
STUB = ["random source (bounded draws scripted by the plan)", "thread scheduler (seeded baton)"]
ASSUME = ["'never gives up' is observed for 60000 to 300000 simulated lines",
          "every attempt of the pinned code consumes the same number of random draws; the attempts "
          "made are counted through the draws"]
SHRINK = ("limits", "schedule")
PROBES = ["failed", "succeeded", "succeeded-late", "zero-tries", "unlimited-keeps-trying",
          "unlimited-succeeds", "threads", "default-limit", "thread-failed", "thread-succeeded"]

SHAPES = [(2, 2), (2, 2), (2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 3), (1, 2), (1, 1)]


def gen(rng, tier):
    big = rng.random() < .1
    bw, bh = rng.choice(((3, 3), (2, 4), (4, 2)) if big else SHAPES)
    n = bw * bh
    kind = rng.choice(("unique", "unique", "unique", "plus", "plus", "sparse", "empty", "full", "one-off",
                       "random"))
    base = list(boards.pick(rng, bw, bh, "unique"))
    if kind == "plus":
        for i in rng.sample(range(n * n), rng.randint(1, max(1, n))):
            base[i] = base[i] or 1
    elif kind == "sparse":
        f = [i for i in range(n * n) if base[i]]
        for i in rng.sample(f, min(len(f), rng.randint(1, n))):
            base[i] = 0
    elif kind == "empty":
        base = [0] * (n * n)
    elif kind == "full":
        base = [1] * (n * n)
    elif kind == "one-off":
        base = [1] * (n * n)
        base[rng.randrange(n * n)] = 0
    elif kind == "random":
        q = rng.choice((.3, .5, .7))
        base = [int(rng.random() < q) for _ in range(n * n)]
    style = rng.choice(("ones", "values", "own", "big"))
    if style != "own":
        base = [0 if not v else 1 if style == "ones" else rng.randint(1, n) if style == "values"
                else rng.choice((1, 77)) for v in base]
    K_ = 2 if big else rng.choice((2, 3, 4, 6))
    plan = dict(bw=bw, bh=bh, kind=kind, grid=base, script=scripted.spec(rng),
                limits=list(range(K_ + 1)), unlimited=[-1, -5][rng.randrange(2)],
                cap=60000 if n < 6 else 300000)
    if n <= 4 and rng.random() < .12:
        plan["limits"].append(rng.choice((30, 75, 130, 260)))
    if n <= 4 and rng.random() < .15:
        plan["default"] = True
    if rng.random() < .3:
        plan["cands"] = boards.random_cands(rng, n)
    if rng.random() < .18 and not big:
        k = rng.choice((2, 2, 3))
        plan["threads"] = k
        plan["tries"] = [rng.choice((0, 1, 2, 3, 4, 5, 8)) for _ in range(k)]
        plan["schedule"] = [[rng.randrange(k), rng.choice((1, 3, 10, 50, 300))]
                            for _ in range(rng.randint(2, 30))]
    return plan


def judge(plan, res, g):
    bw, bh = plan["bw"], plan["bh"]
    if boards.shape(res) != (bw, bh):
        raise Violation("wrong-shape", "the result has box size %r instead of %r" % (
            boards.shape(res), (bw, bh)))
    v = boards.nums(res)
    for i, (a, b) in enumerate(zip(plan["grid"], v)):
        if bool(a) != bool(b):
            raise Violation("pattern", "field %s is %s in the template but %s in the result %s" % (
                divmod(i, bw * bh), "filled" if a else "empty", "filled" if b else "empty",
                boards.text(bw, bh, v)))
    if len(ref.solutions(g, v, 2, budget=2000000)) != 1:
        raise Violation("not-unique", "the result %s does not have exactly one solution" % (
            boards.text(bw, bh, v)))
    return v


def attempt(plan, tpl, tries, cap, g):
    """(outcome, draws) with outcome a tuple of numbers, "failed" or "running"."""
    from sudokutools.generate import generate_from_template
    sc = scripted.Script(plan["script"])
    K.start(cap=K.steps + cap)
    res = None
    try:
        with scripted.installed(sc):
            res = generate_from_template(tpl) if tries is None else generate_from_template(tpl, tries)
    except RuntimeError as e:
        if isinstance(e, RecursionError):
            raise
        return "failed", sc.draws
    except StepLimit:
        return "running", sc.draws
    finally:
        K.stop()
    return judge(plan, res, g), sc.draws


def execute(plan, ctx):
    bw, bh = plan["bw"], plan["bh"]
    n = bw * bh
    g = ref.geo(bw, bh)
    tpl = boards.build(bw, bh, plan["grid"], plan.get("cands"))
    before = boards.full_state(tpl)
    ttxt = boards.text(bw, bh, plan["grid"])
    if plan.get("threads"):
        return threaded(plan, ctx, tpl, before, g)
    outs = {}
    draws = {}
    for t in plan["limits"]:
        o, d = attempt(plan, tpl, t, 40000000, g)
        if boards.full_state(tpl) != before:
            raise Violation("template-changed", "generating from %s changed the template" % ttxt)
        if o == "running":
            raise Violation("does-not-finish", "%d attempts on %s did not finish" % (t, ttxt))
        outs[t], draws[t] = o, d
        if t == 0:
            ctx.count("probe:zero-tries")
            if o != "failed":
                raise Violation("zero-tries", "zero attempts returned a sudoku for %s" % ttxt)
        ctx.count("probe:failed" if o == "failed" else "probe:succeeded")
        ctx.log(t, o if isinstance(o, str) else boards.text(bw, bh, o), d)
    first = None
    for t in sorted(outs):
        if first is None:
            if outs[t] != "failed":
                first = t
        elif outs[t] != outs[first]:
            raise Violation("more-tries", "with %d attempts allowed the template %s gave %s, with "
                            "%d under the same random stream %s" % (first, ttxt, outs[first], t, outs[t]))
    if 1 in outs:
        d = draws[1]
        if d == 0 and n > 2:
            raise Violation("no-attempt", "one attempt on %s consumed no random values" % ttxt)
        for t in sorted(outs):
            if outs[t] == "failed" and d and draws[t] != t * d:
                raise Violation("attempts", "%d allowed attempts on %s: %.2f attempts were made "
                                "(judged by the random values consumed)" % (t, ttxt, draws[t] / d))
        if first is not None and d and first >= 1 and first - 1 in outs and draws[first] != first * d:
            raise Violation("attempts", "success with %d allowed attempts after %.2f attempts" % (
                first, draws[first] / d))
    if sum(1 for v in plan["grid"] if not v) <= 1 and 1 in outs and outs[1] == "failed":
        raise Violation("attempts", "one attempt on the template %s failed, although every filled "
                        "board fits" % ttxt)
    u = plan["unlimited"]
    o, d = attempt(plan, tpl, u, plan["cap"] if first is None else 40000000, g)
    if o == "failed":
        raise Violation("unlimited-gave-up", "an unlimited number of attempts (%d) on %s gave up" % (u, ttxt))
    if o == "running":
        if first is not None:
            raise Violation("more-tries", "%d attempts succeed on %s but unlimited attempts do not" % (
                first, ttxt))
        ctx.count("probe:unlimited-keeps-trying")
    else:
        ctx.count("probe:unlimited-succeeds")
        if first is not None and o != outs[first]:
            raise Violation("more-tries", "unlimited attempts on %s give another sudoku than %d "
                            "attempts under the same random stream" % (ttxt, first))
        if draws.get(1):
            s = d // draws[1]
            if first is None and s <= max(outs):
                raise Violation("more-tries", "unlimited attempts on %s succeed at attempt %d, but %d "
                                "allowed attempts fail" % (ttxt, s, max(outs)))
            if first is None and s <= 40:
                # the exact limit, one below and one above
                for t, ok in ((s - 1, False), (s, True), (s + 1, True)):
                    o2, _ = attempt(plan, tpl, t, 40000000, g)
                    if ok != (o2 == o) or (not ok and o2 != "failed"):
                        raise Violation("limit", "the first success on %s is attempt %d; with %d "
                                        "allowed the outcome is %s" % (ttxt, s, t, o2))
                ctx.count("probe:succeeded-late")
                first = s
    if boards.full_state(tpl) != before:
        raise Violation("template-changed", "generating from %s changed the template" % ttxt)
    if plan.get("default"):
        # the documented default is a limit like any other
        ctx.count("probe:default-limit")
        o2, _ = attempt(plan, tpl, None, 40000000, g)
        if o2 == "running":
            raise Violation("does-not-finish", "the default number of attempts on %s never ends" % ttxt)
        if o2 != "failed" and first is not None and o2 != outs.get(first, o2):
            raise Violation("more-tries", "the default number of attempts on %s gives another sudoku "
                            "than %d attempts under the same random stream" % (ttxt, first))
    ctx.nontrivial = any(o == "failed" for t, o in outs.items() if t > 0)
    ctx.count("fault:random-script-" + plan["script"]["mode"])
    ctx.cover(bw, bh, plan["kind"], plan["script"]["mode"], first)


class PerTask(object):
    """Gives every thread a random stream of its own."""

    def __init__(self, specs):
        self.spec = specs[0]
        self.scripts = [scripted.Script(s) for s in specs]

    def below(self, n):
        t = K.cur
        return self.scripts[t.idx if t.idx in range(len(self.scripts)) else 0].below(n)


def thread_specs(plan):
    s = plan["script"]
    return [s] + [dict(mode="uniform", seed=s.get("seed", 0) + i) for i in range(1, plan["threads"])]


def threaded(plan, ctx, tpl, before, g):
    """Every thread draws from its own stream, so its outcome is known from a run alone."""
    from sudokutools.generate import generate, generate_from_template
    ctx.count("probe:threads")
    ctx.nontrivial = True
    specs = thread_specs(plan)
    tries = plan["tries"]
    ttxt = boards.text(plan["bw"], plan["bh"], plan["grid"])
    alone = []
    for sp, t in zip(specs, tries):
        o = attempt(dict(plan, script=sp), tpl, t, 40000000, g)
        if t == 0 and o[0] != "failed":
            raise Violation("zero-tries", "zero attempts returned a sudoku for %s" % ttxt)
        alone.append(o)
        ctx.log(t, o[0], o[1])
    if boards.full_state(tpl) != before:
        raise Violation("template-changed", "generating from a template changed it")
    sc = PerTask(specs)
    got = {}

    def worker(i):
        def run():
            try:
                r = generate_from_template(tpl, tries[i])
            except RuntimeError as e:
                if isinstance(e, RecursionError):
                    raise
                got[i] = "failed"
                return
            busy, K.busy = K.busy, True
            try:
                got[i] = judge(plan, r, g)
            finally:
                K.busy = busy
        return run

    def other():
        generate(0, None, (2, 2))
    ts = [Task(i, other if i == 1 and plan["threads"] > 2 else worker(i))
          for i in range(plan["threads"])]
    K.start(cap=40000000)
    try:
        with scripted.installed(sc):
            K.run_tasks(ts, plan["schedule"])
        for t in ts:
            if t.exc is not None:
                raise t.exc
    except StepLimit:
        raise Violation("does-not-finish", "generation in threads did not finish")
    finally:
        K.stop()
    for i in sorted(got):
        o, d = alone[i]
        ctx.count("probe:thread-failed" if got[i] == "failed" else "probe:thread-succeeded")
        if (got[i] == "failed") != (o == "failed") or sc.scripts[i].draws != d:
            raise Violation("threads-limit", "with %d attempts allowed the template %s %s after %d random "
                            "values while other threads generate, but %s after %d when nobody else does "
                            "(same random stream)" % (
                                tries[i], ttxt, "fails" if got[i] == "failed" else "succeeds",
                                sc.scripts[i].draws, "fails" if o == "failed" else "succeeds", d))
    if boards.full_state(tpl) != before:
        raise Violation("template-changed", "generating from a template changed it")
    ctx.cover("threads", plan["bw"], plan["bh"], plan["kind"], plan["script"]["mode"],
              [bool(got.get(i) == "failed") for i in range(plan["threads"])])


def simplify(plan):
    for m in ("low", "high"):
        if plan["script"] != dict(mode=m):
            yield dict(plan, script=dict(mode=m))
    if plan.get("cands"):
        yield {k: v for k, v in plan.items() if k != "cands"}
    if plan.get("threads"):
        for i, t in enumerate(plan["tries"]):
            if t > 1:
                yield dict(plan, tries=plan["tries"][:i] + [t - 1] + plan["tries"][i + 1:])
        yield {k: v for k, v in plan.items() if k not in ("threads", "schedule", "tries")}
