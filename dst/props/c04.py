"""C04: solve steps stay sound in any order of finding and applying."""
from itertools import cycle, islice

from .. import boards, readers, ref
from ..engine import Violation
from ..mon import K, Task, StepLimit

RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("a case is a seeded plan: one solvable puzzle, 1-4 replicas of it at random stages with "
        "random candidate supersets, searches (find/hints iterators) on the replicas and a "
        "delivery schedule that applies the found steps now, late, out of order, repeatedly, on "
        "other replicas, or never; optionally from 2-3 threads, or in turns with a second puzzle that "
        "has something essential in common (same digits in other boxes, transposed, ...); non-trivial when at least one step "
        "was applied late, repeatedly or on another replica")
MEASURE = "distinct (shape, number of solutions, step class, delivery kind) tuples"
REAL = ["sudokutools.solvers", "sudokutools.solve", "sudokutools.dlx", "sudokutools.sudoku",
        "real Python threads"]
STUB = ["delivery of steps between searches and replicas", "thread scheduler (seeded baton)"]
ASSUME = ["puzzles have at most 60 solutions, all computed by the reference solver"]
SHRINK = ("ops", "schedule", "replicas")
PROBES = ["applied-late", "applied-elsewhere", "applied-twice", "search-continues", "apply-all",
          "multi-solution", "two-puzzles", "fish", "tuple", "pointing", "threads"]

SHAPES = [(2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (3, 3), (3, 3), (3, 3), (2, 4), (4, 2), (1, 4), (4, 1)]


def gen(rng, tier):
    bw, bh = rng.choice(SHAPES)
    g = ref.geo(bw, bh)
    kind = rng.choice(("unique", "unique", "hard", "few", "many"))
    grid = boards.pick(rng, bw, bh, kind)
    sols = ref.solutions(g, grid, 61, budget=400000)
    while len(sols) > 60:
        grid = boards.pick(rng, bw, bh, "unique")
        sols = ref.solutions(g, grid, 61, budget=400000)
    if rng.random() >= .25:
        return part(rng, bw, bh, grid, sols, rng.random() < .2)
    # another puzzle that is easily confused with the first one, worked on in turns
    plan = part(rng, bw, bh, grid, sols, False)
    x = boards.twin_spec(rng, dict(bw=bw, bh=bh, grid=list(grid)))
    if x is None or x["kind"] not in ("unique", "few"):
        w, h = rng.choice([(bh, bw)] + [q for q in SHAPES if q[0] * q[1] == bw * bh])
        x = dict(bw=w, bh=h, grid=list(boards.pick(rng, w, h, "unique")))
    sols = ref.solutions(ref.geo(x["bw"], x["bh"]), x["grid"], 61, budget=400000)
    if 0 < len(sols) <= 60:
        plan["twin"] = part(rng, x["bw"], x["bh"], x["grid"], sols, False)
        plan["turns"] = [rng.choice((1, 1, 2, 5, 20, 60)) for _ in range(rng.randint(1, 10))]
    return plan


def part(rng, bw, bh, grid, sols, threads):
    n = bw * bh
    g = ref.geo(bw, bh)
    reps = []
    base = ref.candidates(g, grid)
    for r in range(rng.choice((1, 2, 2, 3, 4))):
        g2 = list(grid)
        p = rng.choice((0, 0, .1, .3, .6, .85))
        for i in range(n * n):
            vals = {s[i] for s in sols}
            if not g2[i] and len(vals) == 1 and rng.random() < p:
                g2[i] = vals.pop()
        style = rng.choice(("rules", "rules", "given-rules", "tight", "random", "loose", "full"))
        q = rng.choice((.05, .15, .3, .5))
        now = ref.candidates(g, g2)
        cs = []
        for i in range(n * n):
            must = {s[i] for s in sols}
            if g2[i] and not (style in ("random", "loose") and rng.random() < .1):
                c = {g2[i]}
            elif style == "rules":
                c = set(now[i]) | must
            elif style == "given-rules":
                c = set(base[i]) | must
            elif style == "tight":
                c = must | {v for v in now[i] if rng.random() < q}
            elif style == "random":
                c = must | {v for v in range(1, n + 1) if rng.random() < q}
            elif style == "loose":
                c = set(range(1, n + 1)) if rng.random() < .5 else set(now[i]) | must
            else:
                c = set(range(1, n + 1))
            cs.append(sorted(c))
        reps.append(dict(grid=g2, cands=cs))
    names = list(readers.solver_names())
    if len(sols) > 1:
        names = [x for x in names if x != "Bruteforce"]
    names = [x for x in names if x != "CalculateCandidates"] + ["hints"]
    fish = [x for x in names if x in ("XWing", "Swordfish", "Jellyfish")]
    plan = dict(bw=bw, bh=bh, grid=list(grid), replicas=reps, threads=threads)
    focus = rng.sample(names, rng.randint(1, 4)) if rng.random() < .4 else names
    if rng.random() < .15:
        focus = fish

    def ops(k):
        out = []
        aid = 0
        for _ in range(k):
            x = rng.random()
            if x < .18 or aid == 0:
                out.append(["find", aid, rng.randrange(len(reps)), rng.choice(focus)])
                aid += 1
                out.append(["next", aid - 1, rng.choice((1, 1, 2, 5))])
            elif x < .40:
                out.append(["now", rng.randrange(aid), rng.choice((1, 1, 2, 4)), rng.choice((1, 1, 2))])
            elif x < .58:
                out.append(["next", rng.randrange(aid), rng.choice((1, 2, 4))])
            elif x < .90:
                out.append(["apply", rng.randrange(1 << 10), rng.choice((-1, -1, 0, 1, 2, 3)),
                            rng.choice((1, 1, 1, 2, 3))])
            elif x < .94:
                out.append(["applyall", rng.randrange(len(reps)), rng.choice(focus)])
            elif x < .97:
                out.append(["clone", rng.randrange(len(reps)), rng.randrange(len(reps))])
            else:
                out.append(["round", rng.randrange(len(reps)), rng.randrange(1 << 10)])
        return out
    if threads:
        plan["tasks"] = [dict(ops=ops(rng.randint(4, 15))) for _ in range(rng.randint(2, 3))]
        plan["schedule"] = [[rng.randrange(len(plan["tasks"])), rng.choice((1, 1, 2, 4, 9, 30, 200))]
                            for _ in range(rng.randint(2, 40))]
    else:
        plan["ops"] = ops(rng.randint(6, 50))
    return plan


class World(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.bw, self.bh = plan["bw"], plan["bh"]
        self.n = self.bw * self.bh
        self.g = ref.geo(self.bw, self.bh)
        self.sols = ref.solutions(self.g, plan["grid"], 61, budget=400000)
        self.reps = [boards.build(self.bw, self.bh, r["grid"], r["cands"]) for r in plan["replicas"]]
        self.steps = []          # (step, replica index, sequence number)
        self.version = [0] * len(self.reps)
        self.must = [{s[i] for s in self.sols} for i in range(self.n * self.n)]
        self.states = [boards.full_state(r) for r in self.reps]
        self.cloned = set()

    def sound(self, i, why):
        st = boards.full_state(self.reps[i])
        for j, (v, c) in enumerate(zip(st[2], st[3])):
            if v and self.must[j] != {v}:
                raise Violation("unsound-number", "%s set field %s of replica %d to %d, but the "
                                "solutions of %s have %s there" % (
                                    why, divmod(j, self.n), i, v,
                                    boards.text(self.bw, self.bh, self.plan["grid"]),
                                    sorted(self.must[j])))
            if not self.must[j] <= c:
                raise Violation("unsound-candidate", "%s left the candidates %s in field %s of "
                                "replica %d, but the solutions of %s have %s there" % (
                                    why, sorted(c), divmod(j, self.n), i,
                                    boards.text(self.bw, self.bh, self.plan["grid"]),
                                    sorted(self.must[j])))
        return st

    def after(self, i, why, threaded):
        busy, K.busy = K.busy, True
        try:
            st = self.sound(i, why)
            if not threaded:
                for j, r in enumerate(self.reps):
                    if j != i and boards.full_state(r) != self.states[j]:
                        raise Violation("wrong-replica", "%s on replica %d changed replica %d" % (why, i, j))
                old, self.states[i] = self.states[i], st
                for j, (a, b) in enumerate(zip(old[3], st[3])):
                    if not b <= a:
                        raise Violation("candidate-returned", "%s gave the candidates %s back to "
                                        "field %s of replica %d, which had %s" % (
                                            why, sorted(b - a), divmod(j, self.n), i, sorted(a)))
                    if old[2][j] and st[2][j] != old[2][j]:
                        raise Violation("number-lost", "%s replaced the number %d in field %s of "
                                        "replica %d by %d" % (
                                            why, old[2][j], divmod(j, self.n), i, st[2][j]))
                return old, st
        finally:
            K.busy = busy
        return None, st


def searcher(w, name, i):
    from sudokutools import solvers
    if name == "hints":
        return solvers.hints(w.reps[i])
    return readers.solver_class(name).find(w.reps[i])


def run_ops(w, ops, ctx, threaded):
    agents = {}
    steps = []
    multi = len(w.sols) > 1

    def get(aid, k):
        a = agents[aid]
        out = []
        for _ in range(k):
            if a[2]:
                break
            try:
                s = next(a[0])
            except StopIteration:
                a[2] = True
                break
            nm = type(s).__name__
            if nm == "CalculateCandidates":
                # only fields without candidates; none exist at rest, but a
                # thread may be seen between two of its own actions
                if not threaded:
                    raise Violation("unexpected-step", "candidates are set in every field, yet "
                                    "%s was reported" % s)
                continue
            steps.append((s, a[1]))
            out.append(s)
            cov(nm)
        return out

    def cov(nm):
        if "Fish" in nm or nm in ("XWing", "Swordfish", "Jellyfish"):
            ctx.count("probe:fish")
        elif nm.startswith("Pointing"):
            ctx.count("probe:pointing")
        elif nm.endswith(("Pair", "Triple", "Quad", "Quint")):
            ctx.count("probe:tuple")

    def put(s, i, times, kind):
        why = "%s (applied %s)" % (s, kind)
        s.apply(w.reps[i])
        old, st = w.after(i, why, threaded)
        ctx.cover(w.bw, w.bh, min(len(w.sols), 3), type(s).__name__, kind)
        for _ in range(times - 1):
            s.apply(w.reps[i])
            ctx.count("probe:applied-twice")
            old2, st2 = w.after(i, why + " again", threaded)
            if not threaded and st2 != st:
                raise Violation("not-idempotent", "applying %s a second time changed the sudoku "
                                "again" % (s,))
        return old, st

    for op in ops:
        kind = op[0]
        if kind == "find":
            if op[2] < len(w.reps):
                agents[op[1]] = [searcher(w, op[3], op[2]), op[2], False, op[3]]
        elif kind == "next":
            if op[1] in agents:
                get(op[1], op[2])
        elif kind == "now":
            if op[1] in agents:
                for _ in range(op[2]):
                    got = get(op[1], 1)
                    if not got:
                        break
                    old, st = put(got[0], agents[op[1]][1], op[3], "at-once")
                    if not threaded and old == st:
                        raise Violation("no-effect", "%s applied to the sudoku it was just found "
                                        "on changed nothing" % (got[0],))
                    ctx.count("probe:search-continues")
        elif kind == "apply":
            if steps:
                s, home = steps[op[1] % len(steps)]
                i = home if op[2] < 0 else op[2] % len(w.reps)
                if i != home:
                    ctx.count("probe:applied-elsewhere")
                else:
                    ctx.count("probe:applied-late")
                ctx.nontrivial = True
                put(s, i, op[3], "late" if i == home else "elsewhere")
                ctx.log("apply", str(s), i)
        elif kind == "applyall":
            i = op[1] % len(w.reps)
            if op[2] != "hints":
                ctx.count("probe:apply-all")
                readers.solver_class(op[2]).apply_all(w.reps[i])
                w.after(i, op[2] + ".apply_all", threaded)
        elif kind == "clone":
            i, j = op[1] % len(w.reps), op[2] % len(w.reps)
            if i != j and not threaded:
                # replica j restarts as a copy of replica i; old searches go on
                # on the sudoku that is no longer a replica
                for a in list(agents):
                    if agents[a][1] == j:
                        del agents[a]
                steps[:] = [(s, i if h == j else h) for s, h in steps]
                w.reps[j] = w.reps[i].copy(include_candidates=True)
                busy, K.busy = K.busy, True
                w.states[j] = boards.full_state(w.reps[j])
                K.busy = busy
                if w.states[j] != w.states[i]:
                    raise Violation("copy", "a copy with candidates differs from its original")
        elif kind == "round":
            # what a solver loop does, one class at a time
            i = op[1] % len(w.reps)
            for s in islice(searcher(w, "hints", i), 6):
                old, st = put(s, i, 1, "at-once")
                if not threaded and old == st:
                    raise Violation("no-effect", "%s applied to the sudoku it was just found on "
                                    "changed nothing" % (s,))
        yield
    if multi:
        ctx.count("probe:multi-solution")
    ctx.log(len(steps), [str(s) for s, _ in steps][:20])


def execute(plan, ctx):
    ws = [World(x, ctx) for x in (plan, plan.get("twin")) if x]
    ws = [w for w in ws if 0 < len(w.sols) <= 60]
    if not ws:
        return
    w = ws[0]
    K.start(cap=40000000)
    try:
        if plan["threads"]:
            ctx.count("probe:threads")
            ctx.nontrivial = True
            ts = [Task(i, (lambda t=t: list(run_ops(w, t["ops"], ctx, True))))
                  for i, t in enumerate(plan["tasks"])]
            K.run_tasks(ts, plan["schedule"])
            for t in ts:
                if t.exc is not None:
                    raise t.exc
        else:
            todo = [run_ops(x, x.plan["ops"], ctx, False) for x in ws]
            if len(ws) > 1:
                ctx.count("probe:two-puzzles")
            turns = cycle(plan.get("turns") or [1000])
            while todo:
                it = todo.pop(0)
                k = max(1, next(turns))
                if sum(1 for _ in islice(it, k)) == k:
                    todo.append(it)
    except StepLimit:
        raise Violation("no-progress", "searching or applying did not finish within %d steps" % K.steps)
    finally:
        K.stop()
    for w in ws:
        for i in range(len(w.reps)):
            w.sound(i, "the run")
            ctx.log(i, str(boards.full_state(w.reps[i])))


def simplify(plan):
    if plan["threads"]:
        for t in plan["tasks"]:
            yield dict(plan, threads=False, ops=t["ops"])
        yield dict(plan, schedule=[[i, 1] for i in range(len(plan["tasks"]))])
    if plan.get("twin"):
        yield {k: v for k, v in plan.items() if k != "twin"}
        yield plan["twin"]
        t = plan["twin"]
        for i in range(len(t["ops"])):
            yield dict(plan, twin=dict(t, ops=t["ops"][:i] + t["ops"][i + 1:]))
