"""C01: solution streams are complete, exact and independent."""
from .. import boards, ref
from ..engine import Violation, Inconclusive
from ..mon import K, Task, StepLimit

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("a case is a seeded plan: boards, solution streams (dlx or bruteforce) opened on "
        "them and an interleaving of next/close/drop/cut/edit operations, either in one "
        "thread or in 2-4 threads preempted at source lines; non-trivial when at least two "
        "streams were open at the same time or a caller edit or cut happened while a stream "
        "was open")
MEASURE = ("distinct (shapes, board kinds, methods, abandonment/edit/cut pattern, number of "
           "solutions bucket) tuples")
REAL = ["sudokutools.solve", "sudokutools.dlx", "sudokutools.sudoku", "interpreter generators",
        "real Python threads handed the baton by the simulator"]
STUB = ["thread scheduler (seeded baton)"]
ASSUME = ["preemption happens at source-line boundaries",
          "boards of at most 12 rows, at most 300 solutions each (up to 40 solutions are drawn "
          "from a board with more)",
          "the reference solver in dst/ref.py is correct"]
SHRINK = ("streams", "ops", "schedule", "boards")
PROBES = ["stream-exhausted", "interleaved", "edit-while-open", "edit-received", "multi-solution",
          "no-solution", "conflicting-givens", "cut-stream", "abandoned",
          "hundreds-of-solutions"]

SMALL = [(2, 2), (2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 3), (3, 1), (1, 1),
         (1, 2), (2, 1)]
BIG = [(3, 3), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (2, 5), (5, 2)]


def gen_board(rng, big):
    bw, bh = rng.choice(BIG if big else SMALL)
    n = bw * bh
    if big:
        kind = rng.choice(("unique", "unique", "few", "full", "conflict", "unsolvable", "pair"))
        if n > 10 and rng.random() < .4:
            kind = "pair"
        grid = boards.pick(rng, bw, bh, kind)
        if kind == "unique":
            grid = boards.thin(rng, bw, bh, grid, rng.choice((10, 20, 30)) if n < 10 else 40)
    else:
        kind = rng.choice(("unique", "few", "few", "many", "many", "full", "conflict",
                           "unsolvable", "empty"))
        if kind == "empty" and n > 4:
            kind = "many"
        grid = boards.pick(rng, bw, bh, kind)
    b = dict(bw=bw, bh=bh, kind=kind, grid=list(grid), alts=[])
    for _ in range(rng.choice((0, 0, 1, 2))):
        k2 = rng.choice(("unique", "few", "full", "conflict"))
        b["alts"].append(list(boards.pick(rng, bw, bh, k2)))
    if rng.random() < 0.5:
        b["cands"] = boards.random_cands(rng, n)
    return b


FLOOD = 2600


def gen_flood(rng):
    """A board with hundreds or thousands of solutions, all of them asked for."""
    bw, bh = rng.choice(((2, 3), (3, 2)))
    g = ref.geo(bw, bh)
    grid = list(boards.pick(rng, bw, bh, rng.choice(("unique", "many"))))
    f = [i for i, v in enumerate(grid) if v]
    rng.shuffle(f)
    want = rng.choice((300, 600, 1100))
    for i in f:
        old = grid[i]
        grid[i] = 0
        try:
            k = len(ref.solutions(g, grid, FLOOD + 1, budget=200000))
        except ref.TooMany:
            k = FLOOD + 1
        if k > FLOOD:
            grid[i] = old
        elif k > want:
            break
    return dict(bw=bw, bh=bh, kind="flood", grid=grid, alts=[])


def gen(rng, tier):
    if rng.random() < .015:
        ops = [["open", 0, 0, rng.choice(("dlx", "dlx", "bruteforce"))]]
        if rng.random() < .3:
            ops.append(["open", 1, 0, "dlx"])
        return dict(boards=[gen_flood(rng)], threads=False, flood=True, ops=ops + [["next", 0, 3 * FLOOD]])
    threads = rng.random() < 0.35
    big = rng.random() < (0.2 if tier == "quick" else 0.35)
    nb = rng.choice((1, 1, 2, 2, 3))
    bs = [gen_board(rng, big and (i == 0 or rng.random() < .3)) for i in range(nb)]
    if nb > 1 and rng.random() < .4:
        t = boards.twin_spec(rng, bs[0])
        if t:
            bs[1] = dict(t, alts=bs[1]["alts"] if t["bw"] == bs[1]["bw"] and t["bh"] == bs[1]["bh"] else [])
            bs[1].pop("cands", None)
    plan = dict(boards=bs, threads=threads)
    if threads:
        tasks = []
        for t in range(rng.randint(2, 4)):
            tasks.append(dict(ops=gen_ops(rng, bs, rng.randint(1, 2), True)))
        plan["tasks"] = tasks
        plan["schedule"] = [[rng.randrange(len(tasks)), rng.choice((1, 1, 2, 3, 7, 20, 100, 700))]
                            for _ in range(rng.randint(2, 40))]
    else:
        plan["ops"] = gen_ops(rng, bs, rng.randint(1, 5), False)
    return plan


def gen_ops(rng, bs, ns, threaded):
    ops = []
    live = []
    sid = 0
    left = ns
    for _ in range(rng.randint(4, 40)):
        x = rng.random()
        if left and (not live or x < 0.25):
            ops.append(["open", sid, rng.randrange(len(bs)), rng.choice(("dlx", "bruteforce"))])
            live.append(sid)
            sid += 1
            left -= 1
        elif live and x < 0.62:
            ops.append(["next", rng.choice(live), rng.choice((1, 1, 1, 2, 3, 8, 40))])
        elif live and x < 0.66:
            ops.append([rng.choice(("close", "drop")), live.pop(rng.randrange(len(live)))])
        elif live and x < 0.70:
            ops.append(["cut", live.pop(rng.randrange(len(live))),
                        rng.choice((1, 3, 10, 40, 100, 400, 2000, 6000)),
                        rng.choice(("interrupt", "memory", "recursion"))])
        elif x < 0.80 and not threaded:
            b = rng.randrange(len(bs))
            ops.append(["edit", b, rng.randrange(-1, len(bs[b]["alts"])), rng.randrange(1 << 16)])
        elif live and x < 0.92:
            ops.append(["scribble", rng.choice(live), rng.randrange(8), rng.randrange(1 << 16)])
    return ops


class Stream(object):
    def __init__(self, sid, it, grid, b, method):
        self.sid, self.it, self.grid, self.b, self.method = sid, it, grid, b, method
        self.got = []          # package objects
        self.seen = {}         # numbers -> index
        self.snap = []         # current expected numbers of each received object
        self.done = False
        self.dead = False


class World(object):
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.spec = plan["boards"]
        self.pkg = [boards.build(b["bw"], b["bh"], b["grid"], b.get("cands")) for b in self.spec]
        self.grids = [tuple(b["grid"]) for b in self.spec]
        self.sets = {}
        self.lim = FLOOD if plan.get("flood") else 400
        self.streams = []

    def expected(self, b, grid):
        key = (b, grid)
        if key not in self.sets:
            g = ref.geo(self.spec[b]["bw"], self.spec[b]["bh"])
            self.sets[key] = dict.fromkeys(ref.solutions(g, grid, self.lim + 1, budget=400000))
        return self.sets[key]

    def pull(self, st, k):
        """Ask for k solutions and judge each."""
        for _ in range(k):
            try:
                s = next(st.it)
            except StopIteration:
                if not st.done:
                    st.done = True
                    K.busy = True
                    try:
                        self.finished(st)
                    finally:
                        K.busy = False
                return
            K.busy = True
            try:
                self.receive(st, s)
            finally:
                K.busy = False

    def receive(self, st, s):
        spec = self.spec[st.b]
        name = "stream %d (%s on board %d, %s)" % (
            st.sid, st.method, st.b, boards.text(spec["bw"], spec["bh"], st.grid))
        if st.done:
            raise Violation("item-after-end", name + " delivered an item after its end")
        if boards.shape(s) != (spec["bw"], spec["bh"]):
            raise Violation("wrong-shape", name + " delivered box size %r" % (boards.shape(s),))
        v = boards.nums(s)
        sols = self.expected(st.b, st.grid)
        if len(sols) <= self.lim:
            if v not in sols:
                raise Violation("not-a-solution", "%s delivered %s which is not a solution" % (
                    name, boards.text(spec["bw"], spec["bh"], v)))
        else:
            g = ref.geo(spec["bw"], spec["bh"])
            if 0 in v or ref.conflicts(g, v) or any(a and a != b for a, b in zip(st.grid, v)):
                raise Violation("not-a-solution", name + " delivered a non-solution")
        if v in st.seen:
            raise Violation("duplicate", "%s delivered %s twice" % (
                name, boards.text(spec["bw"], spec["bh"], v)))
        if any(s is o for o in st.got) or any(s is p for p in self.pkg):
            raise Violation("aliased", name + " delivered an object it had already handed out")
        st.seen[v] = len(st.got)
        st.got.append(s)
        st.snap.append((v, None))

    def finished(self, st):
        spec = self.spec[st.b]
        sols = self.expected(st.b, st.grid)
        self.ctx.count("probe:stream-exhausted")
        if not sols:
            self.ctx.count("probe:no-solution")
            if ref.conflicts(ref.geo(spec["bw"], spec["bh"]), st.grid):
                self.ctx.count("probe:conflicting-givens")
        elif len(sols) > 1:
            self.ctx.count("probe:multi-solution")
            if len(sols) > 400:
                self.ctx.count("probe:hundreds-of-solutions")
        if len(sols) <= self.lim and len(st.seen) != len(sols):
            miss = [v for v in sols if v not in st.seen][0]
            raise Violation("missing", "stream %d (%s on %s) ended after %d of %d solutions; "
                            "missing e.g. %s" % (
                                st.sid, st.method, boards.text(spec["bw"], spec["bh"], st.grid),
                                len(st.seen), len(sols), boards.text(spec["bw"], spec["bh"], miss)))

    def audit(self):
        """Everything delivered so far still is what it was."""
        for st in self.streams:
            for s, (v, c) in zip(st.got, st.snap):
                if boards.nums(s) != v or (c is not None and boards.cands(s) != c):
                    raise Violation("delivered-changed", "a solution delivered by stream %d (%s) "
                                    "changed later" % (st.sid, st.method))


def run_ops(w, ops, ctx, base, final):
    import random
    from sudokutools.solve import bruteforce, dlx
    mine = {}
    for op in ops:
        kind = op[0]
        if kind == "edit":
            b = op[1]
            if b >= len(w.pkg):
                continue
            K.busy = True
            spec = w.spec[b]
            n = spec["bw"] * spec["bh"]
            grid = spec["grid"] if op[2] < 0 else spec["alts"][op[2]]
            for i, v in enumerate(grid):
                w.pkg[b][i // n, i % n] = v
            r = random.Random(op[3])
            if r.random() < 0.5:
                for i, c in enumerate(boards.random_cands(r, n)):
                    w.pkg[b].set_candidates(i // n, i % n, c)
            w.grids[b] = tuple(grid)
            K.busy = False
            if any(not st.done and not st.dead and st.b == b for st in w.streams):
                ctx.count("probe:edit-while-open")
                ctx.nontrivial = True
            continue
        if kind == "open":
            if op[2] >= len(w.pkg) or op[1] in mine:
                continue
            fn = dlx if op[3] == "dlx" else bruteforce
            st = Stream(base + op[1], fn(w.pkg[op[2]]), w.grids[op[2]], op[2], op[3])
            mine[op[1]] = st
            w.streams.append(st)
            w.pull(st, 1)
            ctx.log("open", st.sid, len(st.got))
            continue
        st = mine.get(op[1])
        if st is None or st.dead:
            continue
        if kind == "next":
            w.pull(st, op[2])
            if len([x for x in w.streams if not x.done and not x.dead]) > 1:
                ctx.count("probe:interleaved")
                ctx.nontrivial = True
            ctx.log("next", st.sid, len(st.got), st.done)
        elif kind == "close":
            st.it.close()
            st.dead = True
            ctx.count("probe:abandoned")
        elif kind == "drop":
            st.it = None
            st.dead = True
            ctx.count("probe:abandoned")
        elif kind == "cut":
            t = K.cur
            t.fault = (t.steps + op[2], op[3], None)
            t.fault_fired = None
            try:
                w.pull(st, 1)
            except (KeyboardInterrupt, MemoryError, RecursionError):
                ctx.count("fault:" + op[3])
                ctx.count("probe:cut-stream")
                ctx.nontrivial = True
            t.fault = None
            if t.fault_fired:
                st.dead = True
                st.it = None
        elif kind == "scribble":
            K.busy = True
            if st.got:
                s = st.got[op[2] % len(st.got)]
                r = random.Random(op[3])
                n = s.box_width * s.box_height
                for _ in range(3):
                    s[r.randrange(n), r.randrange(n)] = r.randrange(n + 1)
                    s.set_candidates(r.randrange(n), r.randrange(n), [1])
                st.snap[op[2] % len(st.got)] = (boards.nums(s), boards.cands(s))
                ctx.count("probe:edit-received")
                if not st.done:
                    ctx.nontrivial = True
            K.busy = False
    if final:
        for st in list(mine.values()):
            if not st.dead and not st.done:
                w.pull(st, w.lim + 2)
            if not st.dead:
                w.pull(st, 1)      # stays exhausted


def execute(plan, ctx):
    w = World(plan, ctx)
    before = [boards.full_state(p) for p in w.pkg]
    K.start(cap=600000000 if plan.get("flood") else 60000000)
    try:
        if plan["threads"]:
            ts = []
            for i, t in enumerate(plan["tasks"]):
                ts.append(Task(i, (lambda t=t, i=i: run_ops(w, t["ops"], ctx, 100 * i, True))))
            K.run_tasks(ts, plan["schedule"])
            for t in ts:
                if t.exc is not None:
                    raise t.exc
            ctx.nontrivial = ctx.nontrivial or K.switches > 1
        else:
            run_ops(w, plan["ops"], ctx, 0, True)
    except StepLimit:
        if plan.get("flood"):
            raise Inconclusive("step budget")
        raise Violation("no-progress", "a solution stream did not deliver within %d steps" % K.steps)
    finally:
        K.stop()
    w.audit()
    if plan["threads"]:
        for p, b in zip(w.pkg, before):
            if boards.full_state(p) != b:
                raise Violation("input-changed", "a sudoku was changed by enumerating its solutions")
    ctx.cover([(b["bw"], b["bh"], b["kind"]) for b in plan["boards"]],
              sorted((s.method, s.done, s.dead, min(3, len(s.got))) for s in w.streams))
    ctx.log([(s.sid, len(s.got), s.done) for s in w.streams])


def simplify(plan):
    if plan["threads"] and plan.get("tasks"):
        for i, t in enumerate(plan["tasks"]):
            if not t["ops"]:
                continue
            p = dict(plan, threads=False, ops=t["ops"])
            yield p
        yield dict(plan, schedule=[[i, 1] for i in range(len(plan["tasks"]))])
    for i, b in enumerate(plan["boards"]):
        if b.get("cands"):
            bs = list(plan["boards"])
            bs[i] = {k: v for k, v in b.items() if k != "cands"}
            yield dict(plan, boards=bs)
