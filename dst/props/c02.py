"""C02: reading calls never disturb the sudoku they are given."""
from .. import boards, readers, ref
from ..engine import Violation, isolated
from ..mon import K, Task, StepLimit

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("a case is a seeded plan: 1-2 boards (arbitrary shape, givens and candidate sets), "
        "reading calls issued by 1-4 threads on the same boards under a seeded schedule, or "
        "reading iterators advanced alternately; non-trivial when at least two calls were in "
        "progress on one board at the same time")
MEASURE = "distinct (shape, board kind, set of calls in progress together) tuples"
REAL = ["sudokutools.solve", "sudokutools.dlx", "sudokutools.solvers", "sudokutools.analyze",
        "sudokutools.generate", "sudokutools.sudoku", "real Python threads"]
STUB = ["thread scheduler (seeded baton)"]
ASSUME = ["the board is observed at every executed source line of the package, not inside a line",
          "the answer a call 'would have got alone' is the one it gives in a forked copy of the "
          "process on an equal board"]
SHRINK = ("ops", "schedule", "tasks")
PROBES = ["polls", "two-calls-on-one-board", "iterator-step"]

SMALL = [(2, 2), (2, 3), (3, 2), (2, 2), (1, 4), (4, 1)]
BIG = [(3, 3), (2, 4), (4, 2), (3, 4)]


def gen_board(rng):
    big = rng.random() < 0.22
    bw, bh = rng.choice(BIG if big else SMALL)
    n = bw * bh
    kind = rng.choice(("unique", "unique", "unique", "few", "full", "conflict", "unsolvable", "pair"))
    if big and kind == "unsolvable":
        kind = "conflict"
    grid = boards.pick(rng, bw, bh, kind)
    if big and kind in ("unique", "few", "conflict"):
        grid = boards.thin(rng, bw, bh, grid, rng.choice((12, 25)) if n < 10 else 35)
    g = ref.geo(bw, bh)
    x = rng.random()
    if x < 0.45:
        cands = [sorted(c) for c in ref.candidates(g, grid)]
        if rng.random() < 0.5:
            for i in rng.sample(range(n * n), rng.randint(0, n)):
                cands[i] = []
        if rng.random() < 0.3:
            for i in rng.sample(range(n * n), rng.randint(0, n)):
                cands[i] = [v for v in cands[i] if rng.random() < .8]
    elif x < 0.7:
        cands = None
    else:
        cands = boards.random_cands(rng, n)
    return dict(bw=bw, bh=bh, kind=kind, grid=list(grid), cands=cands)


def gen(rng, tier):
    bs = [gen_board(rng) for _ in range(rng.choice((1, 1, 2)))]
    if len(bs) == 2 and rng.random() < 0.5:
        # same shape, so that comparing and diffing is meaningful
        bs[1] = dict(bs[0], grid=list(bs[0]["grid"]))
        n = bs[0]["bw"] * bs[0]["bh"]
        for i in rng.sample(range(n * n), rng.randint(0, 4)):
            bs[1]["grid"][i] = 0
    elif len(bs) == 2 and rng.random() < 0.6:
        t = boards.twin_spec(rng, bs[0])
        if t:
            bs[1] = t
    plan = dict(boards=bs, template_pattern=0)
    names = sorted(readers.OPS)
    mode = rng.choice(("threads", "threads", "threads", "iters", "single"))
    plan["mode"] = mode
    if mode == "iters":
        ops = []
        for i in range(rng.randint(2, 5)):
            ops.append(["open", i, rng.choice(readers.ITERS), rng.randrange(len(bs)), rng.randrange(40)])
        for _ in range(rng.randint(5, 60)):
            ops.append(["next", rng.randrange(5)])
        plan["ops"] = ops
        return plan
    nt = 1 if mode == "single" else rng.randint(2, 4)
    # often the same few calls meet each other
    few = names
    if nt > 1 and rng.random() < .5:
        few = rng.sample(names if rng.random() < .5 else sorted(readers.HEAVY), rng.choice((1, 1, 2)))
    heavy = 0
    plan["tasks"] = []
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, 4) if nt > 1 else rng.randint(2, 8)):
            name = rng.choice(few)
            if name in readers.HEAVY:
                heavy += 1
                if heavy > 4:
                    continue
            ops.append([name, rng.randrange(len(bs)), rng.randrange(40)])
        plan["tasks"].append(dict(ops=ops))
    plan["schedule"] = [[rng.randrange(nt), rng.choice((1, 1, 2, 3, 5, 11, 50, 300, 2000, 9000))]
                        for _ in range(rng.randint(2, 60))]
    return plan


class Watch(object):
    """Notices any change of the watched boards at the line it happens."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.polls = 0
        self.fast = []
        self.slow = []
        self.ref = [boards.full_state(p) for p in pkg]
        for p, st in zip(pkg, self.ref):
            d = getattr(p, "__dict__", {})
            a, b = d.get("_Sudoku__numbers"), d.get("_Sudoku__candidates")
            try:
                ok = ([x for row in a for x in row] == list(st[2])
                      and [frozenset(x) for row in b for x in row] == list(st[3]))
            except TypeError:
                ok = False
            if ok:
                self.fast.append((p, a, b, [list(r) for r in a], [list(r) for r in b]))
            else:
                self.slow.append((p, st))
        self.bad = None
        self.live = [x for f in self.fast for x in f[1:3]]
        self.saved = [x for f in self.fast for x in f[3:5]]
        n = max(len(p) for p in pkg)
        self.stride = 1 if n <= 36 else 3 if n <= 81 else 5

    def __call__(self, code, line):
        self.polls += 1
        if self.stride > 1 and self.polls % self.stride:
            return
        if self.live != self.saved:
            for p, a, b, a0, b0 in self.fast:
                if a != a0 or b != b0:
                    self.report(p, code, line)
        if self.polls % 7 == 0:
            for p, a, b, a0, b0 in self.fast:
                d = p.__dict__
                if d.get("_Sudoku__numbers") is not a and d.get("_Sudoku__numbers") != a0 \
                        or d.get("_Sudoku__candidates") is not b and d.get("_Sudoku__candidates") != b0:
                    self.report(p, code, line)
        if self.slow and (self.polls < 20000 or self.polls % 50 == 0):
            for p, st in self.slow:
                if boards.full_state(p) != st:
                    self.report(p, code, line)

    def report(self, p, code, line):
        if self.bad is None:
            i = [j for j, q in enumerate(self.pkg) if q is p][0]
            self.bad = (i, code.co_name, K.cur.name)
            raise Violation("disturbed", "board %d was seen changed while %s was inside %s "
                            "(a reading call)" % (i, K.cur.name, code.co_name))

    def final(self):
        for i, (p, st) in enumerate(zip(self.pkg, self.ref)):
            if boards.full_state(p) != st:
                raise Violation("disturbed", "board %d differs after the reading calls" % i)
            n = st[0] * st[1]
            if tuple(p.box_size) != (st[0], st[1]) or tuple(p.indices) != tuple(range(n)) \
                    or tuple(p.numbers) != tuple(range(1, n + 1)):
                raise Violation("disturbed", "shape attributes of board %d differ after the "
                                "reading calls" % i)


def mk(plan):
    return [boards.build(b["bw"], b["bh"], b["grid"], b["cands"]) for b in plan["boards"]]


def partner(pkg, b):
    """The board that board b is compared with: one of the same shape."""
    o = pkg[(b + 1) % len(pkg)]
    return o if boards.shape(o) == boards.shape(pkg[b]) else pkg[b]


def alone(plan, name, b, k):
    def f():
        pkg = mk(plan)
        if b >= len(pkg):
            return None
        K.reset()
        K.start(cap=20000000)
        r = readers.OPS[name](pkg[b], k, partner(pkg, b))
        K.stop()
        return r
    return isolated(f)


def judge_alone(plan, name, b, res):
    """A few answers are also compared with the rules directly."""
    sp = plan["boards"][b]
    g = ref.geo(sp["bw"], sp["bh"])
    if name == "unique":
        exp = len(ref.solutions(g, sp["grid"], 2, budget=300000)) == 1
    elif name == "solved":
        exp = 0 not in sp["grid"] and not ref.conflicts(g, sp["grid"])
    elif name == "conflicts":
        exp = tuple(sorted(ref.conflicts(g, sp["grid"])))
        res = tuple(sorted(res))
    else:
        return
    if res != exp:
        raise Violation("wrong-answer:" + name, "%s on %s answered %r instead of %r" % (
            name, boards.text(sp["bw"], sp["bh"], sp["grid"]), res, exp))


def execute(plan, ctx):
    pkg = mk(plan)
    watch = Watch(pkg)
    if plan["mode"] == "iters":
        return iters(plan, ctx, pkg, watch)
    base = {}
    for t in plan["tasks"]:
        for name, b, k in t["ops"]:
            key = (name, b, k)
            if b < len(pkg) and key not in base and name != "template":
                base[key] = alone(plan, *key)
                if base[key][0] in ("hang", "limit", "died"):
                    raise Violation("no-answer:" + name, "%s on %s gave no answer (%s)" % (
                        name, boards.text(plan["boards"][b]["bw"], plan["boards"][b]["bh"],
                                          plan["boards"][b]["grid"]), base[key][0]))
    results = []
    active = {}
    together = set()

    def body(ti, ops):
        for name, b, k in ops:
            if b >= len(pkg):
                continue
            active[ti] = (name, b)
            both = sorted(v[0] for v in active.values() if v[1] == b)
            if len(both) > 1:
                ctx.count("probe:two-calls-on-one-board")
                ctx.nontrivial = True
                together.add((b,) + tuple(both))
            try:
                r = ("ok", readers.OPS[name](pkg[b], k, partner(pkg, b)))
            except Violation:
                raise
            except Exception as e:
                r = ("exc", type(e).__name__, str(e))
            active.pop(ti)
            results.append((ti, name, b, k, r))

    K.observer = watch
    K.start(cap=40000000)
    try:
        ts = [Task(i, (lambda i=i, t=t: body(i, t["ops"])), "thread %d" % i)
              for i, t in enumerate(plan["tasks"])]
        K.run_tasks(ts, plan["schedule"])
        for t in ts:
            if t.exc is not None:
                raise t.exc
    except StepLimit:
        raise Violation("no-answer", "reading calls in threads did not finish within %d steps" % K.steps)
    finally:
        K.stop()
        K.observer = None
    ctx.count("probe:polls", watch.polls)
    watch.final()
    for ti, name, b, k, r in results:
        ctx.log(ti, name, b, k, r[0])
        exp = base.get((name, b, k))
        if exp is None:
            if r[0] == "exc":
                raise Violation("answer:" + name, "%s raised %r" % (name, r))
            continue
        if r != exp:
            raise Violation("answer:" + name, "%s on board %d answered differently with other "
                            "calls around than alone:\n  alone:   %.400r\n  together: %.400r" % (
                                name, b, exp, r))
        if r[0] == "ok":
            judge_alone(plan, name, b, r[1])
    for x in sorted(together):
        sp = plan["boards"][x[0]]
        ctx.cover(sp["bw"], sp["bh"], sp["kind"], x[1:])


def iters(plan, ctx, pkg, watch):
    base = {}
    opened = {}
    for op in plan["ops"]:
        if op[0] == "open" and op[3] < len(pkg) and op[1] not in opened:
            opened[op[1]] = op

            def f(op=op):
                p = mk(plan)
                it, key = readers.iterator(op[2], p[op[3]], op[4], partner(p, op[3]))
                out = []
                for x in it:
                    out.append(key(x))
                    if len(out) >= 60:
                        break
                else:
                    out.append("END")
                return out
            base[op[1]] = isolated(f)
    its = {}
    got = {i: [] for i in opened}
    K.observer = watch
    K.start(cap=20000000)
    try:
        for op in plan["ops"]:
            if op[0] == "open" and opened.get(op[1]) is op:
                its[op[1]] = readers.iterator(op[2], pkg[op[3]], op[4], partner(pkg, op[3]))
            elif op[0] == "next" and op[1] in its and len(got[op[1]]) < 60:
                it, key = its[op[1]]
                if got[op[1]] and got[op[1]][-1] == "END":
                    continue
                try:
                    got[op[1]].append(key(next(it)))
                except StopIteration:
                    got[op[1]].append("END")
                ctx.count("probe:iterator-step")
                K.busy = True
                watch(iters.__code__, 0)
                K.busy = False
        if len(its) > 1:
            ctx.nontrivial = True
    except StepLimit:
        raise Violation("no-answer", "an iterator did not deliver within %d steps" % K.steps)
    finally:
        K.stop()
        K.observer = None
    ctx.count("probe:polls", watch.polls)
    watch.final()
    for i in sorted(got):
        ctx.log(i, len(got[i]))
        if base[i][0] != "ok":
            raise Violation("answer:" + opened[i][2], "iterating %s alone failed: %r" % (opened[i][2], base[i]))
        if got[i] != base[i][1][:len(got[i])]:
            raise Violation("answer:" + opened[i][2], "iterator %s delivered other items when "
                            "advanced alternately:\n alone %.300r\n now   %.300r" % (
                                opened[i][2], base[i][1], got[i]))
    for i in opened:
        sp = plan["boards"][opened[i][3]]
        ctx.cover(sp["bw"], sp["bh"], sp["kind"], sorted(o[2] for o in opened.values()))


def simplify(plan):
    if plan["mode"] == "threads":
        yield dict(plan, schedule=[[i, 1] for i in range(len(plan["tasks"]))])
    for i, b in enumerate(plan["boards"]):
        if b.get("cands"):
            bs = list(plan["boards"])
            bs[i] = dict(b, cands=None)
            yield dict(plan, boards=bs)
