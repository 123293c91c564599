"""C18: walking over a board while it changes reports no phantoms and misses nothing."""
from .. import boards, ref
from ..engine import Violation
from ..mon import K, StepLimit, Task

RUNS = {"quick": 30000, "thorough": 400000}
RULE = ("a case is 1-2 boards and a seeded interleaving of iterations over them (all, empty, filled, differing fields, "
        "conflicts everywhere or at given fields; up to 8 open at a time) with edits of numbers and candidates, whole "
        "library calls and solve steps applied to them, in one thread or in 2-3 threads under a seeded schedule; some "
        "iterations are cut by KeyboardInterrupt inside the package or closed early; judged by the values each field "
        "can have had between the start of the iteration and the report; non-trivial when a board was edited while "
        "an iteration over it was open")
MEASURE = "distinct (shape, kinds of iterations open together, kinds of edits between them, threads, cut) tuples"
REAL = ["sudokutools.sudoku", "sudokutools.analyze.find_conflicts", "sudokutools.solvers", "sudokutools.actions",
        "sudokutools.solve", "real Python threads"]
STUB = ["thread scheduler (seeded baton)"]
ASSUME = ["an iteration begins when it is asked for, not when its first item is taken",
          "a conflict counts as present when each of its two fields held the number at some moment of the iteration; "
          "with several threads a conflict or difference must only be reported when nobody wrote its fields meanwhile",
          "an iterator is used by one thread only"]
SHRINK = ("ops", "schedule", "tasks")
PROBES = ["edit-while-open", "two-open", "threads", "cut", "closed-early", "conflicts", "diff", "library-edit",
          "became-true-behind", "vanished-ahead"]

KINDS = ("iter", "empty", "empty", "filled", "filled", "diff", "conflicts", "conflicts", "conflicts_at")
SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 1), (2, 4)]


def gen_edit(rng, n, lib):
    x = rng.random()
    b = rng.randrange(2)
    r, c = rng.randrange(n), rng.randrange(n)
    if x < .45:
        return ["set", b, r, c, rng.choice((0, 0, rng.randint(1, n), rng.randint(1, n)))]
    if x < .6:
        return ["item", b, r, c, rng.choice((0, rng.randint(1, n)))]
    if x < .68:
        return ["act", b, r, c, rng.randint(1, n)]
    if x < .8:
        return ["cands", b, r, c, rng.sample(range(1, n + 1), rng.randint(0, n))]
    if x < .86:
        return ["clash", b, r, c, rng.randrange(100)]
    if x < .9:
        return ["init", b]
    if not lib:
        return ["set", b, r, c, rng.randint(0, n)]
    return ["step", b, rng.randrange(6), rng.randrange(4)]


def gen_ops(rng, n, size, lib=True):
    ops = []
    slots = rng.choice((1, 2, 3, 5, 8))
    fresh = 0
    while len(ops) < size:
        x = rng.random()
        if x < .16 or not fresh:
            fresh += 1
            ops.append(["open", rng.randrange(slots), rng.choice(KINDS), rng.randrange(2), rng.randrange(1 << 16)])
        elif x < .6:
            ops.append(["next", rng.randrange(slots), rng.choice((1, 1, 1, 2, 3, 6))])
        elif x < .92:
            for _ in range(rng.choice((1, 1, 2, 3))):
                ops.append(gen_edit(rng, n, lib))
        elif x < .95:
            ops.append(["drain", rng.randrange(slots)])
        elif x < .975:
            ops.append(["close", rng.randrange(slots)])
        else:
            ops.append(["intr", rng.randrange(slots), rng.randint(1, 12)])
    return ops


def follow(rng, n, size):
    """The usual loop: take an item, edit exactly there or around it."""
    kind = rng.choice(KINDS)
    b = rng.randrange(2)
    ops = [["open", 0, kind, b, rng.randrange(1 << 16)]]
    how = rng.choice(("fill", "clear", "ahead", "behind", "mixed"))
    while len(ops) < size:
        ops.append(["next", 0, rng.choice((1, 1, 2))])
        ops.append(["at", b, 0, rng.randrange(1 << 16), how if how != "mixed" else
                    rng.choice(("fill", "clear", "ahead", "behind"))])
    return ops


def gen(rng, tier):
    bw, bh = rng.choice(SHAPES)
    n = bw * bh
    grids = []
    for _ in range(2):
        kind = rng.choice(("unique", "full", "conflict", "empty", "random"))
        if kind == "random":
            grids.append([rng.choice((0, rng.randint(1, n))) for _ in range(n * n)])
        else:
            try:
                grids.append(boards.pick(rng, bw, bh, kind))
            except KeyError:
                grids.append([rng.choice((0, rng.randint(1, n))) for _ in range(n * n)])
    if rng.random() < .5:
        grids[1] = list(grids[0])
        for i in rng.sample(range(n * n), rng.randint(0, n)):
            grids[1][i] = rng.randint(0, n)
    plan = dict(bw=bw, bh=bh, grids=grids)
    x = rng.random()
    if x < .3:
        nt = rng.choice((2, 2, 3))
        plan["tasks"] = [dict(ops=gen_ops(rng, n, rng.choice((6, 12, 25)), lib=False)) for _ in range(nt)]
        plan["schedule"] = [[rng.randrange(nt), rng.choice((1, 1, 2, 3, 5, 11, 40))] for _ in range(rng.randint(2, 60))]
    elif x < .55:
        plan["tasks"] = [dict(ops=follow(rng, n, rng.choice((10, 30, 80))))]
    else:
        plan["tasks"] = [dict(ops=gen_ops(rng, n, rng.choice((8, 20, 40, 80))))]
    return plan


class World(object):
    def __init__(self, plan):
        self.bw, self.bh = plan["bw"], plan["bh"]
        self.n = self.bw * self.bh
        self.g = ref.geo(self.bw, self.bh)
        self.boards = [boards.build(self.bw, self.bh, g) for g in plan["grids"]]
        self.clock = 0
        # writes per (board, field): [t0, t1, value]
        self.writes = {(b, i): [[-2, -1, v]] for b, g in enumerate(plan["grids"]) for i, v in enumerate(g)}
        self.iters = []
        self.edits = set()
        self.live = 0
        self.facts = set()

    def now(self):
        self.clock += 1
        return self.clock

    def write(self, b, changes, fn):
        """fn() changes the given fields of board b."""
        rec = [[self.now(), None, v] for i, v in changes]
        for (i, v), w in zip(changes, rec):
            self.writes[b, i].append(w)
        fn()
        t = self.now()
        for w in rec:
            w[1] = t

    def values(self, b, i, t):
        """Numbers the field can hold at moment t (between two events)."""
        ws = [w for w in self.writes[b, i] if w[0] <= t]
        return {w[2] for w in ws
                if not any(x is not w and w[1] is not None and x[0] > w[1] and x[1] is not None and x[1] < t for x in ws)}

    def spans(self, b, i, t0, t1):
        """The possible values at every moment from t0 to t1."""
        times = {t0 + .5, t1 - .5}
        for w in self.writes[b, i]:
            for x in w[:2]:
                if x is not None and t0 < x < t1:
                    times.update((x - .5, x + .5))
        return {t: self.values(b, i, t) for t in times}

    def ever(self, b, i, t0, t1):
        out = set()
        for v in self.spans(b, i, t0, t1).values():
            out |= v
        return out

    def constant(self, b, i, t0, t1):
        """The number the field held throughout, or None."""
        v = self.ever(b, i, t0, t1)
        return v.pop() if len(v) == 1 else None


class It(object):
    def __init__(self, w, kind, b, k, ident):
        self.w, self.kind, self.b, self.k, self.id = w, kind, b, k, ident
        self.other = 1 - b
        self.seen = []          # (item, time)
        self.done = None        # time it ended
        self.dead = False       # cut or closed
        self.t0 = w.now()
        s = w.boards[b]
        if kind == "iter":
            self.it = iter(s)
        elif kind == "empty":
            self.it = iter(s.empty())
        elif kind == "filled":
            self.it = iter(s.filled())
        elif kind == "diff":
            self.it = iter(s.diff(w.boards[self.other]))
        else:
            from sudokutools.analyze import find_conflicts
            self.coords = []
            if kind == "conflicts_at":
                cells = w.g.cells
                self.coords = [cells[(k * (j + 3) + j * j) % len(cells)] for j in range(1 + k % 5)]
                self.coords = sorted(set(self.coords), key=self.coords.index)
            self.it = iter(find_conflicts(s, *self.coords))

    def step(self):
        limit = self.w.n ** 2 if not self.kind.startswith("conf") else self.w.n ** 3 * 4
        try:
            item = next(self.it)
        except StopIteration:
            self.done = self.w.now()
            return None
        self.seen.append((item, self.w.now()))
        if len(self.seen) > limit:
            raise Violation("endless", "%s has reported %d items" % (self.kind, len(self.seen)))
        return item


def run_ops(w, ops, tid, ctx, threads):
    from sudokutools.actions import SetNumber
    from sudokutools.solve import init_candidates
    from sudokutools import solvers
    slots = {}
    n = w.n
    last = [None]

    def alive(x):
        return x is not None and x.done is None and not x.dead

    def advance(x, k):
        for _ in range(k):
            if not alive(x):
                return
            try:
                item = x.step()
            except KeyboardInterrupt:
                x.dead = True
                ctx.count("fault:interrupt-in-iteration")
                return
            except (Violation, StepLimit):
                raise
            except Exception as e:
                raise Violation("raised", "the iteration over %s raised %r" % (x.kind, e))
            if item is not None:
                last[0] = item

    def edited(kind, b):
        opened = [x for x in w.iters if alive(x) and (x.b == b or x.kind == "diff")]
        if opened:
            w.facts.add(("edit-while-open", kind))
            ctx.nontrivial = True
            ctx.count("probe:edit-while-open")
            if kind in ("step", "init"):
                ctx.count("probe:library-edit")

    def set_number(b, r, c, v, how):
        s = w.boards[b]
        edited(how, b)

        def fn():
            if how == "item":
                s[r, c] = v
            elif how == "act":
                SetNumber(((r, c),), v)(s)
            else:
                s.set_number(r, c, v)
        w.write(b, [(r * n + c, v)], fn)

    for op in ops:
        kind = op[0]
        if kind == "open":
            old = slots.get(op[1])
            if alive(old):
                old.dead = True
            x = It(w, op[2], op[3], op[4], (tid, len(w.iters)))
            slots[op[1]] = x
            w.iters.append(x)
            opened = sorted(y.kind for y in w.iters if alive(y) and y.b == x.b)
            if len(opened) > 1:
                ctx.count("probe:two-open")
                w.facts.add(("open",) + tuple(opened[:4]))
            if op[2].startswith("conf"):
                ctx.count("probe:conflicts")
            elif op[2] == "diff":
                ctx.count("probe:diff")
        elif kind == "next":
            advance(slots.get(op[1]), op[2])
        elif kind == "drain":
            advance(slots.get(op[1]), 1 << 30)
        elif kind == "close":
            x = slots.get(op[1])
            if alive(x):
                x.dead = True
                if hasattr(x.it, "close"):
                    x.it.close()
                ctx.count("probe:closed-early")
        elif kind == "intr":
            x = slots.get(op[1])
            if alive(x):
                K.cur.fault = (K.cur.steps + op[2], "interrupt", None)
                advance(x, 1)
                if K.cur.fault_fired:
                    ctx.count("probe:cut")
                    K.cur.fault_fired = None
                K.cur.fault = None
        elif kind in ("set", "item", "act"):
            set_number(op[1], op[2], op[3], op[4], kind)
        elif kind == "at":
            x = slots.get(op[2])
            item = last[0]
            if x is None or item is None:
                continue
            i = item[0] * n + item[1] if x.kind[:4] != "conf" else item[0][0] * n + item[0][1]
            if op[4] == "ahead":
                i = min(n * n - 1, i + 1 + op[3] % (2 * n))
            elif op[4] == "behind":
                i = max(0, i - 1 - op[3] % (2 * n))
            v = 0 if op[4] == "clear" or op[4] != "fill" and op[3] % 3 == 0 else 1 + (op[3] // 7) % n
            set_number(op[1], i // n, i % n, v, "set")
            ctx.count("probe:became-true-behind" if op[4] == "behind" else
                      "probe:vanished-ahead" if op[4] == "ahead" else "probe:edit-here")
        elif kind == "clash":
            # make two fields equal
            i = op[2] * n + op[3]
            p = w.g.peers[i]
            j = p[op[4] % len(p)]
            v = w.boards[op[1]][i // n, i % n] or 1 + op[4] % n
            set_number(op[1], j // n, j % n, v, "set")
        elif kind == "cands":
            edited(kind, op[1])
            w.boards[op[1]].set_candidates(op[2], op[3], op[4])
        elif kind == "init":
            edited(kind, op[1])
            init_candidates(w.boards[op[1]])
        elif kind == "step" and not threads:
            # a solve step of the library; which fields it fills is seen afterwards
            b = op[1]
            s = w.boards[b]
            edited(kind, b)
            before = boards.nums(s)
            t0 = w.now()
            for j, st in enumerate(solvers.SOLVERS[op[2]].find(s)):
                if j >= op[3]:
                    st.apply(s)
                    break
            t1 = w.now()
            for i, (a, c) in enumerate(zip(before, boards.nums(s))):
                if a != c:
                    w.writes[b, i].append([t0, t1, c])
        else:
            continue
    for x in slots.values():
        advance(x, 1 << 30)


def judge(w, threads):
    n, g = w.n, w.g
    for x in w.iters:
        label = "%s of board %d" % (x.kind, x.b)
        items = [i for i, t in x.seen]
        conf = x.kind.startswith("conf")
        if len(set(items)) != len(items):
            d = [i for i in items if items.count(i) > 1]
            raise Violation("twice", "%s reports %s more than once" % (label, d[0]))
        if x.kind == "iter":
            if not set(items) <= set(g.cells) or x.done and len(items) != n * n:
                raise Violation("missed", "%s reports %d of %d fields" % (label, len(items), n * n))
            continue
        # nothing reported that never was true
        for item, t in x.seen:
            if conf:
                (a, b, v) = item
                if x.coords and tuple(a) not in x.coords:
                    raise Violation("phantom", "%s at %s reports %s" % (label, x.coords, item))
                i, j = a[0] * n + a[1], b[0] * n + b[1]
                ok = j in g.peers[i] and v and v in w.ever(x.b, i, x.t0, t) and v in w.ever(x.b, j, x.t0, t)
            else:
                i = item[0] * n + item[1]
                vals = w.ever(x.b, i, x.t0, t)
                if x.kind == "empty":
                    ok = 0 in vals
                elif x.kind == "filled":
                    ok = vals != {0}
                else:
                    a, b = w.spans(x.b, i, x.t0, t), w.spans(x.other, i, x.t0, t)
                    times = set(a) | set(b)
                    ok = any(p != q for s in times for p in w.values(x.b, i, s) for q in w.values(x.other, i, s))
            if not ok:
                raise Violation("phantom", "%s reports %s, which was not so at any moment of the iteration" % (label, item))
        if not x.done:
            continue
        # everything reported that was true throughout
        have = set(items)
        if conf:
            val = [w.constant(x.b, i, x.t0, x.done) for i in range(n * n)]
            for a in (x.coords or g.cells):
                i = a[0] * n + a[1]
                if not val[i]:
                    continue
                for j in g.peers[i]:
                    if val[j] == val[i] and (tuple(a), g.cells[j], val[i]) not in have:
                        raise Violation("missed", "%s does not report %s, in conflict all the time" % (
                            label, (a, g.cells[j], val[i])))
            continue
        for i, c in enumerate(g.cells):
            if c in have:
                continue
            if x.kind == "empty":
                miss = w.ever(x.b, i, x.t0, x.done) == {0}
            elif x.kind == "filled":
                miss = 0 not in w.ever(x.b, i, x.t0, x.done)
            elif threads:
                p, q = w.constant(x.b, i, x.t0, x.done), w.constant(x.other, i, x.t0, x.done)
                miss = p is not None and q is not None and p != q
            else:
                times = set(w.spans(x.b, i, x.t0, x.done)) | set(w.spans(x.other, i, x.t0, x.done))
                miss = all(p != q for s in times for p in w.values(x.b, i, s) for q in w.values(x.other, i, s))
            if miss:
                raise Violation("missed", "%s does not report %s, which was so all the time" % (label, c))


def execute(plan, ctx):
    w = World(plan)
    threads = len(plan["tasks"]) > 1
    tasks = [Task(i, (lambda i=i, t=t: run_ops(w, t["ops"], i, ctx, threads))) for i, t in enumerate(plan["tasks"])]
    K.start(cap=20000000)
    try:
        if threads:
            K.run_tasks(tasks, plan["schedule"])
        else:
            K.tasks = tasks
            K.cur = tasks[0]
            try:
                tasks[0].fn()
            except BaseException as e:
                tasks[0].exc = e
            K.cur = K.main_task
    finally:
        K.stop()
    for t in tasks:
        if isinstance(t.exc, StepLimit):
            raise Violation("endless", "an iteration does not end")
        if t.exc is not None:
            raise t.exc
    ctx.log([(x.kind, x.b, x.t0, x.done, [str(s) for s in x.seen]) for x in w.iters])
    judge(w, threads)
    if threads:
        ctx.count("probe:threads")
        ctx.count("fault:thread-switch", K.switches)
    ctx.count("fault:edit-while-open", sum(1 for f in w.facts if f[0] == "edit-while-open"))
    ctx.cover(plan["bw"], plan["bh"], threads, sorted(w.facts)[:8])
