"""C24: every board is a store of its own; the last write to a field wins; copies never share."""
from .. import boards, ref
from ..engine import Violation
from ..mon import K, StepLimit, Task

RUNS = {"quick": 20000, "thorough": 300000}
RULE = ("a case is 1-3 boards, their copies, and a seeded interleaving of writes and reads of single fields through every "
        "route (items, methods, actions), copies with and without candidates, encoding and decoding, comparisons and "
        "solver results, in one thread or in 2-3 threads under a seeded schedule; some calls are cut by an injected "
        "KeyboardInterrupt or MemoryError or get an argument that raises, is changed by the caller afterwards, belongs "
        "to another field or edits the board while it is read; judged by a register model of every field; non-trivial "
        "when a board was written after it had been copied, or threads overlapped, or a call was cut")
MEASURE = "distinct (shape, number of boards, threads, kinds of events met) tuples"
REAL = ["sudokutools.sudoku", "sudokutools.actions", "sudokutools.solvers (actions, solve)", "sudokutools.solve (dlx)",
        "real Python threads"]
STUB = ["thread scheduler (seeded baton)"]
ASSUME = ["with several threads the candidates of one field are changed by one thread only (removing is a read and a write)",
          "asynchronous exceptions and preemption happen at source lines of the package"]
SHRINK = ("ops", "schedule", "tasks")
PROBES = ["copy", "written-after-copy", "caller-mutates", "returned-kept", "cut-old", "cut-new", "argument-raises",
          "argument-edits", "foreign-candidates", "threads", "overlapping-read", "library-copy", "decoded", "wide", "empty-character"]

SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 1), (2, 4), (2, 5), (1, 2), (3, 4)]
FORMS = ("list", "set", "frozenset", "tuple", "gen", "dict", "mutable", "mutable", "live", "live", "gen-edit", "own")
FAULTY = ("interrupt", "memory")


def gen_ops(rng, n, k, tid, nt, lib):
    ops = []
    nn = n * n
    hot = rng.sample(range(nn), min(nn, rng.choice((2, 4, nn))))

    def field(mine=False):
        for _ in range(50):
            i = rng.choice(hot) if rng.random() < .7 else rng.randrange(nn)
            if not mine or i % nt == tid:
                return i
        return tid % nn

    def vals():
        return [v for v in range(1, n + 1) if rng.random() < rng.choice((.2, .5, .8))]

    for _ in range(k):
        x = rng.random()
        b = rng.randrange(1 << 12) if rng.random() < .6 else rng.randrange(3)
        if x < .22:
            ops.append(["num", b, field(), rng.randint(0, n), rng.choice(("item", "method", "action"))])
        elif x < .27:
            ops.append(["setnumber", b, [field(True) for _ in range(rng.randint(1, 3))], rng.randint(0, n)])
        elif x < .41:
            ops.append(["cset", b, field(True), vals(), rng.choice(FORMS), rng.randrange(1 << 10)])
        elif x < .55:
            ops.append(["crem", b, field(True), vals(), rng.choice(FORMS), rng.randrange(1 << 10)])
        elif x < .58:
            ops.append(["removecands", b, [field(True) for _ in range(rng.randint(1, 3))], vals()])
        elif x < .70:
            ops.append([rng.choice(("get", "cget", "cget")), b, field()])
        elif x < .80:
            ops.append(["copy", b, rng.random() < .65])
        elif x < .83:
            ops.append(["code", b, rng.random() < .5, rng.choice("000.x_-\u00b7\u25a1\u7a7a"),
                        rng.choice(("", "", " ", "\n", " \t")), rng.choice(", ;/")])
        elif x < .86:
            ops.append(["read", b])
        elif x < .89:
            ops.append(["eq", b, rng.randrange(1 << 12)])
        elif x < .92:
            ops.append(["mutate"])
        elif x < .93 and lib:
            ops.append([rng.choice(("solve", "dlx", "init")), b])
        elif x < .97:
            ops.append(["cut", rng.choice(FAULTY), rng.choice((1, 1, 2, 3, 4, 7, 20, 60))])
        else:
            ops.append(["raise", b, field(True), rng.choice(("cset", "crem")), vals()])
    return ops


def gen(rng, tier):
    bw, bh = rng.choice(SHAPES)
    n = bw * bh
    bs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        kind = rng.choice(("unique", "full", "empty", "random"))
        if kind == "random" or (bw, bh) in ((1, 2), (1, 3), (2, 5)):
            grid = [rng.choice((0, rng.randint(1, n))) for _ in range(n * n)]
        else:
            grid = boards.pick(rng, bw, bh, kind)
        bs.append(dict(grid=list(grid), cands=boards.random_cands(rng, n)))
    alike = len(bs) > 1 and rng.random() < .5
    if alike:
        # boards that are easily taken for each other
        pair = boards.collide(rng, bw, bh, bs[0]["grid"])
        if pair and rng.random() < .7:
            bs[0]["grid"], bs[1]["grid"] = pair
        else:
            bs[1] = dict(grid=list(bs[0]["grid"]), cands=[list(c) for c in bs[0]["cands"]])
            i = rng.choice((0, n * n - 1, rng.randrange(n * n)))
            if rng.random() < .5:
                bs[1]["grid"][i] = (bs[1]["grid"][i] + 1) % (n + 1)
            elif rng.random() < .8:
                bs[1]["cands"][i] = [v for v in range(1, n + 1) if (v in bs[1]["cands"][i]) == (v > 1)]
    nt = rng.choice((1, 1, 2, 2, 3))
    plan = dict(bw=bw, bh=bh, boards=bs, nt=nt, tasks=[
        dict(id=t, ops=gen_ops(rng, n, rng.choice((6, 15, 40, 90)) // (1 if nt == 1 else 2), t, nt, nt == 1))
        for t in range(nt)])
    if alike:
        plan["tasks"][0]["ops"].insert(0, ["eq", 0, 1])
    plan["schedule"] = [[rng.randrange(nt), rng.choice((1, 1, 2, 3, 5, 11, 40))] for _ in range(rng.randint(2, 80))]
    return plan


class Reg(object):
    """A field: the writes made to it as [start, end, value]."""
    __slots__ = ("w",)

    def __init__(self, v):
        self.w = [[-2, -1, v]]

    def ever(self, t0, t1):
        """Values it may have held at some moment between t0 and t1."""
        ws = [w for w in self.w if w[0] < t1]
        floor = max([w[0] for w in ws if w[1] is not None and w[1] < t0] or [-3])
        # a write that ended before another began, which ended before t0, is gone
        return {w[2] for w in ws if w[1] is None or w[1] >= floor or w[1] > t0}


class Board(object):
    def __init__(self, obj, nums, cands, private=None):
        self.obj = obj
        self.num = [Reg(v) for v in nums]
        self.cand = [Reg(frozenset(c)) for c in cands]
        self.copied = False
        self.owner = private


class World(object):
    def __init__(self, plan, ctx):
        self.bw, self.bh, self.ctx = plan["bw"], plan["bh"], ctx
        self.n = self.bw * self.bh
        self.nn = self.n * self.n
        self.clock = 0
        self.threads = len(plan["tasks"]) > 1
        self.boards = []
        for b in plan["boards"]:
            self.boards.append(Board(boards.build(self.bw, self.bh, b["grid"], b["cands"]), b["grid"], b["cands"]))
        self.kept = []             # (returned object, its content, where from)
        self.facts = set()

    def now(self):
        self.clock += 1
        return self.clock

    def fact(self, f):
        self.facts.add(f)
        self.ctx.count("probe:" + f)


def name(i, n):
    return "(%d, %d)" % divmod(i, n)


def run_ops(w, ops, tid, ctx):
    from sudokutools import solvers
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.solve import dlx, init_candidates
    from sudokutools.sudoku import Sudoku
    n, nn = w.n, w.nn
    mine = []                      # boards only this task can reach
    mutable = []                   # containers handed over, may be changed later
    armed = [None]

    def pick(k):
        pool = w.boards + mine
        return pool[k % len(pool)]

    def add(obj, nums, cands):
        if len(mine) < 12:
            mine.append(Board(obj, nums, cands))

    def guarded(fn):
        """Run fn, possibly cut; True if it ran to its end."""
        f, armed[0] = armed[0], None
        t = K.cur
        if f is None:
            fn()
            return True
        t.fault = (t.steps + f[1], f[0], None)
        try:
            fn()
            return True
        except (KeyboardInterrupt, MemoryError):
            if not t.fault_fired:
                raise
            ctx.count("fault:" + t.fault_fired[0])
            ctx.nontrivial = True
            return False
        finally:
            t.fault, t.fault_fired = None, None

    def write(bd, changes, fn):
        """fn writes the registers [(kind, i, value)]; cut: each old or new."""
        if bd.copied:
            w.fact("written-after-copy")
            ctx.nontrivial = True
        rec = []
        t0 = w.now()
        for kind, i, v in changes:
            reg = getattr(bd, kind)[i]
            rec.append((reg, [t0, None, v], kind, i))
            reg.w.append(rec[-1][1])
        if guarded(fn):
            t1 = w.now()
            for reg, r, kind, i in rec:
                r[1] = t1
            return
        # whether a cut write happened is read back; it has to be one or the other
        got = {(kind, i): observe(bd, kind, i, "after a cut write") for reg, r, kind, i in rec}
        t1 = w.now()
        for reg, r, kind, i in rec:
            w.fact("cut-new" if got[kind, i] == r[2] else "cut-old")
            r[1], r[2] = t1, got[kind, i]

    def observe(bd, kind, i, why):
        t0 = w.now()
        if kind == "num":
            v = bd.obj[i // n, i % n]
        else:
            c = bd.obj.get_candidates(i // n, i % n)
            v = frozenset(c)
            if len(w.kept) < 60:
                w.kept.append((c, v, "field %s" % name(i, n)))
        t1 = w.now()
        ok = getattr(bd, kind)[i].ever(t0, t1)
        if len(ok) > 1:
            w.fact("overlapping-read")
        if v not in ok:
            what = "number" if kind == "num" else "candidates"
            raise Violation("wrong-" + what, "the %s of field %s read %s as %s, written were %s" % (
                what, name(i, n), why, shown(v), " or ".join(sorted(shown(x) for x in ok))))
        return v

    def snapshot(bd, obj, kind, t0, why, skip=False):
        """obj was made from bd since t0."""
        t1 = w.now()
        out = []
        for i in range(nn):
            v = obj[i // n, i % n] if kind == "num" else frozenset(obj.get_candidates(i // n, i % n))
            ok = getattr(bd, kind)[i].ever(t0, t1)
            if v not in ok:
                raise Violation("wrong-copy", "%s has %s at %s, the original held %s" % (
                    why, shown(v), name(i, n), " or ".join(sorted(shown(x) for x in ok))))
            out.append(v)
        return out

    def current(bd, i):
        """Candidates of a field only this task writes."""
        return bd.cand[i].w[-1][2]

    def argument(form, vals, bd, i, k):
        """(the iterable to pass, function called afterwards, its values, writes it makes while it is read)"""
        if form == "list":
            return list(vals), list(vals), None
        if form == "set":
            return set(vals), list(vals), None
        if form == "frozenset":
            return frozenset(vals), list(vals), None
        if form == "tuple":
            return tuple(vals) * 2, list(vals), None
        if form == "dict":
            return dict.fromkeys(vals, 0), list(vals), None
        if form == "gen":
            return (v for v in list(vals)), list(vals), None
        if form == "mutable":
            c = set(vals) if k % 2 else list(vals)
            mutable.append(c)
            return c, list(vals), None
        if form == "own":
            c = bd.obj.get_candidates(i // n, i % n)
            return c, list(c), None
        if form == "live":
            # the candidates of another field of a board of this task
            src = mine[k % len(mine)] if mine else bd
            j = k % nn
            if src in w.boards and w.threads:
                return list(vals), list(vals), None
            w.fact("foreign-candidates")
            c = src.obj.get_candidates(j // n, j % n)
            return c, list(c), None
        # a generator that edits another field of the same board while it is read
        j = i + w.step if i + w.step < nn else i - w.step
        if j < 0:
            return list(vals), list(vals), None
        new = frozenset(v for v in range(1, n + 1) if (v + k) % 2)
        return "edit", list(vals), (j, new)

    def cands(op):
        kind, bd, i, vals, form, k = op[0], pick(op[1]), op[2] % nn, op[3], op[4], op[5]
        arg, vals, extra = argument(form, vals, bd, i, k)
        old = current(bd, i)
        new = frozenset(vals) if kind == "cset" else old - set(vals)
        meth = bd.obj.set_candidates if kind == "cset" else bd.obj.remove_candidates
        if extra is not None:
            j, other = extra
            armed[0] = None

            def edits():
                for v in vals:
                    yield v
                r = [w.now(), None, other]
                bd.cand[j].w.append(r)
                bd.obj.set_candidates(j // n, j % n, other)
                r[1] = w.now()
            arg = edits()
            w.fact("argument-edits")
        write(bd, [("cand", i, new)], lambda: meth(i // n, i % n, arg))

    w.step = max(1, len(w.tasks))      # keeps the owner of the field
    for op in ops:
        kind = op[0]
        if kind == "cut":
            armed[0] = (op[1], op[2])
            continue
        if kind == "num":
            bd, i, v = pick(op[1]), op[2] % nn, op[3]
            if w.threads and bd in w.boards:
                armed[0] = None
            r, c = divmod(i, n)

            def fn():
                if op[4] == "item":
                    bd.obj[r, c] = v
                elif op[4] == "method":
                    bd.obj.set_number(r, c, v)
                else:
                    a = solvers.Action(Sudoku.set_number, r, c, v)
                    a.func(bd.obj, a.row, a.col, a.value)
            write(bd, [("num", i, v)], fn)
        elif kind == "setnumber":
            bd, idx, v = pick(op[1]), [i % nn for i in op[2]], op[3]
            if w.threads and bd in w.boards:
                armed[0] = None
            ch = []
            for i in idx:
                ch += [("num", i, v), ("cand", i, frozenset([v] if v else []))]
            write(bd, ch, lambda: SetNumber([divmod(i, n) for i in idx], v)(bd.obj))
        elif kind in ("cset", "crem"):
            cands(op)
        elif kind == "removecands":
            bd, idx = pick(op[1]), sorted({i % nn for i in op[2]})
            write(bd, [("cand", i, current(bd, i) - set(op[3])) for i in idx],
                  lambda: RemoveCandidates([divmod(i, n) for i in idx], set(op[3]))(bd.obj))
        elif kind == "raise":
            bd, i = pick(op[1]), op[2] % nn
            before = current(bd, i)

            def bad():
                for v in op[4]:
                    yield v
                raise ZeroDivisionError
            armed[0] = None
            try:
                meth = bd.obj.set_candidates if op[3] == "cset" else bd.obj.remove_candidates
                meth(i // n, i % n, bad())
            except ZeroDivisionError:
                w.fact("argument-raises")
                ctx.count("fault:argument-raises")
            else:
                raise Violation("swallowed", "an exception out of an argument is not reported")
            got = observe(bd, "cand", i, "after a failed call")
            if got != before:
                raise Violation("half-write", "a failed call changed %s to %s" % (shown(before), shown(got)))
        elif kind == "get":
            bd = pick(op[1])
            ctx.log(observe(bd, "num", op[2] % nn, "later"))
        elif kind == "cget":
            bd = pick(op[1])
            w.fact("returned-kept")
            ctx.log(sorted(observe(bd, "cand", op[2] % nn, "later")))
        elif kind == "read":
            bd = pick(op[1])
            for i in range(nn):
                observe(bd, "num", i, "later")
                observe(bd, "cand", i, "later")
        elif kind == "copy":
            bd = pick(op[1])
            t0 = w.now()
            got = []
            if not guarded(lambda: got.append(bd.obj.copy(include_candidates=op[2]))):
                continue
            obj = got[0]
            if boards.shape(obj) != (w.bw, w.bh) or len(obj) != nn:
                raise Violation("wrong-copy", "a copy has another shape")
            nums = snapshot(bd, obj, "num", t0, "a copy")
            if op[2]:
                cs = snapshot(bd, obj, "cand", t0, "a copy with candidates")
            else:
                cs = [frozenset(obj.get_candidates(i // n, i % n)) for i in range(nn)]
                if any(cs):
                    raise Violation("wrong-copy", "a copy without candidates has candidates")
            add(obj, nums, cs)
            bd.copied = True
            w.fact("copy")
        elif kind == "code":
            bd = pick(op[1])
            if n > 9:
                w.fact("wide")
                t0 = w.now()
                text = bd.obj.encode(row_sep="/", col_sep=" ")
                t1 = w.now()
                rows = [r.split(" ") for r in text.split("/")]
                for i in range(nn):
                    ok = bd.num[i].ever(t0, t1)
                    if int(rows[i // n][i % n]) not in ok:
                        raise Violation("wrong-text", "the encoded text has %s at %s instead of %s" % (
                            rows[i // n][i % n], name(i, n), sorted(ok)))
                empty, sep = op[3:4] + ["0"], op[5:6] + [","]
                empty, sep = empty[0], sep[0]
                text = sep.join((empty if v == "0" else v) for r in rows for v in r)
                # the text is the original of what is decoded from it
                obj = Sudoku.decode(text, empty=empty, number_sep=sep, box_size=(w.bw, w.bh))
                nums = [int(v) for r in rows for v in r]
                for i in range(nn):
                    if obj[i // n, i % n] != nums[i]:
                        raise Violation("wrong-copy", "the decoded text has %s at %s instead of %s" % (
                            obj[i // n, i % n], name(i, n), nums[i]))
                add(obj, nums, [frozenset(obj.get_candidates(i // n, i % n)) for i in range(nn)])
                bd.copied = True
                w.fact("decoded")
                continue
            t0 = w.now()
            empty, gap = (op[3:5] + ["0", ""])[:2] if len(op) > 4 else ("0", "")
            if gap:
                text = bd.obj.encode(row_sep="\n", col_sep=gap, include_candidates=op[2])
            else:
                text = bd.obj.encode(include_candidates=op[2])
            if empty != "0":
                a, bar, z = text.partition("|")
                text = a.replace("0", empty) + bar + z
                w.fact("empty-character")
            obj = Sudoku.decode(text, empty=empty, box_size=(w.bw, w.bh))
            nums = snapshot(bd, obj, "num", t0, "the decoded text")
            if op[2]:
                cs = snapshot(bd, obj, "cand", t0, "the decoded text")
            else:
                cs = [frozenset(obj.get_candidates(i // n, i % n)) for i in range(nn)]
            add(obj, nums, cs)
            bd.copied = True
            w.fact("decoded")
        elif kind == "eq" and not w.threads:
            a, b = pick(op[1]), pick(op[2])
            same = all(x.w[-1][2] == y.w[-1][2] for x, y in zip(a.num, b.num))
            csame = all(x.w[-1][2] == y.w[-1][2] for x, y in zip(a.cand, b.cand))
            for what, got, exp in (("==", a.obj == b.obj, same), ("!=", a.obj != b.obj, not same),
                                   ("equals", a.obj.equals(b.obj), same),
                                   ("equals with candidates", a.obj.equals(b.obj, candidates=True), same and csame)):
                if bool(got) != exp:
                    raise Violation("wrong-comparison", "%s of two boards gives %r instead of %r" % (what, got, exp))
        elif kind == "mutate":
            for c in mutable:
                ctx.count("fault:caller-mutates")
                w.fact("caller-mutates")
                if isinstance(c, set):
                    c ^= {1, n, n + 7}
                else:
                    c[:] = [n]
            del mutable[:]
            check_kept(w)
        elif kind in ("solve", "dlx", "init") and not w.threads:
            bd = pick(op[1])
            if n > 8:
                continue
            if kind == "init":
                init_candidates(bd.obj)
                t = w.now()
                for i in range(nn):
                    bd.cand[i].w[:] = [[t, t, frozenset(bd.obj.get_candidates(i // n, i % n))]]
                continue
            if kind == "solve":
                grid = [r.w[-1][2] for r in bd.num]
                if not ref.solutions(ref.geo(w.bw, w.bh), grid, 1, budget=20000):
                    continue
                obj = solvers.solve(bd.obj, lambda s: None)
            else:
                obj = next(dlx(bd.obj), None)
                if obj is None:
                    continue
            w.fact("library-copy")
            bd.copied = True
            add(obj, [obj[i // n, i % n] for i in range(nn)],
                [frozenset(obj.get_candidates(i // n, i % n)) for i in range(nn)])
    armed[0] = None
    for bd in mine:
        bd.owner = tid
        for i in range(nn):
            observe(bd, "num", i, "at the end")
            observe(bd, "cand", i, "at the end")
    w.private += mine


def shown(v):
    return "%s" % v if isinstance(v, int) else "{%s}" % ",".join(str(x) for x in sorted(v))


def check_kept(w):
    for c, v, where in w.kept:
        if frozenset(c) != v:
            raise Violation("returned-changes", "the candidates read earlier from %s were %s and are now %s" % (
                where, shown(v), shown(frozenset(c))))


def execute(plan, ctx):
    w = World(plan, ctx)
    w.tasks = [None] * plan["nt"]
    w.private = []
    tasks = [Task(t["id"], (lambda t=t: run_ops(w, t["ops"], t["id"], ctx))) for t in plan["tasks"]]
    K.start(cap=20000000)
    try:
        if w.threads:
            for j, t in enumerate(tasks):
                t.idx = j
            K.run_tasks(tasks, plan["schedule"])
        else:
            K.tasks = tasks
            K.cur = tasks[0]
            try:
                tasks[0].fn()
            except BaseException as e:
                tasks[0].exc = e
            K.cur = K.main_task
    finally:
        K.stop()
    for t in tasks:
        if isinstance(t.exc, StepLimit):
            raise Violation("endless", "a call does not end")
        if t.exc is not None:
            raise t.exc
    # the end: every board, whoever wrote it, and everything handed out earlier
    t0 = w.now()
    n = w.n
    for bi, bd in enumerate(w.boards + w.private):
        st = (boards.nums(bd.obj), boards.cands(bd.obj))
        for kind, got in zip(("num", "cand"), st):
            for i, v in enumerate(got):
                ok = getattr(bd, kind)[i].ever(t0, t0 + 1)
                if v not in ok:
                    raise Violation("lost-write", "at the end field %s of board %d has %s, the last write was %s" % (
                        name(i, n), bi, shown(v), " or ".join(sorted(shown(x) for x in ok))))
        if tuple(bd.obj.indices) != tuple(range(n)) or tuple(bd.obj.numbers) != tuple(range(1, n + 1)):
            raise Violation("wrong-shape", "the shape of board %d changed" % bi)
        ctx.log([shown(x) for x in st[0]], [shown(x) for x in st[1]])
    check_kept(w)
    # what was handed out is the caller's: using it must not reach a board
    for c, v, where in w.kept:
        if hasattr(c, "clear") and hasattr(c, "add"):
            c.clear()
    for bd in w.boards + w.private:
        for i, c in enumerate(boards.cands(bd.obj)):
            if c not in bd.cand[i].ever(t0, t0 + 1):
                raise Violation("returned-shared", "emptying a set handed out earlier changed field %s" % name(i, n))
    if w.threads:
        ctx.count("probe:threads")
        ctx.count("fault:thread-switch", K.switches)
        ctx.nontrivial = ctx.nontrivial or K.switches > 3
    ctx.cover(plan["bw"], plan["bh"], min(6, len(w.boards) + len(w.private)), len(plan["tasks"]), sorted(w.facts))


def simplify(plan):
    if len(plan["tasks"]) > 1:
        yield dict(plan, schedule=[[i, 1] for i in range(len(plan["tasks"]))])
    for k, b in enumerate(plan["boards"]):
        if any(b["cands"]):
            bs = list(plan["boards"])
            bs[k] = dict(b, cands=[[] for _ in b["cands"]])
            yield dict(plan, boards=bs)
        if any(b["grid"]):
            bs = list(plan["boards"])
            bs[k] = dict(b, grid=[0] * len(b["grid"]))
            yield dict(plan, boards=bs)
