"""C25: repeated, failed and abandoned work leaves nothing behind."""
import gc
import hashlib
import random

from .. import boards, readers
from ..engine import Violation
from ..mon import K, StepLimit, Task

RUNS = {"quick": 500, "thorough": 60000}
RULE = ("a case is a seeded round of work (library calls on fresh equal boards from 1-3 threads, or lines for a shell or a "
        "game, or whole games; some cut by an injected KeyboardInterrupt or MemoryError, some failing, streams abandoned "
        "part-way) executed 12-300 times in one process under the same schedule; every round must give the same results "
        "and must not cost more simulated lines than the round before, nor leave more objects reachable, eight times in a "
        "row; non-trivial when the round has work that was cut, failed or abandoned, or overlapped in threads")
MEASURE = "distinct (mode, shape, threads, kinds of work in the round) tuples"
REAL = ["the whole package", "real Python threads", "the interpreter's garbage collector"]
STUB = ["thread scheduler (seeded baton)", "the streams of the shell and the game", "generate() in games (returns a board of the committed pool)"]
ASSUME = ["a bounded cache is allowed: only growth in each of the last eight rounds is reported",
          "kept objects are counted by what the garbage collector tracks and by the lengths of containers",
          "the shell's stack is emptied, and the game's moves are undone, at the end of each round"]
SHRINK = ("ops", "schedule", "tasks", "lines")
PROBES = ["lib", "shell", "game", "games", "cut", "failing", "abandoned", "threads", "long-run", "loop", "interrupt-typed"]

TAIL = 9
SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3)]
LIGHT = [o for o in readers.OPS if o not in readers.HEAVY]
BAD = ("decode-length", "decode-letter", "index", "min-count", "symmetry", "template", "notation", "action", "callback",
       "conflicting")


def gen_lib(rng):
    bw, bh = rng.choice(SHAPES)
    n = bw * bh
    small = n < 9
    long = rng.random() < .25
    ops_n = rng.randint(1, 3) if long else rng.randint(1, 6)
    nt = rng.choice((1, 1, 1, 2, 3))
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(ops_n):
            x = rng.random()
            k = rng.randrange(64)
            cut = None
            if rng.random() < .35:
                cut = [rng.choice(("interrupt", "memory")), int(10 ** rng.uniform(0, 3.2))]
            if x < .35:
                ops.append(["read", rng.choice(LIGHT if rng.random() < (.9 if long else .5 if small else .95) else sorted(readers.OPS)), k, cut])
            elif x < .6:
                ops.append(["abandon", rng.choice(readers.ITERS), k, cut, rng.choice((0, 1, 1, 2, 5, 30)),
                            rng.choice(("drop", "close", "throw"))])
            elif x < .8:
                ops.append(["update", rng.choice(("init", "apply", "apply_all", "action", "edit", "fill")), k, cut])
            elif x < .93:
                ops.append(["bad", rng.choice(BAD), k, None])
            else:
                ops.append(["random", rng.choice(("generate", "create", "template")), k, cut])
        tasks.append(dict(id=t, ops=ops))
    kind = rng.choice(("unique", "few", "many", "full", "conflict", "unsolvable", "empty" if small else "unique"))
    plan = dict(mode="lib", bw=bw, bh=bh, grid=list(boards.pick(rng, bw, bh, kind)),
                cands=boards.random_cands(rng, n), tasks=tasks,
                rounds=rng.choice((60, 150, 300) if n == 4 else (25,)) if long else 12)
    plan["schedule"] = [[rng.randrange(nt), rng.choice((1, 2, 3, 7, 20, 100))] for _ in range(rng.randint(2, 40))]
    return plan


def gen_shell(rng):
    bw, bh = rng.choice(SHAPES)
    grid = boards.pick(rng, bw, bh, rng.choice(("unique", "unique", "few", "full", "unsolvable")))
    n = bw * bh
    lines = []
    for _ in range(rng.randint(1, 14)):
        x = rng.random()
        r, c = rng.randrange(n), rng.randrange(n)
        intr = None
        if rng.random() < .15:
            intr = ["compute", int(10 ** rng.uniform(0, 3))]
        elif rng.random() < .05:
            intr = ["read", 0]
        if x < .15:
            t = rng.choice(("push", "push; push", "push; pop", "stack", "pop", "pop 0", "pop 1", "pop 9", "pop -1", "pop 'x'"))
        elif x < .3:
            t = rng.choice(("set %d %d %d" % (r, c, rng.randint(0, n)), "get %d %d" % (r, c), "init_candidates",
                            "get_candidates %d %d" % (r, c), "set_candidates %d %d [1,2]" % (r, c),
                            "remove_candidates %d %d {1}" % (r, c), "set %d \\" % r + "\n %d 1" % c))
        elif x < .45:
            t = rng.choice(("encode", "encode include_candidates=True", "print", "view", "view include_candidates=False"))
        elif x < .55:
            t = rng.choice(("solve", "new (2,2)", "new (2,3)", "generate box_size=(2,2)", "help", "help set", "# nothing",
                            "decode '%s'" % "".join(map(str, grid))))
        elif x < .8:
            t = rng.choice(("foo", "set", "set 0 0", "set 99 99 1", "set 0 0 x", "decode '12'", "decode 7", "set {[1]:2}",
                            "generate min_count=999", "generate symmetry='x'", "help foo", "loop 0", "loop x", "loop end",
                            "set_candidates 0 0 5", "new 3", "remove_candidates 0 0 7", "pop 99", "encode 1 2 3 4 5",
                            "generate_from_template tries=0"))
        elif x < .93:
            body = rng.choice(("encode", "stack", "get 0 0", "push; pop", "foo", "set 0 0 1; encode", "set 99 0 0"))
            t = "loop %d\n%s\nloop end" % (rng.randint(1, 5), body)
        else:
            t = rng.choice(("loop 3\nloop end", "loop 2\nencode\nloop 3\nloop end", "loop 2; stack; loop end"))
        lines.append(dict(t=t, intr=intr))
    return dict(mode="shell", bw=bw, bh=bh, grid=list(grid), lines=lines, interactive=True,
                rounds=rng.choice((12, 12, 40, 150)))


def gen_game(rng, whole):
    grid = boards.thin(rng, 3, 3, boards.pick(rng, 3, 3, "unique"), rng.choice((10, 30, 40)) if not whole else 40)
    g = boards.ref.geo(3, 3)
    sol = boards.ref.solutions(g, grid, 1)[0]
    empty = [i for i, v in enumerate(grid) if not v]
    lines = []

    def move():
        i = rng.choice(empty)
        v = sol[i] if rng.random() < .7 else rng.randint(1, 9)
        return "r%dc%d%s%d" % (i // 9 + 1, i % 9 + 1, rng.choice(("=", "=", "<>")), v)

    for _ in range(rng.randint(1, 10)):
        x = rng.random()
        if x < .45:
            t = move()
        elif x < .6:
            t = rng.choice(("undo", "redo", "redo", "undo"))
        elif x < .75:
            t = rng.choice(("check", "conflicts", "settings", "candidates"))
        else:
            t = rng.choice(("foo", "", "r", "r1c1=", "=5", "r1c1=x", "r0c0=1", "r1r2=5", "b1p1=12", "-5 r1c1", "r1c1<>a",
                            "UNDO", "r10c1=1"))
        lines.append(dict(t=t))
    i = rng.choice(empty)
    plan = dict(mode="games" if whole else "game", bw=3, bh=3, grid=list(grid), lines=lines,
                first="r%dc%d=%d" % (i // 9 + 1, i % 9 + 1, sol[i]), hints=rng.random() < .4,
                end=rng.choice(("eof", "intr")),
                settings={"autoset": rng.random() < .3, "autocandidates": rng.random() < .7, "autoremove": rng.random() < .8},
                rounds=12 if whole else rng.choice((12, 12, 30)))
    return plan


def gen(rng, tier):
    x = rng.random()
    if x < .6:
        return gen_lib(rng)
    if x < .85:
        return gen_shell(rng)
    return gen_game(rng, rng.random() < .4)


# --------------------------------------------------------------------------
# measuring

SIZED = (list, dict, set, frozenset, tuple)


def measure():
    """How much is reachable: tracked objects and the references in containers."""
    busy, K.busy = K.busy, True
    try:
        gc.collect()
        objs = gc.get_objects()
        total = len(objs)
        for o in objs:
            if type(o) in SIZED:
                total += len(o)
        total -= len(objs)       # the list itself
        return total
    finally:
        del objs
        K.busy = busy


class Meter(object):
    """Results, costs and sizes of the rounds; its own size stays the same."""

    def __init__(self, rounds, nops, ctx):
        self.rounds = rounds
        self.cost = [[0] * nops for _ in range(rounds)]
        self.size = [0] * rounds
        self.first = [None] * nops
        self.ctx = ctx

    def result(self, rnd, op, what, res, final):
        """res: text of the result; final: the work was neither cut nor excluded from comparison."""
        if not final:
            return
        h = hashlib.md5(res.encode("utf-8", "backslashreplace")).hexdigest()
        if self.first[op] is None:
            self.first[op] = (h, res[:4000])
        elif self.first[op][0] != h:
            raise Violation("answer", "%s gives another result in round %d than in an earlier round: %s instead of %s" % (
                what, rnd + 1, tail(res, self.first[op][1]), tail(self.first[op][1], res)))

    def end_round(self, rnd):
        if rnd >= self.rounds - TAIL:
            self.size[rnd] = measure()
            if rnd == self.rounds - 1:
                self.size[rnd] = measure()

    def judge(self, names):
        if self.rounds < TAIL + 2:
            return
        s = self.size[-TAIL:]
        if all(a < b for a, b in zip(s, s[1:])):
            raise Violation("kept", "every round leaves more objects behind: %s references reachable after the last rounds" % s)
        for i, name in enumerate(names):
            s = [c[i] for c in self.cost[-TAIL:]]
            if all(a < b for a, b in zip(s, s[1:])):
                raise Violation("cost", "%s takes more steps in every round: %s simulated lines in the last rounds" % (name, s))


def tail(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return repr(a[max(0, i - 40):i + 60])


# --------------------------------------------------------------------------
# library rounds

class Stop(Exception):
    pass


def bad(name, s, k, bw, bh):
    """Work that cannot succeed; its outcome as text."""
    from sudokutools import generate, notation, solvers
    from sudokutools.actions import SetNumber
    from sudokutools.sudoku import Sudoku
    try:
        if name == "decode-length":
            Sudoku.decode("123")
        elif name == "decode-letter":
            Sudoku.decode("12x4" * 4)
        elif name == "index":
            s[99, k] = 1
        elif name == "min-count":
            generate.generate(9999, box_size=(bw, bh))
        elif name == "symmetry":
            generate.generate(symmetry="no", box_size=(bw, bh))
        elif name == "template":
            generate.generate_from_template(s, 0)
        elif name == "notation":
            notation.decode(("r1x", "rr", "", "r1r2", "c")[k % 5], bw, bh)
        elif name == "action":
            SetNumber([(0, 0), (k % 3, 99)], 1)(s)
        elif name == "callback":
            def report(step):
                raise Stop()
            solvers.solve(s, report)
        elif name == "conflicting":
            t = s.copy()
            t[0, 0] = t[0, 1] = 1
            return repr([boards.nums(x) for x in solvers.Bruteforce.find(t)])
    except (Stop, ValueError, IndexError, RuntimeError) as e:
        return type(e).__name__
    return "nothing"


def work(op, plan):
    """One piece of work on fresh boards.  Returns the text of its result."""
    from sudokutools import generate, solvers
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.solve import init_candidates
    bw, bh = plan["bw"], plan["bh"]
    n = bw * bh
    busy, K.busy = K.busy, True
    s = boards.build(bw, bh, plan["grid"], plan["cands"])
    other = boards.build(bw, bh, plan["grid"][::-1])
    K.busy = busy
    kind, name, k = op[:3]
    if kind == "read":
        random.seed(k)
        return repr(readers.OPS[name](s, 1 + k % 5, other))
    if kind == "abandon":
        it, key = readers.iterator(name, s, k, other)
        out = []
        for _ in range(op[4]):
            try:
                out.append(key(next(it)))
            except StopIteration:
                break
        if op[5] == "close" and hasattr(it, "close"):
            it.close()
        elif op[5] == "throw" and hasattr(it, "throw"):
            try:
                it.throw(Stop())
            except (Stop, StopIteration):
                pass
        return repr(out)
    if kind == "update":
        if name == "init":
            init_candidates(s, filled_only=bool(k & 1))
        elif name in ("apply", "apply_all"):
            init_candidates(s)
            cls = solvers.SOLVERS[k % len(solvers.SOLVERS)]
            if name == "apply_all":
                cls.apply_all(s)
            else:
                for step in cls.find(s):
                    step.apply(s)
                    step.apply(s)
                    break
        elif name == "action":
            SetNumber([(0, k % n), (k % n, 0)], 1)(s)
            RemoveCandidates([(0, k % n), (n - 1, 0)], [1, 2])(s)
        elif name == "edit":
            for i in range(n):
                s[i, k % n] = i
                s.remove_candidates(i, k % n, [i])
                s.set_candidates(k % n, i, [i, 1])
        else:
            for r, c in s.empty():
                s[r, c] = 1
        return repr(boards.full_state(s))
    if kind == "bad":
        return bad(name, s, k, bw, bh)
    random.seed(k)
    if name == "create" or n > 6:
        return repr(boards.nums(generate.create_solution(box_size=(bw, bh))))
    if name == "generate":
        return repr(boards.nums(generate.generate(k % (n * n), box_size=(bw, bh))))
    try:
        return repr(boards.nums(generate.generate_from_template(s, 1 + k % 3)))
    except RuntimeError:
        return "failed"


def lib(plan, ctx):
    rounds, nt = plan["rounds"], len(plan["tasks"])
    index, names = {}, []
    for t in plan["tasks"]:
        for j, op in enumerate(t["ops"]):
            index[t["id"], j] = len(names)
            names.append("%s %s" % (op[0], op[1]))
    meter = Meter(rounds, len(names), ctx)
    shared_random = nt > 1

    def run(t, rnd):
        for j, op in enumerate(t["ops"]):
            task = K.cur
            cut = op[3]
            # with threads the random source is shared: draws depend on the schedule alone, but a reseed may meet anywhere
            start = task.steps
            task.fault_fired = None
            if cut:
                task.fault = (task.steps + cut[1], cut[0], None)
            final = True
            res = ""
            try:
                res = work(op, plan)
            except (KeyboardInterrupt, MemoryError):
                if not task.fault_fired:
                    raise
            finally:
                task.fault = None
            if task.fault_fired:
                final = False        # a bare except inside the package may have got it, too
                ctx.count("fault:" + cut[0])
                ctx.count("probe:cut")
                ctx.nontrivial = True
                task.fault_fired = None
            if shared_random and (op[0] == "random" or op[1] == "template"):
                final = False
            i = index[t["id"], j]
            meter.cost[rnd][i] = task.steps - start
            if rnd == 0:
                ctx.log(names[i], task.steps - start, res[:200])
            meter.result(rnd, i, names[i], res, final)

    for op in [o for t in plan["tasks"] for o in t["ops"]]:
        if op[0] in ("bad", "abandon"):
            ctx.nontrivial = True
            ctx.count("probe:" + ("failing" if op[0] == "bad" else "abandoned"))
    if nt > 1:
        ctx.nontrivial = True
        ctx.count("probe:threads")
    K.start(cap=80000000)
    try:
        for rnd in range(rounds):
            tasks = [Task(j, (lambda t=t: run(t, rnd))) for j, t in enumerate(plan["tasks"])]
            if nt > 1:
                K.run_tasks(tasks, plan["schedule"])
            elif tasks:
                K.tasks = tasks
                K.cur = tasks[0]
                try:
                    tasks[0].fn()
                except BaseException as e:
                    tasks[0].exc = e
                K.cur = K.main_task
            for t in tasks:
                if isinstance(t.exc, StepLimit):
                    raise Violation("endless", "the rounds take more than %d simulated lines" % K.cap)
                if t.exc is not None:
                    raise t.exc
            t = tasks = None
            K.tasks = []
            meter.end_round(rnd)
    finally:
        K.stop()
    meter.judge(names)
    ctx.cover("lib", plan["bw"], plan["bh"], nt, sorted(set(names))[:4])


# --------------------------------------------------------------------------
# shell and game rounds

class Lines(object):
    """Input stream of a shell or a game: the same lines in every round."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, lines, rounds, begin, end, tty):
        self.lines, self.rounds = lines, rounds
        self.begin, self.end = begin, end
        self.pos, self.rnd = 0, 0
        self.tty = tty

    def isatty(self):
        return self.tty

    def readline(self, size=-1):
        busy, K.busy = K.busy, True
        try:
            K.cur.fault = None
            if self.pos == 0 and self.rnd < self.rounds:
                self.begin(self.rnd)
            if self.pos == len(self.lines):
                self.end(self.rnd)
                self.rnd += 1
                self.pos = 0
                if self.rnd < self.rounds:
                    self.begin(self.rnd)
            if self.rnd >= self.rounds:
                return ""
            text, intr = self.lines[self.pos]
            self.pos += 1
            if intr and intr[0] == "read":
                raise KeyboardInterrupt()
            if intr:
                K.cur.fault = (K.cur.steps + intr[1], "interrupt", library)
            return text + "\n"
        finally:
            K.busy = busy


def library(code, line):
    return not code.co_filename.endswith(("shell.py", "__main__.py"))


class Sink(object):
    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return True

    def take(self):
        s = "".join(self.parts)
        del self.parts[:]
        return s


def attach(inp, out, err):
    c = K.main_task.ctx
    c["stdin"], c["stdout"], c["stderr"] = inp, out, err


def detach():
    for k in ("stdin", "stdout", "stderr"):
        K.main_task.ctx.pop(k, None)


def sessions(plan, ctx, lines, run, names):
    """run(inp, out) reads rounds of lines until its input ends."""
    rounds = plan["rounds"]
    meter = Meter(rounds, 1, ctx)
    out, err = Sink(), Sink()
    start = [0]
    what = "the %s with the lines %r" % (plan["mode"], [t for t, i in lines][:12])

    def begin(rnd):
        random.seed(99)
        start[0] = K.steps

    def end(rnd):
        meter.cost[rnd][0] = K.steps - start[0]
        a, b = out.take(), err.take()
        if rnd > 0:
            # the first round starts without a prompt before it
            meter.result(rnd, 0, what, a + "\n--- standard error:\n" + b, plan.get("compare", True))
        if rnd == 1:
            ctx.log(a, b)
        meter.end_round(rnd)

    inp = Lines(lines, rounds, begin, end, True)
    attach(inp, out, err)
    K.start(cap=80000000)
    try:
        run(inp, out)
    except StepLimit:
        raise Violation("endless", "the rounds take more than %d simulated lines" % K.cap)
    finally:
        K.stop()
        detach()
    if inp.rnd < rounds:
        raise Violation("ended", "%s ends in round %d: %s" % (what, inp.rnd + 1, err.take()[-300:]))
    meter.judge([what])


def shell(plan, ctx):
    from sudokutools.shell import Shell
    lines = [("decode '%s' box_size=(%d,%d)" % ("".join(map(str, plan["grid"])), plan["bw"], plan["bh"]), None)]
    compare = True
    for ln in plan["lines"]:
        phys = ln["t"].split("\n")
        for j, t in enumerate(phys):
            lines.append((t, ln["intr"] if j == len(phys) - 1 else None))
        if ln["intr"]:
            ctx.nontrivial = True
            ctx.count("fault:ctrl-c-%s" % ln["intr"][0])
            ctx.count("probe:interrupt-typed")
        if "loop" in ln["t"]:
            ctx.count("probe:loop")
        if ln["t"].split(" ")[0] in ("foo", "pop") or "x" in ln["t"]:
            ctx.nontrivial = True
            ctx.count("probe:failing")
    # leave a wrapped line, a recording and the stack behind
    lines += [("", None), ("loop end", None)] + [("pop", None)] * 45
    if any(ln["intr"] and ln["intr"][0] == "compute" for ln in plan["lines"]):
        compare = False
    plan = dict(plan, compare=compare)
    sessions(plan, ctx, lines, lambda i, o: Shell(infile=i, outfile=o, interactive=True).run(), None)
    ctx.cover("shell", plan["bw"], plan["bh"], sorted({ln["t"].split(" ")[0] for ln in plan["lines"]})[:4])


def game(plan, ctx):
    import sudokutools.shell as sh
    lines = []
    if plan["hints"]:
        lines.append(("hint", None))
    lines.append((plan["first"], None))
    if plan["hints"]:
        lines.append(("hint", None))
    lines += [(ln["t"], None) for ln in plan["lines"]]
    if any(ln["t"] in ("foo", "", "r", "=5") for ln in plan["lines"]):
        ctx.count("probe:failing")
        ctx.nontrivial = True
    lines += [("undo", None)] * (len(plan["lines"]) + 2)
    if plan["mode"] == "game" and plan["settings"].get("autoset") and any("redo" in t.lower() for t, i in lines):
        # the first move may be set already, so that the moves undone before stay
        plan = dict(plan, compare=False)
    real = getattr(sh, "generate", None)

    def fake(*a, **kw):
        busy, K.busy = K.busy, True
        try:
            return boards.build(3, 3, plan["grid"])
        finally:
            K.busy = busy

    def run(inp, out):
        g = sh.GameShell()
        for k, v in plan["settings"].items():
            if k in g.settings:
                g.settings[k] = v
        try:
            g.run()
        except EOFError:
            pass

    if real is not None:
        sh.generate = fake
    try:
        if plan["mode"] == "game":
            sessions(plan, ctx, lines, run, None)
        else:
            whole(plan, ctx, lines, fake)
    finally:
        if real is not None:
            sh.generate = real
    ctx.nontrivial = True
    ctx.cover(plan["mode"], sorted(plan["settings"].items()), len(plan["lines"]) // 3, plan["end"], plan["hints"])


class Script(object):
    """Input of one game: the lines, then its end."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, lines, end):
        self.lines, self.pos, self.end = lines, 0, end

    def isatty(self):
        return True

    def readline(self, size=-1):
        if self.pos == len(self.lines):
            if self.end == "intr":
                raise KeyboardInterrupt()
            return ""
        self.pos += 1
        return self.lines[self.pos - 1][0] + "\n"


def whole(plan, ctx, lines, fake):
    """Whole games on one shell object."""
    import sudokutools.shell as sh
    rounds = plan["rounds"]
    meter = Meter(rounds, 1, ctx)
    out, err = Sink(), Sink()
    what = "a game with the lines %r" % ([t for t, i in lines][:12],)
    g = sh.GameShell()
    for k, v in plan["settings"].items():
        if k in g.settings:
            g.settings[k] = v
    K.start(cap=80000000)
    try:
        for rnd in range(rounds):
            inp = Script(lines, plan["end"])
            attach(inp, out, err)
            random.seed(99)
            start = K.steps
            try:
                g.run()
            except (EOFError, KeyboardInterrupt):
                pass
            except StepLimit:
                raise Violation("endless", "the games take more than %d simulated lines" % K.cap)
            if inp.pos < len(lines):
                raise Violation("ended", "%s ends behind line %d" % (what, inp.pos))
            inp = None
            detach()
            meter.cost[rnd][0] = K.steps - start
            a, b = out.take(), err.take()
            if rnd == 0:
                ctx.log(a, b)
            meter.result(rnd, 0, what, a + b, True)
            meter.end_round(rnd)
    finally:
        K.stop()
        detach()
    meter.judge([what])


def execute(plan, ctx):
    gc.unfreeze()
    ctx.count("probe:" + plan["mode"])
    if plan["rounds"] > 12:
        ctx.count("probe:long-run")
    {"lib": lib, "shell": shell, "game": game, "games": game}[plan["mode"]](plan, ctx)


def simplify(plan):
    if plan["rounds"] > 12:
        yield dict(plan, rounds=12)
        yield dict(plan, rounds=plan["rounds"] // 2)
    if plan["mode"] == "lib":
        for ti, t in enumerate(plan["tasks"]):
            for oi, op in enumerate(t["ops"]):
                if op[3]:
                    p = dict(plan, tasks=[dict(x, ops=list(x["ops"])) for x in plan["tasks"]])
                    p["tasks"][ti]["ops"][oi] = op[:3] + [None] + op[4:]
                    yield p
    if plan["mode"] == "shell":
        for i, ln in enumerate(plan["lines"]):
            if ln["intr"]:
                yield dict(plan, lines=plan["lines"][:i] + [dict(ln, intr=None)] + plan["lines"][i + 1:])
