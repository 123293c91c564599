"""C03: a call cut short at any point leaves no trace."""
import random
import sys
from itertools import islice

from .. import boards, readers, ref
from ..engine import CleanServer, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("a case is a seeded plan: 1-2 boards, an open bystander stream, 1-4 library calls each "
        "cut at a seeded point (KeyboardInterrupt / MemoryError / RecursionError at the n-th "
        "executed source line of the call, a lowered recursion limit, an exception out of a "
        "callback or iterable, close/throw of a generator), retries of cut updates, then probe "
        "calls; non-trivial when at least one cut really happened inside a call")
MEASURE = "distinct (call, cut kind, function the cut hit, phase) tuples"
REAL = ["sudokutools (all library modules)", "the interpreter's exception machinery",
        "real recursion limit"]
STUB = ["the instant at which an asynchronous exception arrives (source-line granularity)"]
ASSUME = ["asynchronous exceptions arrive at source-line boundaries of the package",
          "'right results' afterwards are those of a pristine forked process on an equal board"]
SHRINK = ("cuts", "probes")
PROBES = ["cut-read", "cut-update", "retry", "callback-raises", "iterable-raises", "gen-close",
          "gen-throw", "recursion-limit", "bystander-finished", "generate-cut", "cut-call-again", "generate-again"]

SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]
UPDATES = ("init", "init_filled", "apply", "apply", "apply", "apply", "apply_all", "set_action",
           "remove_action", "set_cands", "rem_cands", "decode_action", "set_number")


def make(which):
    def op(s, k, other):
        random.seed(k)
        try:
            return boards.full_state(do_generate(s, which))
        except RuntimeError:
            return "failed"
    return op


OPS = dict(readers.OPS)
OPS.update({"make:" + x: make(x) for x in ("generate", "template", "solution")})
READS = sorted(readers.OPS)
LIGHT = [x for x in READS if x not in readers.HEAVY]


def gen_board(rng):
    bw, bh = rng.choice(SHAPES)
    n = bw * bh
    g = ref.geo(bw, bh)
    kind = rng.choice(("unique", "unique", "hard", "few", "full", "conflict"))
    grid = boards.pick(rng, bw, bh, kind)
    if n > 6 and kind in ("unique", "few"):
        grid = boards.thin(rng, bw, bh, grid, 20 if n == 9 else 12)
    x = rng.random()
    if x < .6:
        cands = [sorted(c) for c in ref.candidates(g, grid)]
        for i in rng.sample(range(n * n), rng.choice((0, 0, 3, n))):
            cands[i] = []
    elif x < .75:
        cands = None
    else:
        cands = boards.random_cands(rng, n)
    return dict(bw=bw, bh=bh, kind=kind, grid=list(grid), cands=cands)


def gen(rng, tier):
    bs = [gen_board(rng) for _ in range(rng.choice((1, 2)))]
    cuts = []
    for _ in range(rng.randint(1, 4)):
        b = rng.randrange(len(bs))
        frac = rng.choice((rng.random(), rng.random(), rng.random() * .1, 1 - rng.random() * .1))
        kind = rng.choice(("interrupt", "interrupt", "memory", "recursion"))
        x = rng.random()
        k = rng.randrange(40)
        if x < .27:
            name = rng.choice(LIGHT if rng.random() < .6 else READS)
            cuts.append(dict(type="read", b=b, name=name, k=k, frac=frac, kind=kind))
        elif x < .67:
            cuts.append(dict(type="update", b=b, name=rng.choice(UPDATES), k=k, frac=frac, kind=kind,
                             seed=rng.randrange(1 << 16), again=rng.choice((0, 0, 1)),
                             frac2=rng.random()))
        elif x < .74:
            cuts.append(dict(type="callback", b=b, at=rng.choice((0, 1, 2, 3, 5, 9, 15)),
                             exc=rng.choice(("ValueError", "KeyboardInterrupt", "StopIteration",
                                             "GeneratorExit", "SystemExit", "KeyError"))))
        elif x < .82:
            cuts.append(dict(type="iterable", b=b, name=rng.choice(("set_cands", "rem_cands",
                                                                    "set_action", "remove_action",
                                                                    "init_like", "find_conflicts",
                                                                    "encode_coords")),
                             at=rng.randrange(6), seed=rng.randrange(1 << 16),
                             exc=rng.choice(("ValueError", "KeyboardInterrupt", "MemoryError"))))
        elif x < .91:
            cuts.append(dict(type="gen", b=b, name=rng.choice(readers.ITERS), k=k,
                             after=rng.choice((0, 1, 1, 2, 3, 6)),
                             how=rng.choice(("close", "interrupt", "memory", "del"))))
        elif x < .96:
            cuts.append(dict(type="limit", b=b, name=rng.choice(("dlx", "bruteforce", "unique",
                                                                 "solve", "rate", "init", "apply",
                                                                 "view", "hints")),
                             k=k, depth=rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 45))))
        else:
            cuts.append(dict(type="generate", which=rng.choice(("generate", "template", "solution")),
                             b=b, frac=frac, kind=kind, seed=rng.randrange(1 << 16)))
    probes = [[rng.choice(READS if i == 0 else LIGHT), rng.randrange(len(bs) + 1), rng.randrange(40)]
              for i in range(rng.randint(1, 3))]
    # the call that was cut, once more
    for c in cuts:
        if c["type"] in ("read", "limit") and c["name"] in OPS and rng.random() < .4:
            probes.insert(0, [c["name"], c["b"], c["k"]])
        elif c["type"] == "generate" and rng.random() < .8 or rng.random() < .03:
            probes.insert(0, ["make:" + c.get("which", "generate"), c["b"], c.get("seed", 5)])
    by = None
    if rng.random() < .5:
        b = rng.randrange(len(bs))
        by = [b, rng.choice(("dlx", "bruteforce")), rng.choice((1, 1, 2))]
    return dict(boards=bs, cuts=cuts, probes=probes, bystander=by)


# -- the in-place calls ------------------------------------------------------

def prepare(name, s, k, seed):
    """A callable performing the update on s (found/built beforehand)."""
    from sudokutools import actions, notation, solve
    r = random.Random(seed)
    n = s.box_width * s.box_height
    if name == "init":
        return lambda: solve.init_candidates(s)
    if name == "init_filled":
        return lambda: solve.init_candidates(s, filled_only=True)
    if name == "apply":
        steps = []
        for cls in readers._solvers().SOLVERS:
            steps += list(islice(cls.find(s), 12))
        if not steps:
            return None
        by = {}
        for x in steps:
            by.setdefault(type(x).__name__, []).append(x)
        names = sorted(by)
        c = by[names[k % len(names)]]
        step = c[seed % len(c)]
        return lambda: step.apply(s)
    if name == "apply_all":
        cls = readers._solvers().SOLVERS[k % len(readers._solvers().SOLVERS)]
        return lambda: cls.apply_all(s)
    coords = [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(1, 6))]
    if name == "set_action":
        a = actions.SetNumber(coords, r.randint(1, n))
        return lambda: a(s)
    if name == "remove_action":
        a = actions.RemoveCandidates(coords, [r.randint(1, n) for _ in range(3)])
        return lambda: a(s)
    if name == "decode_action":
        a, b = r.randint(1, n), r.randint(1, n)
        x = r.randint(1, n)
        text = r.choice(("r%dc%d=%d" % (a, b, x), "r%d<>%d" % (a, x), "b%d<>%d" % (a, x),
                         "r%dc12=%d" % (a, x)))
        return lambda: notation.decode_action(text, s.box_width, s.box_height)(s)
    rr, cc = coords[0]
    vals = [r.randint(1, n) for _ in range(3)]
    if name == "set_cands":
        return lambda: s.set_candidates(rr, cc, vals)
    if name == "rem_cands":
        return lambda: s.remove_candidates(rr, cc, vals)
    if name == "set_number":
        return lambda: s.set_number(rr, cc, vals[0])
    raise KeyError(name)


def mk(state):
    bw, bh, nums, cands = state
    return boards.build(bw, bh, nums, cands)


def trace_update(state, name, k, seed):
    """Uncut run on an equal board: lines, per-field states, final state."""
    s = mk(state)
    f = prepare(name, s, k, seed)
    if f is None:
        return None
    seen = [set([(v, c)]) for v, c in zip(state[2], state[3])]
    big = len(s) > 36
    cnt = [0]

    def obs(code, line):
        cnt[0] += 1
        if big and cnt[0] > 3000 and cnt[0] % 10:
            return
        st = boards.full_state(s)
        for i, p in enumerate(zip(st[2], st[3])):
            seen[i].add(p)
    K.reset()
    K.observer = obs
    K.start(cap=3000000)
    exc = None
    try:
        f()
    except Exception as e:
        exc = type(e).__name__
    K.stop()
    steps = K.steps
    fin = boards.full_state(s)
    for i, p in enumerate(zip(fin[2], fin[3])):
        seen[i].add(p)
    return steps, seen, fin, exc


def count_read(states, name, b, k):
    pk = [mk(s) for s in states]
    K.reset()
    K.start(cap=20000000)
    try:
        OPS[name](pk[b], k, partner(pk, b))
    except Exception:
        pass
    K.stop()
    return K.steps


def probe_read(states, name, b, k):
    pk = [mk(s) for s in states]
    K.reset()
    K.start(cap=20000000)
    try:
        return ("ok", OPS[name](pk[b], k, partner(pk, b)))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))
    finally:
        K.stop()


def count_generate(state, which, seed):
    K.reset()
    s = mk(state)
    random.seed(seed)
    K.start(cap=20000000)
    try:
        do_generate(s, which)
    except Exception:
        pass
    K.stop()
    return K.steps


def do_generate(s, which):
    from sudokutools import generate
    box = (2, 2) if len(s) > 36 else (s.box_width, s.box_height)
    if which == "generate":
        return generate.generate(0, None, box)
    if which == "solution":
        return generate.create_solution(box)
    return generate.generate_from_template(s, 2)


def partner(pkg, b):
    o = pkg[(b + 1) % len(pkg)]
    return o if boards.shape(o) == boards.shape(pkg[b]) else pkg[b]


CUT = (KeyboardInterrupt, MemoryError, RecursionError)


class Boom(Exception):
    pass


def excs(name):
    return {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt,
            "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
            "SystemExit": SystemExit, "KeyError": KeyError, "MemoryError": MemoryError}[name]


def where(state, i):
    return divmod(i, state[0] * state[1])


class World(object):
    def __init__(self, plan, ctx, server):
        self.plan, self.ctx, self.server = plan, ctx, server
        self.pkg = [boards.build(b["bw"], b["bh"], b["grid"], b["cands"]) for b in plan["boards"]]
        self.st = [boards.full_state(p) for p in self.pkg]

    def unchanged(self, what, but=None):
        for i, p in enumerate(self.pkg):
            if i == but:
                continue
            now = boards.full_state(p)
            if now != self.st[i]:
                j = [j for j in range(len(now[2])) if (now[2][j], now[3][j]) !=
                     (self.st[i][2][j], self.st[i][3][j])]
                raise Violation("trace-left:" + what.split()[0],
                                "%s changed field %s of board %d from %r to %r" % (
                                    what, where(now, j[0]) if j else "?", i,
                                    (self.st[i][2][j[0]], sorted(self.st[i][3][j[0]])) if j else None,
                                    (now[2][j[0]], sorted(now[3][j[0]])) if j else None))

    def cut_call(self, fn, at, kind):
        """Run fn with a fault armed; returns (fired, function hit)."""
        t = K.cur
        t.fault = (t.steps + at, kind, None)
        t.fault_fired = None
        K.start(cap=K.steps + 20000000)
        self.answer = None
        try:
            self.answer = ("ok", fn())
        except CUT:
            pass
        except Exception:
            # a fault may be turned into an ordinary error; the state is judged
            pass
        finally:
            K.stop()
            t.fault = None
        if t.fault_fired:
            self.ctx.count("fault:" + kind)
            self.ctx.nontrivial = True
            return True, t.fault_fired[2]
        return False, None

    def right_answer(self, what, name, b, k, answer):
        """A call that returned in spite of a failure inside it must be right."""
        if answer is None or name == "template":
            return
        exp = self.server.ask("props.c03.probe_read", self.st, name, b, k)
        if exp[0] == "ok" and exp[1] != answer:
            raise Violation("wrong-answer:" + name, "%s returned\n%.400r\ninstead of failing or "
                            "returning\n%.400r" % (what, answer, exp[1]))

    def judge_fields(self, b, seen, what):
        now = boards.full_state(self.pkg[b])
        if now[:2] != self.st[b][:2]:
            raise Violation("shape-changed", "%s changed the shape of board %d" % (what, b))
        for i, p in enumerate(zip(now[2], now[3])):
            if p not in seen[i]:
                raise Violation("impossible-field", "after %s field %s of board %d holds %d %s; "
                                "the uncut call only ever leaves %s there" % (
                                    what, where(now, i), b, p[0], sorted(p[1]),
                                    sorted((v, sorted(c)) for v, c in seen[i])))


def at_of(frac, steps):
    return 1 + min(steps - 1, int(frac * steps))


def do_cut(w, c, ctx):
    b = c["b"]
    if b >= len(w.pkg):
        return
    s = w.pkg[b]
    typ = c["type"]
    ask = w.server.ask
    if typ == "read":
        r = ask("props.c03.count_read", w.st, c["name"], b, c["k"])
        if r[0] != "ok" or r[1] < 1:
            if r[0] in ("hang", "limit"):
                raise Violation("no-answer", "%s does not finish" % c["name"])
            return
        at = at_of(c["frac"], r[1])
        random.seed(7)
        fired, fn = w.cut_call(lambda: readers.OPS[c["name"]](s, c["k"], partner(w.pkg, b)), at, c["kind"])
        if fired:
            ctx.count("probe:cut-read")
            ctx.cover("read", c["name"], c["kind"], fn)
        w.unchanged("%s cut at line %d (%s)" % (c["name"], at, c["kind"]))
        if fired:
            w.right_answer("%s, %s in %s at line %d," % (c["name"], c["kind"], fn, at),
                           c["name"], b, c["k"], w.answer)
        ctx.log("read", c["name"], at, fired, fn)
    elif typ == "update":
        r = ask("props.c03.trace_update", w.st[b], c["name"], c["k"], c["seed"])
        if r[0] != "ok" or r[1] is None:
            return
        steps, seen, fin, exc = r[1]
        if steps < 1 or exc is not None:
            return
        f = prepare(c["name"], s, c["k"], c["seed"])
        at = at_of(c["frac"], steps)
        what = "%s cut at line %d of %d (%s)" % (c["name"], at, steps, c["kind"])
        fired, fn = w.cut_call(f, at, c["kind"])
        ctx.log("update", c["name"], at, steps, fired, fn)
        w.judge_fields(b, seen, what)
        w.unchanged(what, but=b)
        if fired:
            ctx.count("probe:cut-update")
            ctx.cover("update", c["name"], c["kind"], fn)
        if c["name"] != "apply_all":
            if c["again"] and fired:
                # cut a second time, then finish
                fired2, _ = w.cut_call(f, at_of(c["frac2"], steps), c["kind"])
                w.judge_fields(b, seen, what + " and again")
            f()
            if fired:
                ctx.count("probe:retry")
            now = boards.full_state(s)
            if now != fin:
                j = [j for j in range(len(now[2])) if (now[2][j], now[3][j]) != (fin[2][j], fin[3][j])][0]
                raise Violation("retry-differs", "%s, then repeated: field %s holds %d %s instead "
                                "of %d %s" % (what, where(now, j), now[2][j], sorted(now[3][j]),
                                              fin[2][j], sorted(fin[3][j])))
        w.st[b] = boards.full_state(s)
    elif typ == "callback":
        left = [c["at"]]
        E = excs(c["exc"])

        def report(step):
            left[0] -= 1
            if left[0] < 0:
                raise E("callback")
        fired = False
        try:
            readers._solvers().solve(s, report)
        except E:
            fired = True
        except RuntimeError:
            fired = E is StopIteration
        if fired:
            ctx.count("fault:callback-raises")
            ctx.count("probe:callback-raises")
            ctx.cover("callback", c["exc"])
            ctx.nontrivial = True
        w.unchanged("solve with a callback raising %s" % c["exc"])
    elif typ == "iterable":
        iterable_cut(w, c, ctx, s, b)
    elif typ == "gen":
        K.busy = False
        it, key = readers.iterator(c["name"], s, c["k"], partner(w.pkg, b))
        K.start(cap=K.steps + 20000000)
        try:
            for _ in range(c["after"]):
                if next(it, None) is None:
                    break
            if not hasattr(it, "close"):
                return
            if c["how"] == "close":
                it.close()
            elif c["how"] == "del":
                del it
            else:
                try:
                    it.throw({"interrupt": KeyboardInterrupt, "memory": MemoryError}[c["how"]]())
                except (KeyboardInterrupt, MemoryError):
                    pass
        finally:
            K.stop()
        ctx.count("fault:generator-" + c["how"])
        ctx.count("probe:gen-" + ("throw" if c["how"] in ("interrupt", "memory") else "close"))
        ctx.cover("gen", c["name"], c["how"], c["after"])
        if c["after"]:
            ctx.nontrivial = True
        w.unchanged("%s abandoned (%s) after %d items" % (c["name"], c["how"], c["after"]))
    elif typ == "limit":
        limit_cut(w, c, ctx, s, b)
    elif typ == "generate":
        r = ask("props.c03.count_generate", w.st[b], c["which"], c["seed"])
        if r[0] != "ok" or r[1] < 1:
            return
        random.seed(c["seed"])
        at = at_of(c["frac"], r[1])
        fired, fn = w.cut_call(lambda: do_generate(s, c["which"]), at, c["kind"])
        if fired:
            ctx.count("probe:generate-cut")
            ctx.cover("generate", c["which"], c["kind"], fn)
        w.unchanged("%s cut at line %d" % (c["which"], at))


def failing(items, at, E):
    for i, x in enumerate(items):
        if i == at:
            raise E("iterable")
        yield x
    raise E("iterable")


def iterable_cut(w, c, ctx, s, b):
    from sudokutools import actions, analyze, notation
    r = random.Random(c["seed"])
    n = s.box_width * s.box_height
    coords = [(r.randrange(n), r.randrange(n)) for _ in range(6)]
    vals = [r.randint(1, n) for _ in range(6)]
    E = excs(c["exc"])
    name = c["name"]
    rr, cc = coords[0]
    what = "%s with an iterable raising %s" % (name, c["exc"])
    seen = None
    retry = None
    if name == "set_cands":
        call = lambda: s.set_candidates(rr, cc, failing(vals, c["at"], E))
    elif name == "rem_cands":
        call = lambda: s.remove_candidates(rr, cc, failing(vals, c["at"], E))
    elif name == "set_action":
        v = vals[0]
        call = lambda: actions.SetNumber(failing(coords, c["at"], E), v)(s)
        st = w.st[b]
        seen = [set([p]) for p in zip(st[2], st[3])]
        for q in coords:
            i = q[0] * n + q[1]
            seen[i] |= {(v, frozenset([v])), (v, st[3][i])}
    elif name == "remove_action":
        call = lambda: actions.RemoveCandidates(failing(coords, c["at"], E), vals[:2])(s)
        st = w.st[b]
        seen = [set([p]) for p in zip(st[2], st[3])]
        for q in coords:
            i = q[0] * n + q[1]
            seen[i].add((st[2][i], st[3][i] - set(vals[:2])))
    elif name == "init_like":
        # the removed candidates come from a failing iterable inside an action
        call = lambda: actions.RemoveCandidates(coords, failing(vals, c["at"], E))(s)
        st = w.st[b]
        seen = [set([p]) for p in zip(st[2], st[3])]
    elif name == "find_conflicts":
        call = lambda: list(analyze.find_conflicts(s, *failing(coords, c["at"], E)))
    else:
        call = lambda: notation.encode(failing(coords, c["at"], E), s.box_width, s.box_height)
    try:
        call()
    except E:
        ctx.count("fault:iterable-raises")
        ctx.count("probe:iterable-raises")
        ctx.cover("iterable", name, c["exc"])
        ctx.nontrivial = True
    if seen is not None:
        w.judge_fields(b, seen, what)
        w.unchanged(what, but=b)
        w.st[b] = boards.full_state(s)
    else:
        w.unchanged(what)


def limit_cut(w, c, ctx, s, b):
    """The real recursion limit, a few frames above the current depth."""
    name = c["name"]
    if name in ("init", "apply"):
        r = w.server.ask("props.c03.trace_update", w.st[b], name, c["k"], 1)
        if r[0] != "ok" or r[1] is None:
            return
        steps, seen, fin, exc = r[1]
        f = prepare(name, s, c["k"], 1)
    else:
        seen = None
        f = lambda: readers.OPS[name](s, c["k"], partner(w.pkg, b))
    d = 0
    fr = sys._getframe()
    while fr is not None:
        d += 1
        fr = fr.f_back
    old = sys.getrecursionlimit()
    hit = False
    answer = None
    try:
        sys.setrecursionlimit(d + 2 + c["depth"])
        try:
            answer = ("ok", f())
        except RecursionError:
            hit = True
    finally:
        sys.setrecursionlimit(old)
    if hit:
        ctx.count("fault:recursion-limit")
        ctx.count("probe:recursion-limit")
        ctx.nontrivial = True
        ctx.cover("limit", name, c["depth"])
    what = "%s under a lowered recursion limit" % name
    if seen is None:
        w.unchanged(what)
        w.right_answer(what, name, b, c["k"], answer)
        return
    w.judge_fields(b, seen, what)
    w.unchanged(what, but=b)
    f()
    if boards.full_state(s) != fin:
        raise Violation("retry-differs", "%s, then repeated, ends in another state" % what)
    w.st[b] = boards.full_state(s)


def execute(plan, ctx):
    from sudokutools.solve import bruteforce, dlx
    server = CleanServer()
    w = World(plan, ctx, server)
    by = plan["bystander"]
    got = []
    if by and by[0] < len(w.pkg):
        grid = w.st[by[0]][2]
        g = ref.geo(*w.st[by[0]][:2])
        sols = ref.solutions(g, grid, 61, budget=400000)
        it = (dlx if by[1] == "dlx" else bruteforce)(w.pkg[by[0]])
        for x in islice(it, by[2]):
            got.append(boards.nums(x))
    try:
        for c in plan["cuts"]:
            do_cut(w, c, ctx)
    except StepLimit:
        raise Violation("no-answer", "a call did not finish within its step budget")
    # afterwards everything works
    states = list(w.st) + [boards.full_state(boards.build(2, 2, [1, 0, 0, 0, 0, 0, 3, 0, 0, 4, 0, 0, 0, 0, 0, 2]))]
    pk = w.pkg + [mk(states[-1])]
    for name, b, k in plan["probes"]:
        if b >= len(pk) or name == "template":
            continue
        exp = server.ask("props.c03.probe_read", states, name, b, k)
        if exp[0] in ("hang", "limit"):
            raise Violation("no-answer", "%s does not finish" % name)
        K.start(cap=K.steps + 30000000)
        try:
            r = ("ok", OPS[name](pk[b], k, partner(pk, b)))
        except StepLimit:
            raise Violation("wrong-afterwards:" + name, "%s does not finish after earlier cuts" % name)
        except Exception as e:
            r = ("exc", type(e).__name__, str(e))
        finally:
            K.stop()
        if r != exp[1]:
            raise Violation("wrong-afterwards:" + name, "after the cut calls %s answers\n%.400r\n"
                            "instead of\n%.400r" % (name, r, exp[1]))
        ctx.log("probe", name, r[0])
        if name.startswith("make:"):
            ctx.count("probe:generate-again")
        elif any(c.get("name") == name and c["b"] == b for c in plan["cuts"]):
            ctx.count("probe:cut-call-again")
    w.unchanged("the probe calls")
    if by and by[0] < len(w.pkg):
        for x in islice(it, 62):
            got.append(boards.nums(x))
        if len(sols) <= 60 and sorted(got) != sorted(sols):
            raise Violation("bystander", "a %s stream open across cut calls delivered %d items "
                            "instead of the %d solutions" % (by[1], len(got), len(sols)))
        ctx.count("probe:bystander-finished")
    server.close()


def simplify(plan):
    if plan["bystander"]:
        yield dict(plan, bystander=None)
    for i, c in enumerate(plan["cuts"]):
        if c.get("again"):
            cs = list(plan["cuts"])
            cs[i] = dict(c, again=0)
            yield dict(plan, cuts=cs)
