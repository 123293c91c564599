"""C08: seeded runs are reproducible in every process."""
import json
import os
import random
import subprocess
import sys
from itertools import islice

from .. import boards, clock, readers
from ..engine import HERE, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 700, "thorough": 20000}
RULE = ("a case is a seeded plan: a sequence of random.seed / generating calls / streams / step "
        "reports / hints / ratings, executed twice: in a simulated process with a history (earlier "
        "calls, some cut by a fault) and with other library calls in between, and in a fresh "
        "process under another hash seed without either; every result must be equal; non-trivial "
        "when the plan has a seeded generating call and at least one call in between")
MEASURE = "distinct (kinds of compared calls, kinds of calls in between, hash seed pair mod 4) tuples"
REAL = ["sudokutools.generate", "sudokutools.solve", "sudokutools.dlx", "sudokutools.solvers",
        "sudokutools.analyze", "hash randomisation of the real interpreter", "random module"]
STUB = ["process history (prescribed by the plan)", "clocks of the processes"]
ASSUME = ["same interpreter version in both processes"]
SHRINK = ("ops", "history")
PROBES = ["generated", "fresh-process", "stream", "report", "noise", "history-cut"]

SMALL = [(2, 2), (2, 3), (3, 2), (2, 2), (1, 4)]
NOISE = [x for x in sorted(readers.OPS) if x not in ("template", "solve_abort")]


def gen_board(rng):
    big = rng.random() < .12
    bw, bh = rng.choice([(3, 3), (2, 4)] if big else SMALL)
    kind = rng.choice(("unique", "few", "many", "conflict"))
    grid = boards.pick(rng, bw, bh, kind)
    n = bw * bh
    cands = None
    if rng.random() < .5:
        from .. import ref
        cands = [sorted(c) for c in ref.candidates(ref.geo(bw, bh), grid)]
    return dict(bw=bw, bh=bh, kind=kind, grid=list(grid), cands=cands)


def gen_gen(rng):
    x = rng.random()
    shape = list(rng.choice(SMALL + [(3, 3)] if rng.random() < .15 else SMALL))
    if x < .5:
        return ["generate", shape, rng.choice((0, 0, 5, 10)),
                rng.choice((None, "rotate-90", "rotate-180", "mirror-x", "mirror-xy"))]
    if x < .75:
        return ["solution", shape]
    return ["template", rng.randrange(4), rng.choice((1, 3, 20))]


def gen(rng, tier):
    bs = [gen_board(rng) for _ in range(rng.choice((1, 2)))]
    if len(bs) == 2 and rng.random() < .5:
        t = boards.twin_spec(rng, bs[0])
        if t:
            bs[1] = t
    ops = [["seed", rng.choice((0, 1, 42, rng.randrange(1 << 30)))]]
    sid = 0
    for _ in range(rng.randint(3, 14)):
        x = rng.random()
        b = rng.randrange(len(bs))
        if x < .26:
            ops.append(gen_gen(rng))
        elif x < .30:
            ops.append(["seed", rng.randrange(1 << 20)])
        elif x < .38:
            ops.append(["open", sid, b, rng.choice(("dlx", "bruteforce", "hints", "find", "conflicts")),
                        rng.randrange(40)])
            sid += 1
        elif x < .50 and sid:
            ops.append(["next", rng.randrange(sid), rng.choice((1, 2, 5, 20))])
        elif x < .56:
            ops.append(["report", b])
        elif x < .60:
            ops.append(["rate", b])
        elif x < .64:
            ops.append(["hintsall", b])
        elif x < .68:
            ops.append(["rategen"])
        else:
            ops.append(["noise", rng.choice(NOISE), b, rng.randrange(40)])
    hist = []
    for _ in range(rng.randint(0, 4)):
        x = rng.random()
        if x < .3:
            hist.append(["gen", gen_gen(rng)])
        elif x < .7:
            hist.append(["call", rng.choice(NOISE), rng.randrange(len(bs)), rng.randrange(40)])
        else:
            hist.append(["cut", rng.choice(NOISE), rng.randrange(len(bs)), rng.randrange(40),
                         rng.choice((3, 30, 300, 3000)), rng.choice(("interrupt", "memory", "recursion"))])
    return dict(boards=bs, ops=ops, history=hist, clock2=clock.gen(rng),
                env=rng.choice(({}, dict(LANG="C", LC_ALL="C", TZ="Asia/Tokyo", COLUMNS="20"),
                                dict(LANG="de_DE.UTF-8", HOME="/nonexistent", TERM="dumb"))),
                hashseed=rng.choice((0, 1, 2, 3, 12345, rng.randrange(1 << 31))))


def mk(plan):
    return [boards.build(b["bw"], b["bh"], b["grid"], b["cands"]) for b in plan["boards"]]


def generate(op, pk):
    from sudokutools import generate as G
    if op[0] == "generate":
        return boards.nums(G.generate(op[2], op[3], tuple(op[1])))
    if op[0] == "solution":
        return boards.nums(G.create_solution(tuple(op[1])))
    t = pk[op[1] % len(pk)]
    if sum(boards.nums(t)) == 0 or len(t) > 64:
        return "skipped"
    try:
        return boards.nums(G.generate_from_template(t, op[2]))
    except RuntimeError as e:
        return "RuntimeError"


def evaluate(plan, noisy, ctx=None):
    """Results of the compared calls."""
    from sudokutools import analyze, generate as G, solvers
    pk = mk(plan)
    out = []
    streams = {}
    if noisy:
        side = mk(plan)
        for h in plan["history"]:
            if h[0] == "gen":
                generate(h[1], side)
                continue
            t = K.cur
            if h[0] == "cut":
                t.fault = (t.steps + h[4], h[5], None)
            try:
                readers.OPS[h[1]](side[h[2] % len(side)], h[3], side[h[2] % len(side)])
            except (KeyboardInterrupt, MemoryError, RecursionError):
                ctx.count("fault:" + h[5])
                ctx.count("probe:history-cut")
            t.fault = None
    random.seed(1)
    for op in plan["ops"]:
        k = op[0]
        if k == "noise":
            if noisy:
                st = random.getstate()
                b = op[2] % len(pk)
                readers.OPS[op[1]](pk[b], op[3], pk[b])
                ctx.count("probe:noise")
                if random.getstate() != st:
                    raise Violation("consumes-random", "%s consumed values of the random source" % op[1])
            continue
        st = random.getstate()
        if k == "seed":
            random.seed(op[1])
            continue
        elif k in ("generate", "solution", "template"):
            out.append((k, generate(op, pk)))
            continue
        elif k == "rategen":
            s = G.generate(0, None, (2, 2))
            out.append((k, boards.nums(s), analyze.rate(s), analyze.score(s)))
            continue
        elif k == "open":
            b = op[2] % len(pk)
            streams[op[1]] = readers.iterator(op[3], pk[b], op[4], pk[b])
        elif k == "next":
            if op[1] in streams:
                it, key = streams[op[1]]
                out.append((k, [key(x) for x in islice(it, op[2])]))
        elif k == "report":
            steps = []
            s = solvers.solve(pk[op[1] % len(pk)], steps.append)
            out.append((k, [str(x) for x in steps], [readers.step_key(x) for x in steps], boards.nums(s)))
        elif k == "rate":
            s = pk[op[1] % len(pk)]
            out.append((k, analyze.rate(s), analyze.score(s)))
        elif k == "hintsall":
            out.append((k, [str(x) for x in islice(solvers.hints(pk[op[1] % len(pk)]), 40)]))
        if noisy and random.getstate() != st:
            raise Violation("consumes-random", "%s consumed values of the random source" % k)
    return json.loads(json.dumps(out))


def fresh(plan):
    """The same in a new interpreter under another hash seed."""
    from .. import driver
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "dst.props.c08"], cwd=HERE,
                       env=dict(driver.env(plan["hashseed"]), **plan["env"]), input=json.dumps(plan), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
    if p.returncode != 0:
        return dict(error=p.stderr[-1500:])
    return json.loads(p.stdout)


def execute(plan, ctx):
    K.start(cap=60000000)
    try:
        mine = evaluate(plan, True, ctx)
    except StepLimit:
        raise Violation("no-answer", "the calls did not finish within %d steps" % K.steps)
    finally:
        K.stop()
    other = fresh(plan)
    ctx.count("probe:fresh-process")
    ctx.count("fault:other-process-and-hash-seed")
    if isinstance(other, dict):
        raise Violation("fresh-fails", "the calls fail in a fresh process: %s" % other["error"])
    if mine != other:
        for a, b in zip(mine, other):
            if a != b:
                raise Violation("differs:" + a[0], "%s gives\n%.500r\nin one process and\n%.500r\n"
                                "in a fresh process under hash seed %d" % (a[0], a, b, plan["hashseed"]))
        raise Violation("differs", "%d results versus %d in a fresh process" % (len(mine), len(other)))
    kinds = sorted({a[0] for a in mine})
    noise = sorted({o[1] for o in plan["ops"] if o[0] == "noise"})
    if set(kinds) & {"generate", "solution", "template", "rategen"}:
        ctx.count("probe:generated")
        ctx.nontrivial = bool(noise)
    if "next" in kinds:
        ctx.count("probe:stream")
    if "report" in kinds:
        ctx.count("probe:report")
    ctx.cover(kinds, noise, plan["hashseed"] % 4)
    ctx.log(mine)


if __name__ == "__main__":
    from .. import engine
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (70, 70))
    out = os.fdopen(os.dup(1), "w")
    engine.boot()
    plan = json.load(sys.stdin)
    os.chdir("/")
    clock.use(plan["clock2"])
    out.write(json.dumps(evaluate(plan, False)))
    out.flush()
    os._exit(0)
