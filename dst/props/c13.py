"""C13: the stack returns exactly what was pushed, once."""
from .. import shellmodel as sm, shellrun as sr, typist
from ..engine import CleanServer, Violation
from ..mon import K, StepLimit
from . import c12

RUNS = {"quick": 4500, "thorough": 100000}
RULE = ("a case is a seeded session dominated by push and pop (from the end and from positions), edits of "
        "the current sudoku between them, loops, failing commands and, on a terminal, Ctrl-C at seeded "
        "moments; at the end every entry is popped and shown with candidates; judged by the model; "
        "non-trivial when an entry was popped after something else had been changed or had failed")
MEASURE = "distinct (route, deepest stack, pops from inside, interrupted or failing or looping) tuples"
REAL = c12.REAL
STUB = c12.STUB
ASSUME = c12.ASSUME
SHRINK = ("lines", "faults", "c")
PROBES = ["pop-inside", "deep-stack", "very-deep-stack", "interrupted", "failing", "loop", "edited-after-push", "same-board-twice"]
simplify = c12.simplify


def gen(rng, tier):
    big = rng.random() < .06
    n = rng.randint(60, 160) if big else rng.choice((6, 10, 16, 24, 40))
    inter = rng.random() < .4
    bad = rng.choice((0, .1, .2))
    deep = not inter and rng.random() < .06
    cmds, m = sm.gen_cmds(rng, n, dict(deep_stack=deep and rng.choice((400, 400, 1200)), loops=.2 if deep else rng.choice((0, .1, .2)), weights=sm.STACKY, flat_generate=inter,
                                       bad=bad, shapes=[(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4)]))
    if inter:
        cmds = [c for c in cmds if c["k"][0] != "gft"]
        hasgen = any(c["k"][0] == "generate" for c in cmds)
        lines = sm.gen_lines(rng, cmds, comments=False, join=0 if hasgen else rng.choice((0, .3)))
        return dict(lines=lines, route="tty", faults=typist.gen_faults(rng, lines, rng.choice((1, 2, 4))))
    cmds += sm.tail(m) if m.running else []
    route = "tty" if bad else rng.choice(("tty", "pipe", "file", "api"))
    lines = sm.gen_lines(rng, cmds, join=rng.choice((0, .3)))
    mode, cseed = sr.plan_cuts(rng, 500)
    return dict(lines=lines, route=route, mode=mode, cseed=cseed, faults=[])


def execute(plan, ctx):
    server = CleanServer()
    oracle = sm.Oracle(server)
    info = dict(depth=0, inside=0, edited=0, pops=0, fails=0, twice=0)
    if "mode" not in plan:
        c12.run_typist(plan, ctx, oracle)
        ctx.count("probe:interrupted")
        hit = True
    else:
        hit = False
        data = sm.data_of(plan["lines"])
        s = sr.make_session(plan["route"], sr.events(data, sr.make_cuts(data, plan["mode"], plan["cseed"])))
        K.start(cap=60000000)
        try:
            sr.run_route(plan["route"], s)
        except StepLimit:
            raise Violation("hang", "the session does not end")
        finally:
            K.stop()
        last = [None]

        def hook(m, k):
            info["depth"] = max(info["depth"], len(m.stack))
            if k[0] == "pop" and m.stack:
                info["pops"] += 1
                if k[1] is not None and k[1] < len(m.stack) - 1:
                    info["inside"] += 1
            if k[0] in ("set", "sc", "rc", "init") and last[0] == "push":
                info["edited"] += 1
            if k[0] == "push" and last[0] == "push":
                info["twice"] += 1
            last[0] = k[0]

        m = sr.check_session(plan["route"], plan["lines"], s, data, oracle, hook)
        info["fails"] = m.failed
        ctx.nontrivial = info["pops"] > 0 and (info["edited"] > 0 or m.failed > 0)
        ctx.log(s.out, s.err, s.status)
    server.close()
    for k, name in (("inside", "pop-inside"), ("edited", "edited-after-push"), ("fails", "failing"),
                    ("twice", "same-board-twice")):
        if info[k]:
            ctx.count("probe:" + name)
    if info["depth"] > 10:
        ctx.count("probe:deep-stack")
    if info["depth"] > 100:
        ctx.count("probe:very-deep-stack")
    loop = any(c["k"][0] == "end" for ln in plan["lines"] for c in ln["c"])
    if loop:
        ctx.count("probe:loop")
    ctx.cover(plan["route"], min(20, info["depth"]), min(6, info["inside"]), hit, bool(info["fails"]), loop)
