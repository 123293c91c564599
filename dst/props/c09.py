"""C09: the shell runs each command exactly once, in order."""
from .. import shellmodel as sm, shellrun as sr
from ..engine import CleanServer, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 2400, "thorough": 100000}
RULE = ("a case is a seeded session of 1-40 (some 300) valid commands spread over lines with ';', "
        "continuations, comments, blank lines and loops, delivered through one route in seeded "
        "chunks; its output, the moments it waits for input, stderr and exit status are compared "
        "with the model; non-trivial when at least three commands were executed")
MEASURE = "distinct (route, chunking, set of command kinds, loop/exit/continuation pattern) tuples"
REAL = ["sudokutools.shell", "sudokutools.__main__", "everything the commands call",
        "BufferedReader/TextIOWrapper/argparse of the interpreter"]
STUB = ["raw input and output devices", "script file"]
ASSUME = ["help texts and board pictures are compared with what a fresh process prints; the numbers "
          "and candidates in the pictures are checked against the model"]
SHRINK = ("lines", "c")
PROBES = ["loop-run", "exit", "continuation", "recorded-exit", "nested-output", "join",
          "generate", "non-ascii", "big-input", "short-write"]


def gen(rng, tier):
    big = rng.random() < .04
    n = rng.randint(60, 300) if big else rng.choice((2, 5, 8, 12, 20, 30))
    opts = dict(loops=rng.choice((0, .08, .2)), exit=rng.choice((0, 0, .02, .1)))
    if rng.random() < .25:
        opts["weights"] = sm.STACKY
    cmds, m = sm.gen_cmds(rng, n, opts)
    if m.running:
        cmds += sm.tail(m)
    route = rng.choice(("pipe", "pipe", "tty", "tty", "tty", "file", "api", "apitty", "c"))
    lines = sm.gen_lines(rng, cmds, comments=route != "c", cont=route != "c", join=rng.choice((0, .3, .7)),
                         long=rng.random() < .2)
    mode, cseed = sr.plan_cuts(rng, 200)
    if rng.random() < .03 and route != "c":
        sm.burst(rng, lines)
        mode = "lines"
    faults = []
    for _ in range(rng.choice((0, 0, 1, 3))):
        faults.append(dict(nth=rng.randint(1, 60), kind=rng.choice(("short", "eintr")), take=rng.randint(1, 20)))
    return dict(lines=lines, route=route, mode=mode, cseed=cseed, last=rng.random() < .8,
                eintr=[rng.randrange(30) for _ in range(rng.choice((0, 0, 2)))], out_faults=faults,
                side=rng.choice((None, None, "tty", "pipe", "closed")))


def execute(plan, ctx):
    server = CleanServer()
    oracle = sm.Oracle(server)
    route, lines = plan["route"], plan["lines"]
    data = sm.data_of(lines, last=plan["last"])
    if route == "c":
        command = sr.one_line(lines)
        if command is None or "\n" in command:
            return
        lines = [{"p": [command], "c": [c for ln in lines for c in ln["c"]]}]
        s = sr.make_session(route, [], side=plan["side"])
    else:
        command = None
        evs = sr.events(data, sr.make_cuts(data, plan["mode"], plan["cseed"]), plan["eintr"])
        s = sr.make_session(route, evs, plan["out_faults"], side=plan["side"])
    K.start(cap=60000000)
    try:
        sr.run_route(route, s, command)
    except StepLimit:
        raise Violation("hang", "the session did not end within %d lines of package code" % K.steps)
    finally:
        K.stop()
    kinds = set()
    def hook(m, k):
        kinds.add(k[0])
    m = sr.check_session(route, lines, s, data, oracle, hook)
    server.close()
    for f in s.log.fired:
        ctx.count("fault:" + f)
    ctx.count("fault:chunked-input", max(0, len(s.log.reads) - 2))
    if "end" in kinds:
        ctx.count("probe:loop-run")
    if "exit" in kinds:
        ctx.count("probe:exit")
        if m.rec is not None:
            ctx.count("probe:recorded-exit")
    cont = any(len(ln["p"]) > 1 for ln in lines)
    if cont:
        ctx.count("probe:continuation")
    if any(len(ln["c"]) > 1 for ln in lines):
        ctx.count("probe:join")
    if kinds & {"view", "print"}:
        ctx.count("probe:nested-output")
    if kinds & {"generate", "gft"}:
        ctx.count("probe:generate")
    if len(data) > 8192:
        ctx.count("probe:big-input")
    if any(b > 127 for b in data):
        ctx.count("probe:non-ascii")
    if any("short" in f for f in s.log.fired):
        ctx.count("probe:short-write")
    ctx.nontrivial = m.executed >= 3
    ctx.cover(route, plan["mode"], sorted(kinds), cont, m.running, m.rec is not None)
    ctx.log(s.out, s.err, s.status, s.log.reads)
