"""C11: a failing command changes nothing; scripts stop, terminals go on."""
import os

from .. import shellmodel as sm, shellrun as sr
from ..engine import CleanServer, Inconclusive, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("a case is a seeded session in which lines that are no commands, commands that cannot succeed and "
        "(in a third of the runs) an injected MemoryError or RecursionError inside the library code of a "
        "command alternate with commands that show the state; judged by the model; non-trivial when "
        "a failure happened and, on a terminal, a command was executed after it")
MEASURE = "distinct (route, kind of failure or text of the bad command, kind of the hit command, recording or not) tuples"
REAL = ["sudokutools.shell", "sudokutools.__main__", "everything the commands call", "literal_eval"]
STUB = ["raw input and output devices", "script file", "memory and recursion limits (injected exceptions)"]
ASSUME = ["injected failures happen at a source line of the package outside shell.py while a command runs",
          "input is valid UTF-8"]
SHRINK = ("lines", "c")
PROBES = ["bad-exec", "bad-parse", "natural-failure", "script-stopped", "went-on", "injected",
          "injected-init", "injected-in-loop", "bad-in-loop", "deep"]
WEIGHTS = [("new", 3), ("decode", 9), ("set", 12), ("get", 2), ("gc", 4), ("sc", 9), ("rc", 7), ("init", 8),
           ("encode", 6), ("print", 3), ("view", 4), ("generate", 2), ("gft", 3), ("solve", 6),
           ("stack", 3), ("push", 8), ("pop", 7), ("help", 1)]


def gen(rng, tier):
    inject = rng.random() < .4
    route = rng.choice(("tty", "tty", "tty", "apitty", "pipe", "file", "api", "c"))
    if inject and route == "c":
        route = "pipe"
    tty = sr.is_tty(route)
    n = rng.choice((3, 6, 10, 20))
    bad = rng.choice((.1, .3, .5) if tty else (.03, .1, .2))
    if inject:
        bad = rng.choice((0, 0, .1)) if tty else 0
    cmds, m = sm.gen_cmds(rng, n, dict(loops=rng.choice((0, .1, .2)), bad=bad, deep=True, weights=WEIGHTS,
                                       probe=.3, probe_init=inject))
    cmds += sm.tail(m) if m.running else []
    plain = inject or route == "c"
    lines = sm.gen_lines(rng, cmds, comments=not plain, cont=not plain,
                         join=0 if inject else rng.choice((0, .3)))
    mode, cseed = sr.plan_cuts(rng, 500)
    if rng.random() < .015 and not inject and route != "c":
        sm.burst(rng, lines, bad=tty)
    if inject or rng.random() < .5:
        mode = "lines"
    plan = dict(lines=lines, route=route, mode=mode, cseed=cseed, last=inject or rng.random() < .8)
    if inject:
        plan["fault"] = dict(kind=rng.choice(("memory", "recursion")),
                             at=int(10 ** rng.uniform(0, 4.2)))
    return plan


def simplify(plan):
    f = plan.get("fault")
    if f and f["at"] > 1:
        for x in (1, f["at"] // 2, f["at"] - 1):
            p = dict(plan)
            p["fault"] = dict(f, at=x)
            yield p


def execute(plan, ctx):
    server = CleanServer()
    oracle = sm.Oracle(server)
    route, lines = plan["route"], plan["lines"]
    tty = sr.is_tty(route)
    data = sm.data_of(lines, last=plan["last"])
    command = None
    if route == "c":
        command = sr.one_line(lines)
        if command is None or "\n" in command or "\0" in command:
            return
        lines = [{"p": [command], "c": [c for ln in lines for c in ln["c"]]}]
        s = sr.make_session(route, [])
    else:
        s = sr.make_session(route, sr.events(data, sr.make_cuts(data, plan["mode"], plan["cseed"])))
    K.start(cap=60000000)
    hit = []
    f = plan.get("fault")
    if f:
        def pred(code, line):
            if not s.log.reads or os.path.basename(code.co_filename) in ("shell.py", "__main__.py"):
                return False
            seen[0] += 1
            if seen[0] < f["at"]:
                return False
            hit.append((data[:s.rawin.taken if route != "file" else s.rawfile.taken].count(b"\n"),
                        os.path.basename(code.co_filename), code.co_name))
            return True
        seen = [0]
        K.cur.fault = (0, f["kind"], pred)
    try:
        sr.run_route(route, s, command)
    except StepLimit:
        if hit:
            # after a lost decode, say, a template or a solve may rightly take for ever
            raise Inconclusive("step budget after an injected failure")
        raise Violation("hang", "route %s does not end" % route)
    finally:
        K.stop()
        K.cur.fault = None
    kinds = []

    def hook(m, k):
        kinds.append(k[0])

    if not hit:
        m = sr.check_session(route, lines, s, data, oracle, hook)
    else:
        ctx.count("fault:" + f["kind"])
        # the line that had been received completely when the failure was raised
        k, li = 0, -1
        for i, ln in enumerate(lines):
            k += len(ln["p"])
            if k >= hit[0][0]:
                li = i
                break
        first = None
        j = 0
        while True:
            try:
                m = sr.check_session(route, lines, s, data, oracle, hook, (li, j))
            except Violation as e:
                first = first or e
                m = None
            else:
                if m.injected is None or not m.injected.hit:
                    m = None
                    break
            if m is not None or j > 400:
                break
            j += 1
        if m is None:
            raise first or Violation("unaccounted", "an injected %s in %s was not reported" % (f["kind"], hit[0]))
        name = lines[li]["c"][0]["k"][0] if lines[li]["c"] else "?"
        ctx.count("probe:injected")
        if name == "init":
            ctx.count("probe:injected-init")
        if name == "end":
            ctx.count("probe:injected-in-loop")
        ctx.cover(route, f["kind"], name, hit[0][1:])
    server.close()
    bad = [c for ln in lines for c in ln["c"] if c["k"][0] == "bad"]
    inloop = False
    for c in bad:
        ctx.cover(route, c["t"][:40])
        ctx.count("probe:bad-" + c["k"][1])
        if len(c["t"]) > 300:
            ctx.count("probe:deep")
    if m.failed:
        if not tty:
            ctx.count("probe:script-stopped")
        elif kinds:
            ctx.count("probe:went-on")
        if m.failed > sum(1 for k in kinds if k == "bad") + len(hit):
            ctx.count("probe:natural-failure")
        if "end" in kinds and bad:
            ctx.count("probe:bad-in-loop")
        ctx.nontrivial = True
    ctx.log(s.out, s.err, s.status, s.log.reads, hit)
