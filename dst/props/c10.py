"""C10: a script gives the same result by whatever route it is delivered."""
import random

from .. import shellmodel as sm, shellrun as sr
from ..engine import CleanServer, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 1100, "thorough": 80000}
RULE = ("a case is a seeded script (some with a failing command) delivered 2-5 times in one process "
        "through different routes (file, pipe, -c, terminal, stream arguments), each with its own "
        "chunking, EINTR, line ends and end of input; every session is judged by the model and the "
        "outputs and statuses are compared with each other; non-trivial when two different routes "
        "or chunkings executed at least three commands")
MEASURE = "distinct (routes and chunkings, set of command kinds, failing or not) tuples"
REAL = ["sudokutools.shell", "sudokutools.__main__", "everything the commands call",
        "BufferedReader/TextIOWrapper/argparse of the interpreter"]
STUB = ["raw input and output devices", "script file", "random source (same seed for each delivery)"]
ASSUME = ["the -c route is used for scripts without comments, blank lines and continuations"]
SHRINK = ("lines", "c", "deliveries", "odd")
PROBES = ["odd-characters", "byte-order-mark", "route-c", "route-file", "route-pipe", "route-tty", "route-api", "failing", "crlf",
          "no-final-newline", "byte-wise", "other-stdin-tty", "other-stdin-pipe", "other-stdin-closed", "non-ascii-split", "loop"]


def gen(rng, tier):
    n = rng.choice((3, 5, 8, 12, 20))
    bad = rng.choice((0, 0, 0, .05, .15))
    cmds, m = sm.gen_cmds(rng, n, dict(loops=rng.choice((0, .1)), exit=rng.choice((0, 0, .05)), bad=bad,
                                       deep=True))
    if m.running and not (bad and rng.random() < .5):
        cmds += sm.tail(m)
    withc = rng.random() < .5 and not any("\n" in c["t"] or "\0" in c["t"] for c in cmds)
    lines = sm.gen_lines(rng, cmds, comments=not withc, cont=not withc, join=rng.choice((0, .3, .7)))
    ds = []
    routes = [rng.choice(("pipe", "file", "tty", "api", "apitty")) for _ in range(rng.randint(2, 4))]
    if withc:
        routes.insert(rng.randrange(len(routes) + 1), "c")
    for r in routes:
        mode, cseed = sr.plan_cuts(rng, 500)
        ds.append(dict(route=r, mode=mode, cseed=cseed, last=rng.random() < .6,
                       eol="\r\n" if rng.random() < .2 else "\n",
                       eintr=[rng.randrange(30) for _ in range(rng.choice((0, 0, 2, 5)))],
                       out_faults=[dict(nth=rng.randint(1, 40), kind=rng.choice(("short", "eintr")),
                                        take=rng.randint(1, 9)) for _ in range(rng.choice((0, 0, 2)))],
                       out_tty=rng.random() < .3,
                       side=rng.choice((None, "tty", "tty", "pipe", "closed"))))
    plan = dict(lines=lines, deliveries=ds, seed=rng.randrange(1000))
    if rng.random() < .12:
        # characters the model has no opinion about: the routes are compared with each other
        plan["odd"] = []
        if rng.random() < .5:
            plan["odd"].append([0, 0, 0, "\ufeff"])
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            i = rng.randrange(len(lines))
            j = rng.randrange(len(lines[i]["p"]))
            p = lines[i]["p"][j]
            plan["odd"].append([i, j, rng.choice((0, len(p), rng.randint(0, len(p)))), rng.choice(ODD)])
        if not plan["odd"]:
            plan["odd"] = [[0, 0, 0, "\ufeff"]]
    return plan


ODD = ("\ufeff", "\u00a0", "\u200b", "\u2028", "\x0b", "\x0c", "\x1c", "\x85", "\x1a", "\x04", "\t",
       "\x00", "\x1b[A", "\x7f", "\u0661", "\uff11", "e\u0301", "\U0001f600", "'", '"', ";", " ;", ";;")


def oddly(plan):
    lines = [dict(ln, p=list(ln["p"])) for ln in plan["lines"]]
    for i, j, at, ch in plan["odd"]:
        if i < len(lines) and j < len(lines[i]["p"]):
            p = lines[i]["p"][j]
            lines[i]["p"][j] = p[:at] + ch + p[at:]
    return lines


def compare_odd(plan, ctx):
    """The same odd bytes by every route: the same output and the same kind of status."""
    lines = oddly(plan)
    texts = [p for ln in lines for p in ln["p"]]
    seen = []
    for d in plan["deliveries"]:
        route = d["route"]
        data = sm.data_of(lines, d["eol"], d["last"])
        command = None
        evs = []
        if route == "c":
            if any("\0" in t for t in texts):
                continue        # no argument of a process
            command = "; ".join(t.strip() for t in texts if t.strip())
            if not command:
                continue
        elif sr.is_tty(route):
            continue
        else:
            evs = sr.events(data, sr.make_cuts(data, d["mode"], d["cseed"]), d["eintr"])
        s = sr.make_session(route, evs, d["out_faults"], out_tty=d["out_tty"], side=d["side"])
        random.seed(plan["seed"])
        K.start(cap=K.steps + 60000000)
        try:
            sr.run_route(route, s, command)
        except StepLimit:
            raise Violation("hang", "route %s does not end" % route)
        finally:
            K.stop()
        ctx.log(route, s.out, s.err, s.status)
        ctx.count("probe:odd-characters")
        if plan["odd"][0] == [0, 0, 0, "\ufeff"]:
            ctx.count("probe:byte-order-mark")
        for f in s.log.fired:
            ctx.count("fault:" + f)
        seen.append((route, s))
    for route, s in seen[1:]:
        r0, s0 = seen[0]
        if s.out != s0.out:
            raise Violation("differs", "the script %r prints\n%.600r\nby route %s and\n%.600r\nby route %s" % (
                texts[:6], s0.out, r0, s.out, route))
        if (s.status == 0) != (s0.status == 0):
            raise Violation("status-differs", "the script %r has exit status %s by route %s and %s by "
                            "route %s" % (texts[:6], s0.status, r0, s.status, route))
    ctx.nontrivial = len({r for r, _ in seen}) > 1
    ctx.cover("odd", sorted({r for r, _ in seen}), sorted({o[3] for o in plan["odd"]}))


def execute(plan, ctx):
    if plan.get("odd"):
        return compare_odd(plan, ctx)
    server = CleanServer()
    oracle = sm.Oracle(server)
    lines = plan["lines"]
    cmds = [c for ln in lines for c in ln["c"]]
    results = []
    kinds = set()

    def hook(m, k):
        kinds.add(k[0])

    for d in plan["deliveries"]:
        route = d["route"]
        data = sm.data_of(lines, d["eol"], d["last"])
        use, command = lines, None
        if route == "c":
            command = sr.one_line(lines)
            if command is None or any(len(ln["p"]) > 1 for ln in lines):
                continue
            use = [{"p": [command], "c": cmds}]
            s = sr.make_session(route, [], d["out_faults"], out_tty=d["out_tty"], side=d["side"])
        else:
            evs = sr.events(data, sr.make_cuts(data, d["mode"], d["cseed"]), d["eintr"])
            s = sr.make_session(route, evs, d["out_faults"], out_tty=d["out_tty"], side=d["side"])
        random.seed(plan["seed"])
        K.start(cap=K.steps + 60000000)
        try:
            sr.run_route(route, s, command)
        except StepLimit:
            raise Violation("hang", "route %s does not end" % route)
        finally:
            K.stop()
        m = sr.check_session(route, use, s, data, oracle, hook)
        results.append((d, s, m))
        for f in s.log.fired:
            ctx.count("fault:" + f)
        ctx.count("fault:chunked-input", max(0, len(s.log.reads) - 2))
        ctx.count("probe:route-" + route[:3 if route.startswith("api") else 9])
        if s.side is not None:
            ctx.count("probe:other-stdin-" + d["side"])
        if d["eol"] != "\n":
            ctx.count("probe:crlf")
        if not d["last"]:
            ctx.count("probe:no-final-newline")
        if d["mode"] == "bytes":
            ctx.count("probe:byte-wise")
            if any(b > 127 for b in data):
                ctx.count("probe:non-ascii-split")
        ctx.log(route, s.out, s.err, s.status, s.log.reads)
    server.close()
    scripts = [(d, s, m) for d, s, m in results if not m.tty]
    ttys = [(d, s, m) for d, s, m in results if m.tty]
    for d, s, m in scripts[1:]:
        d0, s0, _ = scripts[0]
        if s.out != s0.out:
            raise Violation("differs", "the script prints\n%.600r\nby route %s and\n%.600r\nby route %s" % (
                s0.out, d0["route"], s.out, d["route"]))
        if (s.status == 0) != (s0.status == 0):
            raise Violation("status-differs", "exit status %s by route %s and %s by route %s" % (
                s0.status, d0["route"], s.status, d["route"]))
    for d, s, m in ttys:
        text = "".join(m.segments)
        if scripts:
            want = scripts[0][1].out
            bad = scripts[0][2].failed
        else:
            want, bad = "".join(ttys[0][2].segments), ttys[0][2].failed
        if text != want and not (bad and text.startswith(want)):
            raise Violation("differs-tty", "typed at a terminal the script prints\n%.600r\ninstead of\n%.600r" % (
                text, want))
    if any(m.failed for _, _, m in results):
        ctx.count("probe:failing")
    if "end" in kinds:
        ctx.count("probe:loop")
    pats = sorted({(d["route"], d["mode"]) for d, _, _ in results})
    ctx.nontrivial = len(pats) > 1 and all(m.executed >= 3 for _, _, m in results)
    ctx.cover(pats, sorted(kinds), any(m.failed for _, _, m in results))
