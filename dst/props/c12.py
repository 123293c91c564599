"""C12: Ctrl-C costs at most the interrupted command."""
from .. import shellmodel as sm, shellrun as sr, typist
from ..engine import CleanServer, Inconclusive, Violation
from ..mon import K, StepLimit

RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("a case is a seeded terminal session with 1-5 Ctrl-C at seeded moments: while waiting for a line, a "
        "continuation or the rest of a line, at an output operation, or inside library code a command "
        "runs; a simulated user reads the prompt and reveals the whole state afterwards; judged against "
        "all states the property allows; or the same for a script, whose status is judged; non-trivial "
        "when an interrupt was delivered")
MEASURE = "distinct (route, kind of interrupt, command kind hit, recording, continuation) tuples"
REAL = ["sudokutools.shell", "sudokutools.__main__", "everything the commands call",
        "BufferedReader/TextIOWrapper of the interpreter"]
STUB = ["terminal devices", "the user", "signal delivery (KeyboardInterrupt raised at library lines and device operations)"]
ASSUME = ["no interrupt while the banner, an error message or the reaction to an earlier Ctrl-C is written, "
          "nor between two lines of shell.py (the moment a result is stored cannot be told from outside)"]
SHRINK = ("lines", "faults", "c")
PROBES = ["intr-read", "intr-write", "intr-compute", "partial-line", "in-loop-run", "in-init", "in-continuation",
          "while-recording", "script"]
WEIGHTS = [("new", 3), ("decode", 9), ("set", 10), ("get", 2), ("gc", 3), ("sc", 6), ("rc", 6), ("init", 10),
           ("encode", 6), ("print", 4), ("view", 5), ("generate", 2), ("solve", 4), ("clear", 1),
           ("stack", 3), ("push", 9), ("pop", 6), ("help", 1)]


def gen(rng, tier):
    n = rng.choice((2, 4, 6, 10, 16) * 4 + (30,))
    cmds, m = sm.gen_cmds(rng, n, dict(loops=rng.choice((0, .15, .3)), weights=WEIGHTS, flat_generate=True,
                                       shapes=[(2, 2), (2, 2), (2, 3), (3, 2), (3, 3)]))
    hasgen = any(c["k"][0] == "generate" for c in cmds)
    route = rng.choice(("tty",) * 8 + ("pipe", "file", "c"))
    lines = sm.gen_lines(rng, cmds, comments=False, cont=route != "c", join=0 if hasgen else rng.choice((0, 0, .3)))
    if route == "tty":
        return dict(lines=lines, route=route, faults=typist.gen_faults(rng, lines, rng.choice((1, 1, 2, 2, 3, 3, 5, 5, 12))))
    return dict(lines=lines, route=route, fault=dict(kind=rng.choice(("read", "write", "compute")),
                                                     at=int(10 ** rng.uniform(0, 3.5))))


def simplify(plan):
    fs = plan.get("faults", ())
    for i, f in enumerate(fs):
        for x in (1, f["at"] // 2, f["at"] - 1):
            if 0 < x < f["at"]:
                p = dict(plan)
                p["faults"] = list(fs)
                p["faults"][i] = dict(f, at=x)
                yield p
    # drop a line together with the numbering of the faults behind it
    for i in range(len(plan["lines"])):
        p = dict(plan)
        p["lines"] = plan["lines"][:i] + plan["lines"][i + 1:]
        p["faults"] = [dict(f, line=f["line"] - (f["line"] > i)) for f in fs if f["line"] != i]
        yield p


def script(plan, ctx):
    """An interrupted script ends with a non-zero status."""
    route, lines, f = plan["route"], plan["lines"], plan["fault"]
    data = sm.data_of(lines)
    command = sr.one_line(lines) if route == "c" else None
    if route == "c" and (command is None or "\n" in command):
        return
    evs = sr.events(data, sr.make_cuts(data, "lines", 0))
    if f["kind"] == "read" and route != "c":
        evs.insert(f["at"] % (len(evs) + 1), ("intr",))
    s = sr.make_session(route, [] if route == "c" else evs)
    if f["kind"] == "write":
        s.rawout.faults = [dict(nth=1 + f["at"] % 12, kind="intr")]
    elif f["kind"] == "compute":
        def pred(code, line):
            return (bool(s.log.reads) or route == "c" and started[0]) and typist.library(code, line) and count()

        def count():
            n[0] += 1
            return n[0] >= f["at"]
        n, started = [0], [True]
        K.cur.fault = (0, "interrupt", pred)
    K.start(cap=30000000)
    try:
        sr.run_route(route, s, command)
    except StepLimit:
        raise Inconclusive("step budget")
    finally:
        K.stop()
        K.cur.fault = None
    if K.cur.fault_fired is not None:
        s.log.fired.append("intr-compute")
    hit = [x for x in s.log.fired if x.startswith("intr")]
    for x in hit:
        ctx.count("fault:" + x)
        ctx.count("probe:script")
    if hit:
        ctx.nontrivial = True
        if s.status == 0:
            raise Violation("script-status", "route %s: interrupted (%s) but the exit status is 0" % (route, hit))
    ctx.cover(route, hit)
    ctx.log(s.out, s.err, s.status, s.log.fired)


def execute(plan, ctx):
    if plan["route"] != "tty":
        return script(plan, ctx)
    server = CleanServer()
    oracle = sm.Oracle(server)
    run_typist(plan, ctx, oracle)
    server.close()


def run_typist(plan, ctx, oracle):
    s = sr.make_session("tty", [])
    recs = []
    typist.attach(plan, s, recs)
    K.start(cap=30000000)
    try:
        sr.run_route("tty", s)
    except StepLimit:
        raise Inconclusive("step budget")
    finally:
        K.stop()
        K.cur.fault = None
    if recs and recs[-1]["end"] is None and K.cur.fault_fired is not None:
        recs[-1]["fired"] = True
    ctx.log(s.out, s.err, s.status, s.log.fired, [(r["kind"], r["fired"], r["end"]) for r in recs])
    typist.judge(s, recs, oracle)
    for x in s.log.fired:
        ctx.count("fault:" + x)
        ctx.count("probe:" + x)
    data = s.out
    for i, r in enumerate(recs):
        if r["fired"] or r["kind"] == "intr":
            ctx.nontrivial = True
            kinds = sorted({c["k"][0] for c in r["cmds"] or ()})
            rec = (typist.prompt_of(data[:r["start"]]) or "").startswith("loop")
            cont = i > 0 and recs[i - 1]["kind"] == "part"
            if rec:
                ctx.count("probe:while-recording")
            if cont:
                ctx.count("probe:in-continuation")
            if "end" in kinds and r["fired"]:
                ctx.count("probe:in-loop-run")
            if "init" in kinds and r["fired"]:
                ctx.count("probe:in-init")
            ctx.cover(r["kind"], kinds, rec, cont)
    return recs
