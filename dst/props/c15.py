"""C15: shell sessions in one process do not influence each other."""
import errno

from .. import shellmodel as sm, shellrun as sr, typist
from ..engine import CleanServer, Violation, isolated
from ..mon import K, StepLimit, Task
from ..streams import RawOut, Log

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("a case is 2-5 seeded shell sessions (terminals and scripts, each on its own devices) in threads of "
        "one process under a seeded baton schedule, some with failing commands, an interrupt, failing "
        "devices, exit, an input that stalls until the other sessions have ended, or the same lines as another; each must print, report and end as it does alone in another process, and as "
        "the model says; non-trivial when the baton moved between two sessions inside commands")
MEASURE = "distinct (session kinds and faults, number of sessions, switch count class) tuples"
REAL = ["sudokutools.shell", "everything the commands call", "real Python threads"]
STUB = ["thread scheduler (seeded baton)", "raw devices of each session",
        "sys.stderr (one per thread, so that reports can be told apart)"]
ASSUME = ["sessions with generating commands share the random source and are judged by the model only"]
SHRINK = ("sessions", "schedule", "lines", "c")
PROBES = ["faulty-neighbour", "interrupted-neighbour", "exit-neighbour", "failing-neighbour", "clear", "loops",
          "generate", "three-sessions", "stalled-neighbour", "same-lines"]


def gen_session(rng):
    kind = rng.choice(("plain", "plain", "bad", "exit", "outfail", "infail", "intr", "compute"))
    n = rng.choice((2, 4, 8, 14))
    weights = sm.WEIGHTS if rng.random() < .5 else sm.STACKY
    gens = rng.random() < .2
    weights = [(a, w) for a, w in weights if gens or a not in ("generate", "gft")]
    cmds, m = sm.gen_cmds(rng, n, dict(loops=rng.choice((0, .15)), bad=.2 if kind == "bad" else 0,
                                       exit=.1 if kind == "exit" else 0, weights=weights,
                                       shapes=[(2, 2), (2, 3), (3, 2), (2, 2), (3, 3)]))
    cmds += sm.tail(m) if m.running else []
    tty = rng.random() < .5
    lines = sm.gen_lines(rng, cmds, join=rng.choice((0, .3)))
    mode, cseed = sr.plan_cuts(rng, 300)
    s = dict(kind=kind, tty=tty, lines=lines, mode=mode, cseed=cseed, last=True)
    if kind in ("outfail", "infail", "intr"):
        s["at"] = rng.random()
    elif kind == "compute":
        s["at"] = int(10 ** rng.uniform(0, 3.3))
        s["exc"] = rng.choice(("interrupt", "memory", "recursion"))
    return s


class Stall(object):
    """What a stalled input waits for: the end of all sessions that are not stalled."""

    def blocked(self, task):
        return any(not t.done and not t.ctx.get("stalls") for t in K.tasks)


def gen(rng, tier):
    ss = [gen_session(rng) for _ in range(rng.choice((2, 2, 3, 3, 5)))]
    if rng.random() < .15:
        # a session typing the same as another
        i = rng.randrange(1, len(ss))
        ss[i] = dict(ss[0], tty=ss[i]["tty"], mode=ss[i]["mode"], cseed=ss[i]["cseed"])
    if rng.random() < .2:
        s = rng.choice(ss)
        if s["kind"] in ("plain", "bad", "exit"):
            s["stall"] = rng.random()
    mode = rng.choice(("fine", "mixed", "coarse"))
    q = {"fine": lambda: rng.randint(1, 6), "mixed": lambda: int(10 ** rng.uniform(0, 3)),
         "coarse": lambda: rng.randint(50, 3000)}[mode]
    schedule = [[rng.randrange(len(ss)), q()] for _ in range(rng.choice((8, 40, 120)))]
    return dict(sessions=ss, schedule=schedule, cap=60000000)


def make(p):
    data = sm.data_of(p["lines"], last=p["last"])
    cut = make_cut = sr.make_cuts(data, p["mode"], p["cseed"])
    out_faults, evs = [], None
    if p["kind"] == "infail":
        k = int(p["at"] * len(data))
        evs = sr.events(data[:k], [c for c in cut if c < k], (), [("err", errno.EIO)])
    else:
        evs = sr.events(data, make_cut)
    if p["kind"] == "intr":
        evs.insert(int(p["at"] * len(evs)), ("intr",))
    if "stall" in p:
        evs.insert(int(p["stall"] * len(evs)), ("wait", Stall()))
    if p["kind"] == "outfail":
        out_faults = [dict(at=int(p["at"] * 2000), err=errno.ENOSPC, heal=None)]
    return sr.make_session("apitty" if p["tty"] else "api", evs, out_faults), data


def task_for(i, p, s, stray):
    def body():
        return s.run(lambda: sr.api(s))
    t = Task(i, body)
    t.ctx.update(stdin=None, stdout=stray, stderr=s.stderr, files={}, stalls="stall" in p)
    if p["kind"] == "compute":
        t.fault = (p["at"], p["exc"], typist.library)
    return t


def stray_stream():
    import io
    log = Log()
    raw = RawOut(log)
    return raw, io.TextIOWrapper(io.BufferedWriter(raw), "utf-8", line_buffering=True)


def solo(p):
    s, data = make(p)
    raw, stray = stray_stream()
    t = task_for(0, p, s, stray)
    K.reset()
    K.start(cap=60000000)
    K.run_tasks([t], [(0, 1000000)])
    K.stop()
    if t.exc is not None:
        raise t.exc
    return s.out, s.err, s.status


def execute(plan, ctx):
    server = CleanServer()
    oracle = sm.Oracle(server)
    ps = plan["sessions"]
    if not ps:
        return
    made = [make(p) for p in ps]
    raw, stray = stray_stream()
    tasks = [task_for(i, p, s, stray) for i, (p, (s, _)) in enumerate(zip(ps, made))]
    K.start(cap=plan["cap"])
    try:
        K.run_tasks(tasks, plan["schedule"] or [[0, 100]])
    finally:
        K.stop()
    switches = K.switches
    stray.flush()
    for t in tasks:
        if isinstance(t.exc, StepLimit):
            raise Violation("hang", "the sessions do not end")
        if t.exc is not None:
            raise t.exc
    for i, (p, (s, data)) in enumerate(zip(ps, made)):
        kinds = {c["k"][0] for ln in p["lines"] for c in ln["c"]}
        ctx.log(i, s.out, s.err, s.status)
        for f in s.log.fired:
            ctx.count("fault:" + f)
        if tasks[i].fault_fired:
            ctx.count("fault:" + tasks[i].fault_fired[0])
        hurt = bool(tasks[i].fault_fired or [f for f in s.log.fired if not f.startswith(("short", "eintr", "stalled"))])
        if not hurt:
            try:
                m = sr.check_session("apitty" if p["tty"] else "api", p["lines"], s, data, oracle)
            except Violation as v:
                raise Violation("session:" + v.key, "session %d (%s): %s" % (i, p["kind"], v.msg))
            if m.failed:
                ctx.count("probe:failing-neighbour")
        if not kinds & {"generate", "gft"}:
            r = server.ask("props.c15.solo", p)
            if r[0] != "ok":
                raise Violation("solo", "session %d alone: %r" % (i, r))
            for name, a, b in zip(("output", "error output", "status"), r[1], (s.out, s.err, s.status)):
                if a != b:
                    raise Violation("differs:" + name, "session %d (%s): %s is\n%.500r\nalone and\n%.500r\n"
                                    "next to the others" % (i, p["kind"], name, a, b))
        else:
            ctx.count("probe:generate")
        if "stalled-read" in s.log.fired:
            ctx.count("probe:stalled-neighbour")
        if p["lines"] and any(p["lines"] == q["lines"] for q in ps[:i]):
            ctx.count("probe:same-lines")
        if hurt:
            ctx.count("probe:faulty-neighbour")
        if any(f.startswith("intr") for f in s.log.fired) or (
                tasks[i].fault_fired and tasks[i].fault_fired[0] == "interrupt"):
            ctx.count("probe:interrupted-neighbour")
        if "exit" in kinds:
            ctx.count("probe:exit-neighbour")
        if "clear" in kinds:
            ctx.count("probe:clear")
        if "end" in kinds:
            ctx.count("probe:loops")
    if raw.delivered:
        raise Violation("stray", "sessions wrote %r to the standard output of the process" % bytes(raw.delivered)[:200])
    if len(ps) >= 3:
        ctx.count("probe:three-sessions")
    ctx.nontrivial = switches > len(ps)
    ctx.cover(sorted((p["kind"], p["tty"]) for p in ps), len(ps), min(8, switches.bit_length()))
    server.close()
