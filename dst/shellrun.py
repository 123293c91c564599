"""Runs one script through one route on simulated devices."""
import errno

from . import shellmodel as sm
from .engine import Violation
from .mon import K
from .streams import RawIn, RawOut, Session, chunks, run_main

SCRIPT = "/dst-simulated/script.txt"
ROUTES = ("pipe", "file", "tty", "api", "apitty", "c")


def is_tty(route):
    return route in ("tty", "apitty", "ttypipe")


def plan_cuts(rng, size):
    """How the input arrives: offsets at which reads end."""
    mode = rng.choice(("all", "lines", "lines", "random", "bytes", "few"))
    if mode == "bytes" and size > 3000:
        mode = "random"
    return mode, rng.randrange(1 << 30)


def make_cuts(data, mode, seed):
    import random
    r = random.Random(seed)
    if mode == "all":
        return []
    if mode == "lines":
        return [i + 1 for i, b in enumerate(data) if b == 10]
    if mode == "bytes" and len(data) < 1500:
        return list(range(1, len(data)))
    k = 3 if mode == "few" else max(1, len(data) // 7)
    return [r.randrange(0, len(data) + 1) for _ in range(k)]


def events(data, cuts, eintr=(), end=()):
    """Input events; eintr: chunk numbers before which a signal arrives."""
    out = []
    for i, ev in enumerate(chunks(data, cuts)):
        if i in eintr:
            out.append(("eintr",))
        out.append(ev)
    return out + list(end)


def make_session(route, evs, out_faults=(), err_faults=(), out_tty=None, side=None):
    tty = is_tty(route)
    if route in ("pipe", "tty", "api", "apitty"):
        s = Session(evs, tty=tty, out_faults=out_faults, err_faults=err_faults,
                    out_tty=tty if out_tty is None else out_tty)
    else:
        s = Session([], tty=False, out_faults=out_faults, err_faults=err_faults,
                    out_tty=bool(out_tty))
        if route == "file":
            raw = RawIn(evs, s.log, tty=False)
            s.files[SCRIPT] = raw
            s.rawfile = raw
    if side and route in ("file", "c", "api", "apitty"):
        s.other_stdin(side)
    return s


def api(session):
    from sudokutools.shell import Shell
    Shell(infile=session.stdin, outfile=session.stdout).run()


def run_route(route, session, command=None):
    """Returns the exit status of the simulated process."""
    if route in ("pipe", "tty"):
        return run_main(session, [])
    if route == "file":
        return run_main(session, [SCRIPT])
    if route == "c":
        return run_main(session, ["-c", command])
    session.attach()
    try:
        return session.run(lambda: api(session))
    finally:
        session.detach()


def one_line(lines):
    """The script as a single -c argument, or None."""
    cmds = [c for ln in lines for c in ln["c"]]
    if not cmds:
        return None
    return "; ".join(c["t"] for c in cmds)


def check_session(route, lines, session, data, oracle, hook=None, inject=None):
    """Full judgement of a session without damaging faults."""
    tty = is_tty(route)
    if session.side is not None and session.side.taken:
        raise Violation("stdin-read", "route %s: %d bytes were read from the standard input, "
                        "which is not where the commands come from" % (route, session.side.taken))
    try:
        m, pos, stopped = sm.judge(lines, session.out, tty, oracle, hook, inject)
    except sm.Mismatch as e:
        extra = " (stderr: %r)" % session.err[-300:] if session.err else ""
        raise Violation("output:" + e.kind,
                        "route %s: %s%s" % (route, e, extra))
    if route != "c":
        bad = sm.check_reads(session.log.reads, data, session.out, pos, stopped, tty)
        if bad:
            raise Violation("timing", "route %s: %s" % (route, bad))
        bad = sm.check_err(session.log.reads, data, m.marks)
        if bad:
            raise Violation(bad[0].split()[0], "route %s: line %d: %s on standard error (%r)" % (
                route, bad[1], bad[0], session.err[-300:]))
    if tty or not m.failed:
        if session.status != 0:
            raise Violation("status", "route %s: exit status %s, stderr %r" % (
                route, session.status, session.err[-500:]))
    elif session.status == 0:
        raise Violation("status", "route %s: a command failed but the exit status is 0" % route)
    if m.failed and not session.err.strip():
        raise Violation("unreported", "route %s: a command failed but nothing is on stderr" % route)
    if not m.failed and session.err:
        raise Violation("stderr", "route %s: no command failed but stderr has %r" % (route, session.err[-500:]))
    return m
