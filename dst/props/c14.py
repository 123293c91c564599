"""C14: stream failures never pass for success and never scramble output."""
import errno
import random

from .. import shellmodel as sm, shellrun as sr
from ..engine import CleanServer, Violation, isolated
from ..mon import K, StepLimit

RUNS = {"quick": 9000, "thorough": 100000}
RULE = ("a case is a seeded script and one failure: the output device fails at a seeded byte (for good, or "
        "until it heals), takes short writes or is interrupted; the input device fails after a seeded "
        "byte; the input just ends; the script file cannot be opened or read; the error device fails "
        "too or alone; the input cannot be decoded; outputs are compared with a fault-free run of the same script in another process; "
        "non-trivial when the failure really happened")
MEASURE = "distinct (route, failure, error number, last command before it) tuples"
REAL = ["sudokutools.shell", "sudokutools.__main__", "everything the commands call",
        "BufferedReader/BufferedWriter/TextIOWrapper of the interpreter"]
STUB = ["raw input and output devices", "script file", "random source (same seed for both runs)"]
ASSUME = ["the interpreter reports an error of the last flush with status 120",
          "healing output devices only for scripts (the interpreter's own buffer loses data otherwise)"]
SHRINK = ("lines", "c")
PROBES = ["out-fails", "out-heals", "in-fails", "eof", "eof-in-loop", "eof-no-newline", "open-fails", "err-fails", "at-first-byte",
          "at-last-byte", "not-text", "err-alone"]
OUT_ERR = (errno.ENOSPC, errno.EPIPE, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.ENXIO, errno.ECONNRESET, errno.EPERM,
           errno.EACCES, errno.ETIMEDOUT)
OPEN_ERR = (errno.ENOENT, errno.EACCES, errno.EISDIR, errno.EMFILE, errno.EIO, errno.ENAMETOOLONG, errno.ELOOP,
            errno.ENOTDIR, errno.ETIMEDOUT, errno.ENXIO)
# not UTF-8: a wrong byte, a lone continuation, a cut character, an encoded surrogate
NO_TEXT = (b"\xff", b"\x80", b"\xe2\x82\n", b"\xc3 ", b"caf\xe9 ", b"\xed\xa0\x80")


def gen(rng, tier):
    what = rng.choice(("out", "out", "out", "in", "in", "eof", "eof", "open", "text", "err"))
    n = rng.choice((1, 3, 6, 10, 20))
    cmds, m = sm.gen_cmds(rng, n, dict(loops=rng.choice((0, .15)), exit=rng.choice((0, 0, 0, .03)), bad=.15 if what == "err" else
                                       .05 if what == "out" and rng.random() < .2 else 0,
                                       weights=[(a, w * (3 if a in ("view", "encode", "print", "help", "clear") else 1))
                                                for a, w in sm.WEIGHTS]))
    cmds += sm.tail(m) if m.running and rng.random() < .6 else []
    if m.running and m.rec is None and rng.random() < .01:
        # more than fits into any buffer on the way
        cmds += [sm.cmd("loop 30", "loop", 30), sm.cmd("help", "help"), sm.cmd("loop end", "end")]
    route = rng.choice(("pipe", "pipe", "file", "file", "api", "tty", "apitty", "c") if what == "out" else
                       ("file",) if what == "open" else ("pipe", "file", "api", "c") if what == "err" else ("pipe", "file", "api", "tty", "apitty"))
    lines = sm.gen_lines(rng, cmds, comments=route != "c", cont=route != "c", join=rng.choice((0, .3)))
    mode, cseed = sr.plan_cuts(rng, 500)
    plan = dict(what=what, lines=lines, route=route, mode=mode, cseed=cseed, last=rng.random() < .8,
                seed=rng.randrange(1000))
    if what == "out":
        plan["pos"] = rng.choice((0., 1., rng.random(), rng.random(), rng.random()))
        plan["err"] = rng.choice(OUT_ERR)
        plan["heal"] = rng.choice((None, None, 1, 2, 3)) if not sr.is_tty(route) else None
        plan["short"] = [dict(nth=rng.randint(1, 40), kind=rng.choice(("short", "eintr")), take=rng.randint(1, 9))
                         for _ in range(rng.choice((0, 0, 3)))]
        plan["errdev"] = rng.random() < .15
    elif what == "in":
        plan["pos"] = rng.random()
        plan["err"] = rng.choice((errno.EIO, errno.EBADF, errno.EISDIR, errno.ESTALE, errno.EAGAIN, errno.EACCES, errno.ETIMEDOUT,
                                  errno.ECONNRESET, errno.ENODEV))
        if plan["err"] == errno.EAGAIN:
            plan["err"] = errno.EIO
    elif what == "text":
        plan["pos"], plan["bytes"] = rng.random(), rng.randrange(len(NO_TEXT))
    elif what == "err":
        plan["err"], plan["pos"] = rng.choice(OUT_ERR), rng.choice((0, 0, 1, 6, 20))
    elif what == "eof":
        plan["keep"] = rng.randint(0, len(lines))
    else:
        plan["err"] = rng.choice(OPEN_ERR)
        plan["real"] = rng.random() < .2
    return plan


def simplify(plan):
    for k, vs in (("pos", (0., .5, 1.)), ("heal", (None,)), ("errdev", (False,)), ("short", ([],)), ("mode", ("all",))):
        for v in vs:
            if k in plan and plan[k] != v:
                yield dict(plan, **{k: v})


def session_for(plan, data, lines, out_faults=(), err_faults=(), end=()):
    route = plan["route"]
    if route == "c":
        command = sr.one_line(lines)
        return sr.make_session(route, [], out_faults, err_faults), command
    evs = sr.events(data, sr.make_cuts(data, plan["mode"], plan["cseed"]), (), end)
    return sr.make_session(route, evs, out_faults, err_faults), None


def run(plan, s, command):
    random.seed(plan["seed"])
    K.start(cap=K.steps + 60000000)
    try:
        sr.run_route(plan["route"], s, command)
    except StepLimit:
        raise Violation("hang", "the session does not end")
    finally:
        K.stop()


def execute(plan, ctx):
    what, route = plan["what"], plan["route"]
    lines = plan["lines"]
    tty = sr.is_tty(route)
    if what == "eof":
        lines = lines[:plan["keep"]]
    data = sm.data_of(lines, last=plan["last"]) if lines else b""
    lastcmd = lines[-1]["c"][-1]["k"][0] if lines and lines[-1]["c"] else None
    if what == "open":
        s, _ = session_for(plan, data, lines)
        name = sr.SCRIPT
        if plan["real"]:
            s.files.clear()
            plan = dict(plan, err=errno.ENOENT)
        else:
            s.files[name] = OSError(plan["err"], "simulated", name)
        run(plan, s, None)
        ctx.count("fault:open-" + errno.errorcode[plan["err"]])
        ctx.count("probe:open-fails")
        ctx.nontrivial = True
        ctx.cover("open", plan["err"])
        if s.status == 0:
            raise Violation("open-status", "the script file cannot be opened but the exit status is 0")
        if not s.err.strip():
            raise Violation("open-silent", "the script file cannot be opened but nothing is reported")
        if s.out:
            raise Violation("open-output", "the script file cannot be opened but there is output %r" % s.out)
        return
    if route == "c" and (not sr.one_line(lines) or "\n" in sr.one_line(lines)):
        return
    if what == "out":
        def clean():
            s, command = session_for(plan, data, lines)
            run(plan, s, command)
            return bytes(s.rawout.delivered), s.status, s.err
        r = isolated(clean)
        if r[0] != "ok":
            raise Violation("fault-free", "the fault-free run fails: %r" % (r,))
        full, status, _ = r[1]
        at = int(plan["pos"] * len(full))
        if plan["pos"] == 1. and len(full):
            at = len(full) - 1
        faults = [dict(at=at, err=plan["err"], heal=plan["heal"])] + plan["short"]
        s, command = session_for(plan, data, lines, faults,
                                 [dict(at=0, err=plan["err"], heal=None)] if plan["errdev"] else ())
        run(plan, s, command)
        got = bytes(s.rawout.delivered)
        fired = [f for f in s.log.fired if f.startswith("err")]
        for f in s.log.fired:
            ctx.count("fault:" + f)
        if fired:
            ctx.nontrivial = True
            ctx.count("probe:out-" + ("heals" if plan["heal"] else "fails"))
            if plan["errdev"]:
                ctx.count("probe:err-fails")
            if at == 0:
                ctx.count("probe:at-first-byte")
            if at == len(full) - 1:
                ctx.count("probe:at-last-byte")
        ctx.cover("out", route, plan["err"], plan["heal"], plan["errdev"], lastcmd, bool(fired))
        ctx.log(got, s.err, s.status, s.log.fired)
        if not full.startswith(got):
            i = 0
            while i < len(got) and got[i] == full[i]:
                i += 1
            raise Violation("scrambled", "route %s, output fails at byte %d with %s: delivered %r where a "
                            "fault-free run delivers %r (byte %d)" % (
                                route, at, errno.errorcode[plan["err"]], got[max(0, i - 60):i + 60],
                                full[max(0, i - 60):i + 60], i))
        if got != full and s.status == 0 and not s.err.strip():
            raise Violation("silent", "route %s: %d of %d bytes delivered, exit status 0, nothing on stderr" % (
                route, len(got), len(full)))
        if not fired and (s.status != status):
            raise Violation("status", "short and interrupted writes only, but the status is %s instead of %s, %r" % (
                s.status, status, s.err[-300:]))
        return
    if what in ("text", "err"):
        if what == "text":
            cut = int(plan["pos"] * len(data))
            good = data[:data.rfind(b"\n", 0, cut) + 1]
            # an exit may end the session before the rest is read
            k = good.count(b"\n")
            before = []
            for ln in lines:
                k -= len(ln["p"])
                if k < 0:
                    break
                before.append(ln)
            exits = any(c["k"][0] == "exit" for ln in before for c in ln["c"])
            data = data[:cut] + NO_TEXT[plan["bytes"]] + data[cut:]
        else:
            good, exits = data, False

        def quiet():
            s, command = session_for(plan, good, lines)
            run(plan, s, command)
            return bytes(s.rawout.delivered), s.status, s.err
        r = isolated(quiet)
        if r[0] != "ok":
            raise Violation("fault-free", "the fault-free run fails: %r" % (r,))
        full, status, err = r[1]
        if what == "err" and len(err.encode("utf-8")) <= plan["pos"]:
            return
        s, command = session_for(plan, data, lines, (), [dict(at=plan["pos"], err=plan["err"], heal=None)]
                                 if what == "err" else ())
        run(plan, s, command)
        got = bytes(s.rawout.delivered)
        ctx.log(got, s.err, s.status)
        ctx.nontrivial = True
        ctx.count("fault:" + ("undecodable-input" if what == "text" else "err-write"))
        ctx.count("probe:" + ("not-text" if what == "text" else "err-alone"))
        ctx.cover(what, route, plan.get("bytes"), plan.get("err"), lastcmd)
        if not full.startswith(got):
            raise Violation("scrambled", "route %s, %s: delivered %r where a fault-free run delivers %r" % (
                route, "the input cannot be decoded" if what == "text" else "standard error fails", got[-200:], full[-200:]))
        if s.status == 0 and not exits:
            raise Violation(what + "-status", "route %s: %s but the exit status is 0 (stderr %r)" % (
                route, "the input cannot be decoded from byte %d on" % cut if what == "text" else
                "a command failed and standard error as well", s.err[-200:]))
        return
    server = CleanServer()
    oracle = sm.Oracle(server)
    if what == "eof":
        s, _ = session_for(plan, data, lines, end=[("eof",)])
        run(plan, s, None)
        m = sr.check_session(route, lines, s, data, oracle)
        ctx.count("fault:eof")
        ctx.count("probe:eof")
        if m.rec is not None:
            ctx.count("probe:eof-in-loop")
        if not plan["last"]:
            ctx.count("probe:eof-no-newline")
        ctx.nontrivial = True
        ctx.cover("eof", route, plan["mode"], lastcmd, m.rec is not None)
        ctx.log(s.out, s.err, s.status)
    else:
        cut = int(plan["pos"] * len(data))
        s, _ = session_for(plan, data[:cut], lines, end=[("err", plan["err"])])
        run(plan, s, None)
        ctx.log(s.out, s.err, s.status, s.log.fired)
        k = data[:cut].count(b"\n")
        done, n = [], 0
        for ln in lines:
            n += len(ln["p"])
            if n > k:
                break
            done.append(ln)
        rest = k - sum(len(ln["p"]) for ln in done)
        if rest:
            # the beginning of a continued line was received: it only shows prompts
            done.append({"p": lines[len(done)]["p"][:rest], "c": []})
        fired = [f for f in s.log.fired if f.startswith("err-read")]
        cur_out = s.out
        try:
            m, pos, stopped = partial(done, cur_out, tty, oracle)
        except sm.Mismatch as e:
            raise Violation("in-lost", "route %s, input fails after %d complete lines: %s (stderr %r)" % (
                route, k, e, s.err[-300:]))
        if fired:
            ctx.count("fault:" + fired[0])
            ctx.count("probe:in-fails")
            ctx.nontrivial = True
            if s.status == 0:
                raise Violation("in-status", "route %s: reading input failed but the exit status is 0" % route)
        elif m.running:
            raise Violation("in-unread", "route %s: the input was not read to the failure" % route)
        ctx.cover("in", route, plan["err"], lastcmd, bool(rest), bool(fired))
    server.close()


def partial(lines, out, tty, oracle):
    """The model's output for these lines must be the beginning of out."""
    try:
        return sm.judge(lines, out, tty, oracle, open_end=True)
    except sm.Mismatch:
        raise
