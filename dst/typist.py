"""A simulated user at a terminal who presses Ctrl-C, and the judge of the session.

The typist sends one physical line per wait for input and looks at the prompt
the way a user does.  A fault belongs to one physical line:
  read     Ctrl-C while the shell waits for this line
  partial  part of the line has been delivered, then Ctrl-C
  write    Ctrl-C at the n-th output operation after the line was sent
  compute  Ctrl-C at the n-th library line executed after the line was sent
"""
import os
import re

from . import shellmodel as sm
from .engine import Inconclusive, Violation
from .mon import K

PROMPT = re.compile(r"(?:^|\n|\x1b\[J|[^\n])(loop (\d+)> |> )$")


def prompt_of(text):
    m = re.search(r"(loop \d+> |> )$", text)
    return m.group(1) if m else None


def gen_faults(rng, lines, n):
    """n faults at random physical lines, weighted towards interesting ones."""
    spots = []
    for li, ln in enumerate(lines):
        for pi in range(len(ln["p"])):
            w = 1 + 2 * (len(ln["p"]) > 1) + 3 * any(c["k"][0] in ("end", "init", "push", "solve", "decode",
                                                                  "generate", "pop") for c in ln["c"])
            spots += [(li, pi)] * w
    out = {}
    for _ in range(n):
        if not spots:
            break
        li, pi = rng.choice(spots)
        kind = rng.choice(("read", "partial", "write", "compute", "compute", "compute"))
        at = rng.choice((1, 1, 2, 3, 5)) if kind == "write" else int(10 ** rng.uniform(0, 3.3))
        out[li, pi] = dict(line=li, phys=pi, kind=kind, at=at)
    return [out[k] for k in sorted(out)]


def library(code, line):
    return os.path.basename(code.co_filename) not in ("shell.py", "__main__.py")


def attach(plan, s, recs):
    """Events for the session's input device; fills recs while it runs."""
    faults = {(f["line"], f["phys"]): f for f in plan.get("faults", ())}
    out = s.rawout

    def begin(kind, text=None, cmds=None, fault=None):
        recs.append(dict(kind=kind, text=text, cmds=cmds, start=len(out.delivered), end=None, fired=False))
        K.cur.fault_fired = None
        nf = len(s.log.fired)
        if fault is not None and fault["kind"] == "write":
            out.faults = [dict(nth=out.n + fault["at"], kind="intr")]
        elif fault is not None and fault["kind"] == "compute":
            K.cur.fault = (K.cur.steps + fault["at"], "interrupt", library)
        return nf

    def finish(nf):
        r = recs[-1]
        r["end"] = len(out.delivered)
        r["fired"] = K.cur.fault_fired is not None or any("intr-write" == x for x in s.log.fired[nf:])
        if K.cur.fault_fired is not None:
            s.log.fired.append("intr-compute")
        K.cur.fault = None
        K.cur.fault_fired = None
        out.faults = []
        return r["fired"]

    def send(c):
        nf = begin("line", c["t"], [c])
        yield ("data", (c["t"] + "\n").encode())
        finish(nf)

    def now():
        return prompt_of(s.out) or "> "

    def events():
        for li, ln in enumerate(plan["lines"]):
            dropped = False
            for pi, text in enumerate(ln["p"]):
                f = faults.get((li, pi))
                last = pi == len(ln["p"]) - 1
                if f is not None and f["kind"] in ("read", "partial"):
                    nf = begin("intr", text)
                    if f["kind"] == "partial" and len(text) > 1:
                        s.log.fired.append("partial-line")
                        yield ("data", text[:1 + f["at"] % (len(text) - 1)].encode())
                    yield ("intr",)
                    finish(nf)
                    if pi > 0:
                        dropped = True
                        break
                nf = begin("line" if last else "part", text, ln["c"] if last else None, f)
                yield ("data", (text + "\n").encode())
                if finish(nf):
                    dropped = True
                    break
            if dropped and not now().startswith("loop"):
                for x in send(sm.encode_probe()):
                    yield x
        if now().startswith("loop"):
            for x in send(sm.cmd("loop end", "end")):
                yield x
        for x in send(sm.encode_probe()):
            yield x
        for x in send(sm.cmd("stack", "stack")):
            yield x
        m = re.search(r"stack has (\d+)", s.out[-200:])
        for _ in range(min(200, int(m.group(1)) if m else 0)):
            for c in (sm.cmd("pop", "pop", None), sm.encode_probe()):
                for x in send(c):
                    yield x
        recs.append(dict(kind="eof", start=len(out.delivered), end=None, fired=False))
        while True:
            yield ("eof",)

    s.rawin.events = events()


def snapshots(m, cmds):
    """All states an interrupted line may leave behind."""
    found = []
    outer = [m.rec]

    def hook(x, k):
        found.append(x.copy())
        if k[0] == "init":
            y = x.copy()
            y.cut_init(k)
            found.append(y)
        if k[0] == "end":
            outer[0] = x.rec
            return
        if x.rec is None and outer[0] is not None:
            # the loop may or may not still be recorded; the prompt tells
            y = found[-1].copy()
            y.rec = [outer[0][0], list(outer[0][1])]
            found.append(y)

    w = m.copy()
    # also the commands only recorded so far
    for i in range(len(cmds) + 1):
        x = m.copy()
        x.line(cmds[:i], sm.Skip())
        found.append(x)
    w.line(cmds, sm.Skip(), hook)
    found.append(w)
    return found


def judge(s, recs, oracle):
    """Raises Violation unless some allowed history explains the session."""
    data = bytes(s.rawout.delivered)

    def seg(a, b):
        return data[a:b].decode("utf-8", "replace")

    states = [sm.Model(oracle, True)]
    start = recs[0]["start"] if recs else len(data)
    c = sm.Out(seg(0, start))
    try:
        c.exact(oracle.banner() + "> ", "banner")
        c.exact("", "")
        if c.pos != len(c.text):
            raise sm.Mismatch("banner: %r" % c.text)
    except sm.Mismatch as e:
        raise Violation("banner", str(e))
    interrupted = False
    for i, r in enumerate(recs):
        if r["end"] is None and r["kind"] != "eof":
            raise Violation("session-ended" + ("-by-interrupt" if r["fired"] or interrupted or r["kind"] == "intr" else ""),
                            "the session ended in line %r (status %s, stderr %r)" % (
                                r["text"], s.status, s.err[-400:]))
        text = seg(r["start"], r["end"] if r["end"] is not None else len(data))
        if r["kind"] == "eof":
            if text != "\n":
                raise Violation("output:eof", "at end of input the session prints %r" % text)
            continue
        new, keys, why = [], set(), None
        p = prompt_of(text)
        for m in states:
            if r["kind"] == "intr" or r["fired"]:
                interrupted = True
                if p is None:
                    raise Violation("no-prompt", "no prompt after Ctrl-C: %r" % text[-200:])
                cand = snapshots(m, r["cmds"]) if r["fired"] and r["cmds"] else [m]
                for x in cand:
                    if x.prompt() == p and x.running and x.key() not in keys:
                        keys.add(x.key())
                        new.append(x)
                why = why or "the prompt %r fits no allowed state" % p
            else:
                x = m.copy()
                cur = sm.Out(text)
                try:
                    if r["kind"] == "line":
                        x.line(r["cmds"], cur)
                    cur.exact(x.prompt(), "prompt")
                    if cur.pos != len(text):
                        raise sm.Mismatch("surplus: %r" % text[cur.pos:][:200])
                except sm.Mismatch as e:
                    why = why or str(e)
                    continue
                except RuntimeError as e:
                    if "workload" in str(e) and interrupted:
                        raise Inconclusive("half-calculated board while recording")
                    raise
                if x.key() not in keys:
                    keys.add(x.key())
                    new.append(x)
        if not new:
            before = [q["text"] for q in recs[:i + 1] if q["kind"] == "intr" or q["fired"]]
            raise Violation("history" if interrupted else "output",
                            "line %.200r: %s; interrupted before: %.300r" % (r["text"], why, before))
        states = new
        if len(states) > 2000:
            raise Inconclusive("too many states")
    if s.status != 0:
        raise Violation("status", "the session ended with status %s, stderr %r" % (s.status, s.err[-300:]))
    return states
