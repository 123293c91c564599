"""Simulated players of the game shell, the reference model of a game and its judge.

A plan is a list of *games* (one per simulated caller thread); a game is a list
of *segments* (one call of ``GameShell.run()`` each, on the same GameShell
object unless the plan asks for a new one); a segment is a puzzle, settings and
a list of operations.  Operations are resolved against the board the player
sees, so dropping one of them from a plan keeps the rest meaningful.
"""
import re

from . import boards, ref
from .engine import Inconclusive, Violation
from .mon import K, StepLimit, Task
from .streams import Session

G = ref.geo(3, 3)
N = 9
COMMANDS = ("hint", "candidates", "conflicts", "settings", "check", "undo", "redo")
TOGGLES = ("autoremove", "autoset", "autocheck", "autoconflicts", "autocandidates")
END = "\n\n> "


# -- what the player sees -----------------------------------------------------
ROW = re.compile(r"[ 0-9*|]+$")


def parse_tail(text):
    """(numbers, candidates or None per field, text before the board)."""
    if not text.endswith(END):
        raise ValueError("no prompt at the end: %r" % text[-200:])
    lines = text[:-len(END)].split("\n")
    nums, cands = [], []
    rows = 0
    i = len(lines)
    while rows < N:
        i -= 1
        if i < 0:
            raise ValueError("no complete board before the prompt: %r" % text[-900:])
        ln = lines[i]
        if ln and not ln.strip("-+"):
            if rows not in (3, 6):
                raise ValueError("rule at the wrong place: %r" % text[-900:])
            continue
        if not ROW.match(ln) or [len(p.split()) for p in ln.split("|")] != [3, 3, 3]:
            raise ValueError("not a row of the board: %r" % ln)
        rn, rc = [], []
        for t in ln.replace("|", " ").split():
            if t.startswith("*"):
                if t[1:] and not t[1:].isdigit():
                    raise ValueError("not a field: %r" % t)
                rn.append(0)
                rc.append(frozenset(int(x) for x in t[1:]))
            else:
                rn.append(int(t))
                rc.append(None)
        nums[:0], cands[:0] = rn, rc
        rows += 1
    return tuple(nums), tuple(cands), "\n".join(lines[:i])


# -- the notation, from its documentation -------------------------------------
UNITS = {"r": lambda i, k: i // N == k, "c": lambda i, k: i % N == k,
         "b": lambda i, k: G.box[i] == k,
         "p": lambda i, k: (i // N % 3) * 3 + i % N % 3 == k}


def fields_of(s):
    """Sorted field numbers described by s, or None if s is malformed."""
    out = set()
    for group in re.split(",(?=[rcbp])", s):
        items = re.findall(r"([rcbp])([1-9]+)", group)
        if not items or "".join(a + b for a, b in items) != group:
            return None
        if len({a for a, b in items}) != len(items):
            return None
        out.update(i for i in range(N * N)
                   if all(any(UNITS[a](i, int(x) - 1) for x in b) for a, b in items))
    return sorted(out)


def readings(line):
    """All admissible meanings of a line that is no command.

    A meaning is None (not a move) or ("set", fields, n), ("rem", fields, values),
    ("clear", fields, how).
    """
    s = line.strip()
    if not s:
        return [None]
    if s.startswith("-"):
        # the other notation for removing candidates: "-35 r1c1"
        left, _, right = s[1:].partition(" ")
        f = fields_of(right)
        if f is None or not re.match(r"[0-9]+$", left):
            return [None]
        return [None, ("rem", f, frozenset(map(int, left)))]
    if s != "".join(s.split()):
        # whitespace between the parts: may or may not be accepted
        return [None] + [x for x in readings("".join(s.split())) if x is not None]
    if "<>" in s:
        left, _, right = s.partition("<>")
        f = fields_of(left)
        try:
            vals = frozenset(int(c) for c in right)
        except ValueError:
            return [None]
        if f is None:
            return [None]
        m = ("rem", f, vals)
        exact = f and right and all(c in "123456789" for c in right)
        return [m] if exact else [None, m]
    if "=" in s:
        left, _, right = s.partition("=")
        f = fields_of(left)
        try:
            v = int(right)
        except ValueError:
            return [None]
        if f is None or not 0 <= v <= N:
            return [None]
        if v == 0:
            return [None] + [("clear", f, how) for how in ("none", "rules", "keep")]
        m = ("set", f, v)
        return [m] if f and right == str(v) else [None, m]
    return [None]


# -- the reference model --------------------------------------------------------
def close(nums, cands, st, at_once):
    """Automatic removal and setting carried to the end."""
    nums, cands = list(nums), list(cands)
    for _ in range(400):
        changed = False
        if st["autoremove"]:
            for i in range(N * N):
                if nums[i]:
                    for j in G.peers[i]:
                        if nums[i] in cands[j]:
                            cands[j] = cands[j] - {nums[i]}
                            changed = True
        if st["autoset"]:
            for i in range(N * N):
                if not nums[i] and len(cands[i]) == 1:
                    nums[i] = min(cands[i])
                    changed = True
                    if at_once:
                        break
        if not changed:
            break
    return tuple(nums), tuple(cands)


def outcomes(state, move, st):
    """States a move may lead to."""
    nums, cands = list(state[0]), list(state[1])
    kind, fields, x = move
    rules = None
    for i in fields:
        if kind == "set":
            nums[i], cands[i] = x, frozenset((x,))
        elif kind == "rem":
            cands[i] = cands[i] - x
        else:
            nums[i] = 0
            if x == "none":
                cands[i] = frozenset()
            elif x == "rules":
                if rules is None:
                    g = list(state[0])
                    for j in fields:
                        g[j] = 0
                    rules = ref.candidates(G, g)
                cands[i] = rules[i]
    a = close(nums, cands, st, False)
    b = close(nums, cands, st, True)
    return [a] if a == b else [a, b]


def visible(state):
    nums, cands = state
    return nums, tuple(None if v else c for v, c in zip(nums, cands))


class Model(object):
    """History of one game."""

    def __init__(self, state):
        self.hist = [state]
        self.i = 0

    def copy(self):
        m = Model(None)
        m.hist, m.i = list(self.hist), self.i
        return m

    def key(self):
        return (tuple(self.hist), self.i)

    @property
    def cur(self):
        return self.hist[self.i]

    def enter(self, state):
        if state != self.cur:
            self.hist = self.hist[:self.i + 1] + [state]
            self.i += 1

    def after(self, line, st):
        """All models this line may lead to, paired with the command run."""
        w = line.split()
        if w and w[0] in COMMANDS:
            m = self.copy()
            if w[0] == "undo":
                m.i = max(0, m.i - 1)
            elif w[0] == "redo":
                m.i = min(len(m.hist) - 1, m.i + 1)
            elif w[0] == "candidates":
                m.enter((m.cur[0], ref.candidates(G, m.cur[0])))
            return [(m, w[0])] if len(w) == 1 else [(m, w[0]), (self.copy(), None)]
        found = []
        for r in readings(line):
            if r is None:
                found.append((self.copy(), None))
                continue
            for s in outcomes(self.cur, r, st):
                m = self.copy()
                m.enter(s)
                found.append((m, "move"))
        return found


# -- judging the output of the queries -------------------------------------------
REPORT = re.compile(r"^\[F\]\s*(\S+)\s*=\s*(\S+)(?:\s*=\s*(\S+))?\s*$", re.M)


def check_report(text, nums, solution):
    got = []
    for m in REPORT.finditer(text):
        f = fields_of(m.group(1))
        if f is None or len(f) != 1 or m.group(3) or not m.group(2).isdigit():
            raise Violation("check", "check prints %r" % m.group(0))
        got.append((f[0], int(m.group(2))))
    want = sorted((i, v) for i, v in enumerate(nums) if v and v != solution[i])
    if sorted(got) != want:
        raise Violation("check", "check reports %s instead of %s" % (names(got), names(want)))


def names(pairs):
    return ["r%dc%d=%d" % (i // N + 1, i % N + 1, v) for i, v in sorted(pairs)]


def conflicts_report(text, nums):
    got = []
    for m in REPORT.finditer(text):
        a, b = fields_of(m.group(1)), fields_of(m.group(2))
        if not a or not b or len(a) != 1 or len(b) != 1 or not (m.group(3) or "").isdigit():
            raise Violation("conflicts", "conflicts prints %r" % m.group(0))
        got.append((min(a[0], b[0]), max(a[0], b[0]), int(m.group(3))))
    want = [(i, j, v) for i, v in enumerate(nums) if v for j in G.peers[i] if i < j and nums[j] == v]
    if sorted(got) != sorted(want):
        raise Violation("conflicts", "conflicts reports %s instead of %s" % (sorted(got), sorted(want)))


HINT = re.compile(r"^(\w+) at (\(.*\)): (\(.*\)|\d+)$", re.M)


def right(state, solution):
    """No wrong number was set and no right candidate removed (also not from
    a filled field)."""
    return all(v in (0, s) and s in c for v, c, s in zip(state[0], state[1], solution))


def hint_report(text, states, solution):
    """A hint for a correctly played board must agree with the solution.

    Returns the kind of hint seen (or None)."""
    m = HINT.search(text)
    if not m:
        return None
    kind = m.group(1)
    if not all(right(x, solution) for x in states):
        return kind + "?"
    pairs = [(int(a), int(b)) for a, b in re.findall(r"\((\d+), (\d+)\)", m.group(2))]
    vals = [int(x) for x in re.findall(r"\d+", m.group(3))]
    sol = [solution[r * N + c] for r, c in pairs]
    ok = True
    if kind in ("NakedSingle", "HiddenSingle"):
        ok = len(pairs) == 1 and sol == vals
    elif kind.startswith("Naked"):
        ok = sorted(sol) == sorted(vals)
    elif kind.startswith("Pointing"):
        ok = len(vals) == 1 and sol.count(vals[0]) == 1
    elif kind in ("XWing", "Swordfish", "Jellyfish"):
        ok = len(vals) == 1 and sol.count(vals[0]) == dict(XWing=2, Swordfish=3, Jellyfish=4)[kind]
    if not ok:
        raise Violation("hint", "on a correctly played board hint prints %r, but the solution has %s there" % (
            m.group(0), sol))
    return kind


def settings_report(text, values):
    for k in sorted(values):
        v = str(values[k])
        if not any(ln.strip().startswith(k) and v in ln for ln in text.split("\n")):
            raise Violation("settings", "settings does not list %s = %s: %r" % (k, v, text[:600]))


# -- the player -------------------------------------------------------------------
def coord(i, style):
    r, c = divmod(i, N)
    if style % 3 == 1:
        return "b%dp%d" % (G.box[i] + 1, (r % 3) * 3 + c % 3 + 1)
    if style % 3 == 2:
        return "c%dr%d" % (c + 1, r + 1)
    return "r%dc%d" % (r + 1, c + 1)


def resolve(op, nums, cands, sol):
    """The line the player types for an operation on the board they see."""
    kind = op[0]
    if kind == "text":
        return op[1]
    k, style, x = op[1], op[2], op[3]
    empty = [i for i in range(N * N) if not nums[i]]
    filled = [i for i in range(N * N) if nums[i]]
    pool = empty
    if kind in ("over", "again", "unrem", "unset"):
        pool = filled
    elif kind == "naked":
        pool = [i for i in empty if len(cands[i]) == 1] or empty
    elif kind == "bi":
        pool = [i for i in empty if len(cands[i]) == 2] or empty
    elif kind == "remall":
        pool = [i for i in empty if cands[i]] or empty
    if not pool:
        return "r1c1<>9"
    i = pool[k % len(pool)]
    w = coord(i, style)
    if kind in ("right", "naked"):
        return "%s=%d" % (w, sol[i])
    if kind == "again":
        return "%s=%d" % (w, nums[i])
    if kind in ("wrong", "over"):
        v = [v for v in range(1, N + 1) if v != sol[i]]
        if style % 2:
            v = [y for y in v if y in (cands[i] or ())] or v
        return "%s=%d" % (w, v[x % len(v)])
    if kind in ("rem", "bi"):
        v = [y for y in sorted(cands[i]) if y != sol[i]] or [1 + x % N]
        if x % 5 == 0:
            return "%s<>%s" % (w, "".join(map(str, v)))
        return "%s<>%d" % (w, v[x % len(v)])
    if kind == "remright":
        return "%s<>%d" % (w, sol[i])
    if kind == "remall":
        return "%s<>%s" % (w, "".join(str(v) for v in sorted(cands[i])) or "1")
    if kind == "unrem":
        return "%s<>%d" % (w, nums[i])
    if kind == "unset":
        return "%s=0" % w
    raise KeyError(kind)


def group_text(rng):
    """A random well-formed coordinate expression."""
    out = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        letters = rng.sample("rcbp", rng.choice((1, 2, 2, 2, 3)))
        out.append("".join(a + "".join(rng.choice("123456789") for _ in range(rng.choice((1, 1, 2, 3))))
                           for a in letters))
    return ",".join(out)


def run_segment(seg, shell, rec, ctx, K=K):
    """Play one segment on the shell object; fills rec."""
    s = Session([], tty=True, out_faults=[dict(f) for f in seg.get("out", ())])
    rec.update(recs=[], session=s, puzzle=None, start=dict(shell.settings), error=None)
    recs = rec["recs"]
    cuts = seg.get("cuts", 0)
    sol = seg["solution"]

    def events():
        for oi, op in enumerate(list(seg["ops"]) + closing()):
            out = bytes(s.rawout.delivered[recs[-1]["start"] if recs else 0:]).decode("utf-8", "replace")
            try:
                nums, cands, _ = parse_tail(out)
            except ValueError as e:
                rec["error"] = str(e)
                break
            if op[0] == "toggle":
                key = op[1]
                if isinstance(shell.settings.get(key), bool):
                    shell.settings[key] = not shell.settings[key]
                    s.log.fired.append("settings-switch")
                continue
            line = resolve(op, nums, cands, sol)
            recs.append(dict(line=line, op=op[0], start=len(s.rawout.delivered), end=None,
                             st={k: bool(shell.settings.get(k)) for k in TOGGLES},
                             all=dict(shell.settings)))
            data = (line + "\n").encode()
            step = len(data)
            if cuts and oi % cuts == 0:
                step = 1 + oi % 3
                s.log.fired.append("split-read")
            f = seg.get("fault")
            if f is not None and f["at"] == oi:
                if f["kind"] == "compute":
                    K.cur.fault = (K.cur.steps + f["n"], "interrupt", None)
                elif f["kind"] == "write":
                    s.rawout.faults.append(dict(nth=s.rawout.n + 1, kind="intr"))
                else:
                    recs[-1]["end"] = -1
                    yield ("data", data[:f["n"] % len(data)]) if f["kind"] == "partial" and f["n"] % len(data) \
                        else ("intr",)
                    s.log.fired.append("unfinished-line")
                    yield ("intr",)
                    break
            for i in range(0, len(data), step):
                if seg.get("eintr") and (oi + i) % seg["eintr"] == 0:
                    yield ("eintr",)
                yield ("data", data[i:i + step])
            recs[-1]["end"] = len(s.rawout.delivered)
        rec["finished"] = True
        while True:
            yield ("eof",)

    def closing():
        # walk through the whole history once more
        n = seg.get("walk") or 0
        return [["text", "undo"]] * n + [["text", "redo"]] * n

    s.rawin.events = events()
    s.attach()
    try:
        s.run(shell.run, passthrough=(StepLimit,))
    finally:
        if K.cur.fault_fired is not None:
            s.log.fired.append("intr-compute")
            K.cur.fault_fired = None
        K.cur.fault = None
        s.detach()


def play(plan, ctx):
    """Run all games of the plan; returns [[rec of segment]]."""
    import sudokutools.shell as sh
    real = getattr(sh, "generate", None)
    games = plan["games"]
    results = [[] for _ in games]
    queue = {}

    def fake(*a, **kw):
        seg, rec = queue[K.cur]
        if seg.get("real"):
            return real(*a, **kw)
        rec["used"] = True
        return boards.build(3, 3, seg["grid"])

    def player(gi):
        def fn():
            shell = None
            for seg in games[gi]["segments"]:
                busy, K.busy = K.busy, True
                try:
                    if shell is None or seg.get("fresh"):
                        shell = sh.GameShell()
                    for k, v in seg.get("settings", {}).items():
                        if k in shell.settings:
                            shell.settings[k] = v
                finally:
                    K.busy = busy
                rec = {}
                results[gi].append((seg, rec))
                queue[K.cur] = (seg, rec)
                run_segment(seg, shell, rec, ctx)
        return fn

    if real is not None:
        sh.generate = fake
    tasks = [Task(i, player(i)) for i in range(len(games))]
    try:
        K.start(cap=plan.get("cap", 60000000))
        try:
            if len(tasks) == 1:
                K.tasks = tasks
                K.cur = tasks[0]
                try:
                    tasks[0].fn()
                except BaseException as e:
                    tasks[0].exc = e
                K.cur = K.main_task
            else:
                K.run_tasks(tasks, plan["schedule"])
        finally:
            K.stop()
    finally:
        if real is not None:
            sh.generate = real
    for t in tasks:
        if isinstance(t.exc, StepLimit):
            raise Violation("hang", "the game does not come back to its prompt")
        if t.exc is not None:
            raise t.exc
    return results


# -- the judge ----------------------------------------------------------------------
def first_states(seg, rec, nums, cands):
    st = {k: bool(rec["start"].get(k)) for k in TOGGLES}
    if rec.get("used"):
        grid = tuple(seg["grid"])
        c = ref.candidates(G, grid)
        if not st["autocandidates"]:
            c = tuple(x if v else frozenset() for v, x in zip(grid, c))
            return [(grid, c)]
        a, b = close(grid, c, st, False), close(grid, c, st, True)
        return [a] if a == b else [a, b]
    c = ref.candidates(G, nums)
    if not st["autocandidates"]:
        c = tuple(x if v else (y or frozenset()) for v, x, y in zip(nums, c, cands))
    return [(nums, c)]


def judge(seg, rec, ctx, info):
    s, recs = rec["session"], rec["recs"]
    data = bytes(s.rawout.delivered)
    if rec["error"]:
        raise Violation("board", rec["error"])

    def seg_text(a, b):
        return data[a:b].decode("utf-8", "replace")

    starts = [r["start"] for r in recs]
    if not recs or rec.get("finished") is None and not s.log.fired and len(recs) == 0:
        head = seg_text(0, len(data))
    else:
        head = seg_text(0, starts[0])
    try:
        nums, cands, _ = parse_tail(head)
    except ValueError as e:
        raise Violation("start", "the game does not show its board at the start: %s (ended with %r, stderr %r)" % (
            e, s.exc, s.err[-400:]))
    models = [Model(x) for x in first_states(seg, rec, nums, cands)]
    models = [m for m in models if visible(m.cur) == (nums, cands)]
    if not models:
        raise Violation("start", "the first board is not the generated sudoku: %s" % diff(
            (nums, cands), first_states(seg, rec, nums, cands)[0]))
    if rec.get("used"):
        solution = tuple(seg["solution"])
    else:
        sols = ref.solutions(G, nums, 2)
        if len(sols) != 1:
            raise Violation("start", "the generated sudoku has %s solutions" % len(sols))
        solution = sols[0]
        info["real"] = 1

    for n, r in enumerate(recs):
        end = starts[n + 1] if n + 1 < len(recs) else len(data)
        if r["end"] == -1:
            break                      # cut by Ctrl-C before the line was complete
        if r["end"] is None:
            if any(x.startswith("intr") for x in s.log.fired):
                break                  # Ctrl-C while it was executed
            raise Violation("ended", "the line %r ended the game: %r, stderr %r" % (
                r["line"][:200], s.exc, s.err[-400:]))
        text = seg_text(r["start"], r["end"])
        try:
            nums, cands, rest = parse_tail(text)
        except ValueError as e:
            raise Violation("board", "after the line %r: %s" % (r["line"][:200], e))
        poss, keys, cmds = [], set(), set()
        for m in models:
            for x, c in m.after(r["line"], r["st"]):
                if visible(x.cur) == (nums, cands):
                    cmds.add(c)
                    if x.key() not in keys:
                        keys.add(x.key())
                        poss.append(x)
        if not poss:
            all_ = [x for m in models for x in m.after(r["line"], r["st"])]
            tie = [x for m in models for q in readings(r["line"]) if q and r["line"].split()[0] not in COMMANDS
                   for x in [outcomes(m.cur, q, r["st"])] if len(x) > 1]
            if tie and closed(nums, cands, models[0].cur, r["st"]):
                raise Inconclusive("order of automatic setting")
            raise Violation("history" if r["line"].split()[:1] in (["undo"], ["redo"]) else "board",
                            "after the line %r (settings %s) the board is not the one expected: %s" % (
                                r["line"][:200], sorted(k for k in r["st"] if r["st"][k]),
                                diff((nums, cands), all_[0][0].cur)))
        models = poss
        if len(models) > 400:
            raise Inconclusive("too many readings")
        for c in cmds:
            info.setdefault("cmds", set()).add(c or "rejected")
        if len(cmds) == 1:
            c = cmds.pop()
            if c == "check":
                check_report(rest, nums, solution)
            elif c == "conflicts":
                conflicts_report(rest, nums)
            elif c == "hint":
                k = hint_report(rest, [m.cur for m in models], solution)
                if k:
                    info.setdefault("hints", set()).add(k)
            elif c == "settings":
                settings_report(rest, r["all"])
        m = models[0]
        if r["st"]["autoset"] and "move" in info["cmds"]:
            info["autoset"] = 1
        if ref.conflicts(G, nums):
            info["conflicting"] = 1
        info["depth"] = max(info.get("depth", 0), len(m.hist))
        if m.i + 1 < len(m.hist):
            info["undone"] = 1
    intr = any(x.startswith("intr") for x in s.log.fired)
    if rec.get("finished") is None and not intr:
        raise Violation("ended", "the game ended before its input did: %r, stderr %r" % (s.exc, s.err[-400:]))
    if s.exc is not None and not isinstance(s.exc, (EOFError, KeyboardInterrupt, SystemExit)):
        raise Violation("ended", "at the end of its input the game raises %r" % (s.exc,))
    if isinstance(s.exc, KeyboardInterrupt) and not intr:
        raise Violation("ended", "the game ends with %r" % (s.exc,))
    return models


def closed(nums, cands, before, st):
    """Automatic setting may depend on the order; its end may not."""
    for i in range(N * N):
        if before[0][i] and not nums[i]:
            return False
        if not nums[i]:
            if st["autoset"] and len(cands[i]) == 1:
                return False
            if st["autoremove"] and any(nums[j] in cands[i] for j in G.peers[i] if nums[j]):
                return False
    return True


def diff(seen, state):
    want = visible(state)
    out = []
    for i in range(N * N):
        a = seen[0][i] or sorted(seen[1][i])
        b = want[0][i] or sorted(want[1][i])
        if a != b:
            out.append("r%dc%d shows %s instead of %s" % (i // N + 1, i % N + 1, a, b))
    return "; ".join(out[:6]) + (" ..." if len(out) > 6 else "")


# -- plans ---------------------------------------------------------------------------
def gen_puzzle(rng, fill=None):
    grid = boards.pick(rng, 3, 3, "unique")
    if fill is None:
        fill = rng.choice((0, 0, 10, 30, 45))
    grid = boards.thin(rng, 3, 3, grid, fill)
    return list(grid), list(ref.solutions(G, grid, 1)[0])


def gen_settings(rng):
    return dict(autoremove=rng.random() < .75, autoset=rng.random() < .3, autocandidates=rng.random() < .8)


def gen_segment(rng, op, n, fault=True, fill=None):
    grid, sol = gen_puzzle(rng, fill)
    seg = dict(grid=grid, solution=sol, settings=gen_settings(rng), ops=[op(rng) for _ in range(n)])
    seg["walk"] = rng.choice((0, 0, n + 2))
    if rng.random() < .3:
        seg["cuts"] = rng.choice((1, 2, 3, 7))
    if rng.random() < .2:
        seg["eintr"] = rng.choice((1, 2, 5))
    if rng.random() < .2:
        seg["out"] = [dict(nth=rng.randint(1, 60), kind="short", take=rng.randint(1, 40)) for _ in range(3)]
    if fault and rng.random() < .25:
        seg["fault"] = dict(kind=rng.choice(("read", "partial", "write", "compute", "compute")),
                            at=rng.randrange(n), n=int(10 ** rng.uniform(0, 3.7)))
    return seg


def simplify(plan):
    for gi, g in enumerate(plan["games"]):
        for si, seg in enumerate(g["segments"]):
            for k in ("cuts", "eintr", "out", "fault", "walk"):
                if seg.get(k):
                    p = dict(plan, games=[dict(x, segments=list(x["segments"])) for x in plan["games"]])
                    p["games"][gi]["segments"][si] = {a: b for a, b in seg.items() if a != k}
                    yield p
            if seg.get("fault"):
                f = seg["fault"]
                for key in ("n", "at"):
                    for x in (0, f[key] // 2, f[key] - 1):
                        if 0 <= x < f[key]:
                            p = dict(plan, games=[dict(y, segments=list(y["segments"])) for y in plan["games"]])
                            p["games"][gi]["segments"][si] = dict(seg, fault=dict(f, **{key: x}))
                            yield p


def run(plan, ctx):
    """Play, judge, count.  Returns the collected facts."""
    info = {}
    results = play(plan, ctx)
    for gi, res in enumerate(results):
        for seg, rec in res:
            s = rec["session"]
            ctx.log(gi, s.out, s.err, repr(s.exc), s.log.fired)
            for x in s.log.fired:
                ctx.count("fault:" + x)
            judge(seg, rec, ctx, info)
            info["lines"] = info.get("lines", 0) + len(rec["recs"])
        if len(res) > 1:
            info["restart"] = 1
            ctx.count("fault:restart", len(res) - 1)
    if len(results) > 1:
        info["parallel"] = 1
        ctx.count("fault:thread-switch", K.switches)
    return info
