"""Sequential model of the shell: current sudoku, stack, loop; and its workloads.

A command is {"t": text, "k": [kind, args...]}; a line is
{"p": [physical lines], "c": [commands]}.  The model executes kinds, the shell
gets the text.  Output is matched by a cursor while the model runs.
"""
import re

from . import boards, ref
from .engine import Inconclusive, Violation


class Fail(Exception):
    """The command fails and changes nothing."""


class Workload(Inconclusive, RuntimeError):
    """The generated session went where the model can't follow."""


class Mismatch(Exception):
    def __init__(self, msg, kind=None):
        Exception.__init__(self, msg)
        self.kind = kind or msg.split(":")[0].split()[0]


class Board(object):
    __slots__ = ("bw", "bh", "nums", "cands")

    def __init__(self, bw, bh, nums=None, cands=None):
        self.bw, self.bh = bw, bh
        n = bw * bh
        self.nums = list(nums) if nums is not None else [0] * (n * n)
        self.cands = list(cands) if cands is not None else [frozenset()] * (n * n)

    @property
    def n(self):
        return self.bw * self.bh

    def copy(self):
        return Board(self.bw, self.bh, self.nums, self.cands)

    def key(self):
        return (self.bw, self.bh, tuple(self.nums), tuple(self.cands))

    def encode(self, row_sep="", col_sep="", incl=False):
        n = self.n
        s = row_sep.join(col_sep.join(str(v) for v in self.nums[r * n:r * n + n]) for r in range(n))
        if incl:
            s += "|" + ",".join("".join(str(x) for x in sorted(c)) for c in self.cands)
        return s


class Out(object):
    """Cursor over what a session printed."""

    def __init__(self, text):
        self.text = text
        self.pos = 0

    def exact(self, s, what="output"):
        if not self.text.startswith(s, self.pos):
            got = self.text[self.pos:self.pos + max(200, len(s) + 40)]
            i = 0
            while i < len(s) and i < len(got) and s[i] == got[i]:
                i += 1
            raise Mismatch("%s: expected %r, got %r (differs at character %d)" % (
                what, s[:400], got[:400], i))
        self.pos += len(s)

    def line(self, what):
        j = self.text.find("\n", self.pos)
        if j < 0:
            raise Mismatch("%s: no complete line of output, got %r" % (what, self.text[self.pos:][:200]))
        s = self.text[self.pos:j]
        self.pos = j + 1
        return s

    def board(self, bw, bh, incl, what):
        """Read an encoded board."""
        s = self.line(what)
        n = bw * bh
        m = re.match(r"^([0-9]*)(?:\|(.*))?$", s)
        if not m or len(m.group(1)) != n * n or (m.group(2) is not None) != bool(incl):
            raise Mismatch("%s: not an encoded %dx%d board: %r" % (what, bw, bh, s[:300]))
        nums = [int(x) for x in m.group(1)]
        cands = None
        if incl:
            items = m.group(2).split(",")
            if len(items) != n * n or not all(x == "" or x.isdigit() for x in items):
                raise Mismatch("%s: bad candidates: %r" % (what, s[:300]))
            cands = [frozenset(int(y) for y in x) for x in items]
        return nums, cands

    def exact_board(self, *a):
        return self.board(*a)


class Null(object):
    """Output of a session that is only imagined (workload generation)."""

    text = ""
    pos = 0

    def exact(self, s, what=""):
        pass

    def line(self, what):
        return ""


class Skip(Null):
    """Output that is not looked at (an interrupted line)."""


# --------------------------------------------------------------------------
# oracles: what pristine library calls print or return

def lib_view(key, kw):
    from sudokutools.sudoku import view
    bw, bh, nums, cands = key
    s = boards.build(bw, bh, nums, cands)
    if kw is None:
        return str(s)
    return view(s, **kw)


def lib_solve(bw, bh, nums):
    from itertools import islice
    from sudokutools.solve import bruteforce
    r = list(islice(bruteforce(boards.build(bw, bh, nums)), 1))
    if not r:
        return None
    return boards.nums(r[0]), boards.cands(r[0]), boards.shape(r[0])


def _shell(text, interactive=False):
    import io
    from sudokutools.shell import Shell
    o = io.StringIO()
    Shell(interactive=interactive, infile=io.StringIO(text), outfile=o).run()
    return o.getvalue()


def lib_help(name):
    return _shell("help %s\n" % name if name else "help\n")


def lib_banner():
    s = _shell("", True)
    if not s.endswith("> \n"):
        raise ValueError("an interactive session without input ends with %r" % s[-80:])
    return s[:-3]


class Oracle(object):
    """Answers of a pristine process, cached."""

    def __init__(self, server):
        self.server = server
        self.cache = {}

    def _ask(self, fn, *a):
        k = (fn, repr(a))
        if k not in self.cache:
            r = self.server.ask("shellmodel." + fn, *a)
            if r[0] == "exc" and fn in ("lib_help", "lib_banner"):
                raise Violation("baseline:" + fn, "%s%r fails in a fresh process: %s: %s" % (
                    fn, a, r[1], r[2]))
            if r[0] != "ok":
                raise Violation("baseline:" + fn, "%s fails in a fresh process: %r" % (fn, r))
            self.cache[k] = r[1]
        return self.cache[k]

    def banner(self):
        return self._ask("lib_banner")

    def help(self, name):
        s = self._ask("lib_help", name)
        names = [name] if name else ALL
        for x in names:
            if not re.search(r"(^|\W)%s(\W|$)" % re.escape(x), s):
                raise Violation("help-text", "'help%s' does not mention %s: %r" % (
                    " " + name if name else "", x, s[:300]))
        return s

    def solve(self, b):
        g = ref.geo(b.bw, b.bh)
        r = self._ask("lib_solve", b.bw, b.bh, tuple(b.nums))
        if r is None:
            if ref.solutions(g, b.nums, 1):
                raise Violation("solve-nothing", "no solution found for a solvable sudoku %s" %
                                boards.text(b.bw, b.bh, b.nums))
            return None
        nums, cands, shape = r
        if shape != (b.bw, b.bh) or ref.solutions(g, nums, 1) != [tuple(nums)] or 0 in nums \
                or any(v and v != w for v, w in zip(b.nums, nums)):
            raise Violation("solve-wrong", "not a solution of %s: %s" % (
                boards.text(b.bw, b.bh, b.nums), nums))
        return Board(b.bw, b.bh, nums, cands)

    def render(self, b, kw):
        s = self._ask("lib_view", b.key(), kw)
        check_rendering(b, kw, s)
        return s


def check_rendering(b, kw, s):
    """The picture must show the right numbers (and candidates) in each row."""
    n = b.n
    rows = [x for x in s.split("\n") if x.strip() and not re.match(r"^[-+]+$", x.strip())]
    prefix = (kw or {}).get("candidate_prefix", "*")
    incl = kw is not None and kw.get("include_candidates", True)
    want = []
    for r in range(n):
        row = []
        for c in range(n):
            v = b.nums[r * n + c]
            if v:
                row.append(str(v))
            elif incl:
                row.append(prefix + ("," if n > 9 else "").join(str(x) for x in sorted(b.cands[r * n + c])))
        want.append(row)
    if not incl:
        # rows of empty fields only may look blank
        rows = [x for x in s.split("\n") if not re.match(r"^[-+]+$", x.strip() or " ")]
        if len(rows) > n:
            rows = rows[:n]
    got = [x.replace("|", " ").split() for x in rows]
    if got != want:
        for r, (x, y) in enumerate(zip(got, want)):
            if x != y:
                raise Violation("rendering", "row %d is shown as %r, the board has %r" % (r, x, y))
        raise Violation("rendering", "%d rows shown for %s" % (len(got), boards.text(b.bw, b.bh, b.nums)))


class GenOracle(object):
    """Used while a workload is generated: no package code involved."""

    def banner(self):
        return ""

    def help(self, name):
        return ""

    def render(self, b, kw):
        return ""

    def solve(self, b):
        try:
            r = ref.solutions(ref.geo(b.bw, b.bh), b.nums, 1, budget=20000)
        except ref.TooMany:
            return None
        return Board(b.bw, b.bh, r[0]) if r else None


SYM = {
    None: lambda n, r, c: [(r, c)],
    "rotate-90": lambda n, r, c: [(r, c), (n-1-c, r), (n-1-r, n-1-c), (c, n-1-r)],
    "rotate-180": lambda n, r, c: [(r, c), (n-1-r, n-1-c)],
    "mirror-x": lambda n, r, c: [(r, c), (n-1-r, c)],
    "mirror-y": lambda n, r, c: [(r, c), (r, n-1-c)],
    "mirror-xy": lambda n, r, c: [(r, c), (n-1-r, c), (r, n-1-c), (n-1-r, n-1-c)],
}
ALL = ["new", "generate", "generate_from_template", "decode", "get", "set", "set_candidates",
       "get_candidates", "remove_candidates", "init_candidates", "encode", "print", "clear",
       "view", "solve", "loop", "stack", "push", "pop", "help", "exit"]


class Model(object):
    def __init__(self, oracle, interactive):
        self.o = oracle
        self.tty = interactive
        self.cur = Board(3, 3)
        self.stack = []
        self.rec = None            # [n, [commands]] while a loop is recorded
        self.running = True
        self.failed = 0
        self.pending = None        # unrevealed result of a generating command
        self.executed = 0
        self.fuzzy = None          # (old, new) candidates of a cut calculation

    def copy(self):
        m = Model(self.o, self.tty)
        m.cur = self.cur.copy()
        m.stack = [b.copy() for b in self.stack]
        m.rec = None if self.rec is None else [self.rec[0], list(self.rec[1])]
        m.fuzzy = self.fuzzy
        m.running, m.failed, m.pending, m.executed = self.running, self.failed, self.pending, self.executed
        return m

    def key(self):
        return (self.cur.key(), tuple(b.key() for b in self.stack), repr(self.rec), self.running,
                repr(self.pending), self.fuzzy)

    def prompt(self):
        if not self.tty:
            return ""
        return "> " if self.rec is None else "loop %d> " % self.rec[0]

    # -- one command ---------------------------------------------------------
    def field(self, r, c):
        n = self.cur.n
        if not (0 <= r < n and 0 <= c < n):
            raise Fail()
        return r * n + c

    def reveal(self, out, row_sep="", col_sep="", incl=False):
        """An encode right after a generating command shows its result."""
        if isinstance(out, Skip):
            return
        what, args = self.pending[0], self.pending[1:]
        bw, bh = args[-1]
        n = bw * bh
        if isinstance(out, Null):
            self.pending = None
            if what == "gft":
                nums = args[0]
            else:
                nums = ref.solutions(ref.geo(bw, bh), [0] * (n * n), 1)[0]
                nums = nums[:args[0]] + (0,) * (n * n - args[0])
            self.cur = Board(bw, bh, nums)
            return
        if row_sep or col_sep:
            raise Workload("workload: reveal needs plain encode")
        nums, cands = out.board(bw, bh, incl, "encode after " + what)
        g = ref.geo(bw, bh)
        if len(ref.solutions(g, nums, 2)) != 1:
            raise Mismatch("%s: not exactly one solution: %s" % (what, boards.text(bw, bh, nums)))
        if what == "generate":
            mc, sym = args[0], args[1]
            if sum(1 for v in nums if v) < mc:
                raise Mismatch("generate: fewer than %d fields" % mc)
            for r, c in g.cells:
                for i, j in SYM[sym](n, r, c):
                    if (nums[r * n + c] == 0) != (nums[i * n + j] == 0):
                        raise Mismatch("generate: symmetry %s is broken" % sym)
        else:
            if [v == 0 for v in nums] != [v == 0 for v in args[0]]:
                raise Mismatch("generate_from_template: pattern not kept")
        self.pending = None
        self.cur = Board(bw, bh, nums, cands)

    def settle(self, out, row_sep, col_sep, incl):
        """After a cut calculation each field has its old or its new candidates."""
        b = self.cur
        if isinstance(out, Skip):
            return
        if isinstance(out, Null):
            b.cands = list(self.fuzzy[1])
        else:
            nums, cands = out.board(b.bw, b.bh, True, "encode after a cut init_candidates")
            if nums != b.nums:
                raise Mismatch("encode: numbers changed by a cut init_candidates")
            for i, c in enumerate(cands):
                if c != self.fuzzy[0][i] and c != self.fuzzy[1][i]:
                    raise Mismatch("encode: field %d has %s after a cut init_candidates, neither %s nor %s" % (
                        i, sorted(c), sorted(self.fuzzy[0][i]), sorted(self.fuzzy[1][i])))
            b.cands = cands
        self.fuzzy = None

    def cut_init(self, k):
        """The init command k is cut somewhere."""
        old = tuple(self.cur.cands)
        m = Model(self.o, True)
        m.cur = self.cur.copy()
        m.do(k, Null())
        if tuple(m.cur.cands) != old:
            self.fuzzy = (old, tuple(m.cur.cands))

    def do(self, k, out):
        """Execute one command (not while recording)."""
        kind = k[0]
        self.executed += 1
        b = self.cur
        if self.pending is not None:
            if kind == "encode":
                return self.reveal(out, *k[1:])
            if kind in ("clear", "help", "stack", "exit", "bad"):
                pass
            elif kind in ("new", "decode", "pop"):
                pass
            else:
                raise Workload("workload: %s on an unrevealed board" % kind)
        if self.fuzzy is not None:
            if kind == "encode" and k[3]:
                return self.settle(out, *k[1:])
            if kind in ("new", "decode"):
                self.fuzzy = None
            elif kind not in ("clear", "help", "stack", "exit", "bad", "print", "set"):
                raise Workload("workload: %s on a half-calculated board" % kind)
        if kind == "bad":
            raise Fail()
        elif kind == "new":
            self.cur = Board(*(k[1] or (3, 3)))
            self.pending = None
        elif kind == "decode":
            bw, bh = k[3]
            self.cur = Board(bw, bh, k[1], [frozenset(c) for c in k[2]] if k[2] else None)
            self.pending = None
        elif kind == "set":
            b.nums[self.field(k[1], k[2])] = k[3]
        elif kind == "get":
            out.exact("%d\n" % b.nums[self.field(k[1], k[2])], "get %d %d" % (k[1], k[2]))
        elif kind == "gc":
            i = self.field(k[1], k[2])
            s = out.line("get_candidates %d %d" % (k[1], k[2]))
            if not isinstance(out, Null):
                got = sorted(int(x) for x in re.findall(r"\d+", s))
                if got != sorted(b.cands[i]):
                    raise Mismatch("get_candidates %d %d: %r for %s" % (k[1], k[2], s, sorted(b.cands[i])))
        elif kind == "sc":
            b.cands[self.field(k[1], k[2])] = frozenset(k[3])
        elif kind == "rc":
            i = self.field(k[1], k[2])
            b.cands[i] = b.cands[i] - frozenset(k[3])
        elif kind == "init":
            for i, c in enumerate(ref.candidates(ref.geo(b.bw, b.bh), b.nums)):
                if b.nums[i] or not k[1]:
                    b.cands[i] = frozenset(c)
        elif kind == "encode":
            out.exact(b.encode(*k[1:]) + "\n", "encode")
        elif kind == "print":
            out.exact(self.o.render(b, None) + "\n", "print")
        elif kind == "view":
            out.exact(self.o.render(b, k[1]) + "\n", "view")
        elif kind == "clear":
            out.exact("\033[H\033[J", "clear")
        elif kind == "generate":
            mc, sym, (bw, bh) = k[1:]
            if mc > (bw * bh) ** 2 or sym not in SYM:
                raise Fail()
            self.pending = ("generate", mc, sym, (bw, bh))
        elif kind == "gft":
            if k[1] == 0 or not any(b.nums):
                raise Fail()
            if sum(1 for v in b.nums if not v) > 3:
                raise Workload("workload: template may be impossible")
            self.pending = ("gft", tuple(b.nums), (b.bw, b.bh))
        elif kind == "solve":
            if any(v > b.bw * b.bh for v in b.nums):
                # a number set for another shape: what a solution is then is left open
                raise Workload("workload: solve with numbers out of range")
            s = self.o.solve(b)
            if s is None:
                raise Fail()
            self.cur = s.copy()
        elif kind == "stack":
            out.exact("stack has %d sudokus\n" % len(self.stack), "stack")
        elif kind == "push":
            self.stack.append(b.copy())
        elif kind == "pop":
            if not self.stack:
                raise Fail()
            p = len(self.stack) - 1 if k[1] is None else k[1]
            if not 0 <= p < len(self.stack):
                raise Fail()
            self.cur = self.stack.pop(p)
            self.pending = None
        elif kind == "help":
            out.exact(self.o.help(k[1]), "help")
        elif kind == "exit":
            self.running = False
        elif kind == "loop":
            if self.rec is not None:
                raise Fail()
            self.rec = [k[1], []]
        else:
            raise RuntimeError("model: unknown command %r" % (k,))

    # -- lines ---------------------------------------------------------------
    def step(self, k, out, hook=None):
        """One primitive; returns False when the session stops here."""
        try:
            if hook is not None:
                hook(self, k)
            self.do(k, out)
        except Fail:
            self.failed += 1
            if not self.tty:
                self.running = False
        return self.running

    def line(self, cmds, out, hook=None):
        for c in cmds:
            k = c["k"]
            if not self.running:
                return
            if k[0] == "bad" and k[1] == "parse":
                self.step(k, out, hook)
            elif k[0] == "exit":
                self.step(k, out, hook)
            elif k[0] == "end":
                if self.rec is None:
                    self.step(["bad", "exec"], out, hook)
                    continue
                n, body = self.rec
                if hook is not None:
                    hook(self, k)
                self.rec = None
                for _ in range(n):
                    for bk in body:
                        self.step(bk, out, hook)
                        if not self.running:
                            return
            elif k[0] == "loop":
                self.step(k, out, hook)
            elif self.rec is not None:
                self.rec[1].append(k)
            else:
                self.step(k, out, hook)


# --------------------------------------------------------------------------
# workloads

SHAPES = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (3, 3), (1, 4), (4, 1), (2, 4)]
BAD_EXEC = [
    "set 0 0", "set 0 0 1 2", "set 99 0 1", "set 0 99 1", "set 0 0 1 foo=2", "set '0' 0 1", "set None 0 1",
    "get 0", "get 0 0 0", "get 0 99", "get 0 None", "get_candidates 99 99", "get_candidates 0",
    "set_candidates 0 0 5", "set_candidates 0 0 [[1]]", "set_candidates 99 0 1,2", "set_candidates 0 0",
    "set_candidates 0 0 1,2 3", "set_candidates 0 0 None",
    "remove_candidates 0 0 5", "remove_candidates 0 0 [[1],2]", "remove_candidates 0 99 1,2",
    "remove_candidates 0 0", "init_candidates 1 2 3", "init_candidates foo=1",
    "decode 'abc'", "decode '123'", "decode 5", "decode", "decode '1234x6789'", "decode '12345'",
    "decode '1' box_size=5", "decode '1234123412341234|x'", "decode None",
    "new 5", "new (3,)", "new 1 2 3", "new foo=1", "new 'ab'", "new (1,2,3)",
    "generate min_count=999", "generate symmetry='none'", "generate 1 2 3 4", "generate min_count='x'",
    "generate foo=1", "generate 9999", "generate symmetry=[]",
    "generate_from_template tries=0", "generate_from_template 0", "generate_from_template foo=0",
    "pop 'a'", "pop 999", "pop -999", "pop -1", "pop -1", "pop -2", "pop position=-1", "pop position=-3", "pop 1 2", "pop foo=1", "push 1", "push foo=1", "stack 1",
    "encode 1", "encode foo=1", "encode 1 2 3 4", "encode row_sep=5",
    "get 0 0 =5", "print 1", "print foo=1", "view 1 2 3 4 5 6 7", "view foo=1", "view candidate_prefix=5",
    "solve 1", "solve foo=1", "clear 1", "help end", "help 5", "help foo=1", "help 1 2 3",
    "pop new", "set new 0 1", "decode end", "new end", "encode end", "push end", "set end end end",
]
# loop and exit lines are executed even while a loop is recorded
BAD_LOOP = ["loop 0", "loop -1", "loop 'x'", "loop None", "loop", "loop 1 2", "loop new", "loop foo=1",
            "loop []", "exit 1", "exit foo=1", "loop {}"]
BAD_PARSE = [
    "foo", "foo 1 2", "Set 0 0 1", "set 0 0 x", "set 0 0 5)", "set 0 0 (5", "set 0 0 {[1]:2}",
    "decode 'abc", "decode abc", "1", "=", "a=b", "set 0 0 0777", "set 0 0 1+x", "set 0 0 lambda:1",
    "set 0 0 __import__('os')", "set 0 0 v=", "set 0 0 v=x", "get 0 0 {{}}", "set 0 0 {{}:1}",
    "\u00e9t\u00e9", "\u5b57", "get_candidate 0 0", "help foo", "help nothing",
    "end", "loop end=x", "set 0 0 '", "set 0 0 \"", "set 0 0 [", "set 0 0 5,,", "set 0 0 1_", "new (3,3",
    "set 0 0 {1:2,[3]:4}", "view *", "view **", "print(1)", "encode;=", "!", "set 0 0 *1", "set 0 0 -x",
    "set 0 0 x=[{}]=", "set 0 0 {*{}}", "get 0 0 f'a'", "set 0 0 \t",
]
BAD_PARSE = [b for b in BAD_PARSE if ";" not in b and not b.startswith("loop") and b.strip() == b]
BAD_DEEP = ["set 0 0 " + "(" * 400, "set 0 0 " + "-" * 30000 + "1", "set 0 0 " + "[" * 150 + "]" * 150 + ")",
            "set 0 0 " + "9" * 6000 + "x", "set 0 0 " + "1+" * 20000 + "x", "get " + "x" * 9000,
            "set 0 0 " + "not" * 500]


def fmt_set(rng, vals):
    vals = list(vals)
    rng.shuffle(vals)
    x = rng.random()
    body = ",".join(map(str, vals))
    if not vals:
        return rng.choice(("()", "[]"))
    if x < .35:
        return body + ("," if len(vals) == 1 else "")
    if x < .6:
        return "{%s}" % body
    if x < .8:
        return "[%s]" % body
    return "(%s,)" % body


def q(rng, s):
    if "'" in s or rng.random() < .3:
        return '"%s"' % s.replace("\n", "\\n")
    return "'%s'" % s.replace("\n", "\\n")


def cmd(text, *k):
    return {"t": text, "k": list(k)}


def decode_cmd(rng, bw, bh, grid, cands=None):
    n = bw * bh
    kw = []
    if n > 9:
        s = "-".join(map(str, grid))
        kw.append("number_sep='-'")
        cands = None
    else:
        digits = [str(v) for v in grid]
        if rng.random() < .15 and cands is None:
            digits = [d if d != "0" else "." for d in digits]
            kw.append("empty='.'")
        s = "".join(digits)
        if cands is not None:
            s += "|" + ",".join("".join(map(str, sorted(c))) for c in cands)
    auto = {4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3), 12: (2, 6)}.get(n)
    if auto != (bw, bh) or rng.random() < .2:
        kw.append(rng.choice(("box_size=(%d,%d)", "box_size=[%d,%d]", "box_size=%d,%d")) % (bw, bh))
    rng.shuffle(kw)
    return cmd(" ".join(["decode " + q(rng, s)] + kw), "decode", list(grid),
               [sorted(c) for c in cands] if cands is not None else None, [bw, bh])


def rand_cmd(rng, m, opts):
    """One plausible command for the imagined state m."""
    b = m.cur
    n = b.n
    if m.pending is not None:
        return encode_probe(rng)
    r, c = rng.randrange(n), rng.randrange(n)
    names = opts.get("weights") or WEIGHTS
    kind = rng.choices([x for x, _ in names], [w for _, w in names])[0]
    if kind == "new":
        if rng.random() < .4:
            return cmd("new", "new", None)
        sh = rng.choice(opts.get("shapes") or SHAPES)
        return cmd("new " + rng.choice(("(%d,%d)", "%d,%d", "box_size=(%d,%d)", "[%d,%d]")) % sh, "new", list(sh))
    if kind == "decode":
        sh = rng.choice(opts.get("shapes") or SHAPES)
        what = rng.choice(("unique", "unique", "few", "full", "conflict", "empty", "near", "unsolvable"))
        if what == "near":
            grid = boards.pick(rng, sh[0], sh[1], "full")
            for i in rng.sample(range(len(grid)), rng.randint(0, 3)):
                grid[i] = 0
        else:
            grid = boards.pick(rng, sh[0], sh[1], what)
        cands = None
        if rng.random() < .4 and sh[0] * sh[1] <= 9:
            cands = boards.random_cands(rng, sh[0] * sh[1])
        return decode_cmd(rng, sh[0], sh[1], grid, cands)
    if kind == "set":
        v = rng.randint(0, n)
        f = rng.choice(("set %d %d %d", "set %d %d %d", "set %d %d value=%d", "set row=%d col=%d value=%d"))
        return cmd(f % (r, c, v), "set", r, c, v)
    if kind == "get":
        return cmd(rng.choice(("get %d %d", "get %d col=%d")) % (r, c), "get", r, c)
    if kind == "gc":
        return cmd("get_candidates %d %d" % (r, c), "gc", r, c)
    if kind in ("sc", "rc"):
        vals = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 4))))
        name = {"sc": "set_candidates", "rc": "remove_candidates"}[kind]
        return cmd("%s %d %d %s" % (name, r, c, fmt_set(rng, vals)), kind, r, c, vals)
    if kind == "init":
        f = rng.random() < .25
        return cmd("init_candidates" + (rng.choice((" True", " filled_only=True")) if f else ""), "init", f)
    if kind == "encode":
        x = rng.random()
        if x < .4:
            return cmd("encode", "encode", "", "", False)
        if x < .7:
            return encode_probe(rng)
        rs = rng.choice(("/", "\n", "", "\u2192", "ab", "|", "-", "\u00e9"))
        cs = rng.choice(("", ",", "\u2192", "..", "\U0001d54f", "-"))
        incl = rng.random() < .3
        t = "encode row_sep=%s col_sep=%s" % (q(rng, rs), q(rng, cs)) if rng.random() < .5 else \
            "encode %s %s" % (q(rng, rs), q(rng, cs))
        if incl:
            t += " include_candidates=True"
        return cmd(t, "encode", rs, cs, incl)
    if kind == "print":
        return cmd("print", "print")
    if kind == "view":
        kw = {}
        if rng.random() < .3:
            kw["include_candidates"] = False
        if rng.random() < .2:
            kw["candidate_prefix"] = rng.choice(("!", "*", "c", "\u2192"))
        if rng.random() < .2:
            kw["align_right"] = False
        return cmd(" ".join(["view"] + ["%s=%r" % (a, v) for a, v in sorted(kw.items())]), "view", kw)
    if kind == "clear":
        return cmd("clear", "clear")
    if kind == "generate":
        sh = (3, 3) if rng.random() < .1 else rng.choice(((2, 2), (2, 2), (2, 3), (3, 2)))
        mc = rng.choice((0, 0, 5, 10, (sh[0] * sh[1]) ** 2 - 3, (sh[0] * sh[1]) ** 2))
        sym = rng.choice((None, None) + tuple(x for x in SYM if x))
        t = "generate"
        if mc:
            t += rng.choice((" min_count=%d", " %d")) % mc
        if sym:
            t += " symmetry='%s'" % sym
        if sh != (3, 3):
            t += " box_size=(%d,%d)" % sh
        return cmd(t, "generate", mc, sym, list(sh))
    if kind == "gft":
        if sum(1 for v in b.nums if not v) > 3 or n > 9 or n < 4:
            return None
        if rng.random() < .1:
            return None
        t = rng.choice((1, 5, 100, -1))
        return cmd(rng.choice(("generate_from_template tries=%d", "generate_from_template %d")) % t, "gft", t)
    if kind == "solve":
        if n > 9:
            return None
        try:
            # the shell's solver is slow on boards with little information
            ref.solutions(ref.geo(b.bw, b.bh), b.nums, 1, budget=300)
        except ref.TooMany:
            return None
        if n >= 8 and sum(1 for v in b.nums if v) < 20 and n > 6:
            return None
        return cmd("solve", "solve")
    if kind == "stack":
        return cmd("stack", "stack")
    if kind == "push":
        return cmd("push", "push")
    if kind == "pop":
        if rng.random() < .5 or not m.stack:
            return cmd("pop", "pop", None)
        p = rng.randrange(len(m.stack))
        return cmd(rng.choice(("pop %d", "pop position=%d")) % p, "pop", p)
    if kind == "help":
        name = rng.choice(ALL + [None] * 5)
        return cmd("help" + (" " + name if name else ""), "help", name)
    raise RuntimeError(kind)


WEIGHTS = [("new", 3), ("decode", 8), ("set", 14), ("get", 6), ("gc", 6), ("sc", 9), ("rc", 7), ("init", 5),
           ("encode", 10), ("print", 4), ("view", 5), ("clear", 3), ("generate", 2), ("gft", 3), ("solve", 4),
           ("stack", 4), ("push", 8), ("pop", 7), ("help", 2)]
STACKY = [("new", 2), ("decode", 8), ("set", 18), ("sc", 10), ("rc", 6), ("init", 4), ("encode", 3), ("solve", 3),
          ("stack", 5), ("push", 20), ("pop", 17), ("gft", 2), ("generate", 1), ("gc", 2)]


def encode_probe(rng=None):
    if rng is not None and rng.random() < .3:
        return cmd("encode '' '' True", "encode", "", "", True)
    return cmd("encode include_candidates=True", "encode", "", "", True)


def edge_cmd(rng, m):
    """A command one step beyond what the imagined state m allows."""
    n = m.cur.n
    x = rng.random()
    if x < .3:
        k = len(m.stack) + rng.choice((0, 0, 1))
        return cmd(rng.choice(("pop %d", "pop position=%d")) % k, "pop", k)
    if x < .4:
        return cmd("loop end", "end") if m.rec is None else cmd("loop 2", "loop", 2)
    if x < .5:
        sh = rng.choice(((2, 2), (2, 3)))
        mc = (sh[0] * sh[1]) ** 2 + 1
        return cmd("generate %d box_size=%d,%d" % ((mc,) + sh), "generate", mc, None, list(sh))
    r, c = rng.choice(((n, 0), (0, n), (n, n), (n - 1, n), (n, n - 1)))
    name = rng.choice(("set", "get", "gc", "sc", "rc"))
    if name == "set":
        return cmd("set %d %d 1" % (r, c), "set", r, c, 1)
    if name == "get":
        return cmd("get %d %d" % (r, c), "get", r, c)
    if name == "gc":
        return cmd("get_candidates %d %d" % (r, c), "gc", r, c)
    return cmd("%s %d %d 1,2" % ({"sc": "set_candidates", "rc": "remove_candidates"}[name], r, c), name, r, c, [1, 2])


def mixed_cmd(rng, m):
    """A command whose argument is good at first and bad further on."""
    n = m.cur.n
    vals = rng.sample(range(1, n + 1), rng.randint(1, n))
    bad = rng.choice(("[1]", "[]", "[2,3]"))
    vals.insert(rng.randint(1, len(vals)), bad)
    text = rng.choice(("[%s]", "(%s)", "%s")) % ",".join(str(v) for v in vals)
    return cmd("%s %d %d %s" % (rng.choice(("set_candidates", "remove_candidates", "remove_candidates")),
                                rng.randrange(n), rng.randrange(n), text), "bad", "exec")


def bad_cmd(rng, deep=False, m=None):
    if m is not None and m.pending is None and m.fuzzy is None and rng.random() < .08:
        return mixed_cmd(rng, m)
    if m is not None and m.pending is None and m.fuzzy is None and rng.random() < .25:
        return edge_cmd(rng, m)
    x = rng.random()
    if deep and x < .08:
        return cmd(rng.choice(BAD_DEEP), "bad", "parse")
    if x < .5:
        return cmd(rng.choice(BAD_EXEC), "bad", "exec")
    if x < .6:
        return cmd(rng.choice(BAD_LOOP), "bad", "parse")   # fails at once, even while recording
    return cmd(rng.choice(BAD_PARSE), "bad", "parse")


def gen_cmds(rng, n, opts):
    """A list of commands, valid in order (except for the wanted bad ones)."""
    m = Model(GenOracle(), True)
    out = []
    null = Null()
    bad = opts.get("bad", 0)
    tries = 0
    while len(out) < n and m.running and tries < 20 * n + 50:
        tries += 1
        if opts.get("loops") and m.pending is None and rng.random() < opts["loops"]:
            body, mm = [], m.copy()
            reps = rng.choice((1, 2, 2, 3, 5, 12)) if rng.random() < .95 else 60
            for _ in range(rng.choice((0, 1, 2, 3, 4))):
                c = bad_cmd(rng, m=mm) if rng.random() < bad else rand_cmd(rng, mm, opts)
                if c is None or (c["k"][0] == "init" and opts.get("probe_init")) or (
                        c["k"][0] in ("generate", "gft") and opts.get("flat_generate")):
                    continue
                before = mm.failed
                mm.line([c], null)
                body.append(c)
                if c["k"][0] in ("generate", "gft"):
                    e = encode_probe()
                    mm.line([e], null)
                    body.append(e)
            cost = {"solve": 12, "generate": 6, "gft": 12, "view": 60, "print": 60, "help": 60}
            for c in body:
                reps = min(reps, cost.get(c["k"][0], 60))
            if opts.get("deep_stack") and rng.random() < .5:
                reps, body = rng.choice((90, 120, 270) if opts["deep_stack"] < 1000 else (270, 1050)), [cmd("push", "push")]
            elif rng.random() < .05:
                # many rounds of something short, or a long body
                if rng.random() < .5:
                    reps, body = rng.choice((130, 280, 1100)), [rng.choice((cmd("stack", "stack"), cmd("clear", "clear")))]
                else:
                    body = (body or [cmd("stack", "stack")]) * 40
                    body, reps = body[:120], min(reps, 2)
                    if any(c["k"][0] in ("solve", "generate", "gft", "init") for c in body):
                        body = [cmd("stack", "stack")] * 120
            trial = m.copy()
            seq = [cmd("loop %d" % reps, "loop", reps)] + body
            if rng.random() < .1 and opts.get("exit"):
                seq.append(cmd("exit", "exit"))
            else:
                seq.append(cmd("loop end", "end"))
            try:
                trial.line(seq, null)
            except RuntimeError:
                continue
            # the body must succeed in every round unless failures are wanted
            nbad = sum(1 for c in body if c["k"][0] == "bad")
            if trial.failed > m.failed and not bad:
                continue
            if len(trial.stack) > (opts.get("deep_stack") or 80) or trial.pending is not None:
                continue
            m = trial
            out += seq
            continue
        if opts.get("exit") and rng.random() < opts["exit"]:
            c = cmd("exit", "exit")
        elif bad and rng.random() < bad:
            c = bad_cmd(rng, opts.get("deep"), m)
        else:
            c = rand_cmd(rng, m, opts)
        if c is None:
            continue
        trial = m.copy()
        try:
            trial.line([c], null)
        except RuntimeError:
            continue
        if trial.failed > m.failed and not bad:
            continue
        m = trial
        out.append(c)
        if m.running and (opts.get("probe_init") and c["k"][0] == "init" or
                          opts.get("probe") and m.rec is None and rng.random() < opts["probe"]):
            e = encode_probe()
            m.line([e], null)
            out.append(e)
            if rng.random() < .3:
                out.append(cmd("stack", "stack"))
    if m.running and m.pending is not None:
        out.append(encode_probe())
        m.line(out[-1:], null)
    if opts.get("exit") and rng.random() < .5 and m.running:
        # something behind an exit must not happen
        out.append(cmd("exit", "exit"))
        m.running = False
    if not m.running:
        for _ in range(rng.randint(0, 3)):
            out.append(rng.choice((encode_probe(), cmd("stack", "stack"), cmd("push", "push"),
                                   cmd("foo", "bad", "parse"))))
    return out, m


def tail(m):
    """Commands that reveal the whole state."""
    out = []
    if m.rec is not None:
        out.append(cmd("loop end", "end"))
    out += [encode_probe(), cmd("stack", "stack")]
    for _ in range(len(m.stack)):
        out += [cmd("pop", "pop", None), encode_probe()]
    return out


COMMENTS = ["# a comment", "#", "# set 0 0 1; exit", "#\u00e9\u2192", "# 'quoted \" ; loop 5", "## \\ x"]


def gen_lines(rng, cmds, comments=True, cont=True, join=.4, long=False, apart=()):
    """Spread commands over logical and physical lines."""
    lines = []
    i = 0
    while i < len(cmds):
        if comments and rng.random() < .15:
            t = rng.choice(["", "   ", "\t"] + COMMENTS)
            if long and rng.random() < .05:
                t = "#" + "x" * rng.choice((8190, 8191, 8192, 8193, 20000, 70000))
            lines.append({"p": [t], "c": []})
            continue
        k = 1
        while cmds[i + k - 1]["k"][0] not in apart and rng.random() < join and i + k < len(cmds) and k < 6:
            k += 1
        group = cmds[i:i + k]
        i += k
        text = group[0]["t"]
        for c in group[1:]:
            text += rng.choice((";", "; ", " ; ", " ;")) + c["t"]
        phys = [text]
        if cont and rng.random() < .2 and len(text) > 2:
            cuts = sorted(rng.sample(range(1, len(text)), min(len(text) - 1, rng.choice((1, 1, 2, 3)))))
            parts, a = [], 0
            for b in cuts + [len(text)]:
                parts.append(text[a:b])
                a = b
            # the blanks at the start of a continuation line are ignored
            ok = all(not p.startswith(" ") and p for p in parts[1:]) and not any(
                p.rstrip(" ").endswith("\\") for p in parts) and not any("\t" in p for p in parts)
            if ok:
                phys = [p + "\\" for p in parts[:-1]] + parts[-1:]
                for j in range(1, len(phys)):
                    if rng.random() < .3:
                        phys[j] = "  " + phys[j]
        if cont and rng.random() < .04 and not phys[-1].endswith("\\"):
            # the continuation line is blank
            phys[-1] += rng.choice(("\\", " \\"))
            phys.append(rng.choice(("", "", "   ")))
        if comments:
            for j in range(len(phys)):
                if rng.random() < .12 and "#" not in phys[j]:
                    phys[j] += rng.choice(("", " ", "  ")) + rng.choice(COMMENTS)
        if rng.random() < .15:
            phys[0] = rng.choice((" ", "   ", "\t")) + phys[0]
        if rng.random() < .1 and not phys[-1].endswith("\\"):
            phys[-1] += rng.choice((" ", "\t"))
        lines.append({"p": phys, "c": group})
    return lines


MANY = 1080                  # more than the interpreter's recursion limit


def burst(rng, lines, bad=False, comments=True):
    """Insert a long run of lines of one kind (a key held down, a generated script)."""
    kinds = ["blank", "command"] + (["bad", "bad"] if bad else []) + (["comment", "continued"] if comments else [])
    kind = rng.choice(kinds)
    at = rng.randrange(len(lines) + 1)
    if kind == "continued":
        one = [i for i, ln in enumerate(lines) if ln["c"] and len(ln["p"]) == 1 and "#" not in ln["p"][0]
               and "\\" not in ln["p"][0]]
        if not one:
            return
        i = rng.choice(one)
        lines[i] = dict(lines[i], p=[lines[i]["p"][0] + "\\"] + ["\\"] * MANY + [""])
        return
    if kind == "command":
        c = cmd("stack", "stack") if rng.random() < .5 else cmd("clear", "clear")
        if any(c["k"][0] in ("loop", "end", "exit") for ln in lines[:at] for c in ln["c"]):
            return
        if rng.random() < .3:
            lines.insert(at, {"p": [";".join([c["t"]] * MANY)], "c": [c] * MANY})
        else:
            lines[at:at] = [{"p": [c["t"]], "c": [c]}] * MANY
        return
    if kind == "bad":
        c = cmd("foo", "bad", "parse")
        lines[at:at] = [{"p": ["foo"], "c": [c]}] * MANY
        return
    t = "" if kind == "blank" else rng.choice(COMMENTS)
    lines[at:at] = [{"p": [t], "c": []}] * MANY


def data_of(lines, eol="\n", last=True):
    s = "".join(p + eol for ln in lines for p in ln["p"])
    if not last and s.endswith(eol) and lines[-1]["p"][-1]:
        s = s[:-len(eol)]
    return s.encode("utf-8")


# --------------------------------------------------------------------------
# judging a session

class Verdict(object):
    pass


class Injector(object):
    """Hook for the line in which a failure was injected: primitive j fails."""

    def __init__(self, j, hook):
        self.j, self.hook, self.n = j, hook, 0
        self.hit = False

    def __call__(self, m, k):
        if self.hook is not None:
            self.hook(m, k)
        if k[0] == "end":
            return
        self.n += 1
        if self.n - 1 == self.j:
            self.hit = True
            if k[0] == "init":
                m.cut_init(k)
            raise Fail()


def judge(lines, out, interactive, oracle, hook=None, inject=None, open_end=False):
    """Run the model along the output.  Returns (model, positions, cursor).

    positions[k]: characters of output due when k physical lines (and no more)
    have been received; ends early when the session stops."""
    m = Model(oracle, interactive)
    cur = Out(out)
    if interactive:
        cur.exact(oracle.banner(), "banner")
    cur.exact(m.prompt(), "prompt")
    pos = [cur.pos]
    stopped = None
    m.marks = [0]              # failures reported until then
    m.injected = None
    m.segments = []            # output of each line, without the prompts
    for li, ln in enumerate(lines):
        lhook = hook
        if inject is not None and inject[0] == li:
            lhook = m.injected = Injector(inject[1], hook)
        for p in ln["p"][:-1]:
            cur.exact(m.prompt(), "prompt in a continued line")
            pos.append(cur.pos)
            m.marks.append(m.failed)
        try:
            start = cur.pos
            m.line(ln["c"], cur, lhook)
            m.segments.append(cur.text[start:cur.pos])
        except Mismatch as e:
            raise Mismatch("in line %.300r: %s" % ("\n".join(ln["p"]), e), e.kind)
        m.marks.append(m.failed)
        if not m.running:
            pos.append(cur.pos)
            stopped = len(pos) - 1
            break
        try:
            cur.exact(m.prompt(), "prompt")
        except Mismatch as e:
            raise Mismatch("after line %.300r: %s" % ("\n".join(ln["p"]), e), "prompt")
        pos.append(cur.pos)
    if open_end:
        return m, pos, stopped
    if m.running and interactive:
        cur.exact("\n", "end of input")
    if cur.pos != len(cur.text):
        raise Mismatch("output nobody asked for: %r" % cur.text[cur.pos:cur.pos + 300])
    return m, pos, stopped


def check_err(reads, data, marks):
    """Each failure is reported before the next line is asked for."""
    at = {}
    for taken, _, el in reads:
        at.setdefault(data[:taken].count(b"\n"), el)
    for k in range(1, len(marks)):
        if k in at and k - 1 in at:
            if marks[k] > marks[k - 1] and at[k] <= at[k - 1]:
                return "unreported", k
            if marks[k] == marks[k - 1] and at[k] != at[k - 1]:
                return "reported although nothing failed", k
    return None


def check_reads(reads, data, out, pos, stopped, interactive):
    """Output must be out before the shell waits for more input."""
    enc = [len(out[:p].encode("utf-8")) for p in pos]
    seen_end = False
    for j, (taken, ol, _) in enumerate(reads):
        k = data[:taken].count(b"\n")
        if stopped is not None and k >= stopped:
            return "it read on after the line that ended the session"
        want = enc[k]
        if taken == len(data) and seen_end:
            if ol >= want:
                continue
        if ol != want:
            return ("with %d complete lines received it waits for input having delivered %d bytes of "
                    "output instead of %d" % (k, ol, want))
        if taken == len(data):
            seen_end = True
    return None
