"""C17: no line typed into the game ends it or damages its board."""
import string

from .. import game
from . import c16

RUNS = {"quick": 800, "thorough": 60000}
RULE = ("a case is a seeded game whose lines are mostly noise: blank lines, damaged moves (characters dropped, "
        "doubled, swapped, inserted), incomplete and out-of-range coordinates, unknown notations, commands in the "
        "wrong case or with arguments, control and non-ASCII characters, very long lines, huge numbers, the "
        "settings command, between moves, undo and redo; read in pieces, with signals, short writes, sometimes "
        "cut by Ctrl-C; every board and the history are compared with the model after every line; non-trivial "
        "when a line was rejected")
MEASURE = "distinct (kinds of noise, commands judged, history depth, parallel, restarted) tuples"
REAL = c16.REAL
STUB = c16.STUB
ASSUME = ["lines whose meaning the documentation leaves open (spaces inside a move, '=0', '-5 r1c1', unusual spellings "
          "of a number, an empty set of fields, a command followed by other words) may be executed or rejected",
          "lines are valid UTF-8 and contain no carriage return (the terminal turns it into a line end)"]
SHRINK = ("games", "segments", "ops", "schedule")
PROBES = ["rejected", "blank", "settings", "damaged-move", "range", "unicode", "words", "long", "parallel", "restart"]
WALL = 120

MANY = 1080                  # more than the interpreter's recursion limit
ALPHABET = "rcbp0123456789,=<>- rcbp123=<>x#;\\'\""


def simplify(plan):
    for p in game.simplify(plan):
        yield p
    for gi, g in enumerate(plan["games"]):
        for si, seg in enumerate(g["segments"]):
            for oi, o in enumerate(seg["ops"]):
                if o[0] == "text" and len(o[1]) > 6:
                    for t in (o[1][:len(o[1]) // 2], o[1][len(o[1]) // 2:]):
                        p = dict(plan, games=[dict(x, segments=[dict(y, ops=list(y["ops"])) for y in x["segments"]])
                                              for x in plan["games"]])
                        p["games"][gi]["segments"][si]["ops"][oi] = ["text", t]
                        yield p


def valid_move(rng):
    g = game.group_text(rng) if rng.random() < .4 else game.coord(rng.randrange(81), rng.randrange(3))
    if rng.random() < .5:
        return "%s=%d" % (g, rng.randint(1, 9))
    return "%s<>%s" % (g, "".join(rng.sample("123456789", rng.choice((1, 2, 3)))))


def damage(rng, s):
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        i = rng.randrange(len(s) + 1)
        x = rng.randrange(6)
        if x == 0:
            s = s[:i] + s[i + 1:]
        elif x == 1:
            s = s[:i] + rng.choice(ALPHABET) + s[i:]
        elif x == 2:
            s = s[:i] + rng.choice(ALPHABET) + s[i + 1:]
        elif x == 3:
            s = s[:i] + s[i:i + 1] + s[i:]
        elif x == 4:
            j = rng.randrange(len(s) + 1)
            s = s[:min(i, j)] + s[max(i, j):]
        else:
            s = s[:i]
    return s


FIXED = ("r", "r=", "=", "<>", "r=5", "rc=5", "r1c=5", "rc1=5", "r1c1=", "r1c1<>", "r1c1", "r0c1=5", "r1c0=5", "r10c1=5",
         "b0p1=3", "b1p0=3", "r1c1=10", "r1c1=12", "r1c1=-1", "r1c1=99999999999999999999", "r1c1==5", "r1c1=5=6",
         "r1c1<>5<>6", "r1c1=5<>6", "r1c1<>5=6", "-5 r1c1", "- r1c1", "-", "-r1c1=5", "r1c1,=5", ",r1c1=5", "r1c1,,r1c2=4",
         "r1,c1=5", "r1c1,2=5", "r1r2c3=5", "c1c2=5", "r1c1r1=5", "r1b9=5", "r1c1p5=2", "R1C1=5", "r1c1 =5", "r1 c1=5",
         "r1c1= 5", "r1c1=+5", "r1c1=5.0", "r1c1=5 ", " r1c1=5", "r1c1=five", "r1c1<>5,6", "r1c1<>0", "r1c1=0", "r1c1<>55",
         "help", "exit", "quit", "EOF", "undo undo", "undo 3", "hint?", "Hint", "UNDO", "redo redo", "settings dim", "check r1c1",
         "conflict", "candidates 5", "set 0 0 5", "r1c1=5;r1c2=6", "r1c1=5 # right", "#", "\\", "r1c1=5\\", "None", "[]", "%s", "%d",
         "{}", "'%s'", "rcbp=1", "rcbp", "p=1", "b=1", "r123456789=1", "b5p5=5", "x1y1=5", "5", "55", "r1c1 5", "r1c1:5")


def text(rng):
    """(kind, line)"""
    x = rng.random()
    if x < .12:
        return "blank", rng.choice(("", "", "", " ", "   ", "\t", " \t ", "\x0b", "\u3000", "\xa0"))
    if x < .42:
        return "damaged-move", damage(rng, valid_move(rng))
    if x < .68:
        return "fixed", rng.choice(FIXED)
    if x < .78:
        a, b = rng.choice(("rc", "bp", "cr", "rp", "bc", "r", "p", "b", "c")).ljust(2)
        n = lambda: rng.choice(("", "0", "10", "00", "123", "-1", "90", "11", "9" * 30))
        s = a + n() + (b + n() if b != " " else "")
        return "range", s + rng.choice(("=%d" % rng.choice((0, 1, 5, 9, 10, -3, 100)), "<>%s" % rng.choice(("0", "5", "10"))))
    if x < .86:
        pool = rng.choice(("".join(map(chr, range(1, 10))) + "\x7f\x1b\x00", "äöüß€", "٣٥²①五", "🎲🧩", "\u2028\u0085\ufeff\u200b",
                           string.printable.replace("\n", "").replace("\r", "")))
        s = "".join(rng.choice(pool) for _ in range(rng.randint(1, 12)))
        if rng.random() < .4:
            s = rng.choice(("r1c1=%s", "r%sc1=5", "%s r1c1=5", "r1c1<>%s", "undo%s")) % s
        return "unicode", s
    if x < .9 and rng.random() < .5:
        # several words, with characters that mean something to formatting, quoting or parsing
        pool = ("%", "%s", "100%", "%(x)s", "{}", "{0}", "{x", "}", "'", '"', "\\", "\\n", "$HOME", "#", ";", "=", "<>", "-",
                "r1c1", "5", "r1c1=", "=5", "<>5", "the", "undo", "hint", "None", "(", "]", ",", "*", "!", "&", "|", "~", "\t")
        return "words", rng.choice((" ", " ", "  ", "")).join(rng.choice(pool) for _ in range(rng.randint(2, 8)))
    if x < .9:
        unit = rng.choice(("r1c1=5 ", "x", "r1c1,", "9", "(", "r1", "=", " "))
        return "long", unit * rng.choice((50, 300, 1500))
    return "unknown", "".join(rng.choice(string.ascii_letters + string.digits + " ,=<>-") for _ in range(rng.randint(1, 15)))


def op(rng):
    if rng.random() < .6:
        k, t = text(rng)
        return ["text", t.replace("\r", " ").replace("\n", " "), k]
    x = rng.random()
    if x < .25:
        return ["text", "undo", "cmd"]
    if x < .4:
        return ["text", "redo", "cmd"]
    if x < .5:
        return ["text", "settings", "cmd"]
    if x < .6:
        return ["text", rng.choice(game.COMMANDS), "cmd"]
    if x < .64:
        return ["unset", rng.randrange(81), rng.randrange(3), 0]
    o = c16.op(rng)
    return o if o[0] != "text" else ["text", o[1], "cmd"]


def gen(rng, tier):
    games = []
    par = rng.random() < .1
    for _ in range(2 if par else 1):
        segs = []
        for i in range(rng.choice((1, 1, 1, 2))):
            n = rng.choice((4, 8, 14)) if par else rng.choice((6, 12, 20, 30))
            segs.append(game.gen_segment(rng, op, n))
            if not par and not i and rng.random() < .02:
                # a key held down
                seg = segs[-1]
                seg["walk"] = 0
                for k in ("cuts", "eintr"):
                    seg.pop(k, None)
                line = rng.choice((["text", "", "blank"], ["text", " ", "blank"], ["text", "x", "unknown"],
                                   ["text", "undo", "cmd"], ["text", "redo", "cmd"], ["text", "hint", "cmd"]))
                at = rng.randrange(n + 1)
                seg["ops"][at:at] = [line] * MANY
        games.append(dict(segments=segs))
    plan = dict(games=games)
    if par:
        plan["schedule"] = [[rng.randrange(2), rng.choice((1, 3, 10, 50, 200, 1000, 4000))]
                            for _ in range(rng.randint(2, 40))]
    return plan


def execute(plan, ctx):
    info = game.run(plan, ctx)
    cmds = info.get("cmds", set())
    for k in ("rejected", "settings"):
        if k in cmds:
            ctx.count("probe:" + k)
    kinds = sorted({o[2] for g in plan["games"] for s in g["segments"] for o in s["ops"] if len(o) == 3 and o[0] == "text"})
    for k in kinds:
        if k in PROBES:
            ctx.count("probe:" + k)
    for k in ("parallel", "restart"):
        if info.get(k):
            ctx.count("probe:" + k)
    ctx.nontrivial = "rejected" in cmds
    ctx.cover(kinds, sorted(map(str, cmds)), min(15, info.get("depth", 0)), info.get("restart"), info.get("parallel"))
