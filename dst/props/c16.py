"""C16: undo and redo walk exactly through the game's history."""
from .. import game

RUNS = {"quick": 600, "thorough": 60000}
RULE = ("a case is 1-2 seeded games (two of them in threads under a seeded schedule), each of 1-2 runs of the "
        "game shell on one object: right and wrong moves, overwriting, removal of right and wrong candidates, "
        "groups of fields, undo/redo chains, queries, malformed lines and settings switched in between, on "
        "devices that split reads, deliver signals and write short; some runs are cut by Ctrl-C and the shell "
        "is started again; every board printed is compared with the model; non-trivial when something was "
        "undone or a query was judged")
MEASURE = "distinct (history depth, commands judged, hints seen, restarted, parallel, settings) tuples"
REAL = ["sudokutools.shell.GameShell", "sudokutools.notation", "sudokutools.actions", "sudokutools.sudoku",
        "sudokutools.solvers", "sudokutools.analyze", "sudokutools.solve", "sudokutools.generate (some runs)",
        "TextIOWrapper, input and print of the interpreter"]
STUB = ["terminal", "player", "thread scheduler", "generate() in most runs (returns a board of the committed pool)"]
ASSUME = ["where a move leads to contradictory boards the order of automatic setting is open",
          "a board is correctly played when no wrong number was set and no right candidate removed, also not from a "
          "field already filled",
          "lines whose meaning the documentation leaves open (spaces inside a move, '=0', '-5 r1c1') may be "
          "executed or rejected",
          "the settings are switched through the settings dictionary of the shell, between two lines"]
SHRINK = ("games", "segments", "ops", "schedule")
PROBES = ["undo-then-move", "deep-history", "very-deep-history", "conflicting-board", "autoset", "parallel", "restart", "hint", "check",
          "conflicts", "real-generate"]
simplify = game.simplify
WALL = 120

OPS = (("right", 10), ("naked", 5), ("wrong", 6), ("over", 3), ("again", 2), ("rem", 8), ("bi", 4), ("remright", 2),
       ("remall", 1), ("unrem", 2), ("undo", 12), ("redo", 8), ("hint", 7), ("check", 4), ("conflicts", 4),
       ("candidates", 2), ("settings", 1), ("group", 5), ("bad", 2), ("toggle", 2), ("burst", 0))


def op(rng):
    kind = rng.choices([a for a, b in OPS], [b for a, b in OPS])[0]
    if kind in game.COMMANDS:
        return ["text", kind]
    if kind == "group":
        g = game.group_text(rng)
        if rng.random() < .3:
            return ["text", "%s=%d" % (g, rng.randint(1, 9))]
        return ["text", "%s<>%s" % (g, "".join(rng.sample("123456789", rng.choice((1, 1, 2, 3)))))]
    if kind == "bad":
        return ["text", rng.choice(("foo", "help", "r1c1", "r1c1=x", "=5", "r1c1<>a", "Undo", "r1x1=5", "exit"))]
    if kind == "toggle":
        return ["toggle", rng.choice(game.TOGGLES[:3])]
    return [kind, rng.randrange(81), rng.randrange(6), rng.randrange(9)]


def steady(rng):
    """A change with nearly every move: a long history."""
    f = "r%dc%d" % (rng.randint(1, 9), rng.randint(1, 9))
    x = rng.random()
    if x < .6:
        return ["text", "%s=%d" % (f, rng.randint(1, 9))]
    if x < .95:
        return ["text", "%s<>%s" % (f, "".join(rng.sample("123456789", 4)))]
    return op(rng)


def chain(rng, n):
    """Moves and walks through the history that revisit the same entries."""
    out = []
    while len(out) < n:
        x = rng.random()
        if x < .5:
            out += [op(rng) for _ in range(rng.randint(1, 4))]
        elif x < .8:
            out += [["text", "undo"]] * rng.randint(1, 5)
        elif x < .9:
            out += [["text", "redo"]] * rng.randint(1, 4)
        elif x < .94:
            out += [["text", "hint"]] * rng.randint(2, 6)
        else:
            # hints before and after a wrong step is taken back
            k = rng.randrange(81)
            kind = rng.choice(("remright", "remright", "wrong", "bi", "right"))
            out += [[kind, k, rng.randrange(6), rng.randrange(9)]] * rng.randint(1, 2)
            out += [["text", "hint"]] * rng.randint(1, 2)
            out += [["text", "undo"]] * rng.randint(1, 2)
            out += [["text", "hint"]] * rng.randint(1, 12)
    return out[:n]


def gen(rng, tier):
    games = []
    par = rng.random() < .2
    for _ in range(2 if par else 1):
        segs = []
        for i in range(rng.choice((1, 1, 1, 2))):
            n = rng.choice((4, 8, 14, 25)) if par else rng.choice((5, 10, 20, 30))
            long = not par and rng.random() < .04
            if long:
                n = rng.choice((130, 160))
            seg = game.gen_segment(rng, steady if long else op, n, fill=0 if long else None)
            if long:
                seg["walk"] = n + 2
                seg["settings"].update(autocandidates=True, autoremove=False, autoset=False)
            elif rng.random() < .5:
                seg["ops"] = chain(rng, n)
            if i and rng.random() < .2:
                seg["fresh"] = True
            if rng.random() < .02:
                seg["real"] = True
                seg["settings"]["autoset"] = False
            segs.append(seg)
        games.append(dict(segments=segs))
    plan = dict(games=games)
    if par:
        plan["schedule"] = [[rng.randrange(2), rng.choice((1, 3, 10, 50, 200, 1000, 4000))]
                            for _ in range(rng.randint(2, 40))]
    return plan


def execute(plan, ctx):
    info = game.run(plan, ctx)
    cmds = info.get("cmds", set())
    for k in ("hint", "check", "conflicts"):
        if k in cmds:
            ctx.count("probe:" + k)
    if info.get("undone"):
        ctx.count("probe:undo-then-move")
    if info.get("depth", 0) > 10:
        ctx.count("probe:deep-history")
    if info.get("depth", 0) > 100:
        ctx.count("probe:very-deep-history")
    for k, name in (("parallel", "parallel"), ("restart", "restart"), ("real", "real-generate"),
                    ("autoset", "autoset"), ("conflicting", "conflicting-board")):
        if info.get(k):
            ctx.count("probe:" + name)
    ctx.nontrivial = bool(info.get("undone") or cmds & {"hint", "check", "conflicts"})
    ctx.cover(min(20, info.get("depth", 0)), sorted(map(str, cmds)), sorted(info.get("hints", ())),
              info.get("restart"), info.get("parallel"))
