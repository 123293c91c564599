"""Boards for the workloads: a committed pool, randomised by symmetry."""
import json
import os

from . import ref

_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pool.json")) as f:
            _POOL = json.load(f)
    return _POOL


def shuffle_board(rng, bw, bh, grid):
    """A random symmetry of the grid that keeps the box shape."""
    n = bw * bh
    digits = [0] + rng.sample(range(1, n + 1), n)
    rows = []
    for b in rng.sample(range(n // bh), n // bh):
        rows += [b * bh + y for y in rng.sample(range(bh), bh)]
    cols = []
    for s in rng.sample(range(n // bw), n // bw):
        cols += [s * bw + x for x in rng.sample(range(bw), bw)]
    return [digits[grid[r * n + c]] for r in rows for c in cols]


def kinds(bw, bh):
    return sorted(pool()["%dx%d" % (bw, bh)])


def pick(rng, bw, bh, kind):
    """kind: unique, few (2..9 solutions), many (10..300), full, empty,
    conflict, unsolvable, pair (solutions that differ in neighbouring fields only)"""
    n = bw * bh
    g = ref.geo(bw, bh)
    if kind == "pair":
        return pair(rng, bw, bh)
    if kind == "empty":
        return [0] * (n * n)
    if kind == "full":
        return list(ref.random_full(g, rng))
    p = pool()["%dx%d" % (bw, bh)]
    if kind == "conflict" and rng.random() < 0.5:
        grid = broken(rng, bw, bh)
        if grid:
            return grid
    if kind == "conflict":
        base = shuffle_board(rng, bw, bh, rng.choice(p["unique"] + p.get("few", [])))
        filled = [i for i in range(n * n) if base[i]]
        if not filled:
            return base
        i = rng.choice(filled)
        j = rng.choice(g.peers[i])
        base[j] = base[i]
        return base
    if kind == "unsolvable":
        src = p.get("unsolvable")
        if not src:
            return pick(rng, bw, bh, "conflict")
        return shuffle_board(rng, bw, bh, rng.choice(src))
    src = p.get(kind) or p["unique"]
    return shuffle_board(rng, bw, bh, rng.choice(src))


def broken(rng, bw, bh):
    """Givens that contradict each other in one kind of unit only and that could be completed
    if that kind of unit didn't count (None if the shape has no such board)."""
    n = bw * bh
    g = ref.geo(bw, bh)
    grid = list(ref.random_full(g, rng))
    what = rng.choice(("box", "row", "column"))
    if what == "box":          # exchange rows of different bands: the boxes break
        r1, r2 = rng.randrange(n), rng.randrange(n)
        if r1 // bh == r2 // bh:
            return None
        for c in range(n):
            grid[r1 * n + c], grid[r2 * n + c] = grid[r2 * n + c], grid[r1 * n + c]
    elif what == "row":        # exchange two row pieces inside a box: the rows break
        if bh < 2 or bh == n:
            return None
        br, bc = rng.randrange(bw) * bh, rng.randrange(bh) * bw
        y1, y2 = rng.sample(range(bh), 2)
        for x in range(bw):
            i, j = (br + y1) * n + bc + x, (br + y2) * n + bc + x
            grid[i], grid[j] = grid[j], grid[i]
    else:
        if bw < 2 or bw == n:
            return None
        br, bc = rng.randrange(bw) * bh, rng.randrange(bh) * bw
        x1, x2 = rng.sample(range(bw), 2)
        for y in range(bh):
            i, j = (br + y) * n + bc + x1, (br + y) * n + bc + x2
            grid[i], grid[j] = grid[j], grid[i]
    bad = [i for i in range(n * n) if any(grid[i] == grid[j] for j in g.peers[i])]
    if not bad:
        return None
    fine = [i for i in range(n * n) if i not in bad]
    rng.shuffle(fine)
    for i in fine[:rng.choice((0, 1, 3, 6))]:
        grid[i] = 0
    if rng.random() < 0.5:     # leave a single contradiction
        i = rng.choice(bad)
        j = rng.choice([j for j in g.peers[i] if grid[j] == grid[i]])
        for k in bad:
            if k not in (i, j) and (grid[k] == grid[i] or rng.random() < 0.3):
                grid[k] = 0
    return grid


def pair(rng, bw, bh):
    """A nearly full board with an open rectangle a b / b a in neighbouring columns: two solutions which
    are easily confused (1 and 11, where there are such numbers)."""
    n = bw * bh
    g = ref.geo(bw, bh)
    a, b = (1, 11) if n > 10 else rng.sample(range(1, n + 1), 2)
    if bw > 1 and bh < n and rng.random() < 0.7:      # in two bands
        c = rng.randrange(bh) * bw + rng.randrange(bw - 1)
        r1, r2 = rng.sample(range(n), 2)
        if r1 // bh == r2 // bh:
            r2 = (r1 + bh) % n
    elif bh > 1 and bw < n:                           # in two stacks
        c = rng.randrange(1, bh) * bw - 1
        r1 = rng.randrange(bw) * bh
        r2 = r1 + 1
    else:
        return pick(rng, bw, bh, "few")
    grid = [0] * (n * n)
    grid[r1 * n + c], grid[r1 * n + c + 1], grid[r2 * n + c], grid[r2 * n + c + 1] = a, b, b, a
    try:
        grid = list(ref.solutions(g, grid, 1, rng, budget=20000)[0])
    except (ref.TooMany, IndexError):
        return pick(rng, bw, bh, "few")
    cells = [r1 * n + c, r1 * n + c + 1, r2 * n + c, r2 * n + c + 1]
    rest = [i for i in range(n * n) if i not in cells]
    for i in cells + rng.sample(rest, min(len(rest), rng.choice((0, 0, 2, 5)))):
        grid[i] = 0
    return grid


def collide(rng, bw, bh, grid):
    """Two boards close to grid with different numbers, but the same when written without separators
    (possible with numbers above 9 only; None otherwise)."""
    n = bw * bh
    if n < 10:
        return None
    a, b = list(grid), list(grid)
    i = rng.randrange(n) * n + rng.randrange(n - 2)
    opts = [((1, 0, 10), (10, 1, 0)), ((10, 1, 0), (1, 0, 10))]
    if n > 10:
        opts += [((1, 11), (11, 1)), ((1, 11), (11, 1)), ((1, 0, 11), (10, 1, 1)), ((1, 10), (11, 0))]
    if n > 11:
        opts += [((1, 12), (11, 2))]
    x, y = rng.choice(opts)
    a[i:i + len(x)], b[i:i + len(y)] = x, y
    return a, b


def twin(rng, bw, bh, grid):
    """(bw, bh, grid) of a board that differs from the given one, but has something essential in common."""
    n = bw * bh
    grid = list(grid)
    how = rng.choice(("shape", "shape", "shape", "transposed", "one", "last", "relabelled", "rows", "collide"))
    if how == "shape" and bw != bh:
        return bh, bw, grid
    if how == "transposed":
        return bh, bw, [grid[c * n + r] for r in range(n) for c in range(n)]
    if how == "collide" and n > 9:
        return bw, bh, collide(rng, bw, bh, grid)[1]
    if how == "relabelled":
        d = [0] + rng.sample(range(1, n + 1), n)
        return bw, bh, [d[v] for v in grid]
    if how == "rows":
        b = rng.randrange(bw) * bh
        rows = list(range(n))
        rows[b:b + bh] = rng.sample(rows[b:b + bh], bh)
        return bw, bh, [grid[r * n + c] for r in rows for c in range(n)]
    i = n * n - 1 if how == "last" else rng.randrange(n * n)
    g = ref.geo(bw, bh)
    vals = [v for v in range(n + 1) if v != grid[i] and (not v or all(grid[j] != v for j in g.peers[i]))]
    grid[i] = rng.choice(vals) if vals else 0 if grid[i] else 1
    return bw, bh, grid


def twin_spec(rng, spec, most=60):
    """A twin of a board description (None if it is too hard or has too many solutions)."""
    for _ in range(4):
        bw, bh, grid = twin(rng, spec["bw"], spec["bh"], spec["grid"])
        try:
            sols = ref.solutions(ref.geo(bw, bh), grid, most + 1, budget=3000)
        except ref.TooMany:
            continue
        if len(sols) > most:
            continue
        kind = "conflict" if ref.conflicts(ref.geo(bw, bh), grid) else "unsolvable" if not sols else \
            "unique" if len(sols) == 1 else "few"
        if kind == "unsolvable" and bw * bh > 6:
            continue
        return dict(spec, bw=bw, bh=bh, kind=kind, grid=list(grid))
    return None


def thin(rng, bw, bh, grid, fill):
    """Fill in some fields of a uniquely solvable grid from its solution."""
    g = ref.geo(bw, bh)
    sol = ref.solutions(g, grid, 1, budget=200000)
    if not sol:
        return grid
    grid = list(grid)
    empty = [i for i, v in enumerate(grid) if not v]
    rng.shuffle(empty)
    for i in empty[:fill]:
        grid[i] = sol[0][i]
    return grid


def build(bw, bh, grid, cands=None):
    """A package Sudoku with these numbers and candidates."""
    from sudokutools.sudoku import Sudoku
    s = Sudoku(box_size=(bw, bh))
    n = bw * bh
    for i, v in enumerate(grid):
        if v:
            s[i // n, i % n] = v
    if cands is not None:
        for i, c in enumerate(cands):
            s.set_candidates(i // n, i % n, c)
    return s


def nums(s):
    """Numbers of a package sudoku as a tuple (through the public API)."""
    n = s.box_width * s.box_height
    return tuple(s[r, c] for r in range(n) for c in range(n))


def cands(s):
    n = s.box_width * s.box_height
    return tuple(frozenset(s.get_candidates(r, c)) for r in range(n) for c in range(n))


def full_state(s):
    return (s.box_width, s.box_height, nums(s), cands(s))


def shape(s):
    return (s.box_width, s.box_height)


def text(bw, bh, grid):
    n = bw * bh
    return "/".join("".join("%d" % v if v < 10 else "(%d)" % v for v in grid[r * n:r * n + n])
                    for r in range(n))


def random_cands(rng, n, grid=None, p=0.5):
    """Arbitrary candidate sets."""
    mode = rng.choice(("none", "some", "all", "random"))
    out = []
    for i in range(n * n):
        if mode == "none":
            out.append([])
        elif mode == "all":
            out.append(list(range(1, n + 1)))
        elif mode == "some" and rng.random() < 0.5:
            out.append([])
        else:
            out.append([v for v in range(1, n + 1) if rng.random() < p])
    return out
