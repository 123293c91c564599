"""Independent reference models: geometry, rules and a complete solver.

Written from the rules of sudoku; shares no code with the package.
Boards are flat tuples of n*n ints, 0 is empty.
"""
from functools import lru_cache


class Geo(object):
    def __init__(self, bw, bh):
        self.bw, self.bh = bw, bh
        self.n = n = bw * bh
        self.cells = [(r, c) for r in range(n) for c in range(n)]
        self.box = [(r // bh) * bh + c // bw for r, c in self.cells]
        units = []
        for r in range(n):
            units.append([r * n + c for c in range(n)])
        for c in range(n):
            units.append([r * n + c for r in range(n)])
        for b in range(n):
            units.append([i for i in range(n * n) if self.box[i] == b])
        self.units = units
        peers = [set() for _ in range(n * n)]
        for u in units:
            for i in u:
                peers[i].update(u)
        self.peers = [tuple(sorted(p - {i})) for i, p in enumerate(peers)]


@lru_cache(None)
def geo(bw, bh):
    return Geo(bw, bh)


class TooMany(Exception):
    pass


def solutions(g, grid, limit, rng=None, budget=None):
    """Up to ``limit`` solutions as tuples, [] for conflicting givens.

    ``budget`` bounds the number of search nodes (None: unbounded);
    exceeding it raises TooMany."""
    n = g.n
    full = (1 << n) - 1
    rows = [full] * n
    cols = [full] * n
    boxes = [full] * n
    cur = list(grid)
    for i, v in enumerate(cur):
        if v:
            if not 1 <= v <= n:
                return []
            b = 1 << (v - 1)
            r, c = divmod(i, n)
            x = g.box[i]
            if not (rows[r] & cols[c] & boxes[x] & b):
                return []
            rows[r] &= ~b
            cols[c] &= ~b
            boxes[x] &= ~b
    empty = [i for i, v in enumerate(cur) if not v]
    out = []
    nodes = [0]
    box = g.box

    def rec():
        nodes[0] += 1
        if budget is not None and nodes[0] > budget:
            raise TooMany()
        best = None
        bm = 0
        bc = 99
        for i in empty:
            if cur[i]:
                continue
            m = rows[i // n] & cols[i % n] & boxes[box[i]]
            k = m.bit_count()
            if k < bc:
                best, bm, bc = i, m, k
                if k <= 1:
                    break
        if best is None:
            # a hidden dead end cannot be left here: all cells are filled
            out.append(tuple(cur))
            return len(out) >= limit
        vals = [v for v in range(1, n + 1) if bm >> (v - 1) & 1]
        if rng is not None:
            rng.shuffle(vals)
        r, c = divmod(best, n)
        x = box[best]
        for v in vals:
            b = 1 << (v - 1)
            rows[r] ^= b
            cols[c] ^= b
            boxes[x] ^= b
            cur[best] = v
            stop = rec()
            cur[best] = 0
            rows[r] ^= b
            cols[c] ^= b
            boxes[x] ^= b
            if stop:
                return True
        return False

    rec()
    return out


def conflicts(g, grid):
    """Set of ((r,c),(i,j),v) for every ordered pair of equal peers."""
    n = g.n
    res = set()
    for i, v in enumerate(grid):
        if v:
            for j in g.peers[i]:
                if grid[j] == v:
                    res.add((divmod(i, n), divmod(j, n), v))
    return res


def candidates(g, grid):
    """Candidates of every field by the rules (a filled field: its number)."""
    out = []
    for i, v in enumerate(grid):
        if v:
            out.append(frozenset((v,)))
        else:
            used = {grid[j] for j in g.peers[i]}
            out.append(frozenset(x for x in range(1, g.n + 1) if x not in used))
    return tuple(out)


def random_full(g, rng):
    """A random complete grid."""
    bw, bh, n = g.bw, g.bh, g.n
    if n <= 9 and rng.random() < 0.5:
        seed = [0] * (n * n)
        vals = list(range(1, n + 1))
        rng.shuffle(vals)
        for i, v in zip(rng.choice(g.units[2 * n:]), vals):
            seed[i] = v
        try:
            s = solutions(g, seed, 1, rng, budget=4000)
            if s:
                return s[0]
        except TooMany:
            pass
    digits = list(range(1, n + 1))
    rng.shuffle(digits)
    rows = []
    bands = list(range(n // bh))
    rng.shuffle(bands)
    for b in bands:
        x = list(range(bh))
        rng.shuffle(x)
        rows += [b * bh + y for y in x]
    cols = []
    stacks = list(range(n // bw))
    rng.shuffle(stacks)
    for s in stacks:
        x = list(range(bw))
        rng.shuffle(x)
        cols += [s * bw + y for y in x]
    return tuple(digits[(bw * (r % bh) + r // bh + c) % n]
                 for r in rows for c in cols)


def dig(g, full, rng, maxsol, target, tries=None):
    """Empty fields of ``full`` while it has at most ``maxsol`` solutions."""
    grid = list(full)
    order = list(range(g.n * g.n))
    rng.shuffle(order)
    filled = len(order)
    for k, i in enumerate(order):
        if filled <= target or (tries is not None and k >= tries):
            break
        v = grid[i]
        grid[i] = 0
        try:
            ok = len(solutions(g, grid, maxsol + 1, budget=3000)) <= maxsol
        except TooMany:
            ok = False
        if ok:
            filled -= 1
        else:
            grid[i] = v
    return tuple(grid)


def spoil(g, full, grid, rng):
    """Change one given so that the result has no solution (or None)."""
    n = g.n
    filled = [i for i, v in enumerate(grid) if v]
    rng.shuffle(filled)
    for i in filled[:8]:
        vals = [v for v in range(1, n + 1) if v != grid[i]]
        rng.shuffle(vals)
        for v in vals[:3]:
            new = list(grid)
            new[i] = v
            try:
                if not solutions(g, new, 1, budget=3000):
                    return tuple(new)
            except TooMany:
                pass
    return None
