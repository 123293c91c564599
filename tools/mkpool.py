"""Builds dst/pool.json (committed; not run by the checks)."""
import json, random, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import ref
rng = random.Random(20240601)
pool = {}
SH = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3)]
for bw, bh in SH:
    g = ref.geo(bw, bh)
    n = g.n
    big = n >= 10
    k = 40 if n <= 6 else 30 if n <= 8 else 60 if n == 9 else 6
    p = {"unique": [], "few": [], "many": [], "unsolvable": []}
    for i in range(k):
        full = ref.random_full(g, rng)
        tgt = 0 if not big else int(n * n * rng.uniform(.5, .75))
        u = ref.dig(g, full, rng, 1, tgt)
        p["unique"].append(list(u))
        if n >= 4:
            f = list(ref.dig(g, full, rng, 9, tgt))
            c = len(ref.solutions(g, f, 400, budget=200000))
            if 2 <= c <= 9: p["few"].append(f)
            if n <= 6:
                m = list(ref.dig(g, full, rng, rng.choice((30, 100, 300)), 0))
                c = len(ref.solutions(g, m, 400, budget=200000))
                if 10 <= c <= 300: p["many"].append(m)
            s = ref.spoil(g, full, u, rng)
            if s and not ref.conflicts(g, s): p["unsolvable"].append(list(s))
            # unsolvable with more givens
            base = list(u)
            for j in rng.sample(range(n * n), n * n // 3):
                base[j] = full[j]
            s = ref.spoil(g, full, base, rng)
            if s and not ref.conflicts(g, s): p["unsolvable"].append(list(s))
    p = {a: b for a, b in p.items() if b}
    pool["%dx%d" % (bw, bh)] = p
    print(bw, bh, {a: len(b) for a, b in p.items()}, [sum(map(bool, x)) for x in p["unique"]][:5], flush=True)
json.dump(pool, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../dst/pool.json"), "w"), separators=(",", ":"))
