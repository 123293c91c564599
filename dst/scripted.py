"""A random source under the control of the plan.

All draws of the package go through the module-level instance of the
``random`` module; its ``_randbelow`` (the single place where choice, shuffle,
sample and randrange take a bounded number) is replaced on the instance.
"""
import random


class Script(object):
    """spec: {"mode": ..., "seed": s, "cyc": [fractions], "prefix": [fractions]}"""

    def __init__(self, spec):
        self.spec = spec
        self.draws = 0
        self.r = random.Random(spec.get("seed", 0))

    def below(self, n):
        i = self.draws
        self.draws += 1
        p = self.spec.get("prefix") or ()
        if i < len(p):
            return min(n - 1, int(p[i] * n))
        m = self.spec["mode"]
        if m == "low":
            return 0
        if m == "high":
            return n - 1
        if m == "alt":
            return 0 if i % 2 else n - 1
        if m == "mid":
            return n // 2
        if m == "cyc":
            c = self.spec["cyc"]
            return min(n - 1, int(c[i % len(c)] * n))
        if m == "skew":
            return min(n - 1, int(self.r.random() ** 6 * n))
        if m == "skewhigh":
            return n - 1 - min(n - 1, int(self.r.random() ** 6 * n))
        return min(n - 1, int(self.r.random() * n))


def spec(rng):
    m = rng.choice(("uniform", "uniform", "uniform", "low", "high", "alt", "mid", "cyc", "skew",
                    "skewhigh"))
    s = dict(mode=m, seed=rng.randrange(1 << 30))
    if m == "cyc":
        s["cyc"] = [round(rng.random(), 3) for _ in range(rng.randint(1, 5))]
    if rng.random() < .3:
        s["prefix"] = [rng.choice((0, .999, .5, round(rng.random(), 3)))
                       for _ in range(rng.randint(1, 30))]
    return s


class installed(object):
    def __init__(self, script):
        self.script = script

    def __enter__(self):
        inst = random._inst
        random.seed(self.script.spec.get("seed", 0))
        script = self.script
        inst._randbelow = script.below
        return script

    def __exit__(self, *a):
        del random._inst._randbelow
