"""C08: sequences run their steps one after another."""

import itertools

from ..trees import build, judge, shapes
from ..world import walk

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "every activity tree with a sequence in it, up to the stated number of leaves and depth "
    "(sequences, parallel blocks, repeats), with every assignment of durations; the complete "
    "logs are compared with the reference interpreter, in the native order and with every "
    "single deviation in the order of simultaneous timeouts; a case is one tree with durations"
)
ASSUMPTIONS = [
    "the activities do not compete for resources",
    "up to four leaves, depth three, durations from {0,1,2,3}; flat and nested programs of up "
    "to nine (thorough: sixteen) steps",
]
CHUNK = 60


def has(shape, k):
    return shape != "L" and (shape[0] == k or any(has(x, k) for x in shape[1:]))


def gen(tier, want, kinds, unary, plan):
    for leaves, depth, durs, dev in plan:
        for sh in shapes(leaves, depth, kinds, unary):
            if not has(sh, want):
                continue
            for ds in itertools.product(durs, repeat=leaves):
                yield {"sc": {"acts": [build(sh, lambda i: {"t": "basic", "d": ds[i]})]},
                       "dev": dev}


def deep(tier, want):
    """Deeper trees, in which no two intervals can have the same length by accident."""
    for leaves, depth in ((3, 3), (4, 3)) if tier == "quick" else ((3, 4), (4, 3), (4, 4)):
        for sh in shapes(leaves, depth, ("seq", "par", "rep2"), ("seq", "rep2")):
            if has(sh, want):
                for ds in ((1, 2, 4, 8), (8, 4, 2, 1)):
                    yield {"sc": {"acts": [build(sh, lambda i: {"t": "basic", "d": ds[i]})]}, "dev": 0}


def wide(tier, kind):
    """Many steps, branches or rounds, alone, in loops and inside each other."""
    for n in range(5, 10 if tier == "quick" else 17):
        for ds in ([1 + i % 3 for i in range(n)], [(i * 5) % 4 for i in range(n)],
                   [n - i for i in range(n)]):
            def leaf(i):
                return {"t": "basic", "d": ds[i]}
            flat = (kind, *["L"] * n)
            if kind == "rep":
                flat = (f"rep{n}", "L", "L")
            h = n // 2
            shp = [flat, ("rep2", flat), ("seq", flat), ("par", flat)]
            if kind != "rep":
                shp += [(kind, (kind, *["L"] * h), *["L"] * (n - h)),
                        (kind, *["L"] * h, ("rep2", *["L"] * (n - h)))]
            for s in shp:
                yield {"sc": {"acts": [build(s, leaf)]}, "dev": 0}
                # names that are not in the order of the steps
                turned = build(s, lambda i: leaf(n - 1 - i))
                for a in walk([turned]):
                    if a["t"] == "basic":
                        a["n"] = f"a{(int(a['n'][1:]) * 7 + 3) % 101}"
                yield {"sc": {"acts": [turned]}, "dev": 0}


def cases(tier):
    yield from wide(tier, "seq")
    plan = [(1, 3, (0, 1, 2), 1), (2, 3, (0, 1, 2), 1), (3, 2, (0, 1, 2), 1), (4, 1, (0, 1, 2, 3), 1),
            (4, 2, (0, 1), 0)]
    if tier != "quick":
        plan += [(3, 3, (0, 1, 2), 2), (4, 2, (0, 1, 3), 1), (5, 1, (0, 1, 2, 3), 1), (5, 2, (0, 1), 0)]
    yield from gen(tier, "seq", ("seq", "par", "rep2"), ("seq", "rep2"), plan)
    yield from deep(tier, "seq")
    # a step that is a transfer or a move, and several sequences next to each other
    O = [{"n": "S", "k": "site", "cap": 50, "lvl": 50, "nr": 9},
         {"n": "V", "k": "vessel", "cap": 50, "lvl": 0, "nr": 9}]
    for ds in itertools.product((0, 1, 2), repeat=4):
        a = {"t": "seq", "n": "q", "sub": [
            {"t": "basic", "n": "a", "d": ds[0]},
            {"t": "shift", "n": "b", "proc": "V", "org": "S", "dst": "V", "amt": 1, "d": ds[1]},
            {"t": "basic", "n": "c", "d": ds[2]}]}
        b = {"t": "seq", "n": "p", "sub": [
            {"t": "shift", "n": "x", "proc": "V", "org": "S", "dst": "V", "amt": 2, "d": ds[3]},
            {"t": "basic", "n": "y", "d": ds[0]}]}
        for acts in ([a], [a, b], [b, a], [{"t": "par", "n": "r", "sub": [a, b]}],
                     [{"t": "rep", "n": "r", "k": 2, "sub": [a, b]}]):
            yield {"sc": {"objs": O, "acts": acts}, "dev": 1}


def run_case(case, res):
    judge(case, res)
