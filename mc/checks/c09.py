"""C09: parallel activities start together and end with the last one."""

import itertools

from ..trees import judge
from .c08 import deep, gen, wide

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "every activity tree with a parallel block in it, up to the stated number of leaves and "
    "depth (sequences, parallel blocks, repeats), with every assignment of durations; the "
    "complete logs are compared with the reference interpreter, in the native order and with "
    "every single deviation in the order of simultaneous timeouts; a case is one tree"
)
ASSUMPTIONS = [
    "the activities do not compete for resources",
    "up to four leaves, depth three, durations from {0,1,2,3}; flat and nested programs of up "
    "to nine (thorough: sixteen) branches",
]
CHUNK = 60


def cases(tier):
    plan = [(1, 3, (0, 1, 2), 1), (2, 3, (0, 1, 2), 1), (3, 2, (0, 1, 2), 1), (4, 1, (0, 1, 2, 3), 1)]
    if tier != "quick":
        plan += [(3, 3, (0, 1, 2), 2), (4, 2, (0, 1, 3), 1), (5, 1, (0, 1, 2, 3), 1)]
    # parallel blocks of one branch are covered, too
    yield from gen(tier, "par", ("seq", "par", "rep2"), ("par", "rep2"), plan)
    yield from deep(tier, "par")
    yield from wide(tier, "par")
    # parallel blocks with branches that wait for each other and for times
    for ds in itertools.product((0, 1, 2, 3), repeat=3):
        for se in (None, {"act": "a"}, {"time": 2}, {"act": "c"}, {"or": [{"act": "a"}, {"act": "c"}]}):
            for wrap in (None, "rep", "seq", "par"):
                b = {"t": "basic", "n": "b", "d": ds[1]}
                if se:
                    b["se"] = se
                p = {"t": "par", "n": "p", "sub": [
                    {"t": "basic", "n": "a", "d": ds[0]}, b, {"t": "basic", "n": "c", "d": ds[2]}]}
                if wrap == "rep":
                    p = {"t": "rep", "k": 3, "n": "r", "sub": [p]}
                elif wrap:
                    p = {"t": wrap, "n": "r", "sub": [p, {"t": "basic", "n": "e", "d": 1}]}
                yield {"sc": {"acts": [p]}, "dev": 1}


def run_case(case, res):
    judge(case, res)
