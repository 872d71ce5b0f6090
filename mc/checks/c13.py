"""C13: logs are a complete and truthful record."""

import itertools

from ..fleet import (Records, buffer_fleets, fleet, plugin_fleets, schedules, std_fleets,
                     variant_fleets)
from ..programs import stretch

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "every fleet, every crane with several slots serving two vessels, and every small program "
    "of basic activities with additional logs and waits, under every registration order and "
    "tie order within the deviation bound, partly with steps of fractions of a second and with "
    "objects of the same name; every entry is compared with the real state at the "
    "step in which it is logged, and the logs of objects with those of activities at the end"
)
ASSUMPTIONS = [
    "the real state at a moment is the state before or after the simulation step that logs",
    "up to three vessels, durations 1 and 2 (and multiples of 1/3, 0.0007 and 14285.7 s)",
]
CHUNK = 6


def multi_transfer(am, bm, da, db, ta, tb):
    """Two products at the same time between the same objects with two slots."""
    m = [["sand", 9, 6], ["rock", 9, 6]]
    e = [["sand", 9, 1], ["rock", 9, 2]]
    return {
        "objs": [
            {"n": "S", "k": "site", "nr": 2, "multi": m, "at": 0},
            {"n": "X", "k": "site", "nr": 2, "cap": 1, "processor": True, "at": 0},
            {"n": "V", "k": "vessel", "nr": 2, "multi": e, "at": 0},
        ],
        "acts": [
            {"t": "shift", "n": "T0", "proc": "X", "org": "S", "dst": "V", "d": da, "amt": am,
             "id": "sand", "se": {"time": ta}},
            {"t": "shift", "n": "T1", "proc": "X", "org": "S", "dst": "V", "d": db, "amt": bm,
             "id": "rock", "se": {"time": tb}},
        ],
    }


def cases(tier):
    odd = 0
    for i, c in enumerate(all_cases(tier)):
        yield c
        if (i + i // 11) % 11 == 0:  # the offset moves along
            odd += 1
            # steps of fractions of a second; objects with the same name
            yield {**c, "sc": stretch(c["sc"], (1 / 3, 0.0007, 1e5 / 7)[odd % 3])}
            objs = [{**o, "label": "object"} for o in c["sc"]["objs"]]
            yield {**c, "sc": {**c["sc"], "objs": objs}}


def all_cases(tier):
    quick = tier == "quick"
    for sc, dev in itertools.chain(std_fleets(tier), variant_fleets(tier), buffer_fleets(tier),
                                   plugin_fleets(tier)):
        yield {"sc": sc, "dev": 1 if quick else dev}
    for a in itertools.product((1, 2), (1, 2), (0, 1, 2), (1, 2), (0, 1), (0, 1)):
        yield {"sc": multi_transfer(*a), "dev": 2}
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 3, 1, 1), (2, 2, 1, 1)]
    for d in itertools.product(D, repeat=2):
        for crane in (1, 2):
            for sl in ((2, 2), (2, 1), (1, 1)):
                for k in (1, 2, 3):
                    yield {"sc": fleet(d, sl, 20, 20, 2, k, crane=crane), "dev": 2}
    # a vessel with several slots that is used twice at the same time
    for dm, dl, tm, tl, k in itertools.product((1, 2, 3), (1, 2, 3), (0, 1), (0, 1, 2), "mlb"):
        sc = {"objs": [{"n": "S", "k": "site", "cap": 9, "lvl": 5, "nr": 3},
                       {"n": "V", "k": "vessel", "cap": 9, "lvl": 4, "nr": 3}],
              "acts": [{"t": "move", "n": "M", "mover": "V", "dest": "S", "d": dm,
                        "se": {"time": tm}}]}
        if k == "m":
            sc["acts"].append({"t": "move", "n": "N", "mover": "V", "dest": "S", "d": dl,
                               "se": {"time": tl}})
        if k in "lb":
            sc["acts"].append({"t": "shift", "n": "L", "proc": "V", "org": "S", "dst": "V",
                               "d": dl, "amt": 1, "se": {"time": tl}})
        if k == "b":
            sc["acts"].append({"t": "shift", "n": "U", "proc": "V", "org": "V", "dst": "S",
                               "d": 2, "amt": 1, "se": {"time": 1}})
        yield {"sc": sc, "dev": 2}
    # objects whose mixins are combined in the opposite order
    P, Q = [["sand", 9, 6], ["rock", 9, 6]], [["sand", 9, 1], ["rock", 9, 2]]
    for ms, mv, rs, rv, mov in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), ("plain", None)):
        if ms != mv:
            continue
        V = {"n": "V", "k": "vessel", "at": 1, **({"multi": Q} if mv else {"cap": 9, "lvl": 1})}
        S = {"n": "S", "k": "site", "at": 0, **({"multi": P} if ms else {"cap": 9, "lvl": 6})}
        for o, r in ((V, rv), (S, rs)):
            if r:
                o["rev"] = True
        if mov:
            V["mov"] = mov
        i = {"id": "rock"} if ms else {}
        yield {"sc": {"objs": [S, V, {"n": "T", "k": "site", "at": 2, "cap": 5}], "acts": [
            {"t": "seq", "n": "q", "sub": [
                {"t": "move", "n": "m", "mover": "V", "dest": "S", "d": 2},
                {"t": "shift", "n": "l", "proc": "V", "org": "S", "dst": "V", "amt": 2, "d": 1, **i},
                {"t": "move", "n": "n", "mover": "V", "dest": "T", "d": 2},
                {"t": "basic", "n": "b", "d": 1, "logs": ["V", "S"]}]}]}, "dev": 1}
    # waits on an object while its level changes
    for tb, d, dl in itertools.product((1, 2, 3), (1, 2), (0, 1)):
        for se in ({"time": tb}, {"lvl": ["S", "le", 3, "default"]},
                   {"and": [{"time": tb}, {"lvl": ["S", "le", 3, "default"]}]}):
            yield {"sc": {
                "objs": [{"n": "S", "k": "site", "cap": 5, "lvl": 5},
                         {"n": "V", "k": "vessel", "cap": 5, "lvl": 0}],
                "acts": [{"t": "seq", "n": "q", "sub": [
                    {"t": "basic", "n": "b0", "d": dl},
                    {"t": "shift", "n": "l", "proc": "V", "org": "S", "dst": "V", "d": d, "amt": 2}]},
                    {"t": "basic", "n": "b", "d": 1, "logs": ["S", "V"], "se": se}]}, "dev": 2}
    # many additional logs
    for n in (1, 2, 3, 4, 6):
        for db, se in itertools.product((0, 1, 2), ({"time": 0}, {"time": 1.5}, {"act": "a"})):
            objs = [{"n": f"S{i}", "k": "site", "cap": 5, "lvl": i} for i in range(n)]
            logs = [f"S{i}" for i in range(n)]
            b = {"t": "basic", "n": "b", "d": db, "logs": [*logs, "a"], "se": se}
            acts = [{"t": "basic", "n": "a", "d": 2, "logs": logs[::-1]},
                    {"t": "rep", "k": 2, "n": "r", "sub": [b]}]
            yield {"sc": {"objs": objs, "acts": acts}, "dev": 1}
    # basic activities that log on objects and on each other, with waits
    O = [{"n": "S", "k": "site", "cap": 5, "lvl": 2}]
    ses = [None, {"time": 0}, {"time": 1}, {"time": 3}, {"act": "a"},
           {"or": [{"act": "a"}, {"time": 2}]}]
    for da, db, dc in itertools.product((0, 1, 2), repeat=3):
        for sb, sc_ in itertools.product(ses, repeat=2):
            for shape in ("flat", "seq", "par", "rep"):
                b = {"t": "basic", "n": "b", "d": db, "logs": ["S", "a"]}
                c = {"t": "basic", "n": "c", "d": dc, "logs": ["S"]}
                if sb:
                    b["se"] = sb
                if sc_:
                    c["se"] = sc_
                acts = [{"t": "basic", "n": "a", "d": da, "logs": ["S"]}]
                if shape == "flat":
                    acts += [b, c]
                elif shape == "rep":
                    acts += [{"t": "rep", "k": 2, "n": "r", "sub": [b, c]}]
                else:
                    acts += [{"t": shape, "n": "r", "sub": [b, c]}]
                yield {"sc": {"objs": O, "acts": acts}, "dev": 1,
                       "orders": [list(range(len(acts)))]}


def run_case(case, res):
    schedules(case, res, [Records])
