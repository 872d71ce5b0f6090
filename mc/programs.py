"""Small complete models used by the checks on dependency tracking, tables, charts and reruns."""

import copy
import itertools

from .fleet import fleet
from .trees import build, shapes

OBJ = [{"n": "S", "k": "site", "at": 1, "cap": 90, "lvl": 50, "nr": 20},
       {"n": "V", "k": "vessel", "at": 1, "cap": 90, "lvl": 20, "nr": 20},
       {"n": "W", "k": "site", "at": 1, "cap": 90, "lvl": 0, "nr": 20}]
MULTI = [{"n": "S", "k": "site", "at": 1, "multi": [["sand", 90, 50], ["rock", 90, 30]], "nr": 20},
         {"n": "V", "k": "vessel", "at": 1, "multi": [["sand", 90, 20], ["rock", 90, 10]], "nr": 20},
         {"n": "W", "k": "site", "at": 1, "multi": [["sand", 90, 0], ["rock", 90, 0]], "nr": 20}]


def leaf(kind, d, multi=None):
    a = {} if multi is None else {"id": multi}
    if kind == "b":
        return {"t": "basic", "d": d, "logs": ["S"]}
    if kind == "v":
        return {"t": "basic", "d": d, "logs": ["V"]}
    if kind == "s":
        return {"t": "shift", "proc": "V", "org": "S", "dst": "V", "amt": 1, "d": d, **a}
    if kind == "u":
        return {"t": "shift", "proc": "V", "org": "V", "dst": "W", "amt": 1, "d": d, **a}
    return {"t": "move", "mover": "V", "dest": "W", "d": d}


WEATHER = {"ts": [0, 3, 5, 9, 14, 20, 27], "x": [2, 0, 2, 0, 2, 0, 0], "len": 2, "max": 1}


def trees(tier, zero=True, composite=False):
    quick = tier == "quick"
    D = (0, 1, 2) if zero else (1, 2, 3)
    plan = [(1, 2), (2, 2), (3, 1)] if quick else [(1, 3), (2, 2), (3, 2)]
    for n, depth in plan:
        for sh in shapes(n, depth, ("seq", "par", "rep2"), ("seq", "rep2")):
            combos = ["bsvumvsb"[i:i + n] for i in range(5)] if n < 3 else ["bsm", "vus"]
            for k, kinds in enumerate(combos):
                for ds in itertools.product(D, repeat=n):
                    if n > 2 and quick and ds[0] > ds[1]:
                        continue
                    multi = "rock" if k == 1 else None
                    objs = MULTI if multi else OBJ
                    if multi is None or "m" not in kinds:
                        t = build(sh, lambda i: leaf(kinds[i], ds[i], multi))
                        yield {"objs": objs, "acts": [t]}


def competing(tier, zero=False):
    """Two or three leaves that use the same vessel, and trees next to each other."""
    D = (0, 1, 2) if zero else (1, 2)
    one = [dict(o, nr=1) for o in OBJ]
    for kinds in itertools.product("bsum", repeat=2):
        for ds in itertools.product(D, repeat=3):
            a = {**leaf(kinds[0], ds[0]), "n": "a"}
            b = {**leaf(kinds[1], ds[1]), "n": "b"}
            c = {"t": "seq", "n": "q", "sub": [{**leaf("v", ds[2]), "n": "c"},
                                               {**leaf("s", 1.5), "n": "d"}]}
            for objs in (OBJ, one):
                yield {"objs": objs, "acts": [a, b, c]}
                yield {"objs": objs, "acts": [c, {"t": "rep", "k": 3, "n": "r", "sub": [b, a]}]}


def events(tier, times=True, zero=True):
    """Start events (ends of activities, levels, times) that make activities wait."""
    D = (0, 1, 2) if zero else (1, 2)
    ses = [{"act": "a"}, {"act": "q"}, {"lvl": ["V", "ge", 22, "default"]},
           {"and": [{"act": "a"}, {"lvl": ["V", "ge", 21, "default"]}]},
           {"or": [{"act": "a"}, {"lvl": ["V", "ge", 22, "default"]}]}]
    if times:
        ses += [{"time": 1}, {"time": 3.5}, {"and": [{"time": 2}, {"act": "a"}]},
                {"or": [{"time": 4}, {"act": "q"}]}]
    for se in ses:
        for ds in itertools.product(D, repeat=4):
            a = {**leaf("b", ds[0]), "n": "a"}
            q = {"t": "seq", "n": "q", "sub": [{**leaf("s", ds[1]), "n": "x"}, {**leaf("s", ds[2]), "n": "y"}]}
            for kind in "bu":
                e = {**leaf(kind, ds[3]), "n": "e", "se": se}
                yield {"objs": OBJ, "acts": [a, q, e]}
                yield {"objs": OBJ, "acts": [a, q, {"t": "seq", "n": "p", "sub": [
                    {**leaf("b", 1), "n": "z"}, e, {**leaf("b", 1), "n": "f"}]}]}
    # loops that wait in some rounds only
    for lv, dx, dy, de, k in itertools.product((19, 20, 21), (0.5, 1, 2), D, D, (2, 3)):
        for kind in "ub":
            e = {**leaf(kind, de), "n": "e", "se": {"lvl": ["V", "ge", lv, "default"]}}
            x = {"t": "rep", "k": 3, "n": "x", "sub": [{**leaf("s", dx), "n": "l"}, {**leaf("b", dy), "n": "y"}]}
            yield {"objs": OBJ, "acts": [{"t": "rep", "k": k, "n": "p", "sub": [
                e, *([{**leaf("u", 0), "n": "f"}] if kind == "b" else [])]}, x]}
    # conditions of loops
    conds = [{"act": "a"}, {"lvl": ["V", "ge", 23, "default"]}]
    if times:
        conds.append({"time": 4.5})
    for cond in conds:
        for ds in itertools.product(D, repeat=3):
            if ds[1] + ds[2] == 0:
                continue
            yield {"objs": OBJ, "acts": [
                {**leaf("b", 5.25), "n": "a"},
                {"t": "while", "n": "w", "cond": cond, "sub": [
                    {**leaf("s", ds[1]), "n": "x"}, {**leaf("b", ds[2]), "n": "y"}]}]}


def plugged(tier):
    """Delays and weather on elementary and composite activities."""
    pls = [{"delay": 50}, {"delay": 0}, {"weather": WEATHER},
           {"weather": dict(WEATHER, delay=1)}]
    for p in pls:
        for where in ("x", "y", "h", "xy"):
            for kinds in ("sb", "mu", "bb"):
                for host in ("seq", "par", "rep", "while"):
                    for ds in ((1, 2), (2, 1), (3, 3)):
                        x = {**leaf(kinds[0], ds[0]), "n": "x"}
                        y = {**leaf(kinds[1], ds[1]), "n": "y"}
                        h = {"t": host, "n": "h", "sub": [x, y]}
                        if host == "rep":
                            h["k"] = 2
                        if host == "while":
                            h["cond"] = {"act": "o"}
                        for a in (x, y, h):
                            if a["n"] in where:
                                a["pl"] = p
                        yield {"objs": OBJ, "acts": [h, {**leaf("b", 6.125), "n": "o"}]}


def fleets(tier, days=False):
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2), (3, 1, 2, 1)]
    for d in D:
        for total in (1, 4, 5):
            yield fleet([d], (1, 1), total, total, 2, "dres")
    for d in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2)):
            yield fleet(d, sl, 5, 5, 2, "dres")
            yield fleet(d, sl, 20, 20, 2, 2, crane=1)
            yield fleet(d, sl, 20, 20, (2, 3), 2, crane=2)
            yield fleet(d, sl, 5, 5, 2, "dres", product="sand")


def stretch(sc, f):
    """The same model with all times multiplied."""
    sc = copy.deepcopy(sc)

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("d", "time") and isinstance(v, (int, float)):
                    x[k] = v * f
                elif k == "weather":
                    x[k] = dict(v, ts=[t * f for t in v["ts"]], len=v["len"] * f,
                                delay=v.get("delay", 0) * f)
                else:
                    go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)

    go(sc["acts"])
    return sc


def charts(tier):
    """A thinner selection of all families (drawing is slow), and long loops."""
    step = 5 if tier == "quick" else 1
    fams = itertools.chain(trees(tier), events(tier), competing(tier, True), plugged(tier), fleets(tier))
    for i, sc in enumerate(fams):
        if i % step:
            continue
        f = (1, 0.37, 50000.25, 3600)[(i // step) % 4]
        if "weather" in str(sc):
            yield sc
        else:
            yield {**stretch(sc, f), "t0": (0, 1.6e9)[(i // step) % 2]}
    for k in (8, 30, 50):
        for ds in itertools.product((0, 1), repeat=2):
            for kinds in ("bv", "su", "sm", "vm"):
                yield {"objs": OBJ, "acts": [{"t": "rep", "k": k, "n": "r", "sub": [
                    {**leaf(kinds[0], ds[0]), "n": "x"}, {**leaf(kinds[1], ds[1]), "n": "y"}]}]}


def namesakes(scs):
    """The same models, in which the activities of each top-level activity have the same names."""
    for sc in scs:
        sc = copy.deepcopy(sc)

        def go(a, count):
            a["label"] = f"step {next(count)}"
            for x in a.get("sub", []):
                go(x, count)

        for a in sc["acts"]:
            go(a, itertools.count())
        yield {**sc, "apart": True}


def thin(it, k):
    """Every k-th, with the offset moving along so that no factor of the product is lost."""
    return (x for i, x in enumerate(it) if (i + i // k) % k == 0)
