"""C10: loops run exactly the required number of rounds."""

import itertools

from ..trees import build, judge, shapes, with_products
from .c08 import wide

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "(1) every tree of loops, sequences and parallel blocks up to the stated size with every "
    "assignment of repetition counts and durations; (2) while loops with every stop condition "
    "from the list (levels, times, other activities, and/or/list combinations) at top level "
    "and inside repeats, sequences, parallel blocks and other while loops; (3) loops that "
    "start later than they are released (start events, weather, plugins); complete logs are "
    "compared with the reference interpreter; coincidences on which the property is silent "
    "are recognised by varying the order of the reference and are skipped (counted)"
)
ASSUMPTIONS = [
    "the activities do not compete for resources",
    "loops of at most 40 rounds, single ones of up to 150 (thorough: 1000); durations from {0,1,2,3} plus fractions",
]
CHUNK = 40


def O(s=20, v=0):
    return [{"n": "S", "k": "site", "cap": 50, "lvl": s, "nr": 9},
            {"n": "V", "k": "vessel", "cap": 50, "lvl": v, "nr": 9},
            {"n": "P", "k": "vessel", "cap": 50, "lvl": 0, "nr": 9},
            {"n": "Q", "k": "vessel", "cap": 50, "lvl": 0, "nr": 9}]


def sh(n, d, amt=1, back=False, proc="P"):
    a, b = ("V", "S") if back else ("S", "V")
    return {"t": "shift", "n": n, "proc": proc, "org": a, "dst": b, "amt": amt, "d": d}


CONDS = [
    {"lvl": ["V", "ge", 3, "default"]}, {"lvl": ["V", "gt", 3, "default"]},
    {"lvl": ["S", "le", 17, "default"]}, {"lvl": ["S", "lt", 17, "default"]},
    {"lvl": ["V", "ge", 0, "default"]}, {"lvl": ["V", "le", 0, "default"]},
    [{"lvl": ["V", "ge", 2, "default"]}],
    {"time": 0}, {"time": 2.5}, {"time": 5.5}, {"time": 3},
    {"act": "x"}, [{"act": "x"}], {"act": "w0"},
    {"or": [{"time": 4.5}, {"lvl": ["V", "ge", 2, "default"]}]},
    {"and": [{"time": 4.5}, {"lvl": ["V", "ge", 2, "default"]}]},
    {"and": [{"lvl": ["V", "ge", 2, "default"]}, {"lvl": ["V", "le", 4, "default"]}]},
    [{"lvl": ["V", "ge", 1, "default"]}, {"time": 3.5}],
    [{"or": [{"act": "x"}, {"lvl": ["V", "ge", 4, "default"]}]}],
    {"and": [{"act": "x"}, {"or": [{"time": 1.5}, {"lvl": ["V", "ge", 9, "default"]}]}]},
]
MORE = [  # three and four demands, of which any may be decisive
    {"or": [{"lvl": ["V", "ge", 40, "default"]}, {"time": 50}, {"lvl": ["S", "le", 17, "default"]}]},
    {"or": [{"lvl": ["V", "ge", 40, "default"]}, {"act": "z"}, {"time": 50}, {"lvl": ["V", "gt", 2, "default"]}]},
    {"or": [{"lvl": ["V", "ge", 40, "default"]}, {"time": 50}, {"time": 4.5}]},
    {"and": [{"lvl": ["V", "ge", 1, "default"]}, {"time": 1.5}, {"lvl": ["S", "le", 17, "default"]}]},
    {"and": [{"lvl": ["V", "ge", 2, "default"]}, {"lvl": ["S", "le", 18, "default"]}]},
    {"and": [{"lvl": ["V", "ge", 1, "default"]}, {"lvl": ["S", "le", 18, "default"]}, {"time": 5.5}]},
    [{"time": 0.5}, {"lvl": ["V", "ge", 1, "default"]}, {"lvl": ["S", "le", 17, "default"]}],
    {"or": [{"and": [{"lvl": ["V", "ge", 2, "default"]}, {"lvl": ["S", "lt", 18, "default"]}]}, {"time": 50}]},
    {"or": [[{"lvl": ["V", "ge", 2, "default"]}, {"lvl": ["S", "lt", 19, "default"]}], {"time": 50}]},
    {"and": [{"or": [{"time": 50}, {"lvl": ["V", "ge", 3, "default"]}]}, {"lvl": ["S", "le", 18, "default"]}]},
    [{"and": [{"lvl": ["V", "ge", 3, "default"]}, {"or": [{"time": 50}, {"lvl": ["S", "le", 18, "default"]}]}]}],
]


def bodies(quick):
    for d0, d1 in itertools.product((0, 1, 2), repeat=2):
        if d0 + d1 == 0:
            continue
        yield [sh("w0", d0), {"t": "basic", "n": "w1", "d": d1}]
        yield [{"t": "basic", "n": "w1", "d": d1}, sh("w0", d0)]
        # the level goes up and down within a round
        yield [sh("w0", d0, 3), sh("w1", d1, 2, True)]
        yield [sh("w0", d0, 4), sh("w1", d1, 4, True), {"t": "basic", "n": "w2", "d": 1}]
    for d0 in (1, 2):
        yield [sh("w0", d0)]
        yield [{"t": "par", "n": "w1", "sub": [sh("w0", d0), {"t": "basic", "n": "w2", "d": 1}]}]
        yield [{"t": "seq", "n": "w1", "sub": [sh("w0", d0), {"t": "basic", "n": "w2", "d": 1}]}]
        yield [{"t": "rep", "k": 2, "n": "w1", "sub": [sh("w0", d0)]}]


def all_cases(tier):
    quick = tier == "quick"
    # (1) counts
    kinds = ("seq", "par", "rep1", "rep2", "rep3")
    plan = [(1, 3, (0, 1, 2)), (2, 2, (0, 1, 2))]
    if not quick:
        plan += [(2, 3, (0, 1, 2)), (3, 2, (0, 1, 2))]
    for leaves, depth, durs in plan:
        for s in shapes(leaves, depth, kinds, ("rep1", "rep2", "rep3")):
            if "rep" not in str(s):
                continue
            for ds in itertools.product(durs, repeat=leaves):
                yield {"sc": {"acts": [build(s, lambda i: {"t": "basic", "d": ds[i]})]}, "dev": 1}
    if quick:
        for s in shapes(3, 2, ("seq", "par", "rep2"), ("rep2",)):
            if "rep" in str(s):
                for ds in itertools.product((0, 1, 2), repeat=3):
                    yield {"sc": {"acts": [build(s, lambda i: {"t": "basic", "d": ds[i]})]}, "dev": 0}
    for k in range(1, 9):
        for d in (0, 1):
            yield {"sc": {"acts": [{"t": "rep", "k": k, "n": "r", "sub": [{"t": "basic", "n": "a", "d": d}]}]}}
    yield from wide(tier, "rep")
    # many rounds
    for k in (12, 25, 60, 150) if quick else (12, 25, 60, 150, 400, 1000):
        for d in (1, 0.25):
            yield {"sc": {"acts": [{"t": "rep", "k": k, "n": "r", "sub": [{"t": "basic", "n": "a", "d": d}]}]},
                   "dev": 0}
            for c in ({"time": k * d - 0.125}, {"lvl": ["V", "ge", k, "default"]}):
                objs = [{**o, "cap": 5000, "lvl": 5000 if o["n"] == "S" else 0} for o in O()]
                yield {"sc": {"objs": objs, "acts": [{"t": "while", "cond": c, "n": "r", "sub": [sh("a", d)]}]},
                       "dev": 0}
    # (2) conditions
    for body in bodies(quick):
        for cond in CONDS:
            w = {"t": "while", "n": "w", "cond": cond, "sub": body}
            e = {"t": "basic", "n": "e", "d": 1}
            hosts = [[w], [{"t": "seq", "n": "h", "sub": [e, w]}],
                     [{"t": "rep", "k": 2, "n": "h", "sub": [w]}],
                     [{"t": "rep", "k": 2, "n": "h", "sub": [w, e]}],
                     [{"t": "rep", "k": 2, "n": "h", "sub": [w, sh("e", 1, 3, True, "Q")]}],
                     [{"t": "par", "n": "h", "sub": [w, e]}],
                     [{"t": "while", "n": "h", "cond": {"time": 9.25}, "sub": [w, e]}],
                     [{"t": "while", "n": "h", "cond": {"lvl": ["V", "ge", 7, "default"]}, "sub": [w]}]]
            for h in hosts:
                for dx in (1.25, 3.25, 4) if "x" in str(cond) else (None,):
                    acts = h + ([] if dx is None else [{"t": "basic", "n": "x", "d": dx}])
                    for v in (0, 5) if h[0] is w else (2,):
                        yield {"sc": {"objs": O(20, v), "acts": acts}, "dev": 1}
    for body in bodies(quick):
        for cond in MORE:
            w = {"t": "while", "n": "w", "cond": cond, "sub": body}
            acts = [w] + ([{"t": "basic", "n": "z", "d": 60}] if "z" in str(cond) else [])
            yield {"sc": {"objs": O(20, 0), "acts": acts}, "dev": 1}
            acts = [{"t": "rep", "k": 2, "n": "h", "sub": [w, {"t": "basic", "n": "e", "d": 1}]}] + acts[1:]
            yield {"sc": {"objs": O(20, 0), "acts": acts}, "dev": 0}
    # another activity changes the level
    for cond in CONDS[:6] + CONDS[14:17]:
        for db, dw, amt, back in itertools.product((1, 1.5, 2.25), (1, 2), (1, 3), (False, True)):
            w = {"t": "while", "n": "w", "cond": cond, "sub": [{"t": "basic", "n": "w0", "d": dw}]}
            y = {"t": "rep", "k": 4, "n": "y", "sub": [sh("y0", db, amt, back)]}
            for acts in ([w, y], [y, w], [{"t": "par", "n": "p", "sub": [y, w]}],
                         [{"t": "rep", "k": 2, "n": "p", "sub": [w]}, y]):
                yield {"sc": {"objs": O(20, 12), "acts": acts}, "dev": 1}
    # loops that start later than they are released: start events, weather, plugins
    hold = lambda t: {"weather": {"ts": [0, t, 500], "x": [2, 0, 0], "max": 1, "len": 0.5}}  # noqa: E731
    later = [{"se": {"time": 2.625}}, {"se": {"act": "x"}}, {"se": {"lvl": ["V", "ge", 14, "default"]}},
             {"pl": hold(2.625)}, {"pl": hold(5.125)}, {"pl": {"rec": [{"pre": 1.625}]}},
             {"pl": {"rec": [{"post": 1.625}]}}, {"pl": {"rec": [{"pre": 0.5, "post": 0.125}]}},
             {"se": {"time": 1.625}, "pl": hold(3.125)}]
    conds = CONDS[:6] + CONDS[8:10] + CONDS[11:12] + CONDS[14:17] + [
        {"lvl": ["V", "ge", 14, "default"]}, {"lvl": ["V", "le", 12, "default"]},
        {"lvl": ["S", "lt", 19, "default"]}]
    for more in later:
        for cond in conds:
            for db, dw, amt in itertools.product((1, 1.5), (1, 2.25), (2, 3)):
                w = {"t": "while", "n": "w", "cond": cond,
                     "sub": [{"t": "basic", "n": "w0", "d": dw}], **more}
                # up, and down again half a second later; then nothing for a while
                y = {"t": "rep", "k": 2, "n": "y", "sub": [
                    sh("y0", db, amt), {"t": "basic", "n": "y1", "d": 0.5},
                    sh("y2", 0.125, amt, True), {"t": "basic", "n": "y3", "d": 6.5}]}
                x = {"t": "basic", "n": "x", "d": 3.375}
                e = {"t": "basic", "n": "e", "d": 1.75}
                for acts in ([w, y, x], [{"t": "rep", "k": 2, "n": "p", "sub": [w, e]}, y, x],
                             [{"t": "seq", "n": "p", "sub": [e, w]}, y, x]):
                    yield {"sc": {"objs": O(20, 12), "acts": acts}, "dev": 0}
        for k, d in itertools.product((1, 2, 3), (0, 1, 2.25)):
            w = {"t": "rep", "k": k, "n": "w", "sub": [{"t": "basic", "n": "w0", "d": d}], **more}
            y = {"t": "rep", "k": 4, "n": "y", "sub": [sh("y0", 1, 2), sh("y1", 1.5, 2, True)]}
            x = {"t": "basic", "n": "x", "d": 3.375}
            e = {"t": "basic", "n": "e", "d": 1.75}
            for acts in ([w, y, x], [{"t": "rep", "k": 2, "n": "p", "sub": [w, e]}, y, x],
                         [{"t": "while", "n": "p", "cond": {"time": 9.0625}, "sub": [w, e]}, y, x]):
                yield {"sc": {"objs": O(20, 12), "acts": acts}, "dev": 0}


def cases(tier):
    yield from with_products(all_cases(tier), 4 if tier == "quick" else 1)


def run_case(case, res):
    judge(case, res)
