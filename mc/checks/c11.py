"""C11: activities start as soon as, and not before, their start event."""

import itertools

import simpy

import openclsim.model as model

from ..trees import judge, with_products
from ..world import secs

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "every start-event expression up to nesting depth two over times, levels and ends of "
    "activities, attached to every node of small activity trees (sequences, parallel blocks, "
    "loops) and to pairs of nodes, with every assignment of durations; complete logs incl. "
    "waits are compared with the reference interpreter, in the native order and with single "
    "deviations in the order of simultaneous timeouts; a case is one program"
)
ASSUMPTIONS = [
    "the activities do not compete for resources",
    "an 'activity done' event refers to the execution current when the waiting activity is "
    "(re-)registered; a level event counts from that moment on",
]
CHUNK = 60

OBJ = [{"n": "S", "k": "site", "cap": 50, "lvl": 20, "nr": 9},
       {"n": "V", "k": "vessel", "cap": 50, "lvl": 10, "nr": 9},
       {"n": "P", "k": "vessel", "cap": 50, "lvl": 0, "nr": 9}]

ATOMS = [
    {"time": 0}, {"time": 1}, {"time": 2.5}, {"time": 6},
    {"act": "A"}, {"actid": "A"}, {"act": "M"},
    {"lvl": ["V", "ge", 12, "default"]}, {"lvl": ["S", "lt", 19, "default"]},
    {"lvl": ["V", "le", 10, "default"]}, {"lvl": ["V", "gt", 30, "default"]},
    {"empty": ["S", "default"]}, {"full": ["P", "default"]},
]


def background(da, dm, dl, kind):
    """A: basic; M: a loop of transfers that raises V and lowers S."""
    return [
        {"t": "basic", "n": "A", "d": da},
        {"t": "rep", "k": 3, "n": "M", "sub": [
            {"t": "shift", "n": "m", "proc": "P", "org": "S", "dst": "V", "amt": 1, "d": dm},
            {"t": "basic", "n": "mb", "d": dl}]},
    ]


def tree(kind, dx, dy):
    x = {"t": "basic", "n": "x", "d": dx, "logs": ["S", "A", "V", "P"]}
    y = {"t": "basic", "n": "y", "d": dy, "logs": ["V", "A"]}
    if kind == "leaf":
        return x, {"r": x}
    if kind == "nest":
        p = {"t": "par", "n": "p", "sub": [x, y]}
        r = {"t": "seq", "n": "r", "sub": [p, {"t": "basic", "n": "z", "d": 1}]}
        return r, {"r": r, "p": p, "x": x, "z": r["sub"][1]}
    t, k = {"seq": ("seq", None), "par": ("par", None), "rep": ("rep", 2)}[kind]
    r = {"t": t, "n": "r", "sub": [x, y]}
    if k:
        r["k"] = k
    return r, {"r": r, "x": x, "y": y}


def exprs(quick):
    yield from ATOMS
    for a in ATOMS:
        yield [a]
    for a, b in itertools.combinations(ATOMS, 2):
        yield {"and": [a, b]}
        yield {"or": [a, b]}
        if not quick:
            yield [a, b]
    few = [ATOMS[i] for i in (1, 2, 4, 7, 8)]
    for a, b, c in itertools.permutations(few, 3):
        if quick and few.index(a) > few.index(b):
            continue
        yield {"and": [{"or": [a, b]}, c]}
        yield {"or": [{"and": [a, b]}, c]}
        if not quick:
            yield [{"or": [a, {"and": [b, c]}]}]
            yield {"or": [[a, b], [c]]}


def all_cases(tier):
    quick = tier == "quick"
    kinds = ("leaf", "seq", "par", "rep", "nest")
    bgs = [(1.5, 1, 0.75), (4, 1, 1)] if quick else [
        (a, m, l) for a in (0, 1.5, 4) for m in (1, 2) for l in (0.75, 1)]
    durs = [(1, 2), (0, 1), (2, 0)] if quick else list(itertools.product((0, 1, 2), repeat=2))
    for kind in kinds:
        for e in exprs(quick):
            simple = e in ATOMS
            for node in tree(kind, 0, 0)[1]:
                for bg in bgs:
                    for dx, dy in durs if simple else durs[:1] if quick else durs[:3]:
                        r, nodes = tree(kind, dx, dy)
                        nodes[node]["se"] = e
                        yield {"sc": {"objs": OBJ, "acts": background(*bg, None) + [r]},
                               "dev": 1 if simple else 0}
    # three and four alternatives and demands
    for k in (3, 4):
        for es in itertools.combinations(ATOMS, k):
            if k == 4 and quick and ATOMS.index(es[0]) + ATOMS.index(es[1]) > 3:
                continue
            for e in ({"and": list(es)}, {"or": list(es)}, {"or": list(es[::-1])}, list(es)):
                for kind, node in (("leaf", "r"), ("rep", "y")):
                    if kind == "rep" and quick and k == 4:
                        continue
                    r, nodes = tree(kind, 1, 2)
                    nodes[node]["se"] = e
                    yield {"sc": {"objs": OBJ, "acts": background(*bgs[k % 2], None) + [r]}, "dev": 0}
    # two nodes wait, also for each other
    pairs = ATOMS[:5] + ATOMS[7:10]
    for kind in ("seq", "par", "rep", "nest"):
        names = list(tree(kind, 0, 0)[1])
        for n1, n2 in itertools.combinations(names, 2):
            for e1, e2 in itertools.product(pairs + [{"act": n2}], pairs + [{"act": n1}]):
                for dx, dy in durs[:1] if quick else durs:
                    r, nodes = tree(kind, dx, dy)
                    nodes[n1]["se"], nodes[n2]["se"] = e1, e2
                    yield {"sc": {"objs": OBJ, "acts": background(1.5, 1, 0.75, None) + [r]}, "dev": 0}
    # branches and steps of loops that wait for one another, in all orders
    for k, ds in itertools.product((2, 3), itertools.product((0, 1, 2.25), repeat=3)):
        for e1, e2 in itertools.product(({"act": "y"}, {"act": "z"}, {"act": "q"}, {"actid": "z"},
                                         {"and": [{"act": "y"}, {"act": "z"}]},
                                         {"or": [{"act": "z"}, {"act": "y"}]}),
                                        (None, {"act": "z"}, {"lvl": ["V", "ge", 11, "default"]})):
            x = {"t": "basic", "n": "x", "d": ds[0], "se": e1, "logs": ["S", "V"]}
            y = {"t": "basic", "n": "y", "d": ds[1], **({"se": e2} if e2 else {})}
            q = {"t": "seq", "n": "q", "sub": [{"t": "basic", "n": "u", "d": 0.5},
                                               {"t": "basic", "n": "z", "d": ds[2]}]}
            for subs in itertools.permutations((x, y, q)):
                r = {"t": "rep", "k": k, "n": "r", "sub": [{"t": "par", "n": "p", "sub": list(subs)}]}
                yield {"sc": {"objs": OBJ, "acts": background(1.5, 1, 0.75, None) + [r]}, "dev": 0}
    # activities of the same name, registered one by one
    for ds in itertools.product((0.5, 1, 2, 3.25), repeat=3):
        for e in ("name", "id", "or", "time"):
            for place in ("top", "seq", "rep"):
                yield {"batch": [list(ds), e, place]}
    # what is waited for lies inside a loop
    for dm, dx, k in itertools.product((1, 1.5, 2), (0, 1, 2), (1, 2, 3)):
        for ref in ("m", "mb", "M"):
            for host in ("flat", "rep", "par"):
                x = {"t": "basic", "n": "x", "d": dx, "se": {"act": ref}}
                M = {"t": "rep", "k": k, "n": "M", "sub": [
                    {"t": "basic", "n": "m", "d": dm}, {"t": "basic", "n": "mb", "d": 1.25}]}
                if host == "flat":
                    acts = [M, x]
                elif host == "rep":
                    acts = [M, {"t": "rep", "k": 2, "n": "r", "sub": [{"t": "basic", "n": "z", "d": 1}, x]}]
                else:
                    acts = [{"t": "par", "n": "p", "sub": [M, x]}]
                yield {"sc": {"acts": acts}, "dev": 1}
                yield {"sc": {"acts": acts[::-1]}, "dev": 1}


def cases(tier):
    both = list(all_cases(tier))
    yield from (c for c in both if "batch" in c)
    yield from with_products((c for c in both if "sc" in c), 2 if tier == "quick" else 1)


def batch(ds, e, place, res):
    """The end of activities of one name that were registered separately."""
    env, reg = simpy.Environment(), {}

    def basic(n, d, **kw):
        return model.BasicActivity(env=env, registry=reg, name=n, duration=d, **kw)

    same = [basic("a", d, id=f"a{i}") for i, d in enumerate(ds)]
    done = {"type": "activity", "state": "done"}
    expr, at = {
        "name": ({**done, "name": "a"}, max(ds)), "id": ({**done, "ID": "a1"}, ds[1]),
        "or": ({"or": [{**done, "name": "a"}, {"type": "time", "start_time": 1.5}]}, min(1.5, max(ds))),
        "time": ([{**done, "name": "a"}, {"type": "time", "start_time": 1.5}], max(1.5, *ds)),
    }[e]
    x = basic("x", 1, start_event=expr)
    kw = dict(env=env, registry=reg, name="h", sub_processes=[basic("b", 0.25), x])
    if place == "top":
        top = x
    else:
        top = (model.SequentialActivity(**kw) if place == "seq"
               else model.RepeatActivity(**kw, repetitions=2))
    for act in (*same, top):
        model.register_processes([act])
    env.run()
    res.execs += 1
    res.state(str(ds), e, place)
    rel = 0 if place == "top" else 0.25
    want = [max(at, rel)]
    if place == "rep":
        want.append(want[0] + 1.25)
    got = [secs(r["Timestamp"]) for r in x.logbook if r["ActivityState"] == "START"]
    res.outcome(str(got))
    if got != want:
        res.bad("batch", f"activities named a of {ds}: x in {place} ({e}) starts at {got}, expected {want}")


def run_case(case, res):
    if "batch" in case:
        return batch(*case["batch"], res)
    judge(case, res)
