"""C07: objects serve no more users than they have slots."""

import itertools

from ..fleet import (Slots, buffer_fleets, crane_fleets, crane_transfers, plugin_fleets,
                     schedules, std_fleets, variant_fleets)
from ..world import MonitorViolation, World
from .c25 import objs as sites
from .c25 import transfer

ID = "C07"
LEVEL = "model_checking"
RULE = (
    "(1) the fleets and all triples of independent transfers over two sites and two vessels, "
    "under every registration order and tie order within the deviation bound: users per "
    "object, order of service after every step, everything free at the end; (2) every "
    "sequence of up to three activities of one holder with every set of kept resources, "
    "against a competitor arriving at every moment; a case is one scenario"
)
ASSUMPTIONS = ["up to three competing activities or vessels, slots 1 to 3, durations 1 and 2"]
CHUNK = 8

HOBJS = [
    {"n": "A", "k": "site", "cap": 50, "lvl": 25},
    {"n": "V", "k": "vessel", "cap": 20, "lvl": 10},
    {"n": "W", "k": "vessel", "cap": 20, "lvl": 10},
]
STEP = {
    "load": {"t": "shift", "proc": "V", "org": "A", "dst": "V", "amt": 1},
    "unload": {"t": "shift", "proc": "V", "org": "V", "dst": "A", "amt": 1},
    "move": {"t": "move", "mover": "V", "dest": "A"},
    "basic": {"t": "basic"},
}
USES = {"load": {"V", "A"}, "unload": {"V", "A"}, "move": {"V"}, "basic": set()}
COMP = {
    "loadW": ({"t": "shift", "proc": "W", "org": "A", "dst": "W", "amt": 1}, {"A", "W"}),
    "moveV": ({"t": "move", "mover": "V", "dest": "A"}, {"V"}),
}


def holder(steps, keeps, comp, t, rep, shared=True):
    sub = []
    for i, (s, k) in enumerate(zip(steps, keeps)):
        a = {**STEP[s], "n": f"H{i}", "d": 1}
        if s != "basic":
            a["keep"] = k if isinstance(k, str) else list(k)
        if shared:
            a["rr"] = "h"
        sub.append(a)
    spec, _ = COMP[comp]
    return {
        "objs": HOBJS,
        "acts": [
            {"t": "rep", "k": rep, "n": "H", "sub": sub},
            {**spec, "n": "C", "d": 2, "se": {"time": t}},
        ],
    }


def cases(tier):
    quick = tier == "quick"
    for sc, dev in itertools.chain(std_fleets(tier), variant_fleets(tier), buffer_fleets(tier),
                                   plugin_fleets(tier)):
        yield {"sc": sc, "dev": 1 if quick else dev}
    for sc, dev in crane_fleets(tier):
        yield {"sc": sc, "dev": 0 if quick else dev}
    for sc, lack in crane_transfers(tier):
        yield {"sc": sc, "dev": 0 if quick else 2}
    kinds = list(itertools.product(("load", "unload"), "VW", "ST"))
    for ks in itertools.product(kinds, repeat=3):
        if any(a[0] != b[0] and a[1:] == b[1:] for a, b in itertools.combinations(ks, 2)):
            continue
        for ts in [(0, 0, 0), (0, 0, 1), (0, 1, 1)]:
            for ns in (1, 2):
                yield {"sc": {"objs": sites(ns), "acts": [
                    transfer(i, *ks[i], (1, 2, 1)[i], ts[i]) for i in range(3)]}, "dev": 1}
    # uses that take no time
    for ds in itertools.product((0, 1, 2, 3), repeat=3):
        if 0 not in ds:
            continue
        for ks in itertools.product("lum", repeat=3):
            for ns, nv in ((1, 1), (2, 1), (2, 2)):
                if "l" in ks and "u" in ks or quick and nv == 2 and ks[0] == ks[1]:
                    continue  # loading and unloading may wait for each other in a circle
                acts = []
                for i, (k, d) in enumerate(zip(ks, ds)):
                    acts.append({"t": "move", "n": f"T{i}", "mover": "V", "dest": "S", "d": d}
                                if k == "m" else transfer(i, {"l": "load", "u": "unload"}[k], "V", "S", d, 0))
                    acts[-1]["se"] = {"time": i * 0.75}
                o = [{**x, "nr": nv} if x["n"] == "V" else x for x in sites(ns)]
                yield {"sc": {"objs": o, "acts": acts}, "dev": 1}
    keepsets = [(), ("V",), ("A",), ("V", "A")]
    for n in (1, 2, 3):
        for steps in itertools.product(("load", "unload", "move", "basic"), repeat=n):
            for keeps in itertools.product(keepsets, repeat=n):
                if any(s == "basic" and k for s, k in zip(steps, keeps)):
                    continue
                for comp in COMP:
                    for t in (0, 1, 2, 3)[: n + 1]:
                        if quick and n == 3 and t in (0, 3):
                            continue
                        for rep in (1, 2) if n < 3 else (1,):
                            yield {"hold": [steps, keeps, comp, t, rep, True]}
    # one object to keep, given as it is
    for n in (1, 2):
        for steps in itertools.product(("load", "unload", "move"), repeat=n):
            for keeps in itertools.product(((), ("V",), "V", "A"), repeat=n):
                if any(isinstance(k, str) for k in keeps):
                    for comp in COMP:
                        for t in (0, 1, 2)[: n + 1]:
                            yield {"hold": [steps, keeps, comp, t, 1, True]}
    for s in ("load", "unload", "move"):
        for k in keepsets:
            for comp in COMP:
                for t in (0, 1, 2):
                    yield {"hold": [[s], [k], comp, t, 3, False]}


def run_hold(steps, keeps, comp, t, rep, shared, res):
    sc = holder(steps, keeps, comp, t, rep, shared)
    for order in ([0, 1], [1, 0]):
        w = World(sc)
        mon = Slots(w, free_at_end=False)
        w.register(order)

        def m(w):
            mon.step()
            if w.env.peek() > w.env.now:
                mon.quiet()

        try:
            w.run(m)
            mon.end()
            judge_hold(w, steps, keeps, comp, rep)
        except MonitorViolation as e:
            res.bad(e.args[0], f"{e.args[1]} [order {order}]")
            return
        res.execs += 1
        res.steps += w.steps
        res.state(str(sc), str(order))
        res.outcome(tuple(w.intervals("C")), tuple(tuple(w.intervals(f"H{i}")) for i in range(len(steps))))


def judge_hold(w, steps, keeps, comp, rep):
    if w.error:
        raise MonitorViolation("error", w.error)
    iv = [w.intervals(f"H{i}") for i in range(len(steps))]
    comp_iv = w.intervals("C")
    uses = COMP[comp][1]
    inf = float("inf")
    holds = {"A": [], "V": [], "W": []}
    cur = {}
    # executions in order of time
    for r in range(rep):
        for i, s in enumerate(steps):
            if len(iv[i]) <= r:
                continue
            a, b = iv[i][r]
            for o in USES[s]:
                cur.setdefault(o, a)
                if o not in keeps[i]:
                    if b is not None:
                        holds[o].append((cur.pop(o), b))
    for o, a in cur.items():
        holds[o].append((a, inf))
    for o in uses:
        for a, b in holds[o]:
            for x, y in comp_iv:
                y = inf if y is None else y
                if max(a, x) < min(b, y):
                    raise MonitorViolation("kept", f"{o} is held from {a} to {b} and used by the "
                                           f"competitor from {x} to {y}")
    # a resource released for good must be obtainable
    blocked = [o for o in uses if holds[o] and holds[o][-1][1] == inf]
    alive = [n for n, a in w.acts.items() if a.main_process.is_alive]
    if not blocked:
        if "C" in alive:
            raise MonitorViolation("leak", f"the competitor never got {uses} although the holder "
                                   f"gave them back: {holds}")
        if alive and not any(b == inf for h in holds.values() for _, b in h):
            raise MonitorViolation("stuck", f"{alive} never end although nothing is held")
    # no slot stays occupied unless it was to be kept
    for o in w.objs:
        want = sum(1 for _, b in holds[o] if b == inf)
        got = w.objs[o].resource.count
        if not alive and got != want:
            raise MonitorViolation("leak", f"{o} has {got} users at the end, {want} are kept; "
                                   f"holds {holds}")


def run_case(case, res):
    if "hold" in case:
        return run_hold(*case["hold"], res)
    schedules(case, res, [Slots])
