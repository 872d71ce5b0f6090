"""C25: feasible transfers never get stuck."""

import itertools

from ..fleet import (Prompt, buffer_fleets, crane_fleets, crane_transfers, schedules, std_fleets,
                     variant_fleets)
from ..world import World

ID = "C25"
LEVEL = "model_checking"
RULE = (
    "single transfers: the whole grid of origin level, destination capacity and level and "
    "requested amount in tenths, sevenths and thirds; contention: all triples of transfers "
    "between two sites and two vessels that cannot wait for each other in a circle, and the "
    "fleets, under every registration order and every order of simultaneous timeouts within "
    "the deviation bound; every transfer must end, and none may wait for objects that nobody "
    "uses or wants; a case is one grid line or one set of transfers"
)
ASSUMPTIONS = [
    "contention patterns in which transfers acquire shared objects in opposite order "
    "(circular wait) are covered by a known finding, not by the main enumeration",
    "up to three vessels, durations 1 and 2",
]
CHUNK = 4


def transfer(i, kind, v, s, d, t, amt=1):
    org, dst = (s, v) if kind == "load" else (v, s)
    return {"t": "shift", "n": f"T{i}", "proc": v, "org": org, "dst": dst, "d": d,
            "amt": amt, "se": {"time": t}}


def objs(ns=1, lvl=10, vl=4):
    return [
        {"n": "S", "k": "site", "cap": 20, "lvl": lvl, "nr": ns},
        {"n": "T", "k": "site", "cap": 20, "lvl": 10, "nr": 1},
        {"n": "V", "k": "vessel", "cap": 8, "lvl": vl},
        {"n": "W", "k": "vessel", "cap": 8, "lvl": vl},
    ]


def crane_deadlock(d0, d1, t1):
    """A vessel is loaded and another unloaded by the same crane at the same quay."""
    return {
        "objs": [
            {"n": "S", "k": "site", "cap": 20, "lvl": 10},
            {"n": "X", "k": "site", "cap": 1, "lvl": 0, "processor": True},
            {"n": "V", "k": "vessel", "cap": 8, "lvl": 4},
            {"n": "W", "k": "vessel", "cap": 8, "lvl": 4},
        ],
        "acts": [
            {"t": "shift", "n": "L", "proc": "X", "org": "S", "dst": "V", "d": d0, "amt": 1},
            {"t": "shift", "n": "U", "proc": "X", "org": "W", "dst": "S", "d": d1, "amt": 1,
             "se": {"time": t1}},
        ],
    }


def cases(tier):
    quick = tier == "quick"
    # --- rounding grid
    for den in (10, 7, 3):
        top = 12 if quick else 20
        for cap in range(1, top + 1):
            for lvl in range(0, cap):
                yield {"grid": [den, cap, lvl, top]}
    # --- contention on the same content: the second gets what is left
    for ns in (1, 2):
        for d in itertools.product((1, 2), repeat=2):
            for t in itertools.product((0, 1, 2), repeat=2):
                for lvl in (2, 3, 4, 5):
                    for amts in itertools.product((1, 2), repeat=2):
                        if lvl <= max(amts):
                            continue
                        yield {"sc": {"objs": objs(ns, lvl, 0), "acts": [
                            transfer(0, "load", "V", "S", d[0], t[0], amts[0]),
                            transfer(1, "load", "W", "S", d[1], t[1], amts[1])]}, "dev": 3}
    # --- triples of transfers
    kinds = list(itertools.product(("load", "unload"), "VW", "ST"))
    times = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 2)]
    for ks in itertools.product(kinds, repeat=3):
        if any(a[0] != b[0] and a[1:] == b[1:] for a, b in itertools.combinations(ks, 2)):
            continue
        for ts in times:
            for ds in ((1, 1, 1), (2, 1, 1), (1, 2, 1)) if quick else itertools.product(
                    (1, 2, 3), repeat=3):
                yield {"sc": {"objs": objs(), "acts": [
                    transfer(i, *ks[i], ds[i], ts[i]) for i in range(3)]},
                    "dev": 1 if quick else 3,
                    "orders": [[0, 1, 2]] if quick and ts[2] else None}
    for sc, dev in itertools.chain(std_fleets(tier), variant_fleets(tier), buffer_fleets(tier)):
        yield {"sc": sc, "dev": 1 if quick else dev}
    for sc, dev in crane_fleets(tier):
        if all(a["sub"][1]["proc"] == "X" for a in sc["acts"]) and min(o["cap"] for o in sc["objs"][:2]) > 9:
            yield {"sc": sc, "dev": 0 if quick else dev}
    for sc, lack in crane_transfers(tier):
        # each finds something, whatever the order
        if lack < min(a["amt"] for a in sc["acts"]):
            yield {"sc": sc, "dev": 0 if quick else 2}
    # --- known circular waits
    for d0, d1, t1 in itertools.product((1, 2), (1, 2), (0, 1)):
        yield {"sc": crane_deadlock(d0, d1, t1), "dev": 1}


def run_grid(den, cap, lvl, top, res):
    for org in range(1, top + 1):
        for amt in [None] + list(range(1, top + 1)):
            sc = {
                "objs": [{"n": "S", "k": "site", "cap": 100, "lvl": org / den},
                         {"n": "V", "k": "vessel", "cap": cap / den, "lvl": lvl / den}],
                "acts": [{"t": "shift", "n": "T", "proc": "V", "org": "S", "dst": "V", "d": 1,
                          **({} if amt is None else {"amt": amt / den})}],
            }
            w = World(sc)
            w.register()
            w.run()
            res.execs += 1
            res.steps += w.steps
            res.state(den, cap, lvl, org, amt)
            lv = w.levels()
            moved = min(x for x in (amt, org, cap - lvl) if x is not None) / den
            if w.error or w.own("T", ("START", "STOP"))[-1:] != [(1.0, "STOP")]:
                res.bad("stuck", f"content {org}/{den}, level {lvl}/{den} of {cap}/{den}, amount "
                        f"{amt}/{den}: {w.error or 'the transfer never takes place'}")
                return
            if abs(lv[("V", "default")] - lvl / den - moved) > 1e-9:
                res.bad("amount", f"{sc}: vessel ends at {lv}")
                return
    res.outcome(den, cap, lvl)


def circular(w):
    """Do the stuck activities wait for each other in a circle?"""
    held, wants = {}, {}
    for n, a in w.acts.items():
        for r, q in getattr(a, "requested_resources", {}).items():
            (held if q.triggered else wants).setdefault(n, set()).add(id(r))
    for n in wants:
        cur, seen = n, []
        while cur is not None and cur not in seen:
            seen.append(cur)
            cur = next((m for m in held if m != cur and held[m] & wants.get(cur, set())), None)
        if cur is not None:
            return True
    return False


class Judge(Prompt):
    def end(self):
        try:
            super().end()
        except Exception as e:
            if e.args[0] == "stuck" and circular(self.w):
                self.fail("circular-wait", e.args[1])
            raise

    def quiet(self):
        try:
            super().quiet()
        except Exception as e:
            if circular(self.w):
                self.fail("circular-wait", e.args[1])
            raise


def run_case(case, res):
    if "grid" in case:
        return run_grid(*case["grid"], res)
    schedules(case, res, [Judge])
