"""C16: moves end at the destination after distance over speed."""

import itertools

import pyproj
import shapely.geometry as sg
import simpy

import openclsim.core as core

from ..world import SPEED_FUNCS, World, _mk

ID = "C16"
LEVEL = "model_checking"
RULE = (
    "every sequence of three (thorough: four) moves and changes of level over four positions, "
    "given or computed durations (including zero) and engine orders (none, half, double), for "
    "vessels with nominal speed and with every speed function over the whole grid of levels of "
    "one and two products, between all pairs of places very near and far, and with changes of level during the move; directly and as "
    "activities; after every move position and elapsed time are compared with the formula; a "
    "case is one vessel and first operation"
)
ASSUMPTIONS = ["positions are points", "speeds are positive",
               "distances by the geodesic routines of pyproj"]
CHUNK = 2
CASE_LIMIT = 120
GEOD = pyproj.Geod(ellps="WGS84")
PT = [(4.0, 52.0), (4.1, 52.0), (4.0, 51.5), (-179.9, -10.25)]
FAR = [(4.0, 52.0), (4.0005, 52.0003), (4.0, 52.00000002), (4.002, 52.0), (4.0, 52.0006),
       (-179.9999, 0.0), (179.9999, 0.0001), (0.0, 89.9), (180.0, 89.9), (-176.0, -51.9)]
FUN = {**SPEED_FUNCS, "steep": lambda x: 3.0 + 7.0 * x ** 3}


def vessels(tier):
    quick = tier == "quick"
    for v in (10, 3.5):
        for eo in (None, 0.5, 1.5):
            yield {"k": "plain", "v": v, "eo": eo}
    for eo in (None, 0.5):
        yield {"k": "plain", "v": 1, "eo": eo, "default": True}
    for f in FUN:
        for lvl in (0, 1, 3, 4):
            yield {"k": "cd", "f": f, "lvl": [lvl], "cap": [4]}
        for eo in (0.5, 1.5):
            yield {"k": "cd", "f": f, "lvl": [1], "cap": [4], "eo": eo}
    for f in ("lin", "steep") if quick else FUN:
        for a, b in itertools.product((0, 1, 4), (0, 2, 3, 6)):
            yield {"k": "mcd", "f": f, "lvl": [a, b], "cap": [4, 6]}
        yield {"k": "mcd", "f": f, "lvl": [1, 3], "cap": [4, 6], "eo": 0.5}


def ops(v, quick):
    moves = [["m", d, t, e] for d in range(4) for t in (None, 0, 7.5) for e in (None, 0.5, 2)]
    if quick:
        moves = [m for m in moves if m[3] is None or m[2] is None]
    lv = [] if v["k"] == "plain" else [["put", i] for i in range(len(v["lvl"]))] + [
        ["get", i] for i in range(len(v["lvl"]))]
    return moves, lv


def cases(tier):
    quick = tier == "quick"
    for v in vessels(tier):
        moves, lv = ops(v, quick)
        for o in moves + lv:
            yield {"v": v, "first": o, "quick": quick}
    # all pairs of places next to each other and all over the world, odd levels
    for v in vessels(tier):
        if v.get("eo") in (None, 0.5):
            yield {"pairs": v, "quick": quick}
    for v in vessels(tier):
        yield {"acts": v, "quick": quick}
    for v in vessels(tier):
        if v["k"] != "plain":
            yield {"during": v}


def make(v):
    env = simpy.Environment()
    kw = dict(env=env, name="V", id="V", geometry=sg.Point(*PT[0]))
    if v["k"] == "plain":
        base = core.Movable
        if not v.get("default"):
            kw["v"] = v["v"]
    else:
        kw["compute_v"] = FUN[v["f"]]
        if v["k"] == "cd":
            base = core.ContainerDependentMovable
            kw.update(capacity=v["cap"][0], level=v["lvl"][0])
        else:
            base = core.MultiContainerDependentMovable
            kw["initials"] = [{"id": f"p{i}", "capacity": c, "level": x}
                              for i, (c, x) in enumerate(zip(v["cap"], v["lvl"]))]
    if v.get("eo") is not None:
        kw["engine_order"] = v["eo"]
    return env, _mk("Mov", base, core.Identifiable, core.Log, core.HasResource)(**kw)


class Model:
    def __init__(self, v):
        self.v, self.pos = v, 0
        self.lv = list(v.get("lvl", []))
        self.eo = v["eo"] if v.get("eo") is not None else 1.0

    def speed(self):
        v = self.v
        if v["k"] == "plain":
            return v["v"] * self.eo
        return FUN[v["f"]](sum(self.lv) / sum(v["cap"])) * self.eo

    def move(self, d, t, e):
        if e is not None:
            self.eo = e
        dist = GEOD.inv(*PT[self.pos], *PT[d])[2]
        self.pos = d
        return t if t is not None else dist / self.speed()


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def site(d):
    return core.Locatable(geometry=sg.Point(*PT[d]))


def sequence(v, seq, res):
    env, o = make(v)
    m = Model(v)
    out = []

    def proc():
        for op in seq:
            t0 = env.now
            if op[0] == "m":
                if op[2] is None and close(m.speed(), 0):
                    return
                want = m.move(*op[1:])
                yield from o.move(site(op[1]), duration=op[2], engine_order=op[3])
                got = env.now - t0
                if not close(got, want):
                    out.append(("duration", f"{seq}: move {op} took {got}, expected {want}"))
                    return
                if (o.geometry.x, o.geometry.y) != PT[m.pos]:
                    out.append(("position", f"{seq}: at {o.geometry} instead of {PT[m.pos]}"))
                    return
            else:
                i = op[1]
                pid = "default" if v["k"] == "cd" else f"p{i}"
                cap = v["cap"][i]
                if op[0] == "put" and m.lv[i] < cap:
                    yield o.container.put(1, pid)
                    m.lv[i] += 1
                elif op[0] == "get" and m.lv[i] > 0:
                    yield o.container.get(1, pid)
                    m.lv[i] -= 1
        out.append(None)

    env.process(proc())
    env.run()
    res.execs += 1
    res.steps += len(seq)
    res.state(str(v), m.pos, str(m.lv), m.eo)
    res.outcome(str(v), round(env.now, 3))
    if not out:
        out = [("stuck", f"{seq}: never ends")]
    if out[0]:
        res.bad(*out[0])
        return False
    return True


def run_case(case, res):
    if "first" in case:
        v = case["v"]
        moves, lv = ops(v, case["quick"])
        short = [x for x in moves if x[3] != 2 and x[2] != 0][:: 2] if case["quick"] else moves[::2]
        for b in moves + lv:
            for c in short:
                if not sequence(v, [case["first"], b, c], res):
                    return
        if not case["quick"]:
            mid = [x for x in moves if x[1] in (1, 3)]
            for b in lv or [["m", 2, None, None]]:
                for c in lv or mid:
                    for d in mid:
                        if not sequence(v, [case["first"], b, c, d], res):
                            return
    elif "pairs" in case:
        pairs(case["pairs"], case["quick"], res)
    elif "acts" in case:
        activities(case["acts"], case["quick"], res)
    else:
        during(case["during"], res)


def pairs(v, quick, res):
    """Two moves between any places with any small part of the capacity filled."""
    lvs = [(0,)] if v["k"] == "plain" else [(1 / 3, 0), (1e-3, 0.5), (3.999, 5.001)]
    for lv in lvs:
        for a, b in itertools.permutations(range(len(FAR)), 2):
            x = {**v, "lvl": list(lv)[: len(v.get("lvl", []))]}
            env, o = make(x)
            m = Model(x)
            o.geometry = sg.Point(*FAR[a])
            want = GEOD.inv(*FAR[a], *FAR[b])[2] / m.speed()
            got = []

            def proc():
                for d in (b, a):
                    t0 = env.now
                    yield from o.move(core.Locatable(geometry=sg.Point(*FAR[d])))
                    got.append((env.now - t0, (o.geometry.x, o.geometry.y) == FAR[d]))

            env.process(proc())
            env.run()
            res.execs += 1
            res.steps += 2
            res.state("pairs", str(x), a, b)
            res.outcome("pairs", str(x), a, b)
            if len(got) != 2 or not all(
                    abs(t - want) <= 1e-8 * max(1, want) and there for t, there in got):
                res.bad("pairs", f"{FAR[a]} to {FAR[b]} and back with levels {x['lvl']}: "
                        f"(duration, arrived) {got}, expected {want}")
                return


def during(v, res):
    """The level changes while the vessel sails: speed is that at departure."""
    for i, d, at in itertools.product(range(len(v["lvl"])), (1, 2), (0.0, 1.0, 100.0)):
        env, o = make(v)
        m = Model(v)
        want = m.move(d, None, None)
        pid = "default" if v["k"] == "cd" else f"p{i}"
        done = []

        def change():
            yield env.timeout(at + 0.5)
            if m.lv[i] < v["cap"][i]:
                yield o.container.put(1, pid)
            else:
                yield o.container.get(1, pid)

        def sail():
            yield from o.move(site(d))
            done.append(env.now)

        env.process(sail())
        env.process(change())
        env.run()
        res.execs += 1
        res.steps += 2
        res.state("during", str(v), i, d, at)
        if not done or not close(done[0], want) or (o.geometry.x, o.geometry.y) != PT[d]:
            res.bad("during", f"level changed at {at}: ends at {done}, expected {want}")
            return


def activities(v, quick, res):
    """The same through move activities in a sequence, with transfers in between."""
    from ..world import POS

    if v["k"] in ("cd", "mcd") and v["f"] not in SPEED_FUNCS:
        return
    names = ["default"] if v["k"] != "mcd" else ["p0", "p1"]
    multi = v["k"] == "mcd"
    ob = {"n": "V", "k": "vessel", "at": 0}
    if v["k"] == "plain":
        ob.update(mov="plain", v=None if v.get("default") else v["v"], cap=4, lvl=1)
    elif multi:
        ob.update(speed=v["f"], multi=[[n, c, x] for n, c, x in zip(names, v["cap"], v["lvl"])])
    else:
        ob.update(speed=v["f"], cap=4, lvl=v["lvl"][0])
    if v.get("eo") is not None and v["k"] == "plain":
        ob["eo"] = v["eo"]
    elif v.get("eo") is not None:
        return
    sites = []
    for i in range(3):
        s = {"n": f"S{i}", "k": "site", "at": i}
        if multi:
            s["multi"] = [[n, 50, 20] for n in names]
        else:
            s.update(cap=50, lvl=20)
        sites.append(s)
    lv0 = {n: x for n, x in zip(names, v.get("lvl", [1]))}
    cap = {n: x for n, x in zip(names, v.get("cap", [4]))}
    for ds in itertools.product(range(3), repeat=3):
        for es in itertools.product((None, 0.5, 2), repeat=2):
            for shift in itertools.product([None] + names, ("l", "u")):
                sub = []
                for k, d in enumerate(ds):
                    mv = {"t": "move", "n": f"m{k}", "mover": "V", "dest": f"S{d}"}
                    if k < 2 and es[k] is not None:
                        mv["eo"] = es[k]
                    if k == 2 and ds[0] == 1:
                        mv["d"] = 7
                    sub.append(mv)
                    if k == 0 and shift[0]:
                        n = shift[0]
                        if shift[1] == "l" and lv0[n] >= cap[n] or shift[1] == "u" and lv0[n] < 1:
                            continue
                        a = {"t": "shift", "n": "x", "proc": "V", "d": 3, "amt": 1,
                             "org": f"S{d}" if shift[1] == "l" else "V",
                             "dst": "V" if shift[1] == "l" else f"S{d}"}
                        if multi:
                            a["id"] = n
                        sub.append(a)
                w = World({"objs": sites + [ob], "acts": [{"t": "seq", "n": "r", "sub": sub}]})
                w.register()
                w.run()
                res.execs += 1
                res.steps += w.steps
                # formula
                lv, eo, pos, t = dict(lv0), 1.0, 0, 0.0
                want = {}
                for a in sub:
                    t0 = t
                    if a["t"] == "move":
                        eo = a.get("eo", 1)
                        d = int(a["dest"][1])
                        dist = GEOD.inv(POS[pos].x, POS[pos].y, POS[d].x, POS[d].y)[2]
                        if v["k"] == "plain":
                            sp = v["v"] * eo
                        else:
                            sp = FUN[v["f"]](sum(lv.values()) / sum(cap.values())) * eo
                        t += a.get("d", dist / sp)
                        pos = d
                    else:
                        t += 3
                        lv[a.get("id", "default")] += 1 if a["dst"] == "V" else -1
                    want[a["n"]] = (t0, t)
                res.state(str(v), str(sub))
                res.outcome(str(sorted(want.items())))
                if w.error:
                    res.bad("error", f"{w.error} in {sub}")
                    return
                for n, (a, b) in want.items():
                    got = w.intervals(n)
                    if len(got) != 1 or got[0][1] is None or abs(got[0][0] - a) > 1e-3 or abs(
                            got[0][1] - b) > 1e-3:
                        res.bad("activity", f"{n} at {got}, expected {(a, b)} in {sub}")
                        return
                if w.objs["V"].geometry != POS[pos]:
                    res.bad("position", f"ends at {w.objs['V'].geometry} in {sub}")
                    return
