"""C17: sailing a route takes the length of the route over the speed."""

import itertools

import networkx as nx
import pyproj
import shapely.geometry as sg
import simpy

import openclsim.core as core
import openclsim.model as model
from openclsim.core.movable import Routable

from ..world import _mk

ID = "C17"
LEVEL = "model_checking"
RULE = (
    "all simple routes over the complete graph of four (thorough: five) nodes with bent and "
    "straight edges whose geometries are stored in either direction, for nominal and level "
    "dependent speeds and engine orders, between every pair of nodes there and back (directly "
    "and as activities), edge by edge from every starting node, and the parts by themselves; routes that visit "
    "nodes again and edges that nearly end at their nodes; ends that are nearly "
    "or not at all met; all paths of up to three legs "
    "between every pair of points of a grid on them; elapsed times, positions, visited nodes "
    "and refusals are compared with the formula; a case is one route or path"
)
ASSUMPTIONS = [
    "distances by the geodesic routines of pyproj; nodes are far apart compared with the "
    "tolerance of 0.01 degrees within which a position counts as an end of the route",
    "the part of a path between two points is measured along the path in its own coordinates",
]
CHUNK = 2
CASE_LIMIT = 120
GEOD = pyproj.Geod(ellps="WGS84")
NODE = {"a": (4.0, 52.0), "b": (4.5, 52.25), "c": (4.0, 52.5), "d": (3.0, 51.0), "e": (5.0, 51.5)}
BEND = {"ab": [(4.25, 52.0)], "ac": [], "ad": [(3.5, 52.0), (3.0, 51.5)], "bc": [],
        "bd": [(4.0, 51.0)], "cd": [(3.0, 52.5)], "ae": [], "be": [(5.0, 52.0)], "ce": [],
        "de": [(4.0, 50.75)]}


def coords(e, nodes="abcde"):
    x, y = sorted(e)
    return [NODE[x], *BEND[x + y], NODE[y]]


def length(pts):
    return sum(GEOD.inv(*p, *q)[2] for p, q in zip(pts[:-1], pts[1:]))


def graph(n, flip, directed=False):
    g = nx.DiGraph() if directed else nx.Graph()
    names = "abcde"[:n]
    for x in names:
        g.add_node(x, geometry=sg.Point(*NODE[x]))
    for i, e in enumerate(itertools.combinations(names, 2)):
        pts = coords("".join(e))
        if flip == 1 or (flip == 2 and i % 2):
            pts = pts[::-1]
        g.add_edge(*e, geometry=sg.LineString(pts))
        if directed:
            g.add_edge(*e[::-1], geometry=sg.LineString(pts))
    return g


VESSELS = [
    {"v": 5.0}, {"v": 5.0, "eo": 0.5}, {"v": 2.5, "mv": 2.0}, {"lvl": 3}, {"lvl": 3, "mv": 0.5},
]


def make(env, ves, at, **kw):
    kw.update(env=env, name="V", id="V", geometry=sg.Point(*NODE[at]) if isinstance(at, str)
              else sg.Point(*at))
    if "eo" in ves:
        kw["engine_order"] = ves["eo"]
    if "lvl" in ves:
        kw.update(compute_v=lambda x: 8.0 - 4.0 * x, capacity=4, level=ves["lvl"])
        base = [Routable, core.ContainerDependentMovable]
    else:
        kw["v"] = ves["v"]
        base = [Routable]
    return _mk("Rou", *base, core.Identifiable, core.Log, core.HasResource)(**kw)


def speed(ves, eo):
    return (8.0 - 4.0 * ves["lvl"] / 4 if "lvl" in ves else ves["v"]) * eo


def cases(tier):
    quick = tier == "quick"
    n = 4 if quick else 5
    names = "abcde"[:n]
    for k in range(2, n + 1):
        for r in itertools.permutations(names, k):
            for flip in (0, 1, 2):
                yield {"n": n, "route": "".join(r), "flip": flip, "dir": False}
            yield {"n": n, "route": "".join(r), "flip": 0, "dir": True}
    for k in (2, 3, 4) if quick else (2, 3, 4, 5):
        for r in itertools.permutations("abcde"[:n], k):
            yield {"parts": "".join(r)}
    for k in (2, 3, 4) if quick else (2, 3, 4, 5, 6):
        for r in itertools.product(range(3), repeat=k):
            if all(x != y for x, y in zip(r, r[1:])):
                yield {"walk": list(r)}
    for k in (2, 3) if quick else (2, 3, 4):
        for r in itertools.permutations(names[:4], k):
            yield {"path": "".join(r)}


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def run_case(case, res):
    if "parts" in case:
        return run_parts(case["parts"], res)
    if "walk" in case:
        return run_walk(case["walk"], res)
    if "path" in case:
        return run_path(case["path"], res)
    r, n = case["route"], case["n"]
    g = graph(n, case["flip"], case["dir"])
    total = sum(length(coords(x + y)) for x, y in zip(r, r[1:]))
    ends = {(r[0], r[-1]), (r[-1], r[0])}
    for ves in VESSELS:
        eo = ves.get("eo", 1.0)
        mv = ves.get("mv")
        sp = speed(ves, mv if mv is not None else eo)
        for x, y in itertools.product("abcde"[:n], repeat=2):
            # there and back, directly
            env = simpy.Environment()
            env.graph = g
            o = make(env, ves, x, route=list(r))
            log = []

            def sail():
                for d in (y, x):
                    t0 = env.now
                    yield from o.move(core.Locatable(geometry=sg.Point(*NODE[d])),
                                      engine_order=mv)
                    log.append((env.now - t0, o.geometry.x, o.geometry.y))

            p = env.process(sail())
            err = None
            try:
                env.run()
            except Exception as e:
                err = e
            res.execs += 1
            res.steps += len(log) + 1
            res.state(r, case["flip"], x, y, str(ves))
            if (x, y) in ends:
                want = [(total / sp, *NODE[y]), (total / sp, *NODE[x])]
                if err or len(log) != 2 or any(
                        not all(map(close, a, b)) for a, b in zip(log, want)):
                    res.bad("route", f"route {r} from {x} to {y} and back: {log} {err!r}, "
                            f"expected {want}")
                    return
                res.outcome(r, round(log[0][0], 3))
            elif err is None or log:
                res.bad("refused", f"route {r}: sailing from {x} to {y} is not refused: {log}")
                return
        # as activities, there and back
        for x, y in ends:
            env = simpy.Environment()
            env.graph = g
            o = make(env, ves, x, route=list(r))
            reg = {}
            acts = []
            for k, d in enumerate((y, x, y)):
                s = core.Locatable(geometry=sg.Point(*NODE[d]))
                kw = {} if mv is None else {"engine_order": mv}
                acts.append(model.MoveActivity(env=env, registry=reg, name=f"m{k}", mover=o,
                                               destination=s, **kw))
            q = model.SequentialActivity(env=env, registry=reg, name="q", sub_processes=acts)
            model.register_processes([q])
            env.run()
            res.execs += 1
            res.steps += 3
            sp1 = speed(ves, mv if mv is not None else 1)
            got = (env.now, o.geometry.x, o.geometry.y)
            if not all(map(close, got, (3 * total / sp1, *NODE[y]))):
                res.bad("activity", f"route {r} three times: {got}, expected {3 * total / sp1}")
                return
        # edge by edge
        for start in "abcde"[:n]:
            env = simpy.Environment()
            env.graph = g
            o = make(env, ves, start, route=list(r))
            if mv is not None:
                o.engine_order = mv
            seen = []

            def passed(movable, a, b, route, geometry):
                seen.append((env.now, a, b, tuple(route), tuple(geometry.coords),
                             movable is o))
                return env.timeout(0)

            o.on_pass_edge_functions.append(passed)
            trace = []
            done = []

            def go():
                yield from o.move_over_route(list(r))
                done.append(env.now)

            def watch():
                trace.append((env.now, o.node, o.geometry.x, o.geometry.y, o.get_state().get("node")))

            env.process(go())
            while env.peek() < float("inf"):
                env.step()
                watch()
            t0 = length([NODE[start], NODE[r[0]]]) / sp
            t = t0
            want = []
            for a, b in zip(r, r[1:]):
                pts = coords(a + b)
                pts = pts if pts[0] == NODE[a] else pts[::-1]
                t += length(pts) / sp
                want.append((t, a, b, tuple(r), tuple(pts), True))
            res.execs += 1
            res.steps += len(trace)
            res.state("edges", r, case["flip"], start, str(ves))
            same = len(seen) == len(want) and all(
                close(x[0], y[0]) and x[1:] == y[1:] for x, y in zip(seen, want))
            if not same:
                res.bad("edges", f"route {r} from {start}: passed {seen}, expected {want}")
                return
            if not done or not close(done[0] - t0, total / sp) or o.node != r[-1] or (
                    o.geometry.x, o.geometry.y) != NODE[r[-1]]:
                res.bad("edges", f"route {r} from {start}: ends {done} at {o.node} "
                        f"{o.geometry}, expected {t0 + total / sp}")
                return
            # between two nodes the position is that of the first of them
            at = dict(zip("abcde", (NODE[x] for x in "abcde")), **{"None": NODE[start]})
            if any(x[2:4] != at[str(x[1])] and x[2:4] != at[r[min(r.index(x[1]) + 1, len(r) - 1)]
                   if x[1] else r[0]] or x[4] != x[1] for x in trace):
                res.bad("position", f"route {r} from {start}: {trace}")
                return
            nodes = [k for k, _ in itertools.groupby(x[1] for x in trace if x[1])]
            if nodes != list(r):
                res.bad("nodes", f"route {r} from {start}: visited {nodes}")
                return


def run_parts(r, res):
    """The parts of which sailing a route consists, each on its own."""
    g = graph(5, 0)
    for ves in VESSELS:
        sp = speed(ves, ves.get("mv", ves.get("eo", 1.0)))
        for start in NODE:
            env = simpy.Environment()
            env.graph = g
            o = make(env, ves, start)
            if "mv" in ves:
                o.engine_order = ves["mv"]
            log = []

            def go():
                for k, x in enumerate(r):
                    t0 = env.now
                    yield from o.move_to_geometry(sg.Point(*NODE[x]))
                    log.append((env.now - t0, o.geometry.x, o.geometry.y, None))
                    if k + 1 < len(r):
                        pts = coords(x + r[k + 1])
                        pts = pts if k % 2 else pts[::-1]
                        t0 = env.now
                        yield from o.pass_linestring(sg.LineString(pts))
                        log.append((env.now - t0, o.geometry.x, o.geometry.y, None))
                    t0 = env.now
                    yield from o.move_over_route([x])
                    log.append((env.now - t0, o.geometry.x, o.geometry.y, o.node))

            env.process(go())
            env.run()
            want, pos = [], NODE[start]
            for k, x in enumerate(r):
                want.append((length([pos, NODE[x]]) / sp, *NODE[x], None))
                pos = NODE[x]
                if k + 1 < len(r):
                    pts = coords(x + r[k + 1])
                    pos = (pts if k % 2 else pts[::-1])[-1]
                    want.append((length(pts) / sp, *pos, None))
                want.append((length([pos, NODE[x]]) / sp, *NODE[x], x))
                pos = NODE[x]
            res.execs += 1
            res.steps += len(log)
            res.state("parts", r, start, str(ves))
            res.outcome("parts", r, round(env.now, 3))
            if len(log) != len(want) or any(
                    not all(map(close, a[:3], b[:3])) or a[3] != b[3] for a, b in zip(log, want)):
                res.bad("parts", f"{r} from {start}: {log}, expected {want}")
                return
    # positions that are nearly, or not at all, those of the ends
    total = sum(length(coords(x + y)) for x, y in zip(r, r[1:]))
    for dx, dy, ok in ((0.004, 0, True), (0, -0.004, True), (0.004, 0.004, True), (0.04, 0, False),
                       (0, 0.04, False)):
        for who in ("from", "to"):
            for a, b in ((r[0], r[-1]), (r[-1], r[0])):
                env = simpy.Environment()
                env.graph = g
                pa, pb = NODE[a], NODE[b]
                if who == "from":
                    pa = (pa[0] + dx, pa[1] + dy)
                else:
                    pb = (pb[0] + dx, pb[1] + dy)
                o = make(env, VESSELS[0], pa, route=list(r))
                env.process(o.move(core.Locatable(geometry=sg.Point(*pb))))
                err = None
                try:
                    env.run()
                except Exception as e:
                    err = e
                res.execs += 1
                res.state("near", r, dx, dy, who, a)
                if ok and (err or not close(env.now, total / speed(VESSELS[0], 1.0))
                           or (o.geometry.x, o.geometry.y) != pb):
                    res.bad("near", f"route {r}: {pa} to {pb}: {env.now} {err!r}, expected {total}")
                    return
                if not ok and err is None:
                    res.bad("refused", f"route {r}: {pa} to {pb} is not refused")
                    return


def run_walk(r, res):
    """Routes that visit nodes again; numbers as nodes; edges that nearly end at them."""
    at = [NODE[x] for x in "abc"]
    for loose, flip in itertools.product((0, 0.0015), (0, 1, 2)):
        g = nx.Graph()
        for x in range(3):
            g.add_node(x, geometry=sg.Point(*at[x]))
        geo = {}
        for i, (x, y) in enumerate(itertools.combinations(range(3), 2)):
            pts = [at[x], *BEND["abc"[x] + "abc"[y]], at[y]]
            pts = [(pts[0][0] + loose, pts[0][1]), *pts[1:-1], (pts[-1][0], pts[-1][1] - loose)]
            geo[x, y], geo[y, x] = pts, pts[::-1]
            if flip == 1 or flip == 2 and i % 2:
                pts = pts[::-1]
            g.add_edge(x, y, geometry=sg.LineString(pts))
        total = sum(length(geo[e]) for e in zip(r, r[1:]))
        for ves in VESSELS:
            sp = speed(ves, ves.get("mv", ves.get("eo", 1.0)))
            env = simpy.Environment()
            env.graph = g
            o = make(env, ves, at[r[0]], route=r)
            log, seen, states = [], [], []

            def passed(movable, a, b, route, geometry):
                seen.append((env.now, a, b, tuple(geometry.coords)))
                return env.timeout(0)

            def go():
                for a, b in ((r[0], r[-1]), (r[-1], r[0])):
                    t0 = env.now
                    o.geometry = sg.Point(*at[a])
                    yield from o.move(core.Locatable(geometry=sg.Point(*at[b])),
                                      engine_order=ves.get("mv"))
                    log.append((env.now - t0, o.geometry.x, o.geometry.y))
                o.geometry = sg.Point(*at[r[0]])
                o.on_pass_edge_functions.append(passed)
                log.append((env.now,))
                yield from o.move_over_route(list(r))
                log.append((env.now, o.geometry.x, o.geometry.y))

            env.process(go())
            err = None
            try:
                while env.peek() < float("inf"):
                    env.step()
                    if len(log) >= 3:
                        states.append((env.now, o.node, o.get_state().get("node"),
                                       (o.geometry.x, o.geometry.y)))
            except Exception as e:
                err = e
            res.execs += 1
            res.steps += len(states)
            res.state("walk", str(r), loose, flip, str(ves))
            res.outcome("walk", str(r), round(env.now, 3))
            d = total / sp
            want = [(d, *at[r[-1]]), (d, *at[r[0]]), (2 * d,), (3 * d, *at[r[-1]])]
            if err or len(log) != 4 or any(
                    len(a) != len(b) or not all(map(close, a, b)) for a, b in zip(log, want)):
                res.bad("walk", f"route {r}: {log} {err!r}, expected {want}")
                return
            t, exp = 2 * d, []
            for e in zip(r, r[1:]):
                t += length(geo[e]) / sp
                exp.append((t, *e, tuple(geo[e])))
            if len(seen) != len(exp) or any(
                    not close(a[0], b[0]) or a[1:] != b[1:] for a, b in zip(seen, exp)):
                res.bad("walk", f"route {r}: passed {seen}, expected {exp}")
                return
            nodes = [k for k, _ in itertools.groupby(x[1] for x in states if x[1] is not None)]
            if nodes != list(r) or any(x[1] != x[2] for x in states):
                res.bad("walk", f"route {r}: nodes {states}")
                return


def run_path(p, res):
    pts = [NODE[x] for x in p]
    line = sg.LineString(pts)
    total = length(pts)
    planar = [((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5 for a, b in zip(pts, pts[1:])]
    grid = []
    for i, (a, b) in enumerate(zip(pts, pts[1:])):
        for f in (0, 0.25, 0.5, 0.75):
            pos = (a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1]))
            grid.append(((sum(planar[:i]) + f * planar[i]) / sum(planar), pos))
    grid.append((1.0, pts[-1]))
    for ves in VESSELS:
        sp = speed(ves, ves.get("mv", ves.get("eo", 1.0)))
        for (fa, a), (fb, b) in itertools.product(grid, repeat=2):
            for extra in ({}, {"route": ["x", "y"]}):
                if extra and (fa, fb) not in ((0, 1), (1, 0)):
                    continue
                env = simpy.Environment()
                env.graph = nx.Graph()
                o = make(env, ves, a, path=line, **extra)
                log = []

                def sail():
                    for d in (b, a):
                        t0 = env.now
                        yield from o.move(core.Locatable(geometry=sg.Point(*d)),
                                          engine_order=ves.get("mv"))
                        log.append((env.now - t0, o.geometry.x, o.geometry.y))

                env.process(sail())
                env.run()
                res.execs += 1
                res.steps += 2
                res.state("path", p, fa, fb, str(ves), bool(extra))
                d = abs(fa - fb) * total / sp
                for got, want in zip(log, ((d, *b), (d, *a))):
                    if not all(abs(x - y) < 1e-6 * max(1, y) for x, y in zip(got, want)):
                        res.bad("path", f"path {p} from {a} to {b}: {log}, expected {d}")
                        return
                res.outcome(p, round(d, 3))
