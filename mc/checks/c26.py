"""C26: charts draw exactly the logged intervals and levels."""

import collections
import itertools

import matplotlib

matplotlib.use("Agg")

import matplotlib.dates as mdates  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from openclsim.critical_path.dependencies_from_recorded_activities import (  # noqa: E402
    DependenciesFromRecordedActivities,
)
from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy  # noqa: E402
from openclsim.critical_path.simulation_graph import SimulationGraph  # noqa: E402
from openclsim.plot import get_step_chart, vessel_planning  # noqa: E402

from ..programs import charts  # noqa: E402
from ..world import World, secs, walk  # noqa: E402

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "every program of the families (trees, competition, start events, conditions, delays, "
    "weather, fleets, one and two products, long loops with and without durations): planning "
    "charts of the objects, of the activities, of both in both orders, as list and as "
    "dictionary, with names by list, by dictionary and by hand, with rows by name and by "
    "number (quick: three of the ten kinds in turn per program); level charts; critical-path charts of both sources of dependencies; every "
    "polyline is cut into bars, and bars and levels are compared with the logs; a case is one "
    "program"
)
ASSUMPTIONS = [
    "bars that coincide entirely count as one",
    "rows of composite activities are not compared (their logs contain those of their steps)",
    "names of activities and objects differ from each other and from identifiers",
]
CHUNK = 20
CASE_LIMIT = 100
LEAF = ("basic", "move", "shift")


def cases(tier):
    for i, sc in enumerate(charts(tier)):
        yield {"sc": sc, "n": i if tier == "quick" else None}


def when(x):
    return round(secs(pd.Timestamp(x).to_pydatetime()), 4)


def bars(trace):
    """Cuts a polyline into its connected pieces: [(row, from, to)]; None if it is not made of
    horizontal bars."""
    out, piece = [], []
    xs, ys = list(trace.x), list(trace.y)
    if len(xs) != len(ys) or trace.connectgaps:
        return None
    for x, y in zip(xs + [None], ys + [None]):
        if y is None:
            if piece:
                rows = {r for _, r in piece}
                ts = [t for t, _ in piece]
                if len(rows) > 1 or (len(ts) == 1):
                    return None
                if ts != sorted(ts):
                    return None
                out.append((rows.pop(), ts[0], ts[-1]))
            piece = []
        else:
            piece.append((when(x), y))
    return out


def intervals(book, aid):
    """Logged executions of one activity in one log, in order of recording."""
    es = [(round(secs(e["Timestamp"]), 4), e["ActivityState"]) for e in book if e["ActivityID"] == aid]
    a = [t for t, s in es if s == "START"]
    b = [t for t, s in es if s == "STOP"]
    assert len(a) == len(b), es
    return list(zip(a, b))


def run_case(case, res):
    sc = case["sc"]
    w = World(sc, env_kind="cp")
    w.register()
    w.run(max_steps=50000)
    res.execs += 1
    res.steps += w.steps
    res.state(str(sc))
    if w.error:
        return res.bad("error", w.error)
    if any(a.main_process.is_alive for a in w.acts.values()):
        res.skipped += 1
        res.notes["unfinished"] += 1
        return
    planning(w, res, case["n"]) and steps(w, res) and critical(w, res)


def planning(w, res, nr):
    leaf = [a["n"] for a in walk(w.sc["acts"]) if a["t"] in LEAF]
    objs, tops = list(w.objs.values()), w.tops
    leaves = [w.acts[n] for n in leaf]
    everything = list(w.acts.values())
    ids = {n: "id:" + n for n in leaf}
    named = {n: n for n in leaf}
    labels = {"id:" + n: n.upper() + "!" for n in w.acts}
    upper = {n: labels["id:" + n] for n in leaf}
    asdict = lambda xs: {f"k{i}": x for i, x in enumerate(xs)}
    runs = [
        (objs, {}, ids), (objs, {"id_map": tops}, named),
        (objs[::-1], {"id_map": asdict(everything), "y_scale": "numbers"}, named),
        (asdict(objs), {"id_map": dict(labels)}, upper),
        (objs + tops, {}, named), (tops + objs[::-1], {"y_scale": "numbers"}, named),
        (leaves + objs, {"id_map": tops}, named), (asdict(leaves), {}, named),
        (objs, {"activities": ["id:" + n for n in leaf], "id_map": asdict(tops)}, named),
        (objs, {"activities": asdict(["id:" + n for n in leaf[::-1]])}, ids),
    ]
    if nr is not None:
        runs = [runs[(3 * nr + k) % 10] for k in (0, 1, 2)]
    for concepts, kw, label in runs:
        cs = list(concepts.values()) if isinstance(concepts, dict) else list(concepts)
        n0 = len(cs)
        if not any(c.logbook for c in cs):
            continue  # nothing to draw
        fig = vessel_planning.get_gantt_chart(concepts, static=True, **kw)
        res.execs += 1
        drawn = [c for c in cs if c.logbook]
        mine = {label[n]: n for n in leaf}
        rows = {(-k if kw.get("y_scale") == "numbers" else c.name): c for k, c in enumerate(drawn)}
        compare = {r for r, c in rows.items() if c in objs or c in leaves}
        got = collections.defaultdict(set)
        what = f"planning of {[c.name for c in cs]} with {sorted(kw)}"
        comp = {"id:" + n for n in w.acts if n not in leaf} | {n for n in w.acts if n not in leaf}
        comp |= {labels["id:" + n] for n in w.acts if n not in leaf}
        for tr in fig["data"]:
            bs = bars(tr)
            if bs is None:
                res.bad("line", f"{what}: trace {tr.name} is not made of bars: {list(tr.x)} {list(tr.y)}")
                return False
            if tr.name not in mine and tr.name not in comp:
                res.bad("name", f"{what}: trace named {tr.name}")
                return False
            for r, s, e in bs:
                if r not in rows:
                    res.bad("row", f"{what}: bar on row {r}")
                    return False
                if r in compare:
                    got[tr.name, r].add((s, e))
        for r in compare:
            for name in set(mine) | comp:
                n = mine.get(name)
                exp = set(intervals(rows[r].logbook, "id:" + n)) if n else set()
                if got.get((name, r), set()) != exp:
                    res.bad("bars", f"{what}: {name} on {r} drawn {sorted(got.get((name, r), ()))}, "
                            f"logged {sorted(exp)}")
                    return False
        ts = [secs(e["Timestamp"]) for c in cs for e in c.logbook]
        lo, hi = fig["layout"].xaxis.range
        if abs(when(lo) - min(ts)) > 1e-3 or abs(when(hi) - max(ts)) > 1e-3:
            res.bad("range", f"{what}: from {lo} to {hi}, logged {min(ts)} to {max(ts)}")
            return False
        if len(cs) != n0:
            res.bad("changed", f"{what}: the given list was changed")
            return False
        res.outcome(str(sorted((k, sorted(v)) for k, v in got.items())))
    return True


def steps(w, res):
    objs = [o for o in w.objs.values() if o.logbook]
    fig = get_step_chart(objs)
    maps = {"default": "", "sand": "Sand"}
    fig2 = get_step_chart(objs, dict(maps))
    res.execs += 2
    try:
        for f, m in ((fig, {"default": ""}), (fig2, maps)):
            want = []
            for o in objs:
                for p in w.products(o.name):
                    pts = []
                    for e in sorted(o.logbook, key=lambda e: e["Timestamp"]):
                        lv = e["ObjectState"]["container level"]
                        pts.append((round(secs(e["Timestamp"]), 4), lv[p] if isinstance(lv, dict) else lv))
                    want.append((f"{o.name} {m.get(p, p)}", pts))
            got = []
            for line in f.axes[0].get_lines():
                xs = [round(float(x) * 86400, 4) for x in mdates.date2num(line.get_xdata())]
                got.append((line.get_label(), list(zip(xs, (int(y) if float(y).is_integer() else float(y)
                                                          for y in line.get_ydata())))))
            res.outcome(str(got))
            if not same(got, want):
                res.bad("levels", f"lines {got}, logged {want}")
                return False
    finally:
        plt.close(fig)
        plt.close(fig2)
    return True


def same(got, want):
    if sorted(g[0] for g in got) != sorted(x[0] for x in want):
        return False
    want = dict(want)
    for label, pts in got:
        exp = want[label]
        if len(pts) != len(exp):
            return False
        if any(abs(a[0] - b[0]) > 2e-3 for a, b in zip(pts, exp)):
            return False
        # points of the same moment may be listed in any order
        if collections.Counter((round(b[0], 2), a[1]) for a, b in zip(pts, exp)) != \
                collections.Counter((round(b[0], 2), b[1]) for b in exp):
            return False
    return True


def longest(dep):
    """Critical intervals: those on the longest chains, on the rows of objects if there are any."""
    df = dep.get_recorded_activity_df()
    ids = set(SimulationGraph(df, dep.get_dependency_list()).get_list_critical_activities())
    rows = [(r.cp_activity_id, r.SimulationObject, when(r.start_time), when(r.end_time))
            for r in df.itertuples() if r.cp_activity_id in ids]
    on_objects = {r[0] for r in rows if r[1] != "Activity"}
    return {r[1:] for r in rows if r[1] != "Activity" or r[0] not in on_objects}


def critical(w, res):
    objs = list(w.objs.values())
    leaf = {"id:" + a["n"]: a["n"] for a in walk(w.sc["acts"]) if a["t"] in LEAF}
    for cls in (DependenciesFromSimpy, DependenciesFromRecordedActivities):
        dep = cls(w.env, objs, w.tops)
        fig = dep.make_plotly_gantt_chart(static=True)
        res.execs += 1
        crit = longest(dep)
        got = collections.defaultdict(set)
        red = None
        for tr in fig["data"]:
            bs = bars(tr)
            if bs is None:
                res.bad("line", f"trace {tr.name} is not made of bars: {list(tr.x)} {list(tr.y)}")
                return False
            if tr.name == "critical_path":
                red = set(bs)
            else:
                got[tr.name] |= set(bs)
        if red != crit:
            res.bad("critical", f"{cls.__name__}: marked {sorted(red)}, critical {sorted(crit)}")
            return False
        # rows of objects; the row "Activity" has the critical rest
        hosts = [(o.name, o.logbook, leaf) for o in objs]
        hosts += [("Activity", w.acts[n].logbook, {i: n}) for i, n in leaf.items()]
        for row, book, which in hosts:
            for i, n in which.items():
                es = [e for e in book if e["ActivityID"] == i]
                exp = set()
                for k in ("", "WAIT_"):
                    a = [when(e["Timestamp"]) for e in es if e["ActivityState"] == k + "START"]
                    b = [when(e["Timestamp"]) for e in es if e["ActivityState"] == k + "STOP"]
                    exp |= {(row, x, y) for x, y in zip(a, b)}
                have = {b for b in got[n] if b[0] == row}
                if have != exp if row != "Activity" else have - exp:
                    res.bad("cpbars", f"{cls.__name__}: {n} on {row} drawn {sorted(have)}, logged {sorted(exp)}")
                    return False
        for n, bs in got.items():
            for r, s, e in bs:
                if r != "Activity" and n not in leaf.values():
                    res.bad("cpname", f"{cls.__name__}: bar {r, s, e} named {n}")
                    return False
    return True
