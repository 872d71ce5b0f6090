"""C22: the table of recorded activities matches the logs."""

import collections
import itertools

from openclsim.critical_path.dependencies_from_recorded_activities import (
    DependenciesFromRecordedActivities,
)

from ..programs import competing, events, fleets, namesakes, plugged, stretch, thin, trees
from ..world import World, walk
from ..world import secs as exact

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "every program of the families (trees of sequences, parallel blocks and loops over basic "
    "activities, transfers and moves with zero and other durations, start events by time, level "
    "and end of activities, conditions, delays, weather, fleets, competition; steps from 0.3 ms to days): the rows of "
    "every object and elementary activity are compared with the executions and waits taken "
    "from the activities' own logs in order of recording, identifiers with executions, and "
    "the dependencies derived from the table with all pairs that adjoin; a case is one program"
)
ASSUMPTIONS = [
    "executions of one activity that take no time and coincide entirely count as one",
    "every activity has ended",
    "rows of composite activities are not compared (their logs contain those of their steps)",
]
CHUNK = 20
CASE_LIMIT = 60


def secs(t):
    return round(exact(t), 5)


def cases(tier):
    fams = itertools.chain(trees(tier), events(tier), competing(tier, True), plugged(tier),
                           fleets(tier), namesakes(thin(competing(tier, True), 4)))
    for i, sc in enumerate(fams):
        f = (1, 0.37, 50000.25, 1 / 3, 0.0003)[i % 5]
        if "weather" in str(sc):
            yield {"sc": sc}
        else:
            yield {"sc": {**stretch(sc, f), "t0": 0}}


def pairs(entries):
    """Intervals of one activity in one log, in order of recording: [(start, stop, state)]."""
    out = []
    for kind, state in (("", "ACTIVE"), ("WAIT_", "WAITING")):
        a = [t for t, s in entries if s == kind + "START"]
        b = [t for t, s in entries if s == kind + "STOP"]
        if len(a) != len(b):
            return None
        out += [(x, y, state) for x, y in zip(a, b)]
    return out


def run_case(case, res):
    sc = case["sc"]
    w = World(sc)
    w.register()
    w.run(max_steps=50000)
    res.execs += 1
    res.steps += w.steps
    res.state(str(sc))
    if w.error:
        return res.bad("error", w.error)
    if any(a.main_process.is_alive for a in w.acts.values()):
        res.skipped += 1
        res.notes["unfinished"] += 1
        return
    dep = DependenciesFromRecordedActivities(w.env, list(w.objs.values()), w.tops)
    df = dep.get_recorded_activity_df()
    before = df.copy()
    leaf = {"id:" + a["n"]: a["n"] for a in walk(sc["acts"]) if a["t"] in ("basic", "move", "shift")}
    names = {"id:" + a["n"]: a.get("label", a["n"]) for a in walk(sc["acts"])}
    got = collections.Counter()
    for r in df.itertuples():
        row = (r.SimulationObject, r.ActivityID, secs(r.start_time), secs(r.end_time), r.state)
        got[row] += 1
        if r.Activity != names.get(r.ActivityID):
            return res.bad("name", f"row {row} is named {r.Activity}")
        if abs((r.duration - (r.end_time - r.start_time)).total_seconds()) > 1e-6:
            return res.bad("duration", f"row {row} lasts {r.duration}")
    # what should be there
    want = collections.Counter()
    hosts = [(n, o.logbook) for n, o in w.objs.items()]
    hosts += [("Activity", w.acts[leaf[i]].logbook) for i in leaf]
    for host, book in hosts:
        by = {}
        for e in book:
            by.setdefault(e["ActivityID"], []).append((secs(e["Timestamp"]), e["ActivityState"]))
        for i, entries in by.items():
            p = pairs(entries)
            if p is None:
                return res.bad("log", f"log of {host} for {i}: {entries}")
            for s, e, st in p:
                want[host, i, s, e, st] += 1
    got_l = collections.Counter({k: v for k, v in got.items() if k[0] != "Activity" or k[1] in leaf})
    if got_l != want:
        return res.bad("rows", f"too many {sorted((got_l - want).items())}, missing "
                       f"{sorted((want - got_l).items())}")
    # the executions behind the rows, from the activities' own logs
    for i, n in leaf.items():
        own = {(s + w.t0, e + w.t0) for s, e in w.intervals(n)}
        seen = {k[2:4] for k in got if k[1] == i and k[4] == "ACTIVE"}
        if {(round(a, 5), round(b, 5)) for a, b in own} != {(round(a, 5), round(b, 5)) for a, b in seen}:
            return res.bad("executions", f"rows of {n}: {sorted(seen)}, executions {sorted(own)}")
    # identifiers
    ex, back = {}, {}
    for r in df.itertuples():
        if r.ActivityID not in leaf:
            continue
        key = (r.ActivityID, r.start_time, r.end_time)
        if ex.setdefault(key, r.cp_activity_id) != r.cp_activity_id:
            return res.bad("ids", f"rows of {key} carry different identifiers")
        if back.setdefault(r.cp_activity_id, key) != key:
            return res.bad("ids", f"{key} and {back[r.cp_activity_id]} carry the same identifier")
    res.outcome(str(sorted(got)))
    # dependencies
    dl = dep.get_dependency_list()
    if len(dl) != len(set(dl)):
        return res.bad("twice", f"{[(back[a], back[b]) for a, b in dl]}")
    for a, b in dl:  # rows of objects belong to elementary activities
        if a not in back or b not in back or back[a][2] != back[b][1]:
            return res.bad("adjoin", f"{back.get(b)} depends on {back.get(a)}")
    rows = {(r.SimulationObject, r.cp_activity_id, r.start_time, r.end_time) for r in df.itertuples()
            if r.SimulationObject != "Activity"}
    dset = set(dl)
    res.notes["dependencies"] += len(dl)
    for x in rows:
        for y in rows:
            if x[0] == y[0] and x[1] != y[1] and x[3] == y[2] and (x[1], y[1]) not in dset:
                return res.bad("dependency", f"on {x[0]}: {back[y[1]]} follows {back[x[1]]}, no "
                               f"dependency; {[(back[a], back[b]) for a, b in dl]}")
    # and the critical path that follows from them
    cp = dep.get_critical_path_df()
    if not dep.get_recorded_activity_df().equals(before):
        return res.bad("changed", "the table is another one after the critical path was asked for: "
                       f"{list(dep.get_recorded_activity_df())} {len(df)} rows")
    if dep.get_dependency_list() != dl:
        return res.bad("changed", "the dependencies are other ones after the critical path")
    n_got = sum(v for k, v in got.items() if k[0] != "Activity")
    if sum(cp.SimulationObject != "Activity") != n_got:
        return res.bad("critical", "rows of objects are missing in the critical path table")
