"""C21: dependency tracking explains the schedule and does not alter it."""

import itertools
import json

from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy

from ..programs import competing, events, fleets, namesakes, plugged, stretch, thin, trees
from ..world import EPOCH, World, secs, walk

ID = "C21"
LEVEL = "model_checking"
RULE = (
    "every program of the families (trees of sequences, parallel blocks and loops over basic "
    "activities, transfers and moves, start events, conditions, delays, weather, fleets, "
    "competition) and loops of up to 2000 rounds, run in the tracking environment and in a "
    "plain one: equal logs, levels and end times; every derived dependency adjoins, every "
    "interval of an elementary activity that takes time and starts later than the simulation "
    "has a predecessor, and the critical intervals cover the whole simulated time; a case is "
    "one program"
)
ASSUMPTIONS = [
    "the critical intervals need not span the simulated time of models in which activities wait "
    "for a given time (such a wait has no predecessor)",
    "intervals are explained if they are executions or delays of elementary activities that "
    "take time; waits for others are explained by the activities they wait for",
]
CHUNK = 10
CASE_LIMIT = 200


def cases(tier):
    quick = tier == "quick"
    fams = itertools.chain(trees(tier), events(tier), competing(tier),
                           plugged(tier), fleets(tier), namesakes(thin(competing(tier), 4)))
    for i, sc in enumerate(fams):
        # fractions and days must not matter
        f = (1, 0.37, 50000.25, 1 / 3, 1.0000504, 0.004, 1)[i % 7]
        if "weather" in str(sc):
            yield {"sc": sc}
        else:
            yield {"sc": {**stretch(sc, f), "t0": (0, 1.6e9, 1234567.1)[i % 3]}}
    for k in (100, 600) if quick else (100, 600, 2000):
        for n in (1, 2):
            yield {"sc": {"objs": [{"n": "S", "k": "site"}], "acts": [
                {"t": "rep", "k": k, "n": f"r{i}", "sub": [
                    {"t": "basic", "n": f"b{i}", "d": 1 + i, "logs": ["S"]}]} for i in range(n)]}}


def logs(w):
    out = {}
    for n, o in itertools.chain(w.objs.items(), w.acts.items()):
        out[n] = [(e["Timestamp"], e["ActivityState"], e["ActivityID"], str(e["ObjectState"]),
                   str(label(e["ActivityLabel"]))) for e in o.logbook]
    return out


def label(x):
    # plugins carry generated identifiers
    return {k: v for k, v in (x or {}).items() if (x or {}).get("type") != "plugin" or k != "ref"}


def leaves(w):
    return [a for a in walk(w.sc["acts"]) if a["t"] in ("basic", "move", "shift")]


def timed(w, n):
    """Executions and delays of an elementary activity that take time, as (start, end)."""
    out = [x for x in w.intervals(n)]
    open_ = []
    for e in w.acts[n].logbook:
        lab = e["ActivityLabel"] or {}
        if e["ActivityID"] != "id:" + n or lab.get("type") != "plugin":
            continue
        t = secs(e["Timestamp"]) - w.t0
        if e["ActivityState"] == "WAIT_START":
            open_.append(t)
        elif e["ActivityState"] == "WAIT_STOP":
            out.append((open_.pop(0), t))
    return [x for x in out if None not in x and x[1] - x[0] > 1e-6]


def run_case(case, res):
    sc = case["sc"]
    p = World(sc)
    p.register()
    p.run(max_steps=200000)
    w = World(sc, env_kind="cp")
    w.register()
    w.run(max_steps=200000)
    res.execs += 2
    res.steps += p.steps + w.steps
    res.state(str(sc))
    if (p.error, p.env.now, p.levels()) != (w.error, w.env.now, w.levels()):
        return res.bad("altered", f"plain {p.error, p.env.now, p.levels()}, tracked "
                       f"{w.error, w.env.now, w.levels()}")
    a, b = logs(p), logs(w)
    for n in a:
        if a[n] != b[n]:
            return res.bad("altered", f"log of {n} is {b[n]}, in a plain environment {a[n]}")
    res.outcome(str(a))
    if w.error:
        return res.bad("error", w.error)
    dep = DependenciesFromSimpy(w.env, list(w.objs.values()), w.tops)
    rows = dep.get_recorded_activity_df()
    ids = {}
    for r in rows.itertuples():
        ids[r.cp_activity_id] = (r.ActivityID, secs(r.start_time) - w.t0, secs(r.end_time) - w.t0)
    dl = dep.get_dependency_list()
    known = dict.fromkeys(ids, 0)
    for x, y in dl:
        if x not in ids or y not in ids:
            return res.bad("unknown", f"dependency {x, y} of unknown activities")
        if abs(ids[x][2] - ids[y][1]) > 2e-6:
            return res.bad("adjoin", f"{ids[y]} depends on {ids[x]}")
        known[y] += 1
    res.notes["dependencies"] += len(dl)
    inst = {}
    for i, (aid, s, e) in ids.items():
        inst.setdefault(aid, []).append((s, e, i))
    last = 0
    for lf in leaves(w):
        for s, e in timed(w, lf["n"]):
            last = max(last, e)
            m = [i for a, b, i in inst.get("id:" + lf["n"], []) if abs(a - s) < 2e-6 and abs(b - e) < 2e-6]
            if not m:
                return res.bad("missing", f"{lf['n']} from {s} to {e} is not recorded")
            if s > 1e-6 and not any(known[i] for i in m):
                return res.bad("unexplained", f"{lf['n']} from {s} to {e} has no predecessor; "
                               f"dependencies {[(ids[x], ids[y]) for x, y in dl]}")
            if s <= 1e-6 and any(known[i] for i in m):
                return res.bad("first", f"{lf['n']} from {s} to {e} has a predecessor")
    if '"time"' in json.dumps(sc):
        return  # such a wait has no predecessor
    df = dep.get_critical_path_df()
    crit = {i for i, c in zip(df.cp_activity_id, df.is_critical) if c}
    cover = sorted(ids[i][1:] for i in crit)
    t = 0
    for s, e in cover:
        if s > t + 1e-4:
            break
        t = max(t, e)
    if t < last - 1e-4:
        return res.bad("span", f"critical {sorted(ids[i] for i in crit)} does not span 0 to {last}")
