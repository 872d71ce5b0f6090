"""C20: critical activities are exactly those on a longest chain."""

import itertools
import random

import pandas as pd

from openclsim.critical_path.base_cp import BaseCP
from openclsim.critical_path.simulation_graph import SimulationGraph

ID = "C20"
LEVEL = "model_checking"
RULE = (
    "every multiset of up to five (thorough: six) activities with start and end in 0..3 (up to "
    "four activities in 0..4) and every subset of the dependencies that adjoin in time, in "
    "several row orders and namings, with seconds, fractions and dates as times, with rows for "
    "several objects, activities without duration (also in between dependent ones), and every dependency that does not adjoin, also by a tenth of a millisecond; "
    "long chains and long parallel chains; results are compared with the enumeration of all "
    "chains; a case is one multiset of intervals"
)
ASSUMPTIONS = ["dependencies name recorded activities"]
CHUNK = 4
CASE_LIMIT = 120


def intervals(m):
    return [(a, b) for a in range(m + 1) for b in range(a + 1, m + 1)]


def cases(tier):
    quick = tier == "quick"
    for n in range(1, 6 if quick else 7):
        for iv in itertools.combinations_with_replacement(intervals(3), n):
            yield {"iv": iv, "quick": quick}
    for n in (2, 3, 4):
        for iv in itertools.combinations_with_replacement(intervals(4), n):
            if max(b for a, b in iv) == 4:
                yield {"iv": iv, "quick": quick}
    for n in (10, 400, 1500) if quick else (10, 400, 1500, 5000):
        for k in (1, 2, 3):
            yield {"chain": [n, k]}


def adjoining(iv):
    return [(i, j) for i, j in itertools.permutations(range(len(iv)), 2) if iv[i][1] == iv[j][0]]


def chains(iv, deps):
    """All maximal-or-not chains of dependent activities."""
    nxt = {}
    for i, j in deps:
        nxt.setdefault(i, []).append(j)

    def grow(c):
        yield c
        for j in nxt.get(c[-1], []):
            yield from grow(c + (j,))

    for i in range(len(iv)):
        yield from grow((i,))


def allowed(iv, deps):
    """Acceptable answers: one per end moment of longest chains, or all of them."""
    cs = [(sum(iv[i][1] - iv[i][0] for i in c), iv[c[-1]][1], c) for c in chains(iv, deps)]
    if not cs:
        return [set()]
    top = max(c[0] for c in cs)
    best = [c for c in cs if c[0] == top]
    out = [{i for c in best for i in c[2]}]
    for e in {c[1] for c in best}:
        out.append({i for c in best if c[1] == e for i in c[2]})
    return out


CONV = {
    "third": lambda t: pd.Timestamp(2020, 1, 1) + pd.Timedelta(microseconds=333333 * t + t // 2),
    "frac3": lambda t: 5e8 + t / 3,
    "days": lambda t: pd.Timestamp(2020, 1, 1) + pd.Timedelta(hours=30 * t),
    "sec": lambda t: t, "frac": lambda t: 1000.5 + t * 0.37,
    "date": lambda t: pd.Timestamp(2020, 1, 1) + pd.Timedelta(seconds=1800 * t),
    "odd": lambda t: pd.Timestamp(2020, 1, 1) + pd.Timedelta(milliseconds=1250 * t),
}


def frame(iv, ids, conv, order, dup=False, zero=()):
    """Table of recorded activities; several may be executions of one, or have the same name."""
    f = CONV[conv]
    many = (len(iv), 2, 1)[(len(conv) + order[0] + len(zero)) % 3]
    rows = []
    for i in order:
        a, b = iv[i]
        objs = ["Activity", "V", "S"] if dup and i % 2 == 0 else (
            ["Activity"] if dup and i % 3 == 0 else ["V"])
        for o in objs:
            rows.append(dict(Activity=f"n{i % many}", ActivityID=f"x{i % (many + 1)}", SimulationObject=o,
                             start_time=f(a), end_time=f(b), duration=f(b) - f(a),
                             state="ACTIVE" if i % 2 else "WAITING", cp_activity_id=ids[i]))
    for k, t in enumerate(zero):
        rows.insert(k, dict(Activity=f"z{k}", ActivityID=f"z{k}", SimulationObject="V",
                            start_time=f(t), end_time=f(t), duration=f(t) - f(t),
                            state="ACTIVE", cp_activity_id=f"z{k}"))
    return pd.DataFrame(rows)


class Fixed(BaseCP):
    def __init__(self, df, deps):
        super().__init__(env=None, object_list=[], activity_list=[])
        self.recorded_activities_df, self.dependency_list = df, deps

    def get_dependency_list(self):
        return self.dependency_list


def run_case(case, res):
    if "chain" in case:
        return long_chain(*case["chain"], res)
    iv, quick = case["iv"], case["quick"]
    n = len(iv)
    adj = adjoining(iv)
    if len(adj) > 8:
        subsets = (d for d in subsets_of(adj) if len(d) in (0, 1, 2, 3, len(adj) - 1, len(adj)))
    else:
        subsets = subsets_of(adj)
    perms = list(itertools.permutations(range(n)))
    names = [[f"i{k}" for k in range(n)], [f"i{n - k}" for k in range(n)]]
    for m, deps in enumerate(subsets):
        ok = allowed(iv, deps)
        some = perms if n <= 3 else [perms[0], perms[-1], perms[(7 * m + 3) % len(perms)]]
        if quick and n == 5:
            some = [perms[(7 * m) % len(perms)]]
        for k, order in enumerate(some):
            ids = names[(m + k) % 2]
            conv = list(CONV)[(m + k) % 7]
            rows = frame(iv, ids, conv, order)
            dl = [(ids[i], ids[j]) for i, j in deps]
            if (m + k) % 3 == 1:
                dl = dl[::-1]
            keep = list(dl)
            got = SimulationGraph(rows, dl).get_list_critical_activities()
            res.execs += 1
            res.steps += len(deps) + 1
            res.state(iv, deps)
            res.outcome(str(sorted(got)))
            back = {c: i for i, c in enumerate(ids)}
            if len(got) != len(set(got)):
                res.bad("twice", f"{iv} {deps}: {got}")
                return
            if {back[g] for g in got} not in ok:
                res.bad("critical", f"activities {iv} dependencies {deps} order {order}: critical "
                        f"{sorted(back[g] for g in got)}, expected one of {ok}")
                return
            if dl != keep:
                res.bad("changed", "the dependency list was changed")
                return
        # dependencies that pass through activities without duration
        if deps and n <= 4:
            r = via(iv, ids, deps, perms[-1], ok, res)
            if r:
                res.bad(*r)
                return
        # through the table, with several objects and activities without duration
        ids = names[m % 2]
        dl = [(ids[i], ids[j]) for i, j in deps]
        z = () if m % 2 else (0, 2)
        df = frame(iv, ids, "date", perms[-1], True, z)
        out = Fixed(df, dl).get_critical_path_df()
        res.execs += 1
        crit = {}
        for r in out.itertuples():
            crit.setdefault(r.cp_activity_id, set()).add(r.is_critical)
        flagged = {i for i in range(n) if crit.get(ids[i]) == {True}}
        mixed = [c for c, v in crit.items() if len(v) > 1]
        want_rows = sorted((r.cp_activity_id, r.SimulationObject) for r in df.itertuples()
                           if r.SimulationObject != "Activity")
        got_rows = sorted((r.cp_activity_id, r.SimulationObject) for r in out.itertuples()
                          if r.SimulationObject != "Activity")
        if flagged not in ok or mixed or any(crit.get(f"z{k}", {False}) != {False} for k in range(len(z))):
            res.bad("table", f"activities {iv} dependencies {deps}: flagged {flagged} {mixed}, "
                    f"expected one of {ok}")
            return
        if want_rows != got_rows:
            res.bad("rows", f"{iv}: rows {got_rows}, expected {want_rows}")
            return
    # dependencies that do not adjoin are refused
    ids = names[0]
    for i, j in itertools.permutations(range(n), 2):
        if (i, j) not in adj:
            for extra in ([], adj[:1]):
                try:
                    g = SimulationGraph(frame(iv, ids, ("date", "third", "sec")[(i + j) % 3], perms[0]),
                                        [(ids[a], ids[b]) for a, b in [*extra, (i, j)]])
                    g.get_list_critical_activities()
                except Exception:
                    res.execs += 1
                    continue
                res.bad("refused", f"dependency {(i, j)} of {iv} is not refused")
                return
    if n <= 3:
        for i, j in adj:
            r = nearly(iv, ids, i, j, res)
            if r:
                res.bad(*r)
                return


def nearly(iv, ids, i, j, res):
    """Activities that nearly adjoin: a gap or an overlap much shorter than they are."""
    for m, g in enumerate((0.001, -0.001, 0.03, -0.03, 0.4, -0.4, 0.9, 2, -2)):
        conv = ("date", "third", "sec", "days")[(m + i) % 4]
        g = g / 10 if conv in ("sec", "third") else g
        d = g if conv == "sec" else pd.Timedelta(seconds=g)
        rows = frame(iv, ids, conv, range(len(iv)))
        for which, col in ((j, "start_time"), (i, "end_time")):
            t = rows.copy()
            t[col] = [v + d if c == ids[which] else v for c, v in zip(t["cp_activity_id"], t[col])]
            t["duration"] = t["end_time"] - t["start_time"]
            res.execs += 1
            try:
                SimulationGraph(t, [(ids[i], ids[j])]).get_list_critical_activities()
            except Exception:
                continue
            return ("refused", f"dependency {(i, j)} of {iv} ({conv}) with {col} of {which} moved "
                    f"by {d} is not refused")


def via(iv, ids, deps, order, ok, res):
    """Some dependencies pass through one or two activities without duration."""
    zeros = sorted({iv[i][1] for i, _ in deps})
    at = {t: k for k, t in enumerate(zeros)}
    rows = frame(iv, ids, "odd", order, False, zeros + zeros)
    m = len(zeros)
    for mode in ("one", "two", "circle", "loose"):
        dl = []
        links = set()
        for i, j in deps:
            z = f"z{at[iv[i][1]]}"
            y = f"z{at[iv[i][1]] + m}"
            links.add((i, j))
            if mode == "one":
                dl += [(ids[i], z), (z, ids[j])]
            elif mode == "two":
                dl += [(y, ids[j]), (z, y), (ids[i], z)]
            elif mode == "circle":
                dl += [(ids[i], z), (z, y), (y, z), (z, ids[j])]
            else:
                dl += [(ids[i], ids[j]), (ids[i], z), (y, ids[j])]
        want = ok
        if mode != "loose":
            # all that end in one zero activity are linked to all that start from it
            full = {(i, j) for i, _ in deps for _, j in deps
                    if iv[i][1] == iv[j][0]}
            want = allowed(iv, sorted(full)) if full != set(deps) else ok
        got = SimulationGraph(rows, dl).get_list_critical_activities()
        res.execs += 1
        back = {c: i for i, c in enumerate(ids)}
        if len(got) != len(set(got)) or {back.get(g) for g in got} not in want:
            return ("zero", f"activities {iv} dependencies {deps} via zero-length ones ({mode}): "
                    f"critical {got}, expected one of {want}")


def subsets_of(adj):
    for k in range(len(adj) + 1):
        yield from itertools.combinations(adj, k)


def long_chain(n, k, res):
    """k parallel chains of n activities; chain 0 is critical, and chain 1 if k > 2."""
    iv, deps = [], []
    for c in range(k):
        d = 2 if c == 0 or k > 2 and c == 1 else 1
        for i in range(n):
            iv.append((i * d, (i + 1) * d))
            if i:
                deps.append((len(iv) - 2, len(iv) - 1))
    ids = [f"i{i}" for i in range(len(iv))]
    order = list(range(len(iv)))
    random.Random(7).shuffle(order)  # one fixed order
    g = SimulationGraph(frame(iv, ids, "date", order), [(ids[a], ids[b]) for a, b in deps])
    got = g.get_list_critical_activities()
    res.execs += 1
    res.steps += len(iv)
    res.state(n, k)
    want = set(ids[: n * (2 if k > 2 else 1)])
    if set(got) != want or len(got) != len(want):
        res.bad("long", f"{k} chains of {n}: {len(got)} critical, expected {len(want)}")
