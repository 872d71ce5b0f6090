"""C14: log tables show exactly the log."""

import collections
import itertools
import math

import pandas as pd
import simpy

import openclsim.core as core
import openclsim.model as model
from openclsim.plot import get_log_dataframe

from ..trees import build, shapes
from ..world import _mk, secs

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "every sequence of up to three (thorough: four) log entries over an alphabet of times, "
    "states, identifiers, labels and object states, recorded in any order on objects without "
    "state, with one product and with two products; every order of recording of six entries; "
    "long logs (up to 40 entries) of few distinct times in every rotation; name maps over "
    "every small activity tree in every form (list, dictionary of activities, dictionary of "
    "labels); the column view, the table view and the expected rows are compared entry by "
    "entry; a case is one family of logs that share their first entry"
)
ASSUMPTIONS = [
    "identifiers are strings, numbers or absent; no label equals an identifier of another activity",
    "times are whole multiples of a quarter second",
    "entries of the same time may appear in any order",
]
CHUNK = 2
CASE_LIMIT = 200

T = (0.0, 1.25, 3.0)
S = (core.LogState.START, core.LogState.STOP, core.LogState.WAIT_START, core.LogState.UNKNOWN)
I = ("a", "b")
L = (None, {"type": "subprocess", "ref": "b"})
X = (None, {"extra": 7})


def make(kind):
    env = simpy.Environment()
    bases = [core.Identifiable, core.Log]
    kw = dict(env=env, name="o", id="o")
    if kind == "one":
        bases += [core.HasContainer]
        kw.update(capacity=50, level=0)
    elif kind == "two":
        bases += [core.HasMultiContainer]
        kw["initials"] = [{"id": "p", "capacity": 50, "level": 0},
                          {"id": "q", "capacity": 50, "level": 3}]
    return env, _mk("LogObj", *bases)(**kw)


def record(kind, entries):
    """Records the entries on a real object; returns it with the expected rows."""
    env, o = make(kind)
    rows = []
    for n, (t, s, i, lab, extra) in enumerate(entries):
        state = {}
        if kind == "one":
            o.container.put(1 if n % 2 == 0 else 2)
            env.run()
            state["container level"] = o.container.get_level()
        elif kind == "two":
            o.container.put(1, "p")
            env.run()
            state["container level"] = {"p": n + 1, "q": 3}
        if extra:
            state.update(extra)
        o.log_entry_v1(t, i, s, extra, dict(lab) if lab else None)
        rows.append((t, s.name, i, str(sorted(state.items())), str(sorted((lab or {}).items()))))
    return o, rows


def columns(log):
    ks = ("Timestamp", "ActivityState", "ActivityID", "ObjectState", "ActivityLabel")
    assert set(log) == set(ks), set(log)
    assert len({len(log[k]) for k in ks}) == 1, {k: len(log[k]) for k in ks}
    return [
        (secs(t), s, ident(i), str(sorted(norm(o).items())), str(sorted(norm(l).items())))
        for t, s, i, o, l in zip(*(log[k] for k in ks))
    ]


def norm(d):
    return {k: dict(sorted(v.items())) if isinstance(v, dict) else v for k, v in d.items()}


def missing(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT


def ident(i):
    """Numbers may have become floats, absent identifiers nan."""
    if missing(i):
        return None
    return int(i) if isinstance(i, float) and i == int(i) else i


def table(df):
    out = []
    keys = list(df.columns)
    assert len(keys) == len(set(keys)), keys
    for row in df.itertuples(index=False, name=None):
        d = dict(zip(keys, row))
        lab = {k: d[k] for k in ("type", "ref") if k in d and not missing(d[k])}
        st = {k: int(v) if isinstance(v, float) else v for k, v in norm(d).items()
              if k not in ("Activity", "Timestamp", "ActivityState", "type", "ref")
              and not missing(v)}
        out.append((secs(d["Timestamp"]), d["ActivityState"], ident(d["Activity"]),
                    str(sorted(st.items())), str(sorted(lab.items()))))
    return out


def compare(kind, entries, res, id_map=None, names=None):
    o, rows = record(kind, entries)
    res.execs += 1
    res.steps += len(entries)
    got = columns(o.log)
    if got != rows:
        res.bad("columns", f"log view {got}, recorded {rows}")
        return False
    before = [dict(e) for e in o.logbook]
    tab = table(get_log_dataframe(o, id_map))
    names = names or {}
    exp = [(t, s, names.get(i, i), st, la) for t, s, i, st, la in rows]
    if collections.Counter(tab) != collections.Counter(exp):
        res.bad("table", f"table {tab}, recorded {exp}")
        return False
    if [r[0] for r in tab] != sorted(r[0] for r in tab):
        res.bad("order", f"table is not in chronological order: {tab}")
        return False
    if [dict(e) for e in o.logbook] != before or columns(o.log) != rows:
        res.bad("changed", "looking at the log changed it")
        return False
    res.state(kind, str(rows), str(id_map and sorted(names.items())))
    res.outcome(str(tab))
    return True


def cases(tier):
    quick = tier == "quick"
    full = list(itertools.product(range(3), range(4), range(2), range(2), range(2)))
    for kind in ("none", "one", "two"):
        yield {"kind": kind, "first": None, "len": 1, "alpha": "full"}
        for f in full:
            yield {"kind": kind, "first": f, "len": 2, "alpha": "full"}
    small = [e for e in full if e[1] < 2 and not e[4]]
    for kind in ("one",) if quick else ("none", "one", "two"):
        for f in small:
            yield {"kind": kind, "first": f, "len": 3, "alpha": "small"}
    if not quick:
        for kind in ("none", "one", "two"):
            for f in itertools.product(small, repeat=2):
                yield {"kind": kind, "first2": f, "len": 4, "alpha": "small"}
    # unusual identifiers
    for kind in ("none", "one", "two"):
        for f in itertools.product((0, 2), range(3), (0, 1)):
            yield {"kind": kind, "odd": f}
    for p in itertools.product((0, 1, 2), repeat=2):
        yield {"perm": p}
    for n in range(7, 41, 3 if quick else 1):
        for m in (1, 2, 3, 5):
            yield {"long": n, "mod": m}
    for leaves in (1, 2, 3):
        kinds = ("seq", "par", "rep2")
        for s in shapes(leaves, 3 if leaves < 2 or not quick else 2, kinds, kinds):
            yield {"tree": s}


def entry(e):
    return T[e[0]], S[e[1]], I[e[2]], L[e[3]], X[e[4]]


ODD = ("a", None, 7)


def run_case(case, res):
    if "odd" in case:
        alpha = list(itertools.product((0, 2), range(3), (0, 1)))
        mk = lambda e: (T[e[0]], S[3 * (e[0] == 0)], ODD[e[1]], L[e[2]], None)  # noqa: E731
        for n in (0, 1, 2):
            for tail in itertools.product(alpha, repeat=n):
                if not compare(case["kind"], [mk(case["odd"]), *map(mk, tail)], res):
                    return
        return
    if "perm" in case:
        a, b = case["perm"]
        base = [(k * 0.5, S[k % 2], I[k % 2], L[(k + a) % 2], None) for k in range(4)]
        base += [(a * 1.0, S[1], "c", None, None), (b * 1.0, S[0], "c", L[1], X[1])]
        for p in itertools.permutations(base):
            for kind in ("one", "two") if p[0] is base[0] else ("one",):
                if not compare(kind, p, res):
                    return
        return
    if "long" in case:
        n, m = case["long"], case["mod"]
        seq = [((k * 7) % m * 0.5, S[k % 2], f"i{k}", L[k % 2], None) for k in range(n)]
        for r in range(n):
            if not compare("one", seq[r:] + seq[:r], res):
                return
        return
    if "tree" in case:
        return run_tree(case["tree"], res)
    if case.get("first") is None and "first2" not in case:
        for kind in (case["kind"],):
            compare(kind, [], res)
            for e in itertools.product(range(3), range(4), range(2), range(2), range(2)):
                compare(kind, [entry(e)], res)
        return
    head = [case["first"]] if "first" in case else list(case["first2"])
    full = list(itertools.product(range(3), range(4), range(2), range(2), range(2)))
    alpha = full if case["alpha"] == "full" else [e for e in full if e[1] < 2 and not e[4]]
    for tail in itertools.product(alpha, repeat=case["len"] - len(head)):
        if not compare(case["kind"], [entry(e) for e in head + list(tail)], res):
            return


def run_tree(shape, res):
    env = simpy.Environment()
    reg = {}
    ids = []

    def mk(s):
        ids.append(s["n"])
        kw = dict(env=env, registry=reg, name="name " + s["n"], id="id:" + s["n"])
        if s["t"] == "basic":
            return model.BasicActivity(duration=1, **kw)
        subs = [mk(x) for x in s["sub"]]
        if s["t"] == "rep":
            return model.RepeatActivity(sub_processes=subs, repetitions=2, **kw)
        cls = {"seq": model.SequentialActivity, "par": model.ParallelActivity}[s["t"]]
        return cls(sub_processes=subs, **kw)

    spec = build(shape, lambda i: {"t": "basic"})
    top = mk(spec)
    full = {"id:" + i: "name " + i for i in ids}
    entries = [(T[k % 3], S[k % 2], i, L[k % 2], None)
               for k, i in enumerate([*full, "other", *list(full)[::-1]])]
    entries += [(T[1], S[0], "other", None, None)]
    extra = model.BasicActivity(env=env, registry=reg, name="zz", id="id:zz", duration=1)
    forms = [
        (None, {}), ([], {}), ([top], full), ({"x": top}, full), ([extra, top], full),
        ({"x": top, "y": extra}, full), (dict(full), full),
        ({"id:" + ids[0]: "only"}, {"id:" + ids[0]: "only"}),
    ]
    sub = getattr(top, "sub_processes", [])
    if sub:
        part = {}

        def collect(a):
            part[a.id] = a.name
            for x in getattr(a, "sub_processes", []):
                collect(x)

        collect(sub[-1])
        forms.append(([sub[-1]], part))
    for m, names in forms:
        keep = list(m) if isinstance(m, list) else m
        if not compare("one", entries, res, m, names):
            return
        if m != keep:
            res.bad("argument", f"the name map was changed to {m}")
