"""C15: exports reproduce the activity tree and its intervals."""

import collections
import contextlib
import io as stdio
import itertools
import os
import tempfile

import pandas as pd

import openclsim.io as oio

from ..ref import expected
from ..trees import build, shapes
from ..world import World, secs, walk

ID = "C15"
LEVEL = "model_checking"
RULE = (
    "every activity tree of up to three leaves (thorough: four) and depth three of sequences, "
    "parallel blocks, loops and basic, move and transfer leaves, as a list, a single activity "
    "and a dictionary, alone and two side by side; before the simulation, after it, and with "
    "an activity that never starts; exported tables and csv files are compared with the tree "
    "and with the intervals of the reference interpreter; a case is one tree shape"
)
ASSUMPTIONS = ["activities of a model have distinct names and identifiers"]
CHUNK = 4
CASE_LIMIT = 120

OBJ = [{"n": "S", "k": "site", "cap": 90, "lvl": 50, "nr": 20},
       {"n": "V", "k": "vessel", "cap": 90, "lvl": 20, "nr": 20},
       {"n": "W", "k": "site", "cap": 90, "lvl": 0, "nr": 20}]


def leaf(kind, d):
    if kind == "b":
        return {"t": "basic", "d": d, "logs": ["S"]}
    if kind == "s":
        return {"t": "shift", "proc": "V", "org": "S", "dst": "V", "amt": 1, "d": d}
    if kind == "u":
        return {"t": "shift", "proc": "V", "org": "V", "dst": "W", "amt": 1, "d": d}
    return {"t": "move", "mover": "V", "dest": "W", "d": d}


def cases(tier):
    quick = tier == "quick"
    kinds = ("seq", "par", "rep2")
    few = ("rep2",)
    plan = [(1, 3, kinds), (2, 2, kinds), (2, 3, few), (3, 2, few)]
    if not quick:
        plan += [(2, 3, kinds), (3, 2, kinds), (3, 3, few), (4, 2, few)]
    seen = set()
    for n, d, unary in plan:
        for s in shapes(n, d, kinds, unary):
            if s not in seen:
                seen.add(s)
                yield {"shape": s, "quick": quick}
    for k in (120, 350) if quick else (120, 350, 1500):
        yield {"rounds": k}


def is_none(x):
    return x is None or x is pd.NaT or x != x


COLUMNS = ["ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName",
           "ParentLevel", "OriginID", "OriginName", "DestinationID", "DestinationName",
           "ProcessorID", "ProcessorName", "MoverID", "MoverName"]
LOG_COLUMNS = ["trip", "ActivityID", "ActivityName", "ActivityClass", "TimestampStart",
               "TimestampStop", "TimestampDt"]


def tree_rows(specs, parent=None, level=0):
    for s in specs:
        yield s["n"], parent, level
        yield from tree_rows(s.get("sub", []), s["n"], level + 1)


CLS = {"basic": "BasicActivity", "move": "MoveActivity", "shift": "ShiftAmountActivity",
       "seq": "SequentialActivity", "par": "ParallelActivity", "rep": "RepeatActivity"}


def roles(a):
    r = {}
    if a["t"] == "move":
        r = {"mover": a["mover"], "destination": a["dest"]}
    if a["t"] == "shift":
        r = {"processor": a["proc"], "origin": a["org"], "destination": a["dst"]}
    return r


def check_tree(w, arg, specs, res):
    exp = collections.Counter()
    for n, par, lev in tree_rows(specs):
        exp["id:" + n, n, CLS[w.specs[n]["t"]], par and "id:" + par, par or "", lev] += 1
    fs = [oio.get_tree_as_list(arg)]
    path = tempfile.mktemp(suffix=".csv", dir=_tmp())
    df = oio.get_activities(arg, ofile=path)
    fs.append({k: list(df[k]) for k in df})
    csv = pd.read_csv(path)
    os.unlink(path)
    if set(csv) != set(COLUMNS) or len(csv.columns) != len(COLUMNS):
        return "columns", f"columns of the tree in the file: {list(csv)}"
    fs.append({k: list(csv[k]) for k in csv})
    for k, f in enumerate(fs):
        got = collections.Counter(
            (i, n, c, None if is_none(pi) else pi, "" if is_none(pn) else pn, int(lv))
            for i, n, c, pi, pn, lv in zip(f["ActivityID"], f["ActivityName"],
                                           f["ActivityClass"], f["ParentId"],
                                           f["ParentName"], f["ParentLevel"]))
        if got != exp:
            return ("tree", f"export {k}: {sorted(map(str, got))} expected {sorted(map(str, exp))}")
        if "activity" in f and [a.id for a in f["activity"]] != list(f["ActivityID"]):
            return "tree", "the activities are not those of their rows"
    by = {i: r for i, r in zip(df["ActivityID"], df.to_dict("records"))}
    bc = {i: r for i, r in zip(csv["ActivityID"], csv.to_dict("records"))}
    want = collections.Counter()
    for n, _, _ in tree_rows(specs):
        ro = roles(w.specs[n])
        for role in ("processor", "mover", "origin", "destination"):
            o = ro.get(role)
            for tab in (by, bc):
                r = tab["id:" + n]
                a, b = r[role.capitalize() + "ID"], r[role.capitalize() + "Name"]
                got = (None if is_none(a) else a, "" if is_none(b) else b)
                if got != ((o and "id:" + o), o or ""):
                    return "roles", f"{role} of {n} exported as {got}, is {o}"
            if o:
                want["id:" + n, n, CLS[w.specs[n]["t"]], "id:" + o, o, role] += 1
    path = tempfile.mktemp(suffix=".csv", dir=_tmp())
    df = oio.get_activity_resources(arg, ofile=path)
    csv = pd.read_csv(path)
    os.unlink(path)
    keys = ["ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName",
            "ConceptMode"]
    for d in (df, csv):
        if set(d) != set(keys) or len(d.columns) != len(keys):
            return "columns", f"columns of the roles: {list(d)}"
        got = collections.Counter(map(tuple, d[keys].values.tolist()))
        if got != want:
            return "roles", f"roles {sorted(got)} expected {sorted(want)}"
    res.outcome(str(sorted(map(str, exp))))


def _tmp():
    d = os.environ.get("MC_TMP") or tempfile.gettempdir()
    return d


def rows_of(df, idcol):
    out = collections.Counter()
    for r in df.to_dict("records"):
        b, dt = r["TimestampStop"], r["TimestampDt"]
        out[r[idcol], secs(pd.Timestamp(r["TimestampStart"])),
            None if is_none(b) else secs(pd.Timestamp(b)), None if is_none(dt) else dt] += 1
    return out


def from_ref(exp, n):
    """Intervals of n and of its steps from the reference result."""
    iv, wt, st = exp
    out = []
    for a, b in iv[n]:
        out.append((a, b))
    steps = {}
    for t, what, k in st[n]:
        steps.setdefault(k, {"START": [], "STOP": []})[what].append(t)
    for k, d in steps.items():
        for i, a in enumerate(d["START"]):
            out.append((a, d["STOP"][i] if i < len(d["STOP"]) else None))
    return out


def dt(a, b):
    return None if b is None else b - a


def check_log(w, arg, specs, exp, res, each=True):
    total = collections.Counter()
    for n, _, _ in tree_rows(specs):
        want = collections.Counter(
            ("id:" + n, a, b, dt(a, b)) for a, b in from_ref(exp, n))
        total += want
        if not each:
            continue
        df = oio.get_ranges_dataframe(w.acts[n])
        got = rows_of(df, "Activity")
        if got != want:
            return "ranges", f"ranges of {n}: {sorted(map(str, got))} expected {sorted(map(str, want))}"
        if list(df["TimestampStart"]) != sorted(df["TimestampStart"]):
            return "ranges", "ranges are not in chronological order"
        if n != specs[0]["n"]:
            continue
        named = rows_of(oio.get_ranges_dataframe(w.acts[n], [w.acts[n]]), "Activity")
        if named != collections.Counter({(n, *k[1:]): v for k, v in want.items()}):
            return "names", f"named ranges of {n}: {sorted(map(str, named))}"
    path = tempfile.mktemp(suffix=".csv", dir=_tmp())
    df = oio.get_activity_log(arg, ofile=path)
    csv = pd.read_csv(path)
    os.unlink(path)
    if set(csv) != set(LOG_COLUMNS) or len(csv.columns) != len(LOG_COLUMNS):
        return "columns", f"columns of the log in the file: {list(csv)}"
    for d in (df, csv):
        got = rows_of(d, "ActivityID")
        if got != total:
            return "log", f"activity log {sorted(map(str, got))} expected {sorted(map(str, total))}"
        for r in d.to_dict("records"):
            n = r["ActivityID"][3:]
            if (r["ActivityName"], r["ActivityClass"]) != (n, CLS[w.specs[n]["t"]]):
                return "log", f"name or class of {r}"
    if not each:
        return
    # objects: one interval per execution of each activity that logs to them
    for o in w.objs:
        want = collections.Counter()
        for s in walk(specs):
            if o in s.get("logs", []) or o in roles(s).values() and not (
                    s["t"] == "move" and o == s["dest"]):
                for a, b in exp[0][s["n"]]:
                    want["id:" + s["n"], a, b, dt(a, b)] += 1
        got = rows_of(oio.get_ranges_dataframe(w.objs[o]), "Activity")
        if got != want:
            return "object", f"ranges of {o}: {sorted(map(str, got))} expected {sorted(map(str, want))}"
    res.outcome(str(sorted(map(str, total))))


def concepts(w):
    for arg in (dict(w.objs), list(w.objs.values())):
        for ns in ("C", ""):
            path = tempfile.mktemp(suffix=".csv", dir=_tmp())
            df = oio.get_concepts(arg, namespace=ns, ofile=path)
            csv = pd.read_csv(path)
            os.unlink(path)
            want = {ns + "Name": list(w.objs), ns + "ID": ["id:" + n for n in w.objs],
                    ns + "Class": [type(o).__name__ for o in w.objs.values()]}
            for d in (df, csv):
                if d.to_dict("list") != want:
                    return "concepts", f"{d.to_dict('list')} expected {want}"


def run_case(case, res):
    if "rounds" in case:  # long loops
        for kind, d in itertools.product("bs", (1, 3600.25)):
            k = case["rounds"] if kind == "b" else 30
            one([{"t": "rep", "k": k, "n": "r", "sub": [{**leaf(kind, d), "n": "a"}]}], None, res)
        return
    shape, quick = case["shape"], case["quick"]
    n = str(shape).count("L")
    if quick:
        combos = {1: ["b", "s", "u", "m"], 2: ["bs", "um", "su"], 3: ["bsm", "sub"]}[n]
    else:
        combos = ["".join(c) for c in itertools.product("bsum", repeat=n)]
        if n > 2:
            combos = [c for c in combos if len(set(c)) == n][:: 2 if n == 3 else 5]
    # seconds, days with fractions, no time at all
    durs = [(1,) * n, (90000.25, 45000.5, 200000.75, 0.25)[:n], (0,) * n]
    for combo in combos:
        for ds in durs if combo == combos[0] or not quick else durs[1:2]:
            sp = build(shape, lambda i: leaf(combo[i], ds[i]))
            side = {"t": "seq", "n": "side", "sub": [{"t": "basic", "n": "s0", "d": 1},
                                                     {"t": "basic", "n": "s1", "d": 2}]}
            variants = [([sp], None)]
            if (combo == combos[0] or not quick) and any(ds):
                variants.append(([sp, side], None))
                if ds != durs[0] or not quick:
                    variants += [([sp, side], f"a{i}") for i in range(n)]
                if not quick:
                    variants += [([side, sp], "s1")]
            for specs, block in variants:
                if not one(specs, block, res):
                    return


def one(specs, block, res):
    import copy

    specs = copy.deepcopy(specs)
    if block:
        for s in walk(specs):
            if s["n"] == block:
                s["se"] = {"full": ["W", "default"]}
    sc = {"objs": OBJ, "acts": specs}
    exp, why = expected(sc)
    if exp is None:
        res.skipped += 1
        res.notes[why] += 1
        return True
    w = World(sc)
    n_acts = len(w.acts)
    forms = [w.tops, {a.name: a for a in w.tops}]
    if len(w.tops) == 1:
        forms.append(w.tops[0])
    hidden = stdio.StringIO()
    with contextlib.redirect_stdout(hidden):
        bad = None
        for f in forms:
            bad = bad or check_tree(w, f, specs, res)
        empty = ({k: [] for k in exp[0]},) * 3
        bad = bad or check_log(w, w.tops, specs, empty, res, False)
        w.register()
        w.run()
        for f in forms:
            bad = bad or check_tree(w, f, specs, res)
            if f is forms[0] or n_acts < 4:
                bad = bad or check_log(w, f, specs, exp, res, f is forms[0])
        bad = bad or concepts(w)
    res.execs += 1
    res.steps += w.steps
    res.state(str(sc))
    if w.error:
        bad = ("error", w.error)
    if bad:
        res.bad(*bad)
        return False
    return True
