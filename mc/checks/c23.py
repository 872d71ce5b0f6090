"""C23: simulations are reproducible and independent of the start time."""

import itertools
import json
import os
import subprocess
import sys
import time

from ..programs import events, fleets, plugged, trees, competing, thin
from ..world import World, secs

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "every program of the families (trees, start events, competition, delays, weather, fleets): "
    "run twice, run after, before and in every phase of the run of another model (same names, "
    "same identifiers, same weather criterion, other numbers), interleaved step by step with it, "
    "at several start times, in several time zones of the computer, and in fresh interpreters "
    "with several hash seeds in which all models of a group and twins with the same names but "
    "other numbers run in either order; complete logs, levels and end times are compared; a case is one "
    "program with its other model, or one group of programs for all interpreters"
)
ASSUMPTIONS = [
    "durations and start times are multiples of 1/64 s, so that moving the start is exact",
    "generated identifiers (of plugins) are left out of the comparison",
    "hash seeds 0 to 3 (quick: 0 to 1) stand for all others",
]
CHUNK = 10
CASE_LIMIT = 200
ZONES = ("UTC", "Europe/Amsterdam", "America/St_Johns", "Asia/Tokyo")
STARTS = (0, 86400, 1.7e9, 1711846800 - 7, 12345.25, 4.0e9)


def family(tier):
    # (trees come in every form; the others are thinned in the quick tier)
    k = 6 if tier == "quick" else 1
    fams = (trees(tier), events(tier), competing(tier, True), plugged(tier), fleets(tier))
    return list(itertools.chain(*(thin(f, k) for f in fams)))


def cases(tier):
    progs = family(tier)
    for i, sc in enumerate(progs):
        # the other model: a program that looks the same, and one that does not
        yield {"sc": sc, "other": progs[(i * 7 + 3) % len(progs)], "n": i}
    size = 40
    for i in range(0, len(progs), size):
        yield {"tier": tier, "group": [i, size], "seeds": [0, 1] if tier == "quick" else [0, 1, 2, 3]}


def trace(w):
    """Everything observable, relative to the start."""
    out = {}
    for n, o in itertools.chain(w.objs.items(), w.acts.items()):
        es = []
        for e in o.logbook:
            lab = e["ActivityLabel"] or {}
            if lab.get("type") == "plugin":
                lab = {"type": "plugin"}
            es.append((secs(e["Timestamp"]) - w.t0, e["ActivityState"], e["ActivityID"],
                       geo(e["ObjectState"]), str(sorted(lab.items()))))
        out[n] = es
    return out, sorted(w.levels().items()), w.env.now - w.t0, w.error


def geo(state):
    return str(sorted((k, getattr(v, "wkt", v)) for k, v in (state or {}).items()))


def start(sc, **kw):
    w = World(sc, **kw)
    w.register()
    return w


def full(sc, **kw):
    return start(sc, **kw).run(max_steps=50000)


def advance(w, n):
    """At most n steps; True if there is more to do."""
    for _ in range(n):
        try:
            w.env.step()
            w.steps += 1
        except Exception as e:
            if type(e).__name__ != "EmptySchedule":
                w.error = f"{type(e).__name__}: {e}"
            return False
        if w.steps > 50000:
            w.error = "no end"
            return False
    return True


def twist(sc):
    """A model with the same names and identifiers, but other numbers."""
    sc = json.loads(json.dumps(sc))

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "d" and isinstance(v, (int, float)):
                    x[k] = v + 1.5
                elif k == "lvl" and isinstance(v, int):
                    x[k] = v + 1
                elif k == "weather":
                    v["x"] = v["x"][1:] + v["x"][:1]
                elif k == "delay" and not isinstance(v, dict):
                    x[k] = v + 25
                else:
                    go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)

    go(sc)
    return sc


def run_case(case, res):
    if "group" in case:
        return interpreters(case, res)
    sc, n = case["sc"], case["n"]
    base = full(sc)
    want = trace(base)
    res.execs += 1
    res.steps += base.steps
    res.state(str(sc))
    res.outcome(str(want))

    def check(w, what):
        res.execs += 1
        res.steps += w.steps
        got = trace(w)
        if got != want:
            diff = [(k, got[0].get(k), want[0][k]) for k in want[0] if got[0].get(k) != want[0][k]]
            res.bad(what[0], f"{what}: {diff[:1] or (got[1:], want[1:])}")
            return False
        return True

    if not check(full(sc), ("again",)):
        return
    for other in (twist(sc), case["other"]):
        # before
        o = full(other)
        ref = trace(o)
        if not check(full(sc), ("after another model",)):
            return
        # in every phase of the other one, and the other way round
        total = max(base.steps, 1)
        for k in sorted({0, 1, 2, 3, total // 3, total // 2, total - 1}):
            w = start(sc)
            advance(w, k)
            o = full(other)
            while advance(w, 1000):
                pass
            if not check(w, ("interrupted", k)):
                return
            if trace(o) != ref:
                return res.bad("other", f"model run at step {k} of another one differs from itself")
        # step by step
        for a, b in ((1, 1), (2, 1), (1, 3)):
            w, o = (start(sc), start(other)) if a >= b else (start(other), start(sc))[::-1]
            more = True
            while more:
                more = advance(w, a)
                more = advance(o, b) or more
            if not check(w, ("interleaved", a, b)):
                return
            if trace(o) != ref:
                return res.bad("other", f"interleaved model differs from itself ({a}:{b})")
    for t0 in STARTS if n % 4 == 0 else (STARTS[n % 6], STARTS[(n + 3) % 6]):
        if not check(full(sc, t0=t0), ("start time", t0)):
            return
    old = os.environ.get("TZ")
    try:
        for z, t0 in itertools.product(ZONES[n % 4:n % 4 + 1] if n % 8 else ZONES, (0, 1711846800 - 7)):
            os.environ["TZ"] = z
            time.tzset()
            if not check(full(sc, t0=t0), ("time zone", z, t0)):
                return
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


CODE = """
import sys, json
sys.path[:0] = {path!r}
from mc.checks.c23 import both
for n, t in both({tier!r}, {i}, {j}, {back}):
    print(json.dumps([n, t], default=str))
"""


def both(tier, i, j, back):
    """Runs the programs of a group and their twins, forwards or backwards."""
    runs = [(2 * k + x, twist(sc) if x else sc)
            for k, sc in enumerate(family(tier)[i:j]) for x in (0, 1)]
    for n, sc in runs[::-1] if back else runs:
        yield n, trace(full(sc))


def interpreters(case, res):
    i, size = case["group"]
    want = {n: json.dumps(t, default=str) for n, t in both(case["tier"], i, i + size, False)}
    for seed in case["seeds"]:
        code = CODE.format(path=[p for p in sys.path if p], tier=case["tier"], i=i, j=i + size,
                           back=seed % 2 == 1)
        out = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], text=True,
                             capture_output=True, env={**os.environ, "PYTHONHASHSEED": str(seed)})
        if out.returncode:
            raise RuntimeError(f"interpreter failed: {out.stderr[-500:]}")
        got = {n: json.dumps(t) for n, t in map(json.loads, out.stdout.splitlines())}
        res.execs += len(got)
        res.state(i, seed)
        for n in sorted(want):
            if got.get(n) != want[n]:
                return res.bad("fresh", f"in a fresh interpreter (hash seed {seed}): "
                               f"{got.get(n, '')[:600]} instead of {want[n][:600]}, program {i + n // 2}")
