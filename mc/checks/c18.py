"""C18: weather-bound activities start in the first suitable window."""

import itertools

import openclsim.plugins as plugins

from ..world import World

ID = "C18"
LEVEL = "model_checking"
RULE = (
    "every series of two to five (thorough: seven) records over {inside, exactly at, outside} "
    "the limit (positive, zero, negative), with regular and irregular record times, as a "
    "maximum and as a minimum, all "
    "window lengths and delays and all due times on the half-step grid from before the record "
    "to three records beyond its end; on basic, move, transfer and composite activities and in "
    "loops; starts and waits in the logs are compared with a brute-force search for the first "
    "suitable moment; activities without a criterion or a table are not held up; exactly one "
    "limit is accepted; a case is one series"
)
ASSUMPTIONS = [
    "a window lies within one copy of the record; the last record only marks its end",
    "window lengths do not coincide exactly with the length of a calm spell",
    "criteria that no part of the record satisfies are not used",
]
CHUNK = 4
CASE_LIMIT = 120

TS = {
    2: [(0, 2), (1, 4)], 3: [(0, 1, 2), (2, 5, 6)], 4: [(0, 1, 2, 3), (1, 2, 4, 8)],
    5: [(0, 1, 2, 3, 4), (1, 3, 4, 6, 9)], 6: [(0, 1, 2, 4, 5, 6)], 7: [(2, 3, 4, 6, 7, 9, 10)],
}


def cases(tier):
    quick = tier == "quick"
    yield {"limits": True}
    for n in (2, 3, 4, 5) if quick else (2, 3, 4, 5, 6, 7):
        for x in itertools.product("iab", repeat=n):
            for ts in TS[n]:
                if quick and n == 5 and ts != TS[n][x.count("a") % 2]:
                    continue
                if n == 7 and x.count("a") > 1:
                    continue
                yield {"x": "".join(x), "ts": ts, "quick": quick}


def runs(x, ts):
    """Maximal calm spells of one copy of the record."""
    out = []
    i = 0
    while i < len(x):
        if x[i] == "b":
            i += 1
            continue
        j = i
        while j + 1 < len(x) and x[j + 1] != "b":
            j += 1
        out.append((ts[i], ts[min(j + 1, len(ts) - 1)]))
        i = j + 1
    return out


def first(x, ts, length, delay, due):
    """Brute force: the first moment on the quarter grid that is suitable."""
    if "b" not in x:
        return max(due, ts[0])
    rs = [r for r in runs(x, ts) if r[1] - r[0] > length]
    if not rs:
        return None
    period = ts[-1] - ts[0]
    s = due
    while True:
        a, b = s + delay, s + delay + length
        k = 0
        while ts[0] + k * period <= b:
            for r in rs:
                if r[0] + k * period <= a and b <= r[1] + k * period:
                    return s
            k += 1
        s += 0.25


VAL = {"max": {"i": 1.0, "a": 2.0, "b": 3.5}, "min": {"i": 3.5, "a": 2.0, "b": 1.0}}


def criterion(x, ts, kind, length, delay, limit=2.0):
    return {"ts": list(ts), "x": [VAL[kind][c] - 2 + limit for c in x], "len": length,
            "delay": delay, kind: limit}


OBJ = [{"n": "S", "k": "site", "cap": 90, "lvl": 50, "nr": 99},
       {"n": "V", "k": "vessel", "cap": 90, "lvl": 20, "nr": 99}]


def activity(kind, n, w, due, d=1):
    a = {"n": n, "se": {"time": due}, "pl": {"weather": w}}
    if kind == "basic":
        a.update(t="basic", d=d)
    elif kind == "move":
        a.update(t="move", mover="V", dest="S", d=d)
    elif kind == "shift":
        a.update(t="shift", proc="V", org="S", dst="V", amt=1, d=d)
    else:
        a.update(t=kind, sub=[{"t": "basic", "n": n + "x", "d": d}])
        if kind == "rep":
            a["k"] = 2
    return a


def run_limits(res):
    """Exactly one limit is accepted."""
    for mx, mn in itertools.product((None, -1, 0, 0.0, 2), repeat=2):
        res.execs += 1
        res.state("limits", mx, mn)
        try:
            c = plugins.WeatherCriterion(name="n", condition="Hs", window_length=1, maximum=mx,
                                         minimum=mn)
            err = None
        except Exception as e:
            err = e
        if (err is None) != ((mx is None) != (mn is None)):
            res.bad("limits", f"maximum {mx} minimum {mn}: {err!r}")
            return
        if err is None and (c.maximum != mx or c.minimum != mn):
            res.bad("limits", f"maximum {mx} minimum {mn} became {c.maximum} {c.minimum}")


def run_case(case, res):
    if "limits" in case:
        return run_limits(res)
    x, ts, quick = case["x"], case["ts"], case["quick"]
    period = ts[-1] - ts[0]
    lens = (0.5, 1.25, 2.5)
    delays = (0, 1, 0.5) if not quick else (0, 0.75)
    kinds = ["basic", "move", "shift", "seq", "par", "rep"]
    turn = 0
    for lim, length, delay in itertools.product(("max", "min"), lens, delays):
        if first(x, ts, length, delay, 0) is None:
            res.skipped += 0
            res.notes["no window in the record"] += 1
            continue
        w = criterion(x, ts, lim, length, delay, (2.0, 0, -1)[turn % 3])
        last = ts[-1] + (1.2 if quick else 3) * period
        dues = [i * 0.5 for i in range(0, int(last * 2) + 1)]
        if "b" not in x and delay:
            dues = [d for d in dues if d >= ts[0]]
        if quick and len(x) == 5:
            dues = dues[turn % 2::2] + [15 * period + ts[0] + 0.5]
        else:
            dues = dues + [15 * period + ts[0] + 0.5]
        turn += 1
        acts, want = [], {}
        for i, due in enumerate(dues):
            kind = kinds[(i + turn) % 6]
            acts.append(activity(kind, f"a{i}", w, due))
            want[f"a{i}"] = (due, first(x, ts, length, delay, due), kind)
        for i, lack in enumerate(("nodf", "nocrit")):  # weather does not matter
            due = dues[(i + turn) % len(dues)]
            acts.append(activity(kinds[(i + turn) % 6], f"b{i}", {**w, lack: True}, due))
            want[f"b{i}"] = (due, due, kinds[(i + turn) % 6])
        if not judge({"objs": OBJ, "acts": acts}, want, res, f"{lim} {length} {delay}"):
            return
    # in a loop: every round is due when the previous one ends
    for lim, length, d in itertools.product(("max", "min"), (0.5, 1.25), (0.5, 1.5)):
        delay = 0 if lim == "max" else 0.5
        if first(x, ts, length, delay, 0) is None or ("b" not in x and ts[0]):
            continue
        a = {"t": "basic", "n": "w", "d": d, "pl": {"weather": criterion(x, ts, lim, length, delay)}}
        sc = {"acts": [{"t": "rep", "k": 6, "n": "r", "sub": [a, {"t": "basic", "n": "b", "d": 0.25}]}]}
        w = World(sc)
        w.register()
        w.run()
        res.execs += 1
        res.steps += w.steps
        t, iv, wt = 0, [], []
        for _ in range(6):
            s = first(x, ts, length, delay, t)
            if s > t:
                wt.append((t, s))
            iv.append((s, s + d))
            t = s + d + 0.25
        if w.error or w.intervals("w") != iv or waits(w, "w") != wt:
            res.bad("loop", f"{w.error} {lim} {length}: {w.intervals('w')} {waits(w, 'w')}, "
                    f"expected {iv} {wt}")
            return


def waits(w, n):
    return w.waits(n, "waiting on weather")


def judge(sc, want, res, how):
    w = World(sc)
    w.register()
    w.run()
    res.execs += len(want)
    res.steps += w.steps
    if w.error:
        res.bad("error", f"{how}: {w.error}")
        return False
    for n, (due, s, kind) in want.items():
        got = w.intervals(n)
        exp = [(due, s)] if s > due else []
        res.state(str(sc["acts"][0]["pl"]), due)
        if [g[0] for g in got] != [s] or got[0][1] is None:
            res.bad("start", f"{how}: {kind} due at {due} runs {got}, expected start {s}")
            return False
        if waits(w, n) != exp:
            res.bad("wait", f"{how}: {kind} due at {due} logs waits {waits(w, n)}, expected {exp}")
            return False
        res.outcome(due, s)
    return True
