"""C19: plugins act once per execution, in priority order; delays prolong."""

import itertools

from ..world import World

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "every set of up to three plugins with every assignment of priorities (below, equal to and "
    "above those of the built-in plugins), with and without a delay and a weather limit, on "
    "every kind of activity; every combination of delay percentage, duration, kind of activity "
    "and surroundings (alone, followed by another step, in nested loops, with a competitor for "
    "the vessel, on nested levels at once); the calls each plugin receives, all log entries, "
    "the occupation of the objects at every moment and the end time are compared with a "
    "sequential reference model; a case is one program"
)
ASSUMPTIONS = [
    "a delay of zero may or may not be logged as an empty wait",
    "nobody but the competitor of the stated cases wants the objects",
]
CHUNK = 20

OBJS = [
    {"n": "S", "k": "site", "cap": 90, "lvl": 50},
    {"n": "V", "k": "vessel", "cap": 90, "lvl": 10},
]
CALM = 10
WEATHER = {"ts": list(range(0, 300, 5)), "x": [5] * 2 + [0] * 58, "len": 4, "max": 1}
KINDS = ("basic", "move", "load", "unload", "seq", "par", "rep", "while")
PRIOS = (None, -1, 1, 2, 3, 4)


def act(kind, n, d, pl):
    p = {"pl": pl} if pl else {}
    if kind == "basic":
        return {"t": "basic", "n": n, "d": d, **p}
    if kind == "move":
        return {"t": "move", "n": n, "mover": "V", "dest": "S", "d": d, **p}
    if kind in ("load", "unload"):
        o, t = ("S", "V") if kind == "load" else ("V", "S")
        return {"t": "shift", "n": n, "proc": "V", "org": o, "dst": t, "d": d, "amt": 1, **p}
    sub = [{"t": "basic", "n": n + ".x", "d": d}, {"t": "basic", "n": n + ".y", "d": 1}]
    if kind == "while":
        return {"t": "while", "n": n, "sub": sub, "cond": {"lvl": ["S", "ge", 0, "default"]}, **p}
    return {"t": kind, "n": n, "sub": sub, **({"k": 2} if kind == "rep" else {}), **p}


def cases(tier):
    quick = tier == "quick"
    extras = [{}, {"delay": 50}, {"weather": WEATHER}, {"delay": 50, "weather": WEATHER}]
    for k in range(4):
        for prio in itertools.product(PRIOS[:5] if quick and k == 3 else PRIOS, repeat=k):
            rec = [{"n": f"p{i}", "pre": (0, 2, 1)[i], "post": (1, 0, 3)[i],
                    **({} if q is None else {"prio": q})} for i, q in enumerate(prio)]
            for kind in KINDS:
                for ex in extras:
                    yield {"acts": [act(kind, "A", 3, {**ex, "rec": rec})]}
    # delays
    one = [{"n": "p", "pre": 1, "post": 2, "prio": 1}, {"n": "q", "pre": 2, "post": 1, "prio": 7}]
    for pct in (0, 10, 25, 50, 100, 150) if quick else (0, 1, 10, 25, 33, 50, 75, 100, 150, 1000):
        for d in (0, 0.5, 1, 4) if quick else (0, 0.25, 0.5, 1, 2, 3, 4, 7):
            for kind in KINDS:
                for rec in ([], one, one[:1]):
                    for w in ({}, {"weather": WEATHER}):
                        pl = {"delay": pct, "rec": rec, **w}
                        a = act(kind, "A", d, pl)
                        b = act("move", "B", 2, {"rec": one[:1]})
                        yield {"acts": [{"t": "seq", "n": "s", "sub": [a, b]}]}
                        yield {"acts": [{"t": "rep", "n": "s", "k": 3, "sub": [b, a]}]}
                        yield {"acts": [{"t": "rep", "n": "r", "k": 2, "sub": [
                            {"t": "rep", "n": "s", "k": 2, "sub": [a], "pl": {"delay": pct}},
                            b]}]}
                        yield {"acts": [{"t": "par", "n": "s", "sub": [
                            a, act("basic", "B", 2, {"delay": 25, "rec": one})],
                            "pl": {"delay": 10, "rec": one[1:]}}]}
                        if kind in ("move", "load", "unload"):
                            for t in (1, 3):
                                c = {**act("move", "C", 2, {"rec": one[1:]}), "se": {"time": t}}
                                yield {"acts": [a, c]}


class Model:
    """Executes the program; no competition except for V, first come first served."""

    def __init__(self):
        self.calls, self.iv, self.waits, self.busy = [], {}, {}, []

    def plugins(self, a):
        pl = a.get("pl", {})
        ps = []
        if "weather" in pl:
            ps.append((2, "weather", None))
        if "delay" in pl:
            ps.append((3, "delay", pl["delay"]))
        for r in pl.get("rec", []):
            ps.append((r.get("prio", 0), "rec", r))
        return sorted(ps, key=lambda p: p[0])

    def run(self, a, t):
        n = a["n"]
        t0 = t
        ps = self.plugins(a)
        for _, k, x in ps:
            if k == "rec":
                self.calls.append((t, "pre", x["n"], n))
                t += x.get("pre", 0)
            elif k == "weather" and t < CALM:
                self.waits.setdefault((n, "waiting on weather"), []).append((t, CALM))
                t = CALM
        t1 = t
        if a["t"] in ("basic", "move", "shift"):
            t += a["d"]
        elif a["t"] == "par":
            t = max(self.run(s, t) for s in a["sub"])
        else:
            for _ in range(a.get("k", 1) if a["t"] == "rep" else 1):
                for s in a["sub"]:
                    t = self.run(s, t)
        self.iv.setdefault(n, []).append((t1, t))
        for _, k, x in ps:
            if k == "rec":
                self.calls.append((t, "post", x["n"], n, t0, t1))
                t += x.get("post", 0)
            elif k == "delay":
                d = (t - t1) * x / 100
                if d > 0:
                    self.waits.setdefault((n, "delay"), []).append((t, t + d))
                t += d
        if a["t"] == "move":
            self.busy.append(("V", t0, t))
        elif a["t"] == "shift":
            self.busy += [("V", t0, t), ("S", t0, t)]
        return t


def near(a, b):
    return len(a) == len(b) and all(
        abs(x - y) < 1e-5 if not isinstance(x, str) else x == y
        for p, q in zip(a, b) for x, y in zip(p, q)) and all(
        len(p) == len(q) for p, q in zip(a, b))


def run_case(case, res):
    m = Model()
    if len(case["acts"]) == 2:  # a competitor takes the vessel when it is free
        a, c = case["acts"]
        free = m.run(a, 0)
        t = c["se"]["time"]
        if free == t:
            res.skipped += 1
            res.notes["simultaneous"] += 1
            return
        end = max(m.run(c, max(t, free)), free)
    else:
        end = m.run(case["acts"][0], 0)
    w = World({"objs": OBJS, "acts": case["acts"]})
    w.register()
    seen = []

    def mon(w):
        if w.env.peek() > w.env.now:
            seen.append((w.env.now, {n: o.resource.count for n, o in w.objs.items()}))

    w.run(mon)
    res.execs += 1
    res.steps += w.steps
    res.state(str(case))
    res.outcome(str(m.calls), str(m.iv), end)
    if w.error:
        res.bad("error", w.error)
        return
    names = {c[2:4] for c in m.calls}
    for p, n in names:
        g = [c for c in w.plugin_calls if c[2:4] == (p, n)]
        e = [c for c in m.calls if c[2:4] == (p, n)]
        if not near(g, e):
            res.bad("calls", f"plugin {p} of {n} got {g}, expected {e}")
            return
    for n in {c[3] for c in m.calls}:
        g = [c[1:3] for c in w.plugin_calls if c[3] == n]
        e = [c[1:3] for c in m.calls if c[3] == n]
        if g != e:
            res.bad("order", f"plugins of {n} were called in the order {g}, expected {e}")
            return
    if len(w.plugin_calls) != len(m.calls):
        res.bad("calls", f"{len(w.plugin_calls)} calls, expected {len(m.calls)}")
        return
    for n in w.acts:
        g, e = w.intervals(n), sorted(m.iv[n])
        if not near(g, e):
            res.bad("intervals", f"intervals of {n}: {g}, expected {e}")
            return
        for label in ("delay", "waiting on weather"):
            g = [x for x in w.waits(n, label) if x[0] is None or x[0] != x[1]]
            e = sorted(m.waits.get((n, label), []))
            if not near(g, e):
                res.bad("waits", f"{label} of {n}: {g}, expected {e}")
                return
    if abs(w.env.now - end) > 1e-5:
        res.bad("end", f"end at {w.env.now}, expected {end}")
        return
    for t, counts in seen:
        for o in ("V", "S"):
            inside = any(b == o and x - 1e-7 <= t < y - 1e-7 for b, x, y in m.busy)
            edge = any(b == o and (abs(t - x) < 1e-7 or abs(t - y) < 1e-7) for b, x, y in m.busy)
            if counts[o] != inside and not edge:
                res.bad("occupied", f"at {t} {o} has {counts[o]} users, expected {int(inside)}")
                return
    if any(o.resource.count for o in w.objs.values()):
        res.bad("occupied", "objects are not free at the end")
