"""C24: the ready-made transport cycle moves everything."""

import itertools

import simpy

import openclsim.model as model

from ..world import SPEED_FUNCS, make_object, secs
from openclsim.core.movable import Movable

ID = "C24"
LEVEL = "model_checking"
RULE = (
    "every combination of content of the origin, room in the destination, vessel capacity and "
    "initial load, loading and unloading rates and manoeuvring times, own or separate loader "
    "and unloader, initial position, load-dependent speed, start event (none, time, level, "
    "other activity), stop event (none, levels, time, combinations) and two cycles one after "
    "another from small domains; all log entries, levels, trips and the end time are compared "
    "with a direct calculation; a case is one combination"
)
ASSUMPTIONS = [
    "there is something to load, room to unload and room in the vessel in the first round",
    "one vessel at a time works for the origin and the destination",
]
CHUNK = 20


def cases(tier):
    quick = tier == "quick"
    lv = (1, 2, 3, 5) if quick else (0.5, 1, 2, 3, 4, 5, 7)
    room = (1, 2, 4, 5) if quick else (0.5, 1, 2, 3, 4, 5, 6)
    rates = [(1, 1, 0, 0), (2, 0.5, 1, 0), (0.5, 4, 0, 0.5)]
    for o, r, vc in itertools.product(lv, room, (1, 2, 3)):
        for rate in rates:
            for v0, at, crane, speed in itertools.product((0, 0.5), (0, 1, 2), "vlub", ("const10", "lin")):
                base = dict(o=o, r=r, vc=vc, rate=rate, v0=v0, at=at, crane=crane, speed=speed)
                if v0 >= vc or at and (v0 or crane in "lu") and quick:
                    continue
                yield base
                if at == 0 and speed == "const10" and v0 == 0:
                    for se in ("time", "lvl", "act"):
                        yield {**base, "se": se}
                    for stop in ("dge", "ole", "time", "late", "and", "or", "list"):
                        yield {**base, "stop": stop}
                        if not quick:
                            yield {**base, "stop": stop, "se": "time"}
                    yield {**base, "own": True}
                    yield {**base, "extra": True}
                    yield {**base, "t0": 1577836800}


def run_case(c, res):
    t0 = c.get("t0", 0)
    env = simpy.Environment(initial_time=t0)
    reg = {}
    lr, ur, lm, um = c["rate"]
    rate = dict(lr=lr, ur=ur, lm=lm, um=um)
    dl = 1
    mk = lambda **o: make_object(env, o)  # noqa: E731
    O = mk(n="O", k="site", at=0, cap=10, lvl=c["o"])
    D = mk(n="D", k="site", at=1, cap=c["r"] + dl, lvl=dl)
    V = mk(n="V", k="vessel", at=c["at"], cap=c["vc"], lvl=c["v0"], speed=c["speed"], **rate)
    L = mk(n="L", k="site", at=0, cap=1, processor=True, **rate) if c["crane"] in "lb" else V
    U = mk(n="U", k="site", at=1, cap=1, processor=True, **rate) if c["crane"] in "ub" else V
    pos = V.geometry
    other = model.BasicActivity(env=env, registry=reg, name="other", duration=77)
    kw = {}
    start = 0
    if c.get("se") == "time":
        kw["start_event"], start = {"type": "time", "start_time": t0 + 500}, 500
    elif c.get("se") == "act":
        kw["start_event"], start = {"type": "activity", "name": "other", "state": "done"}, 77
    elif c.get("se") == "lvl":
        kw["start_event"] = {"type": "container", "concept": O, "state": "lt", "level": 99}
    stop = c.get("stop")
    con = lambda o, s, l: {"type": "container", "concept": o, "state": s, "level": l}  # noqa: E731
    both = [con(O, "le", 0), con(D, "ge", dl + c["r"])]
    # the calculation
    level = {"O": c["o"], "V": c["v0"], "D": dl}
    T = {"time": 4000.3, "late": 10 ** 6}.get(stop)
    if stop in ("dge", "list"):
        kw["stop_event"] = con(D, "ge", dl + min(1, c["r"]))
        if stop == "list":
            kw["stop_event"] = [kw["stop_event"]]
    elif stop == "ole":
        kw["stop_event"] = [con(O, "le", max(c["o"] - 1, 0))]
    elif T:
        kw["stop_event"] = [{"or": [{"type": "time", "start_time": t0 + T}] + both}]
    elif stop == "and":
        kw["stop_event"] = {"and": [con(O, "lt", c["o"]), con(D, "gt", dl)]}
    elif stop == "or":
        kw["stop_event"] = {"or": both}
    if c.get("own"):
        kw["requested_resources"] = {}
    subs, loop = model.single_run_process(env=env, registry=reg, name="R", origin=O, destination=D,
                                          mover=V, loader=L, unloader=U, **kw)

    def sail(p, q):
        v = SPEED_FUNCS[c["speed"]](level["V"] / c["vc"])
        return Movable.compute_distance(p, q) / v

    t = start
    want = [[], [], [], []]
    p = pos
    bad = None
    while True:
        if level["O"] <= 0 or level["D"] >= dl + c["r"] or level["V"] >= c["vc"]:
            bad = "nothing to do"
            break
        for i in range(4):
            if i in (0, 2):
                q = (O, D)[i // 2].geometry
                d = sail(p, q)
                p = q
                want[i].append((t, t + d))
            elif i == 1:
                a = min(level["O"], c["vc"] - level["V"])
                d = a / lr + 60 * lm
                want[i].append((t, t + d))
                level["O"] -= a
                level["V"] += a
            else:
                a = min(level["V"], dl + c["r"] - level["D"])
                d = a / ur + 60 * um
                want[i].append((t, t + d))
                level["V"] -= a
                level["D"] += a
            t += d
        if T and abs(t - T) < 1:
            res.skipped += 1
            res.notes["simultaneous"] += 1
            return
        full, empty = level["D"] >= dl + c["r"], level["O"] <= 0
        if stop in ("dge", "list"):
            done = level["D"] >= dl + min(1, c["r"])
        elif stop == "ole":
            done = level["O"] <= max(c["o"] - 1, 0)
        elif stop == "and":
            done = True
        else:
            done = full or empty or (T is not None and t >= T)
        if done:
            break
    if bad:
        res.skipped += 1
        res.notes[bad] += 1
        return
    acts = [loop]
    if c.get("se") == "act":
        acts.append(other)
    end = t
    second = None
    if c.get("extra"):
        # a second vessel takes the rest when the first one is done
        W = mk(n="W", k="vessel", at=0, cap=1, lvl=0, lr=1, ur=1)
        if level["O"] > 0 and level["D"] < dl + c["r"] or True:
            X = mk(n="X", k="site", at=0, cap=5, lvl=2)
            _, second = model.single_run_process(
                env=env, registry=reg, name="Q", origin=X, destination=O, mover=W, loader=W,
                unloader=W, start_event={"type": "activity", "name": "R", "state": "done"})
            acts.append(second)
    model.register_processes(acts)
    env.run()
    res.execs += 1
    res.steps += 1
    res.state(str(sorted(c.items())))
    res.outcome(str(want))
    if [type(s).__name__ for s in subs] != ["MoveActivity", "ShiftAmountActivity"] * 2:
        res.bad("steps", f"{[type(s).__name__ for s in subs]}")
        return
    for s, w in zip(subs, want):
        own = [(secs(e["Timestamp"]) - t0, e["ActivityState"]) for e in s.logbook]
        exp = [x for a, b in w for x in ((a, "START"), (b, "STOP"))]
        if len(own) != len(exp) or any(x[1] != y[1] or abs(x[0] - y[0]) > 1e-3
                                       for x, y in zip(own, exp)):
            res.bad("log", f"{s.name}: {own}, expected {exp} for {c}")
            return
    own = [(secs(e["Timestamp"]) - t0, e["ActivityState"]) for e in loop.logbook
           if not e["ActivityLabel"]]
    exp = ([(0, "WAIT_START"), (start, "WAIT_STOP")] if start else []) + [
        (start, "START"), (end, "STOP")]
    if len(own) != len(exp) or any(x[1] != y[1] or abs(x[0] - y[0]) > 1e-3
                                   for x, y in zip(own, exp)):
        res.bad("loop", f"{own}, expected {exp} for {c}")
        return
    if second is not None:
        own = [secs(e["Timestamp"]) - t0 for e in second.logbook
               if not e["ActivityLabel"] and e["ActivityState"] == "START"]
        if len(own) != 1 or abs(own[0] - end) > 1e-3 or second.main_process.is_alive:
            res.bad("second", f"second cycle started at {own}, expected {end}")
            return
        level["O"] += 2
        if len(V.logbook) and any(s.main_process.is_alive for s in subs):
            res.bad("alive", "steps are still waiting")
            return
    for n, o in (("O", O), ("V", V), ("D", D)):
        if abs(o.container.get_level() - level[n]) > 1e-9:
            res.bad("level", f"level of {n} is {o.container.get_level()}, expected {level[n]} for {c}")
            return
    for o in (O, D, V, L, U):
        if o.resource.count or o.resource.queue:
            res.bad("occupied", f"{o.name} is not free at the end for {c}")
            return
    if kw.get("requested_resources"):
        res.bad("occupied", "requested resources are left")
        return
    if second is None and stop != "late" and abs(env.now - t0 - max(end, T or 0)) > 1e-3:
        res.bad("end", f"end at {env.now - t0}, expected {end} for {c}")
