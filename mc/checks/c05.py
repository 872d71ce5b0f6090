"""C05: a transfer moves the right amount in the right time."""

import itertools

from ..world import RATE_FUNCS, MonitorViolation, World

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "every combination of content, capacities and level, requested amount, product, phase, "
    "duration or rate (constant or level dependent) and manoeuvring time from small domains; "
    "the levels right after START, right before STOP and at the end and the duration are "
    "compared with the formula; a second transfer checks the same from changed levels; a "
    "case is one configuration of objects and rates, non-trivial if it ran"
)
ASSUMPTIONS = [
    "amounts and levels are multiples of a half up to 6; the vessel is at the site",
    "transfers with an empty origin or a full destination are refused (not part of this check)",
]
CHUNK = 6
EPS = 1e-6

TIMES = [
    {"d": 0}, {"d": 7}, {"d": 1.25},
    {"rate": 2.0}, {"rate": 0.5, "man": 1.5}, {"rate": 4, "man": 0.25},
    {"rate": "quad"}, {"rate": "from", "man": 0.5}, {"rate": "from"},
]


def cases(tier):
    quick = tier == "quick"
    amts = [None, 0.5, 1, 2, 3, 5] if quick else [None, 0.5, 1, 1.5, 2, 3, 4, 5, 6, 8]
    for tm in TIMES:
        for phase in ("loading", "unloading"):
            for product in (None, 0, 1):
                for proc in ("vessel", "crane"):
                    for slots in (1, 2):
                        yield {"tm": tm, "phase": phase, "product": product, "proc": proc,
                               "amts": amts, "slots": slots}


def build(case, olvl, dcap, dlvl, amt, second):
    load = case["phase"] == "loading"
    tm = case["tm"]
    p = case["product"]

    def cont(cap, lvl):
        if p is None:
            return {"cap": cap, "lvl": lvl}
        prods = [["x", 9, 2], ["y", 9, 3]]
        prods[p] = ["xy"[p], cap, lvl]
        return {"multi": prods, "store": 3}

    rates = {}
    if "rate" in tm:
        # the other phase has other figures, so that a mix-up shows
        rates = {"lr": 3.0, "ur": 3.0, "lm": 7, "um": 7}
        if load:
            rates.update(lr=tm["rate"], lm=tm.get("man", 0))
        else:
            rates.update(ur=tm["rate"], um=tm.get("man", 0))
    nr = case["slots"]
    src = {"n": "S" if load else "V", "nr": nr, **cont(20, olvl)}
    dst = {"n": "V" if load else "S", "nr": nr, **cont(dcap, dlvl)}
    objs = []
    for o in (src, dst):
        if o["n"] == "V":
            objs.append({**o, "k": "vessel", **rates})
        else:
            objs.append({**o, "k": "site"})
    proc = "V"
    if case["proc"] == "crane":
        proc = "X"
        objs.append({"n": "X", "k": "site", "cap": 1, "lvl": 0, "processor": True, **rates})
    act = {"t": "shift", "proc": proc, "org": src["n"], "dst": dst["n"]}
    if amt is not None:
        act["amt"] = amt
    if p is not None:
        act["id"] = "xy"[p]
    if "d" in tm:
        act["d"] = tm["d"]
    else:
        act["phase"] = case["phase"]
    acts = [{**act, "n": "T"}]
    if second:
        acts = [{"t": "seq", "n": "Q", "sub": [{**act, "n": "T"}, {**act, "n": "U"}]}]
    return {"objs": objs, "acts": acts}


def duration(case, amount, before_vessel):
    tm = case["tm"]
    if "d" in tm:
        return tm["d"]
    man = 60 * tm.get("man", 0)
    if isinstance(tm["rate"], str):
        after = before_vessel + (amount if case["phase"] == "loading" else -amount)
        return RATE_FUNCS[tm["rate"]](before_vessel, after) + man
    return amount / tm["rate"] + man


class Track:
    """Levels at every quiescent instant."""

    def __init__(self, w):
        self.h = []

    def __call__(self, w):
        if w.env.peek() > w.env.now:
            self.h.append((w.env.now, w.levels()))


def one(case, olvl, dcap, dlvl, amt, second, res):
    sc = build(case, olvl, dcap, dlvl, amt, second)
    w = World(sc)
    start = w.levels()
    w.register()
    tr = Track(w)
    w.run(tr)
    res.execs += 1
    res.steps += w.steps
    res.state(str(sc))
    act = sc["acts"][0]["sub"][0] if second else sc["acts"][0]
    i = act.get("id", "default")
    org, dst = (act["org"], i), (act["dst"], i)
    vessel = ("V", i)
    if w.error:
        return res.bad("error", f"{w.error} for {sc}")
    t = 0.0
    lv = dict(start)
    for n in ("T", "U") if second else ("T",):
        want = min(x for x in (amt, lv[org], dcap - lv[dst]) if x is not None)
        d = duration(case, want, lv[vessel])
        iv = w.intervals(n)
        if len(iv) != 1 or iv[0][1] is None:
            return res.bad("count", f"{n} has intervals {iv} for {sc}")
        if abs(iv[0][0] - t) > EPS or abs(iv[0][1] - t - d) > EPS:
            return res.bad("duration", f"{n} moving {want} lasts {iv[0]}, expected {t} to {t + d} "
                           f"for {sc}")
        during = [x for tt, x in tr.h if t <= tt < t + d]
        if d > 0:
            exp = dict(lv)
            exp[org] -= want
            if not during or any(abs(x[k] - exp[k]) > EPS for x in during for k in exp):
                return res.bad("during", f"levels while {n} is under way: {during}, expected {exp} "
                               f"for {sc}")
        lv[org] -= want
        lv[dst] += want
        t += d
    end = w.levels()
    if any(abs(end[k] - lv[k]) > EPS for k in lv):
        return res.bad("amount", f"final levels {end}, expected {lv} for {sc}")
    res.outcome(case["phase"], str(case["tm"]), want)


def run_case(case, res):
    for olvl, dcap in itertools.product((0.5, 1, 3, 5), (1, 2, 4, 6)):
        for dlvl in (0, 0.5, 1, 3):
            if dlvl >= dcap:
                continue
            for amt in case["amts"]:
                one(case, olvl, dcap, dlvl, amt, False, res)
                if amt is not None and 2 * amt <= olvl and 2 * amt <= dcap - dlvl:
                    one(case, olvl, dcap, dlvl, amt, True, res)
                if res.violations:
                    return
