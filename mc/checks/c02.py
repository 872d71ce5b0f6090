"""C02: level conditions are signalled exactly when they hold."""

import itertools
import operator

import simpy

from ..world import core

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "every sequence of puts, gets, condition requests, single simulation steps and "
    "settling/passing of time up to the stated depth is executed on the real container; "
    "after every operation each requested event is compared with the history of the level"
)
ASSUMPTIONS = [
    "time only passes after everything of the current instant has been processed (simpy's rule)",
    "amounts 1 and 2, levels 0 to 4, thresholds 0 to 3; amounts and thresholds with fractions",
]
CHUNK = 2

PRODS = [("a", 2, 1), ("b", 3, 0)]

CONDS = {
    "ge1": ("ge", 1), "gt1": ("gt", 1), "le1": ("le", 1), "lt1": ("lt", 1),
    "ge2": ("ge", 2), "lt2": ("lt", 2),
    "ge2.5": ("ge", 2.5), "gt1.25": ("gt", 1.25), "le.001": ("le", 0.001), "lt.25": ("lt", 0.25),
}


def alphabet(kind):
    if kind == "one":  # one product, many conditions
        al = [("put", "a", 1), ("get", "a", 1), ("settle",), ("tick",)]
        al += [("req", "a", c) for c in ("ge2", "gt1", "lt1", "le1")]
        al += [("full", "a"), ("empty", "a")]
    elif kind == "deep":  # one condition at a time, long histories
        al = [("put", "a", 1), ("get", "a", 1), ("step",), ("settle",), ("tick",),
              ("req", "a", "ge2")]
    elif kind == "deep2":
        al = [("put", "a", 1), ("get", "a", 1), ("step",), ("tick",), ("req", "a", "lt1"),
              ("empty", "a")]
    elif kind == "parts":  # conditions that differ by fractions
        al = [("put", "a", 1.5), ("get", "a", 1.25), ("put", "a", 0.0009765625), ("tick",)]
        al += [("req", "a", c) for c in ("ge2", "ge2.5", "gt1", "gt1.25", "le.001", "lt.25")]
        al += [("empty", "a")]
    elif kind == "unknown":  # a product that is not there: nothing of it, no room for it
        al = [("put", "a", 1), ("get", "a", 1), ("tick",), ("req", "x", "ge1"),
              ("req", "x", "le1"), ("full", "x"), ("empty", "x"), ("req", "a", "ge2")]
    else:  # two products and an account
        al = [("put", "a", 1), ("get", "a", 1), ("put", "b", 2), ("get", "b", 1),
              ("put", "a_reservations", 1), ("tick",),
              ("req", "a", "ge2"), ("req", "b", "ge2"), ("req", "a_reservations", "ge2"),
              ("full", "b"), ("empty", "a"), ("full", "a_reservations")]
    return al


def cases(tier):
    extra = 0 if tier == "quick" else 1
    for kind, depth in (("one", 5), ("deep", 7), ("deep2", 7), ("two", 5),
                        ("parts", 4), ("unknown", 4)):
        n = len(alphabet(kind))
        for p in itertools.product(range(n), repeat=2):
            yield {"kind": kind, "depth": depth + extra, "prefix": list(p)}


def run_seq(seq, res):
    env = simpy.Environment()
    c = core.EventsContainer(env, store_capacity=2)
    c.initialize_container([dict(id=i, capacity=cp, level=lv) for i, cp, lv in PRODS])
    level = {}
    cap = {}
    for i, cp, lv in PRODS:
        level[i] = level[f"{i}_reservations"] = lv
        cap[i] = cap[f"{i}_reservations"] = cp
    level["x"] = cap["x"] = 0
    # levels seen within the current instant, per account
    seen = {i: {lv} for i, lv in level.items()}
    reqs = []  # [event, account, op, threshold, held, fired]

    def note(acc):
        seen[acc].add(level[acc])
        for r in reqs:
            if r[1] == acc and r[2](level[acc], r[3]):
                r[4] = True

    def settle():
        while env.peek() <= env.now:
            env.step()

    for k, op in enumerate(list(seq) + [("settle",)]):
        kind = op[0]
        if kind in ("put", "get"):
            getattr(c, kind)(op[2], op[1])
            level[op[1]] += op[2] if kind == "put" else -op[2]
            note(op[1])
        elif kind == "req" or kind == "full" or kind == "empty":
            acc = op[1]
            if kind == "req":
                o, th = CONDS[op[2]]
                ev = c.get_container_event(th, o, acc)
            elif kind == "full":
                o, th = "ge", cap[acc]
                ev = c.get_full_event(acc)
            else:
                o, th = "le", 0
                ev = c.get_empty_event(acc)
            f = getattr(operator, o)
            reqs.append([ev, acc, f, th, any(f(x, th) for x in seen[acc]), False, o])
        elif kind == "step":
            if env.peek() <= env.now:
                env.step()
        elif kind == "settle":
            settle()
        elif kind == "tick":
            settle()
            env.run(until=env.now + 1)
            for i, lv in level.items():
                seen[i] = {lv}
        res.steps += 1
        for r in reqs:
            if r[0].triggered and not r[4]:
                res.bad("early", f"after {seq[:k + 1]}: condition {r[6]} {r[3]} of {r[1]} "
                        f"signalled although it never held since its request (level {level[r[1]]})")
                return
        if kind in ("settle", "tick"):
            for r in reqs:
                if r[2](level[r[1]], r[3]) and not r[0].processed:
                    res.bad("late", f"after {seq[:k + 1]}: condition {r[6]} {r[3]} of {r[1]} "
                            f"not signalled although it holds (level {level[r[1]]})")
                    return
    res.execs += 1
    res.state(tuple(level.values()), tuple((r[1], r[6], r[3], r[4], r[0].processed) for r in reqs))


def run_case(case, res):
    al = alphabet(case["kind"])
    pre = [al[i] for i in case["prefix"]]
    for rest in itertools.product(al, repeat=case["depth"] - len(pre)):
        run_seq(pre + list(rest), res)
        if res.violations:
            return
    res.outcome(str(case))
