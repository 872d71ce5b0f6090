"""C01: container levels are exact per product (all operation sequences)."""

import itertools

import simpy

from ..world import core, make_object

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "every sequence of operations (put/get of each amount on each product and "
    "reservation account, level-condition request, passing of time) up to the stated "
    "depth is executed on the real container and compared with a dictionary after "
    "every operation; a case is one prefix of operations, non-trivial if sequences ran"
)
ASSUMPTIONS = [
    "amounts, levels and capacities come from a small set of exactly representable numbers",
]
CHUNK = 4

# (kind, products [(id, capacity, level)], store capacity)
CFG = [
    ("single", [("default", 10, 2.5)], None),
    ("multi", [("a", 10, 4), ("ab", 6, 0)], 2),
    ("multi", [("Sand", 10, 3), ("gravel", 5, 5), ("s", 2, 0)], 10),
    ("bare", [("a", 10, 4), ("b", 4, 1)], 2),
]


def build(cfg):
    kind, prods, store = CFG[cfg]
    env = simpy.Environment()
    if kind == "bare":
        c = core.EventsContainer(env, store_capacity=store)
        c.initialize_container([dict(id=i, capacity=c_, level=lv) for i, c_, lv in prods])
        return env, c, None
    o = {"n": "o", "k": "site"}
    if kind == "single":
        o.update(cap=prods[0][1], lvl=prods[0][2])
    else:
        o.update(multi=prods, store=store)
    ob = make_object(env, o)
    return env, ob.container, ob


def ops(cfg, wide):
    prods = CFG[cfg][1]
    ids = [p[0] for p in prods]
    accounts = ids + [f"{i}_reservations" for i in ids]
    res = []
    for acc in accounts:
        for amt in {True: (1, 2.5, -1.5, 0), False: (1, 0.5), "odd": (2 ** -14, 3e6 + 0.25)}[wide]:
            for m in ("put", "get"):
                res.append((m, acc, amt))
    res.append(("tick", None, None))
    res.append(("ask", ids[-1], 1))
    return res


def cases(tier):
    quick = tier == "quick"
    for cfg in range(len(CFG)):
        n = len(CFG[cfg][1])
        for wide, depth in (
            (True, {1: 4, 2: 3, 3: 3}[n] + (0 if quick else 1)),
            (False, {1: 5, 2: 4, 3: 3}[n] + (0 if quick else 1)),
            ("odd", 3 + (0 if quick or n > 1 else 1)),
        ):
            for first in range(len(ops(cfg, wide))):
                yield {"cfg": cfg, "wide": wide, "depth": depth, "first": first}


def run_seq(cfg, seq, res):
    kind, prods, _ = CFG[cfg]
    env, c, ob = build(cfg)
    model = {}
    caps = {}
    for i, cap, lv in prods:
        model[i] = model[f"{i}_reservations"] = lv
        caps[i] = caps[f"{i}_reservations"] = cap
    ids = sorted(p[0] for p in prods)
    for k, (m, acc, amt) in enumerate(seq):
        if m == "tick":
            env.run(until=env.now + 1)
        elif m == "ask":
            c.get_container_event(amt, "ge", acc)
        else:
            ev = getattr(c, m)(amt, acc) if acc != "default" or k % 2 else getattr(c, m)(amt)
            if not ev.triggered:
                res.bad("blocked", f"{m} {amt} on {acc} blocked after {seq[:k]}")
            model[acc] += amt if m == "put" else -amt
        res.steps += 1
        for i, lv in model.items():
            got = c.get_level(i)
            if abs(got - lv) > 1e-9:
                res.bad("level", f"cfg {cfg}: after {seq[:k + 1]} level of {i} is {got}, expected {lv}")
                return
            if c.get_capacity(i) != caps[i]:
                res.bad("capacity", f"cfg {cfg}: after {seq[:k + 1]} capacity of {i} is {c.get_capacity(i)}, expected {caps[i]}")
                return
        if (c.get_level("none"), c.get_capacity("none")) != (0, 0):
            res.bad("unknown", f"cfg {cfg}: after {seq[:k + 1]} an unknown product has level "
                    f"{c.get_level('none')} and capacity {c.get_capacity('none')}")
            return
        if sorted(c.container_list) != ids:
            res.bad("products", f"cfg {cfg}: after {seq[:k + 1]} products are {c.container_list}")
            return
    if ob is not None:
        st = ob.get_state()["container level"]
        want = model["default"] if kind == "single" else {i: model[i] for i in ids}
        if st != want:
            res.bad("state", f"cfg {cfg}: after {seq} state is {st}, expected {want}")
    res.execs += 1
    res.state(cfg, *model.values())


def run_case(case, res):
    al = ops(case["cfg"], case["wide"])
    for rest in itertools.product(al, repeat=case["depth"] - 1):
        run_seq(case["cfg"], [al[case["first"]], *rest], res)
        if res.violations:
            return
    res.outcome(case["cfg"], case["first"])
