"""Exhaustive generators of activity trees and the judge shared by C08-C12."""

import itertools

from .ref import compare, expected
from .sched import explore
from .world import World, walk


def shapes(leaves, depth, kinds, unary):
    """All trees with exactly `leaves` leaves and composite depth at most `depth`.

    `kinds` may have any number of children, `unary` exactly one or more too.
    """
    if leaves == 1:
        yield "L"
    if depth == 0:
        return
    for k in kinds:
        lo = 1 if k in unary else 2
        for m in range(lo, leaves + 1):
            for part in compositions(leaves, m):
                for kids in itertools.product(
                    *(list(shapes(x, depth - 1, kinds, unary)) for x in part)
                ):
                    yield (k, *kids)


def compositions(n, m):
    if m == 1:
        yield (n,)
        return
    for i in range(1, n - m + 2):
        for rest in compositions(n - i, m - 1):
            yield (i, *rest)


def build(shape, leaf, prefix=""):
    """Shape -> activity spec; leaf(i) gives the spec of leaf i."""
    count = itertools.count()
    inner = itertools.count()

    def mk(s):
        if s == "L":
            i = next(count)
            return {**leaf(i), "n": f"{prefix}a{i}"}
        k, *kids = s
        n = f"{prefix}n{next(inner)}"
        sub = [mk(x) for x in kids]
        if k.startswith("rep"):
            return {"t": "rep", "k": int(k[3:]), "n": n, "sub": sub}
        return {"t": k, "n": n, "sub": sub}

    return mk(shape)


def judge(case, res, kind="plain", dev=1, maxex=40):
    """Runs a program and compares all logs with the reference interpreter."""
    sc = case["sc"]
    exp, why = expected(sc)
    if exp is None:
        res.skipped += 1
        res.notes[why] += 1
        return
    key = str(exp)
    res.outcome(key)

    def run(ch, kind):
        w = World(sc, env_kind=kind, chooser=ch)
        w.register(case.get("order"))
        w.run()
        return w

    def check(w, how):
        res.execs += 1
        res.steps += w.steps
        res.state(str(sc), str(w.env.now), how)
        if w.error:
            res.bad("error", f"{w.error} [{how}]")
            return False
        d = compare(w, exp) or additional(w)
        if d:
            res.bad(d[0], f"{d[1]} [{how}]")
            return False
        return True

    if not check(run(None, "plain"), "plain"):
        return
    if case.get("dev", dev):
        for ch, w in explore(lambda c: run(c, "tie"), case.get("dev", dev), maxex):
            if w is None:
                res.capped += 1
                return
            if not check(w, f"tie {ch.choices}"):
                return


def additional(w):
    """Additional logs repeat the activity's own entries."""
    full = ("START", "STOP", "WAIT_START", "WAIT_STOP")
    for a in walk(w.sc["acts"]):
        for o in a.get("logs", []):
            i = "id:" + a["n"]
            got = [(t - w.t0, s) for t, s, j, lab in w.log(o)
                   if j == i and (lab or {}).get("ref") == i]
            if got != w.own(a["n"], full):
                return "additional", (f"log of {o} has {got} of {a['n']}, its own log "
                                      f"{w.own(a['n'], full)}")


def products(sc):
    """The same program with two products: the transfers and conditions are about one of them."""
    def act(a):
        a = dict(a)
        for key in ("se", "cond"):
            if key in a:
                a[key] = expr(a[key])
        if a["t"] == "shift":
            a["id"] = "rock"
        if "sub" in a:
            a["sub"] = [act(x) for x in a["sub"]]
        return a

    def expr(e):
        if isinstance(e, list):
            return [expr(x) for x in e]
        return {k: [expr(x) for x in v] if k in ("and", "or") else
                v[:-1] + ["rock"] if k in ("lvl", "full", "empty") else v for k, v in e.items()}

    objs = []
    for i, o in enumerate(sc["objs"]):
        o = dict(o)
        cap, lvl = o.pop("cap", 10), o.pop("lvl", 0)
        both = [["rock", cap, lvl], ["sand", cap, (cap, 0, lvl)[i % 3]]]
        objs.append({**o, "multi": both[::-1] if i % 2 else both})
    return {**sc, "objs": objs, "acts": [act(a) for a in sc["acts"]]}


def with_products(cases, every=1):
    """The cases, and every n-th one that is about levels with two products as well."""
    i = 0
    for c in cases:
        yield c
        acts = str(c["sc"]["acts"])
        if "objs" in c["sc"] and any(f"'{x}'" in acts for x in ("lvl", "full", "empty")):
            i += 1
            if i % every == 0:
                yield {**c, "sc": products(c["sc"])}
