"""C12: the order of registration does not matter."""

import itertools

from ..ref import observed
from ..world import World, core, model

import simpy

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "every set of up to four activity trees with cross references from the families, under "
    "every permutation of the order of registration and of construction; all logs must equal "
    "those of the first order; every placement of a duplicate name in trees up to depth three "
    "must be refused before anything runs; a case is one set of trees"
)
ASSUMPTIONS = [
    "the activities do not compete for resources; coincidences that registration order may "
    "legitimately resolve are avoided by fractional durations",
]
CHUNK = 20


def leaf(n, d, se=None):
    a = {"t": "basic", "n": n, "d": d}
    if se is not None:
        a["se"] = se
    return a


def cases(tier):
    quick = tier == "quick"
    D = (1, 2) if quick else (0, 1, 2)
    # chains and diamonds of references between top-level activities
    refs3 = [None, {"act": "a"}, {"act": "b"}, {"act": "c"}, {"time": 1.5},
             {"and": [{"act": "a"}, {"act": "b"}]}, {"or": [{"act": "c"}, {"act": "d"}]}]
    for ra, rb, rc in itertools.product(refs3, repeat=3):
        for ds in itertools.product(D, repeat=3):
            if quick and len(set(ds)) == 1:
                continue
            yield {"acts": [leaf("a", ds[0], ra), leaf("b", ds[1], rb), leaf("c", ds[2], rc),
                            leaf("d", 1.25)]}
    # references into and out of composites
    targets = ["a", "q", "x", "y", "w", "v", "p", "u"]
    for r1, r2 in itertools.product(targets, repeat=2):
        for kind, ds in itertools.product(("seq", "par", "rep"), itertools.product(D, repeat=2)):
            q = {"t": kind, "n": "q", "sub": [leaf("x", ds[0], {"act": r1} if r1 not in "qx" else None),
                                             leaf("y", ds[1] + 0.5)]}
            if kind == "rep":
                q["k"] = 2
            w = {"t": "while", "n": "w", "cond": {"act": r2} if r2 not in "wv" else {"time": 2.75},
                 "sub": [leaf("v", 0.875)]}
            p = {"t": "par", "n": "p", "sub": [leaf("u", 1.375, {"act": r1} if r1 not in "pu" else None)],
                 "se": {"act": r2} if r2 not in "pu" else {"time": 1}}
            yield {"acts": [q, w, leaf("a", 3.125), p]}
    # loops whose branches and steps wait for one another
    for k, ds in itertools.product((2, 3), itertools.product(D, repeat=3)):
        for e1, e2 in itertools.product(({"act": "y"}, {"act": "z"}, {"act": "q"},
                                         {"and": [{"act": "y"}, {"act": "z"}]}),
                                        (None, {"act": "z"}, {"time": 5.0625})):
            yield {"acts": [leaf("a", 2.0625, {"act": "y"}),
                            {"t": "rep", "n": "r", "k": k, "sub": [{"t": "par", "n": "p", "sub": [
                                leaf("x", ds[0], e1), leaf("y", ds[1] + 0.125, e2),
                                {"t": "seq", "n": "q", "sub": [leaf("u", 0.5), leaf("z", ds[2] + 0.25)]}]}]}],
                   "inner": True}
    # long chains of references
    for n in (5, 12, 40, 80):
        for fan in (1, 2):
            yield {"long": [n, fan]}
    # duplicate names
    for k in ("seq", "par", "rep", "while"):
        for nm in itertools.product(("a", "b", "q", "r"), repeat=4):
            yield {"dup": [k, list(nm)]}


def dup_acts(kind, nm, env, reg, se=()):
    def mk(n):
        kw = {"start_event": [{"type": "time", "start_time": 0}]} if len(made) in se else {}
        made.append(n)
        return model.BasicActivity(env=env, name=n, registry=reg, duration=1, **kw)

    made = []
    inner = [mk(nm[1])]
    sub = [mk(nm[0]), model.SequentialActivity(env=env, name=nm[2], registry=reg, sub_processes=inner)]
    kw = {}
    if kind == "rep":
        kw["repetitions"] = 1
    if kind == "while":
        kw["condition_event"] = [{"type": "time", "start_time": 0}]
    cls = {"seq": model.SequentialActivity, "par": model.ParallelActivity,
           "rep": model.RepeatActivity, "while": model.WhileActivity}[kind]
    return [cls(env=env, name=nm[3], registry=reg, sub_processes=sub, **kw), mk("z")]


def run_dup(kind, nm, res):
    # with start events on none, one or all of the basic activities
    for swap, se in itertools.product((False, True), ((), (0,), (1,), (2,), (0, 1, 2))):
        env = simpy.Environment()
        reg = {}
        acts = dup_acts(kind, nm, env, reg, se)
        if swap:
            acts.reverse()
        refused = False
        try:
            model.register_processes(acts)
        except Exception:
            refused = True
        res.execs += 1
        res.state(kind, str(nm), swap, se)
        unique = len(set(nm)) == len(nm)
        if refused == unique:
            return res.bad("duplicate", f"names {nm} in {kind}: refused={refused}")
        if refused:
            # nothing must have been set in motion
            env.run()
            logs = [e for a in model.get_subprocesses(acts) for e in a.logbook]
            if logs or env.now:
                return res.bad("ran", f"names {nm} in {kind} were refused, but {logs} were logged")
        else:
            env.run()
            if any(a.main_process.is_alive for a in model.get_subprocesses(acts)):
                return res.bad("stuck", f"names {nm} in {kind}")


def run_long(n, fan, res):
    """Each activity waits for the one before it (and for one further back)."""
    acts = []
    for i in range(n):
        se = None
        if i:
            se = {"act": f"a{i - 1}"}
            if fan == 2 and i > 3:
                se = {"and": [{"act": f"a{i - 3}"}, se]}
        acts.append(leaf(f"a{i}", 1 + i % 3, se))
    ends = list(itertools.accumulate(1 + i % 3 for i in range(n)))
    orders = [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i % 2, i)),
              sorted(range(n), key=lambda i: (-(i % 3), -i))]
    for order in orders:
        for nested in (False, True):
            sc = {"acts": [acts[i] for i in order]}
            if nested:
                sc = {"acts": [{"t": "par", "n": "p", "sub": sc["acts"]}]}
            w = World(sc)
            w.register()
            w.run(max_steps=20000)
            res.execs += 1
            res.steps += w.steps
            res.state(n, fan, str(order), nested)
            got = [w.intervals(f"a{i}") for i in range(n)]
            want = [[(e - (1 + i % 3), e)] for i, e in enumerate(ends)]
            res.outcome(str(got))
            if w.error or got != want:
                return res.bad("order", f"chain of {n} in order {order} (nested: {nested}): {w.error}; {got}")


def run_case(case, res):
    if "dup" in case:
        return run_dup(*case["dup"], res)
    if "long" in case:
        return run_long(*case["long"], res)
    acts = case["acts"]
    base = None
    if case.get("inner"):
        # the branches in all orders, too
        r = acts[1]
        subs = r["sub"][0]["sub"]
        for perm in itertools.permutations(subs):
            other = [acts[0], {**r, "sub": [{**r["sub"][0], "sub": list(perm)}]}]
            w = World({"acts": other})
            w.register()
            w.run(max_steps=3000)
            res.execs += 1
            got = (w.error, observed(w))
            base = base or got
            if str(norm(got)) != str(norm(base)):
                return res.bad("order", f"branches {[a['n'] for a in perm]}: {got}, first order {base}")
    for perm in itertools.permutations(range(len(acts))):
        for construct in (False, True):
            if construct:
                sc = {"acts": [acts[i] for i in perm]}
                order = None
            else:
                sc = {"acts": acts}
                order = list(perm)
            w = World(sc)
            w.register(order)
            w.run(max_steps=3000)
            res.execs += 1
            res.steps += w.steps
            got = (w.error, observed(w))
            if w.error and "no end" in w.error:
                res.notes["endless"] += 1
                res.skipped += 1
                return
            res.state(str(acts), perm, construct)
            if base is None:
                base = got
                res.outcome(str(got))
            elif str(norm(got)) != str(norm(base)):
                d = [(n, base[1][0][n], got[1][0][n]) for n in base[1][0]
                     if base[1][0][n] != got[1][0].get(n)]
                return res.bad("order", f"order {perm}: intervals (activity, first order, this "
                               f"order) {d or (base, got)}")


def norm(x):
    e, (iv, wt, st) = x
    return e, sorted(iv.items()), sorted(wt.items()), sorted(st.items())
