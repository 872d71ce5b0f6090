"""Fleet scenarios, step monitors and the search over all their schedules."""

import itertools

from .sched import explore
from .world import EPOCH, MonitorViolation, World, walk

EPS = 1e-9


def cycle(v, org, dst, durs, amount=None, id_=None, crane=None, loop=None, extra=None):
    """One vessel going round between two sites; loop = a wrapping activity spec."""
    s1, l, s2, u = durs
    a = {} if amount is None else {"amt": amount}
    if id_ is not None:
        a["id"] = id_
    load = {"t": "shift", "n": f"{v}.load", "proc": crane or v, "org": org, "dst": v, "d": l, **a}
    unload = {"t": "shift", "n": f"{v}.unload", "proc": v, "org": v, "dst": dst, "d": u, **a}
    sub = [
        {"t": "move", "n": f"{v}.se", "mover": v, "dest": org, "d": s1},
        load,
        {"t": "move", "n": f"{v}.sf", "mover": v, "dest": dst, "d": s2},
        unload,
    ]
    for i, e in (extra or {}).items():
        sub[i].update(e)
    return {**loop, "n": f"{v}.loop", "sub": sub}


def fleet(durs, slots=(1, 1), total=4, dcap=4, vcap=2, stop="dres", amount=None,
          crane=None, product=None, aslist=False, extra=None):
    """Vessels moving `total` from O to D until the reservation account says stop."""
    so, sd = slots
    acc = "default" if product is None else product

    def cont(cap, lvl):
        if product is None:
            return {"cap": cap, "lvl": lvl}
        # the other product only ever stays where it is
        return {"multi": [["other", 7, 1], [product, cap, lvl]], "store": 3}

    objs = [
        {"n": "O", "k": "site", "at": 0, "nr": so, **cont(max(total, 1), total)},
        {"n": "D", "k": "site", "at": 1, "nr": sd, **cont(dcap, 0)},
    ]
    if crane is not None:
        objs.append({"n": "X", "k": "site", "at": 0, "nr": crane, "processor": True,
                     "cap": 1, "lvl": 0})
    caps = vcap if isinstance(vcap, (list, tuple)) else [vcap] * len(durs)
    acts = []
    for i, d in enumerate(durs):
        v = f"V{i}"
        objs.append({"n": v, "k": "vessel", "at": 0, **cont(caps[i], 0)})
        if stop == "dres":
            loop = {"t": "while", "cond": {"full": ["D", f"{acc}_reservations"]}}
        elif stop == "ores":
            loop = {"t": "while", "cond": {"empty": ["O", f"{acc}_reservations"]}}
        elif stop == "dfull":
            loop = {"t": "while", "cond": {"full": ["D", acc]}}
        else:
            loop = {"t": "rep", "k": stop}
        if aslist and "cond" in loop:
            # the same stop condition in other words (total = capacity for "both" and "either")
            c, dest = loop["cond"], "full" in loop["cond"]
            full, empty = {"full": ["D", f"{acc}_reservations"]}, {"empty": ["O", f"{acc}_reservations"]}
            loop["cond"] = {
                True: [c], "and": {"and": [c]}, "or": {"or": [c]}, "nest": [{"or": [{"and": [c]}]}],
                "lvl": {"lvl": ["D", "ge", dcap, f"{acc}_reservations"] if dest
                        else ["O", "le", 0, f"{acc}_reservations"]},
                "both": {"and": [full, empty]}, "list": [empty, full],
                "either": {"or": [full, empty]},
                "never": {"or": [{"lvl": ["D", "gt", dcap + 1, acc]}, c]},
                "once": {"and": [c, {"time": 0.5}]},
            }[aslist]
        acts.append(cycle(v, "O", "D", d, amount, product,
                          "X" if crane is not None else None, loop, extra))
    return {"objs": objs, "acts": acts}


# ---------------------------------------------------------------------------
class Monitor:
    """Base: `step` after every simulation step, `quiet` before time advances."""

    def __init__(self, w):
        self.w = w

    def step(self):
        pass

    def quiet(self):
        pass

    def end(self):
        pass

    def fail(self, sig, msg):
        raise MonitorViolation(sig, msg)


class Levels(Monitor):
    """C04: 0 <= level <= capacity at every step."""

    def step(self):
        for n, o in self.w.objs.items():
            for i in self.w.products(n):
                lv = o.container.get_level(i)
                if lv < -EPS or lv > o.container.get_capacity(i) + EPS:
                    self.fail("bounds", f"t={self.w.env.now}: level of {n}/{i} is {lv}, "
                              f"capacity {o.container.get_capacity(i)}")


def transfers(w):
    return [a for a in walk(w.sc["acts"]) if a["t"] == "shift"]


class Conservation(Monitor):
    """C03: levels change only by transfers, out at START and in at STOP."""

    def __init__(self, w):
        super().__init__(w)
        self.prev = dict(w.levels())
        self.init = dict(self.prev)
        self.started = {a["n"]: 0 for a in transfers(w)}
        self.stopped = dict(self.started)
        self.eqs = []  # (time, object/product, {transfer instance: coeff}, rhs)
        self.names = {a["n"]: a for a in transfers(w)}
        self.prods = {p for _, p in self.prev}

    def counts(self, n):
        own = self.w.own(n, ("START", "STOP"))
        return (sum(1 for x in own if x[1] == "START"), sum(1 for x in own if x[1] == "STOP"))

    def quiet(self):
        w = self.w
        lv = w.levels()
        co = {}
        inflight = 0
        for n, a in self.names.items():
            id_ = a.get("id", "default")
            s, e = self.counts(n)
            inflight += s - e
            for k in range(self.started[n], s):
                co.setdefault((a["org"], id_), {})[(n, k)] = -1
            for k in range(self.stopped[n], e):
                co.setdefault((a["dst"], id_), {})
                co[(a["dst"], id_)][(n, k)] = co[(a["dst"], id_)].get((n, k), 0) + 1
            self.started[n], self.stopped[n] = s, e
        for key, new in lv.items():
            d = new - self.prev[key]
            c = co.get(key, {})
            if not c and abs(d) > EPS:
                self.fail("unexplained", f"t={w.env.now}: level of {key} changed by {d} "
                          "without a transfer starting or ending there")
            if c:
                self.eqs.append((w.env.now, key, c, d))
        for key in co:
            if key not in lv:
                self.fail("account", f"transfer of unknown product {key}")
        if inflight == 0:
            for p in self.prods:
                a = sum(x for k, x in self.init.items() if k[1] == p)
                b = sum(x for k, x in lv.items() if k[1] == p)
                if abs(a - b) > EPS:
                    self.fail("total", f"t={w.env.now}: no transfer under way and total of "
                              f"{p} is {b}, initially {a}")
        self.prev = lv

    def end(self):
        # amounts of the transfers that explain every level change, if they exist
        known = {}
        eqs = list(self.eqs)
        while True:
            rest = []
            progress = False
            for t, key, c, d in eqs:
                unk = {x: k for x, k in c.items() if x not in known}
                r = d - sum(k * known[x] for x, k in c.items() if x in known)
                if not unk:
                    progress = True
                    if abs(r) > EPS:
                        self.fail("amount", f"t={t}: level of {key} changed by {d}, transfers "
                                  f"there amount to {d - r}: {c} {known}")
                elif len(unk) == 1:
                    (x, k), = unk.items()
                    known[x] = r / k
                    progress = True
                    if known[x] < -EPS:
                        self.fail("negative", f"t={t}: transfer {x} amounts to {known[x]}")
                else:
                    rest.append((t, key, c, d))
            eqs = rest
            if not progress or not eqs:
                break


class Slots(Monitor):
    """C07: users per object never exceed its slots; FIFO service; all free at the end."""

    def __init__(self, w, free_at_end=True):
        super().__init__(w)
        self.free_at_end = free_at_end
        self.queues = {n: [] for n in w.objs}
        self.uses = []
        for a in walk(w.sc["acts"]):
            if a["t"] == "shift":
                self.uses.append((a["n"], {a["proc"], a["org"], a["dst"]}))
            elif a["t"] == "move":
                self.uses.append((a["n"], {a["mover"]}))

    def step(self):
        for n, o in self.w.objs.items():
            r = o.resource
            if r.count > r.capacity:
                self.fail("count", f"t={self.w.env.now}: {n} has {r.count} users")
            q = list(r.queue)
            old = self.queues[n]
            if old or q:
                # what is left of the old queue must be a suffix of it: served in order
                left = [x for x in q if any(x is y for y in old)]
                k = len(left)
                if k and any(x is not y for x, y in zip(left, old[len(old) - k:])):
                    self.fail("fifo", f"t={self.w.env.now}: {n} served out of order")
            self.queues[n] = q

    def quiet(self):
        busy = {}
        for n, objs in self.uses:
            own = self.w.own(n, ("START", "STOP"))
            k = sum(1 if s == "START" else -1 for _, s in own)
            if k:
                for o in objs:
                    busy.setdefault(o, []).append(n)
        for o, users in busy.items():
            cap = next(x.get("nr", 1) for x in self.w.sc["objs"] if x["n"] == o)
            if len(users) > cap:
                self.fail("overlap", f"t={self.w.env.now}: {o} ({cap} slots) is used by {users}")

    def end(self):
        # log intervals, including those within one instant
        for o in self.w.objs:
            cap = next(x.get("nr", 1) for x in self.w.sc["objs"] if x["n"] == o)
            iv = [x for n, objs in self.uses if o in objs for x in self.w.intervals(n)]
            short = {x[0] for x in iv if x[0] == x[1]}
            iv = [x for x in iv if None not in x and x[1] > x[0]]
            for t in short:  # uses that take no time, while others use the object
                k = sum(1 for x in iv if x[0] < t < x[1])
                if k >= cap:
                    self.fail("overlap", f"{o} ({cap} slots) has {k} users and another at {t}")
            for t in {x[0] for x in iv}:
                k = sum(1 for x in iv if x[0] <= t < x[1])
                if k > cap:
                    self.fail("overlap", f"{o} ({cap} slots) has {k} users at {t}")
        if self.free_at_end and self.w.error is None:
            for n, o in self.w.objs.items():
                if o.resource.count or o.resource.queue:
                    self.fail("leak", f"{n} still has {o.resource.count} users and "
                              f"{len(o.resource.queue)} waiting at the end")


class Done(Monitor):
    """C25: every activity came to an end without error."""

    def end(self):
        w = self.w
        if w.error:
            self.fail("error", w.error)
        for a in walk(w.sc["acts"]):
            if w.acts[a["n"]].main_process.is_alive:
                self.fail("stuck", f"{a['n']} never ended (time {w.env.now}); levels {w.levels()}")


class Multi:
    def __init__(self, w, classes):
        self.ms = [c(w) for c in classes]

    def __call__(self, w):
        for m in self.ms:
            m.step()
        if w.env.peek() > w.env.now:
            for m in self.ms:
                m.quiet()


def schedules(case, res, monitors, judge=None, max_steps=20000):
    """Runs a case under every registration order and tie order within its bounds."""
    sc = case["sc"]
    n = len(sc["acts"])
    orders = case.get("orders") or [list(p) for p in itertools.permutations(range(n))]
    kinds = ["plain", "tie"] if case.get("plain", True) else ["tie"]
    for order in orders:
        for kind in kinds:
            def run(ch):
                w = World(sc, env_kind=kind, chooser=ch)
                m = Multi(w, monitors)
                w.register(order)
                try:
                    w.run(m, max_steps=max_steps)
                    for x in m.ms:
                        x.end()
                    if judge is not None:
                        judge(w, case)
                except MonitorViolation as e:
                    return w, e.args
                return w, None

            if kind == "plain":
                it = [(None, run(None))]
            else:
                it = explore(run, case.get("dev"), case.get("maxex", 3000))
            for ch, r in it:
                if r is None:
                    res.capped += 1
                    break
                w, v = r
                res.execs += 1
                res.steps += w.steps
                fp = (tuple(sorted(w.levels().items())), w.env.now, w.error,
                      tuple((a["n"], tuple(w.intervals(a["n"]))) for a in walk(sc["acts"])))
                res.outcome(fp)
                res.state(str(sc), fp)
                # transfers from empty origins or to full destinations are refused (ValueError)
                if v is None and w.error and not w.error.startswith("ValueError"):
                    v = ("error", w.error)
                if v is not None:
                    res.bad(v[0], f"{v[1]} [order {order}, {kind} schedule "
                            f"{[] if ch is None else ch.choices}]")
                    return


def std_fleets(tier, stops=("dres",), caps=None):
    """The fleet family shared by several checks."""
    quick = tier == "quick"
    D2 = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2), (2, 1, 1, 2), (1, 2, 2, 1)]
    if not quick:
        D2 = [tuple(x) for x in itertools.product((1, 2), repeat=4)]
    slots2 = [(1, 1), (2, 1), (1, 2), (2, 2)]
    # one vessel: amounts that do or do not divide the total
    for stop in stops:
        for total, dcap in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (5, 3), (3, 5)):
            if stop == "dres" and total < dcap or stop == "ores" and dcap < total:
                continue
            for d in D2:
                yield fleet([d], (1, 1), total, dcap, 2, stop), 3
        for d in itertools.product(D2, repeat=2):
            for sl in slots2:
                for total in (4, 5) if quick else (4, 5, 6, 7):
                    yield fleet(d, sl, total, total, 2, stop), 2 if quick else 4
    for d in itertools.combinations_with_replacement(D2[:3] if quick else D2[:5], 3):
        for sl in ((1, 1), (2, 1), (1, 2), (3, 3)):
            for total in (6, 7) if quick else (6, 7, 9):
                yield fleet(d, sl, total, total, 2, stops[0]), 1 if quick else 2


def variant_fleets(tier):
    """Cranes, products, larger origins or destinations, given amounts, buffers."""
    quick = tier == "quick"
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2)]
    for d in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2)):
            yield fleet(d, sl, 5, 5, 2, "dres", crane=1), 2
            yield fleet(d, sl, 5, 5, 3, "dres", amount=2, crane=2), 2
            yield fleet(d, sl, 6, 5, 2, "dres"), 2
            yield fleet(d, sl, 5, 8, 2, "ores"), 2
            yield fleet(d, sl, 5, 5, 2, "dres", product="sand"), 2
            yield fleet(d, sl, 2.5, 2.5, 0.5, "dres", aslist=True), 1


def tiny_fleets(tier):
    """Amounts that are small fractions."""
    e = 2 ** -13
    D = [(1, 1, 1, 1), (1, 2, 1, 1)]
    for d in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2)):
            for total, vc, amt, stop in ((5 * e, 2 * e, None, "dres"), (1, 0.5, 3 * e, 3),
                                         (1 + e, 0.25 + e, None, 2), (5 * e, 1, 2 * e, 2)):
                yield fleet(d, sl, total, total, vc, stop, amt), 1


def claim_fleets(tier):
    """Single transfers of three vessels whose preparations overlap."""
    quick = tier == "quick"
    for t in itertools.combinations_with_replacement((0, 1, 2), 3):
        for pre in itertools.product((0, 1, 3), repeat=3):
            if not any(pre):
                continue
            for lvl in (3, 4, 5):
                for back in (False, True):
                    objs = [{"n": "O", "k": "site", "nr": 3, "cap": 10, "lvl": 10 - lvl if back else lvl}]
                    acts = []
                    for i in range(3):
                        v = f"V{i}"
                        objs.append({"n": v, "k": "vessel", "cap": 2, "lvl": 2 if back else 0})
                        acts.append({"t": "shift", "n": f"{v}.x", "proc": v, "org": v if back else "O",
                                     "dst": "O" if back else v, "d": 1, "se": {"time": t[i]},
                                     "pl": {"rec": [{"pre": pre[i]}]}})
                    yield {"objs": objs, "acts": acts}, 0 if quick else 1


def crane_fleets(tier):
    """A crane with several slots that serves vessels of different size at the same time."""
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2), (1, 3, 1, 2)]
    for d in itertools.product(D, repeat=2):
        for nr in (1, 2, 3):
            for sl in ((2, 2), (1, 2), (2, 1)):
                for caps, total, dcap in (((2, 3), 20, 20), ((3, 1), 6, 20), ((2, 3), 20, 7)):
                    yield fleet(d, sl, total, dcap, caps, 2, crane=nr), 1
    for d in itertools.product(D[:2], repeat=3):
        for nr in (2, 3):
            yield fleet(d, (3, 3), 20, 20, (1, 2, 4), 2, crane=nr), 1


def crane_transfers(tier):
    """Single loads (or unloads) from (to) one site by a shared crane or by the vessels themselves.

    All acquire crane and site in the same order, so none can wait in a circle.
    """
    quick = tier == "quick"
    one = [("X", 1), ("X", 3), ("own", 1), ("own", 3)]
    times = [(0, 0, 0), (0, 0, 1), (0, 1, 1)] + ([] if quick else [(0, 1, 2), (0, 0, 3), (0, 2, 3)])
    durs = [(1, 1, 1), (2, 2, 2), (2, 1, 2)]
    for ks in itertools.product(one, repeat=3):
        if all(k[0] == "own" for k in ks):
            continue
        need = sum(k[1] for k in ks)
        for ts in times:
            for ds in durs:
                for back in (False, True):
                    for lack in (0, 1, 3) if quick else (0, 1, 2, 3, 4):
                        amount = max(need - lack, 1)
                        site = ({"cap": 20, "lvl": 20 - amount} if back
                                else {"cap": 20, "lvl": amount})
                        objs = [{"n": "S", "k": "site", **site},
                                {"n": "X", "k": "site", "cap": 1, "lvl": 0, "processor": True}]
                        acts = []
                        for i, (p, a) in enumerate(ks):
                            v = f"V{i}"
                            objs.append({"n": v, "k": "vessel", "cap": 4, "lvl": 4 if back else 0})
                            o, d = (v, "S") if back else ("S", v)
                            acts.append({"t": "shift", "n": f"T{i}", "proc": v if p == "own" else p,
                                         "org": o, "dst": d, "d": ds[i], "amt": a,
                                         "se": {"time": ts[i]}})
                        yield {"objs": objs, "acts": acts}, lack


def plugin_fleets(tier):
    """Transfers that are prepared and finished by slow plugins."""
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2)]
    P = [{"pl": {"rec": [{"pre": 2}]}}, {"pl": {"rec": [{"post": 1}]}},
         {"pl": {"rec": [{"pre": 1, "post": 2}]}}, {"pl": {"delay": 50}}]
    for d in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2), (2, 1), (1, 2)):
            for p in P:
                for where in ((1,), (3,), (1, 3)):
                    yield fleet(d, sl, 5, 5, 2, "dres", extra={i: p for i in where}), 1


def buffer_fleets(tier):
    """O -> B -> D with level conditions on the buffer B (as start events)."""
    quick = tier == "quick"
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2), (3, 1, 1, 1)]
    for da, db in itertools.product(D, repeat=2):
        for bcap, sl in ((2, 1), (3, 1), (2, 2), (4, 2)):
            for k in (2, 3):
                objs = [
                    {"n": "O", "k": "site", "at": 0, "cap": 10, "lvl": 9},
                    {"n": "B", "k": "site", "at": 1, "nr": sl, "cap": bcap, "lvl": 0},
                    {"n": "D", "k": "site", "at": 2, "cap": 10, "lvl": 0},
                    {"n": "V", "k": "vessel", "at": 0, "cap": 2, "lvl": 0},
                    {"n": "W", "k": "vessel", "at": 1, "cap": 2, "lvl": 0},
                ]
                rep = {"t": "rep", "k": k}
                acts = [
                    cycle("V", "O", "B", da, 2, loop=rep,
                          extra={3: {"se": {"lvl": ["B", "le", bcap - 2, "default"]}}}),
                    cycle("W", "B", "D", db, 2, loop=rep,
                          extra={1: {"se": {"lvl": ["B", "ge", 2, "default"]}}}),
                ]
                yield {"objs": objs, "acts": acts}, 2 if quick else 3


class Records(Monitor):
    """C13: entries carry the real state; objects' logs mirror the activities' logs."""

    def __init__(self, w):
        super().__init__(w)
        self.conts = {n: (o, w.products(n)) for n, o in w.objs.items()}
        self.seen = {n: len(o.logbook) for n, o in w.objs.items()}
        self.prev = {n: self.state(n) for n in w.objs}
        self.hist = {n: {w.env.now: {self.prev[n]}} for n in w.objs}
        self.aseen = {n: len(o.logbook) for n, o in w.acts.items()}
        self.kept = []
        self.acts = {"id:" + a["n"]: a for a in walk(w.sc["acts"])}

    def state(self, n):
        o, prods = self.conts[n]
        g = o.geometry
        return tuple((i, o.container.get_level(i)) for i in prods), (g.x, g.y)

    def entry_state(self, n, e):
        st = e["ObjectState"]
        lv = st.get("container level")
        prods = self.conts[n][1]
        if not isinstance(lv, dict):
            lv = {"default": lv}
        if set(lv) != set(prods):
            self.fail("state", f"{n} logged levels {lv}, its products are {prods}")
        g = st.get("geometry")
        return tuple((i, lv[i]) for i in prods), (g.x, g.y)

    def step(self):
        w = self.w
        t = w.env.now
        for n, o in w.objs.items():
            now = self.state(n)
            prev = self.prev[n]
            h = self.hist[n].setdefault(t, {prev})
            h.add(now)
            new = o.logbook[self.seen[n]:]
            for e in new:
                te = (e["Timestamp"] - EPOCH).total_seconds()
                lv = self.entry_state(n, e)
                if e["ActivityState"] in ("START", "STOP"):
                    if abs(te - t) > 1e-6:  # the resolution of logged times
                        self.fail("time", f"{n} logged {e} at {t}")
                    a = self.acts.get(e["ActivityID"])
                    if e["ActivityState"] == "STOP" and a and a["t"] == "shift":
                        # what was moved has arrived
                        ok = lv[0] == now[0] and lv[1] in (prev[1], now[1])
                    elif e["ActivityState"] == "STOP" and a and a["t"] == "move":
                        # the vessel is there
                        ok = lv[1] == now[1] and lv[0] in (prev[0], now[0])
                    else:
                        ok = all(x in (p, q) for x, p, q in zip(lv, prev, now))
                else:
                    # waits are logged afterwards; the state is that of their own time
                    t1 = max((x for x in self.hist[n] if x <= te + 1e-6), default=None)
                    cand = self.hist[n][t1] if t1 is not None else ()
                    ok = any(lv == x for x in cand)
                if not ok:
                    self.fail("state", f"t={t}: {n} logged {e['ActivityState']} of {te} with "
                              f"state {lv}, real states then {prev} -> {now} / {self.hist[n]}")
                self.kept.append((n, e, lv))
            self.seen[n] += len(new)
            self.prev[n] = now
        for n, o in w.acts.items():
            for e in o.logbook[self.aseen[n]:]:
                # waits are logged afterwards, with the time at which they began
                if e["ActivityState"] in ("START", "STOP") and abs(
                        (e["Timestamp"] - EPOCH).total_seconds() - w.env.now) > 1e-6:
                    self.fail("time", f"{n} logged {e} at {w.env.now}")
            self.aseen[n] = len(o.logbook)

    def end(self):
        w = self.w
        for n, e, lv in self.kept:
            if self.entry_state(n, e) != lv:
                self.fail("rewritten", f"an entry of {n} read {lv} when it was logged "
                          f"and reads {self.entry_state(n, e)} at the end")
        ids = {a["n"]: "id:" + a["n"] for a in walk(w.sc["acts"])}
        expect = {o: {} for o in w.objs}
        full = ("START", "STOP", "WAIT_START", "WAIT_STOP")
        for a in walk(w.sc["acts"]):
            for o in a.get("logs", []):
                host = w.objs.get(o) or w.acts[o]
                got = [(t - w.t0, s) for t, s, i, lab in w.log(o)
                       if i == ids[a["n"]] and (lab or {}).get("ref") == ids[a["n"]]]
                if got != w.own(a["n"], full):
                    self.fail("additional", f"log of {o} has {got} of {a['n']}, its own log "
                              f"{w.own(a['n'], full)}")
        for a in walk(w.sc["acts"]):
            n = a["n"]
            own = w.own(n, ("START", "STOP"))
            for k, (t, s) in enumerate(own):
                if s != ("START", "STOP")[k % 2]:
                    self.fail("pairing", f"log of {n}: {own}")
                if k and t < own[k - 1][0]:
                    self.fail("pairing", f"log of {n} goes back in time: {own}")
            if len(own) % 2 and w.error is None:
                self.fail("pairing", f"log of {n} lacks a STOP: {own}")
            used = set()
            if a["t"] == "shift":
                used = {a["proc"], a["org"], a["dst"]}
            elif a["t"] == "move":
                used = {a["mover"]}
            elif a["t"] == "basic":
                used = {x for x in a.get("logs", []) if x in w.objs}
            for o in used:
                expect[o][ids[n]] = own
        for o, want in expect.items():
            got = {}
            for t, s, i, lab in w.log(o):
                if s in ("START", "STOP"):
                    got.setdefault(i, []).append((t - w.t0, s))
            for i in set(got) | set(want):
                if got.get(i, []) != want.get(i, []):
                    self.fail("attribution", f"log of object {o} for {i}: {got.get(i, [])}, "
                              f"own log of the activity: {want.get(i, [])}")


class Reservations(Monitor):
    """C06: reservation accounts run ahead by exactly what is registered and pending."""

    def __init__(self, w):
        super().__init__(w)
        self.loops = [a for a in w.sc["acts"]]
        self.acc = {}
        for a in transfers(w):
            self.acc.setdefault(a.get("id", "default"), 0)

    def reserved(self, a):
        if a.get("amt") is not None:
            return a["amt"]
        i = a.get("id", "default")
        cap = {n: o.container.get_capacity(i) for n, o in self.w.objs.items()}
        return min(cap[a["org"]], cap[a["dst"]])

    def quiet(self):
        w = self.w
        ahead = {}
        for loop in self.loops:
            load, unload = [s for s in loop["sub"] if s["t"] == "shift"]
            starts = sum(1 for x in w.own(load["n"]) if x[1] == "START")
            lstops = sum(1 for x in w.own(load["n"]) if x[1] == "STOP")
            ustarts = sum(1 for x in w.own(unload["n"]) if x[1] == "START")
            ustops = sum(1 for x in w.own(unload["n"]) if x[1] == "STOP")
            ended = any(x[1] == "STOP" for x in w.own(loop["n"]))
            rounds = ustops if ended else ustops + 1
            i = load.get("id", "default")
            r, ru = self.reserved(load), self.reserved(unload)
            # registered and not yet taken / delivered
            for key, x in (((load["org"], i), -(rounds - starts) * r),
                           ((load["dst"], i), (rounds - lstops) * r),
                           ((unload["org"], i), -(rounds - ustarts) * ru),
                           ((unload["dst"], i), (rounds - ustops) * ru)):
                ahead[key] = ahead.get(key, 0) + x
        for (o, i), x in ahead.items():
            c = w.objs[o].container
            d = c.get_level(f"{i}_reservations") - c.get_level(i)
            if abs(d - x) > 1e-6:
                self.fail("ahead", f"t={w.env.now}: reservation account of {o}/{i} is ahead of "
                          f"its level by {d}, registered transfers amount to {x}")

    def end(self):
        w = self.w
        if w.error:
            self.fail("error", f"the fleet failed: {w.error}")
        for loop in self.loops:
            if w.acts[loop["n"]].main_process.is_alive:
                self.fail("stuck", f"{loop['n']} did not stop; levels {w.levels()}")
        for n, o in w.objs.items():
            for i in w.products(n):
                if abs(o.container.get_level(i) - o.container.get_level(f"{i}_reservations")) > 1e-6:
                    self.fail("account", f"at the end the reservation account of {n}/{i} is "
                              f"{o.container.get_level(f'{i}_reservations')}, its level "
                              f"{o.container.get_level(i)}")
        trips = 0
        for loop in self.loops:
            load, unload = [s for s in loop["sub"] if s["t"] == "shift"]
            trips += len(w.intervals(unload["n"]))
        i = unload.get("id", "default")
        O, D = w.objs[load["org"]].container, w.objs[unload["dst"]].container
        c0 = {o["n"]: o for o in w.sc["objs"]}

        def init(o):
            for m in c0[o].get("multi", []):
                if m[0] == i:
                    return m[2]
            return c0[o].get("lvl", 0)

        cond = self.loops[0]["cond"]
        total = init(load["org"])
        room = D.get_capacity(i) - init(unload["dst"])
        amt = self.reserved(load)
        if "'D'" in str(cond):
            if D.get_level(i) != D.get_capacity(i):
                self.fail("notfull", f"destination ends at {D.get_level(i)} of {D.get_capacity(i)}")
            need = room
        else:
            if O.get_level(i) != 0:
                self.fail("notempty", f"origin ends at {O.get_level(i)}")
            need = total
        want = max(-(-need // amt), len(self.loops))
        if trips != want:
            self.fail("trips", f"{trips} trips of {amt} for {need}, {want} are enough")


class Prompt(Done):
    """C25: nothing waits for objects that nobody uses or wants; everything ends."""

    def __init__(self, w):
        super().__init__(w)
        # (activity, predecessor or None, release time, objects)
        self.acts = []

        def rec(a, pred, t):
            if a["t"] == "shift":
                self.acts.append((a["n"], pred, t, {a["proc"], a["org"], a["dst"]}, "se" in a))
            elif a["t"] == "move":
                self.acts.append((a["n"], pred, t, {a["mover"]}, "se" in a))
            elif a["t"] in ("seq", "rep", "while"):
                for i, s in enumerate(a["sub"]):
                    rec(s, a["sub"][i - 1]["n"] if i else a["sub"][-1]["n"], None if i else t)

        for a in w.sc["acts"]:
            t = a["se"]["time"] if "time" in (a.get("se") or {}) else 0
            rec({**a, "se": None} if False else a, None, t)
        self.tops = {a["n"] for a in w.sc["acts"]}

    def quiet(self):
        w = self.w
        waiting, busy = {}, set()
        for n, pred, t, objs, se in self.acts:
            own = w.own(n, ("START", "STOP"))
            s = sum(1 for x in own if x[1] == "START")
            if len(own) % 2:
                busy |= objs
                continue
            if n in self.tops:
                if s == 0 and w.env.now - w.t0 >= t:
                    waiting[n] = objs
            elif not se and t is None:
                if sum(1 for x in w.own(pred, ("STOP",))) > s:
                    waiting[n] = objs
        for n, objs in waiting.items():
            others = set().union(busy, *(o for m, o in waiting.items() if m != n))
            if not objs & others:
                self.fail("idle", f"t={w.env.now}: {n} is released and waits although nothing "
                          f"uses or wants {sorted(objs)}")
        if waiting and not busy:
            self.fail("idle", f"t={w.env.now}: {sorted(waiting)} wait and nothing is under way")
