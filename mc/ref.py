"""Reference interpreter of activity programs (no resources are competed for).

A deliberately simple rule system: at every moment the rules below are applied
until nothing changes, then time advances to the next due moment.  Where the
text of the properties leaves the outcome of a coincidence open (a condition
that becomes true at the very moment a round ends), the variants (eager/lazy,
forward/backward) differ and the case is counted as ambiguous, not judged.
"""

import operator


class Diverges(Exception):
    pass


class Latch:
    """A start event or stop condition, created at some moment."""

    def __init__(self, ref, e, owner):
        self.ref = ref
        self.kids = None
        self.how = all
        self.occ = False
        self.since = ref.t
        self.kind = None
        if isinstance(e, list):
            self.kids = [Latch(ref, x, owner) for x in e]
        elif "and" in e:
            self.kids = [Latch(ref, x, owner) for x in e["and"]]
        elif "or" in e:
            self.kids = [Latch(ref, x, owner) for x in e["or"]]
            self.how = any
        elif "time" in e:
            self.kind, self.time = "time", max(e["time"], ref.t)
        elif "act" in e or "actid" in e:
            self.kind, self.inst = "act", ref.cur[e.get("act") or e.get("actid")]
            self.owner = owner
        else:
            self.kind = "lvl"
            if "lvl" in e:
                o, op, th, i = e["lvl"]
            elif "full" in e:
                o, i = e["full"]
                op, th = "ge", ref.cap[o, i]
            else:
                o, i = e["empty"]
                op, th = "le", 0
            self.test = lambda: getattr(operator, op)(ref.lv[o, i], th)
            if self.test():
                self.occ = True
            ref.latches.append(self)

    def poll(self):
        if not self.occ and self.test():
            self.occ = True
            return True
        return False

    def occurred(self):
        if self.kids is not None:
            return self.how(k.occurred() for k in self.kids)
        if self.kind == "time":
            return self.ref.t >= self.time
        if self.kind == "act":
            return self.inst.state == "DONE"
        return self.occ

    def met(self):
        """As a stop condition, at the end of a round of `owner`."""
        if self.kids is not None:
            return self.how(k.met() for k in self.kids)
        r = self.ref
        if self.kind == "time":
            return r.t >= self.time if r.eager else r.t > self.time or self.since == self.time == r.t
        if self.kind == "act":
            i = self.inst
            if i.state != "DONE":
                return False
            if r.eager or i.end < r.t or i.inside(self.owner):
                return True
            return False
        return self.occ or self.test()

    def due(self):
        if self.kids is not None:
            for k in self.kids:
                yield from k.due()
        elif self.kind == "time":
            yield self.time


def before(s, t):
    """What the plugins of an activity take before it starts (no shifts or moves)."""
    pl = s.get("pl", {})
    d = sum(r.get("pre", 0) for r in pl.get("rec", []))
    if "weather" in pl:  # bad weather until the second record
        d = max(d, pl["weather"]["ts"][1] - t)
    return d


def after(s):
    return sum(r.get("post", 0) for r in s.get("pl", {}).get("rec", []))


class Inst:
    def __init__(self, ref, spec, parent):
        self.ref, self.spec, self.parent = ref, spec, parent
        self.state = "REG"
        self.released = False
        self.end = None
        self.event = None

    def inside(self, other):
        x = self
        while x is not None:
            if x.spec is other.spec:
                return True
            x = x.parent
        return False


class Ref:
    def __init__(self, sc, eager=True, rev=False, late=False, max_rounds=40):
        self.eager, self.rev, self.max_rounds = eager, rev, max_rounds
        self.late = late  # rounds of while loops are judged after all else of the moment
        self.judging = False
        self.t = 0
        self.cur = {}
        self.latches = []
        self.live = []
        self.lv, self.cap = {}, {}
        for o in sc.get("objs", []):
            for i, c, l in o.get("multi") or [["default", o.get("cap", 10), o.get("lvl", 0)]]:
                self.lv[o["n"], i], self.cap[o["n"], i] = l, c
        self.iv, self.wt, self.st = {}, {}, {}
        self.error = None
        self.register(sc["acts"], None, released=True)
        self.go()

    def register(self, specs, parent, released=False):
        new = []

        def mk(s, par):
            i = Inst(self, s, par)
            self.cur[s["n"]] = i
            new.append(i)
            i.kids = [mk(c, i) for c in s.get("sub", [])]
            for d in (self.iv, self.wt, self.st):
                d.setdefault(s["n"], [])
            return i

        tops = [mk(s, parent) for s in specs]
        for i in new:
            if "se" in i.spec:
                i.event = Latch(self, i.spec["se"], i)
        for i in tops:
            i.released = released
        self.live += new
        return tops

    # -- rules ----------------------------------------------------------
    def note(self, inst, what, kid):
        self.st[inst.spec["n"]].append((self.t, what, kid.spec["n"]))

    def release(self, inst, kid):
        kid.released = True
        self.note(inst, "START", kid)

    def finish(self, inst):
        if inst.state == "RUN":  # what plugins do afterwards comes after the interval
            self.iv[inst.spec["n"]][-1] = (inst.start, self.t)
            post = after(inst.spec)
            if post:
                inst.state, inst.due = "POST", self.t + post
                return
        inst.state, inst.end = "DONE", self.t

    def step(self, i):
        s, t = i.spec, self.t
        if i.state == "REG":
            if i.released:
                i.state, i.rel = "REL", t
                return True
            return False
        if i.state == "REL":
            if i.event is not None and not i.event.occurred():
                return False
            if t > i.rel:
                self.wt[s["n"]].append((i.rel, t))
            i.state, i.due = "PRE", t + before(s, t)
            if i.due > t:
                return True
        if i.state == "PRE":
            if t < i.due:
                return False
            i.state, i.start = "RUN", t
            self.iv[s["n"]].append((t, None))
            k = s["t"]
            if k in ("basic", "move"):
                i.due = t + s["d"]
            elif k == "shift":
                i.due = t + s["d"]
                p = s.get("id", "default")
                self.lv[s["org"], p] -= s["amt"]
                if self.lv[s["org"], p] < 0 or (
                        self.lv[s["dst"], p] + s["amt"] > self.cap[s["dst"], p]):
                    raise Diverges("infeasible")
            elif k == "par":
                i.open = list(i.kids)
                for c in i.kids:
                    self.release(i, c)
            else:
                i.idx, i.round = 0, 1
                if k == "while":
                    i.cond = Latch(self, s["cond"], i)
                self.release(i, i.kids[0])
            return True
        if i.state == "POST":
            if t < i.due:
                return False
            self.finish(i)
            return True
        if i.state == "RUN":
            k = s["t"]
            if k in ("basic", "move", "shift"):
                if t < i.due:
                    return False
                if k == "shift":
                    self.lv[s["dst"], s.get("id", "default")] += s["amt"]
                self.finish(i)
                return True
            if k == "par":
                done = [c for c in i.open if c.state == "DONE"]
                for c in done:
                    i.open.remove(c)
                    self.note(i, "STOP", c)
                if not i.open:
                    self.finish(i)
                    return True
                return bool(done)
            c = i.kids[i.idx]
            if c.state != "DONE":
                return False
            if k == "while" and i.idx + 1 == len(i.kids) and self.late and not self.judging:
                return False
            self.judging = False
            self.note(i, "STOP", c)
            i.idx += 1
            if i.idx < len(i.kids):
                self.release(i, i.kids[i.idx])
                return True
            if k == "seq" or (k == "rep" and i.round >= s["k"]) or (
                    k == "while" and i.cond.met()):
                self.finish(i)
                return True
            i.round += 1
            if i.round > self.max_rounds:
                raise Diverges("diverges")
            i.idx = 0
            i.kids = self.register(s["sub"], i)
            self.release(i, i.kids[0])
            return True
        return False

    def settle(self):
        while True:
            changed = False
            for i in (reversed(self.live[:]) if self.rev else self.live[:]):
                if i.state != "DONE" and self.step(i):
                    changed = True
                    if self.eager:
                        for x in self.latches:
                            x.poll()
            if changed:
                continue
            if any([x.poll() for x in self.latches]):
                continue
            if self.late:
                self.judging = True
                if any(i.state == "RUN" and self.step(i) for i in self.live[:]):
                    self.judging = False
                    continue
                self.judging = False
            break
        self.live = [i for i in self.live if i.state != "DONE"]
        self.latches = [x for x in self.latches if not x.occ]

    def go(self):
        while True:
            self.settle()
            nxt = []
            for i in self.live:
                if i.state in ("PRE", "POST") or (
                        i.state == "RUN" and i.spec["t"] in ("basic", "move", "shift")):
                    nxt.append(i.due)
                elif i.event is not None:
                    nxt += [x for x in i.event.due() if x > self.t]
            if not nxt:
                return
            self.t = min(nxt)

    def result(self):
        return (
            {n: list(x) for n, x in self.iv.items()},
            {n: list(x) for n, x in self.wt.items()},
            {n: sorted(x) for n, x in self.st.items()},
        )


def expected(sc):
    """(result, None) or (None, reason why it is not judged)."""
    first = None
    for eager in (True, False):
        for rev, late in ((False, False), (True, False), (False, True)):
            try:
                r = Ref(sc, eager, rev, late).result()
            except Diverges as e:
                return None, e.args[0]
            if first is None:
                first = r
            elif r != first:
                return None, "ambiguous"
    return first, None


def observed(w):
    iv, wt, st = {}, {}, {}
    for n, a in w.acts.items():
        iv[n] = [(x - 0 if x is not None else None, y) for x, y in w.intervals(n)]
        wt[n] = w.waits(n)
        st[n] = sorted(
            (t - w.t0, s, lab["ref"][3:])
            for t, s, i, lab in w.log(n)
            if i == "id:" + n and lab and lab.get("type") == "subprocess" and s in ("START", "STOP")
        )
    return iv, wt, st


def compare(w, exp):
    """First difference as (signature, message), or None."""
    got = observed(w)
    for what, e, g in zip(("intervals", "waits", "steps"), exp, got):
        for n in e:
            a, b = e[n], g[n]
            if len(a) != len(b) or any(not close(x, y) for x, y in zip(a, b)):
                return what, f"{what} of {n}: {b}, expected {a}"
    return None


def close(x, y):
    for p, q in zip(x, y):
        if isinstance(p, str) or p is None or q is None or isinstance(q, str):
            if p != q:
                return False
        elif abs(p - q) > 1e-5:
            return False
    return True
