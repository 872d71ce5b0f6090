"""Runs one check: exhaustive enumeration of its cases over a pool of processes.

    python -m mc.run C05 [--tier quick|thorough] [--replay FILE] [--jobs N]

Exit 0: the property held on everything explored (listed known findings are
printed).  Exit 1: a line ``VIOLATION property=<id> replay=<path>``.
"""

import argparse
import collections
import importlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pathlib
import resource
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent


class CaseTimeout(BaseException):
    """Not an Exception: code under test must not swallow it."""


def _alarm(signum, frame):
    raise CaseTimeout()


class Result:
    """What one case covered and what it found."""

    def __init__(self):
        self.execs = 0
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []
        self.capped = 0
        self.skipped = 0
        self.notes = collections.Counter()

    def bad(self, sig, msg, **kw):
        self.violations.append(dict(sig=sig, msg=msg, **kw))

    def state(self, *x):
        self.states.add(hash(x))

    def outcome(self, *x):
        self.outcomes.add(hash(x))


def run_one(mod, case, limit):
    res = Result()
    # processor time, so that a busy machine does not matter
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 5 * limit)
    try:
        mod.run_case(case, res)
    except CaseTimeout:
        res.bad("timeout", f"no answer within {limit} s")
    except MemoryError:
        res.bad("memory", "memory exhausted")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/src/')[-1]}:{f.name}" for f in tb[-3:]]
        res.bad("exception", f"{type(e).__name__}: {e} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res


_MOD = None
_LIMIT = 30


def _init(limit):
    global _LIMIT
    _LIMIT = limit
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # about 3 GB beyond what is mapped already
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _chunk(cases):
    agg = Result()
    found = []
    n = nontrivial = 0
    for c in cases:
        r = run_one(_MOD, c, _LIMIT)
        n += 1
        agg.execs += r.execs
        agg.steps += r.steps
        agg.states |= r.states
        agg.outcomes |= r.outcomes
        agg.capped += r.capped
        agg.skipped += r.skipped
        agg.notes.update(r.notes)
        nontrivial += bool(r.execs and not r.skipped)
        for v in r.violations:
            found.append((c, v))
        if found and found[-1][1]["sig"] == "timeout":
            break  # the rest follows when it is known whether this is a violation
    return n, nontrivial, agg, found


def _chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


class Workers:
    """Forked processes, each with a pipe of its own, so that one which is ended
    at any point (a result half written, say) cannot block the others or us."""

    def __init__(self, jobs, limit):
        self.ctx = mp.get_context("fork")
        self.limit = limit
        self.jobs = jobs
        self.idle = []
        self.busy = {}  # connection -> (process, number of the job, deadline)
        self.queue = collections.deque()
        self.ready = {}
        self.chunks = {}
        self.last = 0

    def _serve(self, conn, others):
        for c in others:
            c.close()
        _init(self.limit)
        try:
            while True:
                kind, x = conn.recv()
                conn.send(_chunk(x) if kind == "chunk" else run_one(_MOD, x, 4 * _LIMIT))
        except (EOFError, OSError, KeyboardInterrupt):
            pass
        os._exit(0)

    def _spawn(self):
        ours, theirs = self.ctx.Pipe()
        others = [ours, *self.busy, *(c for _, c in self.idle)]
        p = self.ctx.Process(target=self._serve, args=(theirs, others), daemon=True)
        p.start()
        theirs.close()
        return p, ours

    def _start(self):
        while self.queue and len(self.busy) < self.jobs:
            k, job, seconds = self.queue.popleft()
            p, c = self.idle.pop() if self.idle else self._spawn()
            try:
                c.send(job)
            except OSError:
                p.kill()
                c.close()
                self.queue.appendleft((k, job, seconds))
                continue
            self.busy[c] = (p, k, time.time() + seconds)

    def submit(self, kind, x, seconds):
        """The number of the job."""
        self.last += 1
        self.queue.append((self.last, (kind, x), seconds))
        self._start()
        return self.last

    def get(self, k):
        """What job k returned; None if its process ended without an answer."""
        while k not in self.ready:
            now = time.time()
            wait = max(0, min(d for _, _, d in self.busy.values()) - now)
            for c in multiprocessing.connection.wait(list(self.busy), wait):
                p, j, _ = self.busy.pop(c)
                try:
                    self.ready[j] = c.recv()
                    self.idle.append((p, c))
                except Exception:  # ended before or while it answered
                    self.ready[j] = None
                    p.kill()
                    c.close()
            now = time.time()
            for c, (p, j, d) in list(self.busy.items()):
                if d <= now:
                    del self.busy[c]
                    p.kill()
                    c.close()
                    self.ready[j] = None
            self._start()
        return self.ready.pop(k)

    def end(self):
        for p in [p for p, _ in self.idle] + [p for p, _, _ in self.busy.values()]:
            p.kill()


def load_known(pid):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [
        e for e in json.loads(f.read_text())["findings"]
        if e["property"] == pid and e.get("status") == "open"
    ]


def matches(entry, case, v):
    """A finding is identified by the signature and, if given, the exact case."""
    if v["sig"] != entry["signature"]:
        return False
    return "cases" not in entry or case in entry["cases"]


def main(argv=None):
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--all", action="store_true", help="do not stop at a violation")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        _MOD = mod = importlib.import_module(f"mc.checks.{a.id.lower()}")
    except Exception as e:
        # the tree under test cannot even be imported
        traceback.print_exc()
        d = ROOT / "out" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        p = d / f"{a.id}-import.json"
        p.write_text(json.dumps({"property": a.id, "error": str(e)}))
        print(f"VIOLATION property={a.id} replay={p}")
        return 1
    limit = getattr(mod, "CASE_LIMIT", 30)
    budget = float(os.environ.get("MC_BUDGET", 600 if tier == "quick" else 5400))

    if a.replay:
        rec = json.loads(pathlib.Path(a.replay).read_text())
        r = run_one(mod, rec["case"], limit * 3)
        print(json.dumps(rec["case"]))
        for v in r.violations:
            print("  ", v["sig"], "-", v["msg"])
        if r.violations:
            print(f"VIOLATION property={a.id} replay={a.replay}")
            return 1
        print("held")
        return 0

    known = load_known(a.id)
    known_hit = {}
    total = Result()
    n = nontrivial = 0
    samples = []
    viol = []
    complete = True
    deadline = t0 + budget

    def gen():
        for i, c in enumerate(mod.cases(tier)):
            if i < 3 or (i % 997 == 0 and len(samples) < 8):
                samples.append(c)
            yield c

    size = getattr(mod, "CHUNK", 20)
    inflight_max = a.jobs * 4
    workers = Workers(a.jobs, limit)

    def submit(c):
        return workers.submit("chunk", c, 5 * limit * len(c) + 60), c

    def again(c):
        """One case by itself, at leisure: a loaded machine is not a violation."""
        r = workers.get(workers.submit("case", c, 20 * limit + 60))
        if r is None:
            r = Result()
            r.bad("worker", "the process that ran this case ended without an answer")
        return r

    try:
        chunks = _chunks(gen(), size)
        pending = collections.deque()
        exhausted = False
        while True:
            while not exhausted and len(pending) < inflight_max:
                c = next(chunks, None)
                if c is None:
                    exhausted = True
                    break
                pending.append(submit(c))
            if not pending:
                break
            job, chunk = pending.popleft()
            answer = workers.get(job)
            if answer is None and len(chunk) > 1:
                # which of them was it?
                pending.extendleft(submit([c]) for c in reversed(chunk))
                continue
            m, nt, agg, found = answer or (
                1, 0, Result(), [(chunk[0], dict(sig="worker", msg="no answer"))])
            n += m
            nontrivial += nt
            total.execs += agg.execs
            total.steps += agg.steps
            total.states |= agg.states
            total.outcomes |= agg.outcomes
            total.capped += agg.capped
            total.skipped += agg.skipped
            total.notes.update(agg.notes)
            for c, v in found:
                k = next((e for e in known if matches(e, c, v)), None)
                if k is not None:
                    known_hit.setdefault(k["signature"], (k, c, v))
                elif v["sig"] in ("timeout", "worker"):
                    for w in again(c).violations:
                        viol.append((c, w))
                else:
                    viol.append((c, v))
            if viol and not a.all:
                complete = False
                break
            if m < len(chunk):
                pending.append(submit(chunk[m:]))
            if time.time() > deadline:
                complete = False
                print(f"time budget of {budget:.0f} s used up after {n} cases")
                break
    finally:
        workers.end()

    wall = time.time() - t0
    ev = dict(
        property=a.id,
        tier=tier,
        seed=seed,
        level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=len(total.states),
            transitions=total.steps,
            traces_validated_against_impl=total.execs,
            evaluations=n,
            distinct_nontrivial=nontrivial,
            distinct_outcomes=len(total.outcomes),
            capped_searches=total.capped,
            rule=mod.RULE,
            samples=samples[:5],
            exhaustive=bool(complete and not total.capped and not viol),
        ),
        assumptions=list(mod.ASSUMPTIONS),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    if total.notes:
        ev["coverage"]["notes"] = dict(total.notes)
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{a.id}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k, c, v in known_hit.values():
        print(f"KNOWN-FINDING: property={a.id} {k['what']}")
    print(
        f"{a.id} {tier}: {n} cases, {total.execs} executions, {total.steps} steps, "
        f"{len(total.states)} states, {len(total.outcomes)} outcomes, "
        f"{total.capped} capped, {total.skipped} skipped, {wall:.1f} s"
        + ("" if complete else " (stopped early)")
    )
    if total.notes:
        print("  notes:", dict(total.notes))
    if viol:
        d = ROOT / "out" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        seen = collections.Counter()
        path = None
        for i, (c, v) in enumerate(viol):
            seen[v["sig"]] += 1
            if seen[v["sig"]] > 3:
                continue
            p = d / f"{a.id}-{i}.json"
            p.write_text(json.dumps({"property": a.id, "case": c, **v}, default=str))
            path = path or p
            print(f"  [{v['sig']}] {v['msg']}\n     case {json.dumps(c)[:1500]}")
        print("  by signature:", dict(seen))
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
