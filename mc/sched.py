"""Controlled simulation environments.

The only scheduling nondeterminism of a discrete-event simulation is the order
in which happenings of the same simulated time are processed.  ``TieEnv`` owns
that order for timeouts of positive delay: whenever several of them are due at
the same time and everything else due at that time has been processed, it asks
a ``Chooser`` which one goes first.  Any such order is what arbitrarily small
changes of durations produce, so every explored schedule is realisable.
"""

import heapq

import simpy
from simpy.events import Timeout


class ReplayError(Exception):
    """A recorded prefix of choices does not fit the execution (hard error)."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.choices = []
        self.widths = []

    def choose(self, n):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise ReplayError(f"choice {c} of {n} at point {i}")
        else:
            c = 0
        self.choices.append(c)
        self.widths.append(n)
        return c


class TieEnv(simpy.Environment):
    """simpy environment whose simultaneous timeouts are ordered by a chooser."""

    def __init__(self, initial_time=0, chooser=None):
        super().__init__(initial_time)
        self.chooser = chooser

    def step(self):
        q = self._queue
        if self.chooser is not None and len(q) > 1:
            t = q[0][0]
            same = [e for e in q if e[0] == t]
            if len(same) > 1:
                tos = [
                    e for e in same if isinstance(e[3], Timeout) and e[3]._delay > 0
                ]
                rest = len(same) - len(tos)
                if rest and tos:
                    # zero-delay consequences come before the next timeout
                    first = min(e for e in same if e not in tos)
                    self._promote(first)
                elif len(tos) > 1:
                    tos.sort(key=lambda e: e[2])
                    self._promote(tos[self.chooser.choose(len(tos))])
        super().step()

    def _promote(self, entry):
        q = self._queue
        if q[0] is entry:
            return
        i = next(k for k, e in enumerate(q) if e is entry)
        q[i] = (entry[0], -1, entry[2], entry[3])
        heapq.heapify(q)


def explore(run, max_deviations=None, max_execs=None):
    """Stateless search over all choice sequences.

    ``run(chooser)`` performs one complete execution.  Yields (chooser, result)
    for every execution.  ``max_deviations`` bounds the number of non-zero
    choices; ``max_execs`` caps the search (the caller reports the cap).
    """
    stack = [[]]
    n = 0
    while stack:
        if max_execs is not None and n >= max_execs:
            yield None, None
            return
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        if len(ch.choices) < len(prefix):
            raise ReplayError(f"prefix {prefix} not consumed: {ch.choices}")
        n += 1
        yield ch, res
        for i in range(len(ch.choices) - 1, len(prefix) - 1, -1):
            dev = sum(1 for c in ch.choices[:i] if c)
            if max_deviations is not None and dev + 1 > max_deviations:
                continue
            for alt in range(1, ch.widths[i]):
                stack.append(ch.choices[:i] + [alt])
