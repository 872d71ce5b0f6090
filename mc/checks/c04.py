"""C04: containers are never overdrawn or overfilled by transfers."""

import itertools

from ..fleet import (Levels, buffer_fleets, claim_fleets, fleet, plugin_fleets, schedules, std_fleets,
                     variant_fleets)

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "every fleet of the families below, under every registration order and every order "
    "of simultaneous timeouts (within the deviation bound of the case); the level bounds "
    "are checked after every simulation step; a case is one fleet, non-trivial if it ran"
)
ASSUMPTIONS = [
    "transfers only: containers changed directly by user code are not covered",
    "up to three vessels, at most five trips, durations 1 and 2 (equal ones make ties)",
]
CHUNK = 4


def cases(tier):
    for sc, dev in std_fleets(tier):
        yield {"sc": sc, "dev": dev}
    for sc, dev in variant_fleets(tier):
        yield {"sc": sc, "dev": dev}
    for sc, dev in buffer_fleets(tier):
        yield {"sc": sc, "dev": dev}
    # fleets that compete for too little content or room: they may end in an error,
    # but must not break the bounds before that
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2)]
    for d0 in D:
        for d1 in D:
            for sl in ((1, 1), (2, 2), (2, 1), (1, 2)):
                for total, dcap, vc in ((3, 10, (2, 2)), (10, 3, (2, 2)), (10, 10, (8, 8)),
                                        (5, 4, (3, 2))):
                    for stop in (2, "dfull"):
                        yield {"sc": fleet([d0, d1], sl, total, dcap, vc, stop), "dev": 2}
    for sc, dev in claim_fleets(tier):
        yield {"sc": sc, "dev": dev, "orders": [[0, 1, 2], [2, 0, 1]]}
    # the same with preparations that take time
    for sc, dev in plugin_fleets(tier):
        yield {"sc": sc, "dev": 0 if tier == "quick" else dev}
    prep = [{"pl": {"rec": [{"pre": 2}]}}, {"pl": {"rec": [{"pre": 0.5, "post": 1}]}}]
    for d0, d1 in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2), (2, 1), (1, 2)):
            for total, dcap, vc in ((3, 10, (2, 2)), (10, 3, (2, 2)), (5, 4, (3, 2))):
                for p, where in itertools.product(prep, ((1,), (3,), (1, 3))):
                    yield {"sc": fleet([d0, d1], sl, total, dcap, vc, 2,
                                       extra={i: p for i in where}), "dev": 1}


def run_case(case, res):
    schedules(case, res, [Levels])
