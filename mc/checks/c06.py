"""C06: fleets that stop on reservations deliver exactly."""

import itertools

from ..fleet import Reservations, fleet, schedules

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "every fleet of one to three equal trip amounts, every registration order and every "
    "order of simultaneous timeouts (within the deviation bound of the case); reservation "
    "accounts are compared with the registered and pending transfers before every advance "
    "of time, final levels and number of trips at the end; a case is one fleet"
)
ASSUMPTIONS = [
    "vessels carry equal amounts and there is work for each of them (total > (n-1) trips)",
    "amounts are exactly representable, so 'full' and 'empty' are exact comparisons",
]
CHUNK = 4


def cases(tier):
    quick = tier == "quick"
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2), (2, 1, 1, 2)]
    slots2 = [(1, 1), (2, 1), (1, 2), (2, 2)]
    for d in D if quick else itertools.product((1, 2), repeat=4):
        for total, dcap, stop in ((1, 1, "dres"), (2, 2, "dres"), (3, 3, "dres"),
                                  (4, 4, "ores"), (5, 5, "ores"), (5, 5, "dres"),
                                  (6, 5, "dres"), (9, 4, "dres"), (5, 9, "ores")):
            for kw in ({}, {"amount": 2, "vcap": 3}, {"amount": 1.5}, {"product": "sand"}):
                yield {"sc": fleet([tuple(d)], (1, 1), total, dcap, stop=stop, **kw), "dev": 3}
    for d in itertools.product(D, repeat=2):
        for sl in slots2:
            for total, dcap, stop, kw in (
                (4, 4, "dres", {}), (5, 5, "dres", {}), (5, 5, "ores", {}),
                (6, 5, "dres", {}), (5, 8, "ores", {}),
                (5, 5, "dres", {"amount": 2, "vcap": 3}),
                (3, 3, "dres", {"product": "sand"}),
                (6, 6, "dres", {"aslist": True}),
                (5, 5, "dres", {"crane": 1}), (5, 5, "ores", {"crane": 2, "aslist": True}),
                (2.5, 2.5, "dres", {"amount": 0.5}),
            ):
                if quick and sl in ((2, 1), (1, 2)) and kw and "crane" not in kw:
                    continue
                yield {"sc": fleet(d, sl, total, dcap, stop=stop, **kw),
                       "dev": 1 if quick else 4}
        # the stop condition in other words
        for form, sl, stop in itertools.product(
                ("and", "or", "nest", "lvl", "both", "list", "either", "never", "once"),
                [(1, 1), (2, 2)], ("dres", "ores")):
            if d[0] != d[1] and quick and sl != (2, 2):
                continue
            yield {"sc": fleet(d, sl, 6, 6, stop=stop, aslist=form), "dev": 1 if quick else 3}
    for d in itertools.combinations_with_replacement(D[:3] if quick else D, 3):
        for sl in ((1, 1), (3, 3)) if quick else ((1, 1), (2, 1), (1, 2), (3, 3)):
            for total in (5, 6, 7) if quick else (5, 6, 7, 8, 9):
                yield {"sc": fleet(d, sl, total, total, 2, "dres"), "dev": 1 if quick else 2}


def run_case(case, res):
    schedules(case, res, [Reservations])
