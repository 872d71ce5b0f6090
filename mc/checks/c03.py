"""C03: cargo is conserved."""

import itertools

from ..fleet import (Conservation, buffer_fleets, claim_fleets, crane_fleets, fleet, plugin_fleets,
                     schedules, std_fleets, tiny_fleets,
                     variant_fleets)

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "every fleet of the families, under every registration order and every order of "
    "simultaneous timeouts (within the deviation bound of the case); before every advance "
    "of time all level changes must be explained by the transfers that started and stopped "
    "(linear accounting per object and product); a case is one fleet, non-trivial if it ran"
)
ASSUMPTIONS = [
    "up to three vessels, at most five trips each, durations 1 and 2 (equal ones make ties)",
    "a transfer is under way between the START and STOP entries of its activity",
]
CHUNK = 4


def cases(tier):
    fams = [std_fleets(tier), variant_fleets(tier), buffer_fleets(tier), crane_fleets(tier)]
    if tier != "quick":
        fams.append(plugin_fleets(tier))
    for fam in fams:
        for sc, dev in fam:
            yield {"sc": sc, "dev": dev if tier != "quick" else min(dev, 1)}
    if tier == "quick":
        for k, (sc, dev) in enumerate(plugin_fleets(tier)):
            yield {"sc": sc, "dev": 0}
    for sc, dev in tiny_fleets(tier):
        yield {"sc": sc, "dev": dev}
    for sc, dev in claim_fleets(tier):
        yield {"sc": sc, "dev": dev, "orders": [[2, 0, 1]]}
    # competition for too little: may end in an error, must conserve until then
    D = [(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2)]
    for d in itertools.product(D, repeat=2):
        for sl in ((1, 1), (2, 2)):
            for total, dcap, vc, amt in ((3, 10, (2, 2), None), (10, 3, (2, 2), None),
                                         (5, 4, (3, 2), None), (10, 10, (2, 3), 4),
                                         (10, 10, (4, 3), 1.5)):
                for stop in (2, "dfull"):
                    yield {"sc": fleet(d, sl, total, dcap, vc, stop, amt), "dev": 1}


def run_case(case, res):
    schedules(case, res, [Conservation])
