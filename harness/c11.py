"""C11: ADMM and fast ADMM."""
import numpy as np

import algdrv
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    cases = [algdrv.admm_case(algdrv.Gen(rng), bool(i % 2)) for i in range(2500 if thorough else 700)]
    cases += [algdrv.admm_cost_case(algdrv.Gen(rng)) for _ in range(200 if thorough else 40)]
    cases += [algdrv.admm_edge_case(algdrv.Gen(rng)) for _ in range(60 if thorough else 20)]
    # the multiplier is not carried into the subproblems (known finding): two fixed histories
    for fast in (False, True):
        cases.append(algdrv.admm_case(algdrv.Gen(np.random.default_rng(7)), fast, finding=True))
    check.add_traces("TrAlgo", algdrv.number(cases))
