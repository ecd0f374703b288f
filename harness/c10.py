"""C10: gradient-descent family."""
import algdrv
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    kinds = sorted(algdrv.GD)
    cases = [algdrv.gd_case(algdrv.Gen(rng), kinds[i % 7]) for i in range(3500 if thorough else 700)]
    check.add_traces("TrAlgo", algdrv.number(cases))
