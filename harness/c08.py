"""C08: POGM recursion."""
import algdrv
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    cases = [algdrv.pogm_case(algdrv.Gen(rng)) for _ in range(2500 if thorough else 700)]
    check.add_traces("TrAlgo", algdrv.number(cases))
