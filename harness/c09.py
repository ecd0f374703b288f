"""C09: Condat recursion and reweighting."""
import algdrv
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    cases = [algdrv.condat_case(algdrv.Gen(rng)) for _ in range(2500 if thorough else 700)]
    check.add_traces("TrAlgo", algdrv.number(cases))
