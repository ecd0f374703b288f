"""C06: forward-backward recursion."""
import algdrv
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    cases = [algdrv.fb_case(algdrv.Gen(rng)) for _ in range(3000 if thorough else 700)]
    helper = [algdrv.fista_case(algdrv.Gen(rng)) for _ in range(3000 if thorough else 500)]
    check.add_traces("TrFista", algdrv.number(helper))
    check.add_traces("TrAlgo", algdrv.number(cases))
