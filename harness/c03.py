"""C03: early stopping."""
import numpy as np

import common
import loopdrv
from common import num


def run(check):
    thorough = check.tier == "thorough"
    base = dict(WIND="6", Always="{FALSE}", CostChoice="{FALSE}", CostOpts="BOOLEAN")
    kinds = ("updates", "idx", "converge", "records")
    slices = [
        ("one-metric", dict(LimitSeqs="{<<9>>}", Periods="{1}", NMets="{1}", EarlySets="{{}, {1}}", MVals="{1, 2}"), 220),
        ("period", dict(LimitSeqs="{<<18>>}", Periods="{2}", NMets="{1}", EarlySets="{{1}}", MVals="{3, 4}"), 120),
        ("runs", dict(LimitSeqs="{<<7, 3>>, <<3, 4, 3>>}", Periods="{1}", NMets="{1}", EarlySets="{{1}}", MVals="{-1, 2}"), 220),
        ("two-metrics", dict(LimitSeqs="{<<7>>}", Periods="{1}", NMets="{2}", EarlySets="{{1}, {2}, {1, 2}}", MVals="{1, 2}"), 150),
        ("zero", dict(LimitSeqs="{<<8>>}", Periods="{1}", NMets="{1}", EarlySets="{{1}}", MVals="{0, 1}"), 100),
        ("threshold", dict(LimitSeqs="{<<7>>}", Periods="{1}", NMets="{1}", EarlySets="{{1}}", MVals="{998, 1000, 1002}"), 150),
        ("cost-and-metric", dict(LimitSeqs="{<<8>>}", Periods="{1, 3}", NMets="{1}", EarlySets="{{1}}", MVals="{2}",
                                 CostChoice="BOOLEAN"), 100),
    ]
    for k, (name, consts, cap) in enumerate(slices):
        res = common.model_check("MCLoop", constants=dict(base, **consts))
        check.add_model("MCLoop-" + name, res)
        loopdrv.replay_all(check, res.behaviours(), kinds, cap=cap * 12 if thorough else cap, salt=k)
    # long random behaviours with up to five metrics, marked in any position
    res = common.simulate("MCLoopSim", 3000 if thorough else 400, check.seed, constants=dict(
        base, CostChoice="{FALSE}", LimitSeqs="{<<30>>, <<9, 9, 20>>, <<12, 40>>, <<60>>}", Periods="{1, 2, 3}", NMets="{3, 4, 5}",
        EarlySets="{{}, {3}, {4}, {5}, {2, 4}, {1, 5}}", MVals="{1000, 1001, 1003, -900}"))
    check.add_model("MCLoop-simulated", res)
    loopdrv.replay_all(check, res.behaviours(), kinds, cap=1500 if thorough else 60, salt=99)
    observer_traces(check, 1500 if thorough else 300)


def observer_traces(check, n):
    """The window itself, for any window length, tolerance and real values (spec/TrMetric.tla)."""
    from modopt.base.observable import MetricObserver
    rng = np.random.default_rng([check.seed, 33])
    cases = []
    for i in range(n):
        wind = int(rng.integers(2, 10)) if rng.random() < 0.95 else int(rng.integers(10, 31))
        eps = float(rng.choice([1e-3, 1e-2, 0.1, 0.5, 1e-6]))
        early = bool(rng.random() < 0.85)
        level = rng.normal() * 10.0 ** rng.integers(-9, 9)
        values = []
        for k in range(int(rng.integers(1, 3 * wind)) if rng.random() < 0.93 else int(rng.integers(40, 90))):
            if rng.random() < 0.15:
                level = rng.normal() * 10
            values.append(float(level * (1 + eps * rng.choice([0, 0.1, 0.5, 1.0, 2.0, 5.0]) * rng.normal())))
        it = iter(values)
        kind, obs = common.attempt(MetricObserver, "m", lambda x: next(it), {"x": "x"}, {}, early, wind=wind, eps=eps)
        events = []
        for k, val in enumerate(values):
            sig = type("S", (), {})()
            sig.x, sig.idx = k, k
            kind, _ = common.attempt(obs, sig)
            events.append({"v": num(val), "flag": bool(obs.converge_flag) if kind == "ok" else False,
                           "raised": kind == "raise", "n": len(obs.retrieve_metrics()["values"])})
        cases.append({"id": i + 1, "wind": wind, "eps": num(eps), "early": early, "events": events})
    check.add_traces("TrMetric", cases)
