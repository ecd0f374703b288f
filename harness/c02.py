"""C02: metric schedule and records."""
import common
import loopdrv
import numpy as np


def run(check):
    thorough = check.tier == "thorough"
    base = dict(WIND="6", Always="{FALSE}", CostChoice="BOOLEAN", EarlySets="{{}}")
    limits = "{<<n>> : n \\in {1, 2, 6, 7, 11}} \\cup {<<4, 6>>, <<6, 3>>, <<1, 5>>, <<3, 2, 4>>, <<4, 0, 3>>}"
    if thorough:
        limits = "{<<n>> : n \\in 1..14} \\cup {<<a, b>> : a, b \\in 1..7} \\cup {<<3, 2, 4>>, <<5, 1, 5>>}"
    res = common.model_check("MCLoop", constants=dict(
        base, LimitSeqs=limits, Periods="{0, 1, 2, 3, 4, 5, 9}", NMets="{0, 1, 2}", MVals="{1}", CostOpts="BOOLEAN"))
    check.add_model("MCLoop-schedule", res)
    loopdrv.replay_all(check, res.behaviours(), ("records",), cap=None if thorough else 350)
    res = common.model_check("MCLoop", constants=dict(
        base, LimitSeqs="{<<83>>, <<40, 31>>}", Periods="{1, 7, 30, 100}", NMets="{1, 3}", MVals="{1}", CostOpts="BOOLEAN"))
    check.add_model("MCLoop-long", res)
    behs = res.behaviours()
    loopdrv.replay_all(check, [b for b in behs if not any(b["script"]["cost"])], ("records",), salt=2)
    loopdrv.replay_all(check, behs, ("records",), cap=400 if thorough else 20, salt=3)
    res = common.model_check("MCLoop", constants=dict(
        base, LimitSeqs="{<<420>>, <<5, 300>>}", Periods="{1, 150}", NMets="{1}", MVals="{1}", CostOpts="{FALSE}"))
    check.add_model("MCLoop-very-long", res)
    loopdrv.replay_all(check, res.behaviours(), ("records",), salt=4)
    res = common.model_check("MCLoop", constants=dict(
        base, LimitSeqs="{<<5>>, <<2, 3>>}", Periods="{1, 2}", NMets="{2}", MVals="{0, -3, 2}", CostOpts="{FALSE}"))
    check.add_model("MCLoop-values", res)
    loopdrv.replay_all(check, res.behaviours(), ("records",), cap=1500 if thorough else 100, salt=1)
    # early stopping while metrics are evaluated every few updates: the stopping update is recorded too
    res = common.model_check("MCLoop", constants=dict(
        base, LimitSeqs="{<<24>>, <<9, 20>>}", Periods="{2, 3}", NMets="{1, 2}", MVals="{3}", CostOpts="{FALSE}",
        EarlySets="{{1}}"))
    check.add_model("MCLoop-early", res)
    loopdrv.replay_all(check, res.behaviours(), ("records",), cap=400 if thorough else 100, salt=5)
    # random histories: many metrics, many runs
    res = common.simulate("MCLoopSim", 3000 if thorough else 300, check.seed, constants=dict(
        base, LimitSeqs="{<<30>>, <<9, 1, 14, 3>>, <<12, 40>>, <<2, 2, 2, 2, 2, 2, 2>>}", Periods="{1, 2, 3, 6, 11}",
        NMets="{2, 4, 6}", MVals="{1, -7, 0, 12}", CostOpts="BOOLEAN"))
    check.add_model("MCLoop-simulated", res)
    loopdrv.replay_all(check, res.behaviours(), ("records",), cap=1500 if thorough else 50, salt=99)
    kept(check)
    together(check)


KEYS = {"ForwardBackward": ("x_new", "z_new"), "GenForwardBackward": ("x_new", "z_new"), "Condat": ("x_new", "y_new"),
        "POGM": ("u_new", "x_new", "y_new", "z_new"), "ADMM": ("x_new", "v_new"), "FastADMM": ("x_new", "v_new")}


def kept(check):
    """Metrics whose value is an iterate itself: every record keeps the value it had when it was made."""
    for name in loopdrv.SOLVERS:
        for period, runs in ((1, (4,)), (2, (5, 1)), (3, (1, 7, 2))):
            saved = {}

            def recorder(key):
                def fn(value):
                    saved.setdefault(key, []).append(np.array(value, copy=True))
                    return value
                return fn
            keys = KEYS.get(name, ("x_new", "dir_grad", "speed_grad"))
            mets = {k: {"metric": recorder(k), "mapping": {k: "value"}, "cst_kwargs": {}, "early_stopping": False} for k in keys}
            alg = loopdrv.make(name, loopdrv.Probe(), mets, period, None)
            with loopdrv.quiet():
                for n in runs:
                    alg.iterate(max_iter=n)
            want = sum(len({*range(0, n, period), n - 1}) for n in runs)
            for k in keys:
                vals = alg.metrics[k]["values"]
                if len(vals) != want or len(saved[k]) != want:
                    check.report(f"{name}: number of records of {k}", {"period": period, "runs": runs, "records": len(vals)})
                elif any(np.shape(a) != np.shape(b) or not np.array_equal(a, b) for a, b in zip(vals, saved[k])):
                    check.report(f"{name}: a record of {k} changed later", {"period": period, "runs": runs})
            check.replayed(1)


def together(check):
    """Two solvers alive at once, sharing one metrics dictionary, run in turn or one inside a metric of the other:
    each publishes the records it would publish alone."""
    names = loopdrv.SOLVERS

    def metrics(inside=None):
        def fn(value):
            if inside:
                inside()
            return np.array(value, copy=True)
        return {"m": {"metric": fn, "mapping": {"x_new": "value"}, "cst_kwargs": {}, "early_stopping": False}}

    def build(name, period, mets):
        return loopdrv.make(name, loopdrv.Probe(), mets, period, None)

    def published(alg):
        rec = alg.metrics["m"]
        return [int(i) for i in rec["index"]], [np.array(v) for v in rec["values"]]

    def same(got, want):
        return got[0] == want[0] and len(got[1]) == len(want[1]) and all(map(np.array_equal, got[1], want[1]))

    def schedule(runs, period):
        return [i for n in runs for i in sorted({*range(0, n, period), n - 1})]
    with loopdrv.quiet():
        for k, name in enumerate(names):
            for other, period, runs, runs2 in ((name, 2, (3, 4), (5, 1)), (names[(k + 1) % len(names)], 1, (2, 3), (4, 2)),
                                               (names[(k + 3) % len(names)], 3, (7, 2), (1, 5))):
                alone = []
                for nm, todo in ((name, runs), (other, runs2)):
                    alg = build(nm, period, metrics())
                    for n in todo:
                        alg.iterate(max_iter=n)
                    alone.append(published(alg))
                mets = metrics()
                a, b = build(name, period, mets), build(other, period, mets)
                for n, m in zip(runs, runs2):
                    a.iterate(max_iter=n)
                    b.iterate(max_iter=m)
                inner = build(other, period, metrics())
                outer = build(name, period, metrics(lambda: inner.iterate(max_iter=2)))
                for n in runs:
                    outer.iterate(max_iter=n)
                case = {"solvers": [name, other], "period": period, "runs": [runs, runs2]}
                if not same(published(a), alone[0]) or not same(published(b), alone[1]):
                    check.report(f"{name}: records change when another solver runs in turn", case)
                if alone[0][0] != schedule(runs, period) or not same(published(outer), alone[0]):
                    check.report(f"{name}: records change when a metric runs another solver", case)
                if published(inner)[0] != schedule((2,) * len(alone[0][0]), period):
                    check.report(f"{other}: records change when run inside a metric", case)
                check.replayed(1)
