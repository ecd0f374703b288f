"""C01: iteration contract of every solver."""
import contextlib

import numpy as np

import common
import loopdrv

BASE = dict(WIND="6", MVals="{1}", Always="{FALSE}", CostChoice="BOOLEAN", NMets="{0, 1}", EarlySets="{{}}",
            CostOpts="BOOLEAN", Periods="{0, 1, 2}")


def run(check):
    thorough = check.tier == "thorough"
    limits = "{<<n>> : n \\in {1, 2, 3, 5, 8, 12}} \\cup {<<a, b>> : a, b \\in {1, 2, 4, 5}} \\cup {<<2, 1, 3>>, <<4, 4, 4>>, <<3, 0, 2>>, <<2, 0>>, <<1, 0, 0, 4>>}"
    if thorough:
        limits = "{<<n>> : n \\in 1..20} \\cup {<<a, b>> : a, b \\in 1..6} \\cup {<<a, b, c>> : a, b, c \\in 1..4}"
    res = common.model_check("MCLoop", constants=dict(BASE, LimitSeqs=limits))
    check.add_model("MCLoop", res)
    behs = res.behaviours()
    kinds = ("updates", "idx", "converge", "finals")
    loopdrv.replay_all(check, behs, kinds, cap=None if thorough else 450)
    # long runs: convergence may be declared at any update, or never
    res = common.model_check("MCLoop", constants=dict(
        BASE, LimitSeqs="{<<77>>, <<131>>, <<64, 3>>, <<3, 99>>}", NMets="{0, 1}", Periods="{13}"))
    check.add_model("MCLoop-long", res)
    behs = res.behaviours()
    plain = [b for b in behs if not any(b["script"]["cost"])]
    loopdrv.replay_all(check, plain, kinds, salt=1)
    loopdrv.replay_all(check, behs, kinds, cap=None if thorough else 25, salt=2)
    res = common.model_check("MCLoop", constants=dict(BASE, LimitSeqs="{<<1203>>, <<2, 640>>}", NMets="{0}", Periods="{5}", CostOpts="{FALSE}"))
    check.add_model("MCLoop-very-long", res)
    loopdrv.replay_all(check, res.behaviours(), kinds, salt=4)
    # random histories of up to eight runs, with metrics that may stop the run as well
    res = common.simulate("MCLoopSim", 3000 if thorough else 300, check.seed, constants=dict(
        BASE, LimitSeqs="{<<3, 1, 14, 3, 2, 1, 1, 20>>, <<12, 40, 1, 5>>, <<2, 2, 2, 2, 2, 2, 2>>, <<25, 9>>}", Periods="{1, 2, 7}",
        NMets="{1, 3}", EarlySets="{{}, {1}}", MVals="{1, 2}"))
    check.add_model("MCLoop-simulated", res)
    loopdrv.replay_all(check, res.behaviours(), kinds, cap=1500 if thorough else 50, salt=3)
    # automatic run at construction: 150 iterations (or the requested number), or until convergence
    for name in ("ForwardBackward", "GenForwardBackward", "POGM", "Condat"):
        for conv_at in (None, 1, 7, 149, 150):
            probe = loopdrv.Probe()
            script = [False] * 200
            if conv_at:
                script[conv_at - 1] = True
            cost = loopdrv.ScriptedCost(probe, script)
            with loopdrv.quiet():
                kind, alg = common.attempt(loopdrv.make, name, probe, None, 5, cost, {"auto_iterate": True})
            if kind == "raise":
                check.report(f"{name}: raised", {"message": alg})
                continue
            want = conv_at or 150
            if probe.updates != want or alg.idx != want - 1 or bool(alg.converge) != bool(conv_at):
                check.report(f"{name}: automatic run", {"updates": probe.updates, "expected": want, "idx": alg.idx})
            seen = probe.cost_x.get(probe.updates)
            if seen is None or not np.array_equal(alg.x_final, seen[0]):
                check.report(f"{name}: automatic run finals", {})
            check.replayed(1)
    for name in loopdrv.SOLVERS:    # default length of an explicit run
        probe = loopdrv.Probe()
        with loopdrv.quiet():
            alg = loopdrv.make(name, probe, None, 5, None)
            kind, val = common.attempt(alg.iterate)
        if kind == "raise" or probe.updates != 150 or alg.idx != 149:
            check.report(f"{name}: default run", {"updates": probe.updates, "error": str(val)})
        check.replayed(1)
