"""C04: cost tracking."""
import os
import tempfile

import numpy as np

import common
import loopdrv
from common import num

TOLS = {"0.0": 0.0, "0.25": 0.25, "0.5": 0.5, "1.0": 1.0}


class Op:
    def __init__(self):
        self.next, self.seen = 0.0, []

    def cost(self, *args, **kwargs):
        self.seen.append(args)
        return self.next


def kept(obj):
    """Costs kept by the object, as its own plot shows them (log10)."""
    import matplotlib.pyplot as plt
    got = {}

    def grab(name, *a, **k):
        lines = plt.gca().lines
        got["y"] = [float(v) for v in lines[0].get_ydata()] if lines else None
        got["name"] = name
    old = plt.savefig
    plt.savefig = grab
    try:
        with np.errstate(all="ignore"):
            obj.plot_cost()
    finally:
        plt.savefig = old
        plt.close("all")
    return got.get("y")


def run(check):
    thorough = check.tier == "thorough"
    res = common.model_check("MCCost", constants=dict(
        Intervals="{0, 1, 2, 3}", Ranges="2..5", Tols='{"0.0", "0.5"}', Vals='{"0.0", "1.0", "-2.0"}' if check.seed % 2 else '{"0.0", "1.0", "2.0"}',
        NCalls="8" if thorough else "7"))
    check.add_model("MCCost", res)
    # a history with a change on the tolerance has more than one allowed answer sequence
    allowed = {}
    for beh in res.behaviours():
        key = (beh["c"]["interval"], beh["c"]["range"], beh["c"]["tol"], tuple(beh["vals"]))
        allowed.setdefault(key, []).append(beh)
    behs = [b[0] for b in allowed.values()]
    for b in allowed.values():
        b[0]["allowed"] = [x["ans"] for x in b]
    from modopt.opt.cost import CostParent, costObj

    class Custom(CostParent):
        def _calc_cost(self, *args, **kwargs):
            return self.val

    rng = np.random.default_rng([check.seed, 4])
    if not thorough and len(behs) > 14000:
        behs = [behs[i] for i in rng.choice(len(behs), 14000, replace=False)]
    with loopdrv.quiet():
        for beh in behs:
            c = beh["c"]
            kw = dict(tolerance=float(c["tol"]), cost_interval=c["interval"] or None, test_range=c["range"],
                      verbose=bool(rng.integers(2)))
            if rng.random() < 0.5:
                op = Op()
                obj = costObj([op], **kw)
            else:
                op = None
                obj = Custom(**kw)
            got = []
            for v in beh["vals"]:
                if op:
                    op.next = float(v)
                else:
                    obj.val = float(v)
                kind, ans = common.attempt_fast(obj.get_cost, 1.0)
                got.append(bool(ans) if kind == "ok" else ans)
            if got not in beh["allowed"]:
                check.report("convergence verdicts differ from the window automaton", {"behaviour": beh, "got": got})
        check.replayed(len(behs))
        check.coverage["samples"].append(behs[0])
        traces(check, rng, 1500 if thorough else 400, costObj)


def traces(check, rng, n, costObj):
    cases = []
    for i in range(n):
        long = rng.random() < 0.06
        interval = int(rng.choice([1, 7, 11, 4, 13] if long else [1, 1, 1, 2, 3, 5, 0]))
        rnge = int(rng.integers(2, 9)) if rng.random() < 0.93 else int(rng.integers(9, 24))
        tol = float(rng.choice([1e-4, 1e-2, 0.1, 1e-8, 0.0, 0.5]))
        initial = float(rng.choice([1e6, 3.0]))
        if long and rng.random() < 0.5:
            interval, rnge = [(1, int(rng.integers(24, 90))), (int(rng.integers(31, 90)), 2), (2, int(rng.integers(24, 60)))][int(rng.integers(3))]
        ops = [Op() for _ in range(int(rng.integers(1, 5)))]
        kw = {}
        if not (tol == 1e-4 and rng.random() < 0.5):
            kw["tolerance"] = tol
        if not (interval == 1 and rng.random() < 0.5):
            kw["cost_interval"] = interval or None
        if not (rnge == 4 and rng.random() < 0.5):
            kw["test_range"] = rnge
        if initial != 1e6:
            kw["initial_cost"] = initial
        if rng.random() < 0.15:      # the same operator may be listed more than once
            ops.append(ops[int(rng.integers(len(ops)))])
        container = [list, tuple, lambda s: np.array(s, dtype=object)][int(rng.integers(3))]
        obj = costObj(container(ops), **kw)
        sign = -1.0 if rng.random() < 0.15 else 1.0     # costs may be negative as well
        level = sign * np.abs(rng.normal(size=len(ops))) * 10.0 ** rng.integers(-13, 10) * (0 if rng.random() < 0.05 else 1)
        events = []
        exp_n = 0
        for _ in range(max(int(rng.integers(60, 260)), 3 * interval * rnge) if long else int(rng.integers(3, 30)) + 3 * (rnge > 8) * rnge):
            if rng.random() < 0.1:
                level = sign * np.abs(rng.normal(size=len(ops)))
            parts = level * (1 + rng.choice([0, tol, tol * 0.3, 1.0]) * np.abs(rng.normal(size=len(ops))))
            if rng.random() < 0.05:
                parts = parts * 0
            if rng.random() < 0.02:
                parts[int(rng.integers(len(parts)))] = rng.choice([np.inf, np.nan, -np.inf])
            parts = [parts[next(j for j in range(len(ops)) if ops[j] is op)] for op in ops]
            args = tuple(rng.normal(size=2) for _ in range(int(rng.integers(1, 4))))
            for op, p in zip(ops, parts):
                op.next = float(p)
                op.seen = []
            kind, ans = common.attempt_fast(obj.get_cost, *args)
            evaluated = any(op.seen for op in ops)
            argsok = (not evaluated) or all(
                len(op.seen) == sum(o is op for o in ops) and len(op.seen[0]) == len(args)
                and all(np.array_equal(a, b) for a, b in zip(op.seen[0], args)) for op in ops)
            exp_n += evaluated
            y = kept(obj) if rng.random() < 0.05 else None
            events.append({"parts": [num(p) for p in parts], "ans": bool(ans) if kind == "ok" else False,
                           "raised": ans if kind == "raise" else "", "evaluated": evaluated, "argsok": argsok,
                           "cur": num(obj.cost), "y": y})
        cases.append({"id": i + 1, "interval": interval, "range": rnge, "tol": num(tol), "initial": num(initial),
                      "events": events})
    # kept costs: only sampled events carry them; the others repeat what the trace implies
    for case in cases:
        for ev in case["events"]:
            y = ev.pop("y")
            ev["hasy"] = y is not None
            ev["hist"] = [num(v) for v in y] if y is not None else []
    check.add_traces("TrCost", cases)
