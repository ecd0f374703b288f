"""C16: the low-rank operator, over histories of calls on one object."""
import warnings

import numpy as np

from c23 import operator
from common import call_event, num
from gen import BIG, large, layout, pick, rng_for
from loopdrv import quiet
from svddrv import matrix, rescale, threshold


def run(check):
    rng = rng_for(check)
    from modopt.opt.proximity import LowRankMatrix
    cases = []
    n = 700 if check.tier == "thorough" else 110
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        while len(cases) < n:
            events = ngole(rng, LowRankMatrix) if rng.random() < 0.25 else history(rng, LowRankMatrix)
            if events:
                cases.append({"id": len(cases) + 1, "events": events})
        with large():
            for _ in range(n // 12):
                events = ngole(rng, LowRankMatrix) if rng.random() < 0.4 else history(rng, LowRankMatrix)
                if events:
                    cases.append({"id": len(cases) + 1, "events": events})
    check.add_traces("TrSvd", cases, chunk=350)


def cube(rng, M, k, sh):
    return layout(rng, np.ascontiguousarray(M.T).reshape((k, *sh)))


def history(rng, cls):
    """Repeated use on data of changing size and rank, with and without hints."""
    ty = pick(rng, ["soft", "hard", None])
    kw = {} if ty is None else {"thresh_type": ty}
    if rng.random() < 0.2:
        kw["lowr_type"] = "standard"
    hints = rng.random() < 0.75
    if hints and rng.random() < 0.7:
        kw["initial_rank"] = int(rng.integers(0, 9))
    thr = float(pick(rng, [1.0, 0.5, 2.0, rng.uniform(0.1, 3), rng.uniform(0.1, 3), 2000.0, 1e-4]))
    inst = cls(thr, **kw)
    # a history may stay on one shape or change it from call to call
    fixed = shape(rng) if rng.random() < 0.6 else None
    events = []
    for _ in range(int(rng.integers(1, 7))):
        k, sh = fixed or shape(rng)
        M, enc, U, V, s = matrix(rng, int(np.prod(sh)), k, rng.random() < 0.2)
        t = threshold(rng, s)
        M, enc, s, t, sc = rescale(rng, M, enc, s, t)
        enc = dict(enc, sh=list(sh), type=ty or "soft", ngole=False, ts=[])
        x = cube(rng, M, k, sh)
        if sc == 1.0 and np.min(np.abs(s - thr)) > 1e-3 * max(1.0, s[0]) and rng.random() < 0.3:
            call, t = {}, thr
        else:
            call = {"extra_factor": t / thr}
        if hints and rng.random() < 0.4:
            call["rank"] = int(pick(rng, [rng.integers(0, min(M.shape) + 4), max(1, np.sum(s > t) - 1), np.sum(s > t)]))
        events.append(call_event("LowRankMatrix.op", dict(enc, thr=num(t)), inst.op, x, rtol="1e-6", atol=num(max(1e-6 * sc, 2e-14)),
                                 **call))
        if rng.random() < 0.5:
            ck = {"verbose": True} if rng.random() < 0.3 else {}
            events.append(call_event("LowRankMatrix.cost", dict(enc, thr=num(thr)), inst.cost, x, rtol="1e-9",
                                     atol=num(1e-9 * sc), **ck))
    return events


def shape(rng):
    if BIG:
        return int(rng.integers(13, 33)), pick(rng, [(int(rng.integers(4, 7)), int(rng.integers(4, 7))), (int(rng.integers(18, 40)),)])
    if rng.random() < 0.04:
        return int(rng.integers(31, 44)), (int(rng.integers(3, 7)), int(rng.integers(4, 7)))
    if rng.random() < 0.2:
        return int(rng.integers(5, 13)), (int(rng.integers(2, 5)), int(rng.integers(2, 5)))
    nd = int(rng.integers(1, 4))
    return int(rng.integers(1, 7)), tuple(int(rng.integers(1, 5)) for _ in range(nd))


def ngole(rng, cls):
    h = int(rng.integers(1, 5)) if not BIG else 5
    ty = pick(rng, ["soft", "hard"])
    w = None
    thr = float(rng.uniform(0.1, 1.5))
    events = []
    inst = None
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 7)) if not BIG else int(rng.integers(12, 24))
        M, enc, U, V, s = matrix(rng, h * h, n, rng.random() < 0.2, gap=bool(BIG))
        if len(s) > 1 and np.any((np.abs(np.diff(s)) < 0.05) & (s[1:] > 0)):
            continue
        if inst is None:
            oper, _ = operator(rng, U, h)
            inst = cls(thr, thresh_type=ty, lowr_type="ngole", operator=oper)
        ti = np.array([np.linalg.norm(e) for e in oper(U.T.reshape(-1, h, h))])
        f = float(rng.uniform(0.1, 2))
        ts = thr * f * ti
        if ty == "hard" and np.min(np.abs(np.abs(s[:, None] * V.T) - ts[:, None])) < 1e-4 * max(1, s[0]):
            continue
        enc = dict(enc, sh=[h, h], type=ty, ngole=True, ts=[num(v) for v in ts], thr=num(thr * f))
        events.append(call_event("LowRankMatrix.op", enc, inst.op, cube(rng, M, n, (h, h)), rtol="1e-8", atol="1e-8",
                                 extra_factor=f))
    return events
