"""C23: singular-value thresholding functions."""
import warnings

import numpy as np
from scipy.signal import convolve2d

from common import call_event, encode_out, mkcases, num, vec
from gen import BIG, large, layout, pick, rng_for
from loopdrv import quiet
from svddrv import matrix, rescale, threshold


def run(check):
    rng = rng_for(check)
    from modopt.signal import svd
    events = []
    n = 3000 if check.tier == "thorough" else 450
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i in range(n):
            one(rng, svd, events)
        with large():
            for _ in range(n // 30):
                one(rng, svd, events)
        for _ in range(n // 150):
            many(rng, svd, events)
    check.add_traces("TrSvd", mkcases(events), chunk=2500)


def components(rng, svd, events):
    """The number of components to keep, found from the autocorrelation of the left singular vectors."""
    h = int(rng.integers(1, 7))
    m, n = h * h, int(rng.integers(1, 8))
    few = rng.random() < 0.4        # of these, often exactly one component has a wide autocorrelation
    if few:
        h, n = int(rng.integers(5, 8)), int(rng.integers(2, 5))
        m = h * h
    M, enc, U, V, s = matrix(rng, m, n, False, gap=True)
    if few or rng.random() < 0.5:            # smooth images have wide autocorrelations
        g = np.cumsum(np.abs(rng.normal(size=(m, n))), axis=0) if not few else rng.normal(size=(m, n))
        g[:, 0] = np.abs(g[:, 0]) + 2.0 * few
        U = np.linalg.qr(g)[0]
        k = min(m, n)
        U = U[:, :k]
        M = (U * s) @ V.conj().T
        enc = dict(enc, U=[vec(U[:, i]) for i in range(k)])

    def share(u):
        im = u.reshape(h, h)
        ac = convolve2d(im, im[::-1, ::-1], mode="same")
        return ac[h // 2, h // 2] ** 2 / np.sum(ac ** 2)
    sh = np.array([share(u) for u in U.T])
    f = pick(rng, [0.5, 0.1, 0.3, float(rng.uniform(0.05, 0.95))])
    if np.min(np.abs(sh - f)) > 1e-6:
        events.append(call_event("find_n_pc", dict(enc, h=h, factor=num(f)), svd.find_n_pc, layout(rng, U),
                                 **({} if f == 0.5 and rng.random() < 0.5 else {"factor": f})))
    npc = int(np.sum(sh <= 0.1))
    if np.min(np.abs(sh - 0.1)) > 1e-6 and npc > 0 and s[min(npc, len(s)) - 1] > 0 and min(s) > 0:
        ty = pick(rng, ["soft", "hard"])
        events.append(call_event("svd_thresh_auto", dict(enc, h=h, type=ty), svd.svd_thresh, layout(rng, M), thresh_type=ty,
                                 rtol="1e-9", atol="1e-10"))
    if rng.random() < 0.1:
        r = int(pick(rng, [2, 3, 5, 6, 8, 15, 17]))
        events.append(call_event("find_n_pc_shape", dict(enc), svd.find_n_pc, rng.normal(size=(r, 2))))


def one(rng, svd, events):
    if not BIG and rng.random() < 0.16:
        return components(rng, svd, events)
    if rng.random() < 0.02:
        return tall(rng, svd, events)
    m, n = (int(rng.integers(1, 9)), int(rng.integers(1, 9))) if not BIG else (int(rng.integers(14, 33)), int(rng.integers(14, 33)))
    which = int(rng.integers(4))
    cplx = rng.random() < 0.25
    ty = pick(rng, ["soft", "hard", None])
    tkw = {} if ty is None else {"thresh_type": ty}
    ty = ty or "hard"
    if which == 0:
        M, enc, U, V, s = matrix(rng, m, n, cplx)
        t = threshold(rng, s)
        M, enc, s, t, sc = rescale(rng, M, enc, s, t)
        events.append(call_event("svd_thresh", dict(enc, thr=num(t), npc=0, type=ty), svd.svd_thresh,
                                 layout(rng, M), pick(rng, [t, np.float64(t)]), rtol="1e-9", atol=num(max(1e-10 * sc, 2e-14)), **tkw))
        events.append(call_event("calculate_svd", enc, lambda a: svd.calculate_svd(a)[1], layout(rng, M), rtol="1e-9",
                                 atol=num(1e-10 * sc)))
    elif which == 1:
        M, enc, U, V, s = matrix(rng, m, n, cplx, gap=True)
        k = int(rng.integers(1, min(m, n) + 3))
        npc = k if rng.random() < 0.85 else "all"
        keff = k if npc != "all" else 10 ** 6
        if s[min(keff, len(s)) - 1] == 0.0:
            return          # which numerically zero value is used is up to rounding
        events.append(call_event("svd_thresh", dict(enc, thr="none", npc=keff, type=ty), svd.svd_thresh,
                                 layout(rng, M), n_pc=npc, rtol="1e-9", atol="1e-10", **tkw))
    elif which == 2:
        if not BIG and rng.random() < 0.3:
            m, n = int(rng.integers(8, 16)), int(rng.integers(8, 16))
        M, enc, U, V, s = matrix(rng, m, n, cplx)
        t = threshold(rng, s)
        M, enc, s, t, sc = rescale(rng, M, enc, s, t)
        kw = dict(tkw)
        k = int(rng.integers(6))
        if k == 0:
            kw["n_vals"] = -1
        elif k == 1:
            pass
        elif k == 2:
            kw["n_vals"] = int(rng.integers(0, 2))
        else:
            kw["n_vals"] = int(rng.integers(1, min(m, n) + 3))
        if rng.random() < 0.25:
            kw["n_vals"] = int(max(1, np.sum(s > t) - 1))
        if rng.random() < 0.6:
            kw["extra_vals"] = int(rng.integers(1, 5))
        got = {}

        def enc_out(val):
            got["rank"] = int(val[1])
            return encode_out(val[0])
        e = call_event("svd_thresh_coef_fast", dict(enc, thr=num(t), type=ty), svd.svd_thresh_coef_fast,
                       layout(rng, M), t, rtol="1e-6", atol=num(max(1e-6 * sc, 2e-14)), enc_out=enc_out, **kw)
        e["rank"] = got.get("rank", -1)
        events.append(e)
    else:
        h = int(rng.integers(1, 5)) if not BIG else 5
        m = h * h
        M, enc, U, V, s = matrix(rng, m, n, cplx, gap=bool(BIG))
        # coefficient rows of equal singular values are only defined up to rotation
        if len(s) > 1 and np.min(np.abs(np.diff(s))) < 0.05 and np.any((np.abs(np.diff(s)) < 0.05) & (s[1:] > 0)):
            return
        oper, ti = operator(rng, U, h)
        t0 = float(np.abs(rng.normal()) * 0.5)
        ts = t0 * ti
        coef = s[:, None] * V.conj().T
        if ty == "hard" and np.min(np.abs(np.abs(coef) - ts[:, None])) < 1e-4 * max(1, s[0]):
            return
        events.append(call_event("svd_thresh_coef", dict(enc, ts=[num(v) for v in ts], type=ty), svd.svd_thresh_coef,
                                 layout(rng, M), oper, t0, rtol="1e-8", atol="1e-8", **tkw))


def many(rng, svd, events):
    """Far more components kept than the partial decomposition starts with."""
    m, n = int(rng.integers(66, 80)), int(rng.integers(66, 80))
    k = min(m, n)
    M, enc, U, V, s = matrix(rng, m, n, False)
    s = 1.0 + np.arange(k)[::-1] / 4.0
    M, enc = (U * s) @ V.conj().T, dict(enc, s=vec(s))
    i = int(rng.integers(0, 6))
    t = 0.9 if i == 0 else float(s[-i] - 0.125)
    ty = pick(rng, ["soft", "hard"])
    got = {}

    def enc_out(val):
        got["rank"] = int(val[1])
        return encode_out(val[0])
    e = call_event("svd_thresh_coef_fast", dict(enc, thr=num(t), type=ty), svd.svd_thresh_coef_fast, M, t,
                   n_vals=int(rng.integers(1, 9)), extra_vals=int(rng.integers(3, 9)), thresh_type=ty, rtol="1e-6", atol="1e-6",
                   enc_out=enc_out)
    e["rank"] = got.get("rank", -1)
    events.append(e)


def tall(rng, svd, events):
    """A matrix with more columns than the partial decomposition starts with."""
    m, n = int(rng.integers(30, 45)), int(rng.integers(8, 34))
    M, enc, U, V, s = matrix(rng, m, n, rng.random() < 0.25)
    t = threshold(rng, s)
    ty = pick(rng, ["soft", "hard"])
    events.append(call_event("svd_thresh", dict(enc, thr=num(t), npc=0, type=ty), svd.svd_thresh, layout(rng, M), t,
                             thresh_type=ty, rtol="1e-9", atol="1e-10"))
    got = {}

    def enc_out(val):
        got["rank"] = int(val[1])
        return encode_out(val[0])
    e = call_event("svd_thresh_coef_fast", dict(enc, thr=num(t), type=ty), svd.svd_thresh_coef_fast, layout(rng, M), t,
                   n_vals=int(rng.integers(1, n)), thresh_type=ty, rtol="1e-6", atol="1e-6", enc_out=enc_out)
    e["rank"] = got.get("rank", -1)
    events.append(e)


def operator(rng, U, h):
    """A callable on a stack of images and its norm on each left singular vector."""
    w = rng.normal(size=(h, h)) + 0.5
    k = int(rng.integers(3))
    if k == 0:
        oper = lambda cube: cube * w                                     # noqa: E731
    elif k == 1:
        oper = lambda cube: [np.stack([im * w, 2 * im]) for im in cube]  # noqa: E731
    else:
        oper = lambda cube: 3.0 * cube                                   # noqa: E731
    cube = U.T.reshape(-1, h, h)
    return oper, np.array([np.linalg.norm(e) for e in oper(cube)])
