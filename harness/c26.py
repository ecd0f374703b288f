"""C26: statistics and image metrics."""
import warnings

import numpy as np

from common import arr, call_event, mkcases, num, vec
from gen import BIG, large, layout, pick, rng_for, shape, values
from loopdrv import quiet


def data(rng, sh, kinds=("real", "real", "int", "float32")):
    """Data with ties, offsets and extreme integer types."""
    k = pick(rng, list(kinds))
    scale = float(pick(rng, [1.0, 1e-3, 50.0, 1.0, 1e-3, 50.0, 1e-8, 1e5]))
    if k == "int":
        dt = pick(rng, [np.uint8, np.int16, np.int64, np.uint16])
        hi = {np.uint8: 255, np.int16: 30000, np.uint16: 65535}.get(dt, 1000)
        lo = 0 if dt in (np.uint8, np.uint16) else -hi
        return rng.integers(lo, hi + 1, size=sh).astype(dt)
    x = values(rng, sh, k, scale)
    if rng.random() < 0.3 and scale > 1e-8:
        x = x + np.asarray(rng.normal() * 10, dtype=x.dtype)
    return x


def tol(*xs):
    f32 = any(x.dtype == np.float32 for x in xs)
    return {"rtol": "3e-4", "atol": "1e-5"} if f32 else {"rtol": "1e-9", "atol": num(1e-12 * min(1.0, max(float(np.max(np.abs(x), initial=0)) for x in xs)))}


def pair(rng, sh, kinds=("real", "real", "int", "float32")):
    x = data(rng, sh, kinds)
    if rng.random() < 0.5:
        m = np.abs(x).max()
        y = x + (rng.normal(size=sh) * pick(rng, [0.1, 0.1, 1e-3, 1e-6]) * (m if 0 < m < 1e-5 else 1 + m)).astype(x.dtype)
    else:
        y = data(rng, sh, kinds)
    return x, y


def run(check):
    rng = rng_for(check)
    from modopt.math import metrics, stats
    from modopt.signal import filter as filt
    events = []
    n = 2500 if check.tier == "thorough" else 450
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(n):
            stat(rng, stats, events)
            profile(rng, filt, stats, events)
            metric(rng, metrics, events)
        with large():
            for sh in ((45, 50), (2, 1300), (13, 14, 15), (5001,)):
                one_mad(rng, stats, events, sh)
            for _ in range(n // 15):
                stat(rng, stats, events)
                profile(rng, filt, stats, events)
                metric(rng, metrics, events)
    check.add_traces("TrStats", mkcases(events))


def one_mad(rng, stats, events, sh):
    x = data(rng, sh)
    events.append(call_event("mad", {"x": arr(x)}, stats.mad, layout(rng, x), **tol(x)))
    events.append(call_event("sigma_mad", {"x": arr(x)}, stats.sigma_mad, layout(rng, x), **tol(x)))


def stat(rng, stats, events):
    k = int(rng.integers(6))
    sh = shape(rng, None, 5)
    if k == 0:
        return one_mad(rng, stats, events, sh)
    if k == 1:
        x, y = pair(rng, sh)
        events.append(call_event("stats.mse", {"x": arr(x), "y": arr(y)}, stats.mse, layout(rng, x), layout(rng, y), **tol(x, y)))
        return
    if k in (2, 3):
        sh = shape(rng, int(rng.integers(1, 3)), 6)
        x, y = pair(rng, sh)
        if np.array_equal(x, y) or x.max() == x.min():
            return
        a, kw = {"x": arr(x), "y": arr(y), "method": "starck", "maxpix": "255.0"}, {}
        if rng.random() < 0.6:
            a["method"] = kw["method"] = pick(rng, ["starck", "wiki", "wiki"])
        if rng.random() < 0.04:
            a["method"] = kw["method"] = pick(rng, ["Starck", "", "wikipedia", None])
        if rng.random() < 0.4:
            kw["max_pix"] = pick(rng, [1, 255, 65535, 0.5])
            a["maxpix"] = num(kw["max_pix"])
        if a["method"] is None:
            a["method"] = "None"
        events.append(call_event("stats.psnr", a, stats.psnr, layout(rng, x), layout(rng, y), **tol(x, y), **kw))
        return
    sh = shape(rng, 3, 4) if rng.random() < 0.94 else shape(rng, pick(rng, [2, 4]), 3)
    if len(sh) == 3 and rng.random() < 0.08:
        sh = (int(rng.integers(7, 20)), *sh[1:])
    x, y = pair(rng, sh)
    if any(np.array_equal(p, q) or p.max() == p.min() for p, q in zip(x, y)):
        return
    a, kw = {"x": arr(x), "y": arr(y), "method": "starck", "metric": "mean"}, {}
    if rng.random() < 0.6:
        a["method"] = kw["method"] = pick(rng, ["starck", "wiki", "wiki"])
    if rng.random() < 0.04:
        a["method"] = kw["method"] = "other"
    if rng.random() < 0.5:
        a["metric"] = pick(rng, ["median", "max", "min", "sum", "mean"])
        kw["metric"] = getattr(np, a["metric"])
    events.append(call_event("psnr_stack", a, stats.psnr_stack, layout(rng, x), layout(rng, y), **tol(x, y), **kw))


def profile(rng, filt, stats, events):
    k = int(rng.integers(4))
    sigma = float(np.exp(rng.normal()))
    if rng.random() < 0.2:
        sigma = int(rng.integers(1, 4))
    if k == 0:
        sh = tuple(2 * int(rng.integers(0, 4)) + 1 for _ in range(2))
        kw, norm = {}, "max"
        if rng.random() < 0.7:
            norm = kw["norm"] = pick(rng, ["max", "sum"])
        if rng.random() < 0.05:
            norm = kw["norm"] = pick(rng, ["none", "Max", ""])
        sigma = max(sigma, 0.3)
        # one kernel, or several in a row that differ only a little
        for shp, sig in [(sh, sigma)] if rng.random() < 0.7 else [(sh, sigma), (sh, sigma * 1.001), (sh[::-1], sigma), (sh, sigma)]:
            events.append(call_event("gaussian_kernel", {"shape": list(shp), "sigma": num(sig), "norm": norm},
                                     stats.gaussian_kernel, shp, sig, rtol="1e-9", atol="1e-280", **kw))
        return
    sh = pick(rng, [(), (), shape(rng, None, 3)])
    x, y = (values(rng, sh, pick(rng, ["real", "int"]), float(pick(rng, [1.0, 3.0]))) for _ in range(2))
    if sh == ():
        x, y = (v.item() for v in (x, y))
    elif rng.random() < 0.3:
        x, y = x.tolist(), y.tolist()
    ax = {"x": arr(x), "sigma": num(sigma)}
    t = {"rtol": "1e-10", "atol": "1e-14"}
    if k == 1:
        kw, norm = {}, True
        if rng.random() < 0.6:
            norm = kw["norm"] = bool(rng.random() < 0.4)
        events.append(call_event("gaussian_filter", dict(ax, norm=norm), filt.gaussian_filter, x, sigma, **t, **kw))
    elif k == 2:
        events.append(call_event("mex_hat", ax, filt.mex_hat, x, sigma, **t))
    else:
        events.append(call_event("mex_hat_dir", dict(ax, y=arr(y)), filt.mex_hat_dir, x, y, sigma, **t))


def metric(rng, metrics, events):
    name = pick(rng, ["mse", "nrmse", "psnr", "snr", "mse", "nrmse", "psnr", "snr", "ssim", "norm"])
    if name == "ssim":
        sh = tuple(int(rng.integers(7, 10) if not BIG else rng.integers(15, 30)) for _ in range(2))
    else:
        sh = shape(rng, None, 5)
    x, y = (data(rng, sh, ("real", "real", "int", "complex")) for _ in range(2))
    if rng.random() < 0.5:
        y = x + rng.normal(size=sh) * 0.2 * (1 + np.abs(x).max())
    mx, my = np.abs(x.astype(complex)), np.abs(y.astype(complex))
    if np.ptp(mx) == 0 or np.ptp(my) == 0:
        return
    if name == "norm":
        if x.dtype.kind != "f" or np.ptp(x) == 0:
            return
        events.append(call_event("min_max_normalize", {"x": arr(x)}, metrics.min_max_normalize, layout(rng, x)))
        return
    n0, n1 = (mx - mx.min()) / np.ptp(mx), (my - my.min()) / np.ptp(my)
    if name in ("psnr", "snr") and np.max(np.abs(n0 - n1)) < 1e-7:       # equal but for rounding: no ratio to speak of
        return
    a, kw = {"x": arr(x), "y": arr(y), "mask": [], "badmask": False, "name": name}, {}
    if rng.random() < 0.6:
        mask = (rng.random(sh) < 0.6)
        if not mask.any() or not np.any(mask * n0) or np.max(mask * np.abs(n0 - n1)) < 1e-7:
            return
        if rng.random() < 0.6:
            mask = mask.astype(pick(rng, [float, int]))
            if rng.random() < 0.5:
                mask = mask * rng.integers(1, 4, size=sh) / 2.0
        kw["mask"] = layout(rng, mask)
        a["mask"] = vec(mask)
    elif rng.random() < 0.08:
        kw["mask"] = pick(rng, ["mask", [1, 0], 1, True])
        a["badmask"] = True
    if np.allclose(mx, my):
        return
    events.append(call_event("metric", a, getattr(metrics, name), layout(rng, x), layout(rng, y),
                             rtol="1e-8", atol="1e-10", **kw))
