"""C24: convolution and filter banks."""
import warnings

import numpy as np

from common import arr, call_event, mkcases
from gen import layout, pick, rng_for, values
from loopdrv import quiet

SIZES = [1, 2, 3, 4, 5, 6, 7]


def run(check):
    rng = rng_for(check)
    from modopt.math import convolve as cv
    from modopt.opt.linear import WaveletConvolve
    from modopt.signal import wavelet as wv
    events = []
    n = 1500 if check.tier == "thorough" else 220
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        sweep(rng, cv, events, 6 if check.tier == "thorough" else 4)
        for _ in range(n):
            one(rng, cv, wv, WaveletConvolve, events)
    check.add_traces("TrConv", mkcases(events), chunk=3000)


def tol(kind):
    return {"rtol": "2e-5", "atol": "1e-5"} if kind == "float32" else {"rtol": "1e-10", "atol": "1e-10"}


def sweep(rng, cv, events, top):
    """Every pair of data and kernel sizes up to the bound, in one dimension."""
    for method in ("scipy", "astropy"):
        for n in range(1, top + 2):
            for k in range(1, top + 2):
                if method == "astropy" and k > n:
                    continue
                x, ker = layout(rng, values(rng, (n,))), layout(rng, values(rng, (k,), special=False))
                events.append(call_event("convolve", {"x": arr(x), "k": arr(ker), "method": method}, cv.convolve, x, ker,
                                         method=method, **tol("real")))


def alike(rng, x):
    """Layers that are easily confused: repeated, turned, of the same sum or size."""
    if x.shape[0] < 2 or rng.random() > 0.3:
        return x
    x = np.array(x)
    for i in range(1, x.shape[0]):
        how = int(rng.integers(6))
        if how == 0:
            x[i] = x[0]
        elif how == 1:
            x[i] = x[0][::-1, ::-1]
        elif how == 2:
            x[i] = np.roll(x[0], 1, axis=-1)
        elif how == 3:
            x[i] = -x[0]
        elif how == 4:
            x[i].flat[:-1] = x[0].flat[:-1]
    return x


def ksize(rng, n, method):
    """A kernel size; the periodic variant is defined for kernels that fit the data."""
    k = pick(rng, [1, 2, 3, 3, 4, 5])
    return min(k, n) if method == "astropy" else k


def one(rng, cv, wv, conv_cls, events):
    method = pick(rng, ["scipy", "scipy", "astropy", "astropy"])
    kind = pick(rng, ["real", "real", "real", "int", "float32", "complex"])
    if method == "astropy" and kind == "complex":
        kind = "real"        # Astropy's transform returns real data only
    kk = "real" if kind == "complex" else kind
    which = int(rng.integers(5))
    mk = {} if method == "scipy" and rng.random() < 0.4 else {"method": method}
    if rng.random() < 0.06:
        method = pick(rng, ["fftw", "", "Scipy", None])
        mk = {"method": method}
        method = method or "none"
    if rng.random() < 0.1 and method in ("scipy", "astropy"):
        h, w = int(rng.integers(20, 33)), int(rng.integers(20, 33))
        top = pick(rng, [6, 18, 18])
        x, k = values(rng, (h, w), kind), values(rng, (int(rng.integers(top // 2, top)), int(rng.integers(top // 2, top))), kk)
        events.append(call_event("convolve", {"x": arr(x), "k": arr(k), "method": method}, cv.convolve, x, k, **mk, **tol(kind)))
        return
    big = 7 if which < 2 else 5
    h, w = int(rng.integers(1, big + 1)), int(rng.integers(1, big + 1))
    kh, kw_ = ksize(rng, h, method), ksize(rng, w, method)
    if which == 0:
        nd = pick(rng, [1, 2, 2, 2, 3])
        sh, ks = ((h,), (kh,)) if nd == 1 else ((h, w), (kh, kw_)) if nd == 2 else ((2, min(h, 4), min(w, 4)), (2, min(kh, h, 4), min(kw_, w, 4)))
        x, k = layout(rng, values(rng, sh, kind)), layout(rng, values(rng, ks, kk))
        if rng.random() < 0.08:
            k = k[0] if k.ndim > 1 else k[None]
        events.append(call_event("convolve", {"x": arr(x), "k": arr(k), "method": method}, cv.convolve, x, k, **mk, **tol(kind)))
        return
    n = int(rng.integers(1, 4)) if rng.random() < 0.85 else int(rng.integers(5, 19))
    rot = bool(rng.random() < 0.5)
    if which == 1:
        x, k = alike(rng, values(rng, (n, h, w), kind)), alike(rng, values(rng, (n, kh, kw_), kk))
        if rng.random() < 0.15:
            # one picture under kernels that are permutations of one another, or the reverse
            same, other = pick(rng, [(x, k), (k, x)])
            same[...] = same[0]
            other[...] = np.round(other)
            for i in range(1, n):
                other[i] = rng.permutation(other[0].ravel()).reshape(other[0].shape)
        x, k = layout(rng, x), layout(rng, k)
        rk = {"rot_kernel": rot} if rot or rng.random() < 0.5 else {}
        events.append(call_event("convolve_stack", {"x": arr(x), "k": arr(k), "method": method, "rot": rot},
                                 cv.convolve_stack, x, k, **rk, **mk, **tol(kind)))
        return
    k = layout(rng, alike(rng, values(rng, (n, kh, kw_), kk)))
    rk = {"filter_rot": rot} if rot or rng.random() < 0.5 else {}
    if which == 2:
        x = values(rng, (n, h, w) if rot else (h, w), kind)
        x = layout(rng, alike(rng, x) if rot else x)
        events.append(call_event("filter_convolve", {"x": arr(x), "k": arr(k), "method": method, "rot": rot},
                                 wv.filter_convolve, x, k, **rk, **mk, **tol(kind)))
        return
    b = int(rng.integers(1, 4)) if rng.random() < 0.88 else int(rng.integers(4, 10))
    x = layout(rng, alike(rng, values(rng, (b, n, h, w) if rot else (b, h, w), kind)))
    a = {"x": arr(x), "k": arr(k), "method": method, "rot": rot}
    if which == 3:
        events.append(call_event("filter_convolve_stack", a, wv.filter_convolve_stack, x, k, **rk, **mk, **tol(kind)))
    else:
        op = conv_cls(k.astype(float), **mk)
        events.append(call_event("WaveletConvolve." + ("adj_op" if rot else "op"), a, op.adj_op if rot else op.op, x,
                                 **tol(kind)))
