"""C18: linear operators and their adjoints, over histories on one operator."""
import contextlib
import itertools
import threading
import time
import warnings

import numpy as np

from common import arr, attempt, call_event, num, vec
from gen import layout, pick, rng_for, shape, values
from loopdrv import quiet

WAVELETS = ["haar", "db2", "sym2", "db3", "coif1", "bior2.2", "rbio1.3", "db4"]
ORTHO = ["haar", "db2", "sym2", "db3", "coif1"]
MODES = ["zero", "symmetric", "periodic", "constant", "periodization"]


def run(check):
    rng = rng_for(check)
    from modopt.opt import linear
    from modopt.opt.linear import wavelet as mod
    has_torch = hasattr(mod, "torch") and hasattr(mod, "ptwt")   # installed here; CuPy is not
    cases = []
    n = 900 if check.tier == "thorough" else 130
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i in range(n):
            for make in (simple, wavelet, ortho, bank):
                evs = make(rng, linear)
                if evs:
                    cases.append({"id": len(cases) + 1, "events": evs})
            if has_torch and i % 2:
                cases.append({"id": len(cases) + 1, "events": torch_wavelet(rng, deep=i % 20 == 1)})
    check.add_traces("TrLin", cases, chunk=900)


def tol(kind):
    return {"rtol": "2e-5", "atol": "1e-5"} if kind in ("float32", "complex64") else {"rtol": "1e-10", "atol": "1e-11"}


def relations(rng, name, op, adj, sh_in, sh_out, kinds, evs):
    """Adjointness and linearity as recorded inner products."""
    kind = pick(rng, kinds)
    t = tol(kind)
    x, y = values(rng, sh_in, kind), values(rng, sh_out, kind)
    k1, opx = attempt(op, layout(rng, x))
    k2, adjy = attempt(adj, layout(rng, y))
    if k1 != "ok" or k2 != "ok":
        evs.append({"fn": "raised", "a": {"op": name, "e": opx if k1 != "ok" else adjy}})
        return
    evs.append({"fn": "adjoint", "a": {"op": name, "x": arr(x), "y": arr(y), "opx": arr(opx), "adjy": arr(adjy)}, **t})
    z = values(rng, sh_in, kind)
    al, be = (float(v) for v in rng.normal(size=2))
    if kind.startswith("complex"):
        al = al + 1j * float(rng.normal())
    fn, s, nm = (op, (x, z), name) if sh_in != sh_out or rng.random() < 0.5 else (adj, (x, z), name + " adjoint")
    k3, oz = attempt(fn, al * s[0] + be * s[1])
    k4, o1 = attempt(fn, s[0])
    k5, o2 = attempt(fn, s[1])
    if "raise" in (k3, k4, k5):
        evs.append({"fn": "raised", "a": {"op": nm, "e": "on a linear combination"}})
        return
    evs.append({"fn": "linear", "a": {"op": nm, "al": num(al), "be": num(be), "opx": arr(o1), "opy": arr(o2),
                                      "opz": arr(oz)}, **t})


def simple(rng, linear):
    evs = []
    if rng.random() < 0.25:
        op = linear.Identity()
        for m in ("op", "adj_op"):
            x = layout(rng, values(rng, shape(rng), pick(rng, ["real", "complex", "int", "float32"])))
            evs.append(call_event("Identity." + m, {"x": arr(x)}, getattr(op, m), x))
        return evs
    m, n = (int(v) for v in rng.integers(1, pick(rng, [30, 60]) if rng.random() < 0.1 else 6, size=2))
    kind = pick(rng, ["real", "complex", "complex", "int", "float32"])
    M = layout(rng, values(rng, (m, n), kind))
    if rng.random() < 0.1:
        M = M.astype(complex)
    elif kind == "complex" and rng.random() < 0.3:       # complex in some rows, columns or elements only
        M = np.where(rng.random((m, 1) if rng.random() < 0.5 else (1, n)) < 0.6, M.real, M)
    op = linear.MatrixOperator(M)
    for _ in range(int(rng.integers(1, 5))):
        adj = rng.random() < 0.5
        rows = m if adj else n
        nd = pick(rng, [0, 0, 0, 1, 1, 2])
        more = tuple(int(v) for v in rng.integers(1, 4, size=nd))
        sh = (rows,) + more if nd < 2 else (more[0], rows, more[1])
        x = layout(rng, values(rng, sh, pick(rng, ["real", "complex"])))
        name = "adj_op" if adj else "op"
        evs.append(call_event("MatrixOperator." + name, {"M": arr(M), "x": arr(x)}, getattr(op, name), x, **tol(kind)))
    relations(rng, "MatrixOperator", op.op, op.adj_op, (n,), (m,), ["real", "complex"], evs)
    return evs


def wshape(rng):
    nd = pick(rng, [1, 1, 2, 2, 3])
    top = {1: 13, 2: 7, 3: 4}[nd]
    return tuple(int(rng.integers(2, top + 1)) for _ in range(nd))


def coeff_out(val):
    return {"k": "ok", "v": [[int(s) for s in sh] for sh in val]}


@contextlib.contextmanager
def jitter():
    """PyWavelets calls that take unequal times, the earliest ones longest: batches processed in parallel finish
    out of order."""
    import pywt
    saved, count = {k: getattr(pywt, k) for k in ("wavedec", "waverec", "wavedecn", "waverecn")}, itertools.count()

    def slow(fn):
        def call(*args, **kwargs):
            if threading.current_thread() is not threading.main_thread():
                time.sleep((0.004, 0.002, 0.0)[next(count) % 3])
            return fn(*args, **kwargs)
        return call
    for k, fn in saved.items():
        setattr(pywt, k, slow(fn))
    try:
        yield
    finally:
        for k, fn in saved.items():
            setattr(pywt, k, fn)


def wavelet(rng, linear):
    with jitter():
        return wavelet_calls(rng, linear)


def wavelet_calls(rng, linear):
    import pywt
    sh = wshape(rng)
    name = pick(rng, WAVELETS if len(sh) < 3 else WAVELETS[:3])
    mode = pick(rng, MODES)
    level = int(rng.integers(1, 4 if len(sh) == 1 else 3))
    if rng.random() < 0.1 and min(sh) > 1:
        mode, level = "reflect", 1
    if rng.random() < 0.06:      # more levels than the data can usefully bear, and longer data
        sh, name, level = (int(rng.integers(3, 70)),), pick(rng, WAVELETS[:3]), int(rng.integers(4, 8))
        mode = "symmetric" if mode == "reflect" else mode     # PyWavelets reflects no band of one coefficient
    w = pywt.Wavelet(name)
    bank_ = {"dlo": vec(w.dec_lo), "dhi": vec(w.dec_hi), "rlo": vec(w.rec_lo), "rhi": vec(w.rec_hi)}
    nb = int(pick(rng, [1, 1, 1, 2, 2, 3, 3, 7 if np.prod(sh) < 20 else 2, 9 if np.prod(sh) < 20 else 3]))
    kw = {"level": level}
    if mode != "symmetric" or rng.random() < 0.5:
        kw["mode"] = mode
    if nb > 1:
        kw.update(n_batch=nb, n_jobs=int(pick(rng, [1, 2, 2, 3, -1])))
    op = linear.WaveletTransform(name, sh[0] if len(sh) == 1 and rng.random() < 0.5 else sh, **kw)
    size = sum(int(np.prod(s)) for s in shapes_of(sh, w.dec_len, mode, level))
    base = {"bank": bank_, "mode": mode, "level": level, "sh": list(sh), "nb": nb}
    evs = []
    lead = (nb,) if nb > 1 else ()
    last = None
    for _ in range(int(rng.integers(2, 6))):
        kind = pick(rng, ["real", "real", "complex", "float32"])
        r = rng.random()
        if r < 0.4:
            x = layout(rng, values(rng, lead + sh, kind))
            evs.append(call_event("WaveletTransform.op", dict(base, x=arr(x)), op.op, x, **tol(kind)))
            last = x, kind
        elif r < 0.7:
            y = layout(rng, values(rng, lead + (size,), kind))
            evs.append(call_event("WaveletTransform.adj_op", dict(base, x=arr(y)), op.adj_op, y, **tol(kind)))
        elif r < 0.9 or last is None:
            x = layout(rng, values(rng, lead + sh, kind))
            evs.append(call_event("reconstruct", {"x": arr(x)}, lambda v: op.adj_op(op.op(v)), x, **tol(kind)))
        else:
            evs.append(call_event("WaveletTransform.coeffs_shape", base, lambda: op.coeffs_shape, enc_out=coeff_out))
    return evs


def torch_wavelet(rng, deep=False):
    """The PyTorch transform (works without CuPy), with and without a batch axis."""
    import pywt
    import torch

    from modopt.opt.linear import wavelet as mod
    nd = pick(rng, [2, 2, 3])
    name = pick(rng, ["haar", "db2", "sym3", "bior2.2", "db3"] if nd == 2 else ["haar", "db2"])
    level = int(rng.integers(1, 3))
    mode = pick(rng, ["zero", "symmetric", "constant", "periodic", "reflect"])
    top = {2: 8, 3: 4}[nd]
    sh = tuple(int(rng.integers(2, top + 1)) for _ in range(nd))
    if deep:
        nd, name, level, sh = 3, "haar", 3, (8, 8, int(rng.integers(5, 9)))
        mode = pick(rng, ["zero", "symmetric", "constant"])
    elif mode in ("periodic", "reflect"):     # PyTorch pads by less than the size of the data
        name, level, sh = pick(rng, ["haar", "db2"]), 1, tuple(2 * max(2, s // 2) for s in sh)
    w = pywt.Wavelet(name)
    op = mod.TorchWaveletTransform(sh, name, level, mode)
    base = {"bank": {"dlo": vec(w.dec_lo), "dhi": vec(w.dec_hi), "rlo": vec(w.rec_lo), "rhi": vec(w.rec_hi)},
            "mode": mode, "level": level, "sh": list(sh)}
    evs = []

    def bands(val):
        return {"k": "ok", "bands": [arr(t.numpy()) for t in val]}

    def back(t):
        return t.detach().numpy()
    for _ in range(int(rng.integers(1, 4))):
        kind = pick(rng, ["real", "complex", "float32"])
        nb = int(rng.integers(0, 3))
        r = rng.random()
        lead = (nb,) if nb else ()
        x = values(rng, lead + sh, kind)
        full = x if nb else x[None]
        if r < 0.35:
            evs.append(call_event("TorchWaveletTransform.op", dict(base, x=arr(full)),
                                  lambda v: op.op(torch.tensor(v)), x, enc_out=bands, **tol(kind)))
        elif r < 0.6:
            evs.append(call_event("reconstruct", {"x": arr(full)}, lambda v: back(op.adj_op(op.op(torch.tensor(v)))), x, **tol(kind)))
        else:
            cs = [values(rng, (max(nb, 1), *s), kind) for s in shapes_of(sh, w.dec_len, mode, level)]
            evs.append(call_event("TorchWaveletTransform.adj_op", dict(base, bands=[arr(c) for c in cs]),
                                  lambda v: back(op.adj_op([torch.tensor(c) for c in v])), cs, **tol(kind)))
    return evs


def shapes_of(sh, flen, mode, level):
    """Band shapes, needed to make coefficient inputs of the right size."""
    out = []
    cur = sh
    for _ in range(level):
        cur = tuple((n + 1) // 2 if mode == "periodization" else (n + flen - 1) // 2 for n in cur)
        out = [cur] * (2 ** len(sh) - 1) + out
    return [cur] + out


def ortho(rng, linear):
    """Orthogonal wavelets, periodic, sizes divisible at every level: the inverse is the adjoint."""
    level = int(rng.integers(1, 3))
    nd = pick(rng, [1, 2, 2, 3])
    q = 2 ** level
    sh = tuple(q * int(rng.integers(1, {1: 4, 2: 3, 3: 2}[nd])) for _ in range(nd))
    if nd == 1 and rng.random() < 0.2:
        sh = (q * int(rng.integers(8, 24)),)
    name = pick(rng, ORTHO)
    nb = int(pick(rng, [1, 1, 1, 2, 2, 8]))
    kw = {"n_batch": nb} if nb > 1 else {}
    op = linear.WaveletTransform(name, sh, level=level, mode="periodization", **kw)
    lead = (nb,) if nb > 1 else ()
    evs = []
    relations(rng, "WaveletTransform", op.op, op.adj_op, lead + sh, lead + (int(np.prod(sh)),), ["real", "complex"], evs)
    return evs


def bank(rng, linear):
    """Filter bank with odd-sized filters."""
    n, b = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    if rng.random() < 0.08:
        n, b = (int(rng.integers(6, 10)), 1) if rng.random() < 0.5 else (1, int(rng.integers(6, 10)))
    method = pick(rng, ["scipy", "scipy", "astropy"])
    ks = (int(pick(rng, [1, 3, 5])), int(pick(rng, [1, 3, 5])))
    lo = ks if method == "astropy" else (1, 1)
    h, w = (int(rng.integers(lo[i], 7)) for i in range(2))
    filt = layout(rng, values(rng, (n, *ks)))
    op = linear.WaveletConvolve(filt, *([] if method == "scipy" and rng.random() < 0.5 else [method]))
    evs = []
    relations(rng, "WaveletConvolve", op.op, op.adj_op, (b, h, w), (b, n, h, w),
              ["real", "complex"] if method == "scipy" else ["real"], evs)
    return evs
