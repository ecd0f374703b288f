"""Matrices with known singular factors."""
import numpy as np

from common import num, vec
from gen import pick


def ortho(rng, m, k, cplx):
    a = rng.normal(size=(m, k))
    if cplx:
        a = a + 1j * rng.normal(size=(m, k))
    q, r = np.linalg.qr(a)
    if rng.random() < 0.15:
        q = np.eye(m, k, dtype=a.dtype)
    return q


def spectrum(rng, k, gap=False):
    """Singular values, descending; possibly rank deficient, possibly with ties."""
    s = np.sort(np.abs(rng.normal(size=k)) + 0.05)[::-1] * pick(rng, [1.0, 1.0, 10.0, 100.0])
    m = int(rng.integers(6))
    if m == 0:
        s[int(rng.integers(0, k + 1)):] = 0.0
    elif m == 1:
        s = np.cumsum(rng.integers(1, 3, size=k))[::-1].astype(float)
    elif m == 2 and not gap:
        s[:] = np.sort(np.round(s * 2) / 2 + 0.5)[::-1]
    elif m == 5 and not gap:
        s = np.repeat(s[::2], 2)[:k] * np.where(np.arange(k) % 2, 1 - 4e-3, 1.0)      # pairs of nearly equal values
        s = np.sort(s)[::-1]
    elif m == 3:
        s = s[0] * 0.5 ** np.arange(k)
    if gap:
        nz = s > 0
        s = np.where(nz, s + 0.05 * np.arange(k)[::-1], 0.0)
    return s


def matrix(rng, m, n, cplx=False, gap=False):
    k = min(m, n)
    U, V, s = ortho(rng, m, k, cplx), ortho(rng, n, k, cplx), spectrum(rng, k, gap)
    M = (U * s) @ V.conj().T
    enc = {"m": m, "n": n, "U": [vec(U[:, i]) for i in range(k)], "V": [vec(V[:, i]) for i in range(k)], "s": vec(s)}
    return M, enc, U, V, s


def threshold(rng, s):
    """A positive threshold well away from every singular value."""
    i = int(rng.integers(len(s)))
    if i and rng.random() < 0.5 and 2e-3 * max(1.0, s[0]) < s[i - 1] - s[i] < 5e-3 * s[0]:
        t = float(s[i] - 1.5e-3 * max(1.0, s[0]))                     # just below such a pair
        if t > 1e-3 and np.min(np.abs(s - t)) > 1e-3 * max(1.0, s[0]):
            return t
    for _ in range(50):
        t = float(pick(rng, [rng.uniform(0.01, 1.2) * s[0] if s[0] > 0 else 0.3, s[0] * 1.5 + 0.1,
                             (s[int(rng.integers(len(s)))] + s[int(rng.integers(len(s)))]) / 2, 0.02,
                             s[int(rng.integers(len(s)))] + pick(rng, [-1.5e-3, 1.5e-3]) * max(1.0, s[0])]))
        if t > 1e-3 and np.min(np.abs(s - t)) > 1e-3 * max(1.0, s[0]):
            return t
    return float(s[0] * 2 + 1)


def rescale(rng, M, enc, s, t):
    """Now and then the same matrix and threshold in other units."""
    sc = 1.0 if rng.random() > 0.12 else pick(rng, [2.0 ** -40, 2.0 ** -20, 2.0 ** 20])
    return M * sc, dict(enc, s=vec(s * sc)), s * sc, t * sc, sc


__all__ = ["matrix", "rescale", "threshold", "num"]
