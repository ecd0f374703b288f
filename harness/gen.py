"""Random inputs shared by the drivers (everything derives from the seed)."""
import contextlib

import numpy as np


def rng_for(check, salt=0):
    return np.random.default_rng([check.seed, salt, int(check.prop[1:])])


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def layout(rng, a):
    """Same values, different memory layout."""
    k = int(rng.integers(6))
    if k == 0 and a.ndim >= 2:
        return np.asfortranarray(a)
    if k == 1 and a.ndim >= 1:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if k == 2 and a.ndim >= 1:
        return a[::-1].copy()[::-1]
    if k == 3:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


def values(rng, shape, kind="real", scale=1.0, special=True):
    """Random data with zeros, ties, integers and sign changes mixed in."""
    a = rng.normal(size=shape) * scale
    if special and a.size and rng.random() < 0.5:
        m = rng.random(shape)
        a = np.where(m < 0.15, 0.0, a)
        a = np.where((m > 0.15) & (m < 0.3), np.round(a * 2) / 2, a)
        a = np.where(m > 0.9, -np.abs(a), a)
    if special and rng.random() < 0.05:           # of one sign
        a = pick(rng, [1, -1, -1]) * np.abs(a)
    if kind == "complex" and special and rng.random() < 0.06:
        return a + 0j if rng.random() < 0.4 else 1j * a
    if kind == "complex":
        return a + 1j * values(rng, shape, "real", scale, special)
    if kind == "int":
        return np.round(a * 4 / max(scale, 1e-300)).astype(np.int64)
    if kind == "float32":
        return a.astype(np.float32)
    if kind == "complex64":
        return (a + 1j * values(rng, shape, "real", scale, special)).astype(np.complex64)
    return a


BIG = []       # while not empty, shapes are those of larger data


@contextlib.contextmanager
def large():
    BIG.append(1)
    try:
        yield
    finally:
        BIG.pop()


def shape(rng, ndim=None, maxdim=4):
    """Mostly small shapes of one to three dimensions, some of four or five, some long in one dimension."""
    if BIG:
        ndim = ndim or int(rng.integers(1, 5))
        lo, hi = {1: (500, 1200), 2: (17, 40), 3: (7, 11), 4: (4, 7)}[ndim]
        sh = [int(rng.integers(lo, hi)) for _ in range(ndim)]
        if ndim > 1 and rng.random() < 0.3:
            sh[int(rng.integers(ndim))] = 2 * hi
            sh[int(rng.integers(ndim))] = lo // 2
        return tuple(sh)
    if ndim is None:
        ndim = int(rng.integers(1, 4)) if rng.random() < 0.9 else int(rng.integers(4, 6))
        sh = [int(rng.integers(1, (maxdim if ndim < 4 else 3) + 1)) for _ in range(ndim)]
        if rng.random() < 0.06:
            sh[int(rng.integers(ndim))] = int(rng.integers(9, 40)) if ndim < 3 else int(rng.integers(5, 12))
        return tuple(sh)
    return tuple(int(rng.integers(1, maxdim + 1)) for _ in range(ndim))
