"""C25: matrix tools and the power method."""
import warnings

import numpy as np

from common import arr, call_event, encode_out, mat, mkcases, num, vec
from gen import layout, pick, rng_for, shape, values
from loopdrv import quiet
from svddrv import matrix


def run(check):
    rng = rng_for(check)
    from modopt.math import matrix as mx
    events, cases = [], []
    n = 2000 if check.tier == "thorough" else 300
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for size in range(1, 8):
            for q in range(-5, 9):
                rotation(rng, mx, events, size, q)
        for size in (12, 17, 24):
            for q in (1, 2, 3, -1, 4, -6):
                rotation(rng, mx, events, size, q)
        for i in range(n):
            one(rng, mx, events)
            cases.append({"id": i + 1, "events": power(rng, mx)})
    check.add_traces("TrMatrix", mkcases(events))
    check.add_traces("TrMatrix", cases)


def rotation(rng, mx, events, n, q):
    sh = (n, n) if rng.random() < 0.93 else (n, n + 1)
    x = layout(rng, values(rng, sh, pick(rng, ["real", "int", "complex"]), special=False))
    events.append(call_event("matrix.rotate", {"x": arr(x), "q": q % 4}, mx.rotate, x, q * np.pi / 2))


def one(rng, mx, events):
    k = int(rng.integers(5))
    if k == 0:
        n = int(rng.integers(1, 7)) if rng.random() < 0.9 else int(rng.integers(8, 40))
        sc, sv = (float(pick(rng, [1.0, 1.0, 1e-7, 1e-12, 1e6])) for _ in range(2))
        u, v = values(rng, (n,), pick(rng, ["real", "int"]), special=False), values(rng, (n,)) * sv
        if not np.any(u):
            return
        if u.dtype.kind == "f":
            u = u * sc
        events.append(call_event("project", {"u": arr(u), "v": arr(v)}, mx.project, layout(rng, u), layout(rng, v), rtol="1e-11",
                                 atol=num(1e-13 * np.sqrt(n) * np.max(np.abs(v)))))
    elif k == 1:
        n = int(rng.integers(1, 7)) if rng.random() < 0.85 else int(rng.integers(8, 15))
        m = int(rng.integers(1, n + 1))
        sc = float(pick(rng, [1.0, 100.0, 1e-6]))
        x = values(rng, (m, n), pick(rng, ["real", "real", "int"]), sc, special=False)
        if np.linalg.cond(x) > 200:
            return
        opt = pick(rng, ["orthonormal", "orthogonal", "both", None, None])
        if rng.random() < 0.05:
            opt = pick(rng, ["ortho", "", "Both"])
        kw = {} if opt is None else {"return_opt": opt}
        events.append(call_event("gram_schmidt", {"x": arr(x), "opt": opt or "orthonormal" if opt != "" else ""},
                                 mx.gram_schmidt, layout(rng, x), rtol="1e-8", atol="1e-10" if sc >= 1 else "1e-12",
                                 enc_out=lambda v: encode_out(np.array(v) if isinstance(v, tuple) else v), **kw))
    elif k == 2:
        top = 8 if rng.random() < 0.9 else 30
        M, enc, U, V, s = matrix(rng, int(rng.integers(top // 8, top)), int(rng.integers(top // 8, top)), rng.random() < 0.3)
        sc = float(pick(rng, [1.0, 1.0, 1e-9, 1e7]))
        enc = dict(enc, s=vec(s * sc))
        events.append(call_event("nuclear_norm", enc, mx.nuclear_norm, layout(rng, M * sc), rtol="1e-9", atol=num(1e-10 * sc)))
    elif k == 3:
        a = float(pick(rng, [rng.normal() * 4, rng.normal() * 4, int(rng.integers(-8, 9)) * np.pi / 4, 0.0, rng.normal() * 1e-7, rng.normal() * 60]))
        events.append(call_event("rot_matrix", {"angle": num(a)}, mx.rot_matrix, a, rtol="0.0", atol="6e-11"))
    else:
        rotation(rng, mx, events, int(rng.integers(1, 8)), int(rng.integers(-8, 9)))


def power(rng, mx):
    """Repeated runs on one object, with a recorded operator."""
    sh = shape(rng, None, 3)
    n = int(np.prod(sh))
    cplx = rng.random() < 0.3
    A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
    M = A @ A.conj().T + 0.1 * np.eye(n)
    slow = n > 1 and rng.random() < 0.15
    if slow:        # two leading eigenvalues that are hard to tell apart
        Q = np.linalg.qr(A)[0]
        M = (Q * np.concatenate([[2.0, 1.9], rng.uniform(0.1, 1.0, n - 2)])) @ Q.conj().T
    elif rng.random() < 0.3:
        M = np.diag(np.concatenate([[3.0], rng.uniform(0.1, 1.0, n - 1)])).astype(M.dtype)
    calls = []

    def oper(x):
        calls.append(1)
        return (M @ x.ravel()).reshape(sh)
    seed = int(pick(rng, [0, 1, rng.integers(10 ** 6), rng.integers(10 ** 6)]))
    gen = rng.random() < 0.4
    ref = np.random.default_rng(seed)
    auto = rng.random() < 0.5
    kw = {"rng": np.random.default_rng(seed) if gen else seed}
    if cplx or rng.random() < 0.3:
        kw["data_type"] = complex if cplx else float
    if rng.random() < 0.2:
        kw["verbose"] = True
    if not auto:
        kw["auto_run"] = False

    def start():
        nonlocal ref
        if not gen:
            ref = np.random.default_rng(seed)
        return ref.random(sh)
    events = []
    box = {}

    def record(fn, a, **args):
        calls.clear()
        ev = call_event("PowerMethod", dict(a, M=mat(M), start=vec(start())), fn, rtol="1e-9",
                        enc_out=lambda v: {"k": "done"}, **args)
        ev["calls"] = len(calls)
        pm = box.get("pm")
        ev["spec"] = num(pm.spec_rad) if hasattr(pm, "spec_rad") else "NaN"
        ev["inv"] = num(pm.inv_spec_rad) if hasattr(pm, "inv_spec_rad") else "NaN"
        events.append(ev)

    def make():
        box["pm"] = mx.PowerMethod(oper, sh, **kw)
    default = {"tol": "1e-6", "maxit": 20, "factor": "1.0"}
    if auto:
        record(make, default)
    else:
        make()
    for _ in range(int(rng.integers(0 if auto else 1, 3))):
        args, a = {}, dict(default)
        if rng.random() < 0.6:
            args["tolerance"] = float(pick(rng, [1e-6, 1e-3, 0.1, 1e-10, 10.0] if not slow else [1e-8, 1e-12]))
            a["tol"] = num(args["tolerance"])
        if rng.random() < 0.6:
            args["max_iter"] = int(rng.integers(1, 40)) if not slow else int(rng.integers(30, 160))
            a["maxit"] = args["max_iter"]
        if rng.random() < 0.6:
            args["extra_factor"] = float(rng.uniform(0.5, 2))
            a["factor"] = num(args["extra_factor"])
        record(lambda **k: box["pm"].get_spec_rad(**k), a, **args)
    return events
