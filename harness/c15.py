"""C15: ordered-weighted-L1 and k-support operators."""
import warnings

import numpy as np

from common import arr, call_event, num, vec
from gen import layout, pick, rng_for
from loopdrv import quiet


def data(rng, n, kind):
    unit = float(pick(rng, [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1e-7, 1e-13, 1e-15, 1e9]))
    x = rng.normal(size=n) * pick(rng, [1.0, 1.0, 5.0, 100.0, 0.01, 3e4, 1e-4])
    m = int(rng.integers(6))
    if m == 0:
        x = np.round(x * 2) / 2                      # ties and zeros
    elif m == 1:
        x = np.where(rng.random(n) < 0.5, 0.0, x)
    elif m == 2:
        x = np.full(n, x[0]) * np.where(rng.random(n) < 0.5, -1, 1)
    elif m == 3:
        x = np.sort(x)[::pick(rng, [1, -1])]
    if kind == "complex":
        x = x * np.exp(1j * rng.uniform(0, 6.28, size=n))
    return x * unit, unit


def run(check):
    rng = rng_for(check)
    from modopt.opt import proximity
    cases = []
    n_cases = 5000 if check.tier == "thorough" else 900

    reuse = {}

    def add(ev, **extra):
        cases.append(dict({"id": len(cases) + 1, "events": [ev]}, **extra))

    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(n_cases):
            n = int(pick(rng, [1, 2, 2, 3, 4, 5, 6, 8, 12, 30, 45] if rng.random() < 0.95 else [70, 110, 150]))
            kind = pick(rng, ["real", "real", "real", "complex"])
            x, unit = data(rng, n, kind)
            tol = {"atol": num(1e-12 * min(unit, 1.0))}
            sqtol = {"atol": num(1e-12 * min(unit, 1.0) ** 2)}
            sh = (n,)
            if n in (4, 6, 8, 12) and rng.random() < 0.3:
                sh = (2, n // 2)
            f = pick(rng, [None, 0.5, 2.0, 0.0, float(np.abs(rng.normal())), float(np.abs(rng.normal())), 1e-3, 40.0])
            fkw = {} if f is None else {"extra_factor": f}
            fe = 1.0 if f is None else f
            verb = {"verbose": True} if rng.random() < 0.2 else {}
            if rng.random() < 0.5:
                w = np.sort(np.abs(rng.normal(size=n)))[::-1] * np.max(np.abs(x) + 0.1 * unit) * pick(rng, [0.1, 0.5, 1.0])
                k = int(rng.integers(5))
                if k == 0:
                    w = np.full(n, w[0])
                elif k == 1:
                    w = np.array([w[0]] + [0.0] * (n - 1))
                elif k == 2:
                    w = np.linspace(n, 1, n) * 0.2 * unit
                x1 = layout(rng, x)
                if rng.random() < 0.3:
                    x1 = x1.reshape(pick(rng, [(1, n), (n, 1), sh]))
                op = reuse.get(n)                     # an operator already used, with its own or with other weights
                if op is None or rng.random() < 0.6:
                    op = reuse[n] = proximity.OrderedWeightedL1Norm(w.copy())
                elif rng.random() < 0.5:
                    op.weights = w.copy()
                elif rng.random() < 0.5:
                    op.weights[...] = w
                else:
                    w = np.array(op.weights)
                enc = {"x": arr(x1), "w": vec(w), "f": num(fe)}
                add(call_event("OWL.op", enc, op.op, x1, rtol="1e-9", **fkw))
                add(call_event("OWL.cost", enc, op.cost, x1, **tol, **verb), finding="owl-cost-order")
            else:
                x1 = layout(rng, x.reshape(sh))
                beta = float(pick(rng, [0.1, 1.0, 3.0, np.abs(rng.normal()) + 0.01]))
                k = int(pick(rng, [rng.integers(1, n + 3), rng.integers(1, n + 3), n, max(1, n - 1), n + 1]))
                if fe == 0.0:
                    fkw, fe = {}, 1.0
                op = proximity.KSupportNorm(beta, k)
                if "op" in reuse and rng.random() < 0.4:
                    op, beta, k = reuse["op"]         # an operator already used on other data
                    if rng.random() < 0.4:
                        beta = op.beta = float(np.abs(rng.normal()) + 0.01)
                    if rng.random() < 0.4:
                        k = op.k_value = int(rng.integers(1, n + 3))
                reuse["op"] = (op, beta, k)
                enc = {"x": arr(x1), "k": min(k, n), "beta": num(beta), "f": num(fe)}
                add(call_event("KSupport.op", enc, op.op, x1, rtol="1e-7", **fkw))
                if rng.random() < 0.5:
                    add(call_event("KSupport.op", enc, op.op, x1, rtol="1e-7", **fkw))
                if rng.random() < 0.5:
                    op = proximity.KSupportNorm(beta, k)
                add(call_event("KSupport.cost", enc, op.cost, x1, **sqtol, **verb), finding="ksupport-cost-half")
    check.add_traces("TrProx", cases)
