"""C13: convergence to, and rest at, the minimiser (spec/Optim.tla, MCOptim.tla, TrOptim.tla)."""
import warnings

import numpy as np

from algdrv import Gen, Lin, enc_grad
from common import CallTimeout, model_check, num, time_limit, vec
from gen import pick, rng_for
from loopdrv import quiet


def shrink(v, t):
    m = np.abs(v)
    return np.where(m <= t, 0 * v, v * (1 - t / np.where(m == 0, 1, m)))


class Pen:
    """W|x| + D/2 |x|^2 (+ positivity), as a list of operators of the library."""

    def __init__(self, n, dtype):
        self.W, self.D, self.pos = np.zeros(n), np.zeros(n), False
        self.C = np.zeros(n)

    def prox(self, v, b):
        t = shrink(v, b * self.W) / (1 + b * self.D)
        return np.maximum(t, 0) if self.pos else t

    def enc(self):
        return {"W": vec(self.W), "D": vec(self.D), "C": vec(self.C), "pos": self.pos}


def problem(rng, diagonal=False):
    import modopt.opt.gradient as gradient
    g = Gen(rng)
    m = g.n + int(rng.integers(0, 3))
    A = g.arr((m, g.n))
    u, _, v = np.linalg.svd(A, full_matrices=False)
    A = (u * rng.uniform(0.5, 1.0, size=g.n)) @ v
    if diagonal:
        A = np.diag(rng.uniform(0.5, 1.0, size=g.n) * np.sign(A[:g.n, 0].real + 1e-9)).astype(A.dtype)
        m = g.n
    y = g.arr((m,), 3.0)

    class P:
        pass
    p = P()
    p.A, p.y, p.c = A, y, np.zeros(g.n, dtype=A.dtype)
    sh = g.shape
    grad = gradient.GradBasic(y, lambda x: A @ x.ravel(), lambda r: (A.conj().T @ r).reshape(sh), verbose=False)
    return g, p, grad


def proxes(rng, g, k, kinds=None):
    """k operators of the library and their joint penalty."""
    import modopt.opt.linear as linear
    import modopt.opt.proximity as proximity
    ident = linear.Identity()
    pen, ops = Pen(g.n, float), []
    for _ in range(k):
        kind = pick(rng, kinds or ["soft", "soft", "ridge", "net", "id"] + ([] if g.cplx else ["pos", "pos"]))
        w = np.abs(rng.normal(size=g.shape)) * 0.6
        w2 = np.abs(rng.normal(size=g.shape)) * 0.4
        if rng.random() < 0.3:
            w, w2 = float(w.ravel()[0]), float(w2.ravel()[0])
        full = lambda a: np.broadcast_to(a, g.shape).ravel()  # noqa: E731
        if kind == "soft":
            ops.append(proximity.SparseThreshold(ident, w))
            pen.W = pen.W + full(w)
        elif kind == "ridge":
            ops.append(proximity.Ridge(ident, w))
            pen.D = pen.D + 2 * full(w)
        elif kind == "net":
            ops.append(proximity.ElasticNet(ident, w, w2))
            pen.D = pen.D + 2 * full(w)
            pen.W = pen.W + full(w2)
        elif kind == "pos":
            ops.append(proximity.Positivity())
            pen.pos = True
        else:
            ops.append(proximity.IdentityProx())
    return ops, pen


def minimiser(p, pen, n):
    x = np.zeros(n, dtype=p.A.dtype)
    for _ in range(400):
        x = pen.prox(x - p.A.conj().T @ (p.A @ x - p.y), 1.0)
    return x


def saddle(p, pen, hw, M, n):
    x = np.zeros(n, dtype=p.A.dtype)
    y = np.zeros(M.shape[0], dtype=p.A.dtype)
    nm = np.linalg.norm(M, 2)
    tau = 0.9
    sig = 0.5 / max(nm, 1e-3) ** 2
    for _ in range(6000):
        xn = pen.prox(x - tau * (p.A.conj().T @ (p.A @ x - p.y) + M.conj().T @ y), tau)
        v = y + sig * (M @ (2 * xn - x))
        y = v - sig * shrink(v / sig, hw / sig)
        x = xn
    return x, y


def watch(events):
    def fn(x):
        events.append({"t": "upd", "x": vec(x)})
        return 0.0
    return {"m": {"metric": fn, "mapping": {"x_new": "x"}, "cst_kwargs": {}, "early_stopping": False}}


def one(rng, cls, kind):
    import modopt.opt.linear as linear
    from modopt.opt import algorithms
    g, p, grad = problem(rng, cls == "AdaGenericGradOpt")
    kw = {"progress": False}
    if not cls.endswith("GradOpt"):
        kw["auto_iterate"] = False
    step = g.f(0.4, 1.0)                # the gradient is 1-Lipschitz
    x0 = g.arr(scale=3.0)
    case = {"p": enc_grad(p), "cls": cls, "kind": kind, "alg": "condat" if cls == "Condat" else "x", "lin": {"t": "id"}, "hw": [],
            "tol": "1e-4"}
    events = []
    y0 = np.zeros(0)
    iters = {"conv": 500, "mono": 12, "fixed": 8}[kind]
    if cls == "GenForwardBackward":
        ops, pen = proxes(rng, g, int(rng.integers(1, 4)))
    elif cls == "Condat":
        ops, pen = proxes(rng, g, 1, ["id"] + ([] if g.cplx else ["pos", "pos"]))
    else:
        ops, pen = proxes(rng, g, 1)
    if cls == "Condat":
        lin, so = g.lin()
        M = np.eye(g.n) if lin.M is None else lin.M
        hw = np.abs(rng.normal(size=M.shape[0])) * 0.5
        case.update(lin=lin.enc(), hw=vec(hw))
        y0 = g.arr(so)
        iters = 1500 if kind == "conv" else iters
    if cls == "AdaGenericGradOpt":
        iters = 3000
    if kind == "fixed":
        if cls == "Condat":
            xs, ys = saddle(p, pen, hw, M, g.n)
            x0, y0 = xs.reshape(g.shape), ys.reshape(so)
        else:
            x0 = minimiser(p, pen, g.n).reshape(g.shape)
    case.update(x0=vec(x0), pen=pen.enc())
    events.append({"t": "start", "x": vec(x0), "y": vec(y0)})
    if kind != "conv":
        kw.update(metrics=watch(events), metric_call_period=1)

    def build():
        if cls == "ForwardBackward":
            if kind == "mono":
                kw.update(lambda_update=None)
            else:
                kw.update(pick(rng, [{}, {}, {"lambda_update": None}, {"a_cd": g.f(2.5, 6.0)},
                                     {"p_lazy": g.f(0.3, 1.0), "q_lazy": g.f(0.2, 1.0), "r_lazy": g.f(2.0, 4.0)},
                                     {"restart_strategy": pick(rng, ["adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2"]),
                                      "xi_restart": g.f(0.8, 0.99)},
                                     {"restart_strategy": "greedy", "xi_restart": g.f(0.8, 0.99), "min_beta": 0.3, "s_greedy": 1.1}]))
                if kw.get("lambda_update", 1) is None:
                    kw["lambda_param"] = g.f(0.6, 1.0)
            return algorithms.ForwardBackward(x0, grad, ops[0], cost=None, linear=linear.Identity(), beta_param=step, **kw)
        if cls == "GenForwardBackward":
            w = rng.integers(1, 4, size=len(ops))
            return algorithms.GenForwardBackward(x0, grad, ops, cost=None, linear=linear.Identity(), gamma_param=step,
                                                 lambda_param=g.f(0.7, 1.1), weights=list(w / w.sum()), **kw)
        if cls == "POGM":
            return algorithms.POGM(u=x0, x=x0, y=x0, z=x0, grad=grad, prox=ops[0], cost=None, linear=linear.Identity(),
                                   beta_param=step, sigma_bar=g.f(0.5, 1.0), **kw)
        if cls == "VanillaGenericGradOpt":
            return algorithms.VanillaGenericGradOpt(x0, grad, ops[0], None, eta=step, **kw)
        if cls == "AdaGenericGradOpt":
            return algorithms.AdaGenericGradOpt(x0, grad, ops[0], None, eta=g.f(0.5, 1.5), **kw)
        import modopt.opt.proximity as proximity
        nm = max(np.linalg.norm(M, 2), 0.1)
        tau = g.f(0.3, 0.8)
        sigma = float(0.8 * (1 / tau - 0.5) / nm ** 2)
        dual = proximity.SparseThreshold(linear.Identity(), hw.reshape(so))
        lop = linear.LinearParent(lin.op, lin.adj_op)
        return algorithms.Condat(x0, y0, grad, ops[0], dual, linear=lop, cost=None, rho=g.f(0.6, 1.0), sigma=min(sigma, 5.0), tau=tau, **kw)
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            with time_limit(60):
                alg = build()
                alg.iterate(max_iter=iters)
                events.append({"t": "final", "x": vec(alg.x_final), "y": vec(getattr(alg, "y_final", np.zeros(0)))})
        except CallTimeout:
            events.append({"t": "raise", "e": "Timeout"})
        except Exception as exc:  # noqa: BLE001
            events.append({"t": "raise", "e": type(exc).__name__})
    case["events"] = events
    return case


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    grid = dict(As='{"1.0", "0.5"}', Ys='{"-2.0", "0.5", "3.0"}', Ws='{"0.5", "1.0"}', Ds='{"0.5"}', Starts='{"-2.0", "1.5"}', Steps="120")
    if thorough:
        grid = dict(As='{"1.0", "0.5", "0.75"}', Ys='{"-2.0", "-0.25", "0.5", "3.0"}', Ws='{"0.0", "0.5", "1.0"}', Ds='{"0.5", "2.0"}',
                    Starts='{"-2.0", "0.0", "1.5"}', Steps="200")
    res = model_check("MCOptim", constants=grid, workers="8", heap="12g")
    check.add_model("MCOptim", res)
    cases = []
    n = 60 if thorough else 9
    for cls in ("ForwardBackward", "ForwardBackward", "GenForwardBackward", "POGM", "Condat", "VanillaGenericGradOpt"):
        cases += [one(rng, cls, "conv") for _ in range(n)]
        if cls != "GenForwardBackward":
            cases += [one(rng, cls, "fixed") for _ in range(4 * n)]
    cases += [one(rng, "AdaGenericGradOpt", "conv") for _ in range(n)]
    cases += [one(rng, "ForwardBackward", "mono") for _ in range(10 * n)]
    for i, c in enumerate(cases):
        c["id"] = i + 1
    check.add_traces("TrOptim", cases, workers="8")
    check.assumptions.append("random strongly convex problems (curvature between 1/4 and 1), 500 iterations (primal-dual 1500; AdaGrad, on diagonal problems, 3000), tolerance 1e-4")
