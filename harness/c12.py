"""C12: ownership of memory and repeatability (spec/Iso.tla, spec/TrIso.tla)."""
import warnings

import numpy as np

from algdrv import GD, Gen, Grad, Lin, fun
from common import CallTimeout, arr, model_check, time_limit
from gen import layout, pick, rng_for, values
from loopdrv import quiet

SOLVERS = ["ForwardBackward", "GenForwardBackward", "POGM", "Condat", "ADMM", "FastADMM", *GD.values()]


def own(rng, a):
    """The same values as an array of the caller's, in some memory layout, writeable."""
    if a.flags.f_contiguous and not a.flags.c_contiguous:
        return a.copy(order="F")
    while True:
        b = layout(rng, a)
        if b.flags.writeable:
            return b


class World:
    """The caller: its arrays, and the results it was given."""

    def __init__(self, rng):
        self.rng, self.inputs, self.pubs, self.events = rng, [], [], []

    def keep(self, a, frozen=False):
        a = own(self.rng, a)
        if frozen and self.rng.random() < 0.3:
            a = a.copy()
            a.flags.writeable = False
        self.inputs.append(a)
        return a

    def act(self, ev, func):
        """Do something and record what can be seen afterwards."""
        ev["raised"] = ""
        val = []
        try:
            with time_limit(20), np.errstate(all="ignore"):
                val = func() or []
        except CallTimeout:
            ev["raised"] = "Timeout"
        except Exception as exc:  # noqa: BLE001
            ev["raised"] = type(exc).__name__ + " " + str(exc)[:60]
        ev["val"] = [arr(v) for v in val]
        # only what changed is written out: [position, content now]
        ev["inputs"] = self.changed(self.inputs, self.insnap)
        ev["pubs"] = self.changed(self.pubs, self.pubsnap)
        self.pubs += list(val)
        self.pubsnap += [np.array(v) for v in val]
        self.events.append(ev)

    def start(self):
        self.insnap = [np.array(a) for a in self.inputs]
        self.pubsnap = []
        return [arr(a) for a in self.inputs]

    @staticmethod
    def changed(now, snap):
        out = []
        for k, (a, b) in enumerate(zip(now, snap)):
            if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                out.append({"k": k + 1, "v": arr(a)})
                snap[k] = np.array(a)
        return out


# ---------------------------------------------------------------------------
# solvers

class Setup:
    """A problem and two solver configurations on it."""

    def __init__(self, world, rng):
        import modopt.opt.gradient as gradient
        import modopt.opt.linear as linear
        import modopt.opt.proximity as proximity
        from modopt.opt import algorithms
        self.w, self.rng, self.alg = world, rng, algorithms
        self.gradient, self.linear, self.proximity = gradient, linear, proximity
        self.g = g = Gen(rng)
        g.shape = pick(rng, [(3,), (2, 2), (4,), (1, 3), (2, 3)])
        g.n = int(np.prod(g.shape))
        self.x0 = world.keep(np.asfortranarray(g.arr(scale=2.0)) if rng.random() < 0.3 else g.arr(scale=2.0))
        A = g.arr((g.n + 1, g.n))
        self.A = world.keep(A / np.linalg.norm(A, 2), True)
        self.y = world.keep(g.arr((g.n + 1,), 2.0), True)
        self.thr = world.keep(np.abs(rng.normal(size=g.shape)) * 0.3 + 0.05, True)
        self.thr2 = world.keep(np.abs(rng.normal(size=g.shape)) * 0.3 + 0.05, True)
        self.M = world.keep(g.arr((g.n, g.n), 0.5), True)
        self.b = world.keep(g.arr((g.n,)), True)
        self.dual0 = world.keep(g.arr(), True)
        self.share = rng.random() < 0.5
        self.pool = {}
        self.cfgs = {}
        names = [pick(rng, SOLVERS), pick(rng, SOLVERS)]
        if rng.random() < 0.4:
            names[1] = names[0]
        for k, name in enumerate(names):
            self.cfgs[k + 1] = self.config(name)

    def shared(self, key, make):
        if not self.share:
            return make()
        if key not in self.pool:
            self.pool[key] = make()
        return self.pool[key]

    def grad(self):
        def make():
            if self.buffered:
                return Grad(self.A, self.y, np.zeros(self.g.n, dtype=self.A.dtype), True)
            sh = self.g.shape
            return self.gradient.GradBasic(self.y, lambda x: self.A @ x.ravel(),
                                           lambda r: (self.A.conj().T @ r).reshape(sh), verbose=False)
        self.buffered = self.rng_cfg["buffered"]
        return self.shared(("grad", self.buffered), make)

    def prox(self, kind):
        p, lin = self.proximity, self.linear

        def make():
            if kind == "pos":
                return p.Positivity()
            if kind == "soft":
                return p.SparseThreshold(lin.Identity(), self.thr)
            if kind == "hard":
                return p.SparseThreshold(lin.Identity(), self.thr2, thresh_type="hard")
            if kind == "ridge":
                return p.Ridge(lin.Identity(), self.thr)
            if kind == "net":
                return p.ElasticNet(lin.Identity(), self.thr, self.thr2)
            if kind == "comp":
                Q = np.linalg.qr(np.array(self.M))[0]
                li = Lin(Q, self.g.shape, self.g.shape)
                return p.LinearCompositionProx(lin.LinearParent(li.op, li.adj_op), p.SparseThreshold(lin.Identity(), self.thr))
            return p.IdentityProx()
        return self.shared(("prox", kind), make)

    def lin(self, kind):
        def make():
            if kind == "mat":
                li = Lin(self.M, self.g.shape, self.g.shape)
                return self.linear.LinearParent(li.op, li.adj_op)
            return self.linear.Identity()
        return self.shared(("lin", kind), make)

    def config(self, name):
        g, rng = self.g, self.rng
        real = ["pos"] if not g.cplx else []
        kinds = ["soft", "hard", "ridge", "net", "id", "comp", *real]
        c = {"name": name, "buffered": bool(rng.random() < 0.5), "prox": pick(rng, kinds), "prox2": pick(rng, kinds),
             "lin": pick(rng, ["id", "mat"]), "step": g.f(0.2, 0.9), "other": g.f(0.3, 0.9), "upd": g.upd(0.4),
             "auto": False, "cost": pick(rng, ["none", "auto"])}
        if name == "ForwardBackward":
            c["fista"] = pick(rng, [{}, {"restart_strategy": "adaptive-ii", "xi_restart": 0.9},
                                    {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.3, "s_greedy": 1.1},
                                    {"a_cd": 4.0}, {"lambda_update": None}])
        if name == "GenForwardBackward":
            c["weights"] = pick(rng, [None, self.w.keep(np.array([0.25, 0.75])), (0.6, 0.4)])
        if name in ("ADMM", "FastADMM"):
            n = g.n
            c["P"] = [(g.arr((n, n), 0.3), g.arr((n, n), 0.4), g.arr((n,), 0.5)) for _ in range(2)]
            c["flat"] = True
        if name in GD.values():
            c["epoch"] = pick(rng, [1, 2, 3])
        return c

    def make(self, k):
        c = self.cfgs[k]
        self.rng_cfg = c
        name, x0, alg = c["name"], self.x0, self.alg
        if self.rng.random() < 0.2:       # a read-only view of memory its owner may well change
            x0 = x0.view()
            x0.flags.writeable = False
        kw = {"progress": False}
        if name in ("ADMM", "FastADMM"):
            def opt(P, Q, r):
                return lambda init, obs: (P @ init.ravel() + Q @ obs.ravel() + r).reshape(self.g.shape)
            li = self.lin(c["lin"])
            b = self.b.reshape(self.g.shape)
            return getattr(alg, name)(u=x0, v=self.dual0, mu=x0 if c["buffered"] else self.dual0, A=li, B=self.lin("id"), b=b,
                                      optimizers=(opt(*c["P"][0]), opt(*c["P"][1])), **kw)
        cost = None if c["cost"] == "none" else "auto"
        grad, prox = self.grad(), self.prox(c["prox"])
        if name in GD.values():
            return getattr(alg, name)(x0, grad, prox, cost, eta=c["step"], epsilon=0.8, epoch_size=c["epoch"], **kw)
        kw.update(auto_iterate=False, cost=cost)
        if name == "ForwardBackward":
            return alg.ForwardBackward(x0, grad, prox, beta_param=c["step"], beta_update=fun(c["upd"]), **c["fista"], **kw)
        if name == "GenForwardBackward":
            return alg.GenForwardBackward(x0, grad, [prox, self.prox(c["prox2"])], gamma_param=c["step"], lambda_param=c["other"],
                                          weights=c["weights"], **kw)
        if name == "POGM":
            return alg.POGM(u=x0, x=x0, y=self.dual0, z=x0, grad=grad, prox=prox, beta_param=c["step"], **kw)
        # Condat calls its primal proximity operator without a factor
        return alg.Condat(x0, self.dual0, grad, prox, self.prox(c["prox2"]), linear=self.lin(c["lin"]), rho=c["other"],
                          sigma=c["step"], tau=c["step"], **kw)


def finals(obj):
    return [getattr(obj, n) for n in ("x_final", "y_final", "u_final", "v_final") if hasattr(obj, n)]


def solver_case(rng, hist, shrink):
    world = World(rng)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = Setup(world, rng)
        case = {"inputs": world.start(), "rtol": "1e-8", "atol": "1e-10", "solvers": [s.cfgs[k]["name"] for k in (1, 2)]}
        objs = {}
        base = np.array(s.x0)
        for t, i, k in hist:
            ev = {"t": t, "o": i, "k": k}
            if t == "make":
                ev["cfg"], ev["what"] = k, s.cfgs[k]["name"]

                def func():
                    objs[i] = (s.make(k), s.cfgs[k]["name"])
            elif t == "run":
                ev["what"] = objs[i][1] if i in objs else "?"

                def func():
                    obj = objs[i][0]
                    obj.iterate(max_iter=k)
                    return finals(obj)
            else:
                ev["what"] = "the caller"

                def func():
                    s.x0[...] = base * (1.0 + 0.37 * k) - 0.2 * k
                    world.insnap[0] = np.array(s.x0)
                    ev["now"] = arr(s.x0)
            world.act(ev, func)
            if ev["raised"]:
                break
    case["events"] = world.events
    return case


# ---------------------------------------------------------------------------
# operators and functions

def operators(rng, world, mods):
    """(name, builder of a fresh instance, {method: [arguments]}, loose)"""
    gradient, linear, proximity = mods
    cplx = rng.random() < 0.3
    kind = "complex" if cplx else "real"
    sh = pick(rng, [(4,), (3, 3), (2, 3), (5,)])
    n = int(np.prod(sh))
    xs = [world.keep(values(rng, sh, kind, 2.0), True) for _ in range(3)]
    w = world.keep(np.abs(rng.normal(size=sh)) + 0.1, True)
    w2 = world.keep(np.abs(rng.normal(size=sh)) + 0.1, True)
    ident = linear.Identity()
    px = {"op": [(x,) for x in xs] + [(xs[0], 0.5), (xs[1], 2.0)], "cost": [(x,) for x in xs]}
    out = [("SparseThreshold", lambda: proximity.SparseThreshold(ident, w, thresh_type="hard"), px, False),
           ("SparseThreshold", lambda: proximity.SparseThreshold(ident, w), px, False),
           ("Ridge", lambda: proximity.Ridge(ident, w), px, False),
           ("ElasticNet", lambda: proximity.ElasticNet(ident, w, w2), px, False),
           ("IdentityProx", lambda: proximity.IdentityProx(), px, False),
           ("ProximityCombo", lambda: proximity.ProximityCombo([proximity.SparseThreshold(ident, w), proximity.Ridge(ident, w2)]),
            {"op": [(np.array([xs[0], xs[1]]),), (np.array([xs[2], xs[1]]), 0.5)], "cost": [(np.array([xs[0], xs[1]]),)]}, False)]
    if not cplx:
        out.append(("Positivity", proximity.Positivity, px, False))
        flat = [world.keep(values(rng, (5,), "real", 2.0), True) for _ in range(3)]
        fx = {"op": [(x,) for x in flat] + [(flat[0], 0.5)], "cost": [(x,) for x in flat]}
        ow = world.keep(np.sort(np.abs(rng.normal(size=5)))[::-1].copy(), True)
        out.append(("OrderedWeightedL1Norm", lambda: proximity.OrderedWeightedL1Norm(ow), fx, False))
        small = [world.keep(values(rng, (2,), "real", 2.0), True)]
        out.append(("KSupportNorm", lambda: proximity.KSupportNorm(0.5, 3),
                    {"op": [(x,) for x in flat + small] + [(flat[0], 0.5)], "cost": [(x,) for x in flat + small]}, False))
        cube = [world.keep(values(rng, (5, 2, 3), "real", 2.0, False), True) for _ in range(2)]
        out.append(("LowRankMatrix", lambda: proximity.LowRankMatrix(1.0, initial_rank=pick(rng, [None, 1, 2])),
                    {"op": [(x,) for x in cube] + [(cube[0], 2.0)], "cost": [(x,) for x in cube]}, True))
        out.append(("GroupLASSO", lambda: proximity.GroupLASSO(np.array(w[0]) if w.ndim > 1 else 0.4), px, False))
        im = [world.keep(values(rng, (8, 6)), True) for _ in range(2)]
        wt = linear.WaveletTransform("db2", shape=(8, 6), level=1)
        co = [world.keep(np.array(wt.op(i)), True) for i in im]
        out.append(("WaveletTransform", lambda: linear.WaveletTransform("db2", shape=(8, 6), level=1),
                    {"op": [(i,) for i in im], "adj_op": [(i,) for i in co]}, False))
        fl = world.keep(values(rng, (2, 3, 3)), True)
        sm = [world.keep(values(rng, (2, 5, 5)), True) for _ in range(2)]
        cs = [world.keep(values(rng, (2, 2, 5, 5)), True) for _ in range(2)]
        out.append(("WaveletConvolve", lambda: linear.WaveletConvolve(fl), {"op": [(i,) for i in sm], "adj_op": [(i,) for i in cs]}, False))
    M = world.keep(values(rng, (3, n), kind), True)
    ys = [world.keep(values(rng, (3,), kind), True) for _ in range(2)]
    fxs = [x.reshape(-1) for x in xs]
    out.append(("MatrixOperator", lambda: linear.MatrixOperator(M), {"op": [(x,) for x in fxs], "adj_op": [(y,) for y in ys]}, False))
    out.append(("LinearCombo", lambda: linear.LinearCombo([ident, ident], weights=[0.5, 2.0]),
                {"op": [(x,) for x in xs], "adj_op": [(np.array([xs[0], xs[1]]),)]}, False))
    y = world.keep(values(rng, (3,), kind), True)
    out.append(("GradBasic", lambda: Gradient(gradient.GradBasic(y, lambda x: M @ x.ravel(),
                                                                 lambda r: (M.conj().T @ r).reshape(sh), verbose=False)),
                {"get_grad": [(x,) for x in xs], "cost": [(x,) for x in xs], "trans_op_op": [(x,) for x in xs]}, False))
    return out


class Gradient:
    """get_grad seen as a call with a result."""

    def __init__(self, g):
        self.g = g

    def get_grad(self, x):
        self.g.get_grad(x)
        return self.g.grad

    def cost(self, x):
        return self.g.cost(x)

    def trans_op_op(self, x):
        return self.g.trans_op_op(x)


def functions(rng, world):
    from modopt.base import np_adjust, transform, types
    from modopt.math import convolve, matrix, metrics, stats
    from modopt.signal import filter as sfilter
    from modopt.signal import noise, positivity, svd, wavelet
    a = [world.keep(values(rng, (4, 4), "real", 2.0, False), True) for _ in range(3)]
    cube = [world.keep(values(rng, (4, 2, 3)), True) for _ in range(2)]
    v = [world.keep(values(rng, (4,), "real", 1.0, False), True) for _ in range(2)]
    ker = [world.keep(values(rng, (3, 3)), True) for _ in range(2)]
    kers = world.keep(values(rng, (4, 2, 2)), True)
    pos = [world.keep(np.abs(values(rng, (8, 8), "real", 1.0, False)) + 0.5, True) for _ in range(3)]
    two = [(x, y) for x in pos for y in pos if x is not y]
    thr = world.keep(np.abs(rng.normal(size=4)), True)
    masks = [world.keep(m) for m in (np.tri(8), np.tri(8) > 0, np.tri(8) + 0.5)]
    ragged = [[0.5, -1.0], [-2.0, [1.0, -3.0]]]
    cx = [world.keep(values(rng, (4, 4), "complex", 2.0, False), True) for _ in range(2)]
    odd = [world.keep(values(rng, (6, 9), "real", 2.0, False), True) for _ in range(2)]
    return {
        "cube2map": (lambda x: transform.cube2map(x, (2, 2)), [(c,) for c in cube]),
        "map2cube": (lambda x: transform.map2cube(x, (2, 2)), [(x,) for x in a]),
        "map2matrix": (lambda x: transform.map2matrix(x, (2, 2)), [(x,) for x in a]),
        "matrix2map": (lambda x: transform.matrix2map(x, (4, 4)), [(x,) for x in a]),
        "cube2matrix": (transform.cube2matrix, [(c,) for c in cube]),
        "matrix2cube": (lambda x: transform.matrix2cube(x, (2, 2)), [(x,) for x in a]),
        "convolve": (lambda x, k: convolve.convolve(x, k, method="scipy"), [(x, k) for x in a for k in ker]),
        "convolve astropy": (lambda x, k: convolve.convolve(x, k, method="astropy"), [(x, k) for x in a for k in ker]),
        "convolve_stack": (convolve.convolve_stack, [(c, kers) for c in cube]),
        "gram_schmidt": (matrix.gram_schmidt, [(x,) for x in a]),
        "nuclear_norm": (matrix.nuclear_norm, [(x,) for x in a]),
        "project": (matrix.project, [(v[0], v[1]), (v[1], v[0])]),
        "rot_matrix": (matrix.rot_matrix, [(0.3,), (1.2,)]),
        "rotate": (lambda x: matrix.rotate(x, np.pi / 2), [(x,) for x in a]),
        "masked": (lambda f, x, y, m: getattr(metrics, f)(x, y, mask=m),
                   [(f, x, y, m) for f in ("snr", "psnr", "nrmse", "mse", "ssim") for x, y in two[:2] for m in masks]),
        "min_max_normalize": (metrics.min_max_normalize, [(x,) for x in a]),
        "snr": (metrics.snr, two), "psnr": (metrics.psnr, two), "nrmse": (metrics.nrmse, two), "mse": (metrics.mse, two),
        "ssim": (metrics.ssim, two[:3]),
        "stats.mse": (stats.mse, two), "stats.psnr": (stats.psnr, two), "mad": (stats.mad, [(x,) for x in a]),
        "sigma_mad": (stats.sigma_mad, [(x,) for x in a]), "gaussian_kernel": (lambda s: stats.gaussian_kernel((5, 5), s), [(1.0,), (2.0,)]),
        "psnr_stack": (stats.psnr_stack, [(cube[0] + 1, cube[1])]),
        "thresh": (noise.thresh, [(x, 0.5, t) for x in a for t in ("soft", "hard")] + [(v[0], thr, "soft")]),
        "add_noise": (lambda x, s, t: noise.add_noise(x, s, t, rng=3), [(x, s, t) for x in a[:2] for s in (1.0, thr, [0.5, 1.0, 2.0, 0.1])
                                                                         for t in ("gauss", "poisson")]),
        "positive": (positivity.positive, [(x,) for x in a]),
        "calculate_svd": (svd.calculate_svd, [(x,) for x in a]),
        "find_n_pc": (svd.find_n_pc, [(np.linalg.qr(np.array(x))[0],) for x in a]),
        "svd_thresh": (lambda x, t: svd.svd_thresh(x, t, thresh_type="soft"), [(x, t) for x in a for t in (0.5, thr)]),
        "svd_thresh n_pc": (lambda x, n, t: svd.svd_thresh(x, n_pc=n, thresh_type=t),
                            [(x, n, t) for x in a for n in (1, 2, "all") for t in ("soft", "hard")]),
        "svd_thresh_coef": (lambda x, t: svd.svd_thresh_coef(x, lambda c: c, t), [(x, t) for x in a for t in (0.5, thr)]),
        "svd_thresh_coef_fast": (lambda x, n, t: svd.svd_thresh_coef_fast(x, 1.0, n_vals=n, thresh_type=t),
                                 [(x, n, t) for x in odd for n in (-1, 1, 6) for t in ("soft", "hard")]),
        "thresh complex": (noise.thresh, [(x, 0.5, t) for x in cx for t in ("soft", "hard")]),
        "positive ragged": (lambda: positivity.positive(ragged, ragged=True), [()]),
        "rotated": (lambda c: convolve.convolve_stack(c, kers, rot_kernel=True), [(c,) for c in cube]),
        "filter_convolve rotated": (lambda c: wavelet.filter_convolve(c, kers, filter_rot=True), [(c,) for c in cube]),
        "rotate_stack": (np_adjust.rotate_stack, [(c,) for c in cube]), "pad2d": (np_adjust.pad2d, [(x, p) for x in a for p in (1, (1, 2))]),
        "fancy_transpose": (np_adjust.fancy_transpose, [(c, r) for c in cube for r in (1, -1)]),
        "stats.psnr wiki": (lambda x, y: stats.psnr(x, y, method="wiki"), two),
        "gram_schmidt both": (lambda x, o: matrix.gram_schmidt(x, return_opt=o), [(x, o) for x in a for o in ("both", "orthogonal")]),
        "check_float": (types.check_float, [(x,) for x in a] + [([1, 2],), (3,)]),
        "check_int": (types.check_int, [(x,) for x in a]),
        "PowerMethod": (lambda x: matrix.PowerMethod(lambda u: x @ u, (4,), rng=2).spec_rad, [(x,) for x in a]),
        "filter_convolve": (lambda x, k: wavelet.filter_convolve(x, np.array([k, 2 * k])), [(x, k) for x in a for k in ker]),
        "filter_convolve_stack": (lambda c, k: wavelet.filter_convolve_stack(c, np.array([k])), [(c, ker[0]) for c in cube]),
        "trim_filter": (wavelet.trim_filter, [(x,) for x in a]),
        "gaussian_filter": (sfilter.gaussian_filter, [(x, 1.5) for x in a]), "mex_hat": (sfilter.mex_hat, [(0.3, 1.5), (0.3, 1.0)]),
    }


def flatten(val):
    if val is None:
        return []
    if isinstance(val, tuple) or isinstance(val, list) or isinstance(val, np.ndarray) and val.dtype == object:
        return [x for v in val for x in flatten(v)]
    return [np.asarray(val)]


def call_case(rng, targets, world, loose):
    """targets: {label: (callable(instance number, args), argument lists)}"""
    case = {"inputs": world.start(), "rtol": "1e-6" if loose else "1e-9", "atol": "1e-8" if loose else "1e-11"}
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(9):
            label = pick(rng, list(targets))
            func, argl = targets[label]
            k = int(rng.integers(len(argl)))
            ev = {"t": "call", "o": label, "k": k + 1, "what": label}
            world.act(ev, lambda: flatten(func(*argl[k])))
            if ev["raised"]:
                break
    case["events"] = world.events
    return case


def op_case(rng):
    import modopt.opt.gradient as gradient
    import modopt.opt.linear as linear
    import modopt.opt.proximity as proximity
    world = World(rng)
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        name, build, methods, loose = pick(rng, operators(rng, world, (gradient, linear, proximity)))
        one, two = build(), build()
    targets = {}
    for m, argl in methods.items():
        def func(*args, m=m):
            return getattr(pick(rng, [one, two]), m)(*args)
        targets[name + "." + m] = (func, argl)
    return call_case(rng, targets, world, loose)


def fn_case(rng):
    world = World(rng)
    fns = functions(rng, world)
    names = [pick(rng, list(fns)) for _ in range(3)]
    return call_case(rng, {n: fns[n] for n in names}, world, False)


def run(check):
    thorough = check.tier == "thorough"
    rng = rng_for(check)
    design = dict(Objs="{1, 2}", Configs="{1, 2}", Amounts="{1, 2}", CopyInputs="TRUE", FreshResults="TRUE", Depth="6" if thorough else "5")
    res = model_check("MCIso", constants=design, workers="8")
    check.add_model("MCIso", res)
    behs = res.behaviours()
    n = 5000 if thorough else 1200
    cases = []
    for i in range(n):
        cases.append(solver_case(rng, behs[int(rng.integers(len(behs)))], i))
    check.coverage["behaviours_replayed"] = n
    cases += [op_case(rng) for _ in range(3000 if thorough else 500)]
    cases += [fn_case(rng) for _ in range(4000 if thorough else 700)]
    for i, c in enumerate(cases):
        c["id"] = i + 1
    check.add_traces("TrIso", cases, workers="8")
    check.assumptions.append("results are compared to 1e-8 relative (BLAS may round differently for differently aligned copies); "
                             "matrix operators that compute singular values iteratively to 1e-6")
