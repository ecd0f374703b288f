"""Concrete problems for the solvers, and recording of real runs as traces for spec/TrAlgo.tla."""
import os

import numpy as np

from common import CallTimeout, mat, num, time_limit, vec
from loopdrv import quiet


class Grad:
    """A^H (A x - y) + c, optionally reusing one output buffer, or handing out the constant it keeps."""

    def __init__(self, A, y, c, buffered=False, held=False):
        self.A, self.y, self.c, self.buffered = A, y, c, buffered
        self.grad = None
        self.held = np.array(c, copy=True) if held else None

    def get_grad(self, x):
        if self.held is not None:       # A is zero
            self.grad = self.held.reshape(x.shape)
            return
        g = (self.A.conj().T @ (self.A @ x.ravel() - self.y) + self.c).reshape(x.shape)
        if self.buffered and self.grad is not None and self.grad.dtype == g.dtype:
            self.grad[...] = g
        else:
            self.grad = g

    def cost(self, *args, **kwargs):
        return 0.0


class Prox:
    """One of the operators of spec/Problem.tla.  Its results are fresh arrays, or its own output buffer,
    or (point) a constant it keeps, or (id) the very array it was given."""

    def __init__(self, t, w, d, mode="fresh"):
        self.t, self.w, self.d, self.mode, self.buf = t, w, d, mode, None

    def op(self, x, extra_factor=1.0):
        if self.t == "id" and self.mode == "same":
            return x
        if self.t == "point" and self.mode == "same":
            return self.w.reshape(x.shape)
        res = self._op(x, extra_factor)
        if self.mode != "buffer":
            return res
        if self.buf is None or self.buf.shape != res.shape or self.buf.dtype != res.dtype:
            self.buf = np.empty_like(res)
        self.buf[...] = res
        return self.buf

    def _op(self, x, extra_factor):
        if self.t == "id":
            return x.copy()
        if self.t == "point":
            return self.w.reshape(x.shape).copy()
        if self.t == "pos":
            return np.maximum(x, 0)
        w = self.w.reshape(x.shape)
        if self.t == "soft":
            m = np.abs(x)
            t = extra_factor * w
            with np.errstate(all="ignore"):
                return np.where(m <= t, 0.0 * x, x * (1 - t / np.where(m == 0, 1, m)))
        return (x + extra_factor * w) / (1 + extra_factor * self.d.reshape(x.shape))

    def cost(self, *args, **kwargs):
        return 0.0

    def enc(self):
        return {"t": self.t, "w": vec(self.w), "d": vec(self.d)}


class Lin:
    """A matrix, or the identity; every other identity hands back the very array it was given."""
    made = 0

    def __init__(self, M=None, shape_in=None, shape_out=None):
        self.M, self.si, self.so = M, shape_in, shape_out
        Lin.made += M is None
        self.same = Lin.made % 2

    def _id(self, x):
        return x if self.same else x.copy()

    def op(self, x):
        return self._id(x) if self.M is None else (self.M @ x.ravel()).reshape(self.so)

    def adj_op(self, y):
        return self._id(y) if self.M is None else (self.M.conj().T @ y.ravel()).reshape(self.si)

    def enc(self):
        if self.M is None:
            return {"t": "id", "M": [], "ncol": 0}
        return {"t": "mat", "M": mat(self.M), "ncol": int(self.M.shape[1])}


class CostRec:
    """Cost object that records the arguments and declares convergence at the given calls only."""

    def __init__(self, stops=()):
        self.args, self.stops, self.calls, self.said = None, frozenset(stops), 0, False

    def get_cost(self, *args, **kwargs):
        self.calls += 1
        self.args = [np.array(a, copy=True) for a in args]
        self.said = self.calls in self.stops
        return self.said


BIG = [(17,), (5, 5), (2, 3, 4), (12,), (1, 20)]
SHAPES = [(1,), (2,), (3,), (3,), (4,), (2, 2), (1, 3), (2, 1, 2), (2, 3)]


class Gen:
    """Random problem ingredients for one case."""

    def __init__(self, rng):
        self.rng = rng
        self.shape = self.pick(*SHAPES) if rng.random() < 0.96 else self.pick(*BIG)
        self.k = self.pick(1.0, 1.0, 1.0, 1.0, 1.0, 0.05, 8.0, 300.0)      # scale of the admissible steps
        self.n = int(np.prod(self.shape))
        self.long = bool(rng.random() < 0.07)
        self.cplx = bool(rng.random() < 0.3)

    def arr(self, shape=None, scale=1.0, cplx=None):
        shape = self.shape if shape is None else shape
        a = self.rng.normal(size=shape) * scale
        if self.cplx if cplx is None else cplx:
            a = a + 1j * self.rng.normal(size=shape) * scale
        return a

    def f(self, lo, hi):
        return float(np.round(self.rng.uniform(lo, hi), 6))

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def flag(self, p=0.5):
        return bool(self.rng.random() < p)

    def grad(self):
        m = int(self.rng.integers(1, self.n + 2))
        A = self.arr((m, self.n))
        nrm = np.linalg.norm(A, 2) or 1.0
        A = A / nrm * self.f(0.5, 1.2)
        if self.flag(0.2):
            A = np.eye(self.n, dtype=A.dtype) * self.f(0.5, 1.1)
        A = A / np.sqrt(self.k)
        y = self.arr((A.shape[0],), 2.0)
        c = self.arr((self.n,), 0.5) if self.flag(0.2) else np.zeros(self.n, dtype=A.dtype)
        if self.flag(0.06):
            return Grad(np.zeros((1, self.n), dtype=A.dtype), y[:1], self.arr((self.n,), 0.5), held=True)
        return Grad(A, y, c, self.flag())

    def prox(self, kinds=("id", "pos", "soft", "soft", "soft", "aff", "aff", "aff", "point"), n=None):
        n = self.n if n is None else n
        t = self.pick(*kinds)
        if self.cplx and t == "pos":
            t = "aff"
        w = np.abs(self.rng.normal(size=n)) * self.pick(0.05, 0.3, 1.0)
        if t in ("aff", "point") and self.cplx:
            w = w + 1j * self.rng.normal(size=n)
        mode = self.pick("same", "same", "buffer", "fresh") if t in ("id", "point") else self.pick("fresh", "fresh", "buffer")
        return Prox(t, w, np.abs(self.rng.normal(size=n)), mode)

    def lin(self):
        if self.flag(0.3):
            return Lin(), self.shape
        so = SHAPES[int(self.rng.integers(len(SHAPES)))]
        M = self.arr((int(np.prod(so)), self.n), 0.5)
        return Lin(M, self.shape, so), so

    def synth(self):
        """A linear operator whose adjoint applies to the iterates."""
        if self.flag(0.3):
            return Lin()
        si = SHAPES[int(self.rng.integers(len(SHAPES)))]
        return Lin(self.arr((self.n, int(np.prod(si))), 0.5), si, self.shape)

    def upd(self, p=0.35):
        # growing parameters only in short runs: a run that settles and then turns unstable amplifies rounding
        return self.f(0.8, 1.0 if self.long else 1.05) if self.flag(p) else None


def encupd(u):
    return "none" if u is None else num(u)


def fun(u):
    return None if u is None else (lambda v: u * v)


def bounded(events, limit=1e9):
    """Drop the tail of a trace once a diverging run has left the range where rounding is under control."""
    last = 0.0
    for k, ev in enumerate(events):
        if ev["t"] == "upd":
            size = max((abs(complex(*map(float, x.split(",")))) for v in ev["v"].values() for x in v), default=0.0)
            if not size < limit:
                del events[k if size < 1e5 * last else k + 1:]      # a sudden jump is still judged
                break
            last = size
    return events


class Recorder:
    """Turns the observations of one solver object into trace events."""

    def __init__(self, names, cost=None, cost_names=("x",), peek=None):
        self.events = []
        self.names = names            # published variable -> name in the specification
        self.cost, self.cost_names, self.peek = cost, cost_names, peek
        self.alg = None

    def metrics(self):
        mapping = dict(self.names)
        mapping["idx"] = "idx"

        def fn(**kw):
            v = {name: vec(kw[name]) for name in self.names.values()}
            if self.cost is not None and self.cost.args is not None:
                v.update({name: vec(a) for name, a in zip(self.cost_names, self.cost.args)})
            if self.peek is not None and self.alg is not None:
                v.update(self.peek(self.alg))
            self.events.append({"t": "upd", "idx": int(kw["idx"]), "v": v,
                                "conv": self.cost is not None and self.cost.said})
            return float(len(self.events))
        return {"rec": {"metric": fn, "mapping": mapping, "cst_kwargs": {}, "early_stopping": False}}

    def run(self, gen, build, finals, runs, nrw=0, auto=None, **iterate_kw):
        """Run the solver; auto is its iteration limit when the constructor iterates."""
        ev = self.events
        with quiet():
            try:
                with time_limit(30), np.errstate(all="ignore"):
                    if auto:
                        ev.append({"t": "start", "max": auto, "nrw": nrw})
                    alg = self.alg = build()
                    if auto:
                        ev.append({"t": "end", "v": finals(alg)})
                    for k in runs:
                        ev.append({"t": "start", "max": k, "nrw": nrw})
                        if gen.flag(0.2) and "progbar" in alg.iterate.__code__.co_varnames:
                            from tqdm.auto import tqdm
                            with open(os.devnull, "w") as null, tqdm(total=k, file=null) as pb:
                                alg.iterate(k, progbar=pb, **iterate_kw)
                        else:
                            alg.iterate(max_iter=k, **iterate_kw)
                        ev.append({"t": "end", "v": finals(alg)})
            except CallTimeout:
                ev.append({"t": "raise", "e": "Timeout"})
            except Exception as exc:   # noqa: BLE001
                ev.append({"t": "raise", "e": type(exc).__name__ + ": " + str(exc)[:80]})
        return bounded(ev)


def enc_grad(g):
    return {"A": mat(g.A), "y": vec(g.y), "c": vec(g.c)}


def runs_of(gen, lo=3, hi=9):
    if gen.long:
        return [int(gen.rng.integers(25, 70))]
    return [int(gen.rng.integers(lo, hi))] + ([int(gen.rng.integers(1, 4))] if gen.flag(0.4) else [])


def start(gen, other_types=False):
    """Ingredients shared by all gradient-based solvers."""
    grad = gen.grad()
    x0 = gen.arr(scale=2.0)
    if other_types and gen.flag(0.12):      # the initial point need not be of the type of the gradients
        x0 = x0.real.copy() if gen.cplx else np.round(x0 * 2).astype(gen.pick(int, np.int32, np.float32))
    mag = 1.0
    if gen.flag(0.06):               # data far from unit scale: so is the rounding of differences
        mag = gen.pick(1e3, 1e5)
        grad.y, grad.c, x0 = grad.y * mag, grad.c * mag, x0 * mag
        if grad.held is not None:
            grad.held = grad.c.copy()
    cost = None
    if gen.flag(0.6):
        cost = CostRec(gen.rng.integers(1, 12, size=3) if gen.flag(0.25) else ())
    kw = {"progress": gen.flag(0.15), "verbose": gen.flag(0.2), "metric_call_period": 1}
    case = {"p": enc_grad(grad), "x0": vec(x0), "rtol": "1e-8", "atol": num(1e-10 * mag)}
    if x0.dtype == np.float32:       # the first steps may be taken in single precision
        case.update(rtol="1e-5", atol=num(1e-5 * max(1.0, float(np.max(np.abs(x0), initial=0)))))
    return grad, x0, cost, kw, case


def step_param(gen, kw, name, value):
    """Give the step either by its own name or by step_size (which then wins)."""
    if gen.flag(0.25):
        kw["step_size"] = value
        if gen.flag():
            kw[name] = value * 3.0
    else:
        kw[name] = value


def given(gen, kw, name, value, default, p=0.12):
    """Pass a parameter, or leave it out so that its documented default applies; the value in force is returned."""
    if gen.flag(p):
        return default
    kw[name] = value
    return value


def step_given(gen, kw, name, value, p=0.1):
    """A step that may be left out where the default of 1 is a stable step."""
    if not gen.long and gen.k >= 0.75 and gen.flag(p):
        return 1.0
    step_param(gen, kw, name, value)
    return value


def fb_case(gen, fista=None):
    from modopt.opt.algorithms import ForwardBackward
    grad, x0, cost, kw, case = start(gen, True)
    prox = gen.prox()
    lin = gen.synth()
    beta, lam = gen.k * gen.f(0.2, 1.3), gen.f(0.5, 1.5)
    beta = step_given(gen, kw, "beta_param", beta)
    lam = given(gen, kw, "lambda_param", lam, 1.0)
    fista = gen.flag(0.75) if fista is None else fista
    bupd = gen.upd(0.25)
    kw["beta_update"] = fun(bupd)
    case.update(alg="fb", cls="ForwardBackward", prox=prox.enc(), lin=lin.enc(), beta=num(beta), lam=num(lam),
                betaupd=encupd(bupd), lamupd="none", fista=fista, restart="none", mode="regular", r="4.0", q="1.0",
                pl="1.0", a="3.0", xi="1.0", minb="0.0", sg="1.0")
    if fista:
        if gen.flag(0.2):
            a = gen.f(2.01, 30.0)
            kw["a_cd"] = a
            case.update(mode="CD", a=num(a))
        else:
            if gen.flag(0.5):
                pl = gen.f(0.05, 1.0)
                q = gen.f(0.05, (2 - pl) ** 2)
                r = gen.f(0.5, 4.0)
                kw.update(p_lazy=pl, q_lazy=q, r_lazy=r)
                case.update(pl=num(pl), q=num(q), r=num(r))
            if gen.flag(0.75):
                strat = gen.pick("adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy", "greedy")
                xi = gen.pick(gen.f(0.3, 0.99), gen.f(0.3, 0.99), gen.f(0.005, 0.1))
                kw.update(restart_strategy=strat, xi_restart=xi)
                case.update(restart=strat, xi=num(xi))
                if strat == "greedy":
                    sg, mb = gen.f(1.001, 1.5), gen.k * gen.f(0.05, 0.9)
                    kw.update(s_greedy=sg, min_beta=mb)
                    case.update(sg=num(sg), minb=num(mb))
        if gen.flag():
            kw["lambda_update"] = "fista"
    else:
        lupd = gen.upd(0.5)
        kw["lambda_update"] = fun(lupd)
        case["lamupd"] = encupd(lupd)
    rec = Recorder({"x_new": "lx", "z_new": "z"}, cost)
    auto = gen.long and gen.flag()
    if not auto or gen.flag():
        kw["auto_iterate"] = auto
    runs = [40] if gen.long and not auto else [3] if auto else runs_of(gen)
    case["events"] = rec.run(
        gen, lambda: ForwardBackward(x0, grad, prox, cost=cost, linear=lin, metrics=rec.metrics(), **kw),
        lambda alg: {"z": vec(alg.x_final)}, runs, auto=150 if auto else None)
    return settle(case, "lx") if case["restart"] != "none" else case


def gfb_case(gen):
    from modopt.opt.algorithms import GenForwardBackward
    grad, x0, cost, kw, case = start(gen)
    k = int(gen.rng.integers(1, 5)) if gen.flag(0.85) else int(gen.rng.integers(5, 9))
    proxs = [gen.prox() for _ in range(k)]
    lin = gen.synth()
    if k > 1 and gen.flag(0.1):            # one operator used for several terms
        proxs[-1] = proxs[0]
    gam, lam = gen.k * gen.f(0.2, 1.3), gen.f(0.5, 1.4)
    if not gen.long and gen.flag(0.08):
        lam = gen.f(1.9, 2.8)
    gam = step_given(gen, kw, "gamma_param", gam)
    lam = given(gen, kw, "lambda_param", lam, 1.0)
    gupd, lupd = gen.upd(), gen.upd()
    kw.update(gamma_update=fun(gupd), lambda_update=fun(lupd))
    w = np.full(k, 1.0 / k)
    if gen.flag(0.6):
        ints = gen.rng.integers(1, 6, size=k)
        w = ints / ints.sum()
        if k > 1 and gen.flag(0.1):       # one weight nearly all, or more than all
            w = np.array([gen.pick(1e-4, 2e-3, 0.02, -0.25)] * (k - 1) + [0.0])
            if w[0] < 0 and (gen.long or not all(q.t in ("id", "point", "pos") for q in proxs)):
                w = np.abs(w) / k
            w[-1] = 1 - w.sum()
        kw["weights"] = gen.pick(list, tuple, np.array)(w)
    auto = gen.long and gen.flag()
    if not auto or gen.flag():
        kw["auto_iterate"] = auto
    case.update(alg="gfb", cls="GenForwardBackward", proxs=[q.enc() for q in proxs], lin=lin.enc(), gam=num(gam),
                lam=num(lam), gamupd=encupd(gupd), lamupd=encupd(lupd), w=vec(w))
    rec = Recorder({"x_new": "lx", "z_new": "zs"}, cost)
    plist = gen.pick(list, tuple)(proxs)
    case["events"] = rec.run(
        gen, lambda: GenForwardBackward(x0, grad, plist, cost=cost, linear=lin, metrics=rec.metrics(), **kw),
        lambda alg: {"x": vec(alg.x_final)}, runs_of(gen), auto=150 if auto else None)
    return case


def pogm_case(gen):
    from modopt.opt.algorithms import POGM
    grad, x0, cost, kw, case = start(gen)
    prox = gen.prox()
    lin = gen.synth()
    beta, sb = gen.k * gen.f(0.2, 1.2), gen.pick(1.0, 0.0, 0.5, gen.f(0.0, 1.0))
    beta = step_given(gen, kw, "beta_param", beta)
    sb = given(gen, kw, "sigma_bar", sb, 1.0)
    init = [gen.arr(scale=2.0) for _ in range(3)] if gen.flag(0.7) else [x0, x0, x0]
    auto = gen.long and gen.flag()
    if not auto or gen.flag():
        kw["auto_iterate"] = auto
    case.update(alg="pogm", cls="POGM", prox=prox.enc(), lin=lin.enc(), beta=num(beta), sigbar=num(sb),
                u0=vec(init[0]), y0=vec(init[1]), z0=vec(init[2]))
    rec = Recorder({"x_new": "lx", "u_new": "u", "y_new": "y", "z_new": "z", "xi": "xi", "sigma": "sigma", "t": "t"}, cost)
    case["events"] = rec.run(
        gen, lambda: POGM(u=init[0], x=x0, y=init[1], z=init[2], grad=grad, prox=prox, cost=cost, linear=lin,
                          metrics=rec.metrics(), **kw),
        lambda alg: {"x": vec(alg.x_final)}, runs_of(gen, 4, 14), auto=150 if auto else None)
    return settle(case, "lx")


class Reweight:
    def __init__(self, dual, factor, rec):
        self.dual, self.factor, self.rec = dual, factor, rec

    def reweight(self, data):
        self.rec.events.append({"t": "rw", "v": {"arg": vec(data)}})
        self.dual.w = self.dual.w * self.factor


def condat_case(gen):
    from modopt.opt.algorithms import Condat
    gen.k = 1.0
    grad, x0, cost, kw, case = start(gen)
    prox = gen.prox()
    lin, so = gen.lin()
    nd = int(np.prod(so))
    dual = gen.prox(("soft", "soft", "aff", "pos"), n=nd)
    if dual.t == "pos":
        dual.w = np.zeros(nd)
    y0 = gen.arr(so)
    rho, sig, tau = gen.f(0.3, 1.2), gen.f(0.2, 1.5), gen.f(0.2, 0.9)
    if gen.flag(0.06):
        sig = gen.pick(5e-4, 2e-2, 50.0, 3e3)
        tau = min(tau, 0.2 / sig)
    tau = step_given(gen, kw, "tau", tau)
    ups = [gen.upd() for _ in range(3)]
    rho, sig = given(gen, kw, "rho", rho, 0.5), given(gen, kw, "sigma", sig, 1.0, 0.12 if tau < 1 else 0.0)
    kw.update(rho_update=fun(ups[0]), sigma_update=fun(ups[1]), tau_update=fun(ups[2]))
    rec = Recorder({"x_new": "x", "y_new": "y"}, cost, ("x", "y"))
    nrw = 0
    ikw = {}
    factor = np.abs(gen.rng.normal(size=nd)) + 0.2
    if gen.flag(0.6):
        nrw = gen.pick(1, 1, 2, 3, 0, 5, 6, 8)
        kw["reweight"] = Reweight(dual, factor, rec)
        ikw["n_rewightings"] = nrw
    elif gen.flag():
        ikw["n_rewightings"] = 2
    auto = None
    runs = runs_of(gen, 2, 6)
    if nrw >= 5:                     # many restarts: short runs, so that rounding is not amplified over the history
        runs = [min(runs[0], 2)]
    if gen.flag(0.3):
        auto = runs.pop(0)
        kw["max_iter"] = auto
        kw.update(ikw)
        if gen.flag():
            kw["auto_iterate"] = True
    else:
        kw["auto_iterate"] = False
    if lin.M is not None or gen.flag():
        kw["linear"] = lin
    case.update(alg="condat", cls="Condat", prox=prox.enc(), dual=dual.enc(), lin=lin.enc(), y0=vec(y0), rho=num(rho),
                sig=num(sig), tau=num(tau), rhoupd=encupd(ups[0]), sigupd=encupd(ups[1]), tauupd=encupd(ups[2]),
                rwf=vec(factor))
    case["events"] = rec.run(
        gen, lambda: Condat(x0, y0, grad, prox, dual, cost=cost, metrics=rec.metrics(), **kw),
        lambda alg: {"x": vec(alg.x_final), "y": vec(alg.y_final)}, runs, nrw=nrw, auto=auto, **ikw)
    return case


GD = {"generic": "GenericGradOpt", "vanilla": "VanillaGenericGradOpt", "ada": "AdaGenericGradOpt",
      "rmsprop": "RMSpropGradOpt", "momentum": "MomentumGradOpt", "adam": "ADAMGradOpt", "saga": "SAGAOptGradOpt"}


def gd_case(gen, kind):
    from modopt.opt import algorithms
    if kind in ("ada", "rmsprop", "adam"):
        gen.k = 1.0
    grad, x0, cost, kw, case = start(gen, True)
    prox = gen.prox()
    eta = gen.k * gen.f(0.05, 0.9)
    eps = gen.pick(1e-6, gen.f(0.01, 0.5), gen.f(0.5, 2.0))
    if kind in ("generic", "saga"):
        eps = gen.f(0.8, 3.0)        # the step is eta / eps
    epoch = gen.pick(1, 1, 2, 3, 5, 8, 11)
    eta = given(gen, kw, "eta", eta, 1.0, 0.1 if gen.k >= 0.75 and not gen.long else 0.0)
    epoch = given(gen, kw, "epoch_size", epoch, 1)
    if eps != 1e-6 or gen.flag():
        kw["epsilon"] = eps
    beta, gamma = gen.f(0.0, 0.95), gen.f(0.0, 0.95)
    if kind == "momentum":
        beta = given(gen, kw, "beta", beta, 0.9)
    if kind == "rmsprop":
        gamma = given(gen, kw, "gamma", gen.pick(gamma, 1.0, 0.0, 0.5), 0.5)
    if kind == "adam":
        beta, gamma = given(gen, kw, "beta", beta, 0.9), given(gen, kw, "gamma", gamma, 0.9)
    eu, ei = (gen.f(0.8, 0.99 if gen.long else 1.02), 0.0 if gen.long else gen.pick(0.0, gen.f(0.0, 0.05))) if gen.flag(0.4) else (None, 0.0)
    if eu is not None:
        kw["eta_update"] = lambda e, idx: eu * e + ei * idx
    case.update(alg="gd", cls=GD[kind], kind=kind, prox=prox.enc(), eta=num(eta), eps=num(eps), epoch=epoch, beta=num(beta),
                gamma=num(gamma), etaupd=encupd(eu), etaidx=num(ei))
    n = gen.n
    names = {"x_new": "x", "dir_grad": "dir", "speed_grad": "speed"}
    rec = Recorder(names, cost)
    base = rec.metrics()
    inner = base["rec"]["metric"]

    def fn(**k):
        k["speed"] = np.broadcast_to(np.asarray(k["speed"], dtype=float).ravel(), (n,))
        out = inner(**k)
        if kind == "momentum" and k["idx"] % epoch == 0:
            rec.events[-1]["v"].pop("dir")     # being reset
        return out
    base["rec"]["metric"] = fn
    case["events"] = rec.run(
        gen, lambda: getattr(algorithms, GD[kind])(x0, grad, prox, cost, metrics=base, **kw),
        lambda alg: {"x": vec(alg.x_final)}, runs_of(gen, 4, 12 if epoch < 8 else 26))
    return case


def admm_case(gen, fast, finding=False):
    from modopt.opt import algorithms
    rng = gen.rng
    nu = int(rng.integers(1, 4))
    nv = int(rng.integers(1, 4))
    carry_u = not finding and gen.flag(0.8)
    nb = nu                          # the observation adds u to the constraint
    A = Lin(gen.arr((nb, nu), 0.6), (nu,), (nb,)) if gen.flag(0.7) else Lin()
    if gen.flag(0.7) or nv != nb:
        B = Lin(gen.arr((nb, nv), 0.6), (nv,), (nb,))
    else:
        B = Lin()
    b = gen.arr((nb,))
    u0, v0, mu0 = gen.arr((nu,)), gen.arr((nv,)), gen.arr((nb,))
    # histories whose residual keeps decreasing: many accelerated updates in a row
    steady = not finding and gen.flag(0.12)
    if steady:
        b = 0 * b

    def opt(n):
        P, Q, r = gen.arr((n, n), 0.3), gen.arr((n, nb), 0.4), gen.arr((n,), 0.5)
        if steady:
            P = np.diag(rng.uniform(0.85, 0.97, size=n)).astype(P.dtype) if not made else 0.15 * P
            Q, r = 0 * Q, 0 * r
        made.append(n)
        mode = "fresh" if steady else gen.pick("fresh", "fresh", "buffer", "held")
        if mode == "held":
            P, Q, kept = 0 * P, 0 * Q, r.copy()
            return (lambda init, obs: kept), {"P": mat(P), "Q": mat(Q), "r": vec(r)}
        buf = [None]

        def solve(init, obs):
            res = P @ init + Q @ obs + r
            if mode == "fresh":
                return res
            if buf[0] is None or buf[0].dtype != res.dtype:
                buf[0] = np.empty_like(res)
            buf[0][...] = res
            return buf[0]
        return solve, {"P": mat(P), "Q": mat(Q), "r": vec(r)}
    made = []
    o1, e1 = opt(nu)
    o2, e2 = opt(nv)
    kw = {"progress": gen.flag(0.15), "verbose": gen.flag(0.2), "metric_call_period": 1}
    tau = gen.pick(1, gen.f(0.2, 3.0)) if gen.flag(0.95) else 0.0
    if tau != 1 or gen.flag():
        kw["tau"] = tau
    eta, alpha = 0.999, 1
    if fast:
        if gen.flag(0.6):
            kw["eta"] = eta = gen.f(0.3, 0.999)
        if gen.flag(0.4):
            kw["alpha"] = alpha = gen.pick(2, gen.f(1.0, 3.0), gen.f(0.2, 1.0))
    seen = {}
    if gen.flag(0.4):
        count = [0]

        def hcost(u):
            count[0] += 1
            seen.update(u=vec(u), h=10.0 * 4.0 ** count[0])     # never settles
            return seen["h"]

        def gcost(v):
            seen.update(v=vec(v), g=float(np.sum(np.abs(v))))
            return seen["g"]
        kw["cost_funcs"] = (hcost, gcost)
    cls = "FastADMM" if fast else "ADMM"
    case = {"rtol": "1e-8", "atol": "1e-10", "alg": "admm", "cls": cls, "fast": fast, "Aop": A.enc(), "B": B.enc(),
            "b": vec(b), "u0": vec(u0), "v0": vec(v0), "mu0": vec(mu0), "opt1": e1, "opt2": e2, "tau": num(tau),
            "eta": num(eta), "alpha": num(alpha), "carry": ["mu"] if finding else ["u", "mu"]}
    if finding:
        case["finding"] = "admm-subproblem-multiplier"

    def peek(alg):
        mu = getattr(alg, "_mu_new", None)
        return {"mu": vec(mu)} if isinstance(mu, np.ndarray) and mu.size == nb else {}
    rec = Recorder({"x_new": "u", "v_new": "v"}, peek=peek)
    metrics = rec.metrics()
    inner = metrics["rec"]["metric"]

    def outer(**k):
        out = inner(**k)
        if seen:
            cur = getattr(getattr(rec.alg, "_cost_func", None), "cost", None)
            rec.events.append(cost_event(seen, cur, True))
            seen.clear()
        return out
    metrics["rec"]["metric"] = outer
    case["events"] = rec.run(
        gen, lambda: getattr(algorithms, cls)(u=u0, v=v0, mu=mu0, A=A, B=B, b=b, optimizers=(o1, o2),
                                              metrics=metrics, **kw),
        lambda alg: {"u": vec(alg.x_final), "v": vec(alg.v_final)},
        [int(rng.integers(20, 60))] if steady else runs_of(gen, 4, 12))
    return case


def admm_edge_case(gen):
    """Fast ADMM whose residual stays exactly the same: that is no decrease, so it must restart (no rounding)."""
    from modopt.opt.algorithms import FastADMM
    q = lambda: float(gen.rng.integers(-8, 9)) / 4      # noqa: E731
    a, b, u1, step = q() or 1.0, q(), q(), q() or 0.5
    A, B = Lin(np.array([[a]]), (1,), (1,)), Lin(np.array([[0.0]]), (1,), (1,))
    u0, v0, mu0 = (np.array([q()]) for _ in range(3))
    o1 = {"P": [["0.0"]], "Q": [["0.0"]], "r": [num(u1)]}
    o2 = {"P": [["1.0"]], "Q": [["0.0"]], "r": [num(step)]}
    case = {"rtol": "1e-8", "atol": "1e-10", "alg": "admm", "cls": "FastADMM", "fast": True, "Aop": A.enc(), "B": B.enc(),
            "b": vec([b]), "u0": vec(u0), "v0": vec(v0), "mu0": vec(mu0), "opt1": o1, "opt2": o2, "tau": "1.0",
            "eta": "1.0", "alpha": "1.0", "carry": ["u", "mu"], "exact": True}
    rec = Recorder({"x_new": "u", "v_new": "v"})
    metrics = rec.metrics()
    case["events"] = rec.run(
        gen, lambda: FastADMM(u=u0, v=v0, mu=mu0, A=A, B=B, b=np.array([b]), eta=1.0, metrics=metrics, progress=False,
                              optimizers=(lambda init, obs: np.array([u1]), lambda init, obs: init + step),
                              metric_call_period=1),
        lambda alg: {"u": vec(alg.x_final), "v": vec(alg.v_final)}, [3])
    return case


def fista_case(gen):
    """The acceleration helper driven directly; exact cases probe the boundaries of the restart tests."""
    from modopt.opt.algorithms import FISTA
    rng = gen.rng
    exact = gen.flag(0.5)
    kw, case = {}, {"restart": "none", "mode": "regular", "r": "4.0", "q": "1.0", "pl": "1.0", "a": "3.0", "xi": "1.0",
                    "minb": "0.0", "sg": "1.0", "exact": exact}
    if gen.flag(0.2):
        a = gen.pick(gen.f(2.01, 30.0), 3, 20)
        kw["a_cd"] = a
        case.update(mode="CD", a=num(a))
    else:
        if gen.flag(0.5):
            pl, q, r = gen.f(0.05, 1.0), gen.f(0.05, 1.0), gen.f(0.5, 4.0)
            kw.update(p_lazy=pl, q_lazy=q, r_lazy=r)
            case.update(pl=num(pl), q=num(q), r=num(r))
        if gen.flag(0.85):
            strat = gen.pick("adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy", "greedy", "greedy")
            xi = gen.pick(gen.f(0.3, 0.99), 0.5, 0.5, 0.03125)
            kw.update(restart_strategy=strat, xi_restart=xi)
            case.update(restart=strat, xi=num(xi))
            if strat == "greedy" or gen.flag(0.3):
                sg, mb = gen.pick(1.5, 2.0) if exact else gen.f(1.001, 2.5), gen.k * gen.f(0.05, 0.9)
                kw.update(s_greedy=sg, min_beta=mb)
                case.update(sg=num(sg), minb=num(mb))
    cplx = not exact and gen.flag(0.3)
    shape = (1,) if exact and case["restart"] == "greedy" else gen.shape     # a one-element norm is exact

    def point():
        if exact:
            return rng.integers(-3, 4, size=shape) / 2.0
        return gen.arr(shape, cplx=cplx)
    events = case["events"] = []
    beta = gen.k * gen.f(0.3, 1.3)
    base = point()
    with quiet():
        try:
            fista = FISTA(**kw)
            long = 0.4 if case["restart"] == "none" else 0.07
            for _ in range(int(rng.integers(30, 130)) if gen.flag(long) else int(rng.integers(3, 15))):
                z, xn = point(), point()
                xo = xn.copy() if gen.flag(0.25) else base
                if gen.flag(0.2):
                    z = xn.copy()
                ans = fista.is_restart(z, xn, xo)
                events.append({"t": "restart", "z": vec(z), "xn": vec(xn), "xo": vec(xo), "ans": bool(ans)})
                new = fista.update_beta(beta)
                events.append({"t": "beta", "b": num(beta), "out": num(new)})
                beta = new if gen.flag(0.8) else gen.k * gen.f(0.3, 1.3)
                lam = fista.update_lambda(1.0) if gen.flag() else fista.update_lambda()
                events.append({"t": "lambda", "out": num(lam)})
                base = xn
        except Exception as exc:   # noqa: BLE001
            events.append({"t": "raise", "e": type(exc).__name__ + ": " + str(exc)[:80]})
    return case


def cost_event(seen, cur, inrun):
    return {"t": "cost", "u": seen.get("u", []), "v": seen.get("v", []), "h": num(seen.get("h", np.nan)),
            "g": num(seen.get("g", np.nan)), "cur": "none" if cur is None else num(cur), "inrun": inrun}


def admm_cost_case(gen):
    """The cost object on its own, with its own options."""
    from modopt.opt.algorithms.admm import ADMMcostObj
    rng = gen.rng
    nu, nv, nb = (int(rng.integers(1, 4)) for _ in range(3))
    A = Lin(gen.arr((nb, nu)), (nu,), (nb,))
    B = Lin(gen.arr((nb, nv)), (nv,), (nb,))
    b = gen.arr((nb,))
    tau = gen.pick(1, 0.0, gen.f(0.2, 3.0))
    seen = {}

    def h(u):
        seen.update(u=vec(u), h=float(np.sum(np.abs(u) ** 2)))
        return seen["h"]

    def g(v):
        seen.update(v=vec(v), g=float(np.max(np.abs(v))))
        return seen["g"]
    kw = {"verbose": False} if gen.flag() else {}
    case = {"rtol": "1e-8", "atol": "1e-10", "alg": "admm", "cls": "ADMMcostObj", "fast": False, "Aop": A.enc(), "B": B.enc(),
            "b": vec(b), "u0": [], "v0": [], "mu0": [], "opt1": {}, "opt2": {}, "tau": num(tau), "eta": "1.0", "alpha": "1.0",
            "carry": ["u"], "events": []}
    with quiet():
        obj = ADMMcostObj((h, g), A, B, b, tau, **kw)
        for _ in range(3):
            u, v = gen.arr((nu,)), gen.arr((nv,))
            try:
                obj.get_cost(u, v)
            except Exception as exc:   # noqa: BLE001
                case["events"].append({"t": "raise", "e": type(exc).__name__})
                break
            ev = cost_event(seen, obj.cost, False)
            ev["wu"], ev["wv"] = vec(u), vec(v)
            case["events"].append(ev)
            seen.clear()
    return case


def settle(case, name):
    """Drop the tail of a trace once the iterates have settled: from there on the sign tests of the restart
    rules are decided by rounding."""
    prev = None
    for k, ev in enumerate(case["events"]):
        if ev["t"] != "upd":
            continue
        cur = np.array([complex(*map(float, v.split(","))) for v in ev["v"][name]])
        if prev is not None and not np.linalg.norm(cur - prev) > 1e-6 * (1e-3 + np.linalg.norm(cur)):
            case["events"] = case["events"][:k]
            return case
        prev = cur
    return case


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i + 1
    return cases
