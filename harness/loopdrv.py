"""Replay of iteration-driver behaviours (spec/MCLoop.tla) into every real solver."""
import contextlib
import io
import os

import numpy as np

SOLVERS = ["ForwardBackward", "GenForwardBackward", "POGM", "Condat", "VanillaGenericGradOpt", "GenericGradOpt",
           "AdaGenericGradOpt", "RMSpropGradOpt", "MomentumGradOpt", "ADAMGradOpt", "SAGAOptGradOpt",
           "ADMM", "FastADMM"]
ADMMS = ("ADMM", "FastADMM")


@contextlib.contextmanager
def quiet():
    """Silence Python-level output of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def _mods():
    from modopt.opt import algorithms, linear, proximity
    from modopt.opt.gradient import GradBasic, GradParent
    return algorithms, linear, proximity, GradBasic, GradParent


class Probe:
    """Counts updates and records the iterates handed to the environment."""

    def __init__(self):
        self.points = []        # consecutive distinct points at which the gradient was asked for
        self.cost_x = {}        # update number -> first argument handed to the cost function

    @property
    def updates(self):
        return len(self.points)


class ScriptedCost:
    """A cost object whose verdict at each update is scripted."""

    def __init__(self, probe, script):
        self.probe, self.script = probe, script

    def get_cost(self, *args, **kwargs):
        n = self.probe.updates
        self.probe.cost_x[n] = [np.array(a, copy=True) for a in args]
        return bool(self.script[n - 1]) if n <= len(self.script) else False

    # some solvers may look these up
    def plot_cost(self):
        pass


def make(name, probe, metrics, period, cost, extra=None, admm_cost=None):
    """Build a solver on a problem whose iterates move at every update."""
    algorithms, linear, proximity, GradBasic, GradParent = _mods()
    x0 = np.array([1.0, -2.0, 0.5])
    gvec = np.array([0.25, 0.5, -0.125])

    class ConstGrad(GradParent):
        def __init__(self):
            super().__init__(x0.copy(), lambda x: x, lambda x: x, verbose=False)
            self.get_grad = self._point
            self.cost = lambda *a, **k: 0.0

        def _point(self, x):
            if not probe.points or not np.array_equal(probe.points[-1], x):
                probe.points.append(np.array(x, copy=True))
            self.grad = gvec.copy()

    kw = dict(extra or {})
    kw.setdefault("progress", False)
    if metrics is not None:
        kw["metrics"] = metrics
    kw["metric_call_period"] = period
    cls = getattr(algorithms, name)
    if name in ADMMS:
        kw.pop("auto_iterate", None)
        state = {"n": 0}

        def opt1(init, obs):
            state["n"] += 1
            probe.points.append(state["n"])
            return np.full(3, float(state["n"]))

        def opt2(init, obs):
            return -np.full(3, float(state["n"]))

        def f1(u):
            probe.cost_x[probe.updates] = [np.array(u, copy=True)]
            return admm_cost(probe.updates)

        cf = None if admm_cost is None else (f1, lambda v: 0.0)
        return cls(u=x0, v=x0.copy(), mu=np.zeros(3), A=linear.Identity(), B=linear.Identity(), b=np.zeros(3),
                   optimizers=(opt1, opt2), cost_funcs=cf, **kw)
    grad, prox = ConstGrad(), proximity.IdentityProx()
    kw.setdefault("auto_iterate", False)
    if name == "ForwardBackward":
        return cls(x0, grad, prox, cost=cost, lambda_update=None, linear=linear.Identity(), **kw)
    if name == "GenForwardBackward":
        return cls(x0, grad, [prox, proximity.IdentityProx()], cost=cost, linear=linear.Identity(), **kw)
    if name == "POGM":
        return cls(u=x0, x=x0, y=x0, z=x0, grad=grad, prox=prox, cost=cost, linear=linear.Identity(), **kw)
    if name == "Condat":
        return cls(x0, np.zeros(3), grad, prox, proximity.IdentityProx(), linear=linear.Identity(), cost=cost, **kw)
    kw.pop("auto_iterate")
    return cls(x0, grad, prox, cost, **kw)


def finals(name, alg):
    if name == "Condat":
        return [alg.x_final, alg.y_final]
    return [alg.x_final]


def replay(beh, name, rng=None, variants=True):
    """Run one behaviour on one solver; return a list of (kind, message) mismatches."""
    cfg, script = beh["cfg"], beh["script"]
    probe = Probe()
    calls = []     # (metric, kwargs, update)
    served = {}

    def metric_fn(m):
        def fn(**kwargs):
            served[m] = served.get(m, 0) + 1
            calls.append((m, {k: np.array(v, copy=True) for k, v in kwargs.items()}, probe.updates))
            k = served[m]
            return float(script["met"][k - 1][m - 1]) if k <= len(script["met"]) else 1e9 + k
        return fn

    nmet = cfg["nmet"]
    early = set(cfg["early"])
    maps = [{"x_new": "test"}, {"x_new": "a_b", "idx": "it"}, {"x_new": "x", "idx": None}]
    csts = [{}, {"ref": 7}, {"ref": np.arange(2), "o": "s"}]
    metrics = {}
    for m in range(1, nmet + 1):
        metrics[f"met{m}"] = {"metric": metric_fn(m), "mapping": dict(maps[(m - 1 + len(script["met"])) % 3]),
                              "cst_kwargs": dict(csts[(m + len(script["cost"])) % 3]), "early_stopping": m in early}
    period = None if cfg["period"] == 0 else cfg["period"]
    cost = ScriptedCost(probe, script["cost"]) if cfg["cost"] else None
    admm_cost = None
    if cfg["cost"] and name in ADMMS:
        if any(say and (n + 1) % 4 for n, say in enumerate(script["cost"])):
            return None     # ADMM's own cost object can only converge at the end of a window of four

        def admm_cost(n):
            end = ((n - 1) // 4) * 4 + 4
            conv = end <= len(script["cost"]) and script["cost"][end - 1]
            return 3.0 if conv else [1.0, 1.0, 5.0, 5.0][(n - 1) % 4]
    extra = {}
    progbar = None
    if variants and rng is not None:
        k = int(rng.integers(4))
        extra["progress"] = k == 1
        extra["verbose"] = bool(rng.integers(2))
        if k == 2 and name in ("ForwardBackward", "GenForwardBackward", "POGM", "Condat"):
            progbar = True
    bad = []
    with quiet():
        try:
            alg = make(name, probe, metrics if (nmet or (rng is not None and rng.random() < 0.5)) else None,
                       period, cost, extra, admm_cost)
            for r, lim in enumerate(cfg["limits"]):
                exp = beh["ends"][r]
                if progbar:
                    from tqdm.auto import tqdm
                    # a bar of its caller's, which need not have been made for this number of iterations
                    total = [lim, None, 0, 1, max(lim // 2, 1), 5 * lim][int(rng.integers(6))]
                    with open(os.devnull, "w") as sink, tqdm(total=total, file=sink) as pb:
                        alg.iterate(lim, progbar=pb)
                else:
                    if rng is not None and variants and rng.random() < 0.3:
                        lim = np.int64(lim)
                    alg.iterate(lim) if r % 2 else alg.iterate(max_iter=lim)
                where = f"run {r + 1} (limit {lim})"
                if probe.updates != exp["updates"]:
                    bad.append(("updates", f"{where}: {probe.updates} updates so far instead of {exp['updates']}"))
                    break
                if not lim:
                    pass      # nothing happened: which index and state such a run reports is open
                elif alg.idx != exp["idx"]:
                    bad.append(("idx", f"{where}: reports index {alg.idx} instead of {exp['idx']}"))
                if lim and bool(alg.converge) != exp["conv"]:
                    bad.append(("converge", f"{where}: converged={alg.converge} instead of {exp['conv']}"))
                if probe.updates in probe.cost_x:
                    got, want = finals(name, alg), probe.cost_x[probe.updates]
                    if not all(np.array_equal(g, w) for g, w in zip(got, want)):
                        bad.append(("finals", f"{where}: final outputs are not the last update's iterates"))
                got_metrics = alg.metrics
                if nmet:
                    if set(got_metrics) != set(metrics):
                        bad.append(("records", f"{where}: metrics published: {sorted(got_metrics)}"))
                        break
                    for m in range(1, nmet + 1):
                        rec = got_metrics[f"met{m}"]
                        want = beh["recs"][m - 1][:exp["nrec"]]
                        if [int(i) for i in rec["index"]] != [w[0] for w in want]:
                            bad.append(("records", f"{where}: metric {m} recorded at {list(rec['index'])} instead of "
                                                   f"{[w[0] for w in want]}"))
                            continue
                        vals = [float(s[m - 1]) for s in script["met"][:exp["nrec"]]]
                        if [float(v) for v in rec["values"]] != vals:
                            bad.append(("records", f"{where}: metric {m} values {rec['values']} instead of {vals}"))
                        t = np.asarray(rec["time"])
                        # relative to the first record, however often they are read: never anywhere near a date
                        if t.shape != (len(want),) or (t.size and (t[0] != 0 or np.any(np.diff(t) < 0) or t[-1] > 1e6)):
                            bad.append(("records", f"{where}: metric {m} times {t}"))
                        mine = [c for c in calls if c[0] == m]
                        if [c[2] for c in mine] != [w[1] for w in want]:
                            bad.append(("records", f"{where}: metric {m} evaluated after updates {[c[2] for c in mine]} "
                                                   f"instead of {[w[1] for w in want]}"))
                        mp, cst = metrics[f"met{m}"]["mapping"], metrics[f"met{m}"]["cst_kwargs"]
                        for c, w in zip(mine, want):
                            keys = {v for v in mp.values() if v is not None} | set(cst)
                            if set(c[1]) != keys:
                                bad.append(("records", f"metric called with {sorted(c[1])} instead of {sorted(keys)}"))
                                break
                            if any(not np.array_equal(c[1][k], v) for k, v in cst.items()):
                                bad.append(("records", "metric constants altered"))
                            if "it" in keys and int(c[1]["it"]) != w[0]:
                                bad.append(("records", "metric given the wrong iteration index"))
                            xk = mp["x_new"]
                            if c[2] in probe.cost_x and not np.array_equal(c[1][xk], probe.cost_x[c[2]][0]):
                                bad.append(("records", f"metric {m} at update {c[2]} not given that update's iterate"))
                                break
                elif got_metrics not in ({}, None) or calls:
                    bad.append(("records", f"{where}: records without metrics: {got_metrics}"))
        except Exception as exc:      # noqa: BLE001
            bad.append(("raised", f"raised {type(exc).__name__}: {exc}"))
    return bad


def replay_all(check, behaviours, kinds, solvers=SOLVERS, cap=None, salt=0):
    """Replay behaviours on the solvers; report mismatches of the given kinds."""
    rng = np.random.default_rng([check.seed, salt, int(check.prop[1:])])
    n = 0
    for name in solvers:
        todo = behaviours
        if cap and len(todo) > cap:
            todo = [behaviours[i] for i in sorted(rng.choice(len(behaviours), cap, replace=False))]
        for beh in todo:
            bad = replay(beh, name, rng)
            if bad is None:
                continue
            n += 1
            for kind, msg in bad:
                if kind in kinds or kind == "raised":
                    check.report(f"{name}: {kind}", {"behaviour": beh, "solver": name, "message": msg})
    check.replayed(n)
    if behaviours:
        check.coverage["samples"].append(behaviours[len(behaviours) // 2])
