"""C31: replay every configuration of spec/MCConfig.tla and judge with spec/TrConfig.tla."""
import io
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

import numpy as np

from common import CallTimeout, model_check, time_limit

LEVEL = "model_checking"
GRADOPT = ("GenericGradOpt", "VanillaGenericGradOpt", "AdaGenericGradOpt", "SAGAOptGradOpt", "RMSpropGradOpt",
           "MomentumGradOpt", "ADAMGradOpt")


class Lab:
    """Concrete values for the named values of the specification."""

    def __init__(self):
        from modopt.opt import algorithms, cost, gradient, linear, proximity
        from modopt.math import matrix  # noqa: F401
        from modopt.interface import errors
        from modopt.signal import noise, positivity, svd, validation
        self.algorithms, self.cost, self.gradient, self.linear = algorithms, cost, gradient, linear
        self.proximity, self.errors, self.svd, self.validation = proximity, errors, svd, validation
        self.noise, self.positivity = noise, positivity
        self.calls = 0
        self.scratch = tempfile.mkdtemp(prefix="vc31")
        self.file = os.path.join(self.scratch, "plain.txt")
        with open(self.file, "w") as fh:
            fh.write("x")
        os.chmod(self.file, 0o644)
        lab = self

        def grad_body(cost=True):
            d = {}

            def get_grad(self, x):
                lab.calls += 1
                self.grad = 0.25 * (x - 1.0)
            d["get_grad"] = get_grad
            if cost:
                d["cost"] = lambda self, *a, **k: lab.count(1.0)
            return d

        def prox_body(cost=True):
            d = {"op": lambda self, x, extra_factor=1.0: lab.count(np.array(x))}
            if cost:
                d["cost"] = lambda self, *a, **k: lab.count(1.0)
            return d

        def lin_body():
            return {"op": lambda self, x: lab.count(np.array(x)), "adj_op": lambda self, x: lab.count(np.array(x))}

        self.foreign = {}
        for p in ("grad", "prox", "prox1", "prox2", "prox_dual"):
            body = grad_body if p == "grad" else prox_body
            self.foreign[p, "foreign"] = type("Stranger_" + p + "_", (), body())
            self.foreign[p, "nocost"] = type("Stranger_" + p + "_", (), body(False))
        self.foreign["linear", "foreign"] = type("Stranger_linear_", (), lin_body())
        self.foreign["cost", "foreign"] = type("Stranger_cost_", (), {"get_cost": lambda self, *a, **k: bool(lab.count(False))})

        class NativeGrad(gradient.GradParent):
            def __init__(self):
                super().__init__(np.zeros(2), lab.ident, lab.ident, verbose=False)
                self.get_grad = self._g
                self.cost = lambda *a, **k: lab.count(1.0)

            def _g(self, x):
                lab.calls += 1
                self.grad = 0.25 * (x - 1.0)

        class NativeProx(proximity.ProximityParent):
            def __init__(self):
                self.op = lambda x, extra_factor=1.0: lab.count(np.array(x))
                self.cost = lambda *a, **k: lab.count(1.0)

        class NativeLin(linear.LinearParent):
            def __init__(self):
                self.op = lab.ident
                self.adj_op = lab.ident
        self.native = {"grad": NativeGrad, "linear": NativeLin}
        for p in ("prox", "prox1", "prox2", "prox_dual"):
            self.native[p] = NativeProx

    def count(self, val):
        self.calls += 1
        return val

    def ident(self, x, *a, **k):
        self.calls += 1
        return np.array(x)

    def update(self, val, *a):
        return val

    def oper(self, p, v):
        if v == "native":
            return self.native[p]()
        if v == "none":
            return None
        return self.foreign[p, v]()

    def array(self, v, two):
        if v in ("array", "array2d"):
            return np.array([[1.0, 2.0]]) if two else np.array([1.0, 2.0])
        return {"list": [1.0, 2.0], "none": None, "scalar": 1.0}[v]

    def callable(self, v):
        return {"func": lambda x, *a, **k: self.count(np.array(x)), "method": self.ident, "int": 3, "none": None, "str": "op"}[v]

    def solver_value(self, p, v, two):
        if p in ("u", "x", "y", "z"):
            return self.array(v, two)
        if p in ("grad", "prox", "prox1", "prox2", "prox_dual", "linear"):
            return self.oper(p, v)
        if p == "cost":
            if v == "obj":
                return self.cost.costObj([type("C", (), {"cost": lambda s, *a, **k: self.count(1.0)})()], verbose=False)
            return {"auto": "auto", "none": None}[v] if v != "foreign" else self.oper(p, v)
        if p == "metrics":
            return {"none": None, "empty": {}, "list": ["m"], "str": "m",
                    "dict": {"m": {"metric": lambda t: self.count(1.0), "mapping": {"x_new": "t"}, "cst_kwargs": {},
                                   "early_stopping": False}}}[v]
        if p == "step_size":
            return {"none": None, "float": 0.25}[v]
        if p == "weights":
            return {"none": None, "list": [0.25, 0.75], "tuple": (0.5, 0.5), "array": np.array([0.9, 0.1]),
                    "near": [1 / 3, 2 / 3 - 1e-16], "ints": [1, 0], "short": [1.0], "long": [0.5, 0.25, 0.25],
                    "sum": [0.5, 0.6], "over": [0.5, 0.501], "under": [0.5, 0.499], "balanced": [0.5, -0.5], "zeros": [0.0, 0.0],
                    "opposite": [-0.5, -0.5], "exactnear": [0.1 + 0.2, 0.7], "float": 0.5, "str": "half"}[v]
        if p.endswith("_update"):
            return {"func": lambda val, *a: val, "none": None, "method": self.update, "int": 2, "str": "fista_", "fista": "fista",
                    "nesterov": "nesterov"}[v]
        # float parameters, and the ranges of the descent methods
        return {"float": 0.5, "npfloat": np.float64(0.5), "int": 1, "str": "0.5", "none": None, "bigint": 2, "zeroint": 0}.get(v) \
            if v in ("float", "npfloat", "int", "str", "none", "bigint", "zeroint") else float(v)

    FISTA = {"a_cd": ("a_cd", {"none": None, "3": 3, "2.001": 2.001, "1.999": 1.999, "2": 2, "1": 1, "-4": -4}),
             "restart": ("restart_strategy", {"none": None}),
             "xi": ("xi_restart", {"none": None, "0.9": 0.9, "0.9995": 0.9995, "1.0005": 1.0005, "1.0": 1.0, "1.5": 1.5}),
             "s": ("s_greedy", {"none": None, "1.1": 1.1, "1.0005": 1.0005, "0.9995": 0.9995, "1.0": 1.0, "0.5": 0.5}),
             "minbeta": ("min_beta", {"none": None, "0.5": 0.5})}

    def fista(self, given):
        return {self.FISTA[p][0]: self.FISTA[p][1].get(v, v) for p, v in given.items() if p in self.FISTA}

    def build(self, cls, given, auto):
        """-> (thunk that constructs, thunk that uses)"""
        two = "array2d" in given.values()
        g = lambda p, d: given.get(p, d)  # noqa: E731
        alg, prox = self.algorithms, self.proximity
        if cls == "FISTA":
            kw = self.fista(given)
            return (lambda: alg.FISTA(**kw)), lambda o: o.update_lambda(1.0)
        if cls in GRADOPT or cls in ("ForwardBackward", "GenForwardBackward", "POGM", "Condat"):
            val = lambda p, d: self.solver_value(p, given.get(p, d), two)  # noqa: E731
            kw = {"progress": False, "metric_call_period": 1}
            skip = set()
            if cls == "ForwardBackward":
                kw.update(self.fista(given))
                skip = set(self.FISTA)
            args = {"ForwardBackward": ["x", "grad", "prox"], "GenForwardBackward": ["x", "grad", "prox1", "prox2"],
                    "POGM": ["u", "x", "y", "z", "grad", "prox"], "Condat": ["x", "y", "grad", "prox", "prox_dual"]
                    }.get(cls, ["x", "grad", "prox", "cost"])
            pos = [val(p, "array" if p in ("u", "x", "y", "z") else "auto" if p == "cost" else "native") for p in args]
            if cls == "GenForwardBackward":
                pos = pos[:2] + [pos[2:]]
            for p, v in given.items():
                if p not in args and p not in skip:
                    kw[p] = self.solver_value(p, v, two)
            if cls == "RMSpropGradOpt" or cls == "ADAMGradOpt" or cls == "MomentumGradOpt":
                pass
            if cls not in GRADOPT:
                kw["auto_iterate"] = auto
            return (lambda: getattr(alg, cls)(*pos, **kw)), lambda o: o.iterate(max_iter=2)
        if cls in ("GradBasic", "GradParent"):
            v = g("data", "array")
            kw = {"verbose": False}
            data = {"array": np.array([1.0, 2.0]), "intarray": np.array([1, 2]), "listfloat": [1.0, 2.0], "intfloat": np.array([1, 2]),
                    "list": [1.0, 2.0], "none": None, "str": "data", "wrongtype": np.array([1.0, 2.0])}[v]
            if v in ("listfloat", "intfloat"):
                kw["data_type"] = float
            if v == "wrongtype":
                kw["data_type"] = int
            for p in ("get_grad", "cost"):
                if p in given:
                    kw[p] = {"func": lambda *a, **k: self.count(1.0), "none": None, "int": 3, "str": "f"}[given[p]]
            op, tr = self.callable(g("op", "func")), self.callable(g("trans_op", "func"))

            def use(o):
                o.trans_op_op(np.array([1.0, 2.0]))
                if cls == "GradBasic":
                    o.get_grad(np.array([1.0, 2.0]))
                    o.cost(np.array([1.0, 2.0]))
                for p in ("get_grad", "cost"):
                    if given.get(p) == "func":
                        getattr(o, p)(np.array([1.0, 2.0]))
            return (lambda: getattr(self.gradient, cls)(data, op, tr, **kw)), use
        x = np.array([1.0, -2.0])
        if cls == "LinearParent":
            a = [self.callable(g("op", "func")), self.callable(g("adj_op", "func"))]
            return (lambda: self.linear.LinearParent(*a)), lambda o: (o.op(x), o.adj_op(x))
        if cls == "ProximityParent":
            a = [self.callable(g("op", "func")), self.callable(g("cost", "func"))]
            return (lambda: prox.ProximityParent(*a)), lambda o: (o.op(x), o.cost(x))
        if cls == "LinearCombo":
            def obj(**d):
                return type("Part", (), d)()
            fn = staticmethod(lambda y, *a, **k: self.count(np.array(y)))
            good = lambda: obj(op=fn, adj_op=fn)  # noqa: E731
            ops = {"list": lambda: [good(), good()], "tuple": lambda: (good(), good()), "array": lambda: np.array([good(), good()]),
                   "single": good, "none": lambda: None, "empty": lambda: [], "noop": lambda: [good(), obj(adj_op=fn)],
                   "noadj": lambda: [obj(op=fn), good()], "opint": lambda: [good(), obj(op=3, adj_op=fn)],
                   "adjint": lambda: [obj(op=fn, adj_op=3), good()]}[g("operators", "list")]()
            w = {"none": None, "list": [0.5, 2.0], "array": np.array([0.5, 2.0]), "ints": [1, 2], "short": [1.0],
                 "long": [1.0, 2.0, 3.0], "empty": [], "float": 0.5}[g("weights", "none")]
            return (lambda: self.linear.LinearCombo(ops, weights=w)), lambda o: o.adj_op(o.op(x))
        if cls in ("ProximityCombo", "costObj"):
            pc = cls == "ProximityCombo"

            class Good(prox.ProximityParent):
                def __init__(s):
                    s.op = lambda y, extra_factor=1.0: self.count(np.array(y))
                    s.cost = lambda *a, **k: self.count(1.0)

            def obj(**d):
                return type("Part", (), d)()
            fn = staticmethod(lambda y, *a, **k: self.count(np.array(y)))
            cs = staticmethod(lambda *a, **k: self.count(1.0))
            ops = {"list": lambda: [Good(), Good()], "tuple": lambda: (Good(), Good()), "array": lambda: np.array([Good(), Good()]),
                   "foreign": lambda: [obj(op=fn, cost=cs), Good()], "single": Good, "none": lambda: None, "str": lambda: "cost",
                   "empty": lambda: [], "noop": lambda: [Good(), obj(cost=cs)], "nocost": lambda: [obj(op=fn), Good()],
                   "opint": lambda: [Good(), obj(op=3, cost=cs)], "costint": lambda: [obj(op=fn, cost=3), Good()]
                   }[g("operators", "list")]()
            if pc:
                return (lambda: prox.ProximityCombo(ops)), lambda o: o.op(np.array([x, x], dtype=object))
            return (lambda: self.cost.costObj(ops, verbose=False)), lambda o: o.get_cost(x)
        if cls == "OrderedWeightedL1Norm":
            w = {"descending": [3.0, 1.0], "constant": [2.0, 2.0], "zeroend": [1.0, 0.0], "one": [2.0], "ascending": [1.0, 3.0],
                 "bump": [3.0, 1.0, 2.0], "negative": [1.0, -1.0], "zeros": [0.0, 0.0], "slightly": [1.0, 1.0 + 1e-9], "lateneg": [3.0, 2.0, 1.0, 0.5, -1e-9],
                 "latebump": [4.0, 3.0, 2.0, 1.0, 1.5]}[g("weights", "descending")]
            return (lambda: prox.OrderedWeightedL1Norm(np.array(w))), lambda o: o.op(np.arange(1.0, len(w) + 1))
        if cls == "KSupportNorm":
            k = int(g("k", "1"))
            return (lambda: prox.KSupportNorm(1.0, k)), lambda o: o.op(x)
        if cls == "KSupportNorm.k_value":
            k = int(g("k", "1"))

            def make():
                o = prox.KSupportNorm(1.0, 2)
                o.k_value = k
                return o
            return make, lambda o: o.op(x)
        if cls == "WaveletTransform":
            kw = {"shape": (8, 8), "level": 1, "compute_backend": g("backend", "numpy"), "decimated": g("decimated", "true") == "true"}
            wn = {"unknown": "no-such-wavelet"}.get(g("wavelet", "haar"), g("wavelet", "haar"))
            return (lambda: self.linear.WaveletTransform(wn, **kw)), lambda o: o.adj_op(o.op(np.ones((8, 8))))
        data = np.array([[3.0, 1.0], [0.5, 2.0], [1.0, 1.0], [2.0, 0.0]])
        if cls == "LowRankMatrix":
            kw = {}
            if "thresh_type" in given:
                kw["thresh_type"] = given["thresh_type"]
            if "lowr_type" in given:
                kw["lowr_type"] = given["lowr_type"]

            def make():
                o = prox.LowRankMatrix(0.1, operator=lambda m: np.array(m), **kw)
                o.op(np.array([[[3.0, 1.0], [0.5, 2.0]], [[1.0, 1.0], [2.0, 0.0]], [[0.0, 1.0], [2.0, 5.0]]]))
                return o
            return make, lambda o: None
        if cls == "SparseThreshold":
            kw = {p: v for p, v in given.items()}

            def make():
                o = prox.SparseThreshold(self.linear.Identity(), 0.5, **kw)
                o.op(x)
                return o
            return make, lambda o: None
        if cls == "is_executable":
            v = {"sh": "sh", "abs": "/bin/sh", "missing": "no_such_program_zz", "absmissing": self.scratch + "/none",
                 "plainfile": self.file, "dir": self.scratch, "path": pathlib.Path("/bin/sh"), "bytes": b"/bin/sh", "int": 3, "none": None, "list": ["sh"]}[g("name", "sh")]
            return (lambda: self.errors.is_executable(v)), lambda o: None
        if cls == "file_name_error":
            v = {"file": self.file, "empty": "", "missing": self.scratch + "/none", "dash": "-x", "dir": self.scratch}[g("name", "file")]
            return (lambda: self.errors.file_name_error(v)), lambda o: None
        if cls == "transpose_test":
            a = [self.callable(g("op", "func")), self.callable(g("op_t", "func"))]
            return (lambda: self.validation.transpose_test(a[0], a[1], (3,))), lambda o: None
        if cls == "svd_thresh_coef":
            kw = {p: v for p, v in given.items() if p != "op"}
            op = {"func": lambda m: np.array(m), "method": lambda m: np.array(m)}.get(g("op", "func"), None) \
                if g("op", "func") in ("func", "method") else self.callable(given["op"])
            return (lambda: self.svd.svd_thresh_coef(data, op, 0.1, **kw)), lambda o: None
        arrays = {"array2d": data, "tall": np.ones((5, 1)), "list": data.tolist(), "tuple": (1.0, -2.0), "vector": data[0],
                  "cube": np.ones((2, 2, 2)), "none": None, "str": "1.0", "float": -1.5, "int": 3, "dict": {0: 1.0}}
        if cls == "svd_thresh":
            kw = {"thresh_type": g("thresh_type", "hard")} if "thresh_type" in given else {}
            if "threshold" in given:
                kw["threshold"] = {"none": None, "float": 0.3}[given["threshold"]]
            if "n_pc" in given or kw.get("threshold") is None:
                kw["n_pc"] = {"none": None, "half": 0.5, "list": [1], "empty": ""}.get(g("n_pc", "2"), g("n_pc", "2"))
                if g("n_pc", "2").lstrip("-").isdigit():
                    kw["n_pc"] = int(kw["n_pc"])
            return (lambda: self.svd.svd_thresh(data, **kw)), lambda o: o.shape
        if cls == "svd_thresh_coef_fast":
            return (lambda: self.svd.svd_thresh_coef_fast(data, 0.1, **given)), lambda o: o[0].shape
        if cls == "thresh":
            kw = {"threshold_type": {"empty": ""}.get(given["thresh_type"], given["thresh_type"])} if given else {}
            return (lambda: self.noise.thresh(data, 0.1, **kw)), lambda o: o.shape
        if cls == "calculate_svd":
            return (lambda: self.svd.calculate_svd(arrays[g("data", "array2d")])), lambda o: o[2].shape
        if cls == "positive":
            return (lambda: self.positivity.positive(arrays[g("data", "array2d")])), lambda o: o >= 0
        raise KeyError(cls)

    def event(self, beh, auto):
        cls, given = beh["cls"], dict(map(tuple, beh["given"]))
        ev = {"cls": cls, "given": beh["given"], "raised": "", "calls": 0, "ran": False, "warned": []}
        make, use = self.build(cls, given, auto)
        self.calls = 0
        out, err = io.StringIO(), io.StringIO()
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        try:
            with time_limit(20):
                try:
                    obj = make()
                except CallTimeout:
                    raise
                except Exception as exc:  # noqa: BLE001
                    ev["raised"] = next((n for n in ("TypeError", "ValueError", "OSError", "NotImplementedError")
                                         if any(k.__name__ == n for k in type(exc).__mro__)), type(exc).__name__)
                    ev["calls"] = self.calls
                else:
                    use(obj)
                    ev["ran"] = True
        except CallTimeout:
            ev["raised"] = ev["raised"] or "Timeout"
        except Exception:  # noqa: BLE001
            pass
        finally:
            sys.stdout, sys.stderr = old
        txt = err.getvalue()
        ev["warned"] = [p for p in ("grad", "prox", "prox1", "prox2", "prox_dual", "cost", "linear")
                        if "Stranger_" + p + "_" in txt]
        ev["spurious"] = any("Native" + k + "'" in txt for k in ("Grad", "Prox", "Lin")) or "costObj'" in txt \
            or "backend not possible" in txt and "compute_backend" not in given
        return ev


def run(check):
    rng = np.random.default_rng(check.seed)
    res = model_check("MCConfig", constants={"Dev": "2"}, workers="8")
    check.add_model("MCConfig(Dev=2)", res)
    behs = res.behaviours()
    if check.tier != "quick":
        pass
    check.coverage["behaviours_replayed"] = len(behs)
    warnings.simplefilter("always")
    lab = Lab()
    try:
        events = [lab.event(b, auto=bool(b["bad"] and rng.random() < 0.7)) for b in behs]
        if check.tier != "quick":
            res3 = model_check("MCConfig", constants={"Dev": "3"}, workers="8", heap="12g")
            check.add_model("MCConfig(Dev=3)", res3)
            more = [b for b in res3.behaviours() if len(b["given"]) > 2]
            if len(more) > 120000:
                more = [more[i] for i in sorted(rng.choice(len(more), 120000, replace=False))]
            events += [lab.event(b, auto=bool(b["bad"] and rng.random() < 0.7)) for b in more]
            check.coverage["behaviours_replayed"] += len(more)
    finally:
        shutil.rmtree(lab.scratch, ignore_errors=True)
    cases = [{"id": i + 1, "events": events[i * 20:i * 20 + 20]} for i in range((len(events) + 19) // 20)]
    check.add_traces("TrConfig", cases, workers="8")
    check.assumptions.append("named parameter values stand for their class; at most two (thorough: three) parameters away from default "
                             "for constructors with more than five parameters")
