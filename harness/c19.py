"""C19: the least-squares gradient operator, over histories on one object."""
import warnings

import numpy as np

from algdrv import Lin
from common import arr, call_event, mat, num
from gen import layout, pick, rng_for, shape, values
from loopdrv import quiet


def run(check):
    rng = rng_for(check)
    from modopt.opt.gradient import GradBasic, GradParent
    cases = []
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i in range(2500 if check.tier == "thorough" else 450):
            cases.append(dict(history(rng, GradBasic, GradParent), id=i + 1))
        for i in range(12):
            cases.append(dict(history(rng, GradBasic, GradParent, 120), id=len(cases) + 1))
    check.add_traces("TrGrad", cases)


def history(rng, basic, parent, steps=None):
    sh, so = shape(rng, None, 3), shape(rng, None, 3)
    cplx = rng.random() < 0.35
    M = rng.normal(size=(int(np.prod(so)), int(np.prod(sh)))) * float(pick(rng, [1.0, 0.01, 30.0]))
    if cplx:
        M = M + 1j * rng.normal(size=M.shape)
    lin = Lin(M, sh, so)
    if rng.random() < 0.15:              # operators that hand back the very array they are given, or a part of it
        so = sh
        M = np.eye(int(np.prod(sh)))
        lin = Lin.__new__(Lin)
        lin.op = lin.adj_op = pick(rng, [lambda x: x, lambda x: x[...], lambda x: x.reshape(x.shape)])
        cplx = bool(rng.random() < 0.35)
    kind = "complex" if cplx else "real"
    y = values(rng, so, kind)
    kw = {}
    w = bool(rng.random() < 0.35)
    if w or rng.random() < 0.3:
        kw["input_data_writeable"] = w
    if not cplx:
        t = int(rng.integers(4))
        if t == 0:
            kw["data_type"] = pick(rng, [float, np.floating])
            if not w and rng.random() < 0.3:
                y = np.round(y * 3).astype(int)
        elif t == 1:
            kw["data_type"] = np.float64
    if rng.random() < 0.3:
        kw["verbose"] = False
    g = basic(y, lin.op, lin.adj_op, **kw)
    case = {"M": mat(M), "shape": list(sh), "y": arr(y), "writeable": w}
    cin = "data_type" not in kw and rng.random() < 0.5
    events, old, seen = [], [], []
    tol = {"rtol": "1e-10", "atol": "1e-10"}

    def grad_of(x):
        r = g.get_grad(x)
        seen.append(1)
        if r is not None:
            return r
        old.append(g.grad)
        return g.grad
    for _ in range(steps or int(rng.integers(2, 10))):
        # the argument may be complex although matrix and data are real
        x = layout(rng, values(rng, sh, "complex" if cin and rng.random() < 0.2 else kind, float(pick(rng, [1.0, 1.0, 100.0, 1e-3]))))
        k = int(rng.integers(10))
        if k <= 2:
            events.append(call_event("get_grad", {"x": arr(x)}, grad_of, x, **tol))
        elif k == 3 and old:
            i = int(rng.integers(len(old)))
            events.append(call_event("old_grad", {"k": i + 1}, lambda: old[i], **tol))
        elif k <= 5:
            ck = {"verbose": True} if rng.random() < 0.3 else {}
            events.append(call_event("cost", {"x": arr(x)}, g.cost, x, **tol, **ck))
        elif k == 6 and seen and rng.random() < 0.6:
            events.append(call_event("held_grad", {}, lambda: g.grad, **tol))
        elif k == 6:
            events.append(call_event("trans_op_op", {"x": arr(x)}, g.trans_op_op, x, **tol))
        elif k == 7:
            if rng.random() < 0.5:
                events.append(call_event("op", {"x": arr(x)}, g.op, x, **tol))
            else:
                r = layout(rng, values(rng, so, kind))
                events.append(call_event("trans_op", {"x": arr(r)}, g.trans_op, r, **tol))
        elif k == 8:
            i = int(rng.integers(y.size))
            v = float(rng.normal())

            def write():
                g.obs_data[np.unravel_index(i, so)] = v
            events.append(call_event("write", {"i": i + 1, "v": num(v)}, write))
        elif rng.random() < 0.5:
            events.append(call_event("obs_data", {}, lambda: g.obs_data, **tol))
        else:
            y2 = values(rng, so, kind)

            def setobs():
                g.obs_data = y2
            events.append(call_event("set_obs", {"x": arr(y2)}, setobs))
    case["events"] = events
    return case
