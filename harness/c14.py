"""C14: separable proximity operators and their penalties."""
import numpy as np

from algdrv import Lin
from common import arr, call_event, mkcases, num, vec
from gen import large, layout, pick, rng_for, shape, values
from loopdrv import quiet

KINDS = ["real", "real", "complex", "complex", "int", "float32", "complex64"]


def tol(kind):
    return {"rtol": "2e-5", "atol": "1e-6"} if kind in ("float32", "complex64") else {"rtol": "1e-10", "atol": "5e-15"}


def weight(rng, sh, scale):
    """A scalar or (broadcastable) array weight and its expansion to the data's shape."""
    k = int(rng.integers(5))
    if k == 0:
        w = float(np.abs(rng.normal()) * scale)
    elif k == 1:
        w = float(rng.integers(0, 3))
    elif k == 2 and len(sh) > 1:
        w = np.abs(rng.normal(size=sh[-1:])) * scale
    elif k == 3:
        w = np.round(np.abs(rng.normal(size=sh)) * 4) / 4
    else:
        w = np.abs(rng.normal(size=sh)) * scale
    return w, np.broadcast_to(np.asarray(w, dtype=float), sh).copy()


def factor(rng, sh, array=True):
    k = int(rng.integers(5))
    if k == 0:
        return None, np.ones(sh)
    if k == 1 and array:
        f = np.abs(rng.normal(size=sh))
        return f, f
    f = float(pick(rng, [0.5, 2.0, 1.0, 0.0, np.abs(rng.normal()), np.abs(rng.normal()), 1e-5, 300.0]))
    return f, np.full(sh, f)


def run(check):
    rng = rng_for(check)
    from modopt.opt import linear, proximity
    events = []
    n = 6000 if check.tier == "thorough" else 1000
    with quiet():
        for _ in range(n):
            one(rng, proximity, linear, events)
        with large():
            for _ in range(n // 12):
                one(rng, proximity, linear, events)
    check.add_traces("TrProx", mkcases(events))


def change(rng, op, name, value):
    """Replace a weight of a live operator, or write into the array it holds."""
    cur = getattr(op, name)
    if isinstance(cur, np.ndarray) and cur.flags.writeable and cur.shape == np.shape(value) and rng.random() < 0.5:
        cur[...] = value
    else:
        setattr(op, name, value)


def one(rng, proximity, linear, events):
    """One operator, used once or several times with other data, factors and weights."""
    kind = pick(rng, KINDS)
    sh = shape(rng)
    scale = float(pick(rng, [1.0, 1.0, 10.0, 1e-3, 1e4, 1e-8]))
    t = tol(kind)
    if scale > 1 and kind in ("float32", "complex64"):
        t = dict(t, atol=num(1e-6 * scale))
    elif scale > 1:
        t = dict(t, atol=num(1e-14 * scale))
    lin, linenc = linear.Identity(), {"t": "id", "M": [], "ncol": 0}
    if rng.random() < 0.3:
        m = rng.normal(size=(int(rng.integers(1, 5)), int(np.prod(sh))))
        lin = Lin(m, sh, (m.shape[0],))
        linenc = lin.enc()
    lin_sh = sh if linenc["t"] == "id" else (m.shape[0],)
    verb = {"verbose": True} if rng.random() < 0.3 else {}
    which = int(rng.integers(6))
    ty = pick(rng, ["soft", "hard", None])
    op = fv = None
    wex = {}

    def ev(name, enc, fn, *args, **kw):
        e = call_event(name, dict({"x": arr(args[0])}, **enc), fn, *args, **t, **kw)
        e["tie"] = "1e-6" if kind in ("float32", "complex64") else "1e-13"
        e["struct"] = ""
        events.append(e)

    def weigh(name, sh, scale, first):
        """The current weight of the operator, changed every now and then."""
        if not first and rng.random() < 0.5:
            w, wex[name] = weight(rng, sh, scale)
            change(rng, op, name, np.array(w) if np.ndim(w) else w)
        return wex[name]

    def fresh(name, sh, scale):
        w, wex[name] = weight(rng, sh, scale)
        return w

    for rep in range(1 if rng.random() < 0.7 else int(rng.integers(2, 5))):
        x = layout(rng, values(rng, sh, kind, scale))
        if rep == 0 or rng.random() < 0.5:
            fv, fe = factor(rng, sh)
        fkw = {} if fv is None else {"extra_factor": fv}
        if which == 0:
            op = proximity.IdentityProx()
            ev("IdentityProx.op", {}, op.op, x, **fkw)
            ev("IdentityProx.cost", {}, op.cost, x, **verb)
            if kind not in ("complex", "complex64"):
                op = proximity.Positivity()
                ev("Positivity.op", {"struct": ""}, op.op, x, **fkw)
                ev("Positivity.cost", {}, op.cost, x, **verb)
        elif which == 1:
            if rep == 0:
                kw = {} if ty is None else {"thresh_type": ty}
                op = proximity.SparseThreshold(lin, fresh("weights", sh, scale), **kw)
            we = weigh("weights", sh, scale, rep == 0)
            if ty == "hard" and rng.random() < 0.5 and fv is None:
                # data sitting exactly on the threshold
                x = np.where(rng.random(sh) < 0.5, we, x) if kind == "real" else x
            ev("SparseThreshold.op", {"w": vec(we), "f": vec(fe), "type": ty or "soft", "inexact": kind not in ("real", "int")},
               op.op, x, **fkw)
            if lin_sh == sh:
                ev("SparseThreshold.cost", {"w": vec(we), "lin": linenc}, op.cost, x, **verb)
            else:
                w2 = np.abs(rng.normal(size=lin_sh)) if rng.random() < 0.5 else 0.7
                ev("SparseThreshold.cost", {"w": vec(np.broadcast_to(w2, lin_sh)), "lin": linenc},
                   proximity.SparseThreshold(lin, w2).cost, x, **verb)
        elif which == 2:
            if rep == 0:
                op = proximity.Ridge(linear.Identity(), fresh("weights", sh, 1.0))
            we = weigh("weights", sh, 1.0, rep == 0)
            ev("Ridge.op", {"w": vec(we), "f": vec(fe)}, op.op, x, **fkw)
            w2 = np.abs(rng.normal(size=lin_sh)) if rng.random() < 0.5 else 0.7
            ev("Ridge.cost", {"w": vec(np.broadcast_to(w2, lin_sh)), "lin": linenc}, proximity.Ridge(lin, w2).cost, x, **verb)
        elif which in (3, 5):
            if rep == 0:
                op = proximity.ElasticNet(lin, fresh("alpha", sh, 1.0), fresh("beta", sh, scale))
            ale, bee = weigh("alpha", sh, 1.0, rep == 0), weigh("beta", sh, scale, rep == 0)
            ev("ElasticNet.op", {"al": vec(ale), "be": vec(bee), "f": vec(fe)}, op.op, x, **fkw)
            a2 = np.abs(rng.normal(size=lin_sh)) if rng.random() < 0.5 else 0.7
            b2 = np.abs(rng.normal(size=lin_sh)) if rng.random() < 0.5 else 0.3
            ev("ElasticNet.cost", {"al": vec(np.broadcast_to(a2, lin_sh)), "be": vec(np.broadcast_to(b2, lin_sh)), "lin": linenc},
               proximity.ElasticNet(lin, a2, b2).cost, x, **verb)
        else:
            gs = sh[1:] or ()

            def group():
                w = float(np.abs(rng.normal()) * scale) if rng.random() < 0.5 else np.abs(rng.normal(size=gs)) * scale
                return w, np.broadcast_to(w, gs).copy()
            if rep == 0:
                w, we = group()
                op = proximity.GroupLASSO(w)
            elif rng.random() < 0.5:
                w, we = group()
                change(rng, op, "weights", w)
            f1 = float(fe.ravel()[0])
            kw = {} if fv is None else {"extra_factor": f1}
            ev("GroupLASSO.op", {"w": vec(we), "f": [num(f1)] * max(1, int(np.prod(gs)))}, op.op, x, **kw)
            ev("GroupLASSO.cost", {"w": vec(we)}, op.cost, x, **verb)
