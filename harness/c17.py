"""C17: combinations and compositions of operators."""
import warnings

import numpy as np

from algdrv import Lin, Prox
from common import arr, call_event, mkcases, num, vec
from gen import layout, pick, rng_for, shape, values
from loopdrv import quiet


def run(check):
    rng = rng_for(check)
    import modopt.opt.linear as linear
    import modopt.opt.proximity as proximity
    events = []
    n = 2500 if check.tier == "thorough" else 350
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(n):
            prox_case(rng, proximity, linear, events)
            lin_case(rng, linear, events)
            list_case(rng, proximity, linear, events)
    check.add_traces("TrCompose", mkcases(events))


def leaves(val):
    if isinstance(val, np.ndarray) and val.dtype == object or isinstance(val, (list, tuple)):
        return [x for v in val for x in leaves(v)]
    return [np.asarray(val)]


def enc_parts(val):
    if val is None:
        return {"k": "none"}
    return {"k": "parts", "v": [arr(v) for v in leaves(val)]}


def leaf(rng, proximity, linear, sh, cplx, depth):
    """(operator, its description)."""
    k = int(rng.integers(6 if depth else 5))
    n = int(np.prod(sh))
    if k == 0 and not cplx:
        return proximity.Positivity(), {"t": "pos", "w": [], "d": []}
    if k == 1:
        w = np.abs(rng.normal(size=sh))
        return proximity.SparseThreshold(linear.Identity(), w), {"t": "soft", "w": vec(w), "d": []}
    if k == 2:
        w = np.abs(rng.normal(size=sh))
        return proximity.Ridge(linear.Identity(), w), {"t": "ridge", "w": vec(w)}
    if k == 3:
        w = np.abs(rng.normal(size=n))
        p = Prox("soft", w, np.zeros(n))
        p = proximity.ProximityParent(p.op, lambda x, **kw: float(np.sum(w * np.abs(x).ravel())))
        return p, {"t": "soft", "w": vec(w), "d": []}
    if k == 5:
        M = np.linalg.qr(rng.normal(size=(n, n)))[0] if rng.random() < 0.6 else rng.normal(size=(n, n))
        lin = Lin(M, sh, sh)
        inner, enc = leaf(rng, proximity, linear, sh, cplx, 0)
        op = proximity.LinearCompositionProx(linear.LinearParent(lin.op, lin.adj_op), inner)
        return op, {"t": "comp", "lin": lin.enc(), "prox": enc}
    return proximity.IdentityProx(), {"t": "id", "w": [], "d": []}


def tree(rng, proximity, linear, depth, cplx):
    parts, encs, data = [], [], []
    for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.94 else int(rng.integers(7, 14))):
        if depth and rng.random() < 0.25:
            o, e, d = tree(rng, proximity, linear, depth - 1, cplx)
        else:
            sh = shape(rng, None, 3)
            x = layout(rng, values(rng, sh, "complex" if cplx else "real"))
            o, e = leaf(rng, proximity, linear, sh, cplx, 1)
            d = x
        parts.append(o)
        encs.append(e)
        data.append(d)
        if not isinstance(d, list) and rng.random() < 0.15:     # the same operator once more, for another component
            parts.append(o)
            encs.append(e)
            data.append(layout(rng, values(rng, d.shape, "complex" if cplx else "real")))
    order = rng.permutation(len(parts))
    parts, encs, data = ([v[i] for i in order] for v in (parts, encs, data))
    return proximity.ProximityCombo(pick(rng, [list, tuple])(parts)), {"t": "combo", "parts": encs}, data


def obj(data):
    out = np.empty(len(data), dtype=object)
    for i, d in enumerate(data):
        out[i] = obj(d) if isinstance(d, list) else d
    return out


def prox_case(rng, proximity, linear, events):
    cplx = rng.random() < 0.3
    f = float(pick(rng, [1.0, 0.5, 2.0, abs(rng.normal()), abs(rng.normal()), 1e-4, 250.0]))
    kw = {} if f == 1.0 and rng.random() < 0.5 else {"extra_factor": f}
    if rng.random() < 0.3:
        sh = shape(rng, None, 3)
        x = layout(rng, values(rng, sh, "complex" if cplx else "real"))
        while True:
            op, enc = leaf(rng, proximity, linear, sh, cplx, 1)
            if enc["t"] == "comp":
                break
        a = {"q": enc, "x": [arr(x)], "f": num(f)}
        events.append(call_event("LinearCompositionProx.op", a, op.op, x, rtol="1e-9", atol="1e-11",
                                 enc_out=enc_parts, **kw))
        events.append(call_event("LinearCompositionProx.cost", a, op.cost, x, rtol="1e-9", atol="1e-11"))
        return
    op, enc, data = tree(rng, proximity, linear, 1, cplx)
    if rng.random() < 0.1:               # a factor that is an array is handed on as it is
        kw = {"extra_factor": np.full((1,) * int(rng.integers(0, 2)), f) if rng.random() < 0.5 else np.float64(f)}
    x = obj(data) if rng.random() < 0.7 else data
    a = {"q": enc, "x": [arr(v) for v in leaves(data)], "f": num(f)}
    events.append(call_event("ProximityCombo.op", a, op.op, x, rtol="1e-9", atol="1e-11", enc_out=enc_parts, **kw))
    ck = {"verbose": True} if rng.random() < 0.3 else {}
    events.append(call_event("ProximityCombo.cost", a, op.cost, x, rtol="1e-9", atol="1e-11", **ck))


def lin_case(rng, linear, events):
    sh = shape(rng, None, 3)
    n = int(np.prod(sh))
    cplx = rng.random() < 0.3
    k = int(rng.integers(1, 5)) if rng.random() < 0.93 else int(rng.integers(6, 14))
    same = rng.random() < 0.4
    osh = shape(rng, None, 3)
    ops, encs, outs = [], [], []
    for _ in range(k):
        so = osh if same else shape(rng, None, 3)
        if rng.random() < 0.2:
            lin, so, op = Lin(), sh, linear.Identity()
        else:
            M = rng.normal(size=(int(np.prod(so)), n))
            if cplx:
                M = M + 1j * rng.normal(size=M.shape)
            lin = Lin(M, sh, so)
            op = linear.LinearParent(lin.op, lin.adj_op)
            if len(sh) == 1 and len(so) == 1 and rng.random() < 0.5:
                op = linear.MatrixOperator(M)
        for _ in range(2 if rng.random() < 0.12 else 1):     # now and then the same operator twice
            ops.append(op)
            encs.append(lin.enc())
            outs.append(so)
    k = len(ops)
    ws = None
    if rng.random() < 0.5:
        ws = rng.normal(size=k) * pick(rng, [1.0, 1.0, 1.0, 1e-6, rng.random(k) < 0.5, 0.0])
        ws = pick(rng, [ws, ws.tolist(), tuple(ws.tolist()), ws.astype(np.float32)])
    combo = linear.LinearCombo(pick(rng, [list, tuple])(ops), *([] if ws is None else [ws]))
    kind = "complex" if cplx else "real"
    x = layout(rng, values(rng, sh, kind))
    events.append(call_event("LinearCombo.op", {"qs": encs, "x": arr(x), "outsh": [list(o) for o in outs]},
                             combo.op, x, rtol="1e-10", atol="1e-12", enc_out=enc_parts))
    ys = [layout(rng, values(rng, o, kind)) for o in outs]
    arg = obj(ys) if rng.random() < 0.7 else ys
    events.append(call_event("LinearCombo.adj_op", {"qs": encs, "x": [arr(y) for y in ys], "outsh": list(sh),
                                                    "ws": [] if ws is None else vec(np.asarray(ws, dtype=float))},
                             combo.adj_op, arg, rtol="1e-6" if ws is not None and getattr(ws, "dtype", None) == np.float32
                             else "1e-10", atol="1e-10"))


class Bag:
    pass


def member(rng, kind, need):
    b = Bag()
    for m in need:
        setattr(b, m, lambda x, **kw: x)
    if kind == "missing":
        delattr(b, pick(rng, need))
    elif kind == "uncallable":
        setattr(b, pick(rng, need), 3)
    return b


def list_case(rng, proximity, linear, events):
    lin = rng.random() < 0.5
    cls, name, need = ((linear.LinearCombo, "LinearCombo()", ["op", "adj_op"]) if lin else
                       (proximity.ProximityCombo, "ProximityCombo()", ["op", "cost"]))
    kinds = ["ok"] * int(rng.integers(0, 4))
    if kinds and rng.random() < 0.5:
        kinds[int(rng.integers(len(kinds)))] = pick(rng, ["missing", "uncallable"])
    mem = [member(rng, k, need) for k in kinds]
    islist = rng.random() < 0.8
    if not islist:
        arg = pick(rng, [None, "ops", 3, member(rng, "ok", need), {1: 2}])
    else:
        arg = pick(rng, [list, tuple])(mem)
    wk, args = "none", []
    if lin and rng.random() < 0.6:
        n = len(kinds)
        wk = pick(rng, ["ok", "int", "short", "long", "empty", "scalar"])
        w = {"ok": [0.5] * n, "int": [1] * n, "short": [0.5] * (n - 1) if n > 1 else [0.5] * (n + 1),
             "long": [0.5] * (n + 1), "empty": [], "scalar": 0.5}[wk]
        args = [w]
    a = {"islist": islist, "members": kinds, "weights": wk}
    events.append(call_event(name, a, cls, arg, *args, enc_out=lambda v: {"k": "object"}))
