"""C20: reweighting histories."""
import warnings

import numpy as np

import common
from common import arr, call_event, num, vec
from gen import large, layout, pick, rng_for, shape, values
from loopdrv import quiet


def snapshot(ev, rw, sparse):
    ev["weights"], ev["orig"] = arr(rw.weights), arr(rw.original_weights)
    ev["seen"] = arr(sparse.weights) if sparse is not None else ev["weights"]
    return ev


def step(rw, sparse, op, x, factor=1.0, rtol="1e-12"):
    enc = {"x": arr(x), "f": num(factor)}
    if op == "use":
        ev = call_event("threshold", enc, sparse.op, x, extra_factor=factor, rtol="1e-9", atol=num(max(2e-15, 1e-13 * min(1.0, float(np.max(np.abs(x), initial=0))))))
    else:
        ev = call_event("reweight", enc, rw.reweight, x)
    ev["rtol"] = rtol if op != "use" else ev["rtol"]
    return snapshot(ev, rw, sparse)


def run(check):
    rng = rng_for(check)
    from modopt.opt import linear, proximity
    from modopt.opt.reweight import cwbReweight
    thorough = check.tier == "thorough"
    # every history of the model, replayed on a real object
    w0 = np.array([[0.5, 2.0], [1.25, 4.0]])
    data = [np.array([[0.0, 1.0], [-2.0, 0.5]]), np.array([[3 + 4j, 0.0], [1j, -2.0]]), np.array([[1e-3, -7.0], [2, 8.0]])]
    for n in (1.0, 2.5):
        res = common.model_check("MCReweight", constants=dict(
            Depth="5" if thorough else "4", N=f'"{n}"', W0=seq(w0), Data="<<" + ", ".join(seq(d) for d in data) + ">>"))
        check.add_model(f"MCReweight n={n}", res)
        behs = res.behaviours()
        with quiet():
            for hist in behs:
                w = w0.copy()
                rw = cwbReweight(w, *([] if n == 1.0 else [n]))
                for h in hist:
                    if h["op"] == "bad":
                        try:
                            rw.reweight(np.zeros((2, 3)))
                            bad = "reweight: accepted data of another shape"
                        except ValueError:
                            bad = ""
                    else:
                        if h["op"] == "reweight":
                            rw.reweight(data[h["k"] - 1])
                        bad = ""
                    want = np.array([float(v) for v in h["w"]]).reshape(2, 2)
                    if not np.allclose(rw.weights, want, rtol=1e-12, atol=0) or not np.array_equal(w, rw.weights):
                        bad = "weights do not follow the model"
                    if bad:
                        check.report(bad, {"history": hist, "n": n, "got": rw.weights.tolist(), "shared": w.tolist()})
                        break
        check.replayed(len(behs))
        check.coverage["samples"].append(behs[-1])
    # random histories
    cases = []
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i in range(1500 if thorough else 300):
            cases.append(dict(history(rng, cwbReweight, linear, proximity), id=i + 1))
        for i in range(10):
            cases.append(dict(history(rng, cwbReweight, linear, proximity, 60), id=len(cases) + 1))
        with large():
            for i in range(10):
                cases.append(dict(history(rng, cwbReweight, linear, proximity, 4), id=len(cases) + 1))
    check.add_traces("TrReweight", cases)


def seq(a):
    return "<<" + ", ".join('"' + num(v) + '"' for v in np.asarray(a).ravel()) + ">>"


def history(rng, cls, linear, proximity, steps=None):
    sh = shape(rng)
    kind = int(rng.integers(5))
    w = np.abs(rng.normal(size=sh)) + 0.05
    negative = False
    if kind > 1:
        w = w * float(pick(rng, [1.0, 1.0, 1.0, 1e-6, 1e-12, 1e5]))
    shared = True
    rtol = "1e-12"
    if kind == 0:
        w = w.astype(np.float32)
        rtol = "1e-5"
        arg = w
    elif kind == 1:
        w = np.ceil(w * 3)
        arg = w.astype(int) if rng.random() < 0.5 else w.tolist()
        shared = False
    else:
        arg = w = np.asfortranarray(w) if rng.random() < 0.3 else w
        if rng.random() < 0.3:           # part of a larger array
            full = np.zeros((2, *(2 * k for k in sh)))
            part = full[(1, *(slice(None, None, 2) for _ in sh))]
            part[...] = w
            arg = w = part
        if rng.random() < 0.06:
            w *= np.where(rng.random(sh) < 0.3, -1, 1)
            negative = True
    n = float(pick(rng, [1.0, 0.5, 3.0, rng.uniform(0.1, 5)]))
    case = {"shape": list(sh), "w0": vec(w), "n": num(n), "shared": shared}
    sparse = proximity.SparseThreshold(linear.Identity(), arg) if shared else None
    kw = {} if n == 1.0 and rng.random() < 0.5 else {"thresh_factor": n}
    if rng.random() < 0.2:
        kw["verbose"] = True
    box = {}

    def make():
        box["rw"] = cls(arg, **kw)
    ev = call_event("create", {"x": arr(w)}, make)
    if "rw" not in box:
        return dict(case, events=[dict(ev, weights=arr(w), orig=arr(w), seen=arr(w))])
    rw = box["rw"]
    ev["rtol"] = rtol
    events = [snapshot(ev, rw, sparse)]
    for _ in range(steps or int(rng.integers(1, 9))):
        r = rng.random()
        if r < 0.15:
            bad = pick(rng, [sh + (1,), (1,) + sh, tuple(s + 1 for s in sh), tuple(reversed(sh)), (int(np.prod(sh)),), sh[:-1], sh[1:],
                             (1,) * len(sh)])
            if bad == sh:
                bad = sh + (1,)
            events.append(step(rw, sparse, "bad", values(rng, bad), rtol=rtol))
        elif r < 0.4 and shared and not negative:
            f = float(rng.uniform(0.2, 2))
            x = layout(rng, values(rng, sh, pick(rng, ["real", "complex"])))
            e = step(rw, sparse, "use", x, f, rtol)
            if rtol != "1e-12":
                e.update(rtol="1e-5", atol="1e-6")
            events.append(e)
        else:
            x = values(rng, sh, pick(rng, ["real", "real", "complex", "int", "float32"]), float(pick(rng, [1.0, 100.0, 1e-3, 1e-6])))
            events.append(step(rw, sparse, "reweight", layout(rng, x), rtol="1e-5" if x.dtype == np.float32 else rtol))
            if x.dtype == np.float32 and rtol == "1e-12":
                rtol = "1e-5"
    return dict(case, events=events)
