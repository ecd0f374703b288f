"""C22: thresholding and positivity, element by element."""
import numpy as np

from common import arr, call_event, mkcases, num, vec
from gen import BIG, large, layout, pick, rng_for, shape, values
from loopdrv import quiet


def struct(x):
    """Nesting of a possibly ragged value, ignoring the container types."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        return struct(x.tolist())
    if isinstance(x, (list, tuple, np.ndarray)):
        return "(" + " ".join(struct(v) for v in x) + ")"
    return "."


def leaves(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return [v for e in x for v in leaves(e)]
    return [x]


def nested(rng, depth):
    kind = int(rng.integers(4))
    if depth == 0 or kind == 0:
        a = values(rng, (int(rng.integers(1, 4)),), pick(rng, ["real", "int"]))
        return pick(rng, [lambda v: v, lambda v: v.tolist(), lambda v: tuple(v.tolist())])(a)
    parts = [nested(rng, depth - 1) for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.3:      # sequences of sequences of either sort, inside anything
        parts = [tuple(p) if isinstance(p, list) else p for p in parts]
    if kind == 1:
        parts.append(float(rng.normal()))
        parts.append(int(rng.integers(-3, 4)))
    if kind == 2:
        if rng.random() < 0.4:
            parts.append(values(rng, shape(rng, int(rng.integers(2, 5)), 3), pick(rng, ["real", "int"])))
        out = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    return tuple(parts) if rng.random() < 0.3 else parts


def run(check):
    rng = rng_for(check)
    from modopt.signal.noise import thresh
    from modopt.signal.positivity import positive
    events = []
    n = 5000 if check.tier == "thorough" else 900
    with quiet(), np.errstate(all="ignore"):
        for _ in range(n):
            one_thresh(rng, thresh, events)
            one_pos(rng, positive, events)
        with large():
            for _ in range(n // 40):
                one_thresh(rng, thresh, events)
                one_pos(rng, positive, events)
    check.add_traces("TrProx", mkcases(events))


def one_thresh(rng, thresh, events):
    kind = pick(rng, ["real", "real", "complex", "int", "float32", "complex64"])
    sh = pick(rng, [(), shape(rng), shape(rng), shape(rng, 4, 3), (0,) if not BIG else shape(rng)])
    scale = float(pick(rng, [1.0, 1.0, 1e-6, 1e-8, 1e-10, 1e-12, 1e6, 30.0]))
    x = np.asarray(values(rng, sh, kind, scale))
    hard = False
    k = int(rng.integers(5))
    if k == 0:
        t = float(abs(rng.normal()) * scale)
    elif k == 1:
        t = int(rng.integers(0, 4))
    elif k == 2:
        t = np.abs(rng.normal(size=sh)) * scale
    elif k == 3 and sh:
        t = np.abs(rng.normal(size=sh[-1:])) * scale
    else:
        t = np.round(np.abs(rng.normal(size=sh)) * 2) / 2
    if rng.random() < 0.06:
        t = np.inf if np.ndim(t) == 0 else np.where(rng.random(np.shape(t)) < 0.4, np.inf, t)
    if rng.random() < 0.06:                # a negative level keeps everything
        t = -np.abs(t) if np.ndim(t) else -abs(t)
        hard = True
    elif rng.random() < 0.08 and kind in ("real", "complex"):
        far = float(pick(rng, [1e-200, 1e200, 1e-170, 1e150]))
        x, t, scale, hard = x * far / scale, t * (far / scale), far, True
    te = np.broadcast_to(np.asarray(t, dtype=float), sh)
    if rng.random() < 0.4 and kind in ("real", "int") and x.size and np.isfinite(te).all():
        # elements exactly on the threshold, of both signs
        x = np.where(rng.random(sh) < 0.4, te * np.where(rng.random(sh) < 0.5, -1, 1), x)
    if not isinstance(x, np.ndarray):
        x = np.asarray(x)
    ty = pick(rng, ["soft", "hard", None] if not hard else ["hard", None])
    single = kind in ("float32", "complex64")
    if x.ndim and rng.random() < 0.8:
        xin = layout(rng, x)
    elif x.ndim == 0:
        xin = pick(rng, [x, x.item()])
    else:
        xin = x.tolist()
    args = [xin, t] + ([] if ty is None else [ty])
    atol = max(1e-6 * scale, 2e-15) if single else 2e-15 * max(scale, 1)
    e = call_event("thresh", {"x": arr(x), "w": vec(te), "f": vec(np.ones(sh)), "type": ty or "hard",
                              "inexact": kind not in ("real", "int")}, thresh, *args,
                   rtol="2e-5" if single else "1e-10", atol=num(atol))
    e["tie"] = "1e-6" if single else "1e-13"
    events.append(e)


def one_pos(rng, positive, events):
    mode = int(rng.integers(4))
    kw = {}
    if mode == 0:
        x = pick(rng, [float(rng.normal()), int(rng.integers(-4, 5)), -0.0, 0, 2.5, -1e-300, 1e300, 1e-300, 3e-14, 1e-9, -1e-14, 5e-324, -5e-324, 1e-310, -1e-310])
    elif mode == 1:
        x = nested(rng, int(rng.integers(1, 4)))
        kw["ragged"] = True
    else:
        a = values(rng, shape(rng, pick(rng, [1, 2, 3, 4]), 4), pick(rng, ["real", "int", "float32"]),
                   float(pick(rng, [1.0, 1e-8, 1e8])))
        if a.dtype == float and rng.random() < 0.2:
            a = a * 10.0 ** rng.integers(-30, 5, size=a.shape)
        if a.dtype == float and rng.random() < 0.1:
            a = np.where(rng.random(a.shape) < 0.4, a, pick(rng, [5e-324, -5e-324, 2e-310, -1e-309]))
        x = layout(rng, a) if rng.random() < 0.7 else pick(rng, [a.tolist(), tuple(a.tolist())])
    got = {}

    def enc_out(val):
        got["struct"] = struct(val)
        flat = leaves(val) if isinstance(val, (list, tuple, np.ndarray)) else [val]
        return {"k": "ok", "v": {"shape": [len(flat)], "data": [num(v) for v in flat]}, "dt": ""}
    flat = leaves(x)
    e = call_event("positive", {"x": {"shape": [len(flat)], "data": [num(v) for v in flat]}, "struct": struct(x)},
                   positive, x, rtol="1e-15", atol="0.0", enc_out=enc_out, **kw)
    e["struct"] = got.get("struct", struct(x))
    e["tie"] = "0.0"
    events.append(e)
