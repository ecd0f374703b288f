"""C27: noise generation."""
import warnings

import numpy as np

from common import arr, call_event, num, vec
from gen import large, layout, pick, rng_for, shape, values
from loopdrv import quiet


def run(check):
    rng = rng_for(check)
    from modopt.signal.noise import add_noise
    n = 3000 if check.tier == "thorough" else 600
    cases = []
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i in range(n):
            cases.append({"id": i + 1, "events": history(rng, add_noise)})
        with large():
            for _ in range(n // 60):
                cases.append({"id": len(cases) + 1, "events": history(rng, add_noise)})
        for _ in range(n // 30):
            cases.append({"id": len(cases) + 1, "events": [unseeded(rng, add_noise)]})
    check.add_traces("TrNoise", cases)


def history(rng, add_noise):
    """Several calls on one generator (or on equal seeds)."""
    seed = pick(rng, [int(rng.integers(10 ** 6)), [1, int(rng.integers(99))], 0])
    shared = rng.random() < 0.5
    bits = pick(rng, [np.random.PCG64] * 3 + [np.random.MT19937, np.random.Philox])
    gen, twin = np.random.Generator(bits(seed)), np.random.Generator(bits(seed))
    used = int(rng.integers(4))         # the generator has been used before, possibly leaving half a word in its buffer
    for g in (gen, twin):
        for k in range(used):
            [lambda: g.random(), lambda: g.integers(9, dtype=np.uint32), lambda: g.standard_normal(2)][(k + used) % 3]()
    events = []
    first = None
    for _ in range(int(rng.integers(1, 5))):
        sh = shape(rng, None, 4)
        typ = pick(rng, ["gauss", "gauss", "poisson"])
        if rng.random() < 0.05:
            typ = pick(rng, ["Gauss", "", "uniform"])
        x = values(rng, sh, pick(rng, ["real", "real", "int", "complex", "float32"]),
                   float(pick(rng, [1.0, 1.0, 20.0, 20.0, 3000.0, 1e8])))
        if rng.random() < 0.12:
            x = pick(rng, [np.abs(x).astype(np.uint8), (np.abs(x) * 3).astype(np.uint16), np.real(x).astype(np.int32)])
        if first is not None and rng.random() < 0.3 and first[0] == typ:
            x = first[1] * 0 + (0 if typ == "poisson" else 7)       # same draws, other data
            sh = x.shape
        first = (typ, x)
        kw = {}
        sigma, es = 1.0, [{"k": "scalar", "v": "1.0"}]
        u = rng.random()
        if u < 0.4:
            sigma = pick(rng, [0.0, 0, 2, float(rng.uniform(0.1, 9)), np.float64(0.3), -1.5, 1e-6, 4e4])
            es = [{"k": "scalar", "v": num(sigma)}]
        elif u < 0.85:
            m = sh[0] if rng.random() < 0.9 else sh[0] + int(pick(rng, [-1, 1]))
            sigma = np.round(rng.uniform(0, 5, m), 3) * (rng.choice([-1, 1], m) if rng.random() < 0.1 else 1)
            if rng.random() < 0.2:       # nearly equal, or very small and large
                sigma = sigma[:1].repeat(m) * pick(rng, [1.0, 1e-6, 1e5]) * (1 + rng.choice([0, 1e-5, 3e-4], m))
            es = [{"k": "layer", "v": num(s)} for s in sigma]
            sigma = pick(rng, [list, tuple, np.array])(sigma)
        if u < 0.85:
            kw["sigma"] = sigma
        if typ != "gauss" or rng.random() < 0.5:
            kw["noise_type"] = typ
        kw["rng"] = gen if shared else seed
        if not shared:
            twin = np.random.default_rng(seed)
        invalid = typ not in ("gauss", "poisson") or (es == [] or es[0]["k"] == "layer") and len(es) != sh[0]
        draws = []
        if not invalid:
            draws = vec(twin.standard_normal(sh) if typ == "gauss" else twin.poisson(np.abs(x)))
        arg = layout(rng, x)
        if rng.random() < 0.2:
            arg = pick(rng, [list, tuple])(x.tolist())
        f32 = x.dtype == np.float32
        rt = {"rtol": "1e-5", "atol": "1e-5"} if f32 else {"rtol": "1e-11", "atol": "1e-12"}
        kw2 = dict(kw)
        r = kw2.pop("rng")
        events.append(call_event("add_noise", {"x": arr(x), "sigma": es, "type": typ, "draws": draws},
                                 lambda d, **k: add_noise(d, rng=r, **k), arg, **rt, **kw2))
    return events


def unseeded(rng, add_noise):
    typ = pick(rng, ["gauss", "poisson"])
    n = 400
    level = float(pick(rng, [1.0, 4.0, 30.0]))
    x = np.full((n,), level) * (rng.choice([-1, 1], n) if rng.random() < 0.5 else 1)
    s = float(pick(rng, [1.0, 0.5, 3.0]))
    other = add_noise(x, sigma=s, noise_type=typ)
    # 12 standard errors: a false alarm is out of the question
    if typ == "gauss":
        mean, var, k4 = 0.0, s * s, 3.0
    else:
        mean, var, k4 = s * level, s * s * level, 3.0 + 1.0 / level
    a = {"x": arr(x), "type": typ, "s": num(s), "other": vec(other), "mean": num(mean), "var": num(var),
         "meantol": num(12 * np.sqrt(var / n)), "vartol": num(12 * var * np.sqrt((k4 - 1) / n))}
    return call_event("add_noise/unseeded", a, add_noise, x, sigma=s, noise_type=typ)
