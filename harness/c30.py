"""C30: type coercion and backend selection."""
import io
import json
import os
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import common
from common import _copy, _same, arr, attempt_fast, encode_out, mkcases
from gen import layout, pick, rng_for, shape, values
from loopdrv import quiet

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "backend_child.py")


def run(check):
    rng = rng_for(check)
    from modopt.base import types
    events = []
    n = 3000 if check.tier == "thorough" else 600
    with quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(n):
            events.append(coerce(rng, types))
            events.append(check_array(rng, types))
            if rng.random() < 0.2:
                events.append(whole(rng, types))
        for obj, ok in ((len, True), (lambda: 1, True), (int, True), (3, False), (None, False), ("len", False), ([len], False)):
            kind, val = attempt_fast(types.check_callable, obj)
            out = {"k": "raise", "e": val} if kind == "raise" else {"k": "same" if val is obj else "other"}
            events.append({"fn": "check_callable", "a": {"ok": ok}, "out": out})
    res = common.model_check("MCBackend")
    check.add_model("MCBackend", res)
    behs = res.behaviours()
    check.coverage["behaviours_replayed"] += len(behs)
    events += backends(behs)
    events += real_tensorflow(rng)
    check.add_traces("TrTypes", mkcases(events))


def coerce(rng, types):
    name = pick(rng, ["check_float", "check_int"])
    kind = pick(rng, ["int", "bool", "float", "list", "tuple", "array", "array", "array", "other"])
    dt = "-"
    if kind == "other":
        obj = pick(rng, ["1", None, {1.0}, {"a": 1}, b"2", object(), 1j, range(3)])
        a = {"x": {"shape": [], "data": []}}
    else:
        if kind in ("int", "bool", "float"):
            obj = {"int": int(rng.integers(-9, 9)), "bool": bool(rng.random() < 0.5),
                   "float": float(pick(rng, [-2.7, -0.2, 0.0, 1.5, 2.999, 7.0, rng.normal() * 50]))}[kind]
            if kind == "float" and rng.random() < 0.2:
                obj = np.float64(obj)
        else:
            dts = ["float64", "float32", "float16", "int64", "int32", "int8", "uint8", "bool", "uint64"]
            dt = pick(rng, dts)
            sh = pick(rng, [(), shape(rng, None, 3), (0,), (2, 0)]) if kind == "array" else shape(rng, None, 3)
            v = values(rng, sh, scale=float(pick(rng, [5.0, 5.0, 1e-9, 3e7, 1e14]))) if dt[-2:] == "64" else values(rng, sh, scale=5.0)
            if dt[0] == "u" or dt == "bool":
                v = np.abs(v)
            obj = np.asarray(v).astype(dt)
            if kind == "array":
                obj = layout(rng, obj) if obj.ndim else obj
            else:
                obj = {"list": list, "tuple": tuple}[kind](obj.tolist())
        a = {"x": arr(obj)}
    before = _copy(obj)
    k, val = attempt_fast(getattr(types, name), obj)
    out = {"k": "raise", "e": val} if k == "raise" else encode_out(val)
    if out.get("dt") == "float64" and not isinstance(val, np.ndarray):
        out["dt"] = "float"
    return {"fn": name, "a": dict(a, kind=kind, dt=dt), "out": out, "same": k == "ok" and val is obj, "mut": not _same(obj, before)}


def whole(rng, types):
    """Whole numbers of any size, given as Python or NumPy integers or floats: compared digit by digit."""
    n = int(rng.integers(1, 5))
    bits = int(pick(rng, [20, 31, 52, 53, 62]))
    v = [int(rng.integers(-2 ** bits, 2 ** bits)) for _ in range(n)]
    kind = pick(rng, ["list", "tuple", "int", "int64", "float64", "float", "uint64", "floats"])
    if kind in ("float64", "float", "floats"):
        v = [int(float(i)) for i in v]
    if kind == "uint64":
        v = [abs(i) for i in v]
    if kind in ("int", "float"):
        v = v[:1]
        obj = v[0] if kind == "int" else float(v[0])
    else:
        obj = {"list": list, "tuple": tuple, "floats": lambda w: [float(i) for i in w],
               "int64": np.array, "float64": lambda w: np.array(w, dtype=float),
               "uint64": lambda w: np.array(w, dtype=np.uint64)}[kind](v)
    k, val = attempt_fast(types.check_int, obj)
    got = [] if k == "raise" else [str(int(i)) for i in np.ravel(np.asarray(val))]
    return {"fn": "check_int/whole", "a": {"x": [str(i) for i in v]}, "out": {"k": k, "v": got}}


def check_array(rng, types):
    kind = pick(rng, ["array"] * 6 + ["other"])
    dt = pick(rng, ["float64", "float32", "int64", "int8", "complex128", "bool"])
    obj = values(rng, shape(rng, None, 3)).astype(dt)
    own = obj.copy()
    if rng.random() < 0.4:
        own = np.stack([own, own])[int(rng.integers(2))]      # a view of a larger array
    own.flags.writeable = bool(rng.random() < 0.6)
    before = bool(own.flags.writeable)
    a = {"kind": kind, "dtok": True, "before": before, "writeable": True, "verbose": True}
    kw = {}
    want = pick(rng, [None, None, float, int, complex, np.floating, np.integer, np.float64, np.number, bool])
    if want is not None:
        kw["dtype"] = want
        a["dtok"] = bool({float: dt == "float64", int: dt == "int64", complex: dt == "complex128", bool: dt == "bool",
                          np.float64: dt == "float64", np.floating: dt.startswith("float"),
                          np.integer: dt.startswith("int"), np.number: dt != "bool"}[want])
    for k in ("writeable", "verbose"):
        if rng.random() < 0.6:
            a[k] = kw[k] = bool(rng.random() < 0.5)
    obj = own if kind == "array" else pick(rng, [[1.0], 1.0, None, (1.0, 2.0), "x"])
    saved = own.copy()
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        k, val = attempt_fast(types.check_npndarray, obj, **kw)
        warned = "WARNING" in sys.stderr.getvalue()
    finally:
        sys.stderr = err
    out = {"k": "raise", "e": val} if k == "raise" else {"k": "ok"}
    return {"fn": "check_npndarray", "a": a, "out": out, "flag": bool(own.flags.writeable), "warned": warned,
            "mut": not np.array_equal(saved, own)}


def backends(behs):
    """Run the requests of every configuration in its own process."""
    groups = {}
    for b in behs:
        groups.setdefault(json.dumps(b["cfg"], sort_keys=True), []).append(b["req"])

    def child(item):
        cfg, reqs = item
        res = subprocess.run([sys.executable, CHILD, cfg, common.REPO_SRC], input=json.dumps(reqs), capture_output=True,
                             text=True, timeout=300, env=dict(os.environ))
        for line in res.stdout.splitlines():
            if line.startswith("RESULT "):
                return [(json.loads(cfg), r) for r in json.loads(line[7:])]
        return [(json.loads(cfg), {"req": reqs[0], "raise": "process died: " + res.stderr[-300:], "warned": False})]
    events = []
    with ThreadPoolExecutor(6) as pool:
        for part in pool.map(child, groups.items()):
            for cfg, r in part:
                events.append({"fn": "backend", "cfg": cfg, "req": r["req"], "raised": r["raise"], "lib": r.get("lib", ""),
                               "name": r.get("name", ""), "warned": r["warned"], "same": r.get("same", False),
                               "equal": r.get("equal", False)})
    return events


def real_tensorflow(rng):
    """The installed libraries, not stand-ins."""
    from modopt.base import backend
    cfg = {"cupy": "absent", "tensorflow": "absent", "torch": "present"}
    try:
        from tensorflow.experimental import numpy as tnp
        cfg["tensorflow"] = "present"
    except ImportError:
        tnp = None
    try:
        import torch  # noqa: F401
    except ImportError:
        cfg["torch"] = "absent"
    events = []
    homes = ["numpy"] + (["tensorflow"] if tnp is not None else [])
    for _ in range(30):
        home = pick(rng, homes)
        what = pick(rng, ["module", "change", "cpu", "get"])
        x = values(rng, shape(rng, None, 3), pick(rng, ["real", "complex", "float32"]))
        name = pick(rng, ["numpy", "tensorflow", "cupy", "other"])
        req = {"what": what, "home": home, "name": name, "seed": 0}
        data = x if home == "numpy" else tnp.array(x)
        ev = {"fn": "backend", "cfg": cfg, "req": req, "raised": "", "lib": "", "name": "", "same": False, "equal": False}
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            if what == "get":
                mod, ev["name"] = backend.get_backend(name)
                ev["lib"] = "numpy" if mod is np else "tensorflow" if mod is tnp else "?"
            elif what == "module":
                mod = backend.get_array_module(data)
                ev["lib"] = "numpy" if mod is np else "tensorflow" if mod is tnp else "?"
            else:
                res = backend.change_backend(data, name) if what == "change" else backend.move_to_cpu(data)
                ev["lib"] = "numpy" if isinstance(res, np.ndarray) else "tensorflow"
                ev["same"] = res is data
                host = np.asarray(res)
                ev["equal"] = bool(np.array_equal(host, x)) and host.dtype == x.dtype
        except Exception as exc:  # noqa: BLE001
            ev["raised"] = type(exc).__name__
        finally:
            ev["warned"] = "WARNING" in sys.stderr.getvalue()
            sys.stderr = err
        events.append(ev)
    return events
