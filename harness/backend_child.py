"""Backend selection with a given set of available libraries (own process).

argv: JSON {"cupy": absent|broken|present, "tensorflow": ..., "torch": absent|present}; requests on stdin.
The optional libraries are replaced by small stand-ins.
"""
import io
import json
import sys
import types

import numpy as np

cfg = json.loads(sys.argv[1])
sys.path.insert(0, sys.argv[2])


class DeviceArray:
    """An array of another library: not a numpy array, leaves the device only when asked."""

    def __init__(self, data):
        self.host = np.array(data.host if isinstance(data, DeviceArray) else data)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.host, dtype=dtype)


class CupyArray(DeviceArray):
    def get(self):
        return self.host.copy()


class TfArray(DeviceArray):
    def numpy(self):
        return self.host.copy()


def fake(name, cls):
    mod = types.ModuleType(name)
    mod.ndarray, mod.array, mod.copy = cls, cls, cls
    return mod


class Finder:
    """Provides the stand-ins, and fails the broken ones."""

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name in ("cupy", "tensorflow", "tensorflow.experimental"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        base = module.__name__.split(".")[0]
        if cfg[base] == "broken":
            raise ImportError("broken " + base)
        module.__path__ = []
        if module.__name__ == "cupy":
            module.ndarray, module.array, module.copy = CupyArray, CupyArray, CupyArray
        if module.__name__ == "tensorflow.experimental":
            module.numpy = LIB["tensorflow"]


LIB = {"tensorflow": fake("tensorflow.experimental.numpy", TfArray)}
sys.meta_path.insert(0, Finder())
for name in ("cupy", "tensorflow", "torch"):
    if cfg[name] == "absent":
        sys.modules[name] = None

from modopt.base import backend  # noqa: E402

for name in ("cupy", "tensorflow", "torch"):
    if sys.modules.get(name, 0) is None:      # third parties look into sys.modules
        del sys.modules[name]
sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]

HOME = {"numpy": np.array, "cupy": CupyArray, "tensorflow": TfArray}


def where(val):
    if isinstance(val, np.ndarray):
        return "numpy"
    if isinstance(val, CupyArray):
        return "cupy"
    if isinstance(val, TfArray):
        return "tensorflow"
    return type(val).__name__


def modname(mod):
    if mod is np:
        return "numpy"
    if mod is LIB["tensorflow"]:
        return "tensorflow"
    return getattr(mod, "__name__", str(mod))


def host(val):
    return np.asarray(getattr(val, "host", val))


def one(req):
    err, out = sys.stderr, {"req": req}
    sys.stderr = cap = io.StringIO()
    try:
        if req["what"] == "get":
            mod, name = backend.get_backend(req["name"])
            out.update(lib=modname(mod), name=name)
        else:
            x = np.arange(6.0).reshape(2, 3) * 0.5 if req["seed"] == 0 else np.arange(4) * (1 + 2j)
            if req["home"] == "list":
                data = x.tolist()
            else:
                data = HOME[req["home"]](x)
            if req["what"] == "module":
                out.update(lib=modname(backend.get_array_module(data)))
            elif req["what"] == "change":
                kw = {} if req["name"] == "" else {"backend": req["name"]}
                res = backend.change_backend(data, **kw)
                out.update(lib=where(res), same=res is data, equal=bool(np.array_equal(host(res), x)))
            elif req["what"] == "cpu":
                res = backend.move_to_cpu(data)
                out.update(lib=where(res), same=res is data, equal=bool(np.array_equal(host(res), x)))
            elif req["what"] == "tensor":
                res = backend.convert_to_tensor(x.real)
                out.update(lib=type(res).__name__, same=False, equal=bool(np.array_equal(res.numpy(), x.real)))
            elif req["what"] == "untensor":
                import torch
                t = torch.tensor(x.real, requires_grad=bool(req["seed"]))
                res = backend.convert_to_cupy_array(t)
                out.update(lib=where(res), same=False, equal=bool(np.array_equal(res, x.real)))
            elif req["what"] == "untensor-absent":
                backend.convert_to_cupy_array(x)
                out.update(lib="?", same=False, equal=False)
            elif req["what"] == "solver":
                from modopt.opt.algorithms import ForwardBackward
                from modopt.opt.gradient import GradBasic
                from modopt.opt.proximity import IdentityProx
                y = np.arange(3.0)
                g = GradBasic(y, lambda v: 2 * v, lambda v: 2 * v, verbose=False)
                kw = {} if req["name"] == "" else {"compute_backend": req["name"]}
                fb = ForwardBackward(np.zeros(3), g, IdentityProx(), cost=None, beta_param=0.1, lambda_update=None, auto_iterate=False,
                                     progress=False, **kw)
                fb.iterate(3)
                v = np.zeros(3)
                for _ in range(3):
                    v = v - 0.1 * 2 * (2 * v - y)
                out.update(lib=where(fb.x_final), same=False, equal=bool(np.allclose(fb.x_final, v)), name=fb.compute_backend)
        out["raise"] = ""
    except Exception as exc:  # noqa: BLE001
        out["raise"] = type(exc).__name__
        out["why"] = str(exc)
    finally:
        sys.stderr = err
    out["warned"] = "WARNING" in cap.getvalue()
    return out


print("RESULT " + json.dumps([one(r) for r in json.load(sys.stdin)]))
