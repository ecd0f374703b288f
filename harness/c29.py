"""C29: the wrapper around the external executable, in a scratch directory."""
import json
import os
import shutil
import sys
import tempfile
import threading
import time

import numpy as np

import common
from common import arr, attempt_fast, call_event, encode_out, vec
from gen import layout, pick, rng_for, values
from loopdrv import quiet

FAKE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fake_mr.py")


class Sandbox:
    """A scratch PATH entry with the stand-in, a work directory and a record directory."""

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vmr"))
        self.bin, self.work, self.log = (os.path.join(self.root, d) for d in ("bin", "work", "log"))
        for d in (self.bin, self.work, self.log):
            os.mkdir(d)
        exe = os.path.join(self.bin, "mr_transform")
        with open(exe, "w") as fh:
            fh.write(f'#!/bin/sh\nexec {sys.executable} -I -S {FAKE} "$@"\n')
        os.chmod(exe, 0o755)
        self.old = (os.environ.get("PATH", ""), os.getcwd())
        self.path = self.bin + os.pathsep + self.old[0]
        os.environ["PATH"] = self.path
        os.environ["FAKE_MR_LOG"] = self.log
        os.chdir(self.work)

    def close(self):
        os.environ["PATH"] = self.old[0]
        os.environ.pop("FAKE_MR_LOG", None)
        os.chdir(self.old[1])
        shutil.rmtree(self.root, ignore_errors=True)

    def fresh(self):
        """Empty both directories and put other people's files in."""
        for d in (self.work, self.log):
            for name in os.listdir(d):
                p = os.path.join(d, name)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        os.mkdir(os.path.join(self.work, "out"))
        self.mine = {}
        for sub in ("", "out/"):
            for name in ("mr_temp_other.fits", "mr_temp_2020.fits", "keep.mr", "notes.txt"):
                p = os.path.join(self.work, sub + name)
                with open(p, "w") as fh:
                    fh.write("mine " + p)
                self.mine[p] = "mine " + p

    def seen(self, gate=""):
        p = os.path.join(self.log, f"call{gate}.json")
        if not os.path.exists(p):
            return {"n": 0, "options": [], "shape": [], "data": [], "planes": [], "scales": 0, "in": "", "out": ""}
        with open(p) as fh:
            d = json.load(fh)
        d["n"] = 1
        d["data"], d["planes"] = vec(np.array(d["data"])), vec(np.array(d["planes"]))
        return d

    def state(self, owners):
        """(my files untouched, files present tagged with the call they belong to)."""
        ok = all(os.path.exists(p) and open(p).read() == t for p, t in self.mine.items())
        files = []
        for base, _, names in os.walk(self.work):
            for name in names:
                p = os.path.join(base, name)
                if p not in self.mine:
                    files.append(owners.get(p, [0, name]))
        return ok, sorted(files)

    def owner(self, c, seen):
        if not seen["n"]:
            return {}
        return {os.path.abspath(seen["in"]): [c, "fits"], os.path.abspath(seen["out"]): [c, "mr"]}


def random_data(rng):
    sh = (int(rng.integers(1, 5)), int(rng.integers(1, 6)))
    kind = pick(rng, ["real", "real", "int", "float32"])
    x = values(rng, sh, kind)
    if kind == "int":
        x = x.astype(pick(rng, [np.int16, np.int32, np.int64]))
    if kind == "float32":
        x = np.round(x * 8) / np.float32(8)      # the stand-in's planes stay representable
    return layout(rng, x)


def options(rng, mode, gate=""):
    opts = []
    if rng.random() < 0.7:
        opts += ["-n", str(int(rng.integers(1, 5) if rng.random() < 0.9 else rng.integers(6, 15)))]
    if rng.random() < 0.5:
        opts += ["-t", str(int(rng.integers(1, 30)))]
        if rng.random() < 0.2:       # the same word more than once
            opts += ["-u", pick(rng, [opts[-1], "-n" if False else "2"])]
    if mode != "ok" or rng.random() < 0.3:
        opts += ["-m", mode]
    if gate:
        opts += ["-g", gate]
    form = " ".join(opts)
    if rng.random() < 0.5:
        form = list(opts)
    elif rng.random() < 0.3:
        form = "  ".join(opts) + " "
    return opts, form


def run(check):
    rng = rng_for(check)
    thorough = check.tier == "thorough"
    from modopt.signal import wavelet as wv
    box = Sandbox()
    cases = []
    try:
        with quiet():
            modes = '{"ok", "Error", "none", "late"}' if thorough else '{"ok", "Error", "none"}'
            res = common.model_check("MCMr", constants={"Calls": "{1, 2}", "Modes": modes})
            check.add_model("MCMr", res)
            seen, behs = set(), []
            for b in res.behaviours():
                key = json.dumps(b, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    behs.append(b)
            check.coverage["behaviours_replayed"] += len(behs)
            for b in behs:
                cases.append({"id": len(cases) + 1, "events": together(rng, box, wv, b)})
            for _ in range(600 if thorough else 90):
                cases.append({"id": len(cases) + 1, "events": sequence(rng, box, wv)})
            for _ in range(200 if thorough else 40):
                cases.append({"id": len(cases) + 1, "events": [filters(rng, box, wv)]})
            for _ in range(100):
                cases.append({"id": len(cases) + 1, "events": [trim(rng, wv)]})
            cases.append({"id": len(cases) + 1, "events": commands(wv)})
        check.add_traces("TrMr", cases)
    finally:
        box.close()


def together(rng, box, wv, beh):
    """Replay one interleaving of two concurrent calls."""
    box.fresh()
    path = pick(rng, [{}, {"path": "./"}, {"path": box.work + "/out/"}, {"path": "out/"}])
    data, opts, results, threads, owners, events = {}, {}, {}, {}, {}, []
    for c in (1, 2):
        data[c] = random_data(rng)
        opts[c] = options(rng, beh["mode"][c - 1], "g%d" % c)

    def work(c, kw):
        results[c] = attempt_fast(wv.call_mr_transform, data[c], opt=opts[c][1], **kw)
    for what, c in beh["hist"]:
        keep = beh["keep"][c - 1]
        if what == "start":
            kw = dict(path)
            if keep or rng.random() < 0.5:
                kw["remove_files"] = not keep
            threads[c] = threading.Thread(target=work, args=(c, kw))
            threads[c].start()
            for _ in range(4000):
                if box.seen("g%d" % c)["n"] or not threads[c].is_alive():
                    break
                time.sleep(0.003)
            owners.update(box.owner(c, box.seen("g%d" % c)))
            ok, files = box.state(owners)
            events.append({"fn": "start", "c": c, "files": files, "others": ok})
        else:
            open(os.path.join(box.log, "gog%d" % c), "w").close()
            threads[c].join()
            ok, files = box.state(owners)
            events.append(end(c, data[c], opts[c][0], beh["mode"][c - 1], keep, results[c], ok, files, box.seen("g%d" % c)))
    return events


def end(c, x, opts, mode, keep, result, ok, files, seen):
    out = encode_out(result[1]) if result[0] == "ok" else {"k": "raise", "e": result[1]}
    seen.pop("in", None)
    seen.pop("out", None)
    return {"fn": "end", "c": c, "others": ok, "files": files, "out": out, "seen": seen,
            "a": {"x": arr(x), "dt": x.dtype.name, "options": opts, "mode": mode, "keep": keep}}


def sequence(rng, box, wv):
    """Calls one after the other, with refused ones in between."""
    box.fresh()
    owners, events = {}, []
    for c in range(1, int(rng.integers(1, 4)) + 1):
        u = rng.random()
        if u < 0.12:
            bad = pick(rng, [[[1.0, 2.0]], np.zeros(3), np.zeros((2, 2, 2)), None, 3.0])
            kind, val = attempt_fast(wv.call_mr_transform, bad)
            ok, files = box.state(owners)
            events.append({"fn": "refuse", "what": "call_mr_transform with invalid data", "exp": ["ValueError"], "files": files,
                           "others": ok, "out": {"k": kind if kind == "raise" else "ok", "e": str(val)}})
            continue
        if u < 0.24:
            os.environ["PATH"] = pick(rng, [box.work, "/nonexistent", ""])
            try:
                kind, val = attempt_fast(wv.call_mr_transform, random_data(rng))
            finally:
                os.environ["PATH"] = box.path
            ok, files = box.state(owners)
            events.append({"fn": "refuse", "what": "call_mr_transform without executable", "exp": ["OSError"], "files": files,
                           "others": ok, "out": {"k": kind if kind == "raise" else "ok", "e": str(val)}})
            continue
        mode = pick(rng, ["ok", "ok", "noisy", "stderr", "bad", "Error", "Sorry", "late", "none", "fail"])
        x = random_data(rng)
        opts, form = options(rng, mode)
        kw = pick(rng, [{}, {"path": "./"}, {"path": box.work + "/out/"}, {"path": "out/"}])
        keep = bool(rng.random() < 0.3)
        if keep:
            kw = dict(kw, remove_files=False)
        if opts or rng.random() < 0.5:
            kw = dict(kw, opt=form)
        p = os.path.join(box.log, "call.json")
        if os.path.exists(p):
            os.unlink(p)
        before, oform = x.copy(), list(form) if isinstance(form, list) else form
        result = attempt_fast(wv.call_mr_transform, x, **kw)
        seen = box.seen()
        owners.update(box.owner(c, seen))
        ok, files = box.state(owners)
        ok = ok and np.array_equal(before, x) and oform == form
        present = {tuple(f) for f in files}
        events.append({"fn": "start", "c": c, "others": True,
                       "files": sorted([list(f) for f in present if f[0] != c] + [[c, "fits"]])})
        events.append(end(c, x, opts, mode, keep, result, ok, files, seen))
    return events


def filters(rng, box, wv):
    box.fresh()
    sh = pick(rng, [tuple, list])(int(rng.integers(3, 9)) for _ in range(2))
    opts = ["-n", str(int(pick(rng, [1, 2, 2, 3, 3, 4, 4])))] if rng.random() < 0.8 else []
    if rng.random() < 0.3:
        opts += ["-f", str(int(rng.integers(0, 3)))]
    if rng.random() < 0.4:
        opts += ["-u", "1"]
    form = " ".join(opts) if rng.random() < 0.5 else list(opts)
    kw = {} if not opts else {"opt": form}
    a = {"shape": list(sh), "options": opts, "coarse": False, "trim": False}
    for k in ("coarse", "trim"):
        if rng.random() < 0.5:
            a[k] = kw[k] = bool(rng.random() < 0.7)
    kind, val = attempt_fast(wv.get_mr_filters, sh, **kw)
    seen = box.seen()
    owners = box.owner(1, seen)
    ok, files = box.state(owners)
    ok = ok and list(sh) == a["shape"]
    seen.pop("in")
    seen.pop("out")
    if kind == "raise":
        out = {"k": "raise", "e": val}
    else:
        out = {"k": "filters", "v": [arr(f) for f in val], "array": isinstance(val, np.ndarray) and val.dtype != object}
    return {"fn": "filters", "a": a, "out": out, "seen": seen, "others": ok, "files": files}


def trim(rng, wv):
    sh = tuple(int(v) for v in rng.integers(1, 7 if rng.random() < 0.9 else 25, size=2))
    while True:
        x = values(rng, sh) * (rng.random(sh) < pick(rng, [0.1, 0.3, 0.9]))
        if np.any(x != 0):
            break
    if rng.random() < 0.2:
        x = np.where(rng.random(sh) < 0.15, pick(rng, [1e-12, -1e-17, 5e-324]), x)
    x = x * float(pick(rng, [1.0, 1.0, 1e-13, 1e-200, 1e9]))
    if not np.any(x):
        x[0, 0] = 1.0
    return call_event("trim_filter", {"x": arr(x)}, wv.trim_filter, layout(rng, x))


def commands(wv):
    events = []
    for cmd, o, e in (("echo hello  world", "hello world\n", ""), ("printf x", "x", ""), ("true", "", "")):
        kind, val = attempt_fast(wv.execute, cmd)
        out = {"k": "pair", "o": val[0], "e": val[1]} if kind == "ok" and isinstance(val, tuple) else {"k": kind, "e": str(val)}
        events.append({"fn": "execute", "bad": False, "out": out, "wanto": o, "wante": e})
    for cmd in (["echo", "x"], None, 3):
        kind, val = attempt_fast(wv.execute, cmd)
        events.append({"fn": "execute", "bad": True, "out": {"k": kind, "e": str(val)}, "wanto": "", "wante": ""})
    return events
