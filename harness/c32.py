"""C32: diagnostics (spec/Diag.tla); everything written lands in a scratch directory."""
import contextlib
import io
import os
import pathlib
import re
import shutil
import tempfile
import warnings

import numpy as np

import common
from common import attempt, mat, num, vec
from gen import pick, rng_for, shape

WORDS = ["tool", " ", "a b", ".tool", "tool-x", "t\u00f6\u00f6l", "~", "$HOME", " tool", "tool ", "TOOL", "tool\n"]
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def entry(path, kind, scratch):
    """Create a directory entry of the given kind."""
    if kind in ("plain", "exec"):
        with open(path, "w") as fh:
            fh.write("#!/bin/sh\n")
        os.chmod(path, 0o755 if kind == "exec" else 0o644)
    elif kind == "dir":
        os.mkdir(path)
    elif kind == "link":
        target = os.path.join(scratch, "target")
        if not os.path.exists(target):
            entry(target, "exec", scratch)
        os.symlink(target, path)
    elif kind == "dangling":
        os.symlink(os.path.join(scratch, "nowhere"), path)


def clear(path):
    shutil.rmtree(path)
    os.mkdir(path)


def outcome(func, *args, **kwargs):
    kind, val = attempt(func, *args, **kwargs)
    return "" if kind == "ok" else val


def lookup(q, root, n):
    """Replay one query of MCDiag in a directory of its own."""
    from modopt.interface import errors
    base = os.path.join(root, f"q{n}")
    os.makedirs(base)
    dirs = []
    # bare names of any kind, in a search path that may be long
    word = WORDS[n % len(WORDS)] if q["t"] == "exe" and q["form"] == "bare" and n % 2 else "tool"
    for i, kind in enumerate(q["path"]):
        d = os.path.join(base, f"p{i}")
        os.mkdir(d)
        entry(os.path.join(d, word), kind, base)
        dirs += [os.path.join(base, f"none{i}-{k}") for k in range([0, 0, 0, 7, 25][n % 5])] + [d]
    here = os.path.join(base, "here")
    os.mkdir(here)
    name = os.path.join(here, "tool")
    entry(name, q["direct"], base)
    old = os.environ["PATH"]
    cwd = os.getcwd()
    if n % 7 == 3 and dirs:          # an empty or relative entry of the search path is relative to the current directory
        i = n // 7 % len(dirs)
        if os.path.isdir(dirs[i]):
            os.chdir(dirs[i])
            dirs[i] = "" if n % 2 else "."
    elif n % 7 == 5:
        os.chdir(base)
        dirs = [os.path.basename(d) for d in dirs]
    os.environ["PATH"] = os.pathsep.join(dirs)
    try:
        if q["t"] == "exe":
            arg = {"bare": word, "direct": name, "other": [3, b"tool", None, ["tool"], pathlib.Path(name)][n % 5]}[q["form"]]
            if q["form"] == "direct" and n % 2:
                os.chdir(base)
                arg = "here/tool"
            out = outcome(errors.is_executable, arg)
        else:
            if q["form"] == "option":
                os.chdir(here)
                entry("-tool", q["direct"], base)
            if q["form"] == "normal" and q["direct"] != "absent" and n % 3:
                # other names, absolute or relative
                word = ["tool", " ", "a b", ".tool", "tool-x", "t\u00f6\u00f6l", "x" * 200, "~", "$HOME", "tool\n",
                        "t-", "a -b", "\u2014x"][n % 13]
                if word != "tool":
                    os.rename(name, os.path.join(here, word))
                if n % 3 == 1:
                    os.chdir(here)
                    name = word
                else:
                    name = os.path.join(here, word)
            arg = {"normal": name, "empty": "", "option": "-tool"}[q["form"]]
            out = outcome(errors.file_name_error, arg)
    finally:
        os.environ["PATH"] = old
        os.chdir(cwd)
        shutil.rmtree(base)
    return {"t": q["t"], "q": q, "out": out}


class FakeLog:
    def __init__(self):
        self.got = []

    def exception(self, msg, *args, **kw):
        self.got.append(str(msg).strip())

    error = warning = critical = info = exception


def report(rng):
    from modopt.interface import errors
    what = pick(rng, ["WARNING", "ERROR"])
    fn = errors.warn if what == "WARNING" else errors.catch_error
    msg = "m%d %s" % (rng.integers(1000), pick(rng, ["file not found", "a:b", "100%", "{x}", "%s", "", "two\nlines", "x" * 300]))
    msg = msg.strip()
    log = FakeLog() if rng.random() < 0.6 else None
    err = io.StringIO()
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stderr(err):
        warnings.simplefilter("always")
        out = outcome(fn, msg, log) if log is not None else outcome(fn, msg)
    got = (log.got if log is not None else []) if what == "ERROR" else [str(w.message) for w in rec]
    want = [] if log is None else ["ERROR: " + msg if what == "ERROR" else msg]
    text = ANSI.sub("", err.getvalue())
    if "\n" in msg:
        flat = msg.replace("\n", "|")
        text = text.replace(msg, flat)
        got, want = [g.replace(msg, flat) for g in got], [g.replace(msg, flat) for g in want]
        msg = flat
    lines = text[:-1].split("\n") if text.endswith("\n") else ["?" + text]
    return {"t": "report", "fn": fn.__name__, "what": what, "msg": msg, "out": out, "lines": lines,
            "logged": got, "wantlog": want}


def transposes(rng):
    """A few transpose tests in a row, sharing seeds and generators."""
    from modopt.signal.validation import transpose_test
    gen = np.random.default_rng(3 + int(rng.integers(1000)))      # none of the plain seeds below
    events = []
    xs = shape(rng, maxdim=3)
    ys = xs if rng.random() < 0.5 else shape(rng, maxdim=3) if rng.random() < 0.8 else pick(rng, [(), (1,), (1, 1)])
    for _ in range(int(rng.integers(2, 6))):
        nx, ny = int(np.prod(xs)), int(np.prod(ys))
        M = np.round(rng.normal(size=(ny, nx)), 3)
        T = M.T.copy() if rng.random() < 0.4 else np.round(rng.normal(size=(nx, ny)), 3)
        if rng.random() < 0.2:             # complex operators, whose products may differ in their phase only
            M = M * pick(rng, [1, 1j, 1 + 2j])
            T = T * pick(rng, [1, 1j, -1j])
        seen = {}
        gx = pick(rng, [None, None, "xa", 3])
        gy = pick(rng, [None, "ya", 0])

        def op(x, args, seen=seen, M=M):
            seen["x"], seen["xa"] = np.array(x), args
            return (M @ np.ravel(x)).reshape(ys)

        def opt(y, args, seen=seen, T=T):
            seen["y"], seen["ya"] = np.array(y), args
            return (T @ np.ravel(y)).reshape(xs)
        src = pick(rng, ["seed", "seed", "gen", "none"])
        seed = int(rng.integers(3))
        kw = {"rng": {"seed": seed, "gen": gen, "none": None}[src]}
        if gx is not None:
            kw["x_args"] = gx
        if ys != xs or rng.random() < 0.3:
            kw["y_shape"] = ys
        if gy is not None:
            kw["y_args"] = gy
        bad = pick(rng, [None, None, None, None, None, None, None, "op", "opt"])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = outcome(transpose_test, 3 if bad == "op" else op, "f" if bad == "opt" else opt, xs, **kw)
        ev = {"t": "transpose", "out": res, "callable": bad is None}
        if bad is None and res == "":
            m = re.search(r"=\s*(\S+)\s*$", out.getvalue())
            ev.update(seed=f"seed{seed}" if src == "seed" else "fresh", wantxs=list(xs), wantys=list(ys),
                      xs=list(seen["x"].shape) if "x" in seen else [-1], ys=list(seen["y"].shape) if "y" in seen else [-1],
                      x=vec(seen.get("x", [])), y=vec(seen.get("y", [])),
                      gotargs=[str(seen.get("xa", "?")), str(seen.get("ya", "?"))],
                      wantargs=[str(gx), str(gx if gy is None else gy)],
                      M=mat(M), T=mat(T), report=num(float(m.group(1))) if m else "NaN")
        events.append(ev)
    return events


def plot(rng, root, n):
    import matplotlib.pyplot as plt
    from modopt.plot import cost_plot
    d = os.path.join(root, f"plot{n}")
    os.mkdir(d)
    cwd = os.getcwd()
    os.chdir(d)
    costs = list(np.abs(rng.normal(size=int(pick(rng, [rng.integers(1, 12), rng.integers(100, 300)])))) * 10.0 ** pick(rng, [rng.integers(-3, 5), rng.integers(-25, 25)]) + 1e-30)
    output = pick(rng, [None, "out", "a.b", "run 1"])
    for _ in range(int(rng.integers(0, 3))):
        plt.figure()                       # figures of the caller stay open
    before = len(plt.get_fignums())
    drawn, real = [], plt.Figure.savefig

    def spy(self, *args, **kwargs):
        for ax in self.axes:
            for ln in ax.lines:
                drawn.extend(np.asarray(ln.get_ydata(), dtype=float))
        return real(self, *args, **kwargs)
    out = io.StringIO()
    plt.Figure.savefig = spy
    try:
        with contextlib.redirect_stdout(out):
            res = outcome(cost_plot.plotCost, costs, *([] if output is None else [output]))
    finally:
        plt.Figure.savefig = real
        os.chdir(cwd)
    files = sorted(os.listdir(d))
    png = False
    if files:
        with open(os.path.join(d, files[0]), "rb") as fh:
            png = fh.read(8) == b"\x89PNG\r\n\x1a\n"
    figs = len(plt.get_fignums()) - before
    plt.close("all")
    shutil.rmtree(d)
    return {"t": "plot", "out": res, "output": "none" if output is None else output, "files": files, "png": png,
            "figs": figs, "costs": [num(c) for c in costs], "drawn": [num(v) for v in drawn],
            "told": out.getvalue().strip().split(": ", 1)[-1]}


def run(check):
    rng = rng_for(check)
    thorough = check.tier == "thorough"
    res = common.model_check("MCDiag", constants={"N": "4" if thorough else "3"})
    check.add_model("MCDiag", res)
    behs = res.behaviours()
    check.coverage["behaviours_replayed"] += len(behs)
    root = tempfile.mkdtemp(prefix="vdiag")
    try:
        groups = [[lookup(q, root, n)] for n, q in enumerate(behs)]
        names = [q for q in behs if q["t"] == "file" and q["form"] == "normal"]
        groups += [[lookup(q, root, 10000 + n)] for q in names for n in range(30)]
        direct = [q for q in behs if q["t"] == "exe" and q["form"] == "direct"]
        groups += [[lookup(q, root, 20000 + 37 * k + n)] for k, q in enumerate(direct) for n in range(6)]
        groups += [[plot(rng, root, n)] for n in range(60 if thorough else 15)]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    groups += [[report(rng) for _ in range(4)] for _ in range(400 if thorough else 60)]
    groups += [transposes(rng) for _ in range(3000 if thorough else 300)]
    check.add_traces("TrDiag", [{"id": i + 1, "events": g} for i, g in enumerate(groups)])
