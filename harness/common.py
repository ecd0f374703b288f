"""Shared machinery: environment, encoding, TLC runs, verdicts, evidence."""
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPO_SRC = "/repo/src"
TLA = "/opt/veriftools/tla"
CP_TLA = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
}


class MachineryError(Exception):
    """Something in the checker itself (not in the code under test) failed."""


def build():
    """Compile the TLC module override (idempotent, safe under concurrency)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "java", "Num.java")
    cls = os.path.join(BUILD, "Num.class")
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
            return
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            res = subprocess.run(
                ["javac", "-nowarn", "-cp", CP_TLA, "-d", tmp, src],
                capture_output=True, text=True)
            if res.returncode:
                raise MachineryError("javac failed: " + res.stderr)
            for name in os.listdir(tmp):
                os.replace(os.path.join(tmp, name), os.path.join(BUILD, name))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = 0
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if m:
            self.states, self.distinct = int(m.group(1)), int(m.group(2))
        self.done = set()
        self.fails = {}
        self.prints = []
        for line in out.splitlines():
            if len(line) > 1 and line[0] == '"' and line[-1] == '"':
                body = line[1:-1]
                if body.startswith("DONE|"):
                    self.done.add(int(body[5:]))
                elif body.startswith("FAIL|"):
                    _, cid, pos, clause = body.split("|", 3)
                    self.fails.setdefault(int(cid), []).append((int(pos), clause))
                else:
                    self.prints.append(body)

    def behaviours(self):
        """JSON values printed by the model with PrintT("BEH " \\o ToJson(..))."""
        return [json.loads(p[4:].replace('\\"', '"')) for p in self.prints if p.startswith("BEH ")]

    @property
    def clean(self):
        return self.rc == 0 and "Model checking completed. No error has been found" in self.out


def tlc(module, cfg=None, env=None, workers="4", timeout=800, extra=(), heap="6g", constants=None):
    """Run TLC on spec/<module>.tla in a scratch metadir; return TLCResult."""
    build()
    scratch = tempfile.mkdtemp(prefix="vtlc")
    try:
        for name in os.listdir(SPEC):
            if name.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, name), scratch)
        cfgname = cfg or module + ".cfg"
        if constants:
            # constants are given as TLA+ expressions, defined in a wrapper module
            with open(os.path.join(scratch, module + "_run.tla"), "w") as fh:
                fh.write(f"---- MODULE {module}_run ----\nEXTENDS {module}\n")
                for key, val in constants.items():
                    fh.write(f"def_{key} == {val}\n")
                fh.write("====\n")
            with open(os.path.join(scratch, cfgname), "a") as fh:
                fh.write("\nCONSTANTS\n")
                for key in constants:
                    fh.write(f"  {key} <- def_{key}\n")
            module += "_run"
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp",
               f"{BUILD}:{CP_TLA}", "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(scratch, "meta"), "-noGenerateSpecTE", "-deadlock",
               "-config", cfgname, *extra, module + ".tla"]
        start = time.time()
        full_env = dict(os.environ)
        full_env.update(env or {})
        proc = subprocess.Popen(cmd, cwd=scratch, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, env=full_env, text=True)
        try:
            out, _ = proc.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.communicate()
            raise MachineryError(f"TLC timed out on {module}") from None
        return TLCResult(out, proc.returncode, time.time() - start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def brief(out):
    """The part of TLC's output worth showing."""
    keep = [ln for ln in out.splitlines() if not ln.startswith(("Parsing file", "Semantic processing", "TLC2 Version",
                                                                "Running breadth", '"'))]
    text = "\n".join(ln[:400] for ln in keep)
    return text if len(text) < 3500 else text[:1500] + "\n...\n" + text[-2000:]


def model_check(module, cfg=None, must_hold=True, **kw):
    """Exhaustively check a design model; a failure there is a machinery error."""
    res = tlc(module, cfg, **kw)
    if not res.clean:
        raise MachineryError(f"model {module}/{cfg} failed:\n" + brief(res.out))
    return res


def simulate(module, num, seed, depth=400, cfg=None, **kw):
    """Random behaviours of a design model, checking its invariants on the way."""
    extra = ("-simulate", f"num={num}", "-seed", str(seed), "-depth", str(depth))
    res = tlc(module, cfg, workers="1", extra=extra, **kw)
    m = re.search(r"(\d+) states checked, (\d+) traces generated", res.out)
    if res.rc or not m:
        raise MachineryError(f"simulation of {module} failed:\n" + brief(res.out))
    res.states = res.distinct = int(m.group(1))
    return res


def validate(module, cases, chunk=4000, **kw):
    """Trace-validate cases; return ({case id: [(event, clause)]}, [TLCResult])."""
    bad, results = {}, []
    for beg in range(0, len(cases), chunk):
        part = cases[beg:beg + chunk]
        fd, path = tempfile.mkstemp(prefix="vcases", suffix=".ndjson")
        try:
            with os.fdopen(fd, "w") as fh:
                for case in part:
                    fh.write(json.dumps(case))
                    fh.write("\n")
            res = tlc(module, env={"CASES": path}, **kw)
        finally:
            os.unlink(path)
        if not res.clean:
            raise MachineryError(f"trace module {module} failed:\n" + brief(res.out))
        ids = {c["id"] for c in part}
        for cid in ids - res.done:
            if cid not in res.fails:
                raise MachineryError(f"{module}: case {cid} has no verdict")
            bad[cid] = res.fails[cid]
        results.append(res)
    return bad, results


# ---------------------------------------------------------------------------
# encoding of values recorded from the code under test

def num(x):
    """Scalar -> string understood by Num.tla."""
    if isinstance(x, complex) or getattr(x, "dtype", None) is not None and x.dtype.kind == "c":
        re_, im = float(x.real), float(x.imag)
        if im == 0:
            return num(re_)
        return num(re_) + "," + num(im)
    x = float(x)
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def vec(a):
    import numpy as np
    return [num(v) for v in np.asarray(a).ravel()]


def arr(a):
    import numpy as np
    a = np.asarray(a)
    return {"shape": [int(s) for s in a.shape], "data": vec(a)}


def mat(a):
    import numpy as np
    return [vec(row) for row in np.asarray(a)]


class CallTimeout(Exception):
    pass


class time_limit:
    """Interrupt a call into the code under test that does not return."""

    def __init__(self, seconds=20):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CallTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def attempt(func, *args, **kwargs):
    """Call into the code under test -> ("ok", value) or ("raise", class name)."""
    try:
        with time_limit():
            return "ok", func(*args, **kwargs)
    except CallTimeout:
        return "raise", "Timeout"
    except Exception as exc:  # noqa: BLE001  (whatever the code raises is an observation)
        return "raise", type(exc).__name__


def attempt_fast(func, *args, **kwargs):
    """As attempt, without the alarm (for calls that cannot loop)."""
    try:
        return "ok", func(*args, **kwargs)
    except Exception as exc:  # noqa: BLE001
        return "raise", type(exc).__name__


# ---------------------------------------------------------------------------
# verdicts and evidence

class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.start = time.time()
        self.violations = []
        self.known = []
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                         "samples": [], "models": {}, "behaviours_replayed": 0}
        self.assumptions = []
        path = os.path.join(VERIF, "known-findings.json")
        with open(path) as fh:
            self.findings = [f for f in json.load(fh)["known"] if f["property"] == prop]

    def add_model(self, name, res):
        self.coverage["states"] += res.distinct
        self.coverage["transitions"] += res.states
        self.coverage["models"][name] = {
            "distinct_states": res.distinct, "transitions": res.states, "wall_s": round(res.wall, 2)}

    def add_traces(self, module, cases, key="traces", **kw):
        """Validate recorded cases with TLC and collect the violations."""
        if not cases:
            return
        bad, results = validate(module, cases, **kw)
        self.coverage["traces_validated_against_impl"] += len(cases)
        self.coverage.setdefault("trace_events", 0)
        self.coverage["trace_events"] += sum(len(c["events"]) for c in cases)
        for res in results:
            self.coverage["states"] += res.distinct
            self.coverage["transitions"] += res.states
        if len(self.coverage["samples"]) < 3:
            self.coverage["samples"].append(shorten(cases[len(cases) // 2]))
        byid = {c["id"]: c for c in cases}
        for cid, fails in sorted(bad.items()):
            pos, clause = max(fails)
            self.report(clause, {"module": module, "case": byid[cid], "event": pos, "clause": clause})

    def replayed(self, n):
        """Behaviours of a model replayed into the code and compared with it on the spot."""
        self.coverage["behaviours_replayed"] += n
        self.coverage["traces_validated_against_impl"] += n

    def report(self, clause, detail):
        """Record a violation unless a committed known finding identifies it."""
        tag = (detail.get("case") or detail).get("finding") if isinstance(detail, dict) else None
        for f in self.findings:
            if tag is not None and tag == f["key"] and clause in f["clauses"]:
                if f["key"] not in self.known:
                    self.known.append(f["key"])
                return
        self.violations.append((clause, detail))

    def finish(self):
        wall = time.time() - self.start
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for f in self.findings:
            if f["key"] in self.known:
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if self.violations:
            path = os.path.join(VERIF, "evidence", self.prop + ".violation.json")
            with open(path, "w") as fh:
                kept, count = [], {}
                for c, d in self.violations:
                    count[c] = count.get(c, 0) + 1
                    if count[c] <= 4 and len(kept) < 40:
                        kept.append({"clause": c, "detail": d})
                json.dump(kept, fh, indent=1, default=str)
            seen = []
            for clause, detail in self.violations:
                if clause not in seen:
                    seen.append(clause)
            for clause in seen[:10]:
                print(f"  violated clause: {clause}")
            print(f"{len(self.violations)} failing case(s)")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        c = self.coverage
        print(f"{self.prop} held: {c['states']} states, {c['traces_validated_against_impl']} traces, "
              f"{c['behaviours_replayed']} replayed behaviours, {wall:.1f} s")
        return 0


def shorten(obj, depth=0):
    if isinstance(obj, dict):
        return {k: shorten(v, depth + 1) for k, v in list(obj.items())[:14]}
    if isinstance(obj, (list, tuple)):
        out = [shorten(v, depth + 1) for v in obj[:6]]
        if len(obj) > 6:
            out.append("...")
        return out
    return obj


def _copy(obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return np.array([_copy(o) for o in obj.ravel()] + [None], dtype=object)[:-1].reshape(obj.shape) \
                if all(not isinstance(o, np.ndarray) for o in obj.ravel()) else [_copy(o) for o in obj]
        return obj.copy()
    if isinstance(obj, (list, tuple)):
        return [_copy(o) for o in obj]
    if isinstance(obj, dict):
        return {k: _copy(v) for k, v in obj.items()}
    return obj


def _same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(b, list) or (isinstance(a, np.ndarray) and a.dtype == object):
            return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
                and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_same(v, b[k]) for k, v in a.items())
    if callable(a):
        return True
    try:
        return bool(a == b) or a is b or (a != a and b != b)
    except Exception:
        return True


def encode_out(val):
    """Result of a call -> event field."""
    import numpy as np
    if isinstance(val, np.ndarray) and val.dtype != object:
        return {"k": "ok", "v": arr(val), "dt": val.dtype.name}
    if isinstance(val, (int, float, complex, np.number, np.bool_)):
        return {"k": "ok", "v": {"shape": [], "data": [num(val)]}, "dt": type(val).__name__}
    if val is None:
        return {"k": "none"}
    return {"k": type(val).__name__}


def call_event(name, enc, func, *args, rtol="1e-10", atol="1e-12", enc_out=encode_out, **kwargs):
    """Call the code under test and record the call as an event."""
    before = (_copy(list(args)), _copy(kwargs))
    kind, val = attempt(func, *args, **kwargs)
    if kind == "ok":
        try:
            out = enc_out(val)
        except Exception as exc:
            out = {"k": "unencodable " + type(exc).__name__}
    else:
        out = {"k": "raise", "e": val}
    mut = not (_same(list(args), before[0]) and _same(kwargs, before[1]))
    return {"fn": name, "a": enc, "out": out, "mut": mut, "rtol": rtol, "atol": atol}


def mkcases(events, **extra):
    """One single-event case per recorded call."""
    return [dict({"id": i + 1, "events": [ev]}, **extra) for i, ev in enumerate(events)]
