"""C05: observers."""
import numpy as np

import common


class Boom:
    """What the raising observers raise: any kind of exception, interruptions included."""


BOOMS = [type("Boom", (Boom, base), {}) for base in
         (Exception, StopIteration, KeyboardInterrupt, ValueError, RuntimeError, AttributeError, GeneratorExit, KeyError)]


class Holder:
    """An observer that is a bound method: every access makes a new, equal object."""

    def __init__(self, fn):
        self.fn = fn

    def hear(self, signal):
        return self.fn(signal)

    hear.name = "observer"


class Observers:
    """Observers by number; the odd ones are given as bound methods in half of the worlds."""

    def __init__(self, fns, bound):
        self.fns, self.bound = fns, bound
        self.holders = {k: Holder(fn) for k, fn in fns.items()}

    def __getitem__(self, num):
        return self.holders[num].hear if self.bound and num % 2 else self.fns[num]


PAYLOADS = [{"x_new": "obj", "idx": 3, "word": "w"}, {}, {"name": "n", "value": None, "flag": False, "zero": 0},
            {"kwargs": 1, "args": (), "observer": "o", "_x": [1], "self_": 2.5}, {"idx": None}]


class World:
    """A real observable object with numbered observers, driven by operations."""
    made = 0

    def __init__(self, signals, kinds):
        World.made += 1
        self.turn = World.made
        from modopt.base.observable import Observable
        self.obj = Observable(list(signals))
        self.kinds = kinds
        self.calls, self.payload, self.nested = [], True, True
        self.current = None
        self.obs = Observers({i + 1: self._mk(i + 1, k) for i, k in enumerate(kinds)}, self.turn % 2 == 0)

    def _mk(self, num, kind):
        def observer(signal):
            self.calls.append(num)
            sig, kw = self.current
            ok = signal.object is self.obj and signal.signal == sig
            ok = ok and all(getattr(signal, k, self) is v for k, v in kw.items())
            self.payload = self.payload and ok
            if kind == "nest":
                before = list(self.calls)
                res = self.obj.notify_observers(sig)
                self.nested = self.nested and res is False and before == self.calls
            if kind == "once":
                self.obj.remove_observer(sig, self.obs[num])
            if kind == "grow":
                self.obj.add_observer(sig, self.obs[1])
            if kind == "raise":
                raise BOOMS[self.turn % len(BOOMS)]()
        observer.name = "observer"       # a label several observers share does not make them one
        return observer

    def do(self, op):
        self.calls, self.payload, self.nested = [], True, True
        try:
            if op[0] == "add":
                out = self.obj.add_observer(op[1], self.obs[op[2]])
                out = "none" if out is None else "other"
            elif op[0] == "remove":
                out = self.obj.remove_observer(op[1], self.obs[op[2]])
                out = "none" if out is None else "other"
            else:
                self.turn += 1
                kw = dict(PAYLOADS[self.turn % len(PAYLOADS)])
                self.current = (op[1], kw)
                out = self.obj.notify_observers(op[1], **kw)
                out = {True: "true", False: "false", None: "none"}.get(out, "other")
        except BaseException as exc:      # noqa: BLE001
            if not isinstance(exc, (Boom, Exception)):
                raise
            out = "raise" if isinstance(exc, Boom) else type(exc).__name__
        return {"op": list(op), "calls": list(self.calls), "out": out, "payload": self.payload, "nested": self.nested}


def ops(signals, nobs):
    out = []
    for s in signals:
        out.append(f'<<"notify", "{s}">>')
        for o in range(1, nobs + 1):
            out.append(f'<<"add", "{s}", {o}>>')
            out.append(f'<<"remove", "{s}", {o}>>')
    out += ['<<"add", "zz", 1>>', '<<"remove", "zz", 1>>', '<<"notify", "zz">>']
    return "{" + ", ".join(out) + "}"


def run(check):
    thorough = check.tier == "thorough"
    n = 0
    slices = [(("a",), ("plain", "raise", "nest"), 5 if thorough else 4),
              (("a", "b"), ("plain", "nest"), 4 if thorough else 4),
              (("a",), ("plain", "plain", "plain"), 6 if thorough else 4),
              (("a",), ("plain", "once", "once"), 6 if thorough else 4),
              (("a",), ("plain", "grow", "once"), 6 if thorough else 4)]
    for signals, kinds, depth in slices:
        res = common.model_check("MCObserver", constants=dict(
            Signals="{" + ", ".join(f'"{s}"' for s in signals) + "}",
            Kinds="<<" + ", ".join(f'"{k}"' for k in kinds) + ">>", Depth=str(depth), Ops=ops(signals, len(kinds))))
        check.add_model(f"MCObserver{len(signals)}{kinds}", res)
        behs = res.behaviours()
        for hist in behs:
            world = World(signals, kinds)
            n += 1
            for step in hist:
                got = world.do(step["op"])
                want_out = step["out"]
                ok_out = got["out"] == want_out or (want_out == "error" and got["out"] not in ("true", "none"))
                if not (got["payload"] and got["nested"] and got["calls"] in (step["calls"], step["alt"]) and ok_out):
                    check.report(f"{step['op'][0]}: observers called {got['calls']} answer {got['out']}, "
                                 f"expected {step['calls']} {want_out}", {"history": hist, "step": step, "got": got})
                    break
        check.coverage["samples"].append(behs[-1])
    check.replayed(n)
    # long random histories, more observers and signals
    rng = np.random.default_rng([check.seed, 5])
    cases = []
    for i in range(600 if thorough else 150):
        signals = ["sig%d" % k for k in range(int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(5, 30)))]
        kinds = [str(rng.choice(["plain", "plain", "plain", "raise", "nest", "once"])) for _ in range(int(rng.integers(1, 7)))]
        crowd = rng.random() < 0.08
        if crowd:
            signals, kinds = signals[:1], [str(rng.choice(["plain", "plain", "plain", "nest"])) for _ in range(int(rng.integers(15, 70)))]
        if rng.random() < 0.4:
            kinds = ["plain"] + [str(rng.choice([k, "grow"])) for k in kinds]
        world = World(signals, kinds)
        events = []
        for k in rng.permutation(len(kinds)) if crowd else ():
            events.append(world.do(["add", signals[0], int(k) + 1]))
        for _ in range(int(rng.integers(5, 50))):
            sig = str(rng.choice(["zz", "sig", "", "SIG0", "sig0x", "observers"])) if rng.random() < 0.06 else str(rng.choice(signals))
            what = str(rng.choice(["add", "add", "remove", "notify"]))
            op = [what, sig] + ([] if what == "notify" else [int(rng.integers(1, len(kinds) + 1))])
            events.append(world.do(op))
        cases.append({"id": i + 1, "signals": signals, "kinds": kinds, "events": events})
    check.add_traces("TrObserver", cases)
    allowed(check)


def allowed(check):
    from modopt.base.observable import Observable
    obj = Observable(["p", "q"])
    if list(obj.allowed_signals) != ["p", "q"]:
        check.report("allowed signals are not the declared ones", {"got": list(obj.allowed_signals)})
