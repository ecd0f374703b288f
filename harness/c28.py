"""C28: log files (everything happens in a scratch directory)."""
import logging
import os
import re
import shutil
import tempfile

import common
from gen import pick, rng_for
from loopdrv import quiet

LINE = re.compile(r"^.*?((?:ERROR: )?m\d+|The log file has been (?:set-up|closed)\.)$")
TAILS = {3: " na\u00efve \u2192 \u2211", 5: "  100% {} %s \\ ", 7: " " + "long " * 700 + "."}


def text(msg):
    """The message really logged for the specification's message m<k>."""
    for mod, tail in TAILS.items():
        if int(msg[1:]) % mod == 2:
            return msg + tail
    return msg


def known(line):
    """The specification's name for a line of a log file; the line itself when it is none of ours."""
    cut = re.search(r"m(\d+)( .*)?$", line)
    if cut and line.endswith(text("m" + cut.group(1))):
        line = line[:cut.start()] + "m" + cut.group(1)
    elif cut:
        return line
    m = LINE.match(line)
    return m.group(1) if m else line


class World:
    def __init__(self, names, root):
        self.names, self.root = names, root
        self.logs = {}
        self.turn = 0

    def path(self, n):
        return os.path.join(self.root, n + ".log")

    def held(self):
        out = set()
        for fd in os.listdir("/proc/self/fd"):
            try:
                out.add(os.readlink("/proc/self/fd/" + fd))
            except OSError:
                pass
        return out

    def files(self):
        held, out = self.held(), {}
        for n in self.names:
            made = os.path.exists(self.path(n))
            lines = []
            if made:
                with open(self.path(n), errors="replace") as fh:
                    for ln in fh.read().split("\n"):
                        if ln and ln != "NoneType: None":
                            lines.append(known(ln))
            out[n] = {"made": made, "lines": lines, "held": os.path.realpath(self.path(n)) in held}
        return out

    def do(self, op, verbose):
        from modopt.interface import errors, log
        name = op[1]
        try:
            if op[0] == "setup":
                if name in self.logs:       # whatever its user did to the log before setting it up again
                    self.turn += 1
                    self.logs[name].setLevel([logging.DEBUG, logging.ERROR, logging.NOTSET, logging.INFO][self.turn % 4])
                self.logs[name] = log.set_up_log(os.path.join(self.root, name), verbose=verbose)
            elif op[0] == "close":
                log.close_log(self.logs[name], verbose=verbose)
            elif op[0] == "error":
                errors.catch_error(text(op[2]), self.logs[name])
            else:
                getattr(self.logs[name], op[0])(text(op[2]))
            out = "ok"
        except Exception as exc:  # noqa: BLE001
            out = type(exc).__name__
        return {"op": op, "out": out, "files": self.files()}

    def clear(self):
        for n in self.names:
            lg = logging.Logger.manager.loggerDict.pop(self.path(n), None)
            for h in list(getattr(lg, "handlers", [])):
                h.close()
            if os.path.exists(self.path(n)):
                os.unlink(self.path(n))


def run(check):
    rng = rng_for(check)
    thorough = check.tier == "thorough"
    root = os.path.realpath(tempfile.mkdtemp(prefix="vlog"))
    cases = []
    number = [0]

    def play(names, ops, **extra):
        number[0] += 1
        sub = os.path.join(root, "d%d" % number[0])   # loggers are global: never reuse a name
        os.makedirs(os.path.join(sub, "sub"))
        w = World(names, sub)
        try:
            cases.append(dict({"id": len(cases) + 1, "events": [w.do(op, bool(rng.random() < 0.3)) for op in ops]}, **extra))
        finally:
            w.clear()
            shutil.rmtree(sub, ignore_errors=True)
    try:
        with quiet():
            for names, depth in ((("a", "b"), 6 if thorough else 5), (("a",), 8 if thorough else 7)):
                res = common.model_check("MCLog", constants=dict(
                    Names="{" + ", ".join(f'"{n}"' for n in names) + "}", Depth=str(depth)))
                check.add_model(f"MCLog{len(names)}", res)
                behs = res.behaviours()
                check.coverage["behaviours_replayed"] += len(behs)
                for hist in behs:
                    play(list(names), hist)
            # long random histories over more logs and all message levels
            for _ in range(400 if thorough else 80):
                names = list(pick(rng, [["a", "b", "c"], ["a", "sub/a"], ["a.b", "a", "run-1"], ["x y", "x"], ["a", "a.c", "a.c.d"]]))
                made, ops = set(), []
                for k in range(int(rng.integers(5, 40))):
                    n = pick(rng, names)
                    what = pick(rng, ["setup", "close", "info", "info", "debug", "warning", "critical", "error"])
                    if n not in made:
                        what = "setup"
                    made.add(n)
                    ops.append([what, n] + ([] if what in ("setup", "close") else ["m%d" % (k if rng.random() < 0.6 else rng.integers(3))]))
                play(names, ops)
            play(["a", "a.log"], [["setup", "a"], ["setup", "a.log"], ["info", "a.log", "m1"]], finding="log-name-hierarchy")
        check.add_traces("TrLog", cases)
    finally:
        logging.captureWarnings(False)
        shutil.rmtree(root, ignore_errors=True)
