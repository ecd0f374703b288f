"""Stand-in for the external mr_transform executable (no third-party imports).

usage: mr_transform [-n SCALES] [-u UNIFORM] [-m MODE] [-g GATE] IN.fits OUT.mr
Writes SCALES planes derived from the input, and records what it was given.
"""
import json
import os
import struct
import sys
import time

FMT = {8: "B", 16: "h", 32: "i", 64: "q", -32: "f", -64: "d"}


def read(path):
    raw = open(path, "rb").read()
    head, pos, done = {}, 0, False
    while not done:
        block = raw[pos:pos + 2880]
        pos += 2880
        for k in range(0, 2880, 80):
            card = block[k:k + 80].decode("ascii")
            if card.startswith("END"):
                done = True
                break
            if card[8] == "=":
                head[card[:8].strip()] = card[10:].split("/")[0].strip()
    shape = [int(head["NAXIS%d" % i]) for i in range(int(head["NAXIS"]), 0, -1)]
    n = 1
    for s in shape:
        n *= s
    fmt = FMT[int(head["BITPIX"])]
    vals = struct.unpack(">%d%s" % (n, fmt), raw[pos:pos + n * struct.calcsize(fmt)])
    zero = float(head.get("BZERO", 0))
    return shape, [v + zero if zero else v for v in vals]


def write(path, shape, vals):
    cards = ["SIMPLE  =                    T", "BITPIX  =                  -64", "NAXIS   = %20d" % len(shape)]
    cards += ["NAXIS%d  = %20d" % (i + 1, s) for i, s in enumerate(reversed(shape))]
    cards.append("END")
    head = "".join(c.ljust(80) for c in cards)
    head += " " * (-len(head) % 2880)
    data = struct.pack(">%dd" % len(vals), *vals)
    with open(path, "wb") as fh:
        fh.write(head.encode("ascii") + data + b"\0" * (-len(data) % 2880))


def planes(shape, vals, scales, uniform=False):
    """Plane k: neighbours within k pixels of each impulse, k+1 times the input at its centre."""
    r, c = shape
    out = []
    for p in range(scales):
        k = 2 if uniform else p
        for i in range(r):
            for j in range(c):
                t = (p + 1) * vals[i * c + j]
                if k and i >= 1:
                    t += 2 * vals[(i - 1) * c + j]
                if k > 1 and j >= k - 1:
                    t -= 3 * vals[i * c + j - k + 1]
                out.append(float(t))
    return out


def main():
    args, opts = sys.argv[1:], {"-n": "4", "-m": "ok", "-g": ""}
    given = args[:-2]
    for k in range(0, len(given) - 1, 2):
        opts[given[k]] = given[k + 1]
    inp, outp = args[-2:]
    shape, vals = read(inp)
    log = os.environ["FAKE_MR_LOG"]
    gate = opts["-g"]
    out = planes(shape, vals, int(opts["-n"]), "-u" in opts)
    if "-f" in opts:                     # faint wings: every pixel next to a corner is tiny, but not zero
        for p in range(0, len(out), shape[0] * shape[1]):
            out[p + shape[1] * int(opts["-f"]) % (shape[0] * shape[1])] += 1e-12
    with open(os.path.join(log, "call%s.tmp" % gate), "w") as fh:
        json.dump({"options": given, "in": inp, "out": outp, "shape": shape, "data": vals,
                   "planes": out, "scales": int(opts["-n"])}, fh)
    os.rename(os.path.join(log, "call%s.tmp" % gate), os.path.join(log, "call%s.json" % gate))
    if gate:
        for _ in range(4000):
            if os.path.exists(os.path.join(log, "go" + gate)):
                break
            time.sleep(0.005)
    mode = opts["-m"]
    if mode in ("ok", "noisy", "late", "stderr"):
        write(outp, [int(opts["-n"])] + shape, out)
    if mode == "late":
        print("Error: something went wrong after writing")
    elif mode == "noisy":
        chatter = ["done", "no errors found", "ERRORS: 0", "quality: not BAD", "sorry for the wait"]
        print("Starting transform\nsize %d x %d" % tuple(shape))
        print(chatter[(int(opts["-n"]) + shape[0] + shape[1]) % 5])
    elif mode in ("bad", "Error", "Sorry"):
        forms = ["mr_transform: %s option", "option: %s", "%s", "%s\nmore", "a line of the banner\n" * 60 + "%s\n" + "more " * 200]
        print(forms[(int(opts["-n"]) + shape[0]) % 5] % mode)
    elif mode == "stderr":
        sys.stderr.write("a message on the other channel\n")
    sys.exit({"fail": 3}.get(mode, 0))


main()
