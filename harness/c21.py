"""C21: layout transforms are exact index maps."""
import itertools

import numpy as np

import common
from common import arr, call_event, mkcases
from gen import layout as relayout
from gen import rng_for


def run(check):
    thorough = check.tier == "thorough"
    check.add_model("MCTransform", common.model_check("MCTransform", constants={"B": 4 if thorough else 3}))
    from modopt.base import np_adjust, transform

    rng = rng_for(check)
    bound = 4 if thorough else 3
    events = []

    def data(shape):
        n = int(np.prod(shape))
        a = rng.permutation(np.arange(1, n + 1)).reshape(shape) - n // 2
        k = int(rng.integers(7))
        a = [a, a.astype(float) + 0.25, a.astype(np.float32) - 0.5, a + 1j * a[::-1] + 0.5,
             a.astype(np.int32), a.astype(float) * 1e17 + 0.125, a * 0.125][k]
        return relayout(rng, a)

    def call(name, func, x, *args, **enc):
        ev = call_event(name, dict({"x": arr(x)}, **enc), func, x, *args)
        ev["dt"] = x.dtype.name
        events.append(ev)

    def lay(seq):
        return [tuple, list, np.array][int(rng.integers(3))](seq)

    rep = 4 if thorough else 1
    for _ in range(rep):
        for h, w, a, b in itertools.product(range(1, bound + 1), repeat=4):
            enc = [a, b]
            call("cube2map", transform.cube2map, data((a * b, h, w)), lay((a, b)), layout=enc)
            call("map2cube", transform.map2cube, data((a * h, b * w)), lay((a, b)), layout=enc)
            call("map2matrix", transform.map2matrix, data((a * h, b * h)), lay((a, b)), layout=enc)
            call("matrix2map", transform.matrix2map, data((h * h, a * b)), lay((a * h, b * h)),
                 layout=[a * h, b * h])
            if a * b > 1:
                call("matrix2map", transform.matrix2map, data((h * h, int(rng.integers(1, a * b)))), lay((a * h, b * h)),
                     layout=[a * h, b * h])
            # layouts that do not fit are refused
            call("cube2map", transform.cube2map, data((a * b + 1, h, w)), (a, b), layout=enc)
            call("map2cube", transform.map2cube, data((a * h + 1, b * w)), (a, b), layout=enc)
            call("map2cube", transform.map2cube, data((a * h, b * w + 1)), (a, b), layout=enc)
            call("map2cube", transform.map2cube, data((a * h + 1, b * w + 1)), (a, b), layout=enc)
        for nd in (2, 3, 4):
            for sh in itertools.product(range(1, 4), repeat=nd):
                x = data(sh)
                call("cube2matrix", transform.cube2matrix, x)
                m = data((int(np.prod(sh[1:])), sh[0]))
                call("matrix2cube", transform.matrix2cube, m, lay(sh[1:]), layout=list(sh[1:]))
                call("ftr", np_adjust.ftr, x, roll=1)
                call("ftl", np_adjust.ftl, x, roll=-1)
                r = int(rng.integers(-5, 6))
                call("fancy_transpose", np_adjust.fancy_transpose, x, r, roll=r)
                if nd == 2:
                    call("cube2map", transform.cube2map, x, (1, sh[0]), layout=[1, sh[0]])
                    call("rotate", np_adjust.rotate, x)
                    p = [int(rng.integers(0, 4)), int(rng.integers(0, 4))]
                    call("pad2d", np_adjust.pad2d, x, lay(p), layout=p, badpad=False)
                    call("pad2d", np_adjust.pad2d, x, p[0], layout=[p[0], p[0]], badpad=False)
                    call("pad2d", np_adjust.pad2d, x, lay([p[0]]), layout=[p[0], p[0]], badpad=False)
                    call("pad2d", np_adjust.pad2d, x, [1.5, "1", None][int(rng.integers(3))],
                         layout=[0, 0], badpad=True)
                if nd == 3:
                    call("rotate_stack", np_adjust.rotate_stack, x)
                if nd == 4:
                    call("cube2map", transform.cube2map, x, (1, sh[0]), layout=[1, sh[0]])
    # larger, non-square and prime sizes
    for _ in range(40 * rep):
        h, w, a, b = (int(v) for v in rng.integers(1, 8, size=4))
        call("cube2map", transform.cube2map, data((a * b, h, w)), (a, b), layout=[a, b])
        call("map2cube", transform.map2cube, data((a * h, b * w)), (a, b), layout=[a, b])
        call("map2matrix", transform.map2matrix, data((a * h, b * h)), (a, b), layout=[a, b])
        call("matrix2map", transform.matrix2map, data((h * h, a * b)), (a * h, b * h), layout=[a * h, b * h])
    for _ in range(15 * rep):
        x = data((int(rng.integers(1, 5)), int(rng.integers(1, 5))))
        p = [int(v) for v in rng.integers(0, 16, size=2)]
        call("pad2d", np_adjust.pad2d, x, lay(p), layout=p, badpad=False)
        call("pad2d", np_adjust.pad2d, x, p[0], layout=[p[0], p[0]], badpad=False)
        sh = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(4, 7))))
        x = data(sh)
        for name, r in (("ftr", 1), ("ftl", -1)):
            call(name, getattr(np_adjust, name), x, roll=r)
        r = int(rng.integers(-20, 21))
        call("fancy_transpose", np_adjust.fancy_transpose, x, r, roll=r)
        call("cube2matrix", transform.cube2matrix, x)
        call("rotate_stack", np_adjust.rotate_stack, data((int(rng.integers(1, 14)),) + (int(rng.integers(1, 9)),) * 2))
    # sizes of real images
    for h in (16, 23, 47, 64) if rep == 1 else (16, 23, 31, 46, 47, 48, 61, 64, 97):
        call("matrix2map", transform.matrix2map, data((h * h, 2)), (h, 2 * h), layout=[h, 2 * h])
        call("map2matrix", transform.map2matrix, data((2 * h, h)), (2, 1), layout=[2, 1])
        call("cube2map", transform.cube2map, data((2, h, h)), (2, 1), layout=[2, 1])
        call("map2cube", transform.map2cube, data((h, 2 * h)), (1, 2), layout=[1, 2])
        call("cube2matrix", transform.cube2matrix, data((2, h, h)))
        call("matrix2cube", transform.matrix2cube, data((h * h, 2)), (h, h), layout=[h, h])
        call("rotate", np_adjust.rotate, data((h, h)))
        call("cube2map", transform.cube2map, data((h, 2, 1)), (h, 1), layout=[h, 1])
        call("map2cube", transform.map2cube, data((2, h)), (1, h), layout=[1, h])
    check.add_traces("TrLayout", mkcases(events))
    check.coverage["calls"] = len(events)
    check.assumptions.append("layout functions are parametric in the element values")
