import numpy as np
from base import need, raises, same
from longitudinal_tomography.data import pre_process


def cases(tier, rng):
    while True:
        P, B = int(rng.integers(1, 5)), int(rng.integers(1, 9))
        yield "cut", dict(w=rng.normal(0, 1, (P, B)), left=int(rng.integers(-2, B + 2)), right=int(rng.integers(-B - 2, B + 3)), as_list=bool(rng.random() < .3))


def check_cut(w, left, right, as_list):
    a = np.array(w, float)
    arg = a.tolist() if as_list else a.copy()
    got = []
    e = raises(lambda: got.append(pre_process.cut_waterfall(arg, left, right)), ValueError)
    P, B = a.shape
    r = right + B if right < 0 else right
    valid = 0 <= left < r <= B
    need((e is None) == valid, f"cuts {left}, {right} of {B} bins valid: {valid}, error {e!r}")
    if valid:
        same(got[0], a[:, left:r], "cut waterfall", 0, 0)
    same(np.asarray(arg), a, "waterfall after the call", 0, 0)
