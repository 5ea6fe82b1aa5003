import numpy as np
from base import need, same
from longitudinal_tomography.data import pre_process, data_treatment


def cases(tier, rng):
    while True:
        P, rbn = int(rng.integers(1, 5)), int(rng.integers(1, 7))
        q, r = int(rng.integers(1, 6)), int(rng.integers(0, rbn))
        if rng.random() < 0.5:
            r = 0
        B = q * rbn + r
        yield "rebin", dict(w=rng.normal(0, 1, (P, B)), rbn=rbn, dt=float(rng.random() + .1), x=float(rng.normal(5, 3)), nox=bool(rng.random() < .3), via=bool(rng.random() < .3),
                            ints=bool(rng.random() < 0.15))


def check_rebin(w, rbn, dt, x, nox, via, ints):
    w = np.array(w, float)
    if ints:
        w = np.rint(w * 10).astype(int)
    keep = w.copy()
    f = data_treatment.rebin if via else pre_process.rebin
    r = f(w, rbn, dt, None if nox else x)
    need(len(r) == (2 if nox else 3), f"{len(r)} results")
    P, B = w.shape
    q = B // rbn
    ref = w[:, :q * rbn].reshape(P, q, rbn).sum(axis=2)
    if B % rbn:
        i0 = (q - 1) * rbn
        ref = np.concatenate([ref, w[:, i0:].sum(axis=1, keepdims=True) * rbn / (B - i0)], axis=1)
    same(r[0], ref, "rebinned waterfall", 1e-9, 1e-9)
    same(r[1], dt * rbn, "bin width")
    if not nox:
        same(r[2], x / rbn, "synchronous particle")
    same(w, keep, "waterfall after the call", 0, 0)
