import numpy as np
from base import need, raises, same
import lib
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography import exceptions as ex


def cases(tier, rng):
    while True:
        N, P, B = lib.dims(rng)
        w = lib.rand_wf(rng, P, B)
        if rng.random() < 0.08:
            w = -np.abs(w)
        xp = lib.rand_xp(rng, N, P, B).astype(float) + (rng.random((N, P)) * .99 if rng.random() < .4 else 0)
        yield "create", dict(w=w)
        x2 = xp.copy()
        if rng.random() < 0.5:
            x2[rng.integers(N), rng.integers(P)] = rng.choice([-1., -0.01, B, B + .5, np.nan])
        cols = P + (int(rng.choice([-1, 1])) if rng.random() < 0.15 else 0)
        yield "coords", dict(w=np.abs(w) + .01, xp=np.resize(x2, (N, max(cols, 0))) if cols != P else x2, dy=int(rng.choice([0, 0, 1])))
        yield "run", dict(w=np.abs(w) + .01, xp=np.floor(xp).astype(int), niter=int(rng.integers(1, 6)))


def check_create(w):
    w = np.array(w, float)
    keep = w.copy()
    got = []
    e = raises(lambda: got.append(Tomography(w)), ex.WaterfallReducedToZero)
    c = np.maximum(w, 0)
    need((e is not None) == (not c.any()), f"error {e!r}, positive bins: {bool(c.any())}")
    same(w, keep, "measured waterfall after the call", 0, 0)
    if e is None:
        s = c.sum(axis=1)
        ok = s > 0
        t = got[0]
        same(t.waterfall[ok], c[ok] / s[ok][:, None], "normalised waterfall", 1e-9, 1e-12)
        need(t.waterfall.shape == (t.nprofs, t.nbins) == w.shape, "size")
        need(t.xp is None and t.nparts is None, "coordinates without having been set")


def check_coords(w, xp, dy):
    w, xp = np.array(w, float), np.array(xp, float)
    t = Tomography(w)
    P, B = w.shape
    good = xp.ndim == 2 and xp.shape[1] == P
    inside = bool(((xp >= 0) & (xp < B)).all())

    def put():
        t.xp = xp
    e = raises(put, ex.CoordinateImportError, ex.XPOutOfImageWidthError)
    if not good:
        return need(isinstance(e, ex.CoordinateImportError), f"coordinates of {xp.shape} for {P} profiles: {e!r}")
    if xp.size:
        need((e is None) == inside, f"all coordinates inside of [0, {B}): {inside}, error {e!r}")
        need(e is None or isinstance(e, ex.XPOutOfImageWidthError), f"{e!r}")
    if e is not None:
        return need(t.xp is None, "rejected coordinates were kept")
    same(t.xp, np.floor(xp), "coordinates", 0, 0)
    need(t.nparts == xp.shape[0], "number of particles")
    y = np.zeros((xp.shape[0] + dy, P))
    e = raises(lambda: setattr(t, "yp", y), ex.CoordinateImportError)
    need((e is None) == (dy == 0), f"y coordinates of {y.shape} for x of {xp.shape}: {e!r}")
    same(t._create_flat_points(), np.floor(xp) + B * np.arange(P), "index in the flattened waterfall", 0, 0)
    c = np.zeros((B, P))
    for p in range(P):
        c[:, p] = np.bincount(np.floor(xp[:, p]).astype(int), minlength=B)
    c = np.maximum(c, 1)
    same(t._reciprocal_particles(), c.max() / c, "reciprocal particle count")
    t.xp = None
    need(t.xp is None and t.nparts is None, "coordinates were not removed")
    need(raises(lambda: setattr(t, "xp", 3.0), ex.CoordinateImportError) is not None, "a number was accepted as coordinates")
    need(raises(lambda: setattr(t, "yp", y), ex.CoordinateImportError) is not None, "y coordinates were accepted without x")
    need(raises(lambda: t.run(1), ex.CoordinateError) is not None, "reconstruction without coordinates")


def check_run(w, xp, niter):
    w, xp = np.array(w, float), np.array(xp)
    t = Tomography(w)
    t.xp = xp
    seen = []
    from longitudinal_tomography.cpp_routines import libtomo
    n = t.waterfall.copy()
    ref = []
    e0 = raises(lambda: ref.append(libtomo.reconstruct(np.ascontiguousarray(xp, np.int32), n, niter, w.shape[1], xp.shape[0], w.shape[0], False, None)))
    got = []
    e = raises(lambda: got.append(t.run(niter=niter, callback=lambda a, b: seen.append((a, b)))))
    need((e is None) == (e0 is None), f"error {e!r}, the compiled routine: {e0!r}")
    if e is None:
        same(got[0], ref[0][0], "weights", 1e-9, 1e-9)
        same(t.weight, ref[0][0], "stored weights", 1e-9, 1e-9)
        same(t.diff, ref[0][1], "stored discrepancies", 1e-9, 1e-9)
        same(t.recreated, ref[0][2], "stored recreated profiles", 1e-9, 1e-9)
        need(len(seen) == niter + 1, f"callback called {len(seen)} times for {niter} iterations")
