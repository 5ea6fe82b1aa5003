import numpy as np
from base import need, raises, same
import lib
from lib import libtomo


def cases(tier, rng):
    while True:
        npart, nprof, nbins = lib.dims(rng, True)
        niter = int(rng.integers(0, 12))
        d = dict(xp=lib.rand_xp(rng, npart, nprof, nbins), wf=lib.rand_wf(rng, nprof, nbins) * 10.0 ** int(rng.integers(-2, 3)), niter=niter)
        yield "single", d
        yield "object", d
        yield "multi", d | rand_bunches(rng, d["xp"], nbins)
        if rng.random() < 0.2:
            yield "single", d | dict(wf=-np.abs(d["wf"]))


def rand_bunches(rng, xp, nbins):
    xp = np.asarray(xp)
    nc = int(rng.integers(1, 4))
    lo, hi = -int(xp.min(initial=0)), nbins - 1 - int(xp.max(initial=0))
    centers = rng.integers(lo, hi + 1, nc)
    cl = rng.integers(0, nbins, nc)
    cr = np.array([int(rng.integers(a + 1, nbins + 1)) for a in cl])
    if rng.random() < 0.5:
        cl, cr = np.zeros(nc, int), np.full(nc, nbins)
    return dict(centers=centers, cl=cl, cr=cr)


def valid(w, d, r, nw, shape, niter):
    w, d, r = np.asarray(w), np.asarray(d), np.asarray(r)
    need(w.shape == (nw,), f"{w.shape} weights for {nw} particles")
    need(d.shape == (niter + 1,), f"{d.shape} discrepancies for {niter} iterations")
    need(r.shape == tuple(shape), f"recreated waterfall of shape {r.shape}")
    need(np.isfinite(w).all() and (w >= 0).all(), f"weights {w}")
    need(np.isfinite(d).all() and (d >= 0).all(), f"discrepancies {d}")
    need(np.isfinite(r).all() and (r >= 0).all(), f"recreated waterfall {r}")
    same(r.sum(axis=1), np.ones(shape[0]), "sum of recreated profile", 1e-6, 1e-6)


def check_single(xp, wf, niter):
    xp, wf = np.array(xp, np.int32), np.array(wf, float)
    got = []
    e = raises(lambda: got.append(libtomo.reconstruct(xp, wf, niter, wf.shape[1], len(xp), wf.shape[0])))
    if e is None:
        valid(got[0][0], got[0][1], got[0][2], len(xp), wf.shape, niter)
    ref = lib.iteration(xp, wf, 0)
    if ref[4] and ref[3] > 1e-6:
        need(e is not None, "no error although the measured profiles give no weight at all")


def check_object(xp, wf, niter):
    from longitudinal_tomography.tomography.tomography import Tomography
    wf = np.array(wf)
    if (wf.clip(0).sum(axis=1) <= 0).any():
        return
    t = Tomography(wf, np.array(xp))
    if raises(lambda: t.run(niter)) is None:
        valid(t.weight, t.diff, t.recreated, len(xp), wf.shape, niter)


def check_multi(xp, wf, niter, centers, cl, cr):
    xp, wf = np.array(xp, np.int32), np.array(wf, float)
    got = []
    nc = len(centers)
    e = raises(lambda: got.append(libtomo.reconstruct_multi(xp, wf, np.array(cl), np.array(cr), np.array(centers), niter, wf.shape[1], len(xp), wf.shape[0], nc)))
    if e is None:
        w, d, ds, r = got[0]
        valid(w, d, r, len(xp) * nc, wf.shape, niter)
        need(np.shape(ds) == ((niter + 1) * nc,) and np.isfinite(ds).all() and (np.asarray(ds) >= 0).all(), f"discrepancies per bunch {ds}")
