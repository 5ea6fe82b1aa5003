import numpy as np
from base import need, raises, same
import lib
from lib import libtomo
from rt_p02 import rand_bunches


def cases(tier, rng):
    while True:
        npart, nprof, nbins = lib.dims(rng, True)
        xp = lib.rand_xp(rng, npart, nprof, nbins)
        d = dict(xp=xp, wf=lib.rand_wf(rng, nprof, nbins), niter=int(rng.integers(0, 8)), threads=int(rng.integers(1, 9))) | rand_bunches(rng, xp, nbins)
        yield "multi", d | dict(single=bool(rng.random() < 0.1))
        d.pop("threads")
        yield "object", d
        if rng.random() < 0.3:
            yield "one", {k: d[k] for k in ("xp", "wf", "niter")}


def check_multi(xp, wf, niter, centers, cl, cr, threads, single):
    xp, wf = np.array(xp, np.int32), np.array(wf, np.float32 if single else float)
    libtomo.set_num_threads(threads)
    niter = min(niter, 5) if single else niter
    ref = lib.iteration_multi(xp, wf.astype(float), cl, cr, centers, niter, single)
    got, calls = [], []
    e = raises(lambda: got.append(libtomo.reconstruct_multi(xp, wf, np.array(cl), np.array(cr), np.array(centers), niter, wf.shape[1],
                                                           len(xp), wf.shape[0], len(centers), False, lambda i, n: calls.append((i, n)))))
    compare(e, got, ref, single)
    if e is None:
        need(calls == [(k + 1, niter) for k in range(niter)] + [(niter, niter)], f"progress callbacks {calls} for {niter} iterations")


def compare(e, got, ref, single):
    W, R, D, DS, margin, stuck = ref
    if margin < (1e-3 if single else 1e-6):
        return
    if stuck:
        need(e is not None, "no weight is left, but no error is raised")
        return
    need(e is None, f"raises {e!r} although weight is left")
    w, d, ds, r = got[0]
    rt, at = (2e-2, 2e-3) if single else (1e-7, 1e-9)
    same(w, W, "weights", rt, at * max(1, np.abs(W).max(initial=0)))
    same(r, R, "recreated waterfall", rt, at)
    same(d, D, "discrepancy", rt, at)
    same(np.asarray(ds).ravel(), np.asarray(DS).ravel(), "discrepancy per bunch", rt, at)


def check_object(xp, wf, niter, centers, cl, cr):
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography
    wf = np.array(wf)
    pos = wf.clip(0)
    if (pos.sum(axis=1) <= 0).any():
        return
    P = pos / pos.sum(axis=1)[:, None]
    t = Tomography(wf, np.array(xp))
    ref = lib.iteration_multi(xp, P, cl, cr, centers, niter)
    e = raises(lambda: t.run(list(centers), list(cl), list(cr), niter))
    compare(e, [] if e is not None else [(t.weight_combined, t.diff, np.asarray(t.diff_split).T, t.recreated)], ref, False)
    if e is None:
        same(np.array(t.weight_split).reshape(len(centers), -1), np.asarray(t.weight_combined).reshape(len(centers), -1), "weights per bunch")


def check_one(xp, wf, niter):
    """one bunch at center 0 with the whole image as window: the single-bunch result"""
    xp, wf = np.array(xp, np.int32), np.array(wf, float)
    a, b = [], []
    e = raises(lambda: a.append(libtomo.reconstruct(xp, wf, niter, wf.shape[1], len(xp), wf.shape[0])))
    f = raises(lambda: b.append(libtomo.reconstruct_multi(xp, wf, np.array([0]), np.array([wf.shape[1]]), np.array([0]), niter, wf.shape[1], len(xp), wf.shape[0], 1)))
    need((e is None) == (f is None) or lib.iteration(xp, wf, niter)[3] < 1e-6, f"single bunch: {e!r}, multi bunch with one bunch: {f!r}")
    if e is None and f is None:
        same(b[0][0], a[0][0], "weights", 1e-6, 1e-9)
        same(b[0][3], a[0][2], "recreated", 1e-6, 1e-9)
        same(b[0][1], a[0][1], "discrepancies", 1e-6, 1e-9)
