import numpy as np
from base import need, raises, same
import lib
from lib import libtomo


def cases(tier, rng):
    while True:
        npart, nprof, nbins = lib.dims(rng, True)
        niter = int(rng.integers(0, 7)) if rng.random() < 0.9 else int(rng.integers(7, 25))
        xp = lib.rand_xp(rng, npart, nprof, nbins)
        P = lib.rand_wf(rng, nprof, nbins)
        yield "reconstruct", dict(xp=xp, wf=P, niter=niter, single=bool(rng.random() < 0.15), threads=int(rng.integers(1, 9)))
        yield "object", dict(xp=xp, wf=P, niter=niter)
        yield "parts", dict(xp=xp, wf=P, w=rng.random(npart), threads=int(rng.integers(1, 9)))
        if rng.random() < 0.3:
            yield "hybrid", dict(xp=xp, wf=P, niter=niter)


def compare(got, ref, single=False):
    w, d, r = got
    W, R, D, margin, stuck = ref
    rt, at = (2e-2, 2e-3) if single else (1e-7, 1e-9)
    same(w, W, "weights", rt, at * max(1, np.abs(W).max(initial=0)))
    same(r, R, "recreated waterfall", rt, at)
    same(d, D, "discrepancy", rt, at)


def check_reconstruct(xp, wf, niter, single, threads):
    xp, wf = np.array(xp, dtype=np.int32), np.array(wf, dtype=np.float32 if single else np.float64)
    libtomo.set_num_threads(threads)
    niter = min(niter, 5) if single else niter
    ref = lib.iteration(xp, wf.astype(float), niter, single)
    calls = []
    run = lambda: got.append(libtomo.reconstruct(xp, wf, niter, wf.shape[1], xp.shape[0], wf.shape[0], False, lambda i, n: calls.append((i, n))))
    got = []
    keep = xp.copy(), wf.copy()
    e = raises(run)
    same(xp, keep[0], "the coordinates handed in")
    same(wf, keep[1], "the waterfall handed in")
    if ref[3] < 1e-6 or single and ref[3] < 1e-3:
        return
    if ref[4]:
        need(e is not None, "no weight is left, but no error is raised")
        return
    need(e is None, f"raises {e!r} although weight is left")
    compare(got[0], ref, single)
    need(calls == [(k + 1, niter) for k in range(niter)] + [(niter, niter)], f"progress callbacks {calls} for {niter} iterations")


def check_object(xp, wf, niter):
    from longitudinal_tomography.tomography.tomography import Tomography
    wf = np.array(wf)
    pos = wf.clip(0)
    if (pos.sum(axis=1) <= 0).any():
        return
    P = pos / pos.sum(axis=1)[:, None]
    t = Tomography(wf, np.array(xp))
    ref = lib.iteration(xp, P, niter)
    got = []
    e = raises(lambda: got.append(t.run(niter)))
    if ref[3] < 1e-6:
        return
    if ref[4]:
        need(e is not None, "no weight is left, but no error is raised")
        return
    need(e is None, f"raises {e!r} although weight is left")
    compare((got[0], t.diff, t.recreated), ref)
    same(t.weight, got[0], "weight attribute")


def check_hybrid(xp, wf, niter):
    from longitudinal_tomography.tomography.tomography import Tomography
    wf = np.array(wf)
    pos = wf.clip(0)
    if (pos.sum(axis=1) <= 0).any():
        return
    P = pos / pos.sum(axis=1)[:, None]
    ref = lib.iteration(xp, P, niter)
    if ref[4] or ref[3] < 1e-6:
        return
    t = Tomography(wf, np.array(xp))
    w = t.run_hybrid(niter)
    compare((w, t.diff, t.recreated), ref)


def check_parts(xp, wf, w, threads):
    xp, wf, w = np.array(xp, dtype=np.int32), np.array(wf, float), np.array(w, float)
    libtomo.set_num_threads(threads)
    nprof, nbins = wf.shape
    fp = lib.flat(xp, nbins).astype(np.int32)
    same(libtomo.back_project(w.copy(), fp, wf.ravel(), len(w), nprof), w + wf.ravel()[fp].sum(axis=1), "back_project")
    Q = np.bincount(fp.ravel(), weights=np.repeat(w, nprof), minlength=nprof * nbins).reshape(nprof, nbins)
    same(np.asarray(libtomo.project(wf.copy(), fp, w, len(w), nprof, nbins)).reshape(nprof, nbins), wf + Q, "project")
    c = lib.counts(fp, nprof * nbins)
    same(np.asarray(libtomo.count_particles_in_bins(wf.copy(), xp, nprof, len(w), nbins)).ravel(), wf.ravel() + c, "count_particles_in_bins")
