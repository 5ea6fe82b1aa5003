import numpy as np
from base import need, raises, same
import lib
from lib import libtomo
from rt_p02 import rand_bunches
from rt_p03 import program, unpack


def cases(tier, rng):
    while True:
        big = rng.random() < 0.5
        npart, nprof, nbins = (int(rng.integers(500, 3000)), int(rng.integers(2, 10)), int(rng.integers(3, 30))) if big else lib.dims(rng)
        xp = lib.rand_xp(rng, npart, nprof, nbins)
        if rng.random() < 0.3:
            xp = np.minimum(xp, min(1, nbins - 1))
        wf = np.abs(lib.rand_wf(rng, nprof, nbins)) + 0.01
        seed = int(rng.integers(1 << 30))
        yield "rec", dict(seed=seed, npart=npart, nprof=nprof, nbins=nbins, threads=int(rng.integers(2, 17)))
        yield "kd", program(rng) | dict(threads=int(rng.integers(2, 17)), copies=int(rng.integers(1, 400)))


def both(threads, fn, what):
    libtomo.set_num_threads(1)
    a = fn()
    for rep in range(3):
        libtomo.set_num_threads(threads)
        b = fn()
        need((a is None) == (b is None), f"{what}: error with one number of threads only")
        if a is None:
            continue
        for i, (x, y) in enumerate(zip(a, b)):
            same(y, x, f"{what}: output {i} with {threads} threads", 1e-8, 1e-10)


def tryit(f):
    r = []
    return r[0] if raises(lambda: r.append(f())) is None else None


def check_rec(seed, npart, nprof, nbins, threads):
    rng = np.random.default_rng(seed)
    xp = lib.rand_xp(rng, npart, nprof, nbins).astype(np.int32)
    wf = np.abs(lib.rand_wf(rng, nprof, nbins)) + 0.01
    b = rand_bunches(rng, xp, nbins)
    niter = int(rng.integers(0, 4))
    both(threads, lambda: tryit(lambda: libtomo.reconstruct(xp, wf, niter, nbins, npart, nprof)), "reconstruct")
    both(threads, lambda: tryit(lambda: libtomo.reconstruct_multi(xp, wf, b["cl"], b["cr"], b["centers"], niter, nbins, npart, nprof, len(b["cl"]))), "reconstruct_multi")
    w = rng.random(npart)
    fp = lib.flat(xp, nbins).astype(np.int32)
    both(threads, lambda: [libtomo.back_project(w.copy(), fp, wf.ravel(), npart, nprof)], "back_project")
    both(threads, lambda: [libtomo.project(np.zeros((nprof, nbins)), fp, w, npart, nprof, nbins)], "project")
    both(threads, lambda: [libtomo.count_particles_in_bins(np.zeros((nprof, nbins)), xp, nprof, npart, nbins)], "count_particles_in_bins")
    both(threads, lambda: [libtomo.count_particles_in_bins_multi(np.zeros((nprof, nbins)), xp, b["centers"], nprof, npart, nbins, len(b["cl"]))], "count_particles_in_bins_multi")


def check_kd(threads, copies, **k):
    k = unpack(k)
    k["dphi"] = np.tile(k["dphi"], copies)
    k["den"] = np.tile(k["den"], copies)
    n, nt = len(k["dphi"]), (k["nprof"] - 1) * k["dturns"]

    def go():
        xp, yp = np.zeros((k["nprof"], n)), np.zeros((k["nprof"], n))
        libtomo.kick_and_drift(xp, yp, k["den"].copy(), k["dphi"].copy(), k["rf1"], k["rf2"], k["phi0"], k["dE0"], k["drift"], k["phi12"], k["hr"], k["dturns"], k["recprof"], 0, nt, n)
        x, y = k["dphi"].copy(), k["den"].copy()
        a = (k["rf1"][-1], k["rf2"][-1], k["phi0"][-1], k["phi12"][-1], k["hr"], n, k["dE0"][-1])
        libtomo.drift_up(x, y, k["drift"][-1], n)
        libtomo.kick_up(x, y, *a)
        u, v = k["dphi"].copy(), k["den"].copy()
        libtomo.kick_down(u, v, *a)
        libtomo.drift_down(u, v, k["drift"][-1], n)
        return xp, yp, x, y, u, v
    both(threads, go, "kick_and_drift")
