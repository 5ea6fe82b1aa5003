import numpy as np
from base import need, raises, same
import lib
from lib import libtomo
from rt_p03 import Mach, program, unpack


def cases(tier, rng):
    while True:
        d = program(rng)
        yield "turn", {a: d[a] for a in ("dphi", "den", "rf1", "rf2", "phi0", "dE0", "drift", "phi12", "hr")} | dict(threads=int(rng.integers(1, 9)))
        yield "track", d
        yield "single", d


def check_turn(threads, **k):
    k = unpack(k)
    libtomo.set_num_threads(threads)
    x, y, n = k["dphi"].copy(), k["den"].copy(), len(k["dphi"])
    m = Mach(phi0=k["phi0"], phi12=float(k["phi12"][0]), h_ratio=k["hr"], deltaE0=k["dE0"])
    a = (k["rf1"][-1], k["rf2"][-1], k["phi0"][-1], k["phi12"][-1], k["hr"], n, k["dE0"][-1])
    libtomo.drift_up(x, y, k["drift"][-1], n)
    same(x, k["dphi"] - k["drift"][-1] * k["den"], "drift up", 1e-9, 1e-9)
    libtomo.kick_up(x, y, *a)
    libtomo.kick_down(x, y, *a)
    libtomo.drift_down(x, y, k["drift"][-1], n)
    same(x, k["dphi"], "phase after a turn up and down", 1e-7, 1e-8)
    same(y, k["den"], "energy after a turn up and down", 1e-7, 1e-8)
    t = len(k["rf1"]) - 1
    x = libtomo.drift(y, x, k["drift"], n, t)
    y = libtomo.kick(m, y, x, k["rf1"], k["rf2"], n, t)
    y = libtomo.kick(m, y, x, k["rf1"], k["rf2"], n, t, up=False)
    x = libtomo.drift(y, x, k["drift"], n, t, up=False)
    same(x, k["dphi"], "phase after a turn up and down (machine)", 1e-7, 1e-8)
    same(y, k["den"], "energy after a turn up and down (machine)", 1e-7, 1e-8)


def check_track(**k):
    """tracking the result of one profile to another gives back the start"""
    k = unpack(k)
    n, nt = len(k["dphi"]), (k["nprof"] - 1) * k["dturns"]
    if np.abs(k["dphi"]).max() > 1e3:
        return

    def go(dphi, den, rec):
        xp, yp = np.zeros((k["nprof"], n)), np.zeros((k["nprof"], n))
        libtomo.kick_and_drift(xp, yp, den.copy(), dphi.copy(), k["rf1"], k["rf2"], k["phi0"], k["dE0"], k["drift"], k["phi12"], k["hr"], k["dturns"], rec, 0, nt, n)
        return xp, yp
    xp, yp = go(k["dphi"], k["den"], k["recprof"])
    for p in range(k["nprof"]):
        a, b = go(xp[p], yp[p], p)
        same(a, xp, f"phases tracked from profile {p}", 1e-5, 1e-6)
        same(b, yp, f"energies tracked from profile {p}", 1e-5, 1e-6)


def check_single(**k):
    """single precision: one turn forwards and back again"""
    k = unpack(k)
    n = len(k["dphi"])
    f = np.float32
    x0, y0 = np.clip(k["dphi"], -3, 3).astype(f), np.clip(k["den"], -3, 3).astype(f)
    c = lambda v: np.clip(np.asarray(v, float)[-1], -3, 3) * np.ones(2, f)
    rf1, rf2, phi0, dE0, drift, phi12 = [c(k[a]).astype(f) for a in ("rf1", "rf2", "phi0", "dE0", "drift", "phi12")]
    drift = (drift[:1] / 10).astype(f)

    def go(x, y, rec):
        xp, yp = np.zeros((2, n), f), np.zeros((2, n), f)
        libtomo.kick_and_drift(xp, yp, y.copy(), x.copy(), rf1, rf2, phi0, dE0, drift, phi12, float(k["hr"]), 1, rec, 0, 1, n)
        return xp, yp
    xp, yp = go(x0, y0, 0)
    up, vp = go(xp[1], yp[1], 1)
    same(up[0], x0, "phase after a turn up and down (single precision)", 1e-3, 2e-3)
    same(vp[0], y0, "energy after a turn up and down (single precision)", 1e-3, 2e-3)
