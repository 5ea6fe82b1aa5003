import numpy as np
from base import need, raises, same
import lib
from lib import libtomo


def cases(tier, rng):
    while True:
        d = program(rng)
        yield "track", d | dict(single=bool(rng.random() < 0.1), arr12=bool(rng.random() < 0.4), threads=int(rng.integers(1, 9)))
        yield "python", d
        yield "object", d | dict(q=float(rng.choice([1, -1, 2])), neg=bool(rng.random() < 0.3))


def program(rng):
    nprof, dturns, npart = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 8))
    n = (nprof - 1) * dturns + 1
    return dict(nprof=nprof, dturns=dturns, recprof=int(rng.integers(0, nprof)), dphi=rng.normal(0, 1, npart), den=rng.normal(0, 2, npart),
                rf1=rng.normal(0, 1, n), rf2=rng.normal(0, .5, n), phi0=rng.normal(0, 1, n), dE0=rng.normal(0, .1, n),
                drift=rng.normal(0, .3, n), phi12=rng.normal(0, 1, n), hr=float(rng.choice([1., 2., 3.5])))


class Mach:
    def __init__(self, **k):
        self.__dict__.update(k)


def unpack(k):
    return {a: (np.array(b, float) if isinstance(b, list) else b) for a, b in k.items()}


def check_track(single, arr12, threads, **k):
    k = unpack(k)
    libtomo.set_num_threads(threads)
    p12 = k["phi12"] if arr12 else float(k["phi12"][0])
    xs, ys = lib.orbit(k["dphi"], k["den"], k["rf1"], k["rf2"], k["phi0"], k["dE0"], k["drift"], p12, k["hr"], k["nprof"], k["dturns"], k["recprof"])
    t = np.float32 if single else np.float64
    n = len(k["dphi"])
    xp, yp = np.zeros((k["nprof"], n), t), np.zeros((k["nprof"], n), t)
    nt = (k["nprof"] - 1) * k["dturns"]
    calls = []
    c = lambda x: np.array(x, t)
    out = libtomo.kick_and_drift(xp, yp, c(k["den"]), c(k["dphi"]), c(k["rf1"]), c(k["rf2"]), c(k["phi0"]), c(k["dE0"]), c(k["drift"]),
                                 c(p12) if arr12 else p12, k["hr"], k["dturns"], k["recprof"], 0, nt, n, callback=lambda i, m: calls.append((i, m)))
    rt, at = (5e-2, 5e-2) if single else (1e-6, 1e-7)
    same(xp, xs, "phase coordinates", rt, at)
    same(yp, ys, "energy coordinates", rt, at)
    need(calls == [(j + 1, nt) for j in range(nt)], f"progress callbacks {calls} for {nt} turns")


def machine(k, **more):
    m = Mach(phi0=k["phi0"], deltaE0=k["dE0"], drift_coef=k["drift"], phi12=float(k["phi12"][0]), h_ratio=k["hr"], dturns=k["dturns"], nprofiles=k["nprof"])
    m.__dict__.update(more)
    return m


def check_python(**k):
    """the Python implementation of the tracking loop and the entry taking the machine object"""
    from longitudinal_tomography.tracking.tracking import Tracking
    k = unpack(k)
    m = machine(k)
    t = Tracking.__new__(Tracking)
    t.machine, t.nturns, t._ftn_flag = m, (k["nprof"] - 1) * k["dturns"], False
    xs, ys = lib.orbit(k["dphi"], k["den"], k["rf1"], k["rf2"], k["phi0"], k["dE0"], k["drift"], m.phi12, k["hr"], k["nprof"], k["dturns"], k["recprof"])
    x, y = t.kick_and_drift(k["den"].copy(), k["dphi"].copy(), k["rf1"], k["rf2"], k["recprof"])
    same(x, xs, "phase coordinates (Python loop)", 1e-6, 1e-7)
    same(y, ys, "energy coordinates (Python loop)", 1e-6, 1e-7)
    n = len(k["dphi"])
    xp, yp = np.zeros((k["nprof"], n)), np.zeros((k["nprof"], n))
    libtomo.kick_and_drift(xp, yp, k["den"].copy(), k["dphi"].copy(), k["rf1"], k["rf2"], m, k["recprof"], 0, t.nturns, n)
    same(xp, xs, "phase coordinates (machine object)", 1e-6, 1e-7)
    same(yp, ys, "energy coordinates (machine object)", 1e-6, 1e-7)


def check_object(q, neg, **k):
    """Tracking.track with user coordinates"""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking.machine_base import MachineABC

    class M(MachineABC):
        def __init__(self):
            pass

        def values_at_turns(self):
            pass
        nbins = 10
    k = unpack(k)
    m = M()
    m.__dict__.update(machine(k, q=q, vrf1_at_turn=k["rf1"], vrf2_at_turn=k["rf2"], synch_part_x=3.0).__dict__)
    t = Tracking(m)
    calls = []
    rp = k["recprof"] - k["nprof"] if neg else k["recprof"]
    d0, e0 = k["dphi"].copy(), k["den"].copy()
    x, y = t.track(rp, (d0, e0), callback=lambda i, n: calls.append((i, n)))
    xs, ys = lib.orbit(k["dphi"], k["den"], q * k["rf1"], q * k["rf2"], k["phi0"], k["dE0"], k["drift"], m.phi12, k["hr"], k["nprof"], k["dturns"], k["recprof"])
    same(x, xs, "phase coordinates (Tracking.track)", 1e-6, 1e-7)
    same(y, ys, "energy coordinates (Tracking.track)", 1e-6, 1e-7)
    same(d0, k["dphi"], "the phases handed in")
    same(e0, k["den"], "the energies handed in")
    nt = (k["nprof"] - 1) * k["dturns"]
    need(calls == [(j + 1, nt) for j in range(nt)], f"progress callbacks {calls} for {nt} turns")
