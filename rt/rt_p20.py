import numpy as np
from base import need, raises, same
from rt_p03 import Mach
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.data import data_treatment as dt_
from longitudinal_tomography import exceptions as ex

FIELDS = ("vrf1_at_turn", "vrf2_at_turn", "q", "nprofiles", "drift_coef", "dturns", "phi0", "phi12", "h_ratio", "deltaE0", "synch_part_x")


def cases(tier, rng):
    while True:
        P, D = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        k = dict(P=P, D=D, seed=int(rng.integers(0, 10 ** 6)))
        yield "tracker", k | dict(missing=[None, *FIELDS, "alien"][int(rng.integers(0, len(FIELDS) + 2))], x=float(rng.choice([-1, -.1, 0, 2.5])))
        yield "track", k | dict(rec=int(rng.integers(-P - 2, P + 2)), N=int(rng.integers(1, 5)), d=int(rng.choice([0, 0, 0, 1, -1, D, -D, 2])), bad=int(rng.choice([0, 0, 0, 1, 2, 3])))
        yield "selffields", k | dict(miss=int(rng.integers(0, 3)))
        nb, n = int(rng.integers(1, 8)), int(rng.integers(1, 9))
        yield "image", dict(xp=rng.integers(0, nb, (n, P)), yp=rng.integers(0, nb, (n, P)), w=rng.random(n), nb=nb, sx=float(rng.random() * 5), sy=float(rng.random() * 5), dt=float(rng.random() + .1),
                            dE=float(rng.random() + .1), idx=int(rng.integers(-P, P)), none=bool(rng.random() < .1))


def machine(P, D, seed, x=3.):
    r = np.random.default_rng(seed)
    m = Machine(D, 1e4, 25., 8., .4, 4.1, 938e6, P, 10, 1e-9, charge=float(r.choice([1, 2, -1])), synch_part_x=x, phi12=float(r.normal()), h_ratio=2.)
    n = (P - 1) * D + 1
    for f in ("vrf1_at_turn", "vrf2_at_turn", "phi0", "deltaE0", "drift_coef"):
        setattr(m, f, r.normal(0, .3, n))
    return m


def check_tracker(P, D, seed, missing, x):
    m = machine(P, D, seed, x)
    if missing == "alien":
        m = Mach(**m.__dict__)
    elif missing:
        setattr(m, missing, None)
    got = []
    e = raises(lambda: got.append(Tracking(m)), ex.MachineParameterError)
    need((e is None) == (missing is None and x >= 0), f"missing {missing}, synchronous particle {x}: {e!r}")
    if got:
        need(got[0].nturns == D * (P - 1), f"{got[0].nturns} turns")
        need(got[0].self_field_flag is False and got[0].fortran_flag is False, "flags of a new tracker")


def check_track(P, D, seed, rec, N, d, bad):
    m = machine(P, D, seed)
    t = Tracking(m)
    r = np.random.default_rng(seed + 1)
    a, b = r.normal(0, 1, N), r.normal(0, 1, N)
    a0, b0 = a.copy(), b.copy()
    if bad:
        p = Particles()
        v = [None, 3, (a,), (a, np.zeros(N + 1))][bad]
        return need(raises(lambda: setattr(p, "coordinates_dphi_denergy", v), ex.InvalidParticleError) is not None, f"unsuitable coordinates {bad} accepted")
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.__dict__.items()}
    got = []
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = raises(lambda: got.append(t.track(rec, (a, b), deltaturn=d)), IndexError, ValueError)
    k = rec + P if rec < 0 else rec
    if not 0 <= k < P:
        return need(isinstance(e, IndexError), f"profile {rec} of {P}: {e!r}")
    ok = abs(d) < D and 0 <= D * k + d <= D * (P - 1)
    need((e is None) == ok and (e is None or isinstance(e, ValueError)), f"turn {D * k + d} of {D * (P - 1)}, offset {d} of {D}: {e!r}")
    same(a, a0, "phases handed in", 0, 0)
    same(b, b0, "energies handed in", 0, 0)
    for f, v in keep.items():
        if isinstance(v, np.ndarray):
            same(getattr(m, f), v, f"{f} of the machine after tracking", 0, 0)
    if e is not None:
        return
    x, y = got[0]
    need(x.shape == y.shape == (P, N), f"sizes {x.shape}, {y.shape}")
    same(t.init_dphi, a0, "start phases kept", 0, 0)
    same(t.init_denergy, b0, "start energies kept", 0, 0)
    if d == 0:
        same(x[k], a0, "phases of the reconstructed profile", 1e-12, 1e-12)
        same(y[k], b0, "energies of the reconstructed profile", 1e-12, 1e-12)
        x2, y2 = t.track(k, (a, b))
        same(x2, x, "phases of a second tracking", 0, 0)
        same(y2, y, "energies of a second tracking", 0, 0)


def check_selffields(P, D, seed, miss):
    t = Tracking(machine(P, D, seed))
    v = np.arange(6.).reshape(2, 3)
    p = Mach(phiwrap=None if miss == 1 else 6.28, vself=None if miss == 2 else v)
    e = raises(lambda: t.enable_self_fields(p), ex.SelfFieldTrackingError)
    need((e is None) == (miss == 0), f"missing {miss}: {e!r}")
    need(t.self_field_flag is (miss == 0), f"self fields {t.self_field_flag}")
    if not miss:
        need(t._phiwrap == 6.28, "wrap")
        same(t._vself, v, "self field", 0, 0)


def check_image(xp, yp, w, nb, sx, sy, dt, dE, idx, none):
    xp, yp, w = np.array(xp), np.array(yp), np.array(w, float)
    m = Mach(nbins=nb, synch_part_x=sx, synch_part_y=sy, dtbin=dt, dEbin=None if none else dE)
    got = []
    e = raises(lambda: got.append(dt_.phase_space(Mach(xp=xp, yp=yp, weight=w), m, idx)), ex.InputError)
    need((e is None) == (not none), f"energy bins known: {not none}, {e!r}")
    if none:
        return
    t, E, rho = got[0]
    same(t, (np.arange(nb) - sx) * dt, "time axis")
    same(E, (np.arange(nb) - sy) * dE, "energy axis")
    ref = np.zeros((nb, nb))
    np.add.at(ref, (xp[:, idx], yp[:, idx]), w)
    same(rho, ref, "image")
