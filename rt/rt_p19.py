import numpy as np
from scipy import constants, signal
from base import need, raises, same
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.data.profiles import Profiles
from longitudinal_tomography import exceptions as ex


def cases(tier, rng):
    while True:
        P, B, D = int(rng.integers(1, 5)), int(rng.integers(1, 12)), int(rng.integers(1, 4))
        w = rng.normal(0.3, 1, (P, B))
        if rng.random() < .1:
            w = -np.abs(w)
        yield "create", dict(w=w, nprof=max(1, P + int(rng.choice([0, 0, 0, 1, -1]))), ref=int(rng.integers(0, P)), ts=float(rng.random() + .1), pick=float(rng.random() + .1))
        P, B = int(rng.integers(2, 5)), int(rng.integers(7, 14))
        n = (P - 1) * D + 1
        yield "selffield", dict(w=np.abs(rng.normal(0.3, 1, (P, B))) + .01, D=D, dt=float(10 ** rng.uniform(-9.5, -7.5)), h=int(rng.integers(1, 4)), g=float(rng.random()), z=float(rng.normal()),
                                om=rng.uniform(1e6, 4e6, n), be=rng.uniform(.3, .99, n), bdot=float(rng.choice([0, 1.5, -1.])), q=float(rng.uniform(1, 9)),
                                how=int(rng.integers(0, 4)), dr=int(rng.choice([0, 0, 1])), dc=int(rng.choice([0, 0, 1])), charge=bool(rng.random() < .9))


def machine(P, B, D, dt=1e-9, **k):
    m = Machine(D, 1e4, 25., 8., .4, 4.1, 938e6, P, B, dt, **k)
    return m


def check_create(w, nprof, ref, ts, pick):
    w = np.array(w, float)
    keep = w.copy()
    P, B = w.shape
    m = machine(nprof, 99, 2, beam_ref_frame=ref, pickup_sensitivity=pick)
    got = []
    e = raises(lambda: got.append(Profiles(m, ts, w)), ex.WaterfallError, ex.WaterfallReducedToZero)
    same(w, keep, "waterfall after the call", 0, 0)
    if nprof != P:
        return need(isinstance(e, ex.WaterfallError), f"{P} profiles for a machine with {nprof}: {e!r}")
    c = np.maximum(w, 0)
    need((e is None) == bool(c.any()) and (e is None or isinstance(e, ex.WaterfallReducedToZero)), f"positive samples: {bool(c.any())}, error {e!r}")
    if e is not None:
        return
    p = got[0]
    same(p.waterfall, c, "waterfall", 0, 0)
    need(m.nbins == B and m.synch_part_y == B / 2, f"number of bins {m.nbins}, centre {m.synch_part_y} for {B} bins")
    p.calc_profilecharge()
    same(p.profile_charge, c[ref].sum() * ts / (constants.e * pick), "profile charge", 1e-9, 0)
    need(raises(lambda: Profiles(m, ts, 3), ex.WaterfallError) is not None, "a number was accepted as waterfall")


def check_selffield(w, D, dt, h, g, z, om, be, bdot, q, how, dr, dc, charge):
    w, om, be = [np.array(x, float) for x in (w, om, be)]
    P, B = w.shape
    m = machine(P, B, D, dt, h_num=h, g_coupling=g, zwall_over_n=z, bdot=bdot)
    m.omega_rev0, m.beta0 = om, be
    p = Profiles(m, dt, w, q if charge else None)
    f = np.cos(np.arange((P + dr) * (B + dc)).reshape(P + dr, B + dc))
    if how == 0:
        call, ds, ok = lambda: p.calc_self_fields(filtered_profiles=f), f, not (dr or dc)
    elif how == 1:
        call, ds, ok = lambda: p.calc_self_fields(in_filter=lambda x: f * x.sum() if x.shape == f.shape else f), f * w.sum(), not (dr or dc)
    elif how == 2:
        call, ds, ok = lambda: p.calc_self_fields(filtered_profiles=3), f, False
    else:
        call, ds, ok = p.calc_self_fields, signal.savgol_filter(w / w.sum(axis=1)[:, None], 7, 4, deriv=1), True
    e = raises(call, ex.ProfileChargeNotCalculated, ex.FilteredProfilesError)
    if not charge:
        return need(isinstance(e, ex.ProfileChargeNotCalculated), f"no profile charge: {e!r}")
    if not ok:
        return need(isinstance(e, ex.FilteredProfilesError), f"unsuitable filtered profiles: {e!r}")
    need(e is None, f"{e!r}")
    same(p.dsprofiles, ds, "filtered profiles", 1e-9, 1e-12)
    same(p.waterfall, w, "waterfall after the call", 0, 0)
    drad = h * om[(P - 1) * D - 1 if bdot > 0 else 0] * dt
    r = p.phiwrap / (2 * np.pi)
    need(abs(r - round(r)) < 1e-9, f"phase wrap of {r} periods")
    need(p.phiwrap > 0 and p.phiwrap >= B * drad * (1 - 1e-9) and p.phiwrap - 2 * np.pi < B * drad * (1 + 1e-9), f"phase wrap {p.phiwrap} for an image of {B * drad}")
    need(p.phiwrap / drad * (1 - 1e-9) <= p.wrap_length < p.phiwrap / drad * (1 + 1e-9) + 1, f"wrap length {p.wrap_length} for {p.phiwrap / drad} bins")
    o, b = om[::D], be[::D]
    sfc = constants.e / o * ((1 / b - b) * g * np.pi * 2e-7 * constants.c - z) / dt ** 2
    v = np.zeros((P - 1, p.wrap_length + 1))
    x = sfc[:, None] * ds
    v[:, :B] = .5 * q * (x[1:] + x[:-1])
    same(p.vself, v, "self field", 1e-7, np.abs(v).max() * 1e-9)
