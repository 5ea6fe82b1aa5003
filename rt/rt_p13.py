import numpy as np
from base import need, raises, same
from rt_p03 import Mach
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography import exceptions as ex


def cases(tier, rng):
    while True:
        P, D, N = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 7))
        T = (P - 1) * D + 1
        d = dict(P=P, D=D, h=int(rng.integers(1, 9)), dt=float(rng.random() + .01), sy=float(rng.normal(4, 2)), om=rng.random(T) + .2, phi0=rng.normal(0, 2, T),
                 xo=float(rng.normal(0, 5)), dE=float(rng.random() + .01))
        yield "coords", d | dict(dphi=rng.normal(0, 1, (P, N)), den=rng.normal(0, 3, (P + int(rng.random() < .1), N)))
        rec = int(rng.integers(0, P))
        off = int(rng.integers(-rec * D, T - rec * D))
        yield "turn", d | dict(rec=rec, off=off, x=rng.random(N) * 10, y=rng.random(N) * 10)
        yield "round", d | dict(rec=rec, x=rng.random(N) * 10, y=rng.random(N) * 10)


def mach(P, D, h, dt, sy, om, phi0):
    return Mach(nprofiles=P, dturns=D, h_num=h, dtbin=dt, synch_part_y=sy, omega_rev0=np.array(om), phi0=np.array(phi0))


def check_coords(P, D, h, dt, sy, om, phi0, xo, dE, dphi, den):
    m = mach(P, D, h, dt, sy, om, phi0)
    dphi, den = np.array(dphi), np.array(den)
    got = []
    e = raises(lambda: got.append(pts.physical_to_coords(dphi, den, m, xo, dE)), ex.InvalidParticleError)
    need((e is None) == (dphi.shape == den.shape), f"shapes {dphi.shape}, {den.shape}: {e!r}")
    if e is None:
        t = np.arange(P) * D
        same(got[0][0], (dphi + m.phi0[t][:, None]) / (h * m.omega_rev0[t] * dt)[:, None] - xo, "x", 1e-9, 1e-9)
        same(got[0][1], den / dE + sy, "y", 1e-9, 1e-9)


def check_round(P, D, h, dt, sy, om, phi0, xo, dE, rec, x, y):
    m = mach(P, D, h, dt, sy, om, phi0)
    p = pts.Particles()
    p.xorigin, p.dEbin = xo, dE
    x, y = np.array(x), np.array(y)
    dphi, den = p._bin_nr_to_physical_coords((x, y), m, rec)
    t = rec * D
    same(dphi, (x + xo) * h * m.omega_rev0[t] * dt - m.phi0[t], "phase", 1e-9, 1e-9)
    same(den, (y - sy) * dE, "energy", 1e-9, 1e-9)
    a, b = np.zeros((P, len(x))), np.zeros((P, len(x)))
    a[rec], b[rec] = dphi, den
    xp, yp = pts.physical_to_coords(a, b, m, xo, dE)
    same(xp[rec], x, "x after there and back", 1e-7, 1e-7)
    same(yp[rec], y, "y after there and back", 1e-7, 1e-7)


def check_turn(P, D, h, dt, sy, om, phi0, xo, dE, rec, off, x, y):
    m = mach(P, D, h, dt, sy, om, phi0)
    p = pts.Particles()
    p.xorigin, p.dEbin = xo, dE
    x, y = np.array(x), np.array(y)
    dphi, den = p._bin_nr_to_physical_coords((x, y), m, rec, off)
    t = rec * D + off
    same(dphi, (x + xo) * h * m.omega_rev0[t] * dt - m.phi0[t], "phase", 1e-9, 1e-9)
    same(den, (y - sy) * dE, "energy", 1e-9, 1e-9)
