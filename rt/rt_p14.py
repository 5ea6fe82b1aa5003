import numpy as np
from base import need, raises, same
from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo


def cases(tier, rng):
    while True:
        B, P, D = int(rng.integers(3, 14)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
        v2 = float(rng.choice([0, 0, 1, -1])) * float(rng.uniform(1e3, 8e3))
        scale = float(rng.uniform(.5, 1.3))
        win = [None, None]
        if rng.random() < .5:
            win[0] = float(rng.choice([rng.uniform(0, .5), rng.integers(0, 3) / B]))
        if rng.random() < .5:
            win[1] = float(rng.choice([rng.uniform(.5, 1.3), rng.integers(B - 3, B + 1) / B]))
        yield "area", dict(B=B, P=P, D=D, v1=float(rng.uniform(2e3, 5e4)), v2=v2, scale=scale, bdot=float(rng.choice([0, 0, .3])), phi12=float(rng.choice([0, .4])), hr=float(rng.choice([1, 2, 3])),
                           h=int(rng.integers(1, 5)), off=float(rng.uniform(-.2, .2)), de=float(rng.choice([-1e6, 1, 1])) * float(rng.uniform(.3, 2)), win=win, full=bool(rng.random() < .2),
                           ref=int(rng.integers(0, P)), bref=int(rng.integers(0, P)), film=int(rng.integers(0, P)), snpt=int(rng.integers(1, 5)), rec=int(rng.integers(0, P)), dt=int(rng.integers(0, D)))


def height(m, phi, known, turn):
    hr, o = m.h_ratio, m.phi12
    o = o[turn] if isinstance(o, np.ndarray) else o
    v1, v2, p0 = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.phi0[turn]
    r = 2 * m.q / m.drift_coef[turn] * (v1 * (np.cos(phi) - np.cos(known)) + v2 * (np.cos(hr * (phi - o)) - np.cos(hr * (known - o))) / hr
                                        + (phi - known) * (v1 * np.sin(p0) + v2 * np.sin(hr * (p0 - o))))
    return np.sqrt(np.maximum(r, 0))


def check_area(B, P, D, v1, v2, scale, bdot, phi12, hr, h, off, de, win, full, ref, bref, film, snpt, rec, dt):
    kw = dict(h_num=h, bdot=bdot, machine_ref_frame=ref, beam_ref_frame=bref, filmstart=film, filmstop=P, snpt=snpt, full_pp_flag=full, vrf2=v2, h_ratio=hr, phi12=phi12)
    dtbin = scale * 5.3e-7 / h / B
    kw.update(min_dt=None if win[0] is None else win[0] * B * dtbin, max_dt=None if win[1] is None else win[1] * B * dtbin)
    m = Machine(D, v1, 25., 8., .4, 4.1, 938.27e6, P, B, dtbin, vat_now=False, **kw)
    if raises(m.values_at_turns, ValueError) is not None:
        return None                          # no synchronous phase
    m.synch_part_x = B / 2 + off * B
    ramp = np.random.default_rng(abs(hash((B, P, D, v1))) % 2 ** 32).uniform(.6, 1.5, (4, len(m.phi0)))  # every turn differs
    for n, r in zip(("vrf1_at_turn", "vrf2_at_turn", "drift_coef", "omega_rev0"), ramp):
        setattr(m, n, getattr(m, n) * (r if n[0] == "v" else .97 + .03 * r))
    yc = B / 2
    if len(m.phi0) <= rec * D + dt:
        dt = 0
    ref_t, film_t = bref * D, film * D
    xo = m.phi0[ref_t] / (h * m.omega_rev0[ref_t] * dtbin) - m.synch_part_x
    phases = lambda t: (xo + np.arange(B + 1)) * dtbin * h * m.omega_rev0[t]
    if de > 0:
        bucket = m.beta0[ref_t] * np.sqrt(max(0, m.e0[ref_t] * v1 / (2 * np.pi * h * abs(m.eta0[ref_t]))))
        m.demax = float(de * 2 * bucket)
        dE = m.demax / (B - yc)
    else:
        m.demax = -1.
        if m.vrf2_at_turn[ref_t] != 0:
            p = phases(ref_t)
            dE = min(height(m, p, p[0], ref_t).max(), height(m, p, p[-1], ref_t).max()) / (B - yc)
        else:
            r = m.e0[ref_t] * m.q * m.vrf1_at_turn[ref_t] * np.cos(m.phi0[ref_t]) / (2 * np.pi * h * m.eta0[ref_t])
            if r <= 0:
                return None
            dE = m.beta0[ref_t] * np.sqrt(r) * dtbin * h * m.omega_rev0[ref_t]
    s = PhaseSpaceInfo(m)
    e = raises(s.find_binned_phase_energy_limits, ex.EnergyBinningError, ex.EnergyLimitsError, ex.PhaseLimitsError)
    if dE <= 1e-6:
        return need(isinstance(e, ex.EnergyBinningError) or dE > 0, f"energy bins of {dE} eV: {e!r}")
    need(not isinstance(e, ex.EnergyBinningError), f"energy bins of {dE} eV: {e!r}")
    # limits of the columns
    if full:
        hi, first, last = np.full(B, B), 0, B
    else:
        p = phases(film_t)
        y = np.concatenate([[yc + height(m, p[e_:B + e_], p[k], film_t) / dE] for e_ in (0, 1) for k in (0, B)])
        hh = y - yc
        if np.any((hh > 0) & (np.abs(y - np.round(y)) < 1e-4)):
            return None                      # the last digits decide
        hi = np.minimum(np.floor(y).min(axis=0), B).astype(int)
        lo = np.maximum(1, B - hi)
        some = np.argwhere(hi >= lo).ravel()
        if not (lo < hi).any():
            return need(isinstance(e, ex.EnergyLimitsError), f"no column has an energy interval: {e!r}")
        first, last = some.min(), some.max()
    a, b = m.min_dt / dtbin, m.max_dt / dtbin
    for v in (a, b):
        if abs(v - round(v)) < 1e-9 and v != round(v):
            return None
    a, b = int(a), min(int(np.ceil(b)), B)
    hi = hi.copy()
    if full or a > first:
        first = a
        hi[:a] = B // 2
    if full or b <= last:
        last = b - 1
        hi[b:] = B // 2
    lo = np.maximum(1, B - hi)
    if first > last or first > B - 1:
        return need(e is not None, "an area without columns was accepted")
    bad = (lo[first:last] > hi[first:last]).any() or (lo >= hi).all()
    if bad:
        return need(isinstance(e, ex.EnergyLimitsError), f"limits {lo.tolist()} to {hi.tolist()} in columns {first} to {last}: {e!r}")
    need(e is None, f"limits {lo.tolist()} to {hi.tolist()} in columns {first} to {last}: {e!r}")
    same(s.xorigin, xo, "origin")
    same(s.dEbin, dE, "height of the energy bins")
    need((s.imin, s.imax) == (first, last), f"columns {s.imin} to {s.imax}, contract says {first} to {last}")
    same(s.jmax, hi, "upper limits", 0, 0)
    same(s.jmin, lo, "lower limits", 0, 0)
    # one particle on every point
    q = Particles()
    q.homogeneous_distribution(m, rec, dt)
    need((q.imin, q.imax) == (first, last), "columns of the particles")
    same(q.jmin, lo, "lower limits of the particles", 0, 0)
    same(q.jmax, hi, "upper limits of the particles", 0, 0)
    same([q.dEbin, m.dEbin, q.xorigin], [dE, dE, xo], "conversion of the particles")
    t = rec * D + dt
    want = sorted((2 * snpt * c + 2 * i + 1, 2 * snpt * r + 2 * j + 1) for c in range(first, last + 1) for r in range(lo[c], hi[c]) for i in range(snpt) for j in range(snpt))
    dphi, den = q.coordinates_dphi_denergy
    x = ((np.asarray(dphi) + m.phi0[t]) / (h * m.omega_rev0[t] * dtbin) - xo) * 2 * snpt
    y = (np.asarray(den) / dE + yc) * 2 * snpt
    same(x, np.round(x), "column of the particles on the grid", 0, 1e-4)
    same(y, np.round(y), "row of the particles on the grid", 0, 1e-4)
    got = sorted(zip(np.round(x).astype(int).tolist(), np.round(y).astype(int).tolist()))
    need(got == want, f"{len(got)} particles, contract says {len(want)}; first difference {next(((g, w) for g, w in zip(got, want) if g != w), None)}")
