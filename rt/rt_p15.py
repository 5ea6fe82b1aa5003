import warnings
import numpy as np
from scipy import constants
from base import need, raises, same
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.programs_machine import ProgramsMachine

C = constants.c
PROTON = 938.27208816e6


def cases(tier, rng):
    while True:
        P, D = int(rng.integers(1, 6)), int(rng.integers(1, 5))
        k = dict(P=P, D=D, ref=int(rng.integers(0, P)), R=float(rng.uniform(10, 100)), gt=float(rng.choice([4.1, 6.1, 1.2, 20.])), er=PROTON, q=float(rng.choice([1, 1, 2, -1])),
                 gamma=float(rng.uniform(1.1, 12)), v1=float(rng.uniform(1, 50) * 1e3), v1d=float(rng.choice([0, 0, 1e5, -1e5]) * rng.random()), v2=float(rng.choice([0, 0, .3, -.2])),
                 v2d=float(rng.choice([0, 0, 1e4])), h_ratio=float(rng.choice([1, 2, 3])), phi12=float(rng.choice([0, .4, -1.])), acc=float(rng.choice([0, 0, .3, -.3])),
                 h=int(rng.integers(1, 9)), B=int(rng.integers(5, 40)), demand=float(rng.uniform(.95, 1.2)))
        yield "machine", k
        k = dict(k, N=int(rng.integers(4, 9)), h2=int(k["h"] * k["h_ratio"] if rng.random() < .6 else rng.integers(1, 12)), two=bool(rng.random() < .6), how=int(rng.integers(0, 5)), span=float(rng.uniform(.0, .05)), frac=float(rng.uniform(0, .3)))
        yield "programs", k


def mk(P, D, ref, R, gt, er, q, gamma, v1, v1d, v2, v2d, h_ratio, phi12, acc, h, B, **_):
    rho = R / 3
    b0 = np.sqrt(gamma ** 2 - 1) * er / (abs(q) * rho * C)
    bdot = acc * v1 / (2 * np.pi * R * rho)
    return Machine(D, v1, R, rho, b0, gt, er, P, B, 1e-9, vrf1dot=v1d, vrf2=v2 * v1, vrf2dot=v2d, bdot=bdot, phi12=phi12, h_ratio=h_ratio, h_num=h, charge=q, machine_ref_frame=ref)


def residual(phi, v1, v2, hr, p12, m, bdot):
    x = v1 * np.sin(phi) + v2 * np.sin(hr * (phi - p12)) - 2 * np.pi * m.mean_orbit_rad * m.bending_rad * bdot * np.sign(m.q)
    scale = abs(v1) + abs(v2) * hr ** 2 + abs(2 * np.pi * m.mean_orbit_rad * m.bending_rad * bdot)
    need(np.all(np.abs(x) <= 2e-6 * scale), f"the synchronous phase leaves a voltage of {np.max(np.abs(x) / scale)} of the peak voltages")


def derived(m, T):
    for n in ("e0", "beta0", "phi0", "eta0", "drift_coef", "omega_rev0", "vrf1_at_turn", "vrf2_at_turn", "time_at_turn"):
        need(np.shape(getattr(m, n)) == (T,), f"{n} has shape {np.shape(getattr(m, n))}, {T} turns")
    same(m.beta0, np.sqrt(1 - (m.e_rest / m.e0) ** 2), "beta0", 1e-9, 0)
    same(m.eta0, 1 - m.beta0 ** 2 - m.trans_gamma ** -2., "eta0", 1e-9, 1e-12)
    same(m.drift_coef, 2 * np.pi * m.h_num * m.eta0 / (m.e0 * m.beta0 ** 2), "drift_coef", 1e-9, 0)
    same(m.omega_rev0, m.beta0 * C / m.mean_orbit_rad, "omega_rev0", 1e-9, 0)


def check_machine(demand, **k):
    got = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = raises(lambda: got.append(mk(**k)))
    plain = k["v2"] == 0 and k["v2d"] == 0
    if e is not None:
        return need(isinstance(e, ValueError) and not plain, f"{e!r}")
    m = got[0]
    T, i0 = (k["P"] - 1) * k["D"] + 1, k["ref"] * k["D"]
    derived(m, T)
    need(np.shape(m.deltaE0) == (T,), "deltaE0 shape")
    t = m.time_at_turn
    need(t[i0] == 0, "time at the reference turn")
    same(np.diff(t), 2 * np.pi * m.mean_orbit_rad / (m.beta0[:-1] * C), "revolution times", 1e-6, 0)
    same(m.vrf1_at_turn, m.vrf1 + m.vrf1dot * t, "vrf1_at_turn")
    same(m.vrf2_at_turn, m.vrf2 + m.vrf2dot * t, "vrf2_at_turn")
    same(m.e0[i0], np.hypot(m.q * m.b0 * m.bending_rad * C, m.e_rest), "energy at the reference turn", 1e-10, 0)
    gain = m.q * (m.vrf1_at_turn * np.sin(m.phi0) + m.vrf2_at_turn * np.sin(m.h_ratio * (m.phi0 - m.phi12)))
    same(np.diff(m.e0), gain[1:], "energy gain per turn", 1e-7, 2e-5)
    same(m.deltaE0[i0 + 1:], np.diff(m.e0)[i0:], "energy change per turn", 1e-9, 1e-9)
    residual(m.phi0, m.vrf1_at_turn, m.vrf2_at_turn, m.h_ratio, m.phi12, m, m.bdot)
    if plain:
        side = m.q * (m.trans_gamma - m.e0[i0] / m.e_rest)
        need(np.all(np.cos(m.phi0) * (1 if side > 0 else -1) > 0), f"phase {m.phi0} on the unstable side")


def check_programs(P, D, ref, R, gt, er, q, gamma, v1, v1d, v2, v2d, h_ratio, phi12, acc, h, B, demand, N, h2, two, how, span, frac):
    """how: 0 phase program, 1 phi12 a number, 2 one value, 3 values over the voltage times, 4 a table of its own"""
    rho = R / 3
    p0 = np.sqrt(gamma ** 2 - 1) * er
    T = P * D
    trev = 2 * np.pi * R / C * gamma / np.sqrt(gamma ** 2 - 1)
    end = trev * (T + 3) * (demand + .6) / (1 - frac)
    t = np.linspace(0, end, N)
    mom = np.vstack([t, p0 * (1 + span * 1e-3 * np.linspace(0, 1, N))])
    volt = np.vstack([t, v1 * (1 + .2 * np.linspace(0, 1, N))] + ([v1 * v2 * np.linspace(1, 2, N)] if two else []))
    kw = dict(machine_ref_frame=ref, h_num=h, charge=q)
    off = np.full(N, phi12)
    if how == 0:
        kw["phase_function"] = np.vstack([t, np.linspace(0, .1, N)] + ([np.linspace(.3, .5, N)] if two else []))
    else:
        kw["phi12"] = [phi12, np.array([phi12]), off + np.linspace(0, .1, N), np.vstack([t[:3], off[:3]])][how - 1]
    hs = [h, h2][:2 if two else 1]
    t_ref = frac * end + ref * D * trev * 1.01
    got = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = raises(lambda: got.append(ProgramsMachine(D, volt, mom, hs, R, rho, gt, er, P, B, 1e-9, t_ref, **kw)))
    if e is not None:
        return need(isinstance(e, (ValueError, IndexError)) and not isinstance(e, TypeError), f"{e!r}")     # programs too short for the turns
    m = got[0]
    n, i0 = len(m.time_at_turn), ref * D
    p = m.momentum_function
    derived(m, n)
    need(n <= T and m.n_turns == n and m.i0 == i0, f"{n} turns of {T}, reference turn {m.i0}")
    same(m.e0, np.hypot(p, er), "e0", 1e-10, 0)
    need(p.min() >= mom[1].min() * (1 - 1e-9) and p.max() <= mom[1].max() * (1 + 1e-9), "momentum outside of the program")
    need(m.time_at_turn[i0] == 0, "time at the reference turn")
    same(np.diff(m.time_at_turn), (2 * np.pi * R / (m.beta0 * C))[1:], "revolution times", 1e-6, 0)
    need(m.h_ratio == (hs[1] / hs[0] if two else 1), "ratio of the harmonics")
    if not two:
        same(m.vrf2_at_turn, np.zeros(n), "vrf2_at_turn", 0, 0)
    need(m.vrf1_at_turn.min() >= v1 * (1 - 1e-9) and m.vrf1_at_turn.max() <= 1.2 * v1 * (1 + 1e-9), "voltage outside of the program")
    if how in (1, 2):
        need(m.phi12 == phi12, f"phi12 = {m.phi12}")
    if how == 4:
        same(m.phi12, np.full(n, phi12), "phi12")
    if how == 3:
        need(np.all((m.phi12 >= phi12 - 1e-9) & (m.phi12 <= phi12 + .1 + 1e-9)), "phi12 outside of the values given")
    if n > 1:
        b = p / (rho * q * C)
        same(m.bdot, np.gradient(b, m.time_at_turn), "bdot", 1e-6, 1e-14 * np.abs(b).max() / np.diff(m.time_at_turn).min())
    residual(m.phi0, m.vrf1_at_turn, m.vrf2_at_turn, m.h_ratio, m.phi12, m, m.bdot)


def _before():
    """energy change per turn up to the reference turn"""
    m = Machine(4, 8e3, 25., 8.2, .4, 4.1, PROTON, 3, 10, 1e-9, bdot=1.8, machine_ref_frame=1)
    return not np.allclose(m.deltaE0[1:5], np.diff(m.e0)[:4])


def _programs():
    t = np.linspace(0, 1e-3, 50)
    m = ProgramsMachine(2, np.vstack([t, np.full(50, 8e3)]), np.vstack([t, np.linspace(1e9, 1.01e9, 50)]), [1], 25., 8.2, 4.1, PROTON, 4, 10, 1e-9, 1e-4, phi12=0.)
    return len(m.deltaE0) != len(m.e0)


FINDINGS = {"deltaE0-before-reference": _before, "deltaE0-programs": _programs}
