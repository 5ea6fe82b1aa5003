import numpy as np
from base import need, same
from rt_p03 import Mach
from longitudinal_tomography.utils import physics as ph

C, E = 299792458.0, 1.602176634e-19


def cases(tier, rng):
    while True:
        T = int(rng.integers(1, 7))
        d = dict(turn=int(rng.integers(0, T)), ref=int(rng.integers(0, T)), phi=float(rng.normal(0, 2)), n=float(rng.random() * 3 + .1), q=float(rng.choice([1, -1, 2, -54, 0.5])),
                 h=float(rng.choice([1, 2, 0.5, 3])), R=float(rng.random() * 100 + 1), rho=float(rng.random() * 50 + 1), gt=float(rng.choice([4.1, 30., 1.5, 300.])), er=float(rng.choice([938.272e6, 0.511e6])),
                 b0=float(rng.random() + .01), k=int(rng.integers(1, 10)), t=rng.normal(0, 1, T), v1=rng.normal(0, 5, T), v2=rng.normal(0, 3, T), phi0=rng.normal(0, 1, T),
                 be=rng.random(T) * .98 + .01, bd=rng.normal(0, 1, T), p12=rng.normal(0, 1, T), V=rng.normal(0, 5, 4))
        yield "formulas", d
        yield "derivatives", d


def mk(turn, ref, phi, n, q, h, R, rho, gt, er, b0, k, t, v1, v2, phi0, be, bd, p12, V):
    A = np.array
    e0 = er / np.sqrt(1 - A(be) ** 2)
    c = dict(q=q, h_ratio=h, mean_orbit_rad=R, bending_rad=rho, trans_gamma=gt, e_rest=er, b0=b0, h_num=k, time_at_turn=A(t), vrf1_at_turn=A(v1), vrf2_at_turn=A(v2), phi0=A(phi0), beta0=A(be),
             e0=e0, machine_ref_frame=ref, vrf1=V[0], vrf1dot=V[1], vrf2=V[2], vrf2dot=V[3], dtbin=1e-9, eta0=A(bd), nprofiles=len(t), dturns=1)
    return Mach(**c, bdot=bd[0], phi12=p12[0]), Mach(**c, bdot=A(bd), phi12=A(p12))


def fns(m, p, k):
    i = k["turn"]
    tt = m.time_at_turn[i]
    a = dict(v1=m.vrf1 + m.vrf1dot * tt, v2=m.vrf2 + m.vrf2dot * tt, bd=m.bdot, p12=m.phi12)
    b = dict(v1=p.vrf1_at_turn[i], v2=p.vrf2_at_turn[i], bd=p.bdot[i], p12=p.phi12[i])
    return (("_mch", m, a), ("_pmch", p, b))


def check_formulas(**k):
    m, p = mk(**k)
    i, x, h, R, rho, q = k["turn"], k["phi"], k["h"], k["R"], k["rho"], k["q"]
    n = k["n"]
    for sfx, o, c in fns(m, p, k):
        dr = 2 * np.pi * R * rho * c["bd"] * np.sign(q)
        v = c["v1"] * np.sin(x) + c["v2"] * np.sin(h * (x - c["p12"]))
        w = dict(rtol=1e-9, atol=1e-7)
        same(getattr(ph, "rf_voltage" + sfx)(x, o, i), v - dr, "rf_voltage" + sfx, **w)
        same(getattr(ph, "drf_voltage" + sfx)(x, o, i), c["v1"] * np.cos(x) + h * c["v2"] * np.cos(h * (x - c["p12"])), "drf_voltage" + sfx, **w)
        same(getattr(ph, "rfvolt_rf1" + sfx)(x, o, i), c["v1"] * np.sin(x) - dr, "rfvolt_rf1" + sfx, **w)
        same(getattr(ph, "drfvolt_rf1" + sfx)(x, o, i), c["v1"] * np.cos(x), "drfvolt_rf1" + sfx, **w)
        same(ph.rf_voltage(x, c["v1"], c["v2"], c["bd"], h, c["p12"], R, rho, q), v - dr, "rf_voltage", **w)
        same(ph.rf_voltage_at_phase(x, c["v1"], c["v2"], h, c["p12"]), v, "rf_voltage_at_phase", **w)
        V1, V2 = o.vrf1_at_turn, o.vrf2_at_turn
        p12 = o.phi12[i] if isinstance(o.phi12, np.ndarray) else o.phi12
        s = V1[i] * np.sin(o.phi0[i]) + V2[i] * np.sin(h * (o.phi0[i] - p12))
        low = V1[i] * (np.cos(x + n) - np.cos(x)) + V2[i] * (np.cos(h * (x + n - p12)) - np.cos(h * (x - p12))) / h + n * s
        same(ph.phase_low_mch(x, o, n, i), low, "phase_low", **w)
    tt = m.time_at_turn[i]
    same(ph.rf_voltage_at_phase(x, m.vrf1, m.vrf1dot, m.vrf2, m.vrf2dot, h, m.phi12, m.time_at_turn, i),
         (m.vrf1 + m.vrf1dot * tt) * np.sin(x) + (m.vrf2 + m.vrf2dot * tt) * np.sin(h * (x - m.phi12)), "rf_voltage_at_phase (slopes)", 1e-9, 1e-7)
    same(ph.vrft(1.5, -2., 3.), -4.5, "vrft")
    same(ph.b_to_e(m), np.sqrt((q * k["b0"] * rho * C) ** 2 + k["er"] ** 2), "b_to_e")
    same(ph.lorentz_beta(m, i), k["be"][i], "lorentz_beta", 1e-6, 1e-6)
    same(ph.phase_slip_factor(m), 1 - m.beta0 ** 2 - 1 / k["gt"] ** 2, "phase_slip_factor")
    same(ph.find_dphase(m), 2 * np.pi * k["k"] * m.eta0 / (m.e0 * m.beta0 ** 2), "find_dphase", 1e-9, 0)
    same(ph.revolution_freq(m), m.beta0 * C / R, "revolution_freq")
    lo, hi = ph.find_phi_lower_upper(m, i)
    below = q * (k["gt"] - m.e0[i] / k["er"]) > 0
    same([lo, hi], [-np.pi, np.pi] if below else [0, 2 * np.pi], "search interval")


def check_derivatives(**k):
    m, p = mk(**k)
    i, x, n, q = k["turn"], k["phi"], k["n"], k["q"]
    d = 1e-5

    def num(f):
        return (f(x - 2 * d) - 8 * f(x - d) + 8 * f(x + d) - f(x + 2 * d)) / (12 * d)
    for sfx, o, c in fns(m, p, k):
        for a, b in (("rf_voltage", "drf_voltage"), ("rfvolt_rf1", "drfvolt_rf1")):
            f, g = getattr(ph, a + sfx), getattr(ph, b + sfx)
            s = 1 + abs(f(x, o, i))
            same(g(x, o, i), num(lambda y: f(y, o, i)), b + sfx + " as derivative of " + a + sfx, 1e-4, 1e-7 * s)
        s = 1 + abs(ph.phase_low_mch(x, o, n, i))
        same(ph.dphase_low_mch(x, o, n, i), num(lambda y: ph.phase_low_mch(y, o, n, i)), "dphase_low as derivative of phase_low", 1e-4, 1e-7 * s)
        f = lambda y: ph.rf_voltage(y, c["v1"], c["v2"], c["bd"], k["h"], c["p12"], k["R"], k["rho"], q)
        same(ph.drf_voltage(x, c["v1"], c["v2"], k["h"], c["p12"]), num(f), "drf_voltage as derivative of rf_voltage", 1e-4, 1e-7 * (1 + abs(f(x))))
        f = lambda y: ph.rfvolt_rf1(y, c["v1"], c["bd"], k["R"], k["rho"], q)
        same(ph.drfvolt_rf1(x, c["v1"]), num(f), "drfvolt_rf1 as derivative of rfvolt_rf1", 1e-4, 1e-7 * (1 + abs(f(x))))
