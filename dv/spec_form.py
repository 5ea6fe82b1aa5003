"""Contracts of the RF formulas in utils/physics.py: every function has its closed form, and the derivatives handed to
the root finder are the derivatives of the functions they are handed over with."""
import z3

from pyfront import PyContract
from spec_phys import PHYS, derivative, C
from term import And, I, R, cos_f, norm, num, pi_c, sin_f, sqrt_f, to_real

S = lambda x: sin_f(norm(x))
K = lambda x: cos_f(norm(x))


class Form(PyContract):
    """calls the function for all arguments; the value is `expected`"""
    file = PHYS
    outcomes = ("return",)
    fn = None

    def setup(self, it):
        it.assume(*self.pre(it))
        f = it.get("utils.physics:" + (self.fn or self.name))
        a, kw = self.args(it)
        return lambda: it.call(f, a, kw)

    def pre(self, it):
        return []

    def c(self, it, *names):
        r = [it.const(n) for n in names]
        return r

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        ch.ob("closed form", num(out.value) == self.expected(it))


def consts(it):
    return {n: it.const(n) for n in ("phi", "v1", "v2", "bdot", "h_ratio", "phi12", "radius", "bending_rad", "charge", "v1dot", "v2dot")}


def sgn(q):
    return z3.If(q > 0, z3.RealVal(1), z3.If(q < 0, z3.RealVal(-1), z3.RealVal(0)))


def drive(v):
    return 2 * pi_c * v["radius"] * v["bending_rad"] * v["bdot"] * sgn(v["charge"])


def volt(phi, v1, v2, h, phi12):
    return v1 * S(phi) + v2 * S(h * (phi - phi12))


def dvolt(phi, v1, v2, h, phi12):
    return v1 * K(phi) + h * v2 * K(h * (phi - phi12))


def plain(fname, argnames, expected, **extra):
    class X(Form):
        __doc__ = f"closed form of {fname}"
        name = fname

        def args(self, it):
            v = self.v = consts(it)
            return [v[n] for n in argnames], {}

        def expected(self, it):
            return expected(self.v)
    X.__name__ = fname
    return X


RF = ["phi", "v1", "v2", "bdot", "h_ratio", "phi12", "radius", "bending_rad", "charge"]
PLAIN = [
    plain("rf_voltage", RF, lambda v: volt(v["phi"], v["v1"], v["v2"], v["h_ratio"], v["phi12"]) - drive(v)),
    plain("drf_voltage", ["phi", "v1", "v2", "h_ratio", "phi12"], lambda v: dvolt(v["phi"], v["v1"], v["v2"], v["h_ratio"], v["phi12"])),
    plain("rfvolt_rf1", ["phi", "v1", "bdot", "radius", "bending_rad", "charge"], lambda v: v["v1"] * S(v["phi"]) - drive(v)),
    plain("drfvolt_rf1", ["phi", "v1"], lambda v: v["v1"] * K(v["phi"])),
    plain("vrft", ["v1", "v1dot", "phi"], lambda v: v["v1"] + v["v1dot"] * v["phi"]),
    plain("rf_voltage_at_phase", ["phi", "v1", "v2", "h_ratio", "phi12"], lambda v: volt(v["phi"], v["v1"], v["v2"], v["h_ratio"], v["phi12"])),
]


class AtPhaseTimes(Form):
    """the voltage at a phase with linearly changing voltages"""
    name = "rf_voltage_at_phase (voltage slopes)"
    fn = "rf_voltage_at_phase"

    def args(self, it):
        v = self.v = consts(it)
        self.T, self.turn = it.const("nturns", I), it.const("turn", I)
        it.assume(self.turn >= 0, self.turn < self.T)
        self.t = it.array("time", [self.T])
        return [v["phi"], v["v1"], v["v1dot"], v["v2"], v["v2dot"], v["h_ratio"], v["phi12"], self.t, self.turn], {}

    def expected(self, it):
        v, t = self.v, self.t.decl(self.turn)
        return volt(v["phi"], v["v1"] + v["v1dot"] * t, v["v2"] + v["v2dot"] * t, v["h_ratio"], v["phi12"])


def mach(it, program):
    v = {n: it.const(n) for n in ("q", "h_ratio", "mean_orbit_rad", "bending_rad", "trans_gamma", "e_rest")}
    T, turn, ref = it.const("nturns", I), it.const("turn", I), it.const("machine_ref", I)
    it.assume(turn >= 0, turn < T, ref >= 0, ref < T)
    a = {n: it.array(n, [T]) for n in ("time_at_turn", "vrf1_at_turn", "vrf2_at_turn", "phi0", "beta0", "e0", "eta0")}
    v.update({n: it.const(n) for n in ("vrf1", "vrf1dot", "vrf2", "vrf2dot", "b0")})
    if program:
        a.update({n: it.array(n, [T]) for n in ("bdot", "phi12")})
    else:
        v.update({n: it.const(n) for n in ("bdot", "phi12")})
    v["h_num"] = it.const("h_num", I)
    m = it.new("tracking.programs_machine:ProgramsMachine" if program else "tracking.machine:Machine", machine_ref_frame=ref, **v, **a)
    m.v, m.a, m.turn, m.T, m.ref = v, a, turn, T, ref
    if program:
        v1, v2 = a["vrf1_at_turn"].decl(turn), a["vrf2_at_turn"].decl(turn)
        m.cur = dict(v1=v1, v2=v2, bdot=a["bdot"].decl(turn), phi12=a["phi12"].decl(turn))
    else:
        t = a["time_at_turn"].decl(turn)
        m.cur = dict(v1=v["vrf1"] + v["vrf1dot"] * t, v2=v["vrf2"] + v["vrf2dot"] * t, bdot=v["bdot"], phi12=v["phi12"])
    m.cur.update(h_ratio=v["h_ratio"], radius=v["mean_orbit_rad"], bending_rad=v["bending_rad"], charge=v["q"])
    return m


def of_machine(fname, program, expected):
    class X(Form):
        __doc__ = f"closed form of {fname}: values of the turn that is asked for"
        name = fname

        def args(self, it):
            self.m, self.phi = mach(it, program), it.const("phi")
            return [self.phi, self.m, self.m.turn], {}

        def expected(self, it):
            return expected(self.phi, self.m.cur)
    X.__name__ = fname
    return X


MCH = []
for suffix, program in (("_mch", False), ("_pmch", True)):
    MCH += [
        of_machine("rf_voltage" + suffix, program, lambda p, v: volt(p, v["v1"], v["v2"], v["h_ratio"], v["phi12"]) - drive(v)),
        of_machine("drf_voltage" + suffix, program, lambda p, v: dvolt(p, v["v1"], v["v2"], v["h_ratio"], v["phi12"])),
        of_machine("rfvolt_rf1" + suffix, program, lambda p, v: v["v1"] * S(p) - drive(v)),
        of_machine("drfvolt_rf1" + suffix, program, lambda p, v: v["v1"] * K(p)),
    ]


class Derivative(PyContract):
    """the second function is the derivative of the first one with respect to the phase"""
    file = PHYS
    outcomes = ("return",)

    def __init__(self):
        self.name = f"{self.df} is the derivative of {self.f}"

    def setup(self, it):
        self.phi = it.const("phi")
        f, df = it.get("utils.physics:" + self.f), it.get("utils.physics:" + self.df)
        a, b = self.args(it)
        return lambda: (it.call(f, [self.phi] + a, {}), it.call(df, [self.phi] + b, {}))

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        y, d = out.value
        try:
            ch.ob("derivative", num(d) == derivative(num(y), self.phi))
        except ValueError as x:
            ch.ob(str(x), False)


def pair(fa, dfa, build):
    class X(Derivative):
        f, df = fa, dfa
        args = build
    X.__name__ = dfa
    return X


def _plain2(self, it):
    v = consts(it)
    return [v[n] for n in RF[1:]], [v[n] for n in ("v1", "v2", "h_ratio", "phi12")]


def _plain1(self, it):
    v = consts(it)
    return [v[n] for n in ("v1", "bdot", "radius", "bending_rad", "charge")], [v["v1"]]


def _m(program):
    def b(self, it):
        m = mach(it, program)
        return [m, m.turn], [m, m.turn]
    return b


PAIRS = [pair("rf_voltage", "drf_voltage", _plain2), pair("rfvolt_rf1", "drfvolt_rf1", _plain1)]
for sfx, pr in (("_mch", False), ("_pmch", True)):
    PAIRS += [pair("rf_voltage" + sfx, "drf_voltage" + sfx, _m(pr)), pair("rfvolt_rf1" + sfx, "drfvolt_rf1" + sfx, _m(pr))]


class PhaseLow(Form):
    """the function whose zero is the lower end of the bunch"""
    name = "phase_low_mch"
    program = False

    def args(self, it):
        m, n, p = self.m, self.n, self.phi = mach(it, self.program), it.const("phase_length"), it.const("phi")
        it.assume(m.v["h_ratio"] > 0)
        return [p, m, n, m.turn], {}

    def expected(self, it):
        m, n, p = self.m, self.n, self.phi
        h = m.v["h_ratio"]
        p12 = m.a["phi12"].decl(m.turn) if self.program else m.v["phi12"]
        V = lambda k, i: m.a[f"vrf{k}_at_turn"].decl(i)
        return (V(1, m.turn) * (K(p + n) - K(p)) + V(2, m.turn) * (K(h * (p + n - p12)) - K(h * (p - p12))) / h
                + n * volt(m.a["phi0"].decl(m.turn), V(1, m.turn), V(2, m.turn), h, p12))


class PhaseLowProgram(PhaseLow):
    name = "phase_low_mch (programs)"
    fn = "phase_low_mch"
    program = True


class DPhaseLow(PyContract):
    """derivative of the function whose zero is the lower end of the bunch"""
    name, file = "dphase_low_mch", PHYS
    outcomes = ("return",)
    program = False

    def setup(self, it):
        self.m, self.n, self.phi = m, n, p = mach(it, self.program), it.const("phase_length"), it.const("phi")
        it.assume(m.v["h_ratio"] > 0)
        f, df = it.get("utils.physics:phase_low_mch"), it.get("utils.physics:dphase_low_mch")
        return lambda: (it.call(f, [p, m, n, m.turn], {}), it.call(df, [p, m, n, m.turn], {}))

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        y, d = out.value
        ch.ob("derivative at every turn", it.ctx.cancel(norm(num(d))) == it.ctx.cancel(norm(derivative(norm(num(y)), self.phi))))


class DPhaseLowProgram(DPhaseLow):
    name = "dphase_low_mch (programs)"
    program = True


class LorentzBeta(Form):
    name = "lorentz_beta"

    def args(self, it):
        m = self.m = mach(it, False)
        it.assume(m.v["e_rest"] > 0, m.a["e0"].decl(m.turn) >= m.v["e_rest"])
        return [m, m.turn], {}

    def expected(self, it):
        x = self.m.v["e_rest"] / self.m.a["e0"].decl(self.m.turn)
        return sqrt_f(norm(1 - x * x))


class BtoE(Form):
    name = "b_to_e"

    def args(self, it):
        self.m = mach(it, False)
        return [self.m], {}

    def expected(self, it):
        v = self.m.v
        x = v["q"] * v["b0"] * v["bending_rad"] * C
        return sqrt_f(norm(x * x + v["e_rest"] * v["e_rest"]))


class PerTurn(PyContract):
    """elementwise formulas over the turns"""
    file = PHYS
    outcomes = ("return",)

    def setup(self, it):
        self.m = mach(it, False)
        return lambda: it.call(it.get("utils.physics:" + self.name), [self.m], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        ch.elements("formula", out.value, [self.m.T], lambda i: self.expected(self.m.v, {k: a.decl(i) for k, a in self.m.a.items()}))


class Slip(PerTurn):
    name = "phase_slip_factor"

    def setup(self, it):
        r = PerTurn.setup(self, it)
        it.assume(self.m.v["trans_gamma"] != 0)
        return r

    def expected(self, v, a):
        return 1 - a["beta0"] * a["beta0"] - 1 / (v["trans_gamma"] * v["trans_gamma"])


class DPhase(PerTurn):
    name = "find_dphase"

    def setup(self, it):
        r = PerTurn.setup(self, it)
        it.forall([self.m.T], lambda i: And(self.m.a["e0"].decl(i) > 0, self.m.a["beta0"].decl(i) > 0))
        return r

    def expected(self, v, a):
        return 2 * pi_c * to_real(v["h_num"]) * a["eta0"] / (a["e0"] * a["beta0"] * a["beta0"])


class RevFreq(PerTurn):
    name = "revolution_freq"

    def setup(self, it):
        r = PerTurn.setup(self, it)
        it.assume(self.m.v["mean_orbit_rad"] > 0)
        return r

    def expected(self, v, a):
        return a["beta0"] * C / v["mean_orbit_rad"]


class PhiLimits(PyContract):
    """the search interval of the synchronous phase: around zero below transition, around pi above (reversed for negative charge)"""
    name, file = "find_phi_lower_upper", PHYS
    outcomes = ("return",)

    def setup(self, it):
        m = self.m = mach(it, False)
        it.assume(m.v["e_rest"] > 0, m.v["q"] != 0, m.v["trans_gamma"] > 0)
        return lambda: it.call(it.get("utils.physics:find_phi_lower_upper"), [m, m.turn], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        m = self.m
        lo, hi = out.value
        gamma = m.a["e0"].decl(m.turn) / m.v["e_rest"]
        below = m.v["q"] * (m.v["trans_gamma"] - gamma) > 0
        ch.ob("below transition", z3.Implies(below, And(num(lo) == -pi_c, num(hi) == pi_c)))
        ch.ob("above transition", z3.Implies(z3.Not(below), And(num(lo) == 0, num(hi) == 2 * pi_c)))


FORMULAS = PLAIN + [AtPhaseTimes] + MCH + [PhaseLow, PhaseLowProgram, LorentzBeta, BtoE, Slip, DPhase, RevFreq, PhiLimits]
DERIVATIVES = PAIRS + [DPhaseLow, DPhaseLowProgram]
ALL = FORMULAS + DERIVATIVES
