"""Contracts of the machine model: utils/physics.py, tracking/machine.py."""
import z3

from pyfront import PyContract
from pynp import make
from term import And, I, R, cos_f, norm, num, numval, is_num, pi_c, sin_f, sqrt_f, to_real, walk
from fractions import Fraction

PHYS = "longitudinal_tomography/utils/physics.py"
MACH = "longitudinal_tomography/tracking/machine.py"
C = 299792458
E_CHARGE = Fraction("1.602176634e-19")


def derivative(t, x):
    """d t / d x of a term built of + * / sin cos; x occurs in no denominator"""
    t = num(t)
    if t.eq(x):
        return z3.RealVal(1)
    if t.get_id() not in {y.get_id() for y in walk(t).values() if any(z.eq(x) for z in walk(y).values())}:
        return z3.RealVal(0)
    k, a = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*[derivative(y, x) for y in a])
    if k == z3.Z3_OP_SUB:
        return derivative(a[0], x) - z3.Sum(*[derivative(y, x) for y in a[1:]])
    if k == z3.Z3_OP_UMINUS:
        return -derivative(a[0], x)
    if k == z3.Z3_OP_MUL:
        s = z3.RealVal(0)
        for i in range(len(a)):
            p = derivative(a[i], x)
            for j, y in enumerate(a):
                if j != i:
                    p = p * y
            s = s + p
        return s
    if t.decl().eq(sin_f(x).decl()):
        return cos_f(norm(a[0])) * derivative(a[0], x)
    if t.decl().eq(cos_f(x).decl()):
        return -sin_f(norm(a[0])) * derivative(a[0], x)
    raise ValueError(f"derivative of {t}")


class SelfFieldCoeffs(PyContract):
    """self-field coefficient of every profile, with the values of the turn of the profile"""
    name, file = "calc_self_field_coeffs", PHYS

    def setup(self, it):
        P, D = it.const("nprofiles", I), it.const("dturns", I)
        it.assume(P >= 1, D >= 1)
        T = norm((P - 1) * D + 1)
        self.P, self.D = P, D
        self.om, self.be = it.array("omega", [T]), it.array("beta", [T])
        self.g, self.z, self.dt = it.const("g"), it.const("zwall"), it.const("dtbin")
        m = it.new("tracking.machine:Machine", nprofiles=P, dturns=D, omega_rev0=self.om, beta0=self.be, g_coupling=self.g, zwall_over_n=self.z, dtbin=self.dt)
        return lambda: it.call(it.get("utils.physics:calc_self_field_coeffs"), [m], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        b = lambda i: self.be.decl(norm(i * self.D))
        e = z3.RealVal(str(E_CHARGE))
        ch.elements("coefficient", out.value, [self.P], lambda i: e / self.om.decl(norm(i * self.D)) * (
            (1 / b(i) - b(i)) * self.g * pi_c * z3.RealVal("2e-7") * C - self.z) / (self.dt * self.dt))


class ValuesAtTurns(PyContract):
    """turn-by-turn values: time, energy, velocity, synchronous phase and what is derived of them"""
    file = MACH
    outcomes = ("return", "ValueError")
    positive, earlier = True, False
    name = "Machine.values_at_turns (positive charge, first frame as reference)"

    def setup(self, it):
        c = it.const
        D, ref, later = c("dturns", I), c("machine_ref", I), c("profiles_after_reference", I)
        it.assume(D >= 1, ref >= 0, later >= 0)
        it.assume(ref >= 1 if self.earlier else ref == 0)
        P = norm(ref + later + 1)
        self.T, self.i0 = norm((P - 1) * D + 1), norm(ref * D)
        v = {n: c(n) for n in ("vrf1", "vrf1dot", "vrf2", "vrf2dot", "h_ratio", "phi12", "b0", "bdot", "mean_orbit_rad", "bending_rad", "e_rest",
                               "trans_gamma", "q", "dtbin")}
        v["h_num"] = c("h_num", I)
        self.v = v
        it.assume(*[v[n] > 0 for n in ("b0", "mean_orbit_rad", "bending_rad", "e_rest", "dtbin", "h_num")], v["h_ratio"] >= 0, v["q"] > 0 if self.positive else v["q"] < 0)
        ints = {n: c(n, I) for n in ("filmstart", "filmstop", "filmstep", "niter", "snpt", "beam_ref_frame")}
        it.assume(ints["filmstart"] == 0, ints["filmstop"] == 0, ints["filmstep"] == 1, ints["niter"] == 1, ints["snpt"] == 1, ints["beam_ref_frame"] == 0)
        self.m = it.new("tracking.machine:Machine", nprofiles=P, dturns=D, machine_ref_frame=ref, pickup_sensitivity=None, g_coupling=None, **v, **ints)
        f = it.getattr(self.m, "values_at_turns")
        return lambda: it.call(f, [], {})

    def voltage(self, i, phi):
        v = self.v
        t = self.a["time_at_turn"].get(i)
        return (v["vrf1"] + v["vrf1dot"] * t) * sin_f(norm(phi)) + (v["vrf2"] + v["vrf2dot"] * t) * sin_f(norm(v["h_ratio"] * (phi - v["phi12"])))

    def slope(self, i, phi):
        v = self.v
        t = self.a["time_at_turn"].get(i)
        return (v["vrf1"] + v["vrf1dot"] * t) * cos_f(norm(phi)) + v["h_ratio"] * (v["vrf2"] + v["vrf2dot"] * t) * cos_f(norm(v["h_ratio"] * (phi - v["phi12"])))

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("raises only ValueError (no synchronous phase found)", out.raised("ValueError"))
            return
        self.a = a = self.m.attrs
        v, T, i0 = self.v, self.T, self.i0
        for n in ("time_at_turn", "e0", "beta0", "phi0", "deltaE0", "eta0", "drift_coef", "omega_rev0", "vrf1_at_turn", "vrf2_at_turn"):
            if not ch.shape(n, a[n], [T]):
                return
        e, b, t, p = a["e0"].get, a["beta0"].get, a["time_at_turn"].get, a["phi0"].get
        ch.ob("time is zero at the reference turn", t(i0) == 0)
        one = z3.IntVal(1)

        def each(text, fn):
            """for all turns i >= 1, in the three regions"""
            i = it.const("i", I)
            for where, cond in (("before the reference turn", i < i0), ("at the reference turn", i == i0), ("after the reference turn", i > i0)):
                with it.ctx.scope(i >= 1, i < T, cond):
                    ch.ob(f"{text}, {where}", fn(i))
        each("revolution time between turns", lambda i: t(i) == t(i - 1) + 2 * pi_c * v["mean_orbit_rad"] / (b(i - 1) * C))
        each("energy gain is the charge times the voltage at the synchronous phase of the turn", lambda i: e(i) == e(i - 1) + v["q"] * self.voltage(i, p(i)))
        sq = lambda x: x * x
        ch.ob("energy at the reference turn follows from the magnetic field", norm(e(i0)) == sqrt_f(norm(
            sq(v["q"] * v["b0"] * v["bending_rad"] * C) + sq(v["e_rest"]))))
        i = it.const("i", I)
        sgn = z3.If(v["q"] > 0, z3.RealVal(1), z3.RealVal(-1))
        solves = z3.Function("solves", R, R, R, z3.BoolSort())
        for where, cond in (("before the reference turn", i < i0), ("at the reference turn", i == i0), ("after the reference turn", i > i0)):
            with it.ctx.scope(i >= 0, i < T, cond):
                ch.ob(f"relativistic beta, {where}", norm(b(i)) == sqrt_f(norm(1 - sq(v["e_rest"] / e(i)))))
                x = self.voltage(i, p(i)) - 2 * pi_c * v["mean_orbit_rad"] * v["bending_rad"] * v["bdot"] * sgn
                ch.ob(f"synchronous phase solves the equation of the turn, {where}", solves(norm(x), norm(self.slope(i, p(i))), norm(p(i))))
        with it.ctx.scope(i > i0, i < T):
            ch.ob("energy change per turn after the reference turn", a["deltaE0"].get(i) == e(i) - e(i - 1))
        ch.elements("phase slip factor", a["eta0"], [T], lambda i: 1 - b(i) * b(i) - 1 / (v["trans_gamma"] * v["trans_gamma"]))
        ch.elements("drift coefficient", a["drift_coef"], [T], lambda i: 2 * pi_c * to_real(v["h_num"]) * a["eta0"].get(i) / (e(i) * b(i) * b(i)))
        ch.elements("revolution frequency", a["omega_rev0"], [T], lambda i: b(i) * C / v["mean_orbit_rad"])
        ch.elements("voltage 1", a["vrf1_at_turn"], [T], lambda i: v["vrf1"] + v["vrf1dot"] * t(i))
        ch.elements("voltage 2", a["vrf2_at_turn"], [T], lambda i: v["vrf2"] + v["vrf2dot"] * t(i))


class ValuesAtTurnsNeg(ValuesAtTurns):
    positive = False
    name = "Machine.values_at_turns (negative charge, first frame as reference)"


class ValuesAtTurnsRef(ValuesAtTurns):
    earlier = True
    name = "Machine.values_at_turns (positive charge, later frame as reference)"


class ValuesAtTurnsNegRef(ValuesAtTurns):
    positive, earlier = False, True
    name = "Machine.values_at_turns (negative charge, later frame as reference)"


class Programs(PyContract):
    """the machine with programs: the same formulas over the interpolated momentum"""
    name, file = "ProgramsMachine.values_at_turns (two harmonics, phase program)", "longitudinal_tomography/tracking/programs_machine.py"
    outcomes = ("return",)
    phase, harmonics, given = 1, 2, None

    @property
    def contracts(self):
        q = "longitudinal_tomography.tracking.programs_machine:ProgramsMachine."

        def momentum(it, f, args, kw):
            N = self.N = it.const("turns", I)
            it.assume(N >= 1, self.i0 < N)
            it.setattr(args[0], "i0", self.i0)
            self.tm, self.p = it.array("momentum_time", [N]), it.array("momentum", [N])
            it.forall([N], lambda i: self.p.decl(i) > 0)
            return (self.tm, self.p)

        def phase(it, f, args, kw):
            self.found = dict(args[0].attrs)
        return {q + "_interpolate_momentum": momentum, q + "find_synchronous_phase": phase}

    def setup(self, it):
        c = it.const
        self.i0, self.found = c("i0", I), None
        it.assume(self.i0 >= 0)
        k = c("samples", I)
        it.assume(k >= 1)
        self.volt, self.ph = it.array("voltage_raw", [1 + self.harmonics, k]), it.array("phase_raw", [1 + self.harmonics, k])
        self.v = v = {n: c(n) for n in ("mean_orbit_rad", "bending_rad", "e_rest", "trans_gamma", "q", "phi12")}
        h1, h2 = self.h = c("harmonic1", I), c("harmonic2", I)
        v["h_num"] = c("h_num", I)
        it.assume(*[v[n] > 0 for n in ("mean_orbit_rad", "bending_rad", "e_rest", "h_num")], v["q"] != 0, h1 > 0, h2 > 0)
        self.m = it.new("tracking.programs_machine:ProgramsMachine", voltage_raw=self.volt, phase_raw=self.ph if self.phase == 1 else None, process_phase=self.phase,
                        harmonics=[h1, h2][:self.harmonics], momentum_raw=it.array("momentum_raw", [2, k]), circumference=norm(2 * pi_c * v["mean_orbit_rad"]), **v)
        self.k = k
        if self.given is not None:
            n = self.n = c("offsets", I)
            it.assume(n >= 1)
            self.off = self.m.attrs["phi12"] = it.array("offset", [n] if self.given == 1 else [2, n])
            if self.given == 2:
                it.assume(n >= 2)
        f = it.getattr(self.m, "values_at_turns")
        return lambda: it.call(f, [], {})

    def post(self, it, ch, out):
        if self.given == 1:
            fits = z3.Or(self.n == 1, self.n == self.k)
            if not out.ok:
                ch.ob("raises only ValueError", out.raised("ValueError"))
                return ch.ob("only values over other times are rejected", z3.Not(fits))
            ch.ob("accepts a value or one for every time of the voltage program", fits)
        elif not out.ok:
            return ch.ob("does not raise", False)
        a, v, N = self.m.attrs, self.v, self.N
        for n in ("time_at_turn", "e0", "beta0", "phi0", "eta0", "drift_coef", "omega_rev0", "vrf1_at_turn", "vrf2_at_turn", "bdot"):
            if not ch.shape(n, a[n], [N]):
                return
        e, b, t, p = a["e0"].get, a["beta0"].get, a["time_at_turn"].get, self.p.decl
        sq = lambda x: x * x
        i = it.const("i", I)
        with it.ctx.scope(i >= 0, i < N):
            ch.ob("energy follows from the momentum", norm(e(i)) == sqrt_f(norm(sq(p(i)) + sq(v["e_rest"]))))
            ch.ob("relativistic beta", norm(sq(b(i)) * (1 + sq(v["e_rest"] / p(i)))) == 1)
            ch.ob("beta is positive", b(i) > 0)
        ch.ob("time is zero at the reference turn", t(self.i0) == 0)
        with it.ctx.scope(i >= 1, i < N):
            ch.ob("revolution time", it.ctx.simp(norm(t(i) - t(i - 1))) == 2 * pi_c * v["mean_orbit_rad"] / (b(i) * C))
        ch.elements("phase slip factor", a["eta0"], [N], lambda i: 1 - b(i) * b(i) - 1 / (v["trans_gamma"] * v["trans_gamma"]))
        ch.elements("drift coefficient", a["drift_coef"], [N], lambda i: 2 * pi_c * to_real(v["h_num"]) * a["eta0"].get(i) / (e(i) * b(i) * b(i)))
        ch.elements("revolution frequency", a["omega_rev0"], [N], lambda i: b(i) * C / v["mean_orbit_rad"])
        f, x = it.calls[-1][1]["args"]
        ch.elements("the field follows from the momentum", f, [N], lambda i: p(i) / (v["bending_rad"] * v["q"] * C))
        ch.elements("its derivative is taken over the time of the turns", x, [N], lambda i: t(i))
        from pynp import interp
        K = self.volt.shape[1]
        tab = lambda w, j: make([K], "f", lambda *ix: w.decl(z3.IntVal(j), *ix))
        at = lambda w, j, i: interp(it, self.tm.decl(i), tab(w, 0), tab(w, j))
        ch.elements("voltage 1 is interpolated", a["vrf1_at_turn"], [N], lambda i: at(self.volt, 1, i))
        h1, h2 = self.h
        ratio = to_real(h2) / to_real(h1) if self.harmonics == 2 else z3.RealVal(1)
        ch.equal("ratio of the harmonics", a["h_ratio"], ratio)
        if self.harmonics == 2:
            ch.elements("voltage 2 is interpolated", a["vrf2_at_turn"], [N], lambda i: at(self.volt, 2, i))
        else:
            ch.elements("no second voltage", a["vrf2_at_turn"], [N], lambda i: z3.RealVal(0))
        if self.phase == 1:
            p2 = lambda i: at(self.ph, 2, i) if self.harmonics == 2 else z3.RealVal(0)
            ch.elements("phase between the harmonics", a["phi12"], [N], lambda i: (at(self.ph, 1, i) - p2(i) + pi_c) / ratio)
        elif self.given:
            x = a["phi12"]
            if self.given == 1 and not hasattr(x, "shape"):
                ch.ob("one value stays the value", self.n == 1)
                ch.equal("the value", x, self.off.decl(z3.IntVal(0)))
            else:
                ts = (lambda *ix: self.volt.decl(z3.IntVal(0), *ix)) if self.given == 1 else lambda *ix: self.off.decl(z3.IntVal(0), *ix)
                fs = self.off.decl if self.given == 1 else lambda *ix: self.off.decl(z3.IntVal(1), *ix)
                ch.elements("phase between the harmonics is interpolated", x, [N], lambda i: interp(it, self.tm.decl(i), make([self.k if self.given == 1 else self.n], "f", ts), make([self.n], "f", fs)))
        elif self.phase == 0:
            ch.ob("the given phase between the harmonics is kept", a["phi12"] is v["phi12"])
        else:
            ch.ob("no phase between the harmonics", a["phi12"] is None)
        ch.ob("the synchronous phase is searched with the new values", (self.found is None) if self.phase == 2 else self.found is not None and all(
            self.found[n] is a[n] for n in ("time_at_turn", "e0", "vrf1_at_turn", "vrf2_at_turn", "bdot", "phi12", "h_ratio", "i0")))


class Programs1(Programs):
    name, harmonics = "ProgramsMachine.values_at_turns (one harmonic, phase program)", 1


class ProgramsPhi12(Programs):
    name, phase = "ProgramsMachine.values_at_turns (phi12 given)", 0


class ProgramsPhi12Values(Programs):
    name, phase, given, outcomes = "ProgramsMachine.values_at_turns (phi12 values)", 0, 1, ("return", "ValueError")


class ProgramsPhi12Table(Programs):
    name, phase, given = "ProgramsMachine.values_at_turns (phi12 table)", 0, 2


class ProgramsLater(Programs):
    name, phase = "ProgramsMachine.values_at_turns (phi12 later)", 2


class ProgramsPhase(PyContract):
    """the synchronous phase of every turn solves the equation of that turn"""
    name, file = "ProgramsMachine.find_synchronous_phase (phi12 per turn)", "longitudinal_tomography/tracking/programs_machine.py"
    outcomes = ("return", "ValueError")
    kind = "array"

    def setup(self, it):
        c = it.const
        N, i0 = self.N, self.i0 = c("turns", I), c("i0", I)
        it.assume(N >= 1, i0 >= 0, i0 < N)
        self.v = v = {n: c(n) for n in ("mean_orbit_rad", "bending_rad", "e_rest", "trans_gamma", "q", "h_ratio")}
        it.assume(v["q"] != 0, v["e_rest"] > 0, v["h_ratio"] > 0)
        self.w = {n: it.array(n, [N]) for n in ("vrf1_at_turn", "vrf2_at_turn", "bdot", "e0")}
        self.phi12 = dict(array=lambda: it.array("phi12", [N]), number=lambda: c("phi12"), none=lambda: None)[self.kind]()
        self.m = it.new("tracking.programs_machine:ProgramsMachine", phi12=self.phi12, phi0=None, i0=i0, n_turns=N, **v, **self.w)
        return lambda: it.call(it.getattr(self.m, "find_synchronous_phase"), [], {})

    def post(self, it, ch, out):
        if self.kind == "none":
            return ch.ob("phi12 is needed", out.raised("ValueError"))
        if not out.ok:
            return ch.ob("raises only ValueError (no synchronous phase found)", out.raised("ValueError"))
        v, N, i0 = self.v, self.N, self.i0
        if not ch.shape("phi0", self.m.attrs["phi0"], [N]):
            return
        p = self.m.attrs["phi0"].get
        g = {n: a.decl for n, a in self.w.items()}
        off = (lambda i: self.phi12.decl(i)) if self.kind == "array" else lambda i: self.phi12
        sgn = z3.If(v["q"] > 0, z3.RealVal(1), z3.RealVal(-1))
        solves = z3.Function("solves", R, R, R, z3.BoolSort())
        i = it.const("i", I)
        for where, cond in (("before the reference turn", i < i0), ("at the reference turn", i == i0), ("after the reference turn", i > i0)):
            with it.ctx.scope(i >= 0, i < N, cond):
                a, b = norm(p(i)), norm(v["h_ratio"] * (p(i) - off(i)))
                x = g["vrf1_at_turn"](i) * sin_f(a) + g["vrf2_at_turn"](i) * sin_f(b) - 2 * pi_c * v["mean_orbit_rad"] * v["bending_rad"] * g["bdot"](i) * sgn
                d = g["vrf1_at_turn"](i) * cos_f(a) + v["h_ratio"] * g["vrf2_at_turn"](i) * cos_f(b)
                ch.ob(f"synchronous phase solves the equation of the turn, {where}", solves(norm(x), norm(d), a))


class ProgramsPhaseNumber(ProgramsPhase):
    name, kind = "ProgramsMachine.find_synchronous_phase (phi12 a number)", "number"


class ProgramsPhaseNone(ProgramsPhase):
    name, kind, outcomes = "ProgramsMachine.find_synchronous_phase (no phi12)", "none", ("ValueError",)


ALL = [SelfFieldCoeffs, ValuesAtTurns, ValuesAtTurnsNeg, ValuesAtTurnsRef, ValuesAtTurnsNegRef, Programs, Programs1, ProgramsPhi12, ProgramsPhi12Values, ProgramsPhi12Table, ProgramsLater, ProgramsPhase, ProgramsPhaseNumber, ProgramsPhaseNone]
