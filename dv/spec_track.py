"""Contracts of the tracking objects, the phase space image and the self fields."""
import z3

from pyfront import PyContract, Opaque
from pynp import NDArr
from spec_phys import C, E_CHARGE
from term import And, I, R, norm, num, pi_c, to_real

TRK0 = "longitudinal_tomography/tracking/__tracking.py"
TRK = "longitudinal_tomography/tracking/tracking.py"
DT = "longitudinal_tomography/data/data_treatment.py"
PROF = "longitudinal_tomography/data/profiles.py"


def machine(it, **extra):
    P, D = it.const("nprofiles", I), it.const("dturns", I)
    it.assume(P >= 1, D >= 1)
    T = norm((P - 1) * D + 1)
    arr = {n: it.array(n, [T]) for n in ("vrf1_at_turn", "vrf2_at_turn", "drift_coef", "phi0", "deltaE0", "omega_rev0", "beta0", "e0", "eta0", "time_at_turn")}
    m = dict(arr, nprofiles=P, dturns=D, h_num=it.const("h_num", I), dtbin=it.const("dtbin"), synch_part_y=it.const("synch_y"), synch_part_x=it.const("synch_x"),
             q=it.const("q"), phi12=it.const("phi12"), h_ratio=it.const("h_ratio"), _nbins=it.const("nbins", I))
    it.assume(m["h_num"] >= 1, m["dtbin"] > 0, m["_nbins"] >= 1)
    m.update(extra)
    o = it.new("tracking.machine:Machine", **m)
    o.T, o.arr = T, arr
    return o


class TrackerInit(PyContract):
    """a tracker needs the turn-by-turn values and a valid synchronous particle"""
    name, file = "ParticleTracker.__init__", TRK0
    outcomes = ("return", "MachineParameterError")
    FIELDS = ("vrf1_at_turn", "vrf2_at_turn", "q", "nprofiles", "drift_coef", "dturns", "phi0", "phi12", "h_ratio", "deltaE0", "synch_part_x")

    def setup(self, it):
        m = self.m = machine(it)
        self.P, self.D = m.attrs["nprofiles"], m.attrs["dturns"]
        k = it.choose(len(self.FIELDS) + 2)
        self.missing, self.alien = None, k == len(self.FIELDS) + 1
        if k < len(self.FIELDS):
            self.missing = self.FIELDS[k]
            m.attrs[self.missing] = None
        arg = 3 if self.alien else m
        return lambda: it.call(it.get("tracking.tracking:Tracking"), [arg], {})

    def post(self, it, ch, out):
        if self.missing or self.alien:
            return ch.ob("an incomplete machine is rejected", out.raised("MachineParameterError"))
        x = self.m.attrs["synch_part_x"]
        if not out.ok:
            ch.ob("raises only MachineParameterError", out.raised("MachineParameterError"))
            return ch.ob("rejects only machines without a synchronous particle", x < 0)
        ch.ob("accepts only machines with a synchronous particle", x >= 0)
        o = out.value
        ch.equal("number of turns", it.getattr(o, "nturns"), self.D * (self.P - 1))
        ch.ob("no self fields", it.getattr(o, "self_field_flag") is False)
        ch.ob("the machine is kept", it.getattr(o, "machine") is self.m)


class Track(PyContract):
    """tracking starts from the given particles with the machine's values and leaves the caller's arrays alone"""
    name, file = "Tracking.track", TRK
    outcomes = ("return", "IndexError", "ValueError")

    def setup(self, it):
        m = self.m = machine(it)
        self.N, self.rec, self.dt = it.const("nparts", I), it.const("recprof", I), it.const("deltaturn", I)
        it.assume(self.N >= 1)
        self.dphi, self.den = it.array("dphi", [self.N]), it.array("denergy", [self.N])
        o = self.o = it.new("tracking.tracking:Tracking", machine=m, particles=it.new("tracking.particles:Particles", _dphi=None, _denergy=None, dEbin=None, xorigin=None,
                                                                                       imin=None, imax=None, jmin=None, jmax=None),
                            nturns=norm(m.attrs["dturns"] * (m.attrs["nprofiles"] - 1)), _self_field_flag=False, _ftn_flag=False, _profile_charge=None, _phiwrap=None, _vself=None)
        return lambda: it.call(it.getattr(o, "track"), [self.rec], dict(init_distr=(self.dphi, self.den), deltaturn=self.dt))

    def post(self, it, ch, out):
        a = self.m.attrs
        P, D, N = a["nprofiles"], a["dturns"], self.N
        rec = z3.If(self.rec < 0, self.rec + P, self.rec)
        index = And(self.rec >= -P, self.rec < P)
        turn = D * rec + self.dt
        ab = z3.If(self.dt >= 0, self.dt, -self.dt)
        valid = And(index, ab < D, turn >= 0, turn <= D * (P - 1))
        if not out.ok:
            ch.ob("raises only IndexError or ValueError", out.raised("IndexError") or out.raised("ValueError"))
            if out.raised("IndexError"):
                ch.ob("index error only outside of the profiles", z3.Not(index))
            else:
                ch.ob("value error only for turns outside of the measurement", z3.Not(valid))
            return
        calls = [c for c in it.calls if c[0] == "kick_and_drift"]
        if len(calls) != 1:
            return ch.ob("the particles are tracked once", False)
        s, live = calls[0][1]["snapshot"], calls[0][1]["named"]
        ch.ob("tracks only turns of the measurement", valid)
        ch.elements("starts from the given phases", s["dphi"], [N], lambda i: self.dphi.decl(i))
        ch.elements("starts from the given energies", s["denergy"], [N], lambda i: self.den.decl(i))
        for arg, n in (("rfv1", "vrf1_at_turn"), ("rfv2", "vrf2_at_turn")):
            ch.elements(f"{arg} is the voltage times the charge", s[arg], [self.m.T], lambda i, n=n: self.m.arr[n].decl(i) * a["q"])
        for arg in ("phi0", "deltaE0", "drift_coef"):
            ch.elements(f"{arg} of the machine", s[arg], [self.m.T], lambda i, n=arg: self.m.arr[n].decl(i))
        ch.equal("phi12", s["phi12"], a["phi12"])
        ch.equal("h_ratio", s["h_ratio"], a["h_ratio"])
        ch.equal("dturns", s["dturns"], D)
        ch.equal("reconstructed profile", s["rec_prof"], rec)
        ch.equal("offset of the turn", s["deltaturn"], self.dt)
        ch.equal("number of turns", s["nturns"], D * (P - 1))
        ch.equal("number of particles", s["nparts"], N)
        ch.shape("output x", s["xp"], [P, N])
        ch.shape("output y", s["yp"], [P, N])
        xp, yp = out.value
        ch.elements("returns the tracked phases", xp, [P, N], lambda p, i: live["xp"].get(p, i))
        ch.elements("returns the tracked energies", yp, [P, N], lambda p, i: live["yp"].get(p, i))
        ch.elements("the caller's phases are not modified", self.dphi, [N], lambda i: self.dphi.decl(i))
        ch.elements("the caller's energies are not modified", self.den, [N], lambda i: self.den.decl(i))
        ch.elements("the start phases are kept", it.getattr(self.o, "init_dphi"), [N], lambda i: self.dphi.decl(i))
        ch.elements("the start energies are kept", it.getattr(self.o, "init_denergy"), [N], lambda i: self.den.decl(i))


class Coordinates(PyContract):
    """a distribution has two arrays of the same length"""
    name, file = "Particles.coordinates_dphi_denergy (setter)", "longitudinal_tomography/tracking/particles.py"
    outcomes = ("return", "InvalidParticleError")

    def setup(self, it):
        self.n, self.k = it.const("n", I), it.const("k", I)
        it.assume(self.n >= 0, self.k >= 0)
        self.a, self.b = it.array("a", [self.n]), it.array("b", [self.k])
        self.kind = it.choose(4)
        self.v = [(self.a, self.b), 1, (self.a,), (it.const("s"), self.b)][self.kind]
        self.o = it.new("tracking.particles:Particles", _dphi=None, _denergy=None)
        return lambda: it.setattr(self.o, "coordinates_dphi_denergy", self.v)

    def post(self, it, ch, out):
        if self.kind:
            return ch.ob("anything but two arrays is rejected", out.raised("InvalidParticleError"))
        if not out.ok:
            ch.ob("raises only InvalidParticleError", out.raised("InvalidParticleError"))
            return ch.ob("rejects only arrays of different lengths", self.n != self.k)
        ch.ob("accepts only arrays of the same length", self.n == self.k)
        x, y = it.getattr(self.o, "coordinates_dphi_denergy")
        ch.elements("phases", x, [self.n], lambda i: self.a.decl(i))
        ch.elements("energies", y, [self.n], lambda i: self.b.decl(i))


class PhaseSpace(PyContract):
    """axes of the image and what is handed to the binning"""
    name, file = "phase_space_from_coordinates", DT

    def setup(self, it):
        self.n, self.N = it.const("nbins", I), it.const("nparts", I)
        it.assume(self.n >= 1, self.N >= 0)
        self.c = [it.const(x) for x in ("synch_x", "synch_y", "dtbin", "dEbin")]
        self.xp, self.yp, self.w = it.array("xp", [self.N], "i"), it.array("yp", [self.N], "i"), it.array("weight", [self.N])
        f = it.get("data.data_treatment:phase_space_from_coordinates")
        return lambda: it.call(f, [self.xp, self.yp, self.w, self.n] + self.c, {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        t, e, d = out.value
        sx, sy, dt, de = self.c
        ch.elements("time axis", t, [self.n], lambda i: (to_real(i) - sx) * dt)
        ch.elements("energy axis", e, [self.n], lambda i: (to_real(i) - sy) * de)
        calls = [c for c in it.calls if c[0] == "make_phase_space"]
        if len(calls) != 1:
            return ch.ob("the particles are binned once", False)
        a = calls[0][1]["named"]
        ch.elements("x", a["xp"], [self.N], lambda i: self.xp.decl(i))
        ch.elements("y", a["yp"], [self.N], lambda i: self.yp.decl(i))
        ch.elements("weights", a["weights"], [self.N], lambda i: self.w.decl(i))
        ch.equal("number of bins", a["n_bins"], self.n)
        ch.elements("the image is returned", d, [self.n, self.n], lambda i, j: calls[0][1]["result"].get(i, j))


class PhaseSpaceTomo(PyContract):
    """the image of one profile of a finished reconstruction"""
    name, file = "phase_space", DT
    outcomes = ("return", "InputError")

    def setup(self, it):
        n, N, P = self.n, self.N, self.P = [it.const(x, I) for x in ("nbins", "nparts", "nprofs")]
        it.assume(n >= 1, N >= 0, P >= 1)
        self.k = it.const("index", I)
        it.assume(self.k >= -P, self.k < P)
        self.c = dict(zip(("synch_part_x", "synch_part_y", "dtbin", "dEbin"), [it.const(x) for x in ("synch_x", "synch_y", "dtbin", "dEbin")]))
        self.none = bool(it.choose(2))
        m = it.new("tracking.machine:Machine", _nbins=n, **dict(self.c, **({"dEbin": None} if self.none else {})))
        self.xp, self.yp, self.w = it.array("xp", [N, P], "i"), it.array("yp", [N, P], "i"), it.array("weight", [N])
        t = it.new("tomography.tomography:Tomography", _xp=self.xp, _yp=self.yp, weight=self.w)
        f = it.get("data.data_treatment:phase_space")
        return lambda: it.call(f, [t, m, self.k], {})

    def post(self, it, ch, out):
        if self.none:
            return ch.ob("an energy scale is needed", out.raised("InputError"))
        if not out.ok:
            return ch.ob("does not raise", False)
        t, e, d = out.value
        c = self.c
        p = z3.If(self.k < 0, self.k + self.P, self.k)
        ch.elements("time axis", t, [self.n], lambda i: (to_real(i) - c["synch_part_x"]) * c["dtbin"])
        ch.elements("energy axis", e, [self.n], lambda i: (to_real(i) - c["synch_part_y"]) * c["dEbin"])
        a = [x for x in it.calls if x[0] == "make_phase_space"][0][1]["named"]
        for nm, arr in (("xp", self.xp), ("yp", self.yp)):
            for where, cond, col in (("", self.k >= 0, self.k), (" from the end", self.k < 0, self.k + self.P)):
                with it.ctx.scope(cond):
                    ch.elements(f"{nm} of the profile{where}", a[nm], [self.N], lambda i: arr.decl(i, norm(col)))
        ch.elements("weights", a["weights"], [self.N], lambda i: self.w.decl(i))


class ProfileCharge(PyContract):
    """charge of the reference profile"""
    name, file = "Profiles.calc_profilecharge", PROF

    def setup(self, it):
        P, B = self.P, self.B = it.const("nprofiles", I), it.const("nbins", I)
        self.ref, self.ts, self.pu = it.const("beam_ref", I), it.const("sampling_time"), it.const("pickup")
        it.assume(P >= 1, B >= 1, self.ref >= 0, self.ref < P, self.pu > 0)
        self.w = it.array("waterfall", [P, B])
        m = it.new("tracking.machine:Machine", nprofiles=P, beam_ref_frame=self.ref, pickup_sensitivity=self.pu)
        self.o = it.new("data.profiles:Profiles", machine=m, sampling_time=self.ts, _waterfall=self.w, profile_charge=None)
        return lambda: it.call(it.getattr(self.o, "calc_profilecharge"), [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        s = it.ctx.sum(self.B, lambda b: self.w.decl(self.ref, b))
        q = norm(num(it.getattr(self.o, "profile_charge")))
        e = z3.RealVal(str(E_CHARGE))
        ch.ob("sum of the reference profile times sampling time over charge and sensitivity", it.ctx.simp(q) == it.ctx.simp(norm(s * self.ts / (e * self.pu))))


class WrapLength(PyContract):
    """the phase wrap is a whole number of RF periods that covers the image, and the wrap length covers the wrap"""
    name, file = "Profiles._find_wrap_length", PROF

    def setup(self, it):
        m = self.m = machine(it, bdot=it.const("bdot"))
        it.forall([m.T], lambda t: m.arr["omega_rev0"].decl(t) > 0)
        it.assume(m.attrs["nprofiles"] >= 2)
        it.product(m.attrs["nprofiles"] - 1, m.attrs["dturns"])
        self.o = it.new("data.profiles:Profiles", machine=m)
        return lambda: it.call(it.getattr(self.o, "_find_wrap_length"), [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        a = self.m.attrs
        wrap, length = [num(x) for x in out.value]
        up = a["bdot"] > 0
        for where, cond, turn in (("accelerating", up, norm((a["nprofiles"] - 1) * a["dturns"] - 1)), ("otherwise", z3.Not(up), z3.IntVal(0))):
            with it.ctx.scope(cond):
                dr = norm(to_real(a["h_num"]) * self.m.arr["omega_rev0"].decl(turn) * a["dtbin"])
                w = norm(wrap)
                ch.ob(f"the wrap covers the image, {where}", it.ctx.cancel(norm(w / (2 * pi_c))) >= it.ctx.cancel(norm(to_real(a["_nbins"]) * dr / (2 * pi_c))))
                ch.ob(f"less than one more period, {where}", it.ctx.cancel(norm(w / (2 * pi_c))) < it.ctx.cancel(norm(to_real(a["_nbins"]) * dr / (2 * pi_c))) + 1)
                ch.ob(f"whole number of periods, {where}", z3.IsInt(it.ctx.cancel(norm(w / (2 * pi_c)))))
                ch.ob(f"the wrap length covers the wrap, {where}", And(to_real(length) >= norm(w / dr), to_real(length) < norm(w / dr) + 1))


class SelfVoltage(PyContract):
    """self field between two profiles is the mean of the fields of both"""
    name, file = "Profiles._calculate_self", PROF

    def setup(self, it):
        m = self.m = machine(it, g_coupling=it.const("g"), zwall_over_n=it.const("zwall"))
        self.q, self.L = it.const("charge"), it.const("wrap_length", I)
        P, B = m.attrs["nprofiles"], m.attrs["_nbins"]
        it.assume(self.L + 1 >= B)
        self.ds = it.array("dsprofiles", [P, B])
        self.o = it.new("data.profiles:Profiles", machine=m, profile_charge=self.q, wrap_length=self.L, dsprofiles=self.ds)
        return lambda: it.call(it.getattr(self.o, "_calculate_self"), [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        m = self.m
        P, B, D = m.attrs["nprofiles"], m.attrs["_nbins"], m.attrs["dturns"]
        e = z3.RealVal(str(E_CHARGE))

        def sfc(i):
            t = norm(i * D)
            b = m.arr["beta0"].decl(t)
            return e / m.arr["omega_rev0"].decl(t) * ((1 / b - b) * m.attrs["g_coupling"] * pi_c * z3.RealVal("2e-7") * C - m.attrs["zwall_over_n"]) / (m.attrs["dtbin"] * m.attrs["dtbin"])
        v = out.value
        if not ch.shape("self voltage", v, [P - 1, self.L + 1]):
            return
        i, b = it.const("i", I), it.const("b", I)
        with it.ctx.scope(i >= 0, i < P - 1, b >= 0, b < self.L + 1):
            with it.ctx.scope(b < B):
                x = self.q * (sfc(i) * self.ds.decl(i, b) + sfc(norm(i + 1)) * self.ds.decl(norm(i + 1), b)) / 2
                ch.ob("mean of the fields of both profiles", it.ctx.simp(norm(v.get(i, b))) == it.ctx.simp(norm(x)))
            with it.ctx.scope(b >= B):
                ch.ob("no field outside of the image", v.get(i, b) == 0)


class NeedsCharge(PyContract):
    """self fields need the profile charge; filtered profiles need the shape of the waterfall"""
    name, file = "Profiles.calc_self_fields", PROF
    outcomes = ("return", "ProfileChargeNotCalculated", "FilteredProfilesError")

    @property
    def contracts(self):
        """callees by contract: the wrap covers the image, the self voltage has a row per interval"""
        def wrap(it, f, args, kw):
            w, n = it.sym("phiwrap", R), it.sym("wrap_length", I)
            it.assume(n >= self.m.attrs["_nbins"], w > 0)
            self.wrap = (w, n)
            return (w, n)

        def volt(it, f, args, kw):
            import pynp
            o = args[0]
            n = num(it.getattr(o, "wrap_length"))
            self.vs = pynp.fresh_array(it, "vself", [norm(self.m.attrs["nprofiles"] - 1), norm(n + 1)], "f")
            return self.vs
        q = "longitudinal_tomography.data.profiles:Profiles."
        return {q + "_find_wrap_length": wrap, q + "_calculate_self": volt}

    def setup(self, it):
        m = self.m = machine(it, g_coupling=it.const("g"), zwall_over_n=it.const("zwall"), bdot=it.const("bdot"))
        it.forall([m.T], lambda t: m.arr["omega_rev0"].decl(t) > 0)
        it.assume(m.attrs["nprofiles"] >= 2)
        P, B = m.attrs["nprofiles"], m.attrs["_nbins"]
        n, k = self.n, self.k = it.const("rows", I), it.const("cols", I)
        it.assume(n >= 1, k >= 1)
        self.q = None if it.choose(2) else it.const("charge")
        self.f = it.array("filtered", [n, k])
        self.o = it.new("data.profiles:Profiles", machine=m, profile_charge=self.q, _waterfall=it.array("waterfall", [P, B]), wrap_length=None, dsprofiles=None, phiwrap=None, vself=None)
        return lambda: it.call(it.getattr(self.o, "calc_self_fields"), [], dict(filtered_profiles=self.f))

    def post(self, it, ch, out):
        P, B = self.m.attrs["nprofiles"], self.m.attrs["_nbins"]
        if self.q is None:
            return ch.ob("the profile charge is needed", out.raised("ProfileChargeNotCalculated"))
        same = And(self.n == P, self.k == B)
        if not out.ok:
            ch.ob("raises only FilteredProfilesError", out.raised("FilteredProfilesError"))
            return ch.ob("rejects only another shape", z3.Not(same))
        ch.ob("accepts only the shape of the waterfall", same)
        ds = it.getattr(self.o, "dsprofiles")
        ch.elements("the filtered profiles are used", ds, [P, B], lambda i, j: self.f.decl(i, j))
        v = it.getattr(self.o, "vself")
        ch.ob("self voltage for every interval", And(num(v.shape[0]) == P - 1, num(v.shape[1]) == num(it.getattr(self.o, "wrap_length")) + 1))


class EnableSelf(PyContract):
    """self field tracking needs the self fields of the profiles"""
    name, file = "ParticleTracker.enable_self_fields", TRK0
    outcomes = ("return", "SelfFieldTrackingError")

    def setup(self, it):
        self.k = it.choose(3)
        self.v = it.array("vself", [it.const("n", I), it.const("k", I)])
        self.w = it.const("phiwrap")
        p = it.new("data.profiles:Profiles", phiwrap=None if self.k == 1 else self.w, vself=None if self.k == 2 else self.v)
        self.o = it.new("tracking.tracking:Tracking", _self_field_flag=False, _phiwrap=None, _vself=None)
        return lambda: it.call(it.getattr(self.o, "enable_self_fields"), [p], {})

    def post(self, it, ch, out):
        if self.k:
            ch.ob("profiles without self fields are rejected", out.raised("SelfFieldTrackingError"))
            return ch.ob("the tracker stays without self fields", it.getattr(self.o, "self_field_flag") is False)
        ch.ob("does not raise", out.ok)
        ch.ob("self fields are used", it.getattr(self.o, "self_field_flag") is True)
        ch.ob("the voltages are those of the profiles", self.o.attrs["_vself"] is self.v)
        ch.equal("the wrap is that of the profiles", self.o.attrs["_phiwrap"], self.w)


ALL = [TrackerInit, Track, Coordinates, PhaseSpace, PhaseSpaceTomo, ProfileCharge, WrapLength, SelfVoltage, NeedsCharge, EnableSelf]
