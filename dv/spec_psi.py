"""Contracts of the reconstruction area and the initial distribution: tracking/phase_space_info.py, tracking/particles.py."""
import z3

from pyfront import PyContract
from pynp import extremum, make, named
from spec_part import PART, machine
from term import And, I, R, cos_f, floor_f, freshfn, mk_div, mk_mod, norm, num, pi_c, sin_f, sqrt_f, to_real

PSI = "longitudinal_tomography/tracking/phase_space_info.py"
Q = "longitudinal_tomography.tracking.phase_space_info:PhaseSpaceInfo."
rl = lambda x: to_real(num(x))


def area(it, **extra):
    """a machine as the reconstruction area needs it; the synchronous energy is the middle of the image"""
    c = it.const
    B, ref, film = c("nbins", I), c("beam_ref_frame", I), c("filmstart", I)
    m = machine(it, beam_ref_frame=ref, filmstart=film, synch_part_y=norm(to_real(B) / 2))
    P, T = m.attrs["nprofiles"], m.T
    it.assume(ref >= 0, ref < P, film >= 0, film < P)
    for n in ("vrf1_at_turn", "vrf2_at_turn", "drift_coef", "e0", "beta0", "eta0", "phi12_at_turn", "time_at_turn"):
        m.attrs[n] = it.array(n, [T])
    m.attrs.update(demax=c("demax"), q=c("q"), h_ratio=c("h_ratio"), phi12=c("phi12"), min_dt=c("min_dt"), max_dt=c("max_dt"), snpt=c("snpt", I), full_pp_flag=False, dEbin=None)
    it.assume(m.attrs["snpt"] >= 1, m.attrs["h_ratio"] > 0)
    m.attrs.update(extra)
    return m


def info(it, m, **k):
    d = dict(machine=m, jmin=None, jmax=None, imin=None, imax=None, dEbin=None, xorigin=None)
    d.update(k)
    return it.new("tracking.phase_space_info:PhaseSpaceInfo", **d)


class XOrigin(PyContract):
    """offset of the image from phase zero, at the turn of the beam reference profile"""
    name, file = "PhaseSpaceInfo.calc_xorigin", PSI

    def setup(self, it):
        self.m = area(it)
        f = it.getattr(info(it, self.m), "calc_xorigin")
        return lambda: it.call(f, [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        a = self.m.attrs
        t = norm(a["beam_ref_frame"] * a["dturns"])
        ch.equal("value", out.value, a["phi0"].decl(t) / (to_real(a["h_num"]) * a["omega_rev0"].decl(t) * a["dtbin"]) - a["synch_part_x"])


class Phases(PyContract):
    """phases of the edges of the bins"""
    name, file = "PhaseSpaceInfo._calculate_phases", PSI

    def setup(self, it):
        self.m, self.x, self.t = area(it), it.const("xorigin"), it.const("turn", I)
        it.assume(self.t >= 0, self.t < self.m.T)
        f = it.getattr(info(it, self.m, xorigin=self.x), "_calculate_phases")
        return lambda: it.call(f, [self.t], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        a = self.m.attrs
        ch.elements("phase of every edge", out.value, [norm(a["_nbins"] + 1)],
                    lambda i: (self.x + to_real(i)) * a["dtbin"] * to_real(a["h_num"]) * a["omega_rev0"].decl(self.t))


class Height(PyContract):
    """height of the trajectory through a known point; zero where there is none"""
    name, file = "PhaseSpaceInfo._trajectoryheight", PSI
    many, table = False, False

    def setup(self, it):
        self.m, self.t, self.k, self.d = area(it), it.const("turn", I), it.const("known"), it.const("delta_e")
        a = self.m.attrs
        if self.table:
            a["phi12"] = a["phi12_at_turn"]
        it.assume(self.t >= 0, self.t < self.m.T, a["drift_coef"].decl(self.t) != 0)
        self.n = it.const("n", I)
        it.assume(self.n >= 2)
        self.phi = it.array("phi", [self.n]) if self.many else it.const("phi")
        f = it.getattr(info(it, self.m), "_trajectoryheight")
        return lambda: it.call(f, [self.phi, self.k, self.d, self.t], {})

    def value(self, x):
        a, t, k = self.m.attrs, self.t, self.k
        at = lambda n: a[n].decl(t)
        o = a["phi12"].decl(t) if self.table else a["phi12"]
        h = a["h_ratio"]
        c, s = (lambda y: cos_f(norm(y))), (lambda y: sin_f(norm(y)))
        p0 = at("phi0")
        return 2 * a["q"] / at("drift_coef") * (at("vrf1_at_turn") * (c(x) - c(k)) + at("vrf2_at_turn") * (c(h * (x - o)) - c(h * (k - o))) / h
                                                + (x - k) * (at("vrf1_at_turn") * s(p0) + at("vrf2_at_turn") * s(h * (p0 - o)))) + self.d * self.d

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)

        def one(text, x, v):
            r = norm(self.value(x))
            with it.ctx.scope(r >= 0):
                ch.ob(text + " is the root where there is one", it.ctx.simp(norm(v)) == sqrt_f(r))
            with it.ctx.scope(r < 0):
                ch.ob(text + " is zero elsewhere", it.ctx.simp(norm(v)) == 0)
        if not self.many:
            one("height", self.phi, num(out.value))
            with it.ctx.scope(self.phi == self.k, self.d == 0):
                ch.ob("no height at the known point", norm(z3.substitute(norm(num(out.value)), (self.phi, self.k), (self.d, z3.RealVal(0)))) == 0)
            return
        if ch.shape("heights", out.value, [self.n]):
            i = it.const("i", I)
            with it.ctx.scope(i >= 0, i < self.n):
                one("height", self.phi.decl(i), out.value.get(i))


class HeightTable(Height):
    name, table = "PhaseSpaceInfo._trajectoryheight (phi12 per turn)", True


class HeightMany(Height):
    name, many = "PhaseSpaceInfo._trajectoryheight (many phases)", True


def height_stub(self):
    """_trajectoryheight by contract: a function of phase, known phase and turn, not negative"""
    def f(it, fn, args, kw):
        phi, known, d, turn = args[1:]
        it.calls.append(("height", dict(args=args[1:], kw=kw)))
        H = z3.Function("height", R, R, R, I, R)
        self.H = H
        kn, t, d = norm(rl(known)), norm(num(turn)), norm(rl(d))
        if hasattr(phi, "shape"):
            s = phi.snap()
            it.forall(list(phi.shape), lambda i: H(norm(to_real(s(i))), kn, d, t) >= 0)
            return make(phi.shape, "f", lambda i: H(norm(to_real(s(i))), kn, d, t))
        x = norm(rl(phi))
        it.assume(H(x, kn, d, t) >= 0)
        return H(x, kn, d, t)
    return {Q + "_trajectoryheight": f}


class MaxEnergy(PyContract):
    """the upper limit of a column is the lowest of the trajectories through both ends at both edges of the column, and the image"""
    name, file = "PhaseSpaceInfo._find_max_binned_energy", PSI

    @property
    def contracts(self):
        return height_stub(self)

    def setup(self, it):
        self.m, self.t, self.d = area(it), it.const("turn", I), it.const("dEbin")
        B = self.B = self.m.attrs["_nbins"]
        it.assume(self.t >= 0, self.t < self.m.T, self.d > 0)
        self.ph = it.array("phases", [norm(B + 1)])
        H = z3.Function("height", R, R, R, I, R)
        for k in (z3.IntVal(0), B):  # proved of _trajectoryheight
            it.assume(H(self.ph.decl(k), self.ph.decl(k), z3.RealVal(0), self.t) == 0)
        f = it.getattr(info(it, self.m), "_find_max_binned_energy")
        return lambda: it.call(f, [self.ph, self.t, self.d], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        B = self.B
        if not ch.shape("upper limits", out.value, [B]):
            return
        H = z3.Function("height", R, R, R, I, R)
        i = it.const("i", I)
        v = norm(out.value.get(i))
        with it.ctx.scope(i >= 0, i < B):
            cand = []
            for e in (i, i + 1):
                for k in (z3.IntVal(0), B):
                    y = norm(to_real(B) / 2 + H(self.ph.decl(norm(e)), self.ph.decl(k), z3.RealVal(0), self.t) / self.d)
                    fl = it.np_floor(y) if hasattr(it, "np_floor") else None
                    cand.append(y)
            for y in cand:
                ch.ob("not above a trajectory", rl(v) <= y)
            ch.ob("not above the image", rl(v) <= to_real(B))
            ch.ob("the outer columns end at the synchronous energy", z3.Implies(z3.Or(i == 0, i == B - 1), rl(v) <= to_real(B) / 2))
            ch.ob("a whole number less than one bin below one of them", z3.Or(rl(v) == to_real(B), *[rl(v) > y - 1 for y in cand]))


class MinEnergy(PyContract):
    """the lower limit mirrors the upper one about the synchronous energy and is at least one"""
    name, file = "PhaseSpaceInfo._find_min_binned_energy", PSI

    def setup(self, it):
        self.m = area(it)
        B = self.B = self.m.attrs["_nbins"]
        self.j = it.array("jmax_int", [B], "i")
        s = self.j.snap()
        f = it.getattr(info(it, self.m), "_find_min_binned_energy")
        return lambda: it.call(f, [make([B], "f", lambda i: to_real(s(i)))], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        B = self.B
        ch.elements("mirrored limit", out.value, [B], lambda i: z3.If(to_real(B - self.j.decl(i)) >= 1, to_real(B - self.j.decl(i)), z3.RealVal(1)))


class MinPhase(PyContract):
    """the first column with an energy interval"""
    name, file = "PhaseSpaceInfo._find_min_binned_phase", PSI
    fn, first = "_find_min_binned_phase", True

    def setup(self, it):
        self.m = area(it)
        B = self.B = self.m.attrs["_nbins"]
        self.lo, self.hi = it.array("jmin", [B]), it.array("jmax", [B])
        f = it.getattr(info(it, self.m), self.fn)
        return lambda: it.call(f, [self.lo, self.hi], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        has = lambda i: self.hi.decl(num(i)) >= self.lo.decl(num(i))
        v, i = out.value, it.const("i", I)
        start = 0 if self.first else 1
        if v is None:
            with it.ctx.scope(i >= start, i < self.B):
                return ch.ob("no column has an energy interval", z3.Not(has(i)))
        ch.ob("the column exists", And(num(v) >= start, num(v) < self.B))
        ch.ob("the column has an energy interval", has(v))
        with it.ctx.scope(i >= start, i < self.B, i < num(v) if self.first else i > num(v)):
            ch.ob("no column further out has one", z3.Not(has(i)))


class MaxPhase(MinPhase):
    """the last column with an energy interval"""
    name, fn, first = "PhaseSpaceInfo._find_max_binned_phase", "_find_max_binned_phase", False


class EnergyBin(PyContract):
    """height of an energy bin, from the given maximum or from the bucket at the turn of the beam reference profile"""
    name, file = "PhaseSpaceInfo.find_dEbin", PSI
    outcomes = ("return", "EnergyBinningError")

    @property
    def contracts(self):
        return height_stub(self)

    def setup(self, it):
        self.m = area(it)
        self.x = None if it.choose(2) else it.const("xorigin")
        a = self.m.attrs
        t = self.t = norm(a["beam_ref_frame"] * a["dturns"])
        f = it.getattr(info(it, self.m, xorigin=self.x), "find_dEbin")
        return lambda: it.call(f, [], {})

    def post(self, it, ch, out):
        a, t = self.m.attrs, self.t
        if self.x is None:
            return ch.ob("the origin has to be known", out.raised("EnergyBinningError"))
        if not out.ok:
            ch.ob("raises only EnergyBinningError", out.raised("EnergyBinningError"))
            return ch.ob("rejects only a maximum of zero", a["demax"] == 0)
        ch.ob("a maximum of zero is rejected", a["demax"] != 0)
        v, half = norm(rl(out.value)), to_real(a["_nbins"]) / 2
        with it.ctx.scope(a["demax"] > 0):
            if it.ctx.feasible():
                ch.ob("the given maximum spans the upper half of the image", v * half == a["demax"])
        at = lambda n: a[n].decl(t)
        with it.ctx.scope(a["demax"] < 0, at("vrf2_at_turn") == 0):
            if it.ctx.feasible():
                r = at("e0") * a["q"] * at("vrf1_at_turn") * cos_f(at("phi0")) / (2 * pi_c * to_real(a["h_num"]) * at("eta0"))
                ch.ob("matched to the bucket", v == norm(at("beta0") * sqrt_f(norm(r)) * a["dtbin"] * to_real(a["h_num"]) * a["omega_rev0"].decl(t)))
        with it.ctx.scope(a["demax"] < 0, at("vrf2_at_turn") != 0):
            if it.ctx.feasible():
                H = z3.Function("height", R, R, R, I, R)
                ph = lambda i: norm((self.x + rl(i)) * a["dtbin"] * to_real(a["h_num"]) * a["omega_rev0"].decl(t))
                B = a["_nbins"]
                top = lambda k: extremum(it, make([norm(B + 1)], "f", lambda i: H(ph(i), ph(k), z3.RealVal(0), t)), True)
                lo, up = top(0), top(B)
                ch.ob("the lower of the highest trajectories through both ends spans the upper half", norm(v * half) == norm(z3.If(lo <= up, lo, up)))


class FullImage(PyContract):
    """limits of the full image"""
    name, file = "PhaseSpaceInfo._limits_track_full_image", PSI

    def setup(self, it):
        self.m = area(it)
        f = it.getattr(info(it, self.m), "_limits_track_full_image")
        return lambda: it.call(f, [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        lo, hi, imin, imax = out.value
        B = self.m.attrs["_nbins"]
        ch.elements("upper limit is the image", hi, [B], lambda i: to_real(B))
        ch.elements("lower limit is one", lo, [B], lambda i: z3.RealVal(1))
        ch.ob("all columns", And(num(imin) == 0, num(imax) == B))


class Adjust(PyContract):
    """the limits are cut to the time window"""
    name, file = "PhaseSpaceInfo._adjust_limits", PSI
    full = False

    def setup(self, it):
        self.m = area(it, full_pp_flag=self.full)
        a = self.m.attrs
        B = self.B = a["_nbins"]
        self.lo, self.hi = it.array("jmin_int", [B], "i"), it.array("jmax_int", [B], "i")
        it.forall([B], lambda i: And(self.hi.decl(i) <= B, self.lo.decl(i) == z3.If(B - self.hi.decl(i) >= 1, B - self.hi.decl(i), 1)))
        self.i0, self.i1 = it.const("imin", I), it.const("imax", I)
        it.assume(self.i0 >= 0, self.i0 < B, self.i1 >= 0, self.i1 <= B, a["min_dt"] >= 0, a["max_dt"] >= 0)
        if not self.full:
            it.assume(self.i1 < B)
        lo, hi = self.lo.snap(), self.hi.snap()
        f = it.getattr(info(it, self.m), "_adjust_limits")
        return lambda: it.call(f, [make([B], "f", lambda i: to_real(hi(i))), make([B], "f", lambda i: to_real(lo(i))), self.i0, self.i1], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        lo, hi, i0, i1 = out.value
        a, B = self.m.attrs, self.B
        if not (ch.shape("lower limits", lo, [B]) and ch.shape("upper limits", hi, [B])):
            return
        w0, w1 = a["min_dt"] / a["dtbin"], a["max_dt"] / a["dtbin"]
        i0, i1 = num(i0), num(i1)
        ch.ob("first column inside of the image", i0 >= 0)
        ch.ob("last column inside of the image", i1 < B)
        ch.ob("the first column is the one found or the one the window starts in", z3.Or(And(i0 == self.i0, not self.full), And(rl(i0) <= w0, rl(i0) > w0 - 1)))
        ch.ob("the last column starts inside of the window", to_real(i1) < w1)
        ch.ob("the last column is the one found, the last of the window or the last of the image", z3.Or(And(i1 == self.i1, not self.full), to_real(i1) >= w1 - 1, i1 == B - 1))
        ch.ob("no column before the one found", True if self.full else i0 >= self.i0)
        ch.ob("no column after the one found", True if self.full else i1 <= self.i1)
        i = it.const("i", I)
        with it.ctx.scope(i >= 0, i < B):
            h, l = it.ctx.simp(norm(hi.get(i))), it.ctx.simp(norm(lo.get(i)))
            ch.ob("lower limit at least one", l >= 1)
            ch.ob("upper limit inside of the image", h <= to_real(B))
            with it.ctx.scope(i >= i0, i <= i1):
                ch.ob("upper limit kept inside of the window", h == to_real(self.hi.decl(i)))
                ch.ob("lower limit kept inside of the window", l == to_real(self.lo.decl(i)))


class AdjustFull(Adjust):
    name, full = "PhaseSpaceInfo._adjust_limits (full image)", True


class Limits(PyContract):
    """the reconstruction area lies inside of the image and of the time window"""
    name, file = "PhaseSpaceInfo.find_binned_phase_energy_limits", PSI
    outcomes = ("return", "EnergyBinningError", "EnergyLimitsError")
    full = False

    @property
    def contracts(self):
        def top(it, f, args, kw):
            B, n = self.m.attrs["_nbins"], freshfn("top", I, I)
            self.top, self.given = n, args[1:]
            it.forall([B], lambda i: n(i) <= B)
            it.assume(2 * n(z3.IntVal(0)) <= B, 2 * n(norm(B - 1)) <= B)
            return make([B], "f", lambda i: to_real(n(num(i))))

        def phase(first):
            def f(it, fn, args, kw):
                lo, hi = args[1].snap(), args[2].snap()
                has = lambda i: norm(hi(num(i)) >= lo(num(i)))
                start, B = 0 if first else 1, self.m.attrs["_nbins"]
                if it.choose(2):
                    it.forall([B], lambda i: z3.Implies(num(i) >= start, z3.Not(has(i))))
                    return None
                v = it.sym("column", I)
                it.assume(v >= start, v < B, has(v))
                it.forall([B], lambda i: z3.Implies(And(num(i) >= start, num(i) < v if first else num(i) > v), z3.Not(has(i))))
                return v
            return f

        def ebin(it, f, args, kw):
            self.dE = it.sym("bin", R)
            return self.dE
        return {Q + "_find_max_binned_energy": top, Q + "find_dEbin": ebin, Q + "_find_min_binned_phase": phase(True), Q + "_find_max_binned_phase": phase(False)}

    def setup(self, it):
        self.m = area(it, full_pp_flag=self.full)
        a = self.m.attrs
        it.assume(a["min_dt"] >= 0, a["max_dt"] > 0, a["min_dt"] < a["max_dt"], a["min_dt"] < a["dtbin"] * to_real(a["_nbins"]))
        self.o = info(it, self.m)
        return lambda: it.call(it.getattr(self.o, "find_binned_phase_energy_limits"), [], {})

    def post(self, it, ch, out):
        a, o = self.m.attrs, self.o.attrs
        B = a["_nbins"]
        if not out.ok:
            ch.ob("raises only the errors of the limits", any(out.raised(x) for x in ("EnergyBinningError", "EnergyLimitsError", "PhaseLimitsError")))
            if out.raised("EnergyBinningError"):
                ch.ob("rejects only energy bins without height", self.dE <= 0)
            return
        ch.ob("energy bins have a height", self.dE > 0)
        ch.ob("the height is kept", norm(num(o["dEbin"])) == self.dE)
        t = norm(a["beam_ref_frame"] * a["dturns"])
        ch.equal("origin", o["xorigin"], a["phi0"].decl(t) / (to_real(a["h_num"]) * a["omega_rev0"].decl(t) * a["dtbin"]) - a["synch_part_x"])
        if not self.full:
            ph, turn, dE = self.given
            f = norm(a["filmstart"] * a["dturns"])
            ch.ob("limits of the turn of the first reconstructed profile", num(turn) == f)
            ch.ob("limits in units of the height of the bins", norm(rl(dE)) == self.dE)
            ch.elements("limits at the phases of the edges of the columns", ph, [norm(B + 1)],
                        lambda i: (rl(o["xorigin"]) + to_real(i)) * a["dtbin"] * to_real(a["h_num"]) * a["omega_rev0"].decl(f))
        lo, hi, i0, i1 = o["jmin"], o["jmax"], num(o["imin"]), num(o["imax"])
        if not (ch.shape("lower limits", lo, [B]) and ch.shape("upper limits", hi, [B])):
            return
        ch.ob("columns inside of the image", And(i0 >= 0, i0 <= i1, i1 < B))
        ch.ob("limits are whole numbers", lo.dtype == "i" and hi.dtype == "i")
        ch.ob("columns inside of the window", And(rl(i0) > a["min_dt"] / a["dtbin"] - 1, to_real(i1) < a["max_dt"] / a["dtbin"]))
        i = it.const("i", I)
        with it.ctx.scope(i >= 0, i < B):
            h, l = it.ctx.simp(norm(hi.get(i))), it.ctx.simp(norm(lo.get(i)))
            ch.ob("lower limit inside of the image", l >= 1)
            ch.ob("upper limit inside of the image", h <= B)
            with it.ctx.scope(i >= i0, i < i1):
                ch.ob("limits do not cross", l <= h)
            with it.ctx.scope(i >= i0, i <= i1):
                hv = B if self.full else self.top(i)
                ch.ob("upper limit of the column", h == hv)
                ch.ob("lower limit of the column mirrors it", l == z3.If(B - hv >= 1, B - hv, 1))


class LimitsFull(Limits):
    name, full, outcomes = "PhaseSpaceInfo.find_binned_phase_energy_limits (full image)", True, ("return", "EnergyBinningError")


class Homogeneous(PyContract):
    """one particle at every sub-bin point of every cell of the reconstruction area, and nowhere else"""
    name, file = "Particles.homogeneous_distribution", PART

    @property
    def contracts(self):
        def limits(it, f, args, kw):
            o = args[0].attrs
            B = self.m.attrs["_nbins"]
            self.lo, self.hi = it.array("jmin", [B], "i"), it.array("jmax", [B], "i")
            self.i0, self.i1, self.dE, self.xo = it.const("imin", I), it.const("imax", I), it.const("dEbin"), it.const("xorigin")
            it.assume(self.i0 >= 0, self.i0 <= self.i1, self.i1 < B, self.dE > 0)
            it.forall([B], lambda i: And(self.lo.decl(i) >= 1, self.hi.decl(i) <= B))
            it.forall([B], lambda i: z3.Implies(And(i >= self.i0, i < self.i1), self.lo.decl(i) <= self.hi.decl(i)))
            k = self.some = it.const("some_column", I)  # the reconstruction area is not empty
            it.assume(k >= 0, k < B, self.lo.decl(k) < self.hi.decl(k))
            w = norm((self.i1 - self.i0) * self.m.attrs["snpt"]) >= 0
            it.assume(w if it.ctx.prove(w) else z3.BoolVal(True))
            o.update(jmin=self.lo, jmax=self.hi, imin=self.i0, imax=self.i1, dEbin=self.dE, xorigin=self.xo)

        def physical(it, f, args, kw):
            self.coords, self.at = args[1], (args[2], args[3], kw.get("deltaturn", args[4] if len(args) > 4 else 0))
            self.mine = dict(args[0].attrs)
            n = norm(num(self.coords.shape[1]))
            self.dphi, self.den = it.array("dphi", [n]), it.array("denergy", [n])
            return self.dphi, self.den
        return {Q + "find_binned_phase_energy_limits": limits, "longitudinal_tomography.tracking.particles:Particles._bin_nr_to_physical_coords": physical}

    def setup(self, it):
        it.name_sizes = True
        self.m = area(it)
        self.rec, self.dt = it.const("rec", I), it.const("deltaturn", I)
        self.p = it.new("tracking.particles:Particles")
        for n in ("dEbin", "xorigin", "imin", "imax", "jmin", "jmax", "_dphi", "_denergy"):
            self.p.attrs[n] = None
        f = it.getattr(self.p, "homogeneous_distribution")
        return lambda: it.call(f, [self.m, self.rec, self.dt], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        C, n, B = self.coords, self.m.attrs["snpt"], self.m.attrs["_nbins"]
        p, i0, i1 = self.p.attrs, self.i0, self.i1
        N = num(C.shape[1])
        ch.shape("coordinates", C, [2, N])
        ch.ob("the conversion uses this machine and turn", And(self.at[0] is self.m, num(self.at[1]) == self.rec, num(self.at[2]) == self.dt))
        for k, v in (("dEbin", self.dE), ("xorigin", self.xo)):
            ch.ob(f"{k} is kept for the conversion", self.mine[k] is not None and norm(num(self.mine[k])) == v)
            ch.ob(f"{k} is kept", norm(num(p[k])) == v)
        ch.ob("the machine knows the height of the bins", norm(num(self.m.attrs["dEbin"])) == self.dE)
        ch.ob("columns are kept", And(num(p["imin"]) == i0, num(p["imax"]) == i1))
        ch.ob("limits are kept", And(p["jmin"] is not None, p["jmax"] is not None))
        ch.elements("lower limits are kept", p["jmin"], [B], lambda i: self.lo.decl(i))
        ch.elements("upper limits are kept", p["jmax"], [B], lambda i: self.hi.decl(i))
        ch.elements("phases are those of the conversion", p["_dphi"], [N], lambda i: self.dphi.decl(i))
        ch.elements("energies are those of the conversion", p["_denergy"], [N], lambda i: self.den.decl(i))
        if len(it.selections) < 2:
            return ch.ob("points are selected", False)
        (m1, c1, s1, r1), (m2, c2, s2, r2) = it.selections[-2:]
        J0, J1 = extremum(it, self.lo, False), extremum(it, self.hi, True)
        w, h = norm(i1 - i0 + 1), norm(J1 - J0)
        NX, NY = named(it, w * n, w, n), named(it, h * n, h, n)
        sub = lambda s: to_real(2 * s + 1) / to_real(2 * n)
        k = it.const("k", I)
        same = []  # equal terms, proved before

        def cut(text, *fs):
            """obligation that may be used afterwards"""
            for x in fs:
                y = norm(x)
                for u, v in same:
                    y = norm(z3.substitute(y, (norm(u), v)))
                ch.ob(text, it.ctx.simp(y))
                it.assume(x)
        with it.ctx.scope(k >= 0, k < N):
            f = s1(s2(k))
            b, a = mk_mod(f, NX), mk_div(f, NX)
            c, s = norm(i0 + mk_div(b, n)), mk_mod(b, n)
            r, t = norm(J0 + mk_div(a, n)), mk_mod(a, n)
            ch.ob("column of the area", And(c >= i0, c <= i1))
            ch.ob("sub-bin point of the column", And(s >= 0, s < n, norm(C.get(0, k)) == norm(to_real(c) + sub(s))))
            ch.ob("sub-bin point of the row", And(t >= 0, t < n, norm(C.get(1, k)) == norm(to_real(r) + sub(t))))
            cut("points lie inside of the bins", *[floor_f(norm(sub(x))) == 0 for x in (s, t)])
            ch.ob("row inside of the limits of the column", And(self.lo.decl(c) <= r, r < self.hi.decl(c)))
        l = it.const("l", I)
        with it.ctx.scope(k >= 0, k < l, l < N):
            ch.ob("no point twice", s1(s2(k)) < s1(s2(l)))
        c, s, r, t = (it.const(x, I) for x in ("c", "s", "r", "t"))
        with it.ctx.scope(c >= i0, c <= i1, s >= 0, s < n, t >= 0, t < n, self.lo.decl(c) <= r, r < self.hi.decl(c)):
            cut("products keep the order", And((c - i0) * n >= 0, (i1 - c) * n >= 0), And((r - J0) * n >= 0, (J1 - 1 - r) * n >= 0))
            a, b, A = norm((r - J0) * n + t), norm((c - i0) * n + s), it.const("line", I)
            cut("the cell is on the grid", And(0 <= a, a < NY), And(0 <= b, b < NX))
            bb = it.const("position", I)
            inside = lambda u, v: And(u * NX + v >= 0, u * NX + v < NX * NY)
            with it.ctx.scope(A >= 0, A < NY, bb >= 0, bb < NX):  # any line and any position
                ch.ob("a position on a line is on the grid", inside(A, bb))
            it.assume(inside(a, b))
            cut("points lie inside of the bins", *[floor_f(norm(sub(x))) == 0 for x in (s, t)])
            f = norm(a * NX + b)
            k = r2(r1(f))
            cut("the first selection takes it", r1.selects(f))
            cut("the first selection keeps it", And(r1(f) >= 0, r1(f) < c1), s1(r1(f)) == f)
            same.append((s1(r1(f)), f))
            cut("the second selection takes it", r2.selects(r1(f)))
            cut("every point of the area is there", And(k >= 0, k < N), s2(k) == r1(f))
            same.insert(0, (s2(k), norm(r1(f))))
            cut("with its column", norm(C.get(0, k)) == norm(to_real(c) + sub(s)))
            cut("with its row", norm(C.get(1, k)) == norm(to_real(r) + sub(t)))


ALL = [XOrigin, Phases, Height, HeightTable, HeightMany, MaxEnergy, MinEnergy, MinPhase, MaxPhase, EnergyBin, FullImage, Adjust, AdjustFull, Limits, LimitsFull, Homogeneous]
