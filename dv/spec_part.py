"""Contracts of the particle bookkeeping (tracking/particles.py)."""
import z3

from pyfront import PyContract
from pynp import selection, make
from term import And, I, R, norm, num, to_real

PART = "longitudinal_tomography/tracking/particles.py"


class FilterLost(PyContract):
    """exactly the particles inside of the image at every profile are kept, in order; the others are counted"""
    name, file = "filter_lost", PART
    outcomes = ("return", "InvalidParticleError")

    def setup(self, it):
        P, N, w = it.const("nprof", I), it.const("nparts", I), it.const("width", I)
        it.assume(P >= 1, N >= 1, w >= 1)
        self.P, self.N, self.w = P, N, w
        self.xp, self.yp = it.array("xp", [P, N]), it.array("yp", [P, N])
        f = it.get("tracking.particles:filter_lost")
        return lambda: it.call(f, [self.xp, self.yp, w], {})

    def good(self, p, j):
        x = self.xp.decl(num(p), num(j))
        return And(x >= 0, x < to_real(self.w))

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("raises only InvalidParticleError", out.raised("InvalidParticleError"))
            j = it.const("j", I)
            with it.ctx.scope(j >= 0, j < self.N):
                # if the column were good at all profiles
                it.forall([self.P], lambda p: self.good(p, j))
                ch.ob("no particle is inside of the image at all profiles", it.selections[-1][3](j) == -1 if it.selections else False)
            return
        xp, yp, lost = out.value
        M = num(xp.shape[1])
        ch.shape("kept x coordinates", xp, [self.P, M])
        ch.shape("kept y coordinates", yp, [self.P, M])
        ch.every("kept particles are inside of the image", [self.P, M], lambda p, k: And(xp.get(p, k) >= 0, xp.get(p, k) < to_real(self.w)))
        if it.selections:
            m, c, sel, rank = it.selections[-1]
        else:
            sel = rank = lambda k: k
        ch.elements("kept x coordinates are those of the selected particles", xp, [self.P, M], lambda p, k: self.xp.decl(p, sel(k)))
        ch.elements("kept y coordinates are those of the same particles", yp, [self.P, M], lambda p, k: self.yp.decl(p, sel(k)))
        ch.every("the order of the particles is kept", [M, M], lambda k, l: z3.Implies(k < l, sel(k) < sel(l)))
        ch.every("selected particles exist", [M], lambda k: And(sel(k) >= 0, sel(k) < self.N))
        j = it.const("j", I)
        with it.ctx.scope(j >= 0, j < self.N):
            it.forall([self.P], lambda p: self.good(p, j))
            ch.ob("every particle that is inside of the image at all profiles is kept", And(rank(j) >= 0, rank(j) < M, sel(rank(j)) == j))
        ch.ob("the number of lost particles is the number of removed ones", num(lost) + M == self.N)
        ch.ob("at least one particle is left", M > 0)


ALL = [FilterLost]


class ReadyForTomography(FilterLost):
    """the kept particles as integer bins, one row per particle"""
    name = "ready_for_tomography"

    def setup(self, it):
        FilterLost.setup(self, it)
        f = it.get("tracking.particles:ready_for_tomography")
        return lambda: it.call(f, [self.xp, self.yp, self.w], {})

    def post(self, it, ch, out):
        if not out.ok:
            return FilterLost.post(self, it, ch, out)
        xp, yp = out.value
        M = num(xp.shape[0])
        ch.shape("x coordinates", xp, [M, self.P])
        ch.shape("y coordinates", yp, [M, self.P])
        ch.ob("x coordinates are integers", xp.dtype == "i")
        ch.ob("y coordinates are integers", yp.dtype == "i")
        ch.every("x coordinates are bins of the image", [M, self.P], lambda k, p: And(xp.get(k, p) >= 0, xp.get(k, p) < self.w))
        sel, rank = (it.selections[-1][2], it.selections[-1][3]) if it.selections else ((lambda k: k),) * 2
        X = lambda k, p: self.xp.decl(num(p), sel(num(k)))
        ch.every("the bin is the whole part of the x coordinate of the selected particle", [M, self.P],
                 lambda k, p: And(to_real(xp.get(k, p)) <= X(k, p), X(k, p) < to_real(xp.get(k, p)) + 1))
        Y = lambda k, p: self.yp.decl(num(p), sel(num(k)))
        ch.every("y coordinates belong to the same particle (truncated)", [M, self.P],
                 lambda k, p: And(z3.Implies(Y(k, p) >= 0, And(to_real(yp.get(k, p)) <= Y(k, p), Y(k, p) < to_real(yp.get(k, p)) + 1)),
                                  z3.Implies(Y(k, p) < 0, And(to_real(yp.get(k, p)) >= Y(k, p), Y(k, p) > to_real(yp.get(k, p)) - 1))))
        j = it.const("j", I)
        with it.ctx.scope(j >= 0, j < self.N):
            it.forall([self.P], lambda p: self.good(p, j))
            ch.ob("every particle that is inside of the image at all profiles is kept", And(rank(j) >= 0, rank(j) < M, sel(rank(j)) == j))
        ch.every("the order of the particles is kept", [M, M], lambda k, l: z3.Implies(k < l, sel(k) < sel(l)))


def machine(it, **extra):
    """a machine with turn-by-turn values for all turns"""
    P, D = it.const("nprofiles", I), it.const("dturns", I)
    it.assume(P >= 1, D >= 1)
    T = norm((P - 1) * D + 1)
    m = dict(nprofiles=P, dturns=D, h_num=it.const("h_num", I), dtbin=it.const("dtbin"), synch_part_y=it.const("synch_y"),
             synch_part_x=it.const("synch_x"), omega_rev0=it.array("omega", [T]), phi0=it.array("phi0", [T]), _nbins=it.const("nbins", I))
    m.update(extra)
    it.assume(m["h_num"] >= 1, m["dtbin"] > 0, m["_nbins"] >= 1)
    it.forall([T], lambda t: m["omega_rev0"].decl(t) > 0)
    o = it.new("tracking.machine:Machine", **m)
    o.T = T
    return o


class PhysicalToCoords(PyContract):
    """bins from phase and energy offsets with the values of the turn of each profile"""
    name, file = "physical_to_coords", PART
    outcomes = ("return", "InvalidParticleError")

    def setup(self, it):
        self.m = m = machine(it)
        N = self.N = it.const("nparts", I)
        P = self.P = m.attrs["nprofiles"]
        n1, n2 = it.const("rows2", I), it.const("cols2", I)
        it.assume(N >= 0, n1 >= 0, n2 >= 0)
        self.n1, self.n2 = n1, n2
        self.dphi, self.den = it.array("dphi", [P, N]), it.array("denergy", [n1, n2])
        self.xo, self.dE = it.const("xorigin"), it.const("dEbin")
        it.assume(self.dE != 0)
        f = it.get("tracking.particles:physical_to_coords")
        return lambda: it.call(f, [self.dphi, self.den, m, self.xo, self.dE], {})

    def post(self, it, ch, out):
        same = And(self.n1 == self.P, self.n2 == self.N)
        if not out.ok:
            ch.ob("raises only InvalidParticleError", out.raised("InvalidParticleError"))
            ch.ob("raises only for arrays of different shape", z3.Not(same))
            return
        ch.ob("accepts only arrays of the same shape", same)
        a = self.m.attrs
        xp, yp = out.value
        turn = lambda p: norm(p * a["dturns"])
        ch.elements("x", xp, [self.P, self.N], lambda p, k: (self.dphi.decl(p, k) + a["phi0"].decl(turn(p))) / (
            to_real(a["h_num"]) * a["omega_rev0"].decl(turn(p)) * a["dtbin"]) - self.xo)
        ch.elements("y", yp, [self.P, self.N], lambda p, k: self.den.decl(p, k) / self.dE + a["synch_part_y"])


class BinToPhysical(PyContract):
    """phase and energy offsets of bins at the reconstructed turn"""
    name, file = "Particles._bin_nr_to_physical_coords", PART
    outcomes = ("return",)

    def setup(self, it):
        self.m = m = machine(it)
        self.N, self.rec, self.dt = it.const("nparts", I), it.const("rec", I), it.const("deltaturn", I)
        a = m.attrs
        self.turn = norm(self.rec * a["dturns"] + self.dt)
        it.assume(self.N >= 0, self.turn >= 0, self.turn < m.T)
        self.x, self.y = it.array("x", [self.N]), it.array("y", [self.N])
        self.xo, self.dE = it.const("xorigin"), it.const("dEbin")
        self.p = it.new("tracking.particles:Particles", xorigin=self.xo, dEbin=self.dE)
        f = it.getattr(self.p, "_bin_nr_to_physical_coords")
        return lambda: it.call(f, [(self.x, self.y), m, self.rec, self.dt], {})

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("does not raise", False)
            return
        a = self.m.attrs
        dphi, den = out.value
        ch.elements("phase offset", dphi, [self.N], lambda k: (self.x.decl(k) + self.xo) * to_real(a["h_num"]) * a["omega_rev0"].decl(self.turn) * a["dtbin"]
                    - a["phi0"].decl(self.turn))
        ch.elements("energy offset", den, [self.N], lambda k: (self.y.decl(k) - a["synch_part_y"]) * self.dE)


class RoundTrip(PyContract):
    """bins -> phase and energy -> bins is the identity at the reconstructed profile"""
    name, file = "bins to physical and back", PART
    outcomes = ("return",)

    def setup(self, it):
        self.m = m = machine(it)
        a = m.attrs
        N, rec = self.N, self.rec = it.const("nparts", I), it.const("rec", I)
        it.assume(N >= 0, rec >= 0, rec < a["nprofiles"])
        self.x, self.y = it.array("x", [N]), it.array("y", [N])
        xo, dE = it.const("xorigin"), it.const("dEbin")
        it.assume(dE > 0)
        p = it.new("tracking.particles:Particles", xorigin=xo, dEbin=dE)
        f = it.getattr(p, "_bin_nr_to_physical_coords")
        g = it.get("tracking.particles:physical_to_coords")

        def go():
            dphi, den = it.call(f, [(self.x, self.y), m, rec], {})
            sh = [a["nprofiles"], N]
            D, E = it.array("rest_phi", sh), it.array("rest_e", sh)
            it.np.assign(it, D, (rec,), dphi)
            it.np.assign(it, E, (rec,), den)
            return it.call(g, [D, E, m, xo, dE], {})
        return go

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("does not raise", False)
            return
        xp, yp = out.value
        ch.elements("x is recovered", it.getitem(xp, self.rec), [self.N], lambda k: self.x.decl(k))
        ch.elements("y is recovered", it.getitem(yp, self.rec), [self.N], lambda k: self.y.decl(k))


ALL = [FilterLost, ReadyForTomography, PhysicalToCoords, BinToPhysical, RoundTrip]
