"""Contracts of the reconstruction objects (tomography/)."""
import z3

from pyfront import PyContract
from pynp import NDArr
from term import And, I, R, norm, num, to_real

TOMO = "longitudinal_tomography/tomography/__tomography.py"
RUN = "longitudinal_tomography/tomography/tomography.py"


def tomo(it, xp=True, cls="tomography.tomography:Tomography"):
    """a reconstruction object as the constructor leaves it"""
    P, B, N = it.const("nprofs", I), it.const("nbins", I), it.const("nparts", I)
    it.assume(P >= 1, B >= 1, N >= 1)
    w = it.array("waterfall", [P, B])
    it.forall([P, B], lambda p, b: w.decl(p, b) >= 0)
    x = None
    if xp:
        x = it.array("xp", [N, P], "i")
        it.forall([N, P], lambda n, p: And(x.decl(n, p) >= 0, x.decl(n, p) < B))
    o = it.new(cls, _waterfall=w, _nprofs=P, _nbins=B, _xp=x, _nparts=N if xp else None, _yp=None, diff=None, weight=None, diff_split=None,
               recreated=it.np.make([P, B], "f", lambda *ix: z3.RealVal(0)))
    o.P, o.B, o.N, o.w, o.x = P, B, N, w, x
    return o


class Init(PyContract):
    """negative parts of the measured profiles are cut off, every profile is normalised to a sum of one"""
    name, file = "TomographyABC.__init__", TOMO
    outcomes = ("return", "WaterfallReducedToZero")

    def setup(self, it):
        P, B = self.P, self.B = it.const("nprofs", I), it.const("nbins", I)
        it.assume(P >= 1, B >= 1)
        self.w = it.array("measured", [P, B])
        cls = it.get("tomography.tomography:Tomography")
        return lambda: it.call(cls, [self.w], {})

    def post(self, it, ch, out):
        pos = lambda p, b: z3.If(self.w.decl(num(p), num(b)) > 0, self.w.decl(num(p), num(b)), z3.RealVal(0))
        if not out.ok:
            ch.ob("raises only WaterfallReducedToZero", out.raised("WaterfallReducedToZero"))
            ch.every("raises only if there is no positive bin", [self.P, self.B], lambda p, b: self.w.decl(p, b) <= 0)
            return
        o = out.value
        wf = it.getattr(o, "waterfall")
        total = lambda p: it.ctx.sum(self.B, lambda k: pos(p, k))
        if not ch.shape("waterfall", wf, [self.P, self.B]):
            return
        p, b = it.const("p", I), it.const("b", I)
        with it.ctx.scope(p >= 0, p < self.P, b >= 0, b < self.B):
            with it.ctx.scope(total(p) > 0):
                ch.ob("bin of the clipped profile over the sum of the clipped profile", norm(wf.get(p, b)) == norm(pos(p, b) / total(p)))
                ch.ob("no negative bins", wf.get(p, b) >= 0)
        with it.ctx.scope(p >= 0, p < self.P, total(p) > 0):
            ch.ob("sum of one", it.ctx.sum(self.B, lambda k: wf.get(p, k)) == 1)
        ch.equal("number of profiles", it.getattr(o, "nprofs"), self.P)
        ch.equal("number of bins", it.getattr(o, "nbins"), self.B)
        ch.elements("the measured data are not modified", self.w, [self.P, self.B], lambda i, j: self.w.decl(i, j))
        ch.ob("no coordinates yet", it.getattr(o, "xp") is None)
        ch.elements("recreated profiles start at zero", it.getattr(o, "recreated"), [self.P, self.B], lambda i, j: z3.RealVal(0))


class SetXp(PyContract):
    """accepted coordinates are inside of the image at all profiles"""
    name, file = "TomographyABC.xp (setter)", TOMO
    outcomes = ("return", "CoordinateImportError", "XPOutOfImageWidthError")

    def setup(self, it):
        o = self.o = tomo(it, xp=False)
        self.kind = it.choose(3)
        if self.kind == 0:
            self.n, self.p = it.const("rows", I), it.const("cols", I)
            it.assume(self.n >= 1, self.p >= 0)
            self.v = it.array("x", [self.n, self.p])
        elif self.kind == 1:
            self.v = it.array("x", [it.const("rows", I)])
            it.assume(it.const("rows", I) >= 0)
        else:
            self.v = it.const("x")
        return lambda: it.setattr(o, "xp", self.v)

    def post(self, it, ch, out):
        if self.kind:
            return ch.ob("anything but a two-dimensional array is rejected", out.raised("CoordinateImportError"))
        o = self.o
        good = lambda i, j: And(self.v.decl(num(i), num(j)) >= 0, self.v.decl(num(i), num(j)) < to_real(o.B))
        if not out.ok:
            ch.ob("raises only the documented errors", out.raised("CoordinateImportError") or out.raised("XPOutOfImageWidthError"))
            with it.ctx.scope(self.p == o.P):
                it.forall([self.n, self.p], good)
                ch.ob("rejects only a wrong number of profiles or coordinates outside of the image", z3.BoolVal(False))
            return
        ch.ob("accepts only coordinates of all profiles", self.p == o.P)
        ch.every("accepts only coordinates inside of the image", [self.n, self.p], good)
        xp = it.getattr(o, "xp")
        if not ch.shape("coordinates", xp, [self.n, o.P]):
            return
        ch.ob("coordinates are integers", xp.dtype == "i")
        ch.every("the coordinates are bins of the image", [self.n, o.P], lambda i, j: And(xp.get(i, j) >= 0, xp.get(i, j) < o.B))
        X = lambda i, j: self.v.decl(num(i), num(j))
        ch.every("the bin is the whole part of the coordinate", [self.n, o.P],
                 lambda i, j: And(to_real(xp.get(i, j)) <= X(i, j), X(i, j) < to_real(xp.get(i, j)) + 1))
        ch.equal("number of particles", it.getattr(o, "nparts"), self.n)


class SetXpNone(PyContract):
    """coordinates can be removed"""
    name, file = "TomographyABC.xp = None", TOMO

    def setup(self, it):
        o = self.o = tomo(it)
        return lambda: it.setattr(o, "xp", None)

    def post(self, it, ch, out):
        ch.ob("does not raise", out.ok)
        ch.ob("no coordinates", it.getattr(self.o, "xp") is None)
        ch.ob("no particles", it.getattr(self.o, "nparts") is None)


class SetYp(PyContract):
    """y coordinates are accepted exactly for the particles of the x coordinates"""
    name, file = "TomographyABC.yp (setter)", TOMO
    outcomes = ("return", "CoordinateImportError")

    def setup(self, it):
        self.have = it.choose(2)
        o = self.o = tomo(it, xp=bool(self.have))
        self.n, self.p = it.const("rows", I), it.const("cols", I)
        it.assume(self.n >= 0, self.p >= 0)
        self.v = it.array("y", [self.n, self.p])
        return lambda: it.setattr(o, "yp", self.v)

    def post(self, it, ch, out):
        o = self.o
        valid = And(self.n == o.N, self.p == o.P) if self.have else z3.BoolVal(False)
        if not out.ok:
            ch.ob("raises only CoordinateImportError", out.raised("CoordinateImportError"))
            return ch.ob("rejects only without x coordinates or for another shape", z3.Not(valid))
        ch.ob("accepts only the shape of the x coordinates", valid)
        yp = it.getattr(o, "yp")
        if ch.shape("y coordinates", yp, [o.N, o.P]):
            ch.ob("y coordinates are integers", yp.dtype == "i")
            Y = lambda i, j: self.v.decl(num(i), num(j))
            ch.every("truncated", [o.N, o.P], lambda i, j: And(
                z3.Implies(Y(i, j) >= 0, And(to_real(yp.get(i, j)) <= Y(i, j), Y(i, j) < to_real(yp.get(i, j)) + 1)),
                z3.Implies(Y(i, j) < 0, And(to_real(yp.get(i, j)) >= Y(i, j), Y(i, j) > to_real(yp.get(i, j)) - 1))))


class FlatPoints(PyContract):
    """bin of a particle at a profile in the flattened waterfall"""
    name, file = "TomographyABC._create_flat_points", TOMO

    def setup(self, it):
        o = self.o = tomo(it)
        return lambda: it.call(it.getattr(o, "_create_flat_points"), [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        o = self.o
        ch.elements("index in the flattened waterfall", out.value, [o.N, o.P], lambda n, p: o.x.decl(n, p) + o.B * p)
        ch.elements("the coordinates are not modified", it.getattr(o, "xp"), [o.N, o.P], lambda n, p: o.x.decl(n, p))


class Discrepancy(PyContract):
    """root mean square over all bins of all profiles"""
    name, file = "TomographyABC._discrepancy", TOMO

    def setup(self, it):
        o = self.o = tomo(it)
        self.d = it.array("difference", [o.P, o.B])
        return lambda: it.call(it.getattr(o, "_discrepancy"), [self.d], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        o = self.o
        sq = lambda p, b: self.d.decl(p, b) * self.d.decl(p, b)
        from term import sqrt_f
        s = it.ctx.sum(o.P, lambda p: it.ctx.sum(o.B, lambda b: sq(p, b)))
        a, b = norm(num(out.value)), sqrt_f(norm(s / (to_real(o.B) * to_real(o.P))))
        ch.ob("root mean square", it.ctx.simp(a) == it.ctx.simp(b))


class RunWiring(PyContract):
    """the reconstruction gets the coordinates, the normalised waterfall and the sizes; its results are stored and returned"""
    name, file = "Tomography.run", RUN
    outcomes = ("return", "CoordinateError")

    def setup(self, it):
        o = self.o = tomo(it, xp=bool(it.choose(2)))
        self.n = it.const("niter", I)
        it.assume(self.n >= 1)
        self.verbose, self.cb = bool(it.choose(2)), None
        return lambda: it.call(it.getattr(o, "run"), [], dict(niter=self.n, verbose=self.verbose, callback=self.cb))

    def post(self, it, ch, out):
        o = self.o
        if o.x is None:
            return ch.ob("coordinates are needed", out.raised("CoordinateError"))
        if not out.ok:
            return ch.ob("does not raise", False)
        calls = [c for c in it.calls if c[0] == "reconstruct"]
        if len(calls) != 1:
            return ch.ob("one reconstruction", False)
        a, (w, d, r) = calls[0][1]["named"], calls[0][1]["result"]
        if ch.shape("coordinates handed over", a["xp"], [o.N, o.P]):
            ch.elements("coordinates handed over", a["xp"], [o.N, o.P], lambda n, p: o.x.decl(n, p))
        if ch.shape("waterfall handed over", a["waterfall"], [o.P, o.B]):
            ch.elements("waterfall handed over", a["waterfall"], [o.P, o.B], lambda p, b: o.w.decl(p, b))
        ch.equal("number of iterations", a["n_iter"], self.n)
        ch.equal("number of bins", a["n_bins"], o.B)
        ch.equal("number of particles", a["n_particles"], o.N)
        ch.equal("number of profiles", a["n_profiles"], o.P)
        ch.ob("callback handed over", a["callback"] is self.cb)
        ch.ob("the weights are returned", out.value is w or isinstance(out.value, NDArr))
        ch.elements("the weights are returned", out.value, [o.N], lambda n: w.get(n))
        ch.elements("the weights are stored", it.getattr(o, "weight"), [o.N], lambda n: w.get(n))
        ch.elements("the discrepancies are stored", it.getattr(o, "diff"), [self.n + 1], lambda n: d.get(n))
        ch.elements("the recreated profiles are stored", it.getattr(o, "recreated"), [o.P, o.B], lambda p, b: r.get(p, b))


class Reciprocal(PyContract):
    """the Python count of the particles per bin and its reciprocal"""
    name, file = "TomographyABC._count_particles_in_bins", TOMO

    def setup(self, it):
        o = self.o = tomo(it)
        ppb = it.np.make([o.B, o.P], "f", lambda *ix: z3.RealVal(0))
        return lambda: it.call(it.getattr(o, "_count_particles_in_bins"), [ppb, o.P, o.x, o.N], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        o = self.o
        ch.elements("number of particles in the bin at the profile", out.value, [o.B, o.P],
                    lambda b, p: it.ctx.sum(o.N, lambda n: z3.If(o.x.decl(n, p) == b, z3.RealVal(1), z3.RealVal(0))))


ALL = [Init, SetXp, SetXpNone, SetYp, FlatPoints, Discrepancy, RunWiring, Reciprocal]


class ReciprocalPts(PyContract):
    """largest number of particles over the number of particles of the bin (empty bins count as one)"""
    name, file = "TomographyABC._reciprocal_particles", TOMO

    def setup(self, it):
        o = self.o = tomo(it)
        return lambda: it.call(it.getattr(o, "_reciprocal_particles"), [], {})

    def post(self, it, ch, out):
        if not out.ok:
            return ch.ob("does not raise", False)
        o, r = self.o, out.value
        cnt = lambda b, p: it.ctx.sum(o.N, lambda n: z3.If(o.x.decl(n, p) == b, z3.RealVal(1), z3.RealVal(0)))
        c1 = lambda b, p: z3.If(cnt(b, p) == 0, z3.RealVal(1), cnt(b, p))
        if not ch.shape("reciprocal", r, [o.B, o.P]):
            return
        M = num(it.np.extremum(it, it.np.make([o.B, o.P], "f", lambda b, p: c1(num(b), num(p))), True))
        ch.elements("largest number of particles over the number of particles of the bin", r, [o.B, o.P], lambda b, p: M / c1(b, p))


ALL.append(ReciprocalPts)
