"""Contracts of the preparation of the measured data: raw data -> waterfall, windowing, rebinning, profiles."""
import z3

from pyfront import PyContract
from term import And, I, R, norm, num, to_real, mk_div, mk_mod

TI = "longitudinal_tomography/utils/tomo_input.py"
PRE = "longitudinal_tomography/data/pre_process.py"
PROF = "longitudinal_tomography/data/profiles.py"


def le(*xs):
    return And(*[num(a) <= num(b) for a, b in zip(xs, xs[1:])])


class ToWaterfall(PyContract):
    """profile p, bin b of the waterfall is sample (skip_frames + p) * frame_length + skip_start + b of the raw data"""
    name, file = "Frames.to_waterfall", TI
    outcomes = ("return", "InputError", "RawDataImportError")

    def setup(self, it):
        c = lambda n: it.const(n, I)
        self.nf, self.nb, self.sf, self.s0, self.s1, self.rb, self.L = [c(x) for x in ("nframes", "frame_length", "skip_frames", "skip_start", "skip_end", "rebin", "ndata")]
        it.assume(self.L >= 0)
        self.raw = it.array("raw", [self.L])
        f = it.get("utils.tomo_input:Frames")
        def go():
            fr = it.call(f, [self.nf, self.nb, self.sf, self.s0, self.s1, self.rb, it.const("dt")], {})
            self.frames = fr
            return it.call(it.getattr(fr, "to_waterfall"), [self.raw], {})
        return go

    def valid(self):
        return And(self.nf > 0, self.nb > 0, self.sf >= 0, self.sf < self.nf, self.s0 >= 0, self.s1 >= 0, self.s0 + self.s1 < self.nb, self.rb >= 1)

    def post(self, it, ch, out):
        if out.raised("RawDataImportError"):
            ch.ob("raw data refused only for a wrong number of samples", self.L != self.nf * self.nb)
            return
        if not out.ok:
            ch.ob("raises only InputError", out.raised("InputError"))
            ch.ob("input refused only if the frame parameters are out of range", z3.Not(self.valid()))
            return
        ch.ob("accepts only valid parameters", self.valid())
        ch.ob("accepts only the expected number of samples", self.L == self.nf * self.nb)
        ch.elements("waterfall", out.value, [self.nf - self.sf, self.nb - self.s0 - self.s1],
                    lambda p, b: self.raw.decl(norm((self.sf + p) * self.nb + self.s0 + b)))
        ch.equal("nprofs()", it.call(it.getattr(self.frames, "nprofs"), [], {}), self.nf - self.sf)
        ch.equal("nbins()", it.call(it.getattr(self.frames, "nbins"), [], {}), self.nb - self.s0 - self.s1)


class RawData(PyContract):
    """raw data is stored as a copy, with the expected number of samples only"""
    name, file = "Frames.raw_data", TI
    outcomes = ("return", "RawDataImportError")

    def setup(self, it):
        self.nf, self.nb, self.L = it.const("nframes", I), it.const("frame_length", I), it.const("ndata", I)
        it.assume(self.L >= 0)
        self.raw = it.array("raw", [self.L])
        fr = it.new("utils.tomo_input:Frames", nframes=self.nf, nbins_frame=self.nb, _raw_data=None)

        def go():
            it.setattr(fr, "raw_data", self.raw)
            a = it.getattr(fr, "raw_data")
            it.np.assign(it, a, (Ellipsis,), 0)         # a user writes to what he got
            it.np.assign(it, self.raw, (Ellipsis,), 7)  # and to what he gave
            return it.getattr(fr, "raw_data")
        return go

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("raises only RawDataImportError", out.raised("RawDataImportError"))
            ch.ob("refused only for a wrong number of samples", self.L != self.nf * self.nb)
            return
        ch.ob("accepts only the expected number of samples", self.L == self.nf * self.nb)
        ch.elements("stored data", out.value, [self.L], lambda i: self.raw.decl(i))


class CutWaterfall(PyContract):
    """the columns from the left to the right cut, for every row; invalid cuts are refused"""
    name, file = "cut_waterfall", PRE
    outcomes = ("return", "ValueError")

    def setup(self, it):
        self.P, self.N, self.l, self.r = [it.const(x, I) for x in ("nprof", "nbins", "cut_left", "cut_right")]
        it.assume(self.P >= 1, self.N >= 1)
        self.w = it.array("W", [self.P, self.N])
        return lambda: it.call(it.get("data.pre_process:cut_waterfall"), [self.w, self.l, self.r], {})

    def post(self, it, ch, out):
        right = z3.If(self.r < 0, self.r + self.N, self.r)
        valid = And(self.l >= 0, self.l < right, right <= self.N)
        if not out.ok:
            ch.ob("raises only ValueError", out.raised("ValueError"))
            ch.ob("refused only for cuts out of range", z3.Not(valid))
            return
        ch.ob("accepts only cuts in range", valid)
        ch.elements("columns between the cuts", out.value, [self.P, right - self.l], lambda p, b: self.w.decl(p, norm(self.l + b)))


class Rebin(PyContract):
    """each new bin is the sum of `rbn` old bins; the time per bin grows, the synchronous position shrinks by the factor"""
    name, file = "rebin", PRE
    outcomes = ("return",)

    def setup(self, it):
        # every number of bins is q * rbn or q * rbn + r with 0 < r < rbn
        self.P, self.k, q, r = [it.const(x, I) for x in ("nprof", "rbn", "q", "r")]
        self.q = q
        it.assume(self.P >= 1, self.k >= 1, q >= 1)
        self.whole = it.choose(2) == 0
        self.N = norm(q * self.k)
        if not self.whole:
            it.assume(r >= 1, r < self.k)
            self.N = norm(self.N + r)
        self.w = it.array("W", [self.P, self.N])
        self.dt, self.x = it.const("dtbin"), it.const("synch_x")
        return lambda: it.call(it.get("data.data_treatment:rebin"), [self.w, self.k, self.dt, self.x], {})

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("does not raise", False)
            return
        k, N, P = self.k, self.N, self.P
        v, dt, x = out.value
        q, whole = self.q, self.whole
        ch.ob("number of profiles is kept", num(v.shape[0]) == P)
        ch.ob("number of bins", num(v.shape[1]) == (q if whole else q + 1))
        p, b = it.const("p", I), it.const("b", I)
        with it.ctx.scope(p >= 0, p < P, b >= 0, b < q):
            want = it.ctx.sum(k, lambda i: self.w.decl(p, norm(b * k + i)))
            ch.ob("sum over the old bins of a new bin", it.ctx.simp(v.get(p, b)) == it.ctx.simp(want))
        if not whole:
            i0 = norm((q - 1) * k)
            with it.ctx.scope(p >= 0, p < P):
                tail = it.ctx.sum(norm(N - i0), lambda i: self.w.decl(p, norm(i0 + i)))
                ch.ob("last bin: mean of the remaining bins scaled to a full bin", it.ctx.simp(v.get(p, q)) == it.ctx.simp(to_real(k) / to_real(N - i0) * tail))
        ch.equal("time per bin", dt, self.dt * to_real(k))
        ch.equal("synchronous position", x, self.x / to_real(k))
        ch.elements("the input is not modified", self.w, [P, N], lambda p, b: self.w.decl(p, b))


class SetWaterfall(PyContract):
    """negative samples become zero, wrong numbers of profiles and empty waterfalls are refused, the machine learns the number of bins"""
    name, file = "Profiles.waterfall", PROF
    outcomes = ("return", "WaterfallError", "WaterfallReducedToZero")

    def setup(self, it):
        self.P, self.N, self.np_ = [it.const(x, I) for x in ("nprof", "nbins", "machine_nprof")]
        it.assume(self.P >= 0, self.N >= 0)
        self.w = it.array("W", [self.P, self.N])
        self.m = it.new("tracking.machine:Machine", nprofiles=self.np_, _nbins=it.const("old_nbins", I))
        cls = it.get("data.profiles:Profiles")
        return lambda: it.call(cls, [self.m, it.const("sampling"), self.w], {})

    def post(self, it, ch, out):
        if out.raised("WaterfallError"):
            ch.ob("refused only for a wrong number of profiles", self.P != self.np_)
            return
        if not out.ok:
            ch.ob("raises only WaterfallReducedToZero", out.raised("WaterfallReducedToZero"))
            ch.every("reduced to zero only if no sample is positive", [self.P, self.N], lambda p, b: self.w.decl(p, b) <= 0)
            return
        ch.ob("the number of profiles is that of the machine", self.P == self.np_)
        W = it.getattr(out.value, "waterfall")
        ch.elements("samples clipped at zero", W, [self.P, self.N], lambda p, b: z3.If(self.w.decl(p, b) > 0, self.w.decl(p, b), 0))
        ch.equal("number of bins of the machine", it.getattr(self.m, "nbins"), self.N)
        ch.equal("centre of the energy axis", it.getattr(self.m, "synch_part_y"), to_real(self.N) / 2)
        s = it.ctx.sum(self.P, lambda p: it.ctx.sum(self.N, lambda b: W.get(p, b)))
        ch.ob("the sum of the samples is not zero", s != 0)
        ch.elements("the input is not modified", self.w, [self.P, self.N], lambda p, b: self.w.decl(p, b))


ALL = [ToWaterfall, RawData, CutWaterfall, Rebin, SetWaterfall]
