"""Contracts of the validators (assertions.py): they raise exactly for inputs outside of the documented ranges."""
import z3

from pyfront import PyContract
from term import And, I, R, norm, num, to_real

ASRT = "longitudinal_tomography/assertions.py"


class Exact(PyContract):
    """raises `error` exactly if `valid` does not hold"""
    file = ASRT
    error = None

    @property
    def outcomes(self):
        return ("return", self.error)

    def judge(self, it, ch, out, valid, error=None):
        error = error or self.error
        if out.ok:
            ch.ob("accepts only valid input", valid)
        else:
            ch.ob(f"raises only {error}", type(out.value).__name__ == error or out.raised(error))
            ch.ob("rejects only invalid input", z3.Not(valid) if not isinstance(valid, bool) else not valid)


def scalar(fname, valid, two=False):
    class X(Exact):
        __doc__ = f"{fname}: raises the given error exactly outside of the range"
        name = fname
        error = "InputError"

        def setup(self, it):
            k = it.choose(2)
            so = (I, R)[k]
            self.v, self.lo, self.hi = it.const("value", so), it.const("limit", so), it.const("upper", so)
            e = it.get("exceptions:InputError")
            f = it.get("assertions:" + fname)
            a = [self.v, "name", self.lo] + ([self.hi] if two else []) + [e]
            return lambda: it.call(f, a, {})

        def post(self, it, ch, out):
            self.judge(it, ch, out, valid(self.v, self.lo, self.hi))
    X.__name__ = fname
    return X


SCALAR = [
    scalar("assert_greater", lambda v, l, h: v > l),
    scalar("assert_less", lambda v, l, h: v < l),
    scalar("assert_equal", lambda v, l, h: v == l),
    scalar("assert_not_equal", lambda v, l, h: v != l),
    scalar("assert_less_or_equal", lambda v, l, h: v <= l),
    scalar("assert_greater_or_equal", lambda v, l, h: v >= l),
    scalar("assert_inrange", lambda v, l, h: And(v >= l, v <= h), two=True),
]


def arrayv(fname, valid, two=False, dims=1):
    """the array validators raise exactly if some element is outside of the range"""
    class X(Exact):
        __doc__ = f"{fname}: raises the given error exactly if an element is outside of the range"
        name = fname
        error = "InputError"

        def setup(self, it):
            self.n = it.const("n", I)
            it.assume(self.n >= 1)
            self.a = it.array("a", [self.n])
            self.lo, self.hi = it.const("limit"), it.const("upper")
            e = it.get("exceptions:InputError")
            f = it.get("assertions:" + fname)
            args = [self.a, self.lo] + ([self.hi] if two else []) + [e]
            return lambda: it.call(f, args, {})

        def post(self, it, ch, out):
            good = lambda i: valid(self.a.decl(num(i)), self.lo, self.hi)
            if out.ok:
                ch.every("accepts only arrays with all elements in the range", [self.n], good)
                return
            ch.ob("raises only the given error", out.raised("InputError"))
            it.forall([self.n], good)
            ch.ob("rejects only arrays with an element outside of the range", z3.BoolVal(False))
    X.__name__ = fname
    return X


ARRAY = [
    arrayv("assert_array_in_range", lambda v, l, h: And(v >= l, v <= h), two=True),
    arrayv("assert_array_greater", lambda v, l, h: v > l),
    arrayv("assert_array_greater_eq", lambda v, l, h: v >= l),
    arrayv("assert_array_less", lambda v, l, h: v < l),
    arrayv("assert_array_less_eq", lambda v, l, h: v <= l),
]


class ArrayNotEqual(Exact):
    """raises exactly if all elements have the forbidden value"""
    name, error = "assert_array_not_equal", "InputError"

    def setup(self, it):
        self.n, self.lim = it.const("n", I), it.const("limit")
        it.assume(self.n >= 1)
        self.a = it.array("a", [self.n])
        f = it.get("assertions:assert_array_not_equal")
        return lambda: it.call(f, [self.a, "name", self.lim, it.get("exceptions:InputError")], {})

    def post(self, it, ch, out):
        if not out.ok:
            ch.ob("raises only the given error", out.raised("InputError"))
            ch.every("rejects only arrays of the forbidden value", [self.n], lambda i: self.a.decl(num(i)) == self.lim)
            return
        it.forall([self.n], lambda i: self.a.decl(num(i)) == self.lim)
        ch.ob("accepts only arrays with another value", z3.BoolVal(False))


class OnlyValid(Exact):
    """raises exactly if a coordinate is outside of [0, number of bins)"""
    name, error = "assert_only_valid_particles", "InvalidParticleError"

    def setup(self, it):
        self.n, self.p, self.w = it.const("nparts", I), it.const("nprofs", I), it.const("nbins", I)
        it.assume(self.n >= 0, self.p >= 0)
        self.xp = it.array("xp", [self.n, self.p])
        f = it.get("assertions:assert_only_valid_particles")
        return lambda: it.call(f, [self.xp, self.w], {})

    def post(self, it, ch, out):
        good = lambda i, j: And(self.xp.decl(num(i), num(j)) >= 0, self.xp.decl(num(i), num(j)) < to_real(self.w))
        if out.ok:
            return ch.every("accepts only coordinates inside of the image", [self.n, self.p], good)
        ch.ob("raises only InvalidParticleError", out.raised("InvalidParticleError"))
        it.forall([self.n, self.p], good)
        ch.ob("rejects only coordinates outside of the image", z3.BoolVal(False))


class IndexOk(PyContract):
    """an accepted index is inside of the sequence; negative ones count from the end if that is allowed"""
    name, file = "assert_index_ok", ASRT
    outcomes = ("return", "NegativeIndexError", "IndexError")

    def setup(self, it):
        self.i, self.n = it.const("index", I), it.const("limit", I)
        it.assume(self.n >= 1)
        self.wrap = bool(it.choose(2))
        f = it.get("assertions:assert_index_ok")
        return lambda: it.call(f, [self.i, self.n], dict(wrap_around=self.wrap))

    def post(self, it, ch, out):
        i, n = self.i, self.n
        valid = And(i >= (-n if self.wrap else 0), i < n)
        if out.ok:
            r = num(out.value)
            ch.ob("accepts only valid indices", valid)
            ch.ob("the result is an index of the sequence", And(r >= 0, r < n))
            ch.ob("the result is the same element", r == z3.If(i >= 0, i, i + n))
            return
        ch.ob("rejects only invalid indices", z3.Not(valid))
        if not self.wrap and out.raised("NegativeIndexError"):
            ch.ob("negative index error only for negative indices", i < 0)
        else:
            ch.ob("raises IndexError", out.raised("IndexError"))


class NotNone(Exact):
    """raises exactly for None"""
    name, error = "assert_var_not_none", "InputError"

    def setup(self, it):
        self.v = None if it.choose(2) else it.const("value")
        f = it.get("assertions:assert_var_not_none")
        return lambda: it.call(f, [self.v, "name", it.get("exceptions:InputError")], {})

    def post(self, it, ch, out):
        self.judge(it, ch, out, self.v is not None)


class FrameInput(Exact):
    """the frame description is accepted exactly if the windows fit into the frames"""
    name, error = "assert_frame_inputs", "InputError"

    def setup(self, it):
        v = self.v = {n: it.const(n, I) for n in ("nframes", "skip_frames", "nbins_frame", "skip_bins_start", "skip_bins_end", "rebin")}
        o = it.new("utils.tomo_input:Frames", **v)
        return lambda: it.call(it.get("assertions:assert_frame_inputs"), [o], {})

    def post(self, it, ch, out):
        v = self.v
        self.judge(it, ch, out, And(v["nframes"] > 0, v["skip_frames"] >= 0, v["skip_frames"] < v["nframes"], v["nbins_frame"] > 0,
                                    v["skip_bins_start"] >= 0, v["skip_bins_end"] >= 0, v["skip_bins_start"] + v["skip_bins_end"] < v["nbins_frame"], v["rebin"] >= 1))


class MachineInput(PyContract):
    """the machine parameters are accepted exactly if they are in the documented ranges"""
    name, file = "assert_machine_input", ASRT
    outcomes = ("return", "MachineParameterError", "SpaceChargeParameterError")
    NEEDED = ("dtbin", "dturns", "filmstart", "filmstop", "filmstep", "niter", "snpt", "machine_ref_frame", "beam_ref_frame", "h_num", "h_ratio", "b0",
              "mean_orbit_rad", "bending_rad", "e_rest")
    INTS = ("dturns", "filmstart", "filmstop", "filmstep", "niter", "snpt", "machine_ref_frame", "beam_ref_frame", "h_num")

    def setup(self, it):
        v = self.v = {n: it.const(n, I if n in self.INTS else R) for n in self.NEEDED}
        v.update(pickup_sensitivity=it.const("pickup"), g_coupling=it.const("g"))
        k = it.choose(len(self.NEEDED) + 4)
        self.missing = None
        if k < len(self.NEEDED):
            self.missing = self.NEEDED[k]
            v[self.missing] = None
        else:
            k -= len(self.NEEDED)
            if k & 1:
                v["pickup_sensitivity"] = None
            if k & 2:
                v["g_coupling"] = None
        m = it.new("tracking.machine:Machine", **v)
        return lambda: it.call(it.get("assertions:assert_machine_input"), [m], {})

    def post(self, it, ch, out):
        v = self.v
        if self.missing:
            return ch.ob("a missing parameter is rejected", out.raised("MachineParameterError"))
        ab = lambda x: z3.If(x >= 0, x, -x)
        valid = And(v["dtbin"] > 0, v["dturns"] > 0, v["filmstart"] >= 0, v["filmstop"] >= v["filmstart"],
                    ab(v["filmstep"]) <= ab(v["filmstop"] - v["filmstart"] + 1), v["filmstep"] != 0, v["niter"] > 0, v["snpt"] > 0,
                    v["machine_ref_frame"] >= 0, v["beam_ref_frame"] >= 0, v["h_num"] > 0, v["h_ratio"] >= 0, v["b0"] > 0,
                    v["mean_orbit_rad"] > 0, v["bending_rad"] > 0, v["e_rest"] > 0)
        sc = And(*[v[n] >= 0 for n in ("pickup_sensitivity", "g_coupling") if v[n] is not None])
        if out.ok:
            return ch.ob("accepts only valid parameters", And(valid, sc))
        if out.raised("SpaceChargeParameterError"):
            return ch.ob("rejects only invalid space charge parameters", z3.Not(sc))
        ch.ob("raises only MachineParameterError", out.raised("MachineParameterError"))
        ch.ob("rejects only invalid parameters", z3.Not(valid))


class Shapes(Exact):
    """raises exactly if one of the arrays has another shape"""
    name, error = "assert_array_shape_equal", "UnequalArrayShapes"

    def setup(self, it):
        d = self.d = [it.const(n, I) for n in ("n1", "n2", "m1", "m2", "k1", "k2")]
        it.assume(*[x >= 0 for x in d])
        a, b = it.array("a", d[:2]), it.array("b", d[2:4])
        return lambda: it.call(it.get("assertions:assert_array_shape_equal"), [(a, b), ("a", "b"), (d[4], d[5])], {})

    def post(self, it, ch, out):
        d = self.d
        self.judge(it, ch, out, And(d[0] == d[4], d[1] == d[5], d[2] == d[4], d[3] == d[5]))


ALL = SCALAR + ARRAY + [ArrayNotEqual, OnlyValid, IndexOk, NotNone, FrameInput, MachineInput, Shapes]
