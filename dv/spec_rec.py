"""Contracts of cpp_routines/reconstruct.cpp.

Spec functions (the documented algorithm, written down independently of the code):
  cnt(b)      number of (particle, profile) pairs whose flat bin is b
  C(b)        max_b cnt / max(1, cnt(b))
  W(0, i)     max(0, w0(i) + sum_j P(fp(i, j)))
  Q(k, b)     sum_i sum_j [fp(i, j) = b] W(k, i)
  Rn(k, b)    Q(k, b) / sum of Q(k, .) over the profile of b
  D(k)        sqrt(sum_b (P(b) - Rn(k, b))^2 / (nprof * nbins))
  W(k+1, i)   max(0, W(k, i) + sum_j (P - Rn(k)) * C  at fp(i, j))
"""
import z3

from cfront import Contract, CB
from sym import Obligation, Template
from term import (And, B, I, R, dv_f, fresh, ite, is_num, md_f, mk_fold, norm, num, numval, poly, sqrt_f, to_real, walk)

CMIN, CMAX = z3.Int("cmin"), z3.Int("cmax")      # ghost bounds of the bunch centers
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def imax(a, b):
    return z3.If(a < b, b, a)


def ghost_order():
    return [("cmin <= cmax (ghost bounds)", CMIN <= CMAX)]


def pos(*xs):
    return [(f"{x} >= 0", x >= 0) for x in xs]


def in_range(e, arr, n, lim, lo=0):
    """forall k < n: lo <= arr(k) < lim"""
    return (f"every element of {arr} is in range", n,
            lambda k: And(getattr(e, arr)(k) >= lo, getattr(e, arr)(k) < lim), [trig(e, arr)])


def trig(e, arr):
    v = e.vals.get(arr)
    return getattr(v.region, "fn", None).name() if v is not None and getattr(v.region, "fn", None) is not None else arr


class Rec(Contract):
    pass


class BackProject(Rec):
    name = "back_project"
    exported = True
    params = dict(weights="real*", flat_points="int*", flat_profiles="real*", npart="int", nprof="int")
    modifies = ("weights",)

    def arrays(self, e):
        return dict(weights=(R, [e.npart]), flat_points=(I, [norm(e.npart * e.nprof)]), flat_profiles=(R, [e.glen('flat_profiles')]))

    def requires(self, e):
        return pos(e.npart, e.nprof)

    def requires_all(self, e):
        return [in_range(e, "flat_points", norm(e.npart * e.nprof), e.glen("flat_profiles"))]

    def ensures(self, e):
        return dict(weights=lambda i: e.weights(i) + e.sum(e.nprof, lambda j: e.flat_profiles(e.flat_points(i * e.nprof + j))))


class BackProjectMulti(Rec):
    name = "back_project_multi"
    params = dict(weights="real*", flat_points="int*", flat_profiles="real*", mask="bool*", centers="int*",
                  npart="int", nprof="int", ncenter="int")
    modifies = ("weights",)

    def arrays(self, e):
        return dict(weights=(R, [norm(e.npart * e.ncenter)]), flat_points=(I, [norm(e.npart * e.nprof)]),
                    flat_profiles=(R, [e.glen('flat_profiles')]), mask=(B, [norm(e.npart * e.ncenter)]), centers=(I, [e.ncenter]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.ncenter) + ghost_order()

    def requires_all(self, e):
        return [("centers within [cmin, cmax]", e.ncenter, lambda c: And(e.centers(c) >= CMIN, e.centers(c) <= CMAX), [trig(e, "centers")]),
                ("shifted flat points in range", norm(e.npart * e.nprof),
                 lambda k: And(e.flat_points(k) + CMIN >= 0, e.flat_points(k) + CMAX < e.glen("flat_profiles")), [trig(e, "flat_points")])]

    def ensures(self, e):
        def w(x):
            i, c = md_f(x, e.npart), dv_f(x, e.npart)
            return e.weights(x) + ite(e.mask(x), e.sum(e.nprof, lambda j: e.flat_profiles(
                norm(e.flat_points(i * e.nprof + j) + e.centers(c)))), ZERO)
        return dict(weights=w)


class Project(Rec):
    name = "project"
    exported = True
    params = dict(flat_rec="real*", flat_points="int*", weights="real*", npart="int", nprof="int")
    modifies = ("flat_rec",)

    def arrays(self, e):
        return dict(flat_rec=(R, [e.glen('flat_rec')]), flat_points=(I, [norm(e.npart * e.nprof)]), weights=(R, [e.npart]))

    def requires(self, e):
        return pos(e.npart, e.nprof)

    def requires_all(self, e):
        return [in_range(e, "flat_points", norm(e.npart * e.nprof), e.glen("flat_rec"))]

    def ensures(self, e):
        return dict(flat_rec=lambda b: e.flat_rec(b) + e.sum(e.npart, lambda i: e.sum(
            e.nprof, lambda j: z3.If(e.flat_points(i * e.nprof + j) == b, e.weights(i), ZERO))))


class ProjectMulti(Rec):
    name = "project_multi"
    params = dict(flat_rec="real*", flat_points="int*", weights="real*", centers="int*", npart="int", nprof="int", ncenter="int")
    modifies = ("flat_rec",)

    def arrays(self, e):
        return dict(flat_rec=(R, [e.glen("flat_rec")]), flat_points=(I, [norm(e.npart * e.nprof)]),
                    weights=(R, [norm(e.npart * e.ncenter)]), centers=(I, [e.ncenter]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.ncenter) + ghost_order()

    def requires_all(self, e):
        return [("centers within [cmin, cmax]", e.ncenter, lambda c: And(e.centers(c) >= CMIN, e.centers(c) <= CMAX), [trig(e, "centers")]),
                ("shifted flat points in range", norm(e.npart * e.nprof),
                 lambda k: And(e.flat_points(k) + CMIN >= 0, e.flat_points(k) + CMAX < e.glen("flat_rec")), [trig(e, "flat_points")])]

    def ensures(self, e):
        return dict(flat_rec=lambda b: e.flat_rec(b) + e.sum(e.ncenter, lambda c: e.sum(e.npart, lambda i: e.sum(
            e.nprof, lambda j: z3.If(e.flat_points(i * e.nprof + j) + e.centers(c) == b, e.weights(i + c * e.npart), ZERO)))))


class Normalize(Rec):
    name = "normalize"
    params = dict(flat_rec="real*", nprof="int", nbins="int")
    modifies = ("flat_rec",)
    may_throw = True

    def arrays(self, e):
        return dict(flat_rec=(R, [norm(e.nprof * e.nbins)]))

    def requires(self, e):
        return pos(e.nprof, e.nbins)

    def row(self, e, p):
        return e.sum(e.nbins, lambda j: e.flat_rec(norm(p * e.nbins + j)))

    def ensures(self, e):
        return dict(flat_rec=lambda b: e.flat_rec(b) / self.row(e, dv_f(b, e.nbins)))

    def throws(self, e):
        return norm(e.sum(e.nprof, lambda p: self.row(e, p)) <= 0)


class Clip(Rec):
    name = "clip"
    params = dict(array="real*", length="int", clip_val="real")
    modifies = ("array",)

    def arrays(self, e):
        return dict(array=(R, [e.length]))

    def requires(self, e):
        return pos(e.length)

    def ensures(self, e):
        return dict(array=lambda i: z3.If(e.array(i) < e.clip_val, e.clip_val, e.array(i)))


class FindDiff(Rec):
    name = "find_difference_profile"
    params = dict(diff_prof="real*", flat_rec="real*", flat_profiles="real*", all_bins="int")
    modifies = ("diff_prof",)

    def arrays(self, e):
        return dict(diff_prof=(R, [e.all_bins]), flat_rec=(R, [e.all_bins]), flat_profiles=(R, [e.all_bins]))

    def requires(self, e):
        return pos(e.all_bins)

    def ensures(self, e):
        return dict(diff_prof=lambda i: e.flat_profiles(i) - e.flat_rec(i))


def rms(e, d, nprof, nbins):
    return sqrt_f(norm(e.sum(norm(nprof * nbins), lambda i: d(i) * d(i)) / to_real(norm(nprof * nbins))))


class Discrepancy(Rec):
    name = "discrepancy"
    params = dict(diff_prof="real*", nprof="int", nbins="int")
    ret = R

    def arrays(self, e):
        return dict(diff_prof=(R, [norm(e.nprof * e.nbins)]))

    def requires(self, e):
        return [("nprof >= 1", e.nprof >= 1), ("nbins >= 1", e.nbins >= 1)]

    def ensures(self, e):
        return dict(ret=rms(e, e.diff_prof, e.nprof, e.nbins))


def rms_cut(e, d, left, right, nprof, nbins):
    w = norm(right - left)
    s = e.sum(nprof, lambda i: e.sum(z3.If(w >= 0, w, z3.IntVal(0)), lambda j: d(i * nbins + left + j) * d(i * nbins + left + j)))
    return sqrt_f(norm(s / to_real(norm(nprof * w))))


class DiscrepancyMulti(Rec):
    name = "discrepancy_multi"
    params = dict(diff_prof="real*", disc="real*", cutleft="int*", cutright="int*", iteration="int", nprof="int",
                  nbins="int", ncenter="int")
    modifies = ("disc",)

    def arrays(self, e):
        return dict(diff_prof=(R, [norm(e.nprof * e.nbins)]), disc=(R, [e.glen("disc")]), cutleft=(I, [e.ncenter]), cutright=(I, [e.ncenter]))

    def requires(self, e):
        return pos(e.nprof, e.nbins, e.ncenter, e.iteration) + [
            ("disc has room for this iteration", norm(e.iteration * e.ncenter + e.ncenter) <= e.glen("disc"))]

    def requires_all(self, e):
        return [("0 <= cutleft < cutright <= nbins", e.ncenter, lambda c: And(e.cutleft(c) >= 0, e.cutleft(c) < e.cutright(c), e.cutright(c) <= e.nbins),
                 [trig(e, "cutleft"), trig(e, "cutright")])]

    def ensures(self, e):
        def f(x):
            c = norm(x - e.iteration * e.ncenter)
            g = And(c >= 0, c < e.ncenter)
            with e.ctx.scope(g):
                v = rms_cut(e, e.diff_prof, e.cutleft(c), e.cutright(c), e.nprof, e.nbins)
            with e.ctx.scope(z3.Not(g)):
                o = e.disc(x)
            return ite(g, v, o)
        return dict(disc=f)


class Compensate(Rec):
    name = "compensate_particle_amount"
    params = dict(diff_prof="real*", rparts="real*", nprof="int", nbins="int")
    modifies = ("diff_prof",)

    def arrays(self, e):
        return dict(diff_prof=(R, [norm(e.nprof * e.nbins)]), rparts=(R, [norm(e.nprof * e.nbins)]))

    def requires(self, e):
        return pos(e.nprof, e.nbins)

    def ensures(self, e):
        return dict(diff_prof=lambda i: e.diff_prof(i) * e.rparts(i))


def maxof(n, fn, sort=R):
    k = fresh("k")
    return mk_fold("max", norm(n), k, norm(fn(k)), ZERO if sort == R else z3.IntVal(0))


class Max1d(Rec):
    name = "max_1d"
    params = dict(arr="real*", length="int")
    ret = R

    def arrays(self, e):
        return dict(arr=(R, [e.length]))

    def requires(self, e):
        return pos(e.length)

    def ensures(self, e):
        k = fresh("k")
        with e.ctx.scope(k >= 0, k < e.length):
            b = e.arr(k)
        return dict(ret=mk_fold("max", norm(e.length), k, b, ZERO))


class Sum(Rec):
    name = "sum"
    params = dict(arr="real*", length="int")
    ret = R

    def arrays(self, e):
        return dict(arr=(R, [e.length]))

    def requires(self, e):
        return pos(e.length)

    def ensures(self, e):
        return dict(ret=e.sum(e.length, lambda i: e.arr(i)))


def counts(e, xp, npart, nprof, nbins):
    """(flat bin) -> number of pairs (i, j) with xp(i, j) + nbins*j == bin"""
    return lambda b: e.sum(npart, lambda i: e.sum(nprof, lambda j: z3.If(xp(i * nprof + j) + nbins * j == b, z3.IntVal(1), z3.IntVal(0)), sort=I), sort=I)


def counts_multi(e, xp, centers, npart, nprof, nbins, ncenters):
    return lambda b: e.sum(ncenters, lambda c: e.sum(npart, lambda i: e.sum(nprof, lambda j: z3.If(
        xp(i * nprof + j) + nbins * j + centers(c) == b, z3.IntVal(1), z3.IntVal(0)), sort=I), sort=I), sort=I)


def xp_ok(e, n, nbins, nm="xp"):
    return in_range(e, nm, n, nbins)


class CountParticles(Rec):
    name = "count_particles_in_bin"
    exported = True
    params = dict(rparts="real*", xp="int*", nprof="int", npart="int", nbins="int")
    modifies = ("rparts",)

    def arrays(self, e):
        return dict(rparts=(R, [norm(e.nprof * e.nbins)]), xp=(I, [norm(e.npart * e.nprof)]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.nbins)

    def requires_all(self, e):
        return [xp_ok(e, norm(e.npart * e.nprof), e.nbins)]

    def ensures(self, e):
        return dict(rparts=lambda b: e.rparts(b) + to_real(counts(e, e.xp, e.npart, e.nprof, e.nbins)(b)))


class CountParticlesMulti(Rec):
    name = "count_particles_in_bin_multi"
    exported = True
    params = dict(rparts="real*", xpRound0="int*", centers="int*", nprof="int", npart="int", nbins="int", ncenters="int")
    modifies = ("rparts",)

    def arrays(self, e):
        return dict(rparts=(R, [norm(e.nprof * e.nbins)]), xpRound0=(I, [norm(e.npart * e.nprof)]), centers=(I, [e.ncenters]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.nbins, e.ncenters) + ghost_order()

    def requires_all(self, e):
        return multi_ok(e, "xpRound0", e.ncenters, e.nbins)

    def ensures(self, e):
        return dict(rparts=lambda b: e.rparts(b) + to_real(counts_multi(
            e, e.xpRound0, e.centers, e.npart, e.nprof, e.nbins, e.ncenters)(b)))


def multi_ok(e, xp, ncenters, nbins):
    return [("centers within [cmin, cmax]", ncenters, lambda c: And(e.centers(c) >= CMIN, e.centers(c) <= CMAX), [trig(e, "centers")]),
            ("shifted bins in range", norm(e.npart * e.nprof),
             lambda k: And(getattr(e, xp)(k) + CMIN >= 0, getattr(e, xp)(k) + CMAX < nbins), [trig(e, xp)])]


def reciprocal(e, cnt, n):
    k = fresh("k")
    with e.ctx.scope(k >= 0, k < n):
        b = cnt(k)
    mx = mk_fold("max", norm(n), k, b, z3.IntVal(0))
    return lambda b: to_real(mx) / to_real(z3.If(cnt(b) == 0, z3.IntVal(1), cnt(b)))


class Reciprocal(Rec):
    name = "reciprocal_particles"
    params = dict(rparts="real*", xp="int*", nbins="int", nprof="int", npart="int")
    modifies = ("rparts",)

    def arrays(self, e):
        return dict(rparts=(R, [norm(e.nprof * e.nbins)]), xp=(I, [norm(e.npart * e.nprof)]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.nbins)

    def requires_all(self, e):
        return [xp_ok(e, norm(e.npart * e.nprof), e.nbins),
                ("rparts is zero on entry", norm(e.nprof * e.nbins), lambda k: e.rparts(k) == 0, [])]

    def initial(self, e):
        return dict(rparts=lambda b: ZERO)

    def ensures(self, e):
        return dict(rparts=reciprocal(e, counts(e, e.xp, e.npart, e.nprof, e.nbins), norm(e.nprof * e.nbins)))


class ReciprocalMulti(Rec):
    name = "reciprocal_particles_multi"
    params = dict(rparts="real*", xpRound0="int*", centers="int*", nbins="int", nprof="int", npart="int", ncenters="int")
    modifies = ("rparts",)

    def arrays(self, e):
        return dict(rparts=(R, [norm(e.nprof * e.nbins)]), xpRound0=(I, [norm(e.npart * e.nprof)]), centers=(I, [e.ncenters]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.nbins, e.ncenters) + ghost_order()

    def requires_all(self, e):
        return multi_ok(e, "xpRound0", e.ncenters, e.nbins) + [
            ("rparts is zero on entry", norm(e.nprof * e.nbins), lambda k: e.rparts(k) == 0, [])]

    def initial(self, e):
        return dict(rparts=lambda b: ZERO)

    def ensures(self, e):
        return dict(rparts=reciprocal(e, counts_multi(e, e.xpRound0, e.centers, e.npart, e.nprof, e.nbins, e.ncenters),
                                      norm(e.nprof * e.nbins)))


class FlatPoints(Rec):
    name = "create_flat_points"
    params = dict(xp="int*", flat_points="int*", npart="int", nprof="int", nbins="int")
    modifies = ("flat_points",)

    def arrays(self, e):
        return dict(xp=(I, [norm(e.npart * e.nprof)]), flat_points=(I, [norm(e.npart * e.nprof)]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.nbins)

    def ensures(self, e):
        return dict(flat_points=lambda x: e.xp(x) + e.nbins * md_f(x, e.nprof))


class CreateMask(Rec):
    name = "create_mask"
    params = dict(xpRound0="int*", centers="int*", cutleft="int*", cutright="int*", mask="bool*", npart="int", nprof="int", ncenter="int")
    modifies = ("mask",)

    def arrays(self, e):
        return dict(xpRound0=(I, [norm(e.npart * e.nprof)]), centers=(I, [e.ncenter]), cutleft=(I, [e.ncenter]),
                    cutright=(I, [e.ncenter]), mask=(B, [norm(e.npart * e.ncenter)]))

    def requires(self, e):
        return pos(e.npart, e.nprof, e.ncenter)

    def ensures(self, e):
        def f(x):
            i, c = md_f(x, e.npart), dv_f(x, e.npart)
            bad = e.count(e.nprof, lambda j: z3.Or(e.xpRound0(i * e.nprof + j) + e.centers(c) < e.cutleft(c),
                                                   e.xpRound0(i * e.nprof + j) + e.centers(c) > e.cutright(c)))
            return And(e.mask(x), norm(bad <= 0))
        return dict(mask=f)


def relu(x):
    return z3.If(x < 0, ZERO, x)


def row_sum(e, q, p):
    return e.sum(e.nbins, lambda j: q(norm(p * e.nbins + j)))


def normalised(e, q, b):
    return norm(q(b) / row_sum(e, q, dv_f(b, e.nbins)))


class Iteration:
    """The documented iteration for a single bunch, as spec functions over a pre-state."""

    def __init__(self, e, xp):
        self.e, self.xp = e, xp
        self.W = z3.Function("W", I, I, R)
        self.n = e.npart
        self.nw = norm(e.npart)
        self.ab = norm(e.nprof * e.nbins)
        self.C = e.abbr(self.ab, reciprocal(e, e.abbr(self.ab, self.counts()), self.ab))
        self.cache = {}

    def memo(self, what, k, mk):
        key = (what, norm(num(k)).get_id(), self.e.ctx.hkey())
        if key not in self.cache:
            self.cache[key] = (mk(), norm(num(k)), list(self.e.ctx.hyps))
        return self.cache[key][0]

    def counts(self):
        e = self.e
        return counts(e, self.xp, e.npart, e.nprof, e.nbins)

    def fp(self, i, j):
        e = self.e
        return norm(self.xp(norm(i * e.nprof + j)) + e.nbins * j)

    def back(self, i, f):
        return self.e.sum(self.e.nprof, lambda j: f(self.fp(i, j)))

    def w(self, k):
        """weights after k corrections: unfolded for 0 and for t+1"""
        e = self.e
        k = norm(num(k))
        p = poly(k)
        c = p.get((), 0)
        if is_num(k) and numval(k) == 0:
            f = self.memo("A", k, lambda: e.abbr(self.nw, lambda i: norm(e.weights(i) + self.back(i, e.flat_profiles))))
            return lambda i: relu(f(i))
        if c >= 1:
            m = norm(k - 1)
            f = self.memo("A", k, lambda: e.abbr(self.nw, lambda i: norm(
                self.w(m)(i) + self.back(i, lambda b: (e.flat_profiles(b) - self.Rn(m)(b)) * self.C(b)))))
            return lambda i: relu(f(i))
        return lambda i: self.W(k, i)

    def Q(self, k):
        e, w = self.e, self.w(k)
        return self.memo("Q", k, lambda: e.abbr(self.ab, lambda b: self.project(w, b)))

    def project(self, w, b):
        e = self.e
        return e.sum(e.npart, lambda i: e.sum(e.nprof, lambda j: z3.If(self.fp(i, j) == b, w(i), ZERO)))

    def row(self, k, p):
        return row_sum(self.e, self.Q(k), p)

    def Rn(self, k):
        q = self.Q(k)
        return self.memo("Rn", k, lambda: self.e.abbr(self.ab, lambda b: normalised(self.e, q, b)))

    def diff(self, k):
        r = self.Rn(k)
        return lambda b: norm(self.e.flat_profiles(b) - r(b))

    def D(self, k):
        e = self.e
        return rms(e, self.diff(k), e.nprof, e.nbins)

    def total(self, k):
        w = self.w(k)
        return self.e.sum(self.nw, lambda i: w(i))

    def zeros(self, k):
        """the reconstruction is stuck: nothing left to normalise"""
        e = self.e
        return [norm(self.total(k) <= 0), norm(e.sum(e.nprof, lambda p: self.row(k, p)) <= 0)]


class Stuck:
    """raises iff zero(k) for some 0 <= k <= niter"""

    def __init__(self, it, niter):
        self.it, self.niter = it, niter

    def on_throw(self, eng, o):
        ks = {}
        for h in o.state.pc:
            for x in walk(h).values():
                if z3.is_const(x) and x.decl().name().startswith("kap!"):
                    ks[x.get_id()] = x
        cands = [z3.IntVal(0), self.niter]
        for k in ks.values():
            cands += [k, norm(k + 1)]
        eng.sync(o.state)
        text = "an error is raised only when no weight is left after some iteration"
        for c in cands:
            if not eng.ctx.quick(And(c >= 0, c <= self.niter)):
                continue
            for z in self.it.zeros(c):
                if eng.ctx.quick(z):
                    eng.oblige(o.state, And(c >= 0, c <= self.niter, z), "post", text, "post")
                    return
        goal = z3.Or(*[And(c >= 0, c <= self.niter, z) for c in cands[:4] for z in self.it.zeros(c)])
        eng.oblige(o.state, goal, "post", "an error is raised only when no weight is left after some iteration", "post")

    def on_return(self, eng, o):
        m = fresh("m")
        st = o.state.copy()
        st.assume(m >= 0, m < self.niter)
        for t in (m, norm(m + 1)):
            for (fid, n_, fn, trig) in list(st.foralls):
                st.assume(z3.Implies(And(t >= 0, t < n_), fn(t)))
        eng.sync(st)
        text = "normal return only if weight was left after every iteration"
        eng.oblige(st, z3.Not(norm(self.it.total(norm(m + 1)) <= 0)), "post", text, "post")
        st0 = o.state.copy()
        for (fid, n_, fn, trig) in list(st0.foralls):
            st0.assume(z3.Implies(And(0 < n_), fn(z3.IntVal(0))))
        eng.sync(st0)
        eng.oblige(st0, z3.Not(norm(self.it.total(z3.IntVal(0)) <= 0)), "post", text + " (initial weights)", "post")


def trace_iter(eng, e, o, niter):
    st = o.state.copy()
    j = fresh("J")
    st.assume(j >= 0, j <= niter)
    eng.sync(st)
    eng.oblige(o.state, o.state.vars["$n"] == niter + 1, "post", "number of progress callbacks", "post")
    t0, t1 = [o.state.mem[t] for t in o.state.vars["$trace"]]
    eng.oblige(st, And(t0(j) == z3.If(j < niter, j + 1, niter), t1(j) == niter), "post", "arguments of the progress callbacks", "post")


class Reconstruct(Rec):
    name = "reconstruct"
    exported = True
    cost = 100
    params = dict(weights="real*", xp="int*", flat_profiles="real*", flat_rec="real*", discr="real*", niter="int", nbins="int",
                  npart="int", nprof="int", verbose="bool", callback="cb")
    modifies = ("weights", "flat_rec", "discr", "$n")
    may_throw = True

    def arrays(self, e):
        ab = norm(e.nprof * e.nbins)
        return dict(weights=(R, [e.npart]), xp=(I, [norm(e.npart * e.nprof)]), flat_profiles=(R, [ab]), flat_rec=(R, [ab]),
                    discr=(R, [norm(e.niter + 1)]))

    def requires(self, e):
        return pos(e.npart, e.niter) + [("nprof >= 1", e.nprof >= 1), ("nbins >= 1", e.nbins >= 1)]

    def requires_all(self, e):
        return [xp_ok(e, norm(e.npart * e.nprof), e.nbins)]

    def it(self, e):
        if getattr(e, "_it", None) is None:
            e._it = Iteration(e, e.xp)
        return e._it

    def templates(self, e, regions):
        it = self.it(e)
        return [Template(regions["weights"], lambda T: it.w(T))]

    def ensures(self, e):
        it = self.it(e)
        return dict(weights=it.w(e.niter), flat_rec=it.Rn(e.niter), discr=lambda k: it.D(k))

    def throws(self, e):
        return Stuck(self.it(e), e.niter)

    def check_trace(self, eng, e, o):
        trace_iter(eng, e, o, e.niter)


class IterationMulti(Iteration):
    """Several bunches that share the tracked particles, shifted by the bunch centers; one weight
    per (bunch, particle), index bunch * npart + particle."""

    def __init__(self, e, xp):
        Iteration.__init__(self, e, xp)
        self.nw = norm(e.npart * e.ncenter)
        self.mask = e.abbr(self.nw, self.mask0)

    def counts(self):
        e = self.e
        return counts_multi(e, self.xp, e.centers, e.npart, e.nprof, e.nbins, e.ncenter)

    def mask0(self, x):
        e = self.e
        i, c = md_f(x, e.npart), dv_f(x, e.npart)
        pos_ = lambda j: self.xp(norm(i * e.nprof + j)) + e.centers(c)
        bad = e.count(e.nprof, lambda j: z3.Or(pos_(j) < e.cutleft(c), pos_(j) > e.cutright(c)))
        return norm(bad <= 0)

    def back(self, x, f):
        e = self.e
        i, c = md_f(x, e.npart), dv_f(x, e.npart)
        return ite(self.mask(x), e.sum(e.nprof, lambda j: f(norm(self.fp(i, j) + e.centers(c)))), ZERO)

    def project(self, w, b):
        e = self.e
        return e.sum(e.ncenter, lambda c: e.sum(e.npart, lambda i: e.sum(e.nprof, lambda j: z3.If(
            norm(self.fp(i, j) + e.centers(c)) == b, w(norm(i + c * e.npart)), ZERO))))

    def Dc(self, x):
        """x = k * ncenter + c: RMS over the window of bunch c after k iterations"""
        e = self.e
        k, c = dv_f(x, e.ncenter), md_f(x, e.ncenter)
        return rms_cut(e, self.diff(k), e.cutleft(c), e.cutright(c), e.nprof, e.nbins)


class ReconstructMulti(Reconstruct):
    name = "reconstruct_multi"
    params = dict(weights="real*", xpRound0="int*", centers="int*", cutleft="int*", cutright="int*", flat_profiles="real*",
                  flat_rec="real*", discr="real*", discr_split="real*", niter="int", nbins="int", npart="int", nprof="int",
                  ncenter="int", verbose="bool", callback="cb")
    modifies = ("weights", "flat_rec", "discr", "discr_split", "$n")
    unspecified = ("discr_split",)

    def arrays(self, e):
        ab = norm(e.nprof * e.nbins)
        return dict(weights=(R, [norm(e.npart * e.ncenter)]), xpRound0=(I, [norm(e.npart * e.nprof)]), centers=(I, [e.ncenter]),
                    cutleft=(I, [e.ncenter]), cutright=(I, [e.ncenter]), flat_profiles=(R, [ab]), flat_rec=(R, [ab]),
                    discr=(R, [norm(e.niter + 1)]), discr_split=(R, [norm((e.niter + 1) * e.ncenter)]))

    def requires(self, e):
        return pos(e.npart, e.niter, e.ncenter) + [("nprof >= 1", e.nprof >= 1), ("nbins >= 1", e.nbins >= 1)] + ghost_order()

    def requires_all(self, e):
        return multi_ok(e, "xpRound0", e.ncenter, e.nbins) + [
            ("0 <= cutleft < cutright <= nbins", e.ncenter, lambda c: And(e.cutleft(c) >= 0, e.cutleft(c) < e.cutright(c), e.cutright(c) <= e.nbins),
             [trig(e, "cutleft"), trig(e, "cutright")])]

    def it(self, e):
        if getattr(e, "_it", None) is None:
            e._it = IterationMulti(e, e.xpRound0)
        return e._it

    def ensures(self, e):
        it = self.it(e)
        return dict(weights=it.w(e.niter), flat_rec=it.Rn(e.niter), discr=lambda k: it.D(k), discr_split=lambda x: it.Dc(x))

    def split_index(self, e, nm):
        if nm != "discr_split":
            return None
        k, c = fresh("K"), fresh("C")
        # the last iteration is stored outside of the loop
        return norm(k * e.ncenter + c), [k >= 0, k <= e.niter, c >= 0, c < e.ncenter]


HELPERS = [BackProject(), BackProjectMulti(), Project(), ProjectMulti(), Normalize(), Clip(), FindDiff(), Discrepancy(),
           DiscrepancyMulti(), Compensate(), Max1d(), Sum(), CountParticles(), CountParticlesMulti(), Reciprocal(),
           ReciprocalMulti(), FlatPoints(), CreateMask(), Reconstruct(), ReconstructMulti()]


if __name__ == "__main__":
    import os
    import sys
    from cfront import verify_unit
    base = os.environ.get("REPO", "/repo") + "/longitudinal_tomography/cpp_routines/"
    only = set(sys.argv[1:]) or None
    res = verify_unit(base + "reconstruct.cpp", HELPERS, want=tuple(os.environ.get("WANT", "double").split(",")), only=only)
    for n, r in res.items():
        print(n, r["status"], r["reason"], "%.1fs" % r.get("secs", 0), len(r["obls"]))
        for o in r["obls"]:
            if not o.ok or os.environ.get("V"):
                print("   ", o)
