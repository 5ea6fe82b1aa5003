"""Lemmas over the contracts: consequences of the verified postconditions, discharged by the same prover."""
import time

import z3

import spec_kd
import spec_rec
from cfront import CFront, Env, Callback, Ptr
from sym import State
from term import And, B, I, R, Unsupported, fresh, norm, to_real


class _NoUnit:
    path = "/dev/null"
    by_id = {}
    decls = []

    def functions(self):
        return {}


def setup(c, timeout=8000):
    eng = CFront(_NoUnit(), timeout)
    eng.fname = "lemma"
    st = State()
    eng.base_hyps, eng.base_foralls = [], []
    vals = {}
    for nm, t in c.params.items():
        if t in ("int", "real", "bool"):
            vals[nm] = z3.Const(nm, {"int": I, "real": R, "bool": B}[t])
        elif t == "cb":
            vals[nm] = Callback()
    vals.update(c.fixed())
    pre = Env(eng, c, dict(vals), {})
    for nm, (srt, dims) in c.arrays(pre).items():
        vals[nm] = Ptr(eng.symbolic(st, nm, srt, dims))
    e = Env(eng, c, vals, dict(st.mem))
    for text, f in c.requires(e):
        st.assume(f)
    for text, n_, fn, trig in c.requires_all(e):
        st.forall(n_, fn, trig)
    eng.sync(st)
    return eng, st, e


def valid_results(c, multi=False):
    """P02 over the contract of reconstruct / reconstruct_multi"""
    eng, st, e = setup(c)
    eng.fname = f"lemma({c.name})"
    it = c.it(e)
    k, i, b, p = fresh("K"), fresh("J"), fresh("J"), fresh("J")
    W, Q, Rn = z3.Function("W", I, I, R), None, None
    n = e.niter
    # weights: unfolded for niter = 0 and niter = m + 1
    m = fresh("m")
    for lab, kk in (("after the initial back projection", z3.IntVal(0)), ("after every correction", norm(m + 1))):
        s = st.copy()
        s.assume(m >= 0, i >= 0, i < it.nw)
        eng.sync(s)
        eng.oblige(s, it.w(kk)(i) >= 0, "lemma", f"weights are non-negative {lab}", "post")
    # for a fixed number of iterations: W(k, .) >= 0 is now known, and the total is positive on normal return
    s = st.copy()
    s.assume(k >= 0)
    s.forall(it.nw, lambda j: it.W(k, j) >= 0, ["W"])
    eng.sync(s)
    s.assume(p >= 0, p < e.nprof, it.total(k) > 0)
    eng.sync(s)
    row = it.row(k, p)
    if multi:
        per = e.sum(e.ncenter, lambda c: e.sum(e.npart, lambda i: it.W(k, norm(i + c * e.npart))))
        eng.oblige(s, per == it.total(k), "lemma", "the weights of all bunches add up to the total weight", "post")
        raw = e.sum(e.nbins, lambda j: it.project(it.w(k), norm(p * e.nbins + j)))
        eng.oblige(s, raw == per, "lemma", "the projection of every profile adds up to the weights of all bunches", "post")
        eng.oblige(s, row == raw, "lemma", "the projection as abbreviated", "post")
    else:
        eng.oblige(s, row == it.total(k), "lemma", "the projection of every profile adds up to the total weight", "post")
    s2 = s.copy()
    s2.assume(row == it.total(k), row > 0)
    j = fresh("J")
    s2.assume(j >= 0, j < e.nbins)
    eng.sync(s2)
    eng.oblige(s2, it.Q(k)(norm(p * e.nbins + j)) >= 0, "lemma", "projected profiles are non-negative", "post")
    # the remaining steps hold for any projection q and any difference d
    q, d = z3.Function("q", I, R), z3.Function("d", I, R)
    s4 = st.copy()
    s4.assume(p >= 0, p < e.nprof, j >= 0, j < e.nbins)
    eng.sync(s4)
    row = spec_rec.row_sum(e, q, p)
    s4.assume(row > 0, q(norm(p * e.nbins + j)) >= 0)
    eng.sync(s4)
    eng.oblige(s4, spec_rec.normalised(e, q, norm(p * e.nbins + j)) >= 0, "lemma", "recreated profiles are non-negative", "post")
    eng.oblige(s4, e.sum(e.nbins, lambda j: spec_rec.normalised(e, q, norm(p * e.nbins + j))) == 1, "lemma",
               "every recreated profile adds up to one", "post")
    s5 = st.copy()
    eng.sync(s5)
    eng.oblige(s5, e.sum(it.ab, lambda b: norm(d(b) * d(b))) >= 0, "lemma", "the sum of the squared differences is non-negative", "post")
    sq = e.sum(it.ab, lambda b: norm(d(b) * d(b)))
    x, y = z3.Real("x"), z3.Real("y")
    eng.oblige(s5, z3.Implies(And(x >= 0, y > 0), x * y >= 0), "lemma", "products of non-negative numbers", "post")
    rec = norm(1 / to_real(it.ab))
    eng.oblige(s5, rec > 0, "lemma", "the number of bins is positive", "post")
    s5.assume(sq >= 0, norm(sq * rec) >= 0)
    eng.sync(s5)
    eng.oblige(s5, spec_rec.rms(e, d, e.nprof, e.nbins) >= 0, "lemma", "discrepancies are non-negative", "post")
    return eng.obls


def reversible():
    """P04 over the contracts of kick_up/down, drift_up/down and the recurrences of kick_and_drift"""
    obls = []
    ku, kd, du, dd = spec_kd.KickUp(), spec_kd.KickDown(), spec_kd.DriftUp(), spec_kd.DriftDown()
    eng, st, e = setup(ku)
    eng.fname = "lemma(one turn)"
    drift = z3.Real("drift_coef")
    i = fresh("J")
    st.assume(i >= 0, i < e.nr_particles)
    eng.sync(st)

    def step(c, x, y):
        vals = dict(e.vals)
        vals["drift_coef"] = drift
        en = Env(eng, c, vals, dict(e.mem))
        en.mem[vals["dphi"].region] = x
        en.mem[vals["denergy"].region] = y
        post = c.ensures(en)
        mk = lambda f, r: eng.arr(f, r.sort, r.nd)
        return (mk(post["dphi"], vals["dphi"].region) if "dphi" in post else x,
                mk(post["denergy"], vals["denergy"].region) if "denergy" in post else y)
    x0, y0 = e.mem[e.vals["dphi"].region], e.mem[e.vals["denergy"].region]
    for lab, seq in (("up then down", (du, ku, kd, dd)), ("down then up", (kd, dd, du, ku))):
        x, y = x0, y0
        for c in seq:
            x, y = step(c, x, y)
        eng.oblige(st, x(i) == x0(i), "lemma", f"one turn {lab} restores the phase", "post")
        eng.oblige(st, y(i) == y0(i), "lemma", f"one turn {lab} restores the energy", "post")
    obls += eng.obls
    # the tracked orbit satisfies the same one-turn map above and below the start turn
    c = spec_kd.KickAndDrift()
    eng, st, e = setup(c)
    eng.fname = "lemma(kick_and_drift)"
    o = c.orbit(e)
    T, i = fresh("T"), fresh("J")
    st.assume(T >= 0, T < e.nturns, i >= 0, i < e.nparts)
    eng.sync(st)
    P, E = o.P, o.E
    x1, y1 = P(norm(T + 1), i), E(norm(T + 1), i)
    # above the start turn T + 1 is defined from T: substitute both definitions
    s = st.copy()
    s.assume(T >= o.T0)
    eng.sync(s)
    px, py = o.at("phi", norm(T + 1))(i), o.at("en", norm(T + 1))(i)
    eng.oblige(s, px == P(T, i) - e.drift_coef(T) * E(T, i), "lemma", "the drift equation holds between turns above the start turn", "post")
    eng.oblige(s, py == E(T, i) + o.kick(norm(T + 1), norm(P(T, i) - e.drift_coef(T) * E(T, i))), "lemma",
               "the kick equation holds between turns above the start turn", "post")
    s = st.copy()
    s.assume(T < o.T0)
    eng.sync(s)
    px, py = o.at("phi", T)(i), o.at("en", T)(i)
    eng.oblige(s, x1 == px - e.drift_coef(T) * py, "lemma", "the drift equation holds between turns below the start turn", "post")
    eng.oblige(s, y1 == py + o.kick(norm(T + 1), x1), "lemma", "the kick equation holds between turns below the start turn", "post")
    obls += eng.obls
    return obls


def index_arithmetic():
    """the rules about positions on a grid that the engine uses (np.split_index, floor of a quotient), from the definition of floor division"""
    eng = CFront(_NoUnit(), 8000)
    eng.fname = "lemma(positions on a grid)"
    st = State()
    eng.base_hyps, eng.base_foralls = [], []
    a, n, m, size, q = (z3.Int(x) for x in ("a", "n", "m", "size", "q"))
    st.assume(n > 0, a >= 0, a < size, norm(size <= n * m), norm(a - n * q >= 0), norm(a - n * q < n))
    eng.sync(st)
    eng.oblige(st, q >= 0, "lemma", "the quotient of a position is not negative", "post")
    eng.oblige(st, q < m, "lemma", "the quotient of a position on a grid of n*m is below m", "post")
    s = State()
    t, k = z3.Real("t"), z3.Int("k")
    x = norm(t / to_real(n))
    s.assume(n > 0, t >= 0, t < to_real(n))
    eng.sync(s)
    rest = norm((to_real(n) - t) * (1 / to_real(n)))
    eng.oblige(s, rest == norm(1 - x), "lemma", "what is left of t / n", "post")
    eng.oblige(s, rest > 0, "lemma", "t / n is below one for t below n", "post")
    eng.oblige(s, x >= 0, "lemma", "t / n is not negative for t not negative", "post")
    s.assume(x >= 0, x < 1, to_real(k) <= x, x < to_real(k) + 1)
    eng.sync(s)
    eng.oblige(s, k == 0, "lemma", "the whole part of t / n is zero for t from 0 to below n", "post")
    return eng.obls


LEMMAS = dict(index_arithmetic=index_arithmetic, valid_single=lambda: valid_results(spec_rec.Reconstruct()), valid_multi=lambda: valid_results(spec_rec.ReconstructMulti(), True),
              reversible=reversible)

if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    for nm, f in (("P04", reversible), ("P02", lambda: valid_results(spec_rec.Reconstruct())), ("P02m", lambda: valid_results(spec_rec.ReconstructMulti(), True))):
        t = time.time()
        for o in f():
            print(nm, o)
        print("%.1fs" % (time.time() - t))
