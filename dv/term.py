"""Terms, closed-form folds and the prover used by the verification-condition
generators (cfront.py for C++, pyfront.py for Python).

* machine reals are treated as mathematical reals, machine ints as mathematical
  integers (overflow of int index arithmetic is a separate obligation);
* arrays are closures index-term(s) -> element-term;
* finite sums / maxima are uninterpreted functions keyed by the canonical form of
  their body; the only facts the prover may use about them are those produced by
  the rules in this file, each of which is an instance of a textbook lemma:
     empty range, unfolding of the last element, pointwise congruence,
     linearity, one-point (Kronecker) sums, re-indexing, interchange of two
     sums, flattening of a nested sum, closed forms proved by induction.
* a goal counts as proved only when Z3 (or cvc5, on request) answers `unsat` on
  hypotheses + instantiated lemmas + negated goal.
"""
import itertools
import os
import re
import time
from fractions import Fraction

import z3

_serial = itertools.count(1)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """A construct outside of the subset the front end understands."""


STATS = dict(solver_calls=0, solver_s=0.0, unsat=0, cvc5_unsat=0)
_fresh = itertools.count()


def fresh(name, sort=I):
    return z3.Const(f"{name}!{next(_fresh)}", sort)


def freshfn(name, *sorts):
    return z3.Function(f"{name}!{next(_fresh)}", *sorts)


def num(x, sort=None):
    if isinstance(x, z3.ExprRef):
        if sort is R and x.sort() == I:
            return to_real(x)
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.RealVal(x) if sort is R else z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        return z3.RealVal(str(Fraction(x)))
    raise Unsupported(f"number {x!r}")


def to_real(x):
    if x.sort() == R:
        return x
    if x.sort() == B:
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    # push ToReal through linear structure so that products normalise
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*[to_real(c) for c in x.children()]) if x.num_args() > 1 else to_real(x.arg(0))
    if k == z3.Z3_OP_SUB and x.num_args() == 2:
        return to_real(x.arg(0)) - to_real(x.arg(1))
    if k == z3.Z3_OP_UMINUS:
        return -to_real(x.arg(0))
    if k == z3.Z3_OP_MUL:
        r = to_real(x.arg(0))
        for c in x.children()[1:]:
            r = r * to_real(c)
        return r
    if k == z3.Z3_OP_ITE:
        return z3.If(x.arg(0), to_real(x.arg(1)), to_real(x.arg(2)))
    return z3.ToReal(x)


def to_int(x):
    if x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def boolish(x):
    if x.sort() == B:
        return x
    return x != 0


def coerce(a, b):
    """Usual arithmetic conversions."""
    if a.sort() == B and b.sort() == B:
        return a, b
    if a.sort() == R or b.sort() == R:
        return to_real(a), to_real(b)
    return to_int(a), to_int(b)


# ------------------------------------------------------------------ functions
sin_f = z3.Function("sin", R, R)
cos_f = z3.Function("cos", R, R)
sqrt_f = z3.Function("sqrt", R, R)
pi_c = z3.Const("pi", R)
recip_f = z3.Function("recip", R, R)
floor_f = z3.Function("floor", R, I)
dv_f = z3.Function("dv", I, I, I)          # floor division
md_f = z3.Function("md", I, I, I)
mulI_f = z3.Function("mulI", I, I, I)
mulR_f = z3.Function("mulR", R, R, R)


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def numval(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


_WALK = {}


def walk(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        h = _WALK.get(t.get_id())
        if h is None:
            if len(_WALK) > 60000:
                _WALK.clear()
            h = (t, _walk(t, {}))
            _WALK[t.get_id()] = h
        return h[1]
    seen.update(walk(t))
    return seen


def _walk(t, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        st.extend(x.children())
    return seen


_DN = {}


def dname(x):
    """Name of the function symbol applied at the root ("" if x is not an application), memoised."""
    i = x.get_id()
    h = _DN.get(i)
    if h is None:
        if len(_DN) > 400000:
            _DN.clear()
        h = (x, x.decl().name() if z3.is_app(x) else "")
        _DN[i] = h
    return h[1]


def names(t):
    """Names of all the function symbols in t, memoised."""
    i = ("n", t.get_id())
    h = _DN.get(i)
    if h is None:
        h = (t, frozenset(dname(x) for x in walk(t).values()))
        _DN[i] = h
    return h[1]


def contains(t, c):
    cid = c.get_id()
    return cid in walk(t)


def contains_any(t, cs):
    w = walk(t)
    return any(c.get_id() in w for c in cs)


def contains_decl(t, decl):
    return decl.name() in names(t)


def conjuncts(t):
    if z3.is_and(t):
        r = []
        for c in t.children():
            r += conjuncts(c)
        return r
    if z3.is_not(t) and z3.is_or(t.arg(0)):
        r = []
        for c in t.arg(0).children():
            r += conjuncts(z3.Not(c))
        return r
    return [t]


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ----------------------------------------------------------------- polynomials
_POLY = {}


def poly(t):
    """term -> {monomial (tuple of atoms sorted by key): coefficient}.  Do not modify the result."""
    h = _POLY.get(t.get_id())
    if h is None:
        if len(_POLY) > 60000:
            _POLY.clear()
        h = (t, _poly(t))
        _POLY[t.get_id()] = h
    return h[1]


def _poly(t):
    k = t.decl().kind() if z3.is_app(t) else None
    if is_num(t):
        v = numval(t)
        return {(): v} if v else {}
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            _padd(r, poly(c), 1)
        return r
    if k == z3.Z3_OP_SUB:
        r = dict(poly(t.arg(0)))
        for c in t.children()[1:]:
            _padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        r = {}
        _padd(r, poly(t.arg(0)), -1)
        return r
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in t.children():
            r = _pmul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return _pmul(poly(t.arg(0)), _recip(t.arg(1)))
    if k == z3.Z3_OP_POWER and is_num(t.arg(1)):
        e = numval(t.arg(1))
        if e.denominator == 1 and 0 <= e <= 6:
            r = {(): Fraction(1)}
            p = poly(t.arg(0))
            for _ in range(int(e)):
                r = _pmul(r, p)
            return r
    return {(t,): Fraction(1)}


def _recip(d):
    p = poly(d)
    if not p:
        return {(recip_f(z3.RealVal(0)),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(_sorta([_recip_atom(a) for a in m])): 1 / c}
    # normalise the sign and scale of the denominator so that 1/(2a+2b) ~ 1/(a+b)
    lead = min(p.items(), key=lambda kv: [a_key(a) for a in kv[0]])[1]
    q = {m: c / lead for m, c in p.items()}
    return {(recip_f(unpoly(q, R)),): 1 / lead}


def _recip_atom(a):
    if a.decl().eq(recip_f):
        return a.arg(0)
    return recip_f(a)


_KEYS = {}


def a_key(a):
    i = a.get_id()
    k = _KEYS.get(i)
    if k is None:
        k = (a.sexpr(), a)     # keep a alive so that the id stays valid
        _KEYS[i] = k
    return k[0]


def _sorta(m):
    return sorted(m, key=a_key)


def _padd(r, p, s):
    for m, c in p.items():
        k = _mk(r, m)
        v = r.get(k, 0) + s * c
        if v:
            r[k] = v
        else:
            r.pop(k, None)


def _mk(r, m):
    return m


class _M(tuple):
    pass


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(_cancel(_sorta(list(m1) + list(m2))))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


NONZERO = []       # terms known non-zero (contract preconditions); see Ctx.nonzero


def _cancel(m):
    """x * recip(x) -> 1 for x known to be non-zero."""
    out = list(m)
    changed = True
    while changed:
        changed = False
        for a in out:
            if a.decl().eq(recip_f):
                x = a.arg(0)
                for b in out:
                    if b.eq(x) and any(x.eq(nz) for nz in NONZERO):
                        out.remove(a)
                        out.remove(b)
                        changed = True
                        break
            if changed:
                break
    return out


def unpoly(p, sort, mul=None):
    ts = []
    for m, c in sorted(p.items(), key=lambda kv: [a_key(a) for a in kv[0]]):
        cv = z3.RealVal(str(c)) if sort == R else z3.IntVal(int(c))
        if not m:
            ts.append(cv)
            continue
        x = m[0]
        for a in m[1:]:
            x = (x * a) if mul is None else mul(x, a)
        if c == 1:
            ts.append(x)
        else:
            ts.append(cv * x)
    if not ts:
        return z3.RealVal(0) if sort == R else z3.IntVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def integral(p):
    return all(c.denominator == 1 for c in p.values())


# --------------------------------------------------------------- normalisation
def norm(t, cache=None):
    """Bottom-up polynomial normal form of arithmetic, light simplification of
    booleans; keeps ITE and uninterpreted applications as atoms."""
    if len(_NORM) > 400000:
        _NORM.clear()
    return _norm(t, _NORM)


_NORM = {}


def add_nonzero(*ts):
    """Declare terms non-zero (an assumption of the contract being verified)."""
    for t in ts:
        NONZERO.append(norm(t))
    _NORM.clear()
    _POLY.clear()


def reset_nonzero():
    if NONZERO:
        NONZERO.clear()
        _NORM.clear()
        _POLY.clear()


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER}


def _norm(t, cache):
    i = t.get_id()
    if i in cache:
        return cache[i][0]
    if not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = [_norm(c, cache) for c in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c, a, b = ch
            c = z3.simplify(c) if (z3.is_true(c) or z3.is_false(c)) else c
            if z3.is_true(c):
                r = a
            elif z3.is_false(c):
                r = b
            elif a.eq(b):
                r = a
            elif z3.is_not(c):
                r = z3.If(c.arg(0), b, a)
            else:
                r = z3.If(c, a, b)
        elif k in _ARITH:
            s = t.decl()(*ch) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else _rebuild(k, ch)
            r = unpoly(poly(s), t.sort())
        elif k == z3.Z3_OP_TO_REAL:
            r = to_real(ch[0])
            if not (z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL):
                r = unpoly(poly(r), R)
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and ch[0].sort() in (I, R):
            r = _normcmp(k, ch[0], ch[1])
        elif k == z3.Z3_OP_DISTINCT and len(ch) == 2 and ch[0].sort() in (I, R):
            r = z3.Not(_normcmp(z3.Z3_OP_EQ, ch[0], ch[1]))
        elif k == z3.Z3_OP_AND:
            xs = []
            for c in ch:
                xs += conjuncts(c)
            xs = [x for x in xs if not z3.is_true(x)]
            r = z3.BoolVal(False) if any(z3.is_false(x) for x in xs) else And(*xs)
        elif k == z3.Z3_OP_OR:
            xs = [c for c in ch if not z3.is_false(c)]
            r = z3.BoolVal(True) if any(z3.is_true(x) for x in xs) else (
                z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs))
        elif k == z3.Z3_OP_NOT:
            c = ch[0]
            if z3.is_true(c):
                r = z3.BoolVal(False)
            elif z3.is_false(c):
                r = z3.BoolVal(True)
            elif z3.is_not(c):
                r = c.arg(0)
            elif c.decl().kind() == z3.Z3_OP_LE:
                r = _normcmp(z3.Z3_OP_GT, c.arg(0), c.arg(1))
            else:
                r = z3.Not(c)
        elif t.decl().eq(dv_f) or t.decl().eq(md_f):
            r = (mk_div if t.decl().eq(dv_f) else mk_mod)(ch[0], ch[1])
        elif t.decl().eq(sqrt_f) and is_num(ch[0]) and numval(ch[0]) in (0, 1):
            r = ch[0]
        else:
            r = t.decl()(*ch)
    cache[i] = (r, t)
    return r


def _rebuild(k, ch):
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    r = ch[0]
    for c in ch[1:]:
        r = r * c
    return r


def _normcmp(k, a, b):
    s = a.sort()
    p = poly(a)
    p = dict(p)
    _padd(p, poly(b), -1)
    if not p or list(p) == [()]:
        v = p.get((), Fraction(0))
        return z3.BoolVal({z3.Z3_OP_EQ: v == 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0,
                           z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0}[k])
    if k == z3.Z3_OP_GE:
        p = {m: -c for m, c in p.items()}
        k = z3.Z3_OP_LE
    if k == z3.Z3_OP_GT:
        p = {m: -c for m, c in p.items()}
        k = z3.Z3_OP_LT
    if s == I and k == z3.Z3_OP_LT:
        p = dict(p)
        _padd(p, {(): Fraction(1)}, 1)
        k = z3.Z3_OP_LE
    # scale
    cs = [abs(c) for m, c in p.items() if m]
    if s == I:
        import math
        g = 0
        for c in p.values():
            g = math.gcd(g, int(abs(c)))
        if g > 1:
            p = {m: c / g for m, c in p.items()}
    else:
        lead = [c for m, c in sorted(p.items(), key=lambda kv: [a_key(a) for a in kv[0]]) if m][0]
        p = {m: c / abs(lead) for m, c in p.items()}
    if k == z3.Z3_OP_EQ:
        lead = [c for m, c in sorted(p.items(), key=lambda kv: [a_key(a) for a in kv[0]]) if m][0]
        if lead < 0:
            p = {m: -c for m, c in p.items()}
    e = unpoly(p, s)
    z = z3.RealVal(0) if s == R else z3.IntVal(0)
    if k == z3.Z3_OP_EQ:
        return e == z
    if k == z3.Z3_OP_LE:
        return z3.ArithRef.__le__(e, z)       # not `e <= z`: Python would call z.__ge__
    return z3.ArithRef.__lt__(e, z)


def mk_div(a, n):
    if is_num(n) and is_num(a) and numval(n) != 0:
        return z3.IntVal(int(numval(a) // numval(n)))
    if is_num(n) and numval(n) == 1:
        return a
    return dv_f(a, n)


def mk_mod(a, n):
    if is_num(n) and is_num(a) and numval(n) != 0:
        return z3.IntVal(int(numval(a) % numval(n)))
    if is_num(n) and numval(n) == 1:
        return z3.IntVal(0)
    return md_f(a, n)


# ------------------------------------------------------------------ fold nodes
class Fold:
    """kind in {sum, max}; application f(params..., n) stands for
    fold_{0<=k<n} body(k, params)."""

    def __init__(self, kind, fn, k, params, body, sort):
        self.kind, self.fn, self.k, self.params, self.body, self.sort = kind, fn, k, params, body, sort

    def inst(self, args, kterm):
        """Body at index kterm; for max folds the last of args is the initial value."""
        subs = [(self.k, kterm)] + list(zip(self.params, args))
        return norm(z3.substitute(self.body, *subs))


FOLDS = {}        # key -> Fold
FOLD_BY_DECL = {}  # decl name -> Fold


def is_fold(t):
    return dname(t) in FOLD_BY_DECL


def fold_of(t):
    f = FOLD_BY_DECL[dname(t)]
    a = t.children()
    return f, a[:-1], a[-1]


def _abstract(body, k):
    """Replace the maximal k-free, non-constant-value subterms by parameters."""
    params, args, cache = [], [], {}

    def par(t):
        if is_num(t) or z3.is_true(t) or z3.is_false(t):
            return t
        for p, a in zip(params, args):
            if a.eq(t):
                return p
        r = z3.Const(f"P{len(params)}${t.sort()}", t.sort())
        params.append(r)
        args.append(t)
        return r

    def signed(p, srt):
        """parameter for the k-free polynomial p, sign-normalised"""
        lead = min(p.items(), key=lambda kv: [a_key(a) for a in kv[0]])[1]
        if lead < 0:
            return -par(unpoly({m: -c for m, c in p.items()}, srt))
        return par(unpoly(p, srt))

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][0]
        if t.eq(k):
            r = t
        elif not contains(t, k):
            r = par(t)
        elif t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            p = poly(t)
            free = {m: c for m, c in p.items() if not any(contains(a, k) for a in m)}
            out = []
            for m, c in sorted(p.items(), key=lambda kv: [a_key(a) for a in kv[0]]):
                if m in free:
                    continue
                co = tuple(a for a in m if not contains(a, k))
                x = None
                for a in m:
                    if contains(a, k):
                        x = go(a) if x is None else x * go(a)
                if co:
                    x = par(unpoly({co: Fraction(1)}, t.sort())) * x
                if c != 1:
                    x = (z3.RealVal(str(c)) if t.sort() == R else z3.IntVal(int(c))) * x
                out.append(x)
            if free:
                out.append(signed(free, t.sort()))
            r = norm(out[0] if len(out) == 1 else z3.Sum(*out))
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        cache[i] = (r, t)
        return r
    b = go(body)
    # canonical order of the parameters: traversal with parameter names masked
    for rnd in range(3):
        order = []

        def key(t):
            return re.sub(r"[PQ]\d+[ab]?\$", "P$", t.sexpr())

        def visit(t):
            if z3.is_const(t):
                if any(t.eq(p) for p in params) and not any(t.eq(o) for o in order):
                    order.append(t)
                return
            ch = t.children()
            if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR):
                ch = sorted(ch, key=key)
            for c in ch:
                visit(c)
        visit(b)
        if not order:
            return b, [], []
        new = [z3.Const(f"Q{i}{'ab'[rnd % 2]}${o.sort()}", o.sort()) for i, o in enumerate(order)]
        b = norm(z3.substitute(b, *zip(order, new)))
        arg_of = {p.get_id(): a for p, a in zip(params, args)}
        params, args = new, [arg_of[o.get_id()] for o in order]
    return b, params, args


def mk_fold(kind, n, k, body, init=None):
    """Fold over 0 <= k < n of `body` (a term over the constant k).  For kind 'max'
    the result is max(init, body(0), ..., body(n-1))."""
    body = norm(body)
    if kind == "sum" and body.sort() == R:
        lv = split_ite(body)
        if all(is_num(l) and numval(l).denominator == 1 for _, l in lv):
            ib = _map_leaves(body, lambda l: z3.IntVal(int(numval(l))))
            return z3.ToReal(mk_fold(kind, n, k, ib))
    if body.sort() == R:
        ib = as_int(body)
        ii = as_int(norm(init)) if kind == "max" else None
        if ib is not None and (kind == "sum" or ii is not None):
            return z3.ToReal(mk_fold(kind, n, k, ib, ii))
    K = z3.Const("K$I", I)
    b, params, args = _abstract(z3.substitute(body, (k, K)), K)
    key = (kind, b.sexpr())
    f = FOLDS.get(key)
    if f is None:
        name = f"{kind}#{len(FOLDS)}"
        extra = [body.sort()] if kind == "max" else []
        fn = z3.Function(name, *[p.sort() for p in params], *extra, I, body.sort())
        f = Fold(kind, fn, K, params, b, body.sort())
        FOLDS[key] = f
        FOLD_BY_DECL[name] = f
    if kind == "max":
        args = args + [init]
    return f.fn(*args, n)


DEFS, DEF_BY_DECL = {}, {}


def is_def(t):
    return dname(t) in DEF_BY_DECL


def def_body(t):
    """The definition of an abbreviation, at its arguments."""
    f, args, n = DEF_BY_DECL[t.decl().name()], t.children()[:-1], t.children()[-1]
    return f.inst(args, n)


def mk_def(n, k, body):
    """Abbreviation of body (a term over k) at k = n: a defined function of n and of the
    k-free parts of the body."""
    body = norm(body)
    K = z3.Const("K$I", I)
    b, params, args = _abstract(z3.substitute(body, (k, K)), K)
    key = b.sexpr()
    f = DEFS.get(key)
    if f is None:
        name = f"def#{len(DEFS)}"
        fn = z3.Function(name, *[p.sort() for p in params], I, body.sort())
        f = Fold("def", fn, K, params, b, body.sort())
        DEFS[key] = f
        DEF_BY_DECL[name] = f
    return f.fn(*args, n)


def heavy(t, k):
    return any(is_fold(x) and contains(x, k) for x in walk(t).values())


def expand_defs(t, n=1):
    """Replace the abbreviations of t by their definitions, n levels."""
    for _ in range(n):
        subs = [(x, def_body(x)) for x in walk(t).values() if is_def(x)]
        if not subs:
            break
        # outermost first: an argument may itself be an abbreviation
        t = norm(z3.substitute(t, *sorted(subs, key=lambda s: -len(walk(s[0])))))
    return t


def as_int(t):
    """The integer term equal to the real term t, if t is visibly integer-valued."""
    if t.sort() == I:
        return t
    if is_num(t):
        return z3.IntVal(int(numval(t))) if numval(t).denominator == 1 else None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = as_int(t.arg(1)), as_int(t.arg(2))
        return None if a is None or b is None else ite(t.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [as_int(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for c in ch[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
        return norm(r)
    return None


def split_ite(t):
    """Flatten an ITE tree into [(cond, leaf)]."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return [(And(c, x), l) for x, l in split_ite(a)] + [(And(z3.Not(c), x), l) for x, l in split_ite(b)]
    return [(z3.BoolVal(True), t)]


def _map_leaves(t, f):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return ite(c, _map_leaves(a, f), _map_leaves(b, f))
    return f(t)


def lift_ite(t, limit=8):
    """Pull ITEs to the top of an arithmetic term (small terms only)."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return ite(c, lift_ite(a, limit), lift_ite(b, limit))
    if z3.is_app(t) and t.decl().kind() in _ARITH | {z3.Z3_OP_TO_REAL}:
        for i, c in enumerate(t.children()):
            lc = lift_ite(c, limit)
            if z3.is_app(lc) and lc.decl().kind() == z3.Z3_OP_ITE and limit > 0:
                ch = t.children()
                mk = lambda x: _rebuild(t.decl().kind(), ch[:i] + [x] + ch[i + 1:]) \
                    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else t.decl()(*(ch[:i] + [x] + ch[i + 1:]))
                return ite(lc.arg(0), lift_ite(mk(lc.arg(1)), limit - 1), lift_ite(mk(lc.arg(2)), limit - 1))
    return t


# ------------------------------------------------------------------------- Ctx
class Ctx:
    """Hypotheses, facts about uninterpreted functions, and the prover."""

    def __init__(self, timeout=8000):
        self.hyps = []
        self.fn_facts = {}       # decl name -> callable(args, app) -> [formula]
        self.foralls = []        # (n, fn(k)->formula, trigger decl names)
        self.timeout = timeout
        self.depth = 0
        self.pcache = {}
        self.icache = {}
        self.smt = {}

    # hypotheses ---------------------------------------------------------------
    def assume(self, *fs):
        for f in fs:
            f = norm(f)
            if not z3.is_true(f) and not any(h.get_id() == f.get_id() for h in self.hyps):
                self.hyps.append(f)

    class _Scope:
        def __init__(self, c, fs):
            self.c, self.fs = c, fs

        def __enter__(self):
            self.n = len(self.c.hyps)
            self.nf = len(self.c.foralls)
            self.c.assume(*self.fs)
            return self.c

        def __exit__(self, *a):
            del self.c.hyps[self.n:]
            del self.c.foralls[self.nf:]

    def scope(self, *fs):
        return Ctx._Scope(self, fs)

    # sums -----------------------------------------------------------------------
    def sum(self, n, fn, lo=None, sort=R):
        """sum_{lo <= i < n} fn(i); re-indexed to start at 0."""
        n = num(n)
        if lo is not None and not (is_num(num(lo)) and numval(num(lo)) == 0):
            lo = num(lo)
            return self.sum(norm(n - lo), lambda k: fn(k + lo), sort=sort)
        n = norm(n)
        k = fresh("k")
        with self.scope(k >= 0, k < n):
            body = self.simp(num(fn(k), sort if sort == R else None))
            res = norm(self._sum_norm(n, k, body))
        return self.simp(res)

    def abbr(self, n, fn):
        """fn (a function on 0 <= j < n) with its results abbreviated if they contain folds."""
        k = fresh("k")
        n = norm(num(n))
        with self.scope(k >= 0, k < n):
            t = self.simp(fn(k))
        def leaf(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not heavy(t.arg(0), k):
                c, a, b = t.children()
                a, b = leaf(a), leaf(b)
                return lambda j: ite(z3.substitute(c, (k, j)), a(j), b(j))
            if not heavy(t, k) or len(walk(t)) < 12:
                return lambda j: z3.substitute(t, (k, j))
            if t.sort() == R and as_int(t) is not None:
                ti = as_int(t)
                return lambda j: z3.ToReal(mk_def(j, k, ti))
            return lambda j: mk_def(j, k, t)
        f = leaf(t)
        return lambda j: norm(f(norm(num(j))))

    def _sum_norm(self, n, k, body):
        srt = body.sort()
        zero = z3.RealVal(0) if srt == R else z3.IntVal(0)
        if is_num(n) and numval(n) <= 0:
            return zero
        # linearity
        p = poly(body)
        out = []
        for m, c in p.items():
            const = [a for a in m if not contains(a, k)]
            rest = [a for a in m if contains(a, k)]
            coef = unpoly({tuple(const): c}, srt)
            if not rest:
                nn = to_real(n) if srt == R else n
                if self.quick(n >= 0):
                    out.append(coef * nn)
                else:
                    out.append(coef * z3.If(n >= 0, nn, zero))
                continue
            rb = unpoly({tuple(rest): Fraction(1)}, srt)
            out.append(coef * self._sum_atom(n, k, rb, srt))
        if not out:
            return zero
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def _sum_atom(self, n, k, body, srt):
        zero = z3.RealVal(0) if srt == R else z3.IntVal(0)
        lb = norm(lift_ite(body))
        if z3.is_app(lb) and lb.decl().kind() == z3.Z3_OP_ITE:
            leaves = [(c, l) for c, l in split_ite(lb) if not (is_num(l) and numval(l) == 0)]
            res = []
            for c, l in leaves:
                c = norm(c)
                if z3.is_false(c):
                    continue
                res.append(self._sum_guarded(n, k, c, l, srt))
            if not res:
                return zero
            return res[0] if len(res) == 1 else z3.Sum(*res)
        return mk_fold("sum", n, k, lb)

    def _sum_guarded(self, n, k, g, v, srt):
        zero = z3.RealVal(0) if srt == R else z3.IntVal(0)
        cs = conjuncts(g)
        out_g = [c for c in cs if not contains(c, k)]
        in_g = [c for c in cs if contains(c, k)]
        if not in_g:
            with self.scope(*out_g):
                return ite(And(*out_g), self._sum_norm(n, k, v), zero)
        with self.scope(*out_g):
            mm = self._multiples(n, k, in_g, v, srt)
            if mm is not None:
                return ite(And(*out_g), mm, zero)
            w = self.pin(k, in_g, And(k >= 0, k < n))
            if w is not None:
                subst = lambda t: norm(z3.substitute(t, (k, w)))
                inner = And(w >= 0, w < n, *[subst(c) for c in in_g])
                r = ite(norm(inner), subst(v), zero)
            else:
                # linearity below the guard
                p = poly(v)
                parts = []
                for m, c in p.items():
                    const = [a for a in m if not contains(a, k)]
                    rest = [a for a in m if contains(a, k)]
                    rb = unpoly({tuple(rest): Fraction(1)}, srt) if rest else (
                        z3.RealVal(1) if srt == R else z3.IntVal(1))
                    coef = unpoly({tuple(const): c}, srt)
                    parts.append(coef * mk_fold("sum", n, k, z3.If(And(*in_g), rb, zero)))
                if not parts:
                    r = zero
                else:
                    r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        return ite(And(*out_g), r, zero)

    def _multiples(self, n, k, guards, v, srt):
        """sum_{0<=k<n} [md(c +- k, d) == 0] * v  with v independent of k: a difference of
        two quotients; the closed form is accepted only after the induction step is proved."""
        if len(guards) != 1 or contains(v, k) or not z3.is_eq(guards[0]):
            return None
        g = guards[0]
        m, z = (g.arg(0), g.arg(1)) if is_num(g.arg(1)) else (g.arg(1), g.arg(0))
        if not (is_num(z) and numval(z) == 0 and z3.is_app(m) and m.decl().eq(md_f)):
            return None
        e, d = m.children()
        if contains(d, k):
            return None
        c = norm(z3.substitute(e, (k, z3.IntVal(0))))
        up = norm(e - c - k)
        dn = norm(e - c + k)
        if is_num(up) and numval(up) == 0:
            F = lambda x: dv_f(norm(c + x - 1), d) - dv_f(norm(c - 1), d)
        elif is_num(dn) and numval(dn) == 0:
            F = lambda x: dv_f(c, d) - dv_f(norm(c - x), d)
        else:
            return None
        if not self.quick(d > 0):
            return None
        t = fresh("k")
        with self.scope(t >= 0):
            step = z3.If(z3.substitute(g, (k, t)), 1, 0)
            if not (self.quick(F(z3.IntVal(0)) == 0) and self.quick(F(t + 1) - F(t) == step)):
                return None
        if not self.quick(n >= 0):
            return None
        r = F(n)
        return norm((to_real(r) if srt == R else r) * v)

    def pin(self, k, guards, rng, extra=()):
        """A term w without k such that guards(k) & rng -> k == w, or None."""
        cands = list(extra)
        for g in guards:
            for a in walk(g).values():
                if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE) and a.arg(0).sort() == I:
                    e = norm(a.arg(0) - a.arg(1))
                    cands += self._solve(e, k)
        # t == dv(x, n)  &  md(x, n) == 0   =>   x == n*t
        dvs = {}
        for g in guards:
            for x in walk(g).values():
                if z3.is_app(x) and x.decl().eq(dv_f) and contains(x, k):
                    dvs[x.get_id()] = x
        for x in dvs.values():
            for g in guards:
                if z3.is_eq(g) and g.arg(0).sort() == I and contains(g, x):
                    e = norm(g.arg(0) - g.arg(1))
                    for t in self._solve(e, x):
                        cands += self._solve(norm(x.arg(0) - x.arg(1) * t), k)
        zeros = [m for g in guards if z3.is_eq(g) for m in g.children() if z3.is_app(m) and m.decl().eq(md_f) and contains(m, k)]
        for x in dvs.values():
            for g in guards:
                if z3.is_eq(g) and g.arg(0).sort() == I and contains(g, x):
                    for t in self._solve(norm(g.arg(0) - g.arg(1)), x):
                        for m in zeros:
                            for sh in (0, 1, -1):
                                cands += self._solve(norm(m.arg(0) - m.arg(1) * (t + sh)), k)
        seen = set()
        for w in cands:
            w = norm(w)
            if w.sort() != I or contains(w, k) or w.get_id() in seen:
                continue
            seen.add(w.get_id())
            with self.scope(rng, *guards):
                if self.quick(k == w):
                    return w
        return None

    def _solve(self, e, k):
        """Candidate solutions of e == 0 for k (linear, or k*n + b == t via division)."""
        p = poly(e)
        lin, rest, sym = Fraction(0), {}, {}
        for m, c in p.items():
            ks = [a for a in m if a.eq(k)]
            if not ks:
                if any(contains(a, k) for a in m):
                    rest[m] = c       # k buried in e.g. xp(k): still usable as a candidate remainder
                    continue
                rest[m] = c
            elif len(m) == 1:
                lin += c
            elif len(ks) == 1:
                o = tuple(a for a in m if not a.eq(k))
                if any(contains(a, k) for a in o):
                    return []
                sym[o] = sym.get(o, 0) + c
            else:
                return []
        clean = {m: c for m, c in rest.items() if not any(contains(a, k) for a in m)}
        dirty = len(clean) != len(rest)
        out = []
        if lin and not sym and not dirty:
            if abs(lin) == 1:
                out.append(unpoly({m: -c / lin for m, c in rest.items()}, I))
            elif integral({m: c for m, c in rest.items()}):
                out.append(mk_div(unpoly({m: (-c if lin > 0 else c) for m, c in rest.items()}, I),
                                  z3.IntVal(int(abs(lin)))))
        if len(sym) == 1 and not lin:
            (o, c), = sym.items()
            if abs(c) == 1:
                n = unpoly({o: Fraction(1)}, I)
                t = {m: -cc / c for m, cc in clean.items()}
                # k*n + rest == 0  ->  k = dv(-rest, n); try with all / without the bounded parts
                if len(o) == 1:
                    q = {}
                    for m, cc in t.items():
                        if any(a.eq(o[0]) for a in m):
                            q[_drop(m, o[0])] = cc
                    out.append(unpoly(q, I))
                out.append(mk_div(unpoly(t, I), n))
                for drop in list(t):
                    out.append(mk_div(unpoly({m: cc for m, cc in t.items() if m != drop}, I), n))
                for only in list(t):
                    out.append(mk_div(unpoly({only: t[only]}, I), n))
                    # exact multiples:  k*n - n*r == 0
                    if any(a.eq(n) for a in only) and len(o) == 1:
                        pass
                # exact division when every monomial contains n
                if len(o) == 1 and all(any(a.eq(o[0]) for a in m) for m in t):
                    q = {}
                    for m, cc in t.items():
                        l = list(m)
                        for i, a in enumerate(l):
                            if a.eq(o[0]):
                                del l[i]
                                break
                        q[tuple(l)] = cc
                    out.insert(0, unpoly(q, I))
        return out

    # --------------------------------------------------- contextual simplification
    def simp(self, t, budget=24):
        """Resolve if-then-else conditions decided by the hypotheses."""
        t = norm(t)
        key = ("simp", t.get_id(), self.hkey())
        if key in self.pcache:
            return self.pcache[key][0]
        src = t
        undecided = set()
        t = self._simp_div(t)
        while budget > 0:
            c = None
            for x in walk(t).values():
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).get_id() not in undecided:
                    if c is None or len(walk(x.arg(0))) < len(walk(c)):
                        c = x.arg(0)
            if c is None:
                break
            budget -= 1
            if self.quick(c, 1500):
                t = norm(z3.substitute(t, (c, z3.BoolVal(True))))
            elif self.quick(z3.Not(c), 1500):
                t = norm(z3.substitute(t, (c, z3.BoolVal(False))))
            else:
                undecided.add(c.get_id())
                cs = conjuncts(c)
                if len(cs) > 1:
                    keep = [x for x in cs if not self.quick(x, 1000)]
                    if len(keep) < len(cs):
                        c2 = norm(And(*keep))
                        undecided.add(c2.get_id())
                        t = norm(z3.substitute(t, (c, c2)))
        self.pcache[key] = (t, src, list(self.hyps))
        return t

    def _simp_div(self, t):
        """dv(n*q + r, n) -> q and md(n*q + r, n) -> r when 0 <= r < n follows from the hypotheses."""
        for _ in range(8):
            hit = None
            for x in walk(t).values():
                if not (z3.is_app(x) and (x.decl().eq(dv_f) or x.decl().eq(md_f))):
                    continue
                a, n = x.children()
                p = poly(a)
                np_ = poly(n)
                if len(np_) != 1:
                    continue
                (nm, nc), = np_.items()
                q, r = {}, {}
                for m, c in p.items():
                    mm = m
                    ok = True
                    for f in nm:
                        if any(y.eq(f) for y in mm):
                            mm = _drop(mm, f)
                        else:
                            ok = False
                            break
                    if ok and (c / nc).denominator == 1:
                        q[mm] = c / nc
                    else:
                        r[m] = c
                if not q and not nm:
                    continue
                if not q and len(nm) == 1 and nc == 1:
                    for cand in self._quotients(a, nm[0]):
                        d = norm(a - cand * n)
                        if self.quick(z3.And(d >= 0, d < n), 1500):
                            hit = (x, cand if x.decl().eq(dv_f) else d)
                            break
                    if hit is not None:
                        break
                rt, qt = unpoly(r, I), unpoly(q, I)
                for sh in (0, -1, 1) if q else (0,):
                    r2, q2 = norm(rt - sh * n), norm(qt + sh)
                    if self.quick(z3.And(r2 >= 0, r2 < n), 1500):
                        hit = (x, q2 if x.decl().eq(dv_f) else r2)
                        break
                if hit is not None:
                    break
            if hit is None:
                return t
            t = norm(z3.substitute(t, hit))
        return t

    def _quotients(self, a, n):
        """q such that a hypothesis relates a and q*n"""
        out, seen = [], set()
        for h in self.hyps:
            if not contains(h, a) or not contains(h, n):
                continue
            for g in atoms(h):
                if not (z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == I):
                    continue
                p = poly(norm(g.arg(0) - g.arg(1)))
                if (a,) not in p and not any(len(m) == 1 and m[0].eq(a) for m in p):
                    continue
                for m in p:
                    if len(m) == 2 and any(y.eq(n) for y in m):
                        q = _drop(m, n)[0]
                        if q.get_id() not in seen and not contains(q, a):
                            seen.add(q.get_id())
                            out.append(q)
        return out[:4]

    def hkey(self):
        return tuple(h.get_id() for h in self.hyps)

    # ------------------------------------------------------------------- prover
    def quick(self, goal, timeout=None):
        """Prove without fold lemmas (used for side conditions)."""
        g = norm(goal)
        if z3.is_true(g):
            return True
        key = ("q", g.get_id(), self.hkey(), len(self.foralls))
        if key in self.pcache:
            return self.pcache[key][0]
        if self.late():
            return False
        r = self._check(g, timeout or min(self.timeout, 3000), folds=False)
        self.pcache[key] = (r, g, list(self.hyps))
        return r

    def feasible(self, *fs):
        """False only if hyps & fs is certainly contradictory."""
        with self.scope(*fs):
            return not self._check(z3.BoolVal(False), 2000, folds=False)

    stop = None         # time limit of the obligation under way

    def late(self):
        return self.stop is not None and time.time() > self.stop

    def prove(self, goal, timeout=None):
        goal = norm(goal)
        if self.late():
            return False
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(g, timeout) for g in conjuncts(goal))
        if self._check(goal, timeout or self.timeout, folds=False):
            return True
        if self._check(goal, timeout or self.timeout, folds=True):
            return True
        # case split on if-conditions (depth-limited): helps fold congruence
        if self.depth < 4:
            c = self._split_cond(goal)
            if c is not None:
                self.depth += 1
                try:
                    ok = True
                    for lit in (c, z3.Not(c)):
                        with self.scope(lit):
                            g2 = norm(self._assume_in(goal, c, z3.eq(lit, c)))
                            if not self.feasible():
                                continue
                            g2 = self.simp(g2)
                            if not self.prove(g2, timeout):
                                ok = False
                                break
                    if ok:
                        return True
                finally:
                    self.depth -= 1
        if self.depth < 3 and any(is_def(x) for x in walk(goal).values()):
            self.depth += 1
            try:
                return self.prove(self.simp(expand_defs(goal)), timeout)
            finally:
                self.depth -= 1
        return False

    def _split_cond(self, goal):
        """The if-condition atom to split on: equalities first, then the smallest."""
        best = None
        for x in walk(goal).values():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                for c in atoms(x.arg(0)):
                    k = (0 if z3.is_eq(c) else 1, len(walk(c)))
                    if best is None or k < best[0]:
                        best = (k, c)
        return None if best is None else best[1]

    def _assume_in(self, t, c, val):
        return z3.substitute(t, (c, z3.BoolVal(val)))

    def _check(self, goal, timeout, folds):
        key = None
        fs = [norm(h) for h in self.hyps]
        g = norm(goal)
        if z3.is_true(g):
            return True
        fs = relevant(fs, g) if len(fs) > 60 else fs
        base = eliminate([no_md(f) for f in fs + [norm(z3.Not(g))]])
        if base is None:
            return True
        extra = self._instances(base)
        if folds:
            base, changed = self._unfold(base)
            if changed:
                base = eliminate(base)
                if base is None:
                    return True
                extra = self._instances(base)
            lem = self._fold_lemmas(base + extra)
            extra = extra + lem
            extra += self._instances(lem) if lem else []
        if self._solve_smt(base + extra, timeout):
            return True
        if not self.keep_md and ("md" in names(g) or self.div_rules and any("md" in names(f) for f in fs)):
            self.keep_md = True
            try:
                base = eliminate([no_md(f, True) for f in fs + [norm(z3.Not(g))]])
                return base is None or self._solve_smt(base + self._instances(base), timeout)
            finally:
                self.keep_md = False
        return False

    keep_md = False
    div_rules = ()           # (n, m, size): size <= n*m, see np.split_index
    raw = 0

    def _instances(self, fs):
        self.raw += 1
        try:
            return self._instances0(fs)
        finally:
            self.raw -= 1

    def _instances0(self, fs):
        """Instances of facts about uninterpreted functions; saturates (bounded)."""
        out, seen_apps, todo = [], set(), list(fs)
        rounds = 0
        while todo and rounds < 6:
            rounds += 1
            new = []
            terms = {}
            for f in todo:
                walk(f, terms)
            byname = {}
            for i, x in terms.items():
                byname.setdefault(dname(x), []).append(x)
                if i in seen_apps:
                    continue
                seen_apps.add(i)
                new += self._facts(x)
            for (fid, n, fn, trig) in self.foralls:
                for t in trig:
                    for x in byname.get(t, ()):
                        for a in x.children():
                            if a.sort_kind() == z3.Z3_INT_SORT:
                                kk = (fid, a.get_id())
                                if kk not in seen_apps:
                                    seen_apps.add(kk)
                                    new += self._instance(fid, n, fn, a)
            out += new
            todo = new
        return out

    def _instance(self, fid, n, fn, a):
        key = ("inst", fid, a.get_id(), self.keep_md)
        h = self.icache.get(key)
        if h is None:
            f = no_md(norm(z3.Implies(z3.And(a >= 0, a < n), fn(a))), self.keep_md)
            h = self.icache[key] = ([] if z3.is_true(f) else [f], a, n, fn)
        return h[0]

    def _facts(self, x):
        """Facts about the value of one application, normalised; memoised."""
        nm = dname(x)
        if not nm or not (nm in _BUILTIN_FACTS or nm in FOLD_BY_DECL or nm in self.fn_facts):
            return []
        key = (x.get_id(), self.keep_md)
        h = self.icache.get(key)
        if h is not None:
            return h[0]
        new = []
        if nm == "dv" or nm == "md":
            a, n = x.children()
            q = n * dv_f(a, n)
            new.append(z3.Implies(n > 0, z3.And(a - q >= 0, a - q < n)))
            if self.keep_md and nm == "md":
                new.append(z3.Implies(n > 0, z3.And(x >= 0, x < n, x == a - q)))
        elif nm == "recip":
            new.append(z3.Implies(x.arg(0) > 0, x > 0))
            new.append(z3.Implies(x.arg(0) < 0, x < 0))
        elif nm == "sqrt":
            new.append(z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0))))
            new.append(z3.Implies(x.arg(0) > 0, x > 0))
        elif nm == "floor":
            new.append(z3.And(z3.ToReal(x) <= x.arg(0), x.arg(0) < z3.ToReal(x) + 1))
            p = poly(x.arg(0))
            if p and all(len(m) > 0 for m in p):
                for u in next(iter(p)):
                    if dname(u) == "recip" and all(any(a.eq(u) for a in m) for m in p):
                        top, n = unpoly({_drop(m, u): c for m, c in p.items()}, R), u.arg(0)   # x = floor(top / n)
                        new.append(z3.Implies(z3.And(n > 0, top >= 0, top < n), x == 0))
        elif nm in FOLD_BY_DECL:
            f, args, n = fold_of(x)
            if f.kind == "sum":
                new.append(z3.Implies(n <= 0, x == 0))
                if f.nonneg():
                    new.append(x >= 0)
            else:
                new += self._max_facts(f, args, n, x)
        if nm in self.fn_facts:
            new += self.fn_facts[nm](x.children(), x)
        new = [no_md(norm(f), self.keep_md) for f in new]
        new = [f for f in new if not z3.is_true(f)]
        self.icache[key] = (new, x)
        return new

    def _max_facts(self, f, args, n, x):
        w = z3.Function("wit_" + x.decl().name(), *[a.sort() for a in x.children()], I)(*x.children())
        init = args[-1]
        return [x >= init, z3.Or(x == init, z3.And(w >= 0, w < n, x == f.inst(args, w)))]

    def _unfold(self, fs):
        """Rewrite fold(n) to fold(n - 1) + body(n - 1) where n = m + c, c >= 1 and n >= 1 is known."""
        changed = False
        for _ in range(3):
            terms = {}
            for f in fs:
                walk(f, terms)
            subs = []
            for x in terms.values():
                if not is_fold(x):
                    continue
                f, args, n = fold_of(x)
                if is_num(n) or poly(n).get((), Fraction(0)) < 1:
                    continue
                m = norm(n - 1)
                if not self.quick(m >= 0, 1500):
                    continue
                y, b = f.fn(*args, m), f.inst(args, m)
                subs.append((x, y + b if f.kind == "sum" else z3.If(y < b, b, y)))
            if not subs:
                break
            changed = True
            fs = [norm(z3.substitute(f, *subs)) for f in fs]
        return fs, changed

    # fold lemmas ---------------------------------------------------------------
    def _fold_lemmas(self, fs):
        if self.depth > 5:
            return []
        terms = {}
        for f in fs:
            walk(f, terms)
        apps = [x for x in terms.values() if is_fold(x)]
        lem = []
        for x in list(apps):
            f, args, n = fold_of(x)
            c = poly(n).get((), Fraction(0))
            if c < 1 or is_num(n):
                continue
            m = norm(n - 1)
            y = f.fn(*args, m)
            if not any(y.eq(z) for z in apps):
                apps.append(y)
            b = f.inst(args, m)
            if f.kind == "sum":
                lem.append(z3.Implies(m >= 0, x == y + b))
            else:
                lem.append(z3.Implies(m >= 0, x == z3.If(y < b, b, y)))
        self.depth += 1
        try:
            done = set()
            for x, y in itertools.combinations(apps, 2):
                f, a1, n1 = fold_of(x)
                g, a2, n2 = fold_of(y)
                if f.kind != g.kind or f.sort != g.sort:
                    continue
                if self._fold_equal(x, y):
                    lem.append(x == y)
            defs = [x for x in terms.values() if is_def(x)]
            for x, y in itertools.combinations(defs[:12], 2):
                if x.sort() == y.sort() and not x.eq(y) and self._def_equal(x, y):
                    lem.append(x == y)
            for x in apps:
                f, a, n = fold_of(x)
                if f.kind == "sum" and not f.nonneg():
                    k = fresh("k")
                    with self.scope(k >= 0, k < n):
                        nn = self._nn(f.inst(a, k))
                    if nn:
                        lem.append(x >= 0)
        finally:
            self.depth -= 1
        return [no_md(norm(l)) for l in lem]

    def _nn(self, t, depth=0):
        """t >= 0, looking inside nested sums"""
        t = norm(t)
        if depth < 4:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                with self.scope(c):
                    if not self._nn(a, depth):
                        return False
                with self.scope(norm(z3.Not(c))):
                    return self._nn(b, depth)
            if is_fold(t) and fold_of(t)[0].kind == "sum":
                f, a, n = fold_of(t)
                if f.nonneg():
                    return True
                k = fresh("k")
                with self.scope(k >= 0, k < n):
                    return self._nn(f.inst(a, k), depth + 1)
        return self.quick(t >= 0, 1500)

    def _fold_equal(self, x, y):
        key = (x.get_id(), y.get_id(), len(self.hyps), self.hyps[-1].get_id() if self.hyps else 0)
        if key in self.pcache:
            return self.pcache[key][0]
        r = self._fold_equal0(x, y)
        self.pcache[key] = (r, x, y, list(self.hyps))
        return r

    def _def_equal(self, x, y):
        key = ("def", x.get_id(), y.get_id(), self.hkey())
        if key in self.pcache:
            return self.pcache[key][0]
        a, b = def_body(x), def_body(y)
        r = a.eq(b) or self.prove(a == b, 3000)
        self.pcache[key] = (r, x, y, list(self.hyps))
        return r

    def _fold_equal0(self, x, y):
        f, a1, n1 = fold_of(x)
        g, a2, n2 = fold_of(y)
        if self.quick(n1 == n2, 1500):
            k = fresh("k")
            with self.scope(k >= 0, k < n1):
                b1, b2 = norm(f.inst(a1, k)), norm(g.inst(a2, k))
                if b1.eq(b2) or self.prove(b1 == b2, 3000):
                    return True
                # interchange of two sums / nested one-point
                if f.kind == "sum" and self._interchange(x, y):
                    return True
        if f.kind == "sum":
            return (self._interchange(x, y) or self._flatten_eq(x, y) or self._flatten_eq(y, x)
                    or self._swap_eq(x, y) or self._swap_eq(y, x))
        return False

    def _inner(self, x):
        """x = sum_k c(k)*sum_m b(k, m) with the body exactly one inner sum -> pieces."""
        f, a, n = fold_of(x)
        k = fresh("k")
        b = norm(f.inst(a, k))
        if is_fold(b):
            h, ha, m = fold_of(b)
            return k, n, h, ha, m
        p = poly(b)
        if len(p) == 1:
            (mono, c), = p.items()
            inn = [t for t in mono if is_fold(t)]
            if len(inn) == 1:
                h, ha, m = fold_of(inn[0])
                rest = [t for t in mono if t is not inn[0]]
                co = unpoly({tuple(rest): c}, b.sort())
                return k, n, h, ha, m, co
        return None

    def _interchange(self, x, y):
        ix, iy = self._inner(x), self._inner(y)
        if not ix or not iy:
            return False
        k1, n1, h1, ha1, m1 = ix[:5]
        k2, n2, h2, ha2, m2 = iy[:5]
        co1 = ix[5] if len(ix) > 5 else None
        co2 = iy[5] if len(iy) > 5 else None
        if contains(m1, k1) or contains(m2, k2):
            return False
        if not (self.quick(n1 == m2, 1500) and self.quick(m1 == n2, 1500)):
            return False
        with self.scope(k1 >= 0, k1 < n1, k2 >= 0, k2 < n2):
            b1 = h1.inst(ha1, k2)
            b2 = h2.inst(ha2, k1)
            b1 = b1 if co1 is None else co1 * b1
            b2 = b2 if co2 is None else co2 * b2
            return self.prove(norm(b1) == norm(b2), 3000)

    def _swap_eq(self, x, y):
        """x = sum over (k1 < n1, k2 < m1), y over k2 < n2 = m1: exchange the order of summation in x
        and compare termwise."""
        ix = self._inner(x)
        if not ix:
            return False
        k1, n1, h1, ha1, m1 = ix[:5]
        co1 = ix[5] if len(ix) > 5 else None
        g, a2, n2 = fold_of(y)
        if contains(m1, k1) or not self.quick(n2 == m1, 1500):
            return False
        k2 = fresh("k")
        with self.scope(k2 >= 0, k2 < n2):
            b1 = h1.inst(ha1, k2)
            b1 = norm(b1 if co1 is None else co1 * b1)
            t = self.sum(n1, lambda k: norm(z3.substitute(b1, (k1, k))), sort=b1.sort())
            return self.prove(t == norm(g.inst(a2, k2)), 3000)

    def _flatten_eq(self, x, y):
        """x nested over (k1<n1, k2<m1), y flat over t<n2 with n2 == n1*m1."""
        ix = self._inner(x)
        if not ix:
            return False
        k1, n1, h1, ha1, m1 = ix[:5]
        co1 = ix[5] if len(ix) > 5 else None
        g, a2, n2 = fold_of(y)
        if contains(m1, k1) or not self.quick(n2 == n1 * m1, 1500) or not self.quick(z3.And(n1 >= 0, m1 >= 0), 1500):
            return False
        k2 = fresh("k")
        with self.scope(k1 >= 0, k1 < n1, k2 >= 0, k2 < m1):
            b1 = h1.inst(ha1, k2)
            b1 = b1 if co1 is None else co1 * b1
            return self.prove(norm(b1) == norm(g.inst(a2, k1 * m1 + k2)), 3000)

    # SMT --------------------------------------------------------------------------
    def _solve_smt(self, fs, timeout):
        key = frozenset(f.get_id() for f in fs)
        h = self.smt.get(key)
        if h is not None and (h[0] or h[1] >= timeout):
            STATS["smt_hits"] = STATS.get("smt_hits", 0) + 1
            return h[0]
        r = self._solve_smt0(fs, timeout)
        self.smt[key] = (r, timeout, fs)
        return r

    def _solve_smt0(self, fs, timeout):
        lin, facts = linearize(fs)
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout))
        put, ctx, seen = z3.z3core.Z3_solver_assert, s.ctx.ref(), set()
        for f in itertools.chain(lin, facts):
            i = f.get_id()
            if i not in seen:
                seen.add(i)
                put(ctx, s.solver, f.as_ast())
        STATS["solver_calls"] += 1
        r = s.check()
        if r == z3.unsat and os.environ.get("DV_CVC5") == "1":
            if cvc5_unsat(s):
                STATS["cvc5_unsat"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unsat:
            STATS["unsat"] += 1
            return True
        return False


def cvc5_unsat(solver):
    """Second back end: re-check the same query with cvc5."""
    import subprocess
    import tempfile
    txt = "(set-logic ALL)\n" + solver.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write(txt)
        f.flush()
        p = subprocess.run(["cvc5", "--tlimit=4000", f.name], capture_output=True, text=True)
    return p.stdout.strip() == "unsat"


def _nonneg(self):
    if self.kind != "sum":
        return False
    if not hasattr(self, "_nn"):
        self._nn = all(is_num(l) and numval(l) >= 0 or is_square(l) for c, l in split_ite(self.body))
    return self._nn


def is_square(t):
    """a non-negative multiple of a product of squares"""
    p = poly(t)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    n = {}
    for a in m:
        n[a.get_id()] = n.get(a.get_id(), 0) + 1
    return c >= 0 and all(v % 2 == 0 for v in n.values())


Fold.nonneg = _nonneg


def no_md(t, keep=False):
    """md(a, n) is by definition a - n*dv(a, n)."""
    if keep:
        return t
    for _ in range(4):
        if "md" not in names(t):
            break
        subs = [(x, x.arg(0) - x.arg(1) * dv_f(x.arg(0), x.arg(1))) for x in walk(t).values()
                if z3.is_app(x) and x.decl().eq(md_f)]
        if not subs:
            break
        t = norm(z3.substitute(t, *subs))
    return t


def atoms(t):
    if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IMPLIES):
        return [a for c in t.children() for a in atoms(c)]
    return [t]


def _elim_rank(a):
    nm = a.decl().name()
    return (0 if nm.startswith("J!") else 1 if nm.startswith("k!") else 2 if "!" in nm else 3, nm)


def eliminate(fs, rounds=6):
    """Gaussian elimination of equations over integer constants (the equations are kept)."""
    keep = []
    fs = [c for f in fs for c in conjuncts(f)]
    for _ in range(rounds):
        hit = None
        for f in fs:
            if not (z3.is_eq(f) and f.arg(0).sort() == I):
                continue
            p = dict(poly(f.arg(0)))
            _padd(p, poly(f.arg(1)), -1)
            cand = []
            for m, c in p.items():
                if len(m) == 1 and abs(c) == 1 and z3.is_const(m[0]) and m[0].decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    others = [a for m2 in p if m2 != m for a in m2]
                    if not any(contains(a, m[0]) for a in others):
                        cand.append((m[0], c))
            if cand:
                v, c = min(cand, key=lambda vc: _elim_rank(vc[0]))
                hit = (f, v, unpoly({m: -x / c for m, x in p.items() if not (len(m) == 1 and m[0].eq(v))}, I))
                break
        if hit is None:
            break
        f, v, e = hit
        keep.append(f)
        nf = []
        for g in fs:
            if g is f:
                continue
            g = norm(z3.substitute(g, (v, e)))
            if z3.is_true(g):
                continue
            if z3.is_false(g):
                return None
            nf += conjuncts(g)
        fs = nf
    return fs + keep


def relevant(fs, goal):
    """Keep hypotheses sharing symbols with the goal (transitively, 3 rounds)."""
    def syms(t):
        i = ("s", t.get_id())
        h = _DN.get(i)
        if h is None:
            h = _DN[i] = (t, frozenset(dname(x) for x in walk(t).values() if z3.is_app(x) and
                                       x.decl().kind() == z3.Z3_OP_UNINTERPRETED))
        return h[1]
    want = set(syms(goal))
    keep, rest = [], [(f, syms(f)) for f in fs]
    for _ in range(3):
        nxt = []
        add = set()
        for f, s in rest:
            if s & want:
                keep.append(f)
                add |= s
            else:
                nxt.append((f, s))
        rest = nxt
        want |= add
    return keep


_LIN = {}
_BUILTIN_FACTS = {"dv", "md", "recip", "sqrt", "floor"}


_ONE = {I: z3.IntVal(1), R: z3.RealVal(1)}
_ZERO = {I: z3.IntVal(0), R: z3.RealVal(0)}
_SINGLE, _PAIR = {}, {}


def _single_facts(m, x, mono_term):
    """facts on the product x of the factors m, seen as c * a for every choice of one factor c: [(a, a must be known, facts)]"""
    h = _SINGLE.get(x.get_id())
    if h is not None:
        return h[1]
    s = x.sort()
    zero, one = _ZERO[s], _ONE[s]
    out, seen = [], set()
    for idx, c in enumerate(m):
        if c.get_id() in seen:
            continue
        seen.add(c.get_id())
        rest = m[:idx] + m[idx + 1:]
        a = mono_term(rest)
        cp, cn, ap, an = c > zero, c < zero, a > zero, a < zero
        xp, xn = x > zero, x < zero
        facts = [z3.Implies(z3.Or(c == zero, a == zero), x == zero),
                 z3.Implies(z3.And(cp, ap), xp), z3.Implies(z3.And(cp, an), xn),
                 z3.Implies(z3.And(cn, ap), xn), z3.Implies(z3.And(cn, an), xp),
                 z3.Implies(a == one, x == c)]
        if s == I:
            facts.append(z3.Implies(z3.And(cp, ap), z3.And(x >= c, x >= a)))
            facts.append(z3.Implies(z3.And(cp, an), z3.And(x <= -c, x <= a)))
            facts.append(z3.Implies(z3.And(cn, ap), z3.And(x <= c, x <= -a)))
        if c.decl().eq(recip_f):
            inv = c.arg(0)
            for idx2, d in enumerate(m):
                if idx2 != idx and d.eq(inv) and len(m) == 2:
                    facts.append(z3.Implies(inv != zero, x == one))
        out.append((a, len(rest) >= 2, facts))
    ids = [c.get_id() for c in m]
    if all(ids.count(i) % 2 == 0 for i in ids):
        out.append((x, False, [x >= zero]))
    if len(_SINGLE) > 50000:
        _SINGLE.clear()
    _SINGLE[x.get_id()] = (x, out)
    return out


def _pair_facts(m1, x1, m2, x2, mono_term):
    """facts on two products with a common factor: [(ids that must be known for the last, fact, further facts)]"""
    h = _PAIR.get((x1.get_id(), x2.get_id()))
    if h is not None:
        return h[1]
    s = x1.sort()
    out, done = [], set()
    ids2 = {d.get_id() for d in m2}
    for c in m1:
        if c.get_id() in done or c.get_id() not in ids2:
            continue
        done.add(c.get_id())
        a, b = _drop(m1, c), _drop(m2, c)
        ta, tb = mono_term(a), mono_term(b)
        need = [t.get_id() for l, t in ((a, ta), (b, tb)) if len(l) >= 2]
        cp = c > _ZERO[s]
        if s == I:
            more = [z3.Implies(z3.And(cp, ta < tb), x1 + c <= x2),
                    z3.Implies(z3.And(cp, tb < ta), x2 + c <= x1),
                    z3.Implies(z3.And(cp, ta + 1 < tb), x1 + 2 * c <= x2),
                    z3.Implies(z3.And(cp, tb + 1 < ta), x2 + 2 * c <= x1),
                    z3.Implies(ta + 1 == tb, x1 + c == x2),
                    z3.Implies(tb + 1 == ta, x2 + c == x1)]
        else:
            more = [z3.Implies(z3.And(cp, ta < tb), x1 < x2), z3.Implies(z3.And(cp, tb < ta), x2 < x1)]
        out.append((need, z3.Implies(ta == tb, x1 == x2), more))
    if len(_PAIR) > 200000:
        _PAIR.clear()
    _PAIR[(x1.get_id(), x2.get_id())] = ((x1, x2), out)
    return out


def linearize(fs):
    """Abstract non-linear monomials by uninterpreted functions and add the
    instances of the monotonicity / sign / congruence lemmas of multiplication."""
    monos = {}

    def mulf(x, a):
        return (mulI_f if x.sort() == I else mulR_f)(x, a)

    def go(t):
        h = _LIN.get(t.get_id())
        if h is not None:
            return h[1], h[2]
        ms = {}
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() in _ARITH:
            p = poly(t)
            q = {}
            for m, c in p.items():
                l = []
                for a in m:
                    x, mm = go(a)
                    l.append(x)
                    ms.update(mm)
                m2 = tuple(_sorta(l))
                q[m2] = q.get(m2, 0) + c
                if len(m2) >= 2:
                    x = mono_term(m2)
                    ms[x.get_id()] = (m2, x)
            r = unpoly(q, t.sort(), mulf)
        else:
            ch = []
            for c in t.children():
                x, mm = go(c)
                ch.append(x)
                ms.update(mm)
            r = t.decl()(*ch)
        _LIN[t.get_id()] = (t, r, ms)
        return r, ms

    def mono_term(m):
        x = m[0]
        for a in m[1:]:
            x = mulf(x, a)
        return x

    if len(_LIN) > 200000:
        _LIN.clear()
    lin = []
    for f in fs:
        r, ms = go(f)
        lin.append(r)
        monos.update(ms)
    facts = []
    ms = list(monos.values())
    for m, x in ms:
        for a, needed, fs_ in _single_facts(m, x, mono_term):
            if not needed or a.get_id() in monos:
                facts += fs_
    if len(ms) <= 60:
        for (m1, x1), (m2, x2) in itertools.combinations(ms, 2):
            if x1.sort() != x2.sort():
                continue
            for need, f1, more in _pair_facts(m1, x1, m2, x2, mono_term):
                facts.append(f1)
                if all(n in monos for n in need):
                    facts += more
    return lin, facts


def _drop(m, c):
    l = list(m)
    for i, a in enumerate(l):
        if a.eq(c):
            del l[i]
            break
    return tuple(l)
