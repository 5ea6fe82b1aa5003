"""Contracts of numpy, scipy, the builtins and the compiled library, as used by the interpreter in pyfront.py.

Arrays are closures over index terms.  Basic indexing gives views (writes go through), everything else copies.
reshape() may alias in numpy: the model copies and refuses later writes to either side."""
import ast
import itertools
from fractions import Fraction

import z3

from term import (And, B, I, R, Unsupported, coerce, cos_f, contains, fresh, freshfn, is_num, ite, mk_div, mk_mod, norm, num, numval, poly, pi_c, sin_f, sqrt_f,
                  to_int, to_real, walk, _serial)

SORT = {"f": R, "i": I, "b": B, "c": R}
ZERO = {"f": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False), "c": z3.RealVal(0)}


class Buf:
    def __init__(self, shape, dtype, fn):
        self.shape, self.dtype, self.fn = list(shape), dtype, fn
        self.serial = next(_serial)
        self.frozen = False
        self.cache = {}


class NDArr:
    """dims[d] of the buffer: ("fix", term) or ("dim", view dimension, start, step)"""

    def __init__(self, buf, shape, dims, name=None):
        self.buf, self.shape, self.dims = buf, list(shape), dims
        self.dtype = buf.dtype
        self.name = name

    @property
    def ndim(self):
        return len(self.shape)

    def cell(self, ix):
        return [d[1] if d[0] == "fix" else norm(num(d[2]) + d[3] * num(ix[d[1]])) for d in self.dims]

    def get(self, *ix):
        return self.buf.fn(*self.cell([norm(num(i)) for i in ix]))

    def snap(self):
        """the current contents as a function of the index"""
        fn, cell = self.buf.fn, self.cell
        return lambda *ix: fn(*cell([norm(num(i)) for i in ix]))


def make(shape, dtype, fn):
    """a new array"""
    shape = [simp_dim(s) for s in shape]
    b = Buf(shape, dtype, fn)
    return NDArr(b, shape, [("dim", i, z3.IntVal(0), 1) for i in range(len(shape))])


def simp_dim(s):
    if isinstance(s, z3.ExprRef):
        s = norm(s)
        if is_num(s):
            return int(numval(s))
    return s


def symbolic(it, name, shape, dtype="f"):
    f = z3.Function(name, *[I] * len(shape), SORT[dtype])
    a = make(shape, dtype, lambda *ix: f(*ix))
    a.name, a.decl = name, f
    return a


def fresh_array(it, name, shape, dtype):
    f = it.symfn(name, *[I] * len(shape), SORT[dtype])
    return make(shape, dtype, lambda *ix: f(*ix))


def as_sort(v, dtype):
    """element converted to the element type (no truncation)"""
    v = num(lit(v))
    if dtype in ("f", "c"):
        return to_real(v)
    if dtype == "i":
        return to_int(v)
    return v


def lit(x):
    return Fraction(repr(x)) if isinstance(x, float) else x


def dtype_of(v):
    if isinstance(v, NDArr):
        return v.dtype
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, (float, Fraction)):
        return "f"
    if isinstance(v, z3.ExprRef):
        return {"Int": "i", "Real": "f", "Bool": "b"}[v.sort().name()]
    raise Unsupported(f"array element {type(v).__name__}")


def join(*ds):
    for d in ("c", "f", "i", "b"):
        if d in ds:
            return d
    return "f"


def size_term(shape):
    r = num(1)
    for s in shape:
        r = r * num(s)
    return norm(r)


def dim_eq(it, a, b):
    if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
        return a == b
    return it.decide(num(a) == num(b))


def bshape(it, s1, s2):
    """broadcast shape"""
    n = max(len(s1), len(s2))
    a = [1] * (n - len(s1)) + list(s1)
    b = [1] * (n - len(s2)) + list(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif dim_eq(it, x, y):
            out.append(x)
        elif dim_eq(it, x, 1):
            out.append(y)
        elif dim_eq(it, y, 1):
            out.append(x)
        else:
            from pyfront import PyRaise
            raise PyRaise(ValueError("operands could not be broadcast together"))
    return out


def bget(a, shape):
    """element function of a at an index of the broadcast shape"""
    if not isinstance(a, NDArr):
        v = a
        return lambda *ix: v
    s = a.snap()
    off = len(shape) - a.ndim
    one = [isinstance(x, int) and x == 1 and not (isinstance(y, int) and y == 1) for x, y in zip(a.shape, shape[off:])]
    return lambda *ix: s(*[z3.IntVal(0) if o else i for o, i in zip(one, ix[off:])])


def opaque_complex(v):
    return isinstance(v, Cplx)


class Cplx:
    """complex number with a known real part"""

    def __init__(self, re, real_valued=True):
        self.re, self.real_valued = re, real_valued


def broadcast(it, f, a, b, op=None, dtype=None):
    if isinstance(a, (list, tuple)):
        a = asarray(it, a)
    if isinstance(b, (list, tuple)):
        b = asarray(it, b)
    for v in (a, b):
        if not isinstance(v, NDArr) and not isinstance(v, (int, float, Fraction, z3.ExprRef)):
            if v is None:
                from pyfront import PyRaise
                raise PyRaise(TypeError("unsupported operand"))
            raise Unsupported(f"array operation with {type(v).__name__}")
    shape = bshape(it, a.shape if isinstance(a, NDArr) else [], b.shape if isinstance(b, NDArr) else [])
    ga, gb = bget(a, shape), bget(b, shape)
    if dtype is None:
        da, db = dtype_of(a), dtype_of(b)
        dtype = "f" if op is ast.Div else join(da, db)
        if dtype == "b" and op in (ast.Add, ast.Sub):
            dtype = "i"
        if op is ast.Pow and not isinstance(b, NDArr) and not isinstance(b, z3.ExprRef) and b < 0:
            dtype = "f"
    return make(shape, dtype, lambda *ix: as_sort(f(ga(*ix), gb(*ix)), dtype))


def map1(it, f, a, dtype=None):
    s = a.snap()
    dt = dtype or a.dtype
    return make(a.shape, dt, lambda *ix: as_sort(f(s(*ix)), dt))


def scalar_of(it, a, truth=False):
    n = size_term(a.shape)
    if not it.decide(n == 1):
        from pyfront import PyRaise
        raise PyRaise(ValueError("The truth value of an array with more than one element is ambiguous"))
    v = a.get(*[z3.IntVal(0)] * a.ndim)
    if truth:
        return v if v.sort() == B else v != 0
    return v


# ---------------------------------------------------------------------------------------------- indexing
def norm_index(it, i, n):
    from pyfront import PyRaise
    i = lit(i)
    if isinstance(i, Fraction):
        raise PyRaise(IndexError("only integers are valid indices"))
    i, n = norm(num(i)), norm(num(n))
    if i.sort() == R:
        raise PyRaise(IndexError("only integers are valid indices"))
    if it.decide(And(i >= 0, i < n)):
        return i
    if it.decide(And(i < 0, i >= -n)):
        return norm(i + n)
    raise PyRaise(IndexError("index out of bounds"))


def clamp(it, v, n, default):
    """start or stop of a slice"""
    if v is None:
        return default
    v = norm(num(lit(v)))
    if v.sort() != I:
        from pyfront import PyRaise
        raise PyRaise(TypeError("slice indices must be integers"))
    n = num(n)
    if it.decide(v < 0):
        if it.decide(v + n < 0):
            return z3.IntVal(0)
        return norm(v + n)
    if it.decide(v > n):
        return n
    return v


def expand_key(a, key):
    key = list(key) if isinstance(key, tuple) else [key]
    used = sum(1 for k in key if k is not None and k is not Ellipsis)
    e = [i for i, k in enumerate(key) if k is Ellipsis]
    fill = [slice(None)] * (a.ndim - used)
    if a.ndim < used:
        from pyfront import PyRaise
        raise PyRaise(IndexError("too many indices for array"))
    if e:
        key[e[0]:e[0] + 1] = fill
    else:
        key += fill
    return key


def basic(it, a, key):
    """view of a, or None if the key is not basic"""
    dims = list(a.dims)
    newdims = {}        # old view dim -> ("fix", term) | (new view dim, start, step)
    shape, d = [], 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[d]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                newdims[d] = (len(shape), z3.IntVal(0), 1)
                shape.append(n)
            elif k.step is None or k.step == 1:
                lo = clamp(it, k.start, n, z3.IntVal(0))
                hi = clamp(it, k.stop, n, num(n))
                ln = norm(hi - lo)
                if not it.decide(ln >= 0):
                    ln = z3.IntVal(0)
                newdims[d] = (len(shape), lo, 1)
                shape.append(simp_dim(ln))
            elif k.step == -1 and k.start is None and k.stop is None:
                newdims[d] = (len(shape), norm(num(n) - 1), -1)
                shape.append(n)
            else:
                raise Unsupported("slice with a step")
        else:
            i = norm_index(it, k, n)
            newdims[d] = ("fix", i)
        d += 1
    out = []
    for x in dims:
        if x[0] == "fix":
            out.append(x)
            continue
        _, vd, st, sp = x
        nd = newdims[vd]
        if nd[0] == "fix":
            out.append(("fix", norm(num(st) + sp * nd[1])))
        else:
            out.append(("dim", nd[0], norm(num(st) + sp * nd[1]), sp * nd[2]))
    v = NDArr(a.buf, shape, out)
    return v


def is_adv(k):
    return isinstance(k, (NDArr, list)) or isinstance(k, tuple)


def getitem(it, a, key):
    if isinstance(key, NDArr) and key.dtype == "b" and key.ndim > 1:
        return mask_nd(it, a, key)
    key = expand_key(a, key)
    adv = [i for i, k in enumerate(key) if is_adv(k)]
    if not adv:
        v = basic(it, a, key)
        if v.ndim == 0:
            return v.get()
        return v
    if len(adv) > 1:
        return fancy_pair(it, a, key, adv)
    p = adv[0]
    k = key[p]
    if not isinstance(k, NDArr):
        k = asarray(it, list(k))
    if None in key:
        raise Unsupported("newaxis with an index array")
    # the other indices first
    rest = list(key)
    rest[p] = slice(None)
    v = basic(it, a, rest)
    q = sum(1 for x in key[:p] if isinstance(x, slice))      # dimension of v that k selects from
    n = v.shape[q]
    s = v.snap()
    if k.dtype == "b":
        if not dim_eq(it, k.shape[0], n):
            from pyfront import PyRaise
            raise PyRaise(IndexError("boolean index did not match"))
        c, sel, _ = selection(it, k)
        shape = v.shape[:q] + [c] + v.shape[q + 1:]
        return make(shape, v.dtype, lambda *ix: s(*ix[:q], sel(num(ix[q])), *ix[q + 1:]))
    if k.dtype != "i":
        from pyfront import PyRaise
        raise PyRaise(IndexError("arrays used as indices must be of integer (or boolean) type"))
    ks = k.snap()
    ix = [fresh("x") for _ in k.shape]
    rng = And(*[And(x >= 0, x < num(m)) for x, m in zip(ix, k.shape)])
    with it.ctx.scope(rng):
        e = ks(*ix)
        inb, neg = it.ctx.quick(And(e >= 0, e < num(n))), it.ctx.quick(And(e < 0, e >= -num(n)))
    if not inb and not neg:
        q_ = Quantified("all", list(k.shape), lambda *jx: And(ks(*jx) >= -num(n), ks(*jx) < num(n)))
        if not q_.decide(it):
            from pyfront import PyRaise
            raise PyRaise(IndexError("index out of bounds"))
    wrap = (lambda e: e) if inb else (lambda e: norm(e + num(n))) if neg else (lambda e: ite(norm(e >= 0), e, norm(e + num(n))))
    kd = k.ndim
    shape = v.shape[:q] + list(k.shape) + v.shape[q + 1:]
    return make(shape, v.dtype, lambda *ix: s(*ix[:q], wrap(ks(*ix[q:q + kd])), *ix[q + kd:]))


def fancy_pair(it, a, key, adv):
    """integer arrays / integers in all of the positions"""
    if any(isinstance(k, slice) or k is None for k in key):
        raise Unsupported("several index arrays with slices")
    ks = [asarray(it, list(k)) if isinstance(k, (list, tuple)) else k for k in key]
    shape = []
    for k in ks:
        if isinstance(k, NDArr):
            if k.dtype != "i":
                raise Unsupported("mask among several indices")
            shape = bshape(it, shape, k.shape)
    gs = [bget(k, shape) for k in ks]
    for g, n in zip(gs, a.shape):
        q_ = Quantified("all", list(shape), lambda *jx, g=g, n=n: And(num(g(*jx)) >= 0, num(g(*jx)) < num(n)))
        if not q_.decide(it):
            raise Unsupported("index array with negative entries")
    s = a.snap()
    return make(shape, a.dtype, lambda *ix: s(*[num(g(*ix)) for g in gs]))


def mask_nd(it, a, mask):
    raise Unsupported("selection with a mask of several dimensions")


def selection(it, mask):
    """(count, position of the k-th selected element, rank of a selected element) of a 1-d mask"""
    n = norm(num(mask.shape[0]))
    s = mask.snap()
    K = z3.Const("K$sel", I)
    with it.ctx.scope(K >= 0, K < n):
        body = it.ctx.simp(s(K))
    key = ("sel", body.sexpr(), n.sexpr(), tuple(c.get_id() for c in it.counters))
    if key in it.memo_fn:
        it.selections.append((mask,) + it.memo_fn[key])
        return it.memo_fn[key]
    at = lambda i: norm(z3.substitute(body, (K, num(i))))
    c = it.ctx.sum(n, lambda k: ite(at(k), z3.IntVal(1), z3.IntVal(0)), sort=I)
    if not is_num(norm(c)):
        cc = it.sym("cnt", I)
        it.assume(cc == c)
        c = cc
        it.assume(n - c == it.ctx.sum(n, lambda k: ite(norm(z3.Not(at(k))), z3.IntVal(1), z3.IntVal(0)), sort=I))
    sel, rank = it.symfn("sel", I, I), it.symfn("rank", I, I)
    it.assume(c >= 0, c <= n)
    it.forall([c], lambda k: And(sel(k) >= 0, sel(k) < n, at(sel(k)), rank(sel(k)) == k, sel(k) >= k))
    it.forall([n], lambda i: z3.Implies(at(i), And(rank(i) >= 0, rank(i) < c, sel(rank(i)) == i)))
    it.forall([c, c], lambda j, k: z3.Implies(j < k, sel(j) < sel(k)))
    rank.selects = at
    it.memo_fn[key] = (c, sel, rank)
    it.selections.append((mask, c, sel, rank))
    it.log(lambda: it.memo_fn.pop(key, None))
    return c, sel, rank


def write(it, v, value, mask=None):
    """writes value (element function on the view's index) through the view v, where mask holds"""
    b = v.buf
    if b.frozen:
        raise Unsupported("write to an array that may be aliased by reshape()")
    keys = [d[1] if d[0] == "fix" else None for d in v.dims]
    old = b.fn
    dt = b.dtype

    def new(*cell):
        cell = [norm(num(c)) for c in cell]
        cs, ix = [], [z3.IntVal(0)] * v.ndim
        for d, c in zip(v.dims, cell):
            if d[0] == "fix":
                cs.append(c == d[1])
            else:
                _, vd, st, sp = d
                i = norm(c - st) if sp == 1 else norm(num(st) - c)
                n = num(v.shape[vd])
                cs += [i >= 0, i < n]
                ix[vd] = i
        cond = norm(And(*cs))
        if z3.is_false(cond):
            return old(*cell)
        if mask is not None:
            cond = norm(And(cond, mask(*ix)))
        if z3.is_true(cond):
            return norm(as_sort(value(*ix), dt))
        # inside of the array the bounds of whole dimensions hold
        if it.ctx.quick(cond, 600):
            return norm(as_sort(value(*ix), dt))
        return ite(cond, norm(as_sort(value(*ix), dt)), old(*cell))
    it.log(lambda: setattr(b, "fn", old))
    for r in it.loops:
        r.written(b, keys, old)
    b.fn = new
    if it.loops:
        it.loops[-1].stored(it, b, keys)


def assign(it, a, key, v):
    if len(key) == 1 and isinstance(key[0], NDArr) and key[0].dtype == "b":
        m = key[0]
        if m.ndim != a.ndim:
            if m.ndim == 1:
                if not dim_eq(it, m.shape[0], a.shape[0]):
                    from pyfront import PyRaise
                    raise PyRaise(IndexError("boolean index did not match"))
                ms = m.snap()
                if isinstance(v, NDArr):
                    raise Unsupported("masked assignment of an array")
                return write(it, a, lambda *ix: v, mask=lambda *ix: ms(ix[0]))
            raise Unsupported("masked assignment")
        for x, y in zip(m.shape, a.shape):
            if not dim_eq(it, x, y):
                from pyfront import PyRaise
                raise PyRaise(IndexError("boolean index did not match"))
        ms = m.snap()
        if isinstance(v, NDArr):
            raise Unsupported("masked assignment of an array")
        v = conv(it, v, a.dtype)
        return write(it, a, lambda *ix: v, mask=lambda *ix: ms(*ix))
    key = expand_key(a, tuple(key))
    if any(is_adv(k) for k in key):
        raise Unsupported("assignment through index arrays")
    w = basic(it, a, key)
    if isinstance(v, (list, tuple)):
        v = asarray(it, v)
    if isinstance(v, NDArr):
        sh = bshape(it, w.shape, v.shape)
        if len(sh) != len(w.shape) or not all(dim_eq(it, x, y) for x, y in zip(sh, w.shape)):
            from pyfront import PyRaise
            raise PyRaise(ValueError("could not broadcast input array"))
        g = bget(v, w.shape)
        if v.dtype == "f" and a.dtype == "i":
            g0 = g
            g = lambda *ix: it.trunc(g0(*ix))
        return write(it, w, g)
    v = conv(it, v, a.dtype)
    write(it, w, lambda *ix: v)


def conv(it, v, dtype):
    from pyfront import PyRaise
    if v is None:
        raise PyRaise(TypeError("cannot convert None"))
    if isinstance(v, Cplx):
        raise Unsupported("complex element")
    if not isinstance(v, (int, float, Fraction, z3.ExprRef)):
        raise Unsupported(f"array element {type(v).__name__}")
    v = num(lit(v))
    if dtype == "i" and v.sort() == R:
        return it.trunc(v)
    return as_sort(v, dtype)


# ------------------------------------------------------------------------------------------- quantified
class Quantified:
    """truth of all/any over an array"""

    def __init__(self, kind, dims, fn, neg=False):
        self.kind, self.dims, self.fn, self.neg = kind, dims, fn, neg

    def negate(self):
        return Quantified("any" if self.kind == "all" else "all", self.dims, lambda *ix: norm(z3.Not(self.fn(*ix))))

    def decide(self, it):
        """option 0: holds"""
        gen = [fresh("w") for _ in self.dims]
        rng = And(*[And(w >= 0, w < num(n)) for w, n in zip(gen, self.dims)])
        univ = self.kind == "all"

        def feas(i):
            # the existential option is impossible if its negation holds for a generic index
            if (i == 0) == univ:
                return True
            with it.ctx.scope(rng):
                f = self.fn(*gen)
                return not it.ctx.quick(f if univ else norm(z3.Not(f)), 3000)
        if len(it.trace) >= len(it.prefix) and not feas(1 if univ else 0):
            it.trace.append(0 if univ else 1)
            c = 0 if univ else 1
        else:
            c = it.choose(2)
        holds = c == 0
        if holds == univ:
            it.forall(self.dims, (lambda *ix: self.fn(*ix)) if univ else (lambda *ix: norm(z3.Not(self.fn(*ix)))))
        else:
            ws = [it.sym("wit", I) for _ in self.dims]
            f = self.fn(*ws)
            it.assume(*[And(w >= 0, w < num(n)) for w, n in zip(ws, self.dims)])
            it.assume(norm(z3.Not(f)) if univ else f)
            if it.ctx.quick(z3.BoolVal(False), 2000):
                from pyfront import Infeasible
                raise Infeasible()
        return holds


def b_of(v):
    v = num(v)
    return v if v.sort() == B else v != 0


def all_(it, a, axis=None, **k):
    if isinstance(a, Quantified):
        return a
    if not isinstance(a, NDArr):
        return reduce_seq(it, a, True)
    if axis is not None:
        return red_axis(it, a, axis, "all")
    s = a.snap()
    return Quantified("all", list(a.shape), lambda *ix: norm(b_of(s(*ix))))


def any_(it, a, axis=None, **k):
    if isinstance(a, Quantified):
        return a
    if not isinstance(a, NDArr):
        return reduce_seq(it, a, False)
    if axis is not None:
        return red_axis(it, a, axis, "any")
    s = a.snap()
    return Quantified("any", list(a.shape), lambda *ix: norm(b_of(s(*ix))))


def reduce_seq(it, a, conj):
    if isinstance(a, (bool, z3.ExprRef)):
        return a
    for x in it.sequence(a) if not hasattr(a, "get") else it.items(a):
        if it.truth(x) != conj:
            return not conj
    return conj


def red_axis(it, a, axis, kind):
    """all/any along an axis: a predicate with a witness"""
    axis = axis % a.ndim
    s = a.snap()
    n = num(a.shape[axis])
    rest = a.shape[:axis] + a.shape[axis + 1:]
    P = it.symfn(kind, *[I] * len(rest), B)
    W = it.symfn("wit", *[I] * len(rest), I)
    el = lambda ix, k: norm(b_of(s(*ix[:axis], k, *ix[axis:])))
    if kind == "all":
        it.forall(rest + [a.shape[axis]], lambda *x: z3.Implies(P(*x[:-1]), el(x[:-1], x[-1])))
        it.forall(rest, lambda *x: z3.Or(P(*x), And(W(*x) >= 0, W(*x) < n, z3.Not(el(x, W(*x))))))
    else:
        it.forall(rest + [a.shape[axis]], lambda *x: z3.Implies(el(x[:-1], x[-1]), P(*x[:-1])))
        it.forall(rest, lambda *x: z3.Or(z3.Not(P(*x)), And(W(*x) >= 0, W(*x) < n, el(x, W(*x)))))
    return make(rest, "b", lambda *ix: P(*ix))


# ------------------------------------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, code=None):
        self.name, self.code = name, code

    def __repr__(self):
        return f"<type {self.name}>"


T = {n: DType(n, c) for n, c in dict(float="f", float64="f", float32="f", int="i", int32="i", int64="i", bool="b", complex="c", ndarray=None, number=None,
                                     sequence=None, str=None, list=None, tuple=None, dict=None, object=None, int16="i", uint32="i", floating="f").items()}


def code(d):
    if isinstance(d, DType):
        if d.code is None:
            raise Unsupported(f"dtype {d.name}")
        return d.code
    if d in ("float", "float64", "f8", "double", "d"):
        return "f"
    if d in ("int", "int32", "int64"):
        return "i"
    if d in ("f", "i", "b"):
        return d
    raise Unsupported(f"dtype {d!r}")


class SymStr:
    """text with unknown contents"""

    def __init__(self, name, it=None):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.name == self.name


def str_eq(it, a, b):
    if isinstance(b, SymStr):
        a, b = b, a
    if isinstance(b, SymStr):
        return z3.BoolVal(True) if a.name == b.name else z3.Bool(f"{a.name}=={b.name}")
    return z3.Bool(f"{a.name}=={b!r}")


def cast_scalar(it, t, v=0, *rest):
    from pyfront import PyRaise, SymIter, Text, Rng
    if t.name == "str":
        return v if isinstance(v, (str, SymStr)) else Text("text")
    if t.name == "list":
        if v == 0 and not isinstance(v, NDArr):
            r = []
        elif isinstance(v, SymIter):
            return v
        else:
            v2 = it.sequence(v)
            if isinstance(v2, SymIter):
                return v2
            r = list(v2)
        it.born(r)
        return r
    if t.name == "tuple":
        return () if isinstance(v, int) and v == 0 else tuple(it.items(v))
    if t.name == "dict":
        return dict(v) if isinstance(v, dict) else {}
    if isinstance(v, SymStr):
        if t.code == "i":
            return z3.Const(f"int({v.name})", I)
        if t.code == "f":
            return z3.Const(f"float({v.name})", R)
        raise Unsupported("conversion of a text")
    if isinstance(v, Quantified):
        if t.code == "b":
            return v
        return int(v.decide(it))
    if isinstance(v, NDArr):
        if t.name in ("float64", "float32", "int32", "int64"):
            return astype(it, v, t.code)
        v = scalar_of(it, v)
    if isinstance(v, str):
        try:
            return {"i": int, "f": lambda s: Fraction(repr(float(s))), "b": bool}[t.code](v)
        except ValueError as x:
            raise PyRaise(x)
    if v is None:
        if t.code == "b":
            return False
        raise PyRaise(TypeError("argument must be a number"))
    if t.code == "b":
        if isinstance(v, z3.ExprRef):
            return norm(v if v.sort() == B else v != 0)
        return it.truth(v)
    if not isinstance(v, (int, float, Fraction, z3.ExprRef)):
        if isinstance(v, (list, tuple, dict)):
            raise PyRaise(TypeError("argument must be a number"))
        raise Unsupported(f"conversion of {type(v).__name__}")
    v = lit(v)
    if t.code == "i":
        if isinstance(v, z3.ExprRef):
            return it.trunc(v)
        return int(v)
    if t.code == "f":
        if isinstance(v, z3.ExprRef):
            return norm(to_real(v))
        return Fraction(v)
    if t.code == "c":
        return Cplx(norm(to_real(num(v))))
    raise Unsupported(f"conversion to {t.name}")


def astype(it, a, dt):
    if isinstance(dt, (DType, str)):
        dt = code(dt)
    s = a.snap()
    if dt == a.dtype:
        return make(a.shape, dt, s)
    if dt == "i" and a.dtype == "f":
        return make(a.shape, "i", lambda *ix: it.trunc(s(*ix)))
    if dt == "b":
        return make(a.shape, "b", lambda *ix: norm(b_of(s(*ix))))
    if a.dtype == "c":
        raise Unsupported("complex array")
    return make(a.shape, dt, lambda *ix: as_sort(s(*ix), dt))


# ------------------------------------------------------------------------------------------- array makers
def asarray(it, v, dtype=None):
    from pyfront import PyRaise, SymIter, Opaque
    if isinstance(v, NDArr):
        return astype(it, v, dtype) if dtype is not None and code(dtype) != v.dtype else v
    if isinstance(v, (int, float, Fraction, z3.ExprRef)):
        x = num(lit(v))
        d = dtype_of(v)
        return astype(it, make([], d, lambda: x), dtype) if dtype is not None else make([], d, lambda: x)
    if isinstance(v, SymIter):
        e = v.get(fresh("probe"))
        if isinstance(e, (NDArr, list, tuple)):
            raise Unsupported("array of a symbolic number of arrays")
        d = dtype_of(e)
        a = make([v.n], d, lambda i: as_sort(v.get(i), d))
        return astype(it, a, dtype) if dtype is not None else a
    if isinstance(v, (list, tuple, range)):
        xs = list(v)
        if not xs:
            return make([0], code(dtype) if dtype is not None else "f", lambda i: z3.RealVal(0))
        if any(isinstance(x, (NDArr, list, tuple)) for x in xs):
            xs = [asarray(it, x) for x in xs]
            sh = xs[0].shape
            for x in xs[1:]:
                if len(x.shape) != len(sh) or not all(dim_eq(it, p, q) for p, q in zip(x.shape, sh)):
                    raise PyRaise(ValueError("inhomogeneous shape"))
            d = join(*[x.dtype for x in xs])
            ss = [x.snap() for x in xs]

            def el(i, *ix):
                r = as_sort(ss[-1](*ix), d)
                for k in range(len(ss) - 2, -1, -1):
                    r = ite(norm(num(i) == k), as_sort(ss[k](*ix), d), r)
                return r
            a = make([len(xs)] + list(sh), d, el)
            return astype(it, a, dtype) if dtype is not None else a
        if any(isinstance(x, (SymStr, str)) for x in xs):
            raise Unsupported("array of texts")
        if any(x is None for x in xs):
            raise Unsupported("array of objects")
        d = join(*[dtype_of(x) for x in xs])
        ts = [as_sort(x, d) for x in xs]

        def el1(i):
            r = ts[-1]
            for k in range(len(ts) - 2, -1, -1):
                r = ite(norm(num(i) == k), ts[k], r)
            return r
        a = make([len(xs)], d, el1)
        return astype(it, a, dtype) if dtype is not None else a
    if isinstance(v, Cplx):
        raise Unsupported("complex array")
    if v is None:
        raise Unsupported("array of None")
    raise Unsupported(f"array of {type(v).__name__}")


def array(it, v, dtype=None, copy=True, **k):
    a = asarray(it, v)
    if dtype is not None and code(dtype) == "c":
        return make(a.shape, "c", lambda *ix, s=a.snap(): to_real(s(*ix)))
    return astype(it, a, a.dtype if dtype is None else code(dtype))


def shape_of(it, s):
    if isinstance(s, NDArr):
        return [simp_dim(it.getitem(s, i)) for i in range(s.shape[0])]
    if isinstance(s, (list, tuple)):
        return [simp_dim(x) for x in s]
    return [simp_dim(s)]


def check_dims(it, sh):
    from pyfront import PyRaise
    for s in sh:
        if isinstance(s, Fraction) or isinstance(s, z3.ExprRef) and s.sort() == R:
            raise PyRaise(TypeError("shape must be integers"))
        if not it.decide(num(s) >= 0):
            raise PyRaise(ValueError("negative dimensions are not allowed"))


def zeros(it, shape, dtype=None, **k):
    sh = shape_of(it, shape)
    check_dims(it, sh)
    d = "f" if dtype is None else code(dtype)
    return make(sh, d, lambda *ix: ZERO[d])


def full(it, shape, v, dtype=None):
    sh = shape_of(it, shape)
    check_dims(it, sh)
    d = dtype_of(v) if dtype is None else code(dtype)
    x = as_sort(v, d)
    return make(sh, d, lambda *ix: x)


def like(it, a, v, dtype=None):
    a = asarray(it, a)
    d = a.dtype if dtype is None else code(dtype)
    x = as_sort(v, d)
    return make(a.shape, d, lambda *ix: x)


def arange(it, *a, dtype=None, **k):
    from pyfront import PyRaise
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if st != 1:
        raise Unsupported("arange with a step")
    lo, hi = norm(num(lit(lo))), norm(num(lit(hi)))
    if lo.sort() == R or hi.sort() == R:
        d = norm(to_real(hi) - to_real(lo))
        n = norm(-it.floor(norm(-d)))
        dd = "f"
    else:
        n, dd = norm(hi - lo), "i"
    if not it.decide(n >= 0):
        n = z3.IntVal(0)
    if dtype is not None:
        dd = code(dtype)
    return make([n], dd, lambda i: as_sort(norm(lo + (to_real(num(i)) if lo.sort() == R else num(i))), dd))


def sum_(it, a, axis=None, dtype=None, keepdims=False, **k):
    if not isinstance(a, NDArr):
        a = asarray(it, a)
    s = a.snap()
    d = "f" if a.dtype == "f" else "i"
    el = lambda *ix: as_sort(s(*ix), d)
    srt = SORT[d]
    if axis is None or a.ndim == 1:
        def go(ix, dims):
            if not dims:
                return el(*ix)
            return it.ctx.sum(dims[0], lambda k: go(ix + [k], dims[1:]), sort=srt)
        r = go([], a.shape)
        gs = [fresh("k") for _ in a.shape]
        with it.ctx.scope(*[And(g >= 0, g < num(n)) for g, n in zip(gs, a.shape)]):
            nonneg = not is_num(norm(r)) and it.ctx.quick(norm(el(*gs)) >= 0, 1500)
        if nonneg:
            # a sum of numbers that are not negative bounds each of them
            it.assume(r >= 0)
            it.forall(a.shape, lambda *ix: el(*ix) <= r)
        if keepdims:
            return make([1] * a.ndim, d, lambda *ix: r)
        return r
    axis = axis % a.ndim
    n = a.shape[axis]
    if keepdims:
        sh = a.shape[:axis] + [1] + a.shape[axis + 1:]
        return make(sh, d, lambda *ix: it.ctx.sum(n, lambda k: el(*ix[:axis], k, *ix[axis + 1:]), sort=srt))
    sh = a.shape[:axis] + a.shape[axis + 1:]
    return make(sh, d, memo(it, lambda *ix: it.ctx.sum(n, lambda k: el(*ix[:axis], k, *ix[axis:]), sort=srt)))


def memo(it, fn):
    cache = {}

    def f(*ix):
        key = (tuple(i.get_id() for i in ix), it.ctx.hkey())
        if key not in cache:
            cache[key] = (fn(*ix), ix, list(it.ctx.hyps))
        return cache[key][0]
    return f


def extremum(it, a, big, axis=None):
    """largest or smallest element"""
    from pyfront import PyRaise
    if not isinstance(a, NDArr):
        a = asarray(it, a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("extremum along an axis")
    if not it.decide(size_term(a.shape) > 0):
        raise PyRaise(ValueError("zero-size array"))
    it.assume(*[num(x) > 0 for x in a.shape])
    s = a.snap()
    gs = [z3.Const(f"K${i}", I) for i in range(a.ndim)]
    with it.ctx.scope(*[And(g >= 0, g < num(n)) for g, n in zip(gs, a.shape)]):
        el = it.ctx.simp(num(s(*gs)))
    s0 = s
    s = lambda *ix: norm(z3.substitute(el, *zip(gs, [num(i) for i in ix])))
    key = ("ext", big, el.sexpr(), tuple(str(x) for x in a.shape), tuple(c.get_id() for c in it.counters))
    if key in it.memo_fn:
        return it.memo_fn[key]
    m = it.sym("max" if big else "min", SORT[a.dtype])
    ws = [it.sym("wit", I) for _ in a.shape]
    it.forall(a.shape, lambda *ix: (s(*ix) <= m) if big else (s(*ix) >= m))
    it.assume(*[And(w >= 0, w < num(n)) for w, n in zip(ws, a.shape)], norm(s(*ws)) == m)
    it.memo_fn[key] = m
    it.log(lambda: it.memo_fn.pop(key, None))
    return m


def argext(it, a, big):
    from pyfront import PyRaise
    if not isinstance(a, NDArr):
        a = asarray(it, a)
    if a.ndim != 1:
        raise Unsupported("argmax of several dimensions")
    n = num(a.shape[0])
    if not it.decide(n > 0):
        raise PyRaise(ValueError("attempt to get argmax of an empty sequence"))
    s0 = a.snap()
    s = (lambda i: to_int(s0(i))) if a.dtype == "b" else s0
    w = it.sym("arg", I)
    it.assume(w >= 0, w < n)
    it.forall([n], lambda i: And(s(i) <= s(w), z3.Implies(i < w, s(i) < s(w))) if big else And(s(i) >= s(w), z3.Implies(i < w, s(i) > s(w))))
    return w


def reshape(it, a, *shape):
    from pyfront import PyRaise
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    sh = [simp_dim(x) for x in shape]
    n = size_term(a.shape)
    neg = [i for i, x in enumerate(sh) if isinstance(x, int) and x == -1]
    if neg:
        other = size_term([x for i, x in enumerate(sh) if i not in neg])
        if is_num(other) and numval(other) == 1:
            sh[neg[0]] = simp_dim(n)
        else:
            sh[neg[0]] = simp_dim(mk_div(n, other))
    if not it.decide(size_term(sh) == n):
        raise PyRaise(ValueError("cannot reshape array"))
    a.buf.frozen = True
    r = regrid(it, a, sh)
    r.buf.frozen = True
    return r


def named(it, t, *dims):
    """a symbol for the product of sizes (it.name_sizes), so that the index arithmetic stays linear"""
    t = norm(t)
    if not it.name_sizes or all(len(m) < 2 for m in poly(t)):
        return t
    key = ("size", t.get_id())
    h = it.memo_fn.get(key)
    if h is None:
        m = it.sym("size", I)
        it.assume(m >= t, m <= t)
        for d in dims:
            if it.ctx.prove(And(*[num(x) >= 1 for x in dims])):
                it.assume(m >= num(d))
        h = it.memo_fn[key] = (m, t)
        it.log(lambda: it.memo_fn.pop(key, None))
    return h[0]


def split_index(it, size, outer, inner):
    """lemma: positions below outer*inner have a quotient below outer (proved in lemmas.py)"""
    if it.name_sizes:
        it.ctx.div_rules = it.ctx.div_rules + ((norm(num(inner)), norm(num(outer)), norm(num(size))),)


def regrid(it, a, sh):
    s = a.snap()
    old = list(a.shape)

    def el(*ix):
        # drop / add dimensions of size one without arithmetic
        f = z3.IntVal(0)
        for i, n in zip(ix, sh):
            f = norm(f * num(n) + num(i))
        out = []
        for n in reversed(old[1:]):
            if isinstance(n, int) and n == 1:
                out.append(z3.IntVal(0))
                continue
            out.append(mk_mod(f, num(n)))
            f = mk_div(f, num(n))
        if old:
            out.append(f)
        out = [it.ctx.simp(o) for o in reversed(out)]
        return s(*out)
    same = [x for x in old if not (isinstance(x, int) and x == 1)]
    new = [x for x in sh if not (isinstance(x, int) and x == 1)]
    if len(same) == len(new) and all(norm(num(x)).eq(norm(num(y))) for x, y in zip(same, new)):
        def el(*ix):                                  # noqa: F811
            keep = [i for i, n in zip(ix, sh) if not (isinstance(n, int) and n == 1)]
            out, k = [], 0
            for n in old:
                if isinstance(n, int) and n == 1:
                    out.append(z3.IntVal(0))
                else:
                    out.append(keep[k])
                    k += 1
            return s(*out)
    return make(sh, a.dtype, memo(it, el))


def flatten(it, a):
    if a.ndim == 1:
        return make(a.shape, a.dtype, a.snap())
    n = size_term(a.shape)
    if a.ndim == 2:
        n = named(it, n, *a.shape)
        split_index(it, n, *a.shape)
    return regrid(it, a, [n])


def transpose(it, a):
    n = a.ndim
    dims = [d if d[0] == "fix" else ("dim", n - 1 - d[1], d[2], d[3]) for d in a.dims]
    return NDArr(a.buf, a.shape[::-1], dims)


def where(it, c, *ab):
    if not ab:
        c = asarray(it, c)
        if c.ndim != 1:
            raise Unsupported("where of several dimensions")
        m = map1(it, b_of, c, "b")
        cnt, sel, _ = selection(it, m)
        return (make([cnt], "i", lambda k: sel(num(k))),)
    a, b = ab
    if not any(isinstance(x, NDArr) for x in (a, b, c)):
        c = num(c)
        x, y = coerce(num(lit(a)), num(lit(b)))
        return ite(norm(b_of(c)), x, y)
    sh = []
    for x in (a, b, c):
        if isinstance(x, NDArr):
            sh = bshape(it, sh, x.shape)
    d = join(dtype_of(a), dtype_of(b))
    ga, gb, gc = bget(a, sh), bget(b, sh), bget(c, sh)
    return make(sh, d, lambda *ix: ite(norm(b_of(gc(*ix))), as_sort(ga(*ix), d), as_sort(gb(*ix), d)))


def argwhere(it, c):
    c = asarray(it, c)
    s = c.snap()
    nd = c.ndim
    m = it.sym("m", I)
    Rf = it.symfn("aw", I, I, I)
    it.assume(m >= 0)
    it.forall([m], lambda k: And(*[And(Rf(k, z3.IntVal(d)) >= 0, Rf(k, z3.IntVal(d)) < num(c.shape[d])) for d in range(nd)],
                                 norm(b_of(s(*[Rf(k, z3.IntVal(d)) for d in range(nd)])))))
    ix = it.symfn("awi", *[I] * nd, I)
    it.forall(c.shape, lambda *i: z3.Implies(norm(b_of(s(*i))), And(ix(*i) >= 0, ix(*i) < m, *[Rf(ix(*i), z3.IntVal(d)) == i[d] for d in range(nd)])))
    return make([m, nd], "i", lambda k, d: Rf(num(k), num(d)))


def unique(it, a):
    a = asarray(it, a)
    if a.ndim != 1:
        a = flatten(it, a)
    s = a.snap()
    n = num(a.shape[0])
    u = it.sym("u", I)
    U, src, pos = it.symfn("uq", I, SORT[a.dtype]), it.symfn("uqs", I, I), it.symfn("uqp", I, I)
    it.assume(u >= 0, u <= n, z3.Implies(n > 0, u > 0))
    it.forall([u], lambda k: And(src(k) >= 0, src(k) < n, U(k) == s(src(k))))
    it.forall([n], lambda i: And(pos(i) >= 0, pos(i) < u, U(pos(i)) == s(i)))
    it.forall([u, u], lambda j, k: z3.Implies(j < k, U(j) < U(k)))
    r = make([u], a.dtype, lambda k: U(num(k)))
    r.distinct = r.buf.fn
    return r


def isin(it, a, b):
    a, b = asarray(it, a), asarray(it, b)
    if b.ndim != 1:
        b = flatten(it, b)
    sa, sb = a.snap(), b.snap()
    n = num(b.shape[0])
    P, W = it.symfn("isin", *[I] * a.ndim, B), it.symfn("isw", *[I] * a.ndim, I)
    eq = lambda x, y: (lambda p: p[0] == p[1])(coerce(x, y))
    it.forall(a.shape, lambda *i: z3.Implies(P(*i), And(W(*i) >= 0, W(*i) < n, eq(sb(W(*i)), sa(*i)))))
    it.forall(a.shape + [n], lambda *i: z3.Implies(eq(sb(i[-1]), sa(*i[:-1])), P(*i[:-1])))
    k = fresh("k")
    if a.ndim == 1 and a.dtype == "i" and getattr(b, "distinct", None) is b.buf.fn and norm(sa(k)).eq(k):
        # distinct members of 0..m-1: as many indices are hit as there are members
        m = num(a.shape[0])
        with it.ctx.scope(k >= 0, k < n):
            inside = it.ctx.quick(And(sb(k) >= 0, sb(k) < m), 3000)
        if inside:
            it.assume(it.ctx.sum(m, lambda i: ite(P(num(i)), z3.IntVal(1), z3.IntVal(0)), sort=I) == n)
    return make(a.shape, "b", lambda *i: P(*[num(x) for x in i]))


def repeat(it, a, n, axis=None):
    a = asarray(it, a)
    if a.ndim != 1:
        raise Unsupported("repeat of several dimensions")
    s = a.snap()
    n = num(n)
    if not it.decide(n > 0):
        raise Unsupported("repeat(0)")
    m = named(it, num(a.shape[0]) * n, a.shape[0], n)
    split_index(it, m, a.shape[0], n)
    return make([m], a.dtype, lambda i: s(it.ctx.simp(mk_div(norm(num(i)), n))))


def tile(it, a, n):
    a = asarray(it, a)
    if a.ndim != 1 or isinstance(n, (tuple, list)):
        raise Unsupported("tile of several dimensions")
    s = a.snap()
    m = num(a.shape[0])
    if not it.decide(And(num(n) >= 0, m > 0)):
        raise Unsupported("tile(0)")
    return make([named(it, m * num(n), m, n)], a.dtype, lambda i: s(it.ctx.simp(mk_mod(norm(num(i)), m))))


def meshgrid(it, x, y, **k):
    if k:
        raise Unsupported("meshgrid options")
    x, y = asarray(it, x), asarray(it, y)
    sx, sy = x.snap(), y.snap()
    sh = [y.shape[0], x.shape[0]]
    return [make(sh, x.dtype, lambda i, j: sx(j)), make(sh, y.dtype, lambda i, j: sy(i))]


def elementwise(fn, dtype=None):
    def f(it, a, *rest, out=None, **k):
        if out is not None or k:
            raise Unsupported("ufunc options")
        if isinstance(a, (list, tuple)):
            a = asarray(it, a)
        if isinstance(a, NDArr):
            return map1(it, lambda x: fn(it, x), a, dtype if dtype else a.dtype)
        if a is None:
            from pyfront import PyRaise
            raise PyRaise(TypeError("bad operand type"))
        if isinstance(a, Cplx):
            return fn(it, a)
        return fn(it, num(lit(a)))
    return f


def binary(op):
    def f(it, a, b, **k):
        if k:
            raise Unsupported("ufunc options")
        return it.binop(op, a, b)
    return f


def comparison(op):
    return lambda it, a, b: it.compare(op, a, b)


def logical(fn):
    def f(it, a, b):
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return broadcast(it, lambda x, y: norm(fn(b_of(x), b_of(y))), a, b, dtype="b")
        return norm(fn(b_of(num(a)), b_of(num(b))))
    return f


def sqrt_(it, x):
    if isinstance(x, Cplx):
        return Cplx(ite(norm(x.re >= 0), sqrt_f(x.re), z3.RealVal(0)))
    return sqrt_f(norm(to_real(x)))


def np_sqrt(it, a, **k):
    if isinstance(a, NDArr) and a.dtype == "c":
        s = a.snap()
        r = make(a.shape, "c", lambda *ix: (lambda x: ite(norm(x >= 0), sqrt_f(x), z3.RealVal(0)))(norm(s(*ix))))
        return r
    return elementwise(sqrt_, "f")(it, a)


def sign_(it, x):
    one, zero = (z3.RealVal(1), z3.RealVal(0)) if x.sort() == R else (z3.IntVal(1), z3.IntVal(0))
    return ite(norm(x > 0), one, ite(norm(x < 0), -one, zero))


def abs_(it, x):
    x = to_int(x)
    if it.ctx.quick(x >= 0):
        return x
    return ite(norm(x >= 0), x, norm(-x))


def maximum(big):
    def one(it, x, y):
        x, y = coerce(num(lit(x)), num(lit(y)))
        return ite(norm(x >= y if big else x <= y), x, y)

    def f(it, a, b):
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return broadcast(it, lambda x, y: one(it, x, y), a, b)
        return one(it, a, b)
    return f


def clip(it, a, lo=None, hi=None, out=None, **k):
    if out is not None:
        raise Unsupported("clip with out")
    r = a
    if lo is not None:
        r = maximum(True)(it, r, lo)
    if hi is not None:
        r = maximum(False)(it, r, hi)
    return r


def diff(it, a, **k):
    a = asarray(it, a)
    if a.ndim != 1 or k:
        raise Unsupported("diff")
    s = a.snap()
    n = num(a.shape[0])
    if not it.decide(n >= 1):
        raise Unsupported("diff of an empty array")
    return make([norm(n - 1)], a.dtype, lambda i: norm(s(norm(num(i) + 1)) - s(i)))


def cumsum(it, a, **k):
    a = asarray(it, a)
    if a.ndim != 1 or k:
        raise Unsupported("cumsum")
    s = a.snap()
    d = "i" if a.dtype in "ib" else "f"
    return make([a.shape[0]], d, memo(it, lambda i: it.ctx.sum(norm(num(i) + 1), lambda k: as_sort(s(k), d), sort=SORT[d])))


def dot(it, a, b):
    if not isinstance(a, NDArr) or not isinstance(b, NDArr):
        return it.binop(ast.Mult, a, b)
    if a.ndim == b.ndim == 1 and dim_eq(it, a.shape[0], b.shape[0]):
        return sum_(it, it.binop(ast.Mult, a, b))
    raise Unsupported("dot")


def uninterpreted(name):
    """an array function of which only the shape is known"""
    def f(it, *a, **k):
        raise Unsupported(f"{name}")
    return f


def interp(it, x, xp, fp, **k):
    """contract: a function of the abscissae and of the two tables only"""
    if k:
        raise Unsupported("interp options")
    xp, fp = asarray(it, xp), asarray(it, fp)
    key = ("interp", norm(xp.snap()(z3.Const("K$", I))).sexpr(), norm(fp.snap()(z3.Const("K$", I))).sexpr(), str(xp.shape))
    F = it.memo_fn.get(key)
    if F is None:
        F = it.memo_fn[key] = freshfn("interp", R, R)
    if isinstance(x, NDArr):
        s = x.snap()
        return make(x.shape, "f", lambda *ix: F(norm(to_real(s(*ix)))))
    return F(norm(to_real(num(lit(x)))))


def gradient(it, f, x=None, **k):
    """contract: a function of the index, the samples and the abscissae only"""
    f = asarray(it, f)
    if k or not isinstance(x, NDArr) or f.ndim != 1 or x.ndim != 1 or not dim_eq(it, f.shape[0], x.shape[0]):
        raise Unsupported("gradient")
    i = z3.Const("K$", I)
    key = ("gradient", norm(it.ctx.simp(norm(f.snap()(i)))).sexpr(), norm(it.ctx.simp(norm(x.snap()(i)))).sexpr())
    F = it.memo_fn.get(key)
    if F is None:
        F = it.memo_fn[key] = freshfn("gradient", I, R)
    it.calls.append(("gradient", dict(args=[make(f.shape, f.dtype, f.snap()), make(x.shape, x.dtype, x.snap())], kw={})))
    return make(f.shape, "f", lambda j: F(norm(num(j))))


def fn(f, *names, **defaults):
    """adapter: interpreter call (it, args, kw) -> f(it, *args, **kw)"""
    def g(it, args, kw):
        return f(it, *args, **kw)
    return g


def a_copy(it, a, *r, **k):
    a = asarray(it, a)
    return make(a.shape, a.dtype, a.snap())


def np_size(it, a, axis=None):
    if isinstance(a, NDArr):
        return dim_out(size_term(a.shape)) if axis is None else dim_out(a.shape[axis])
    if isinstance(a, (list, tuple)):
        return np_size(it, asarray(it, a))
    return 1


def dim_out(s):
    return simp_dim(s)


def mean(it, a, axis=None):
    if axis is not None:
        raise Unsupported("mean along an axis")
    return it.binop(ast.Div, sum_(it, a), np_size(it, a))


def ceil_(it, x):
    x = to_real(x)
    return to_real(norm(-it.floor(norm(-x))))


def floor_(it, x):
    return to_real(it.floor(to_real(x)))


def isfinite(it, a):
    if isinstance(a, NDArr):
        return make(a.shape, "b", lambda *ix: z3.BoolVal(True))
    return True


def isnan(it, a):
    if isinstance(a, NDArr):
        return make(a.shape, "b", lambda *ix: z3.BoolVal(False))
    return False


def concatenate(it, xs, axis=0):
    xs = [asarray(it, x) for x in it.items(xs)]
    if any(x.ndim != 1 for x in xs):
        raise Unsupported("concatenate")
    d = join(*[x.dtype for x in xs])
    ss = [x.snap() for x in xs]
    ns = [num(x.shape[0]) for x in xs]

    def el(i):
        i = num(i)
        offs = [z3.IntVal(0)]
        for n in ns:
            offs.append(norm(offs[-1] + n))
        r = as_sort(ss[-1](norm(i - offs[len(ss) - 1])), d)
        for k in range(len(ss) - 2, -1, -1):
            r = ite(norm(i < offs[k + 1]), as_sort(ss[k](norm(i - offs[k])), d), r)
        return r
    tot = norm(z3.Sum(*ns))
    return make([tot], d, el)


NP = dict(
    zeros=zeros, ones=lambda it, s, dtype=None: full(it, s, 1 if dtype is not None and code(dtype) == "i" else Fraction(1), dtype), full=full,
    empty=lambda it, s, dtype=None: fresh_array(it, "empty", shape_of(it, s), "f" if dtype is None else code(dtype)),
    zeros_like=lambda it, a, dtype=None, **k: like(it, a, 0, dtype), ones_like=lambda it, a, dtype=None, **k: like(it, a, 1, dtype),
    full_like=lambda it, a, v, dtype=None: like(it, a, v, dtype),
    empty_like=lambda it, a, dtype=None: fresh_array(it, "empty", a.shape, a.dtype if dtype is None else code(dtype)),
    copy=a_copy, array=array, asarray=lambda it, a, dtype=None: asarray(it, a, dtype), ascontiguousarray=lambda it, a, dtype=None: asarray(it, a, dtype),
    asfortranarray=lambda it, a, dtype=None: asarray(it, a, dtype), atleast_1d=lambda it, a: asarray(it, a),
    arange=arange, sum=sum_, any=any_, all=all_, max=lambda it, a, axis=None: extremum(it, a, True, axis), amax=lambda it, a, axis=None: extremum(it, a, True, axis),
    min=lambda it, a, axis=None: extremum(it, a, False, axis), amin=lambda it, a, axis=None: extremum(it, a, False, axis),
    argmax=lambda it, a: argext(it, a, True), argmin=lambda it, a: argext(it, a, False), mean=mean, average=mean,
    sqrt=np_sqrt, sin=elementwise(lambda it, x: sin_f(norm(to_real(x))), "f"), cos=elementwise(lambda it, x: cos_f(norm(to_real(x))), "f"),
    arcsin=elementwise(lambda it, x: z3.Function("arcsin", R, R)(norm(to_real(x))), "f"),
    abs=elementwise(abs_), absolute=elementwise(abs_), fabs=elementwise(lambda it, x: to_real(abs_(it, x)), "f"), sign=elementwise(sign_),
    floor=elementwise(floor_, "f"), ceil=elementwise(ceil_, "f"), square=elementwise(lambda it, x: norm(x * x)), negative=elementwise(lambda it, x: norm(-x)),
    trunc=elementwise(lambda it, x: to_real(it.trunc(x)), "f"),
    power=binary(ast.Pow), add=binary(ast.Add), subtract=binary(ast.Sub), multiply=binary(ast.Mult), divide=binary(ast.Div), true_divide=binary(ast.Div),
    floor_divide=binary(ast.FloorDiv), mod=binary(ast.Mod), remainder=binary(ast.Mod),
    equal=comparison(ast.Eq), not_equal=comparison(ast.NotEq), less=comparison(ast.Lt), less_equal=comparison(ast.LtE), greater=comparison(ast.Gt),
    greater_equal=comparison(ast.GtE),
    logical_and=logical(z3.And), logical_or=logical(z3.Or), logical_not=elementwise(lambda it, x: norm(z3.Not(b_of(x))), "b"),
    maximum=maximum(True), minimum=maximum(False), clip=clip, where=where, argwhere=argwhere, unique=unique, isin=isin, in1d=isin, repeat=repeat, tile=tile,
    meshgrid=meshgrid, reshape=lambda it, a, s: reshape(it, a, s), ravel=lambda it, a: flatten(it, a), transpose=transpose, diff=diff, cumsum=cumsum, dot=dot, interp=interp, gradient=gradient,
    size=np_size, shape=lambda it, a: tuple(dim_out(x) for x in asarray(it, a).shape), ndim=lambda it, a: asarray(it, a).ndim, isfinite=isfinite, isnan=isnan,
    concatenate=concatenate, real=lambda it, a: attr(it, a, "real"), count_nonzero=lambda it, a: sum_(it, map1(it, b_of, asarray(it, a), "b")),
    nonzero=lambda it, a: where(it, a), flatnonzero=lambda it, a: where(it, flatten(it, a))[0],
    array_equal=lambda it, a, b: array_equal(it, a, b), isscalar=lambda it, a: not isinstance(a, (NDArr, list, tuple)),
)


def array_equal(it, a, b):
    a, b = asarray(it, a), asarray(it, b)
    if a.ndim != b.ndim or not all(dim_eq(it, x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return all_(it, broadcast(it, lambda x, y: it.compare(ast.Eq, x, y), a, b, dtype="b"))


# -------------------------------------------------------------------------------- attributes of values
def attr(it, o, name):
    from pyfront import PyRaise, SymIter, Opaque, Text
    if isinstance(o, NDArr):
        if name == "shape":
            return tuple(dim_out(x) for x in o.shape)
        if name == "size":
            return dim_out(size_term(o.shape))
        if name == "ndim":
            return o.ndim
        if name == "T":
            return transpose(it, o)
        if name == "real":
            if o.dtype == "c":
                return make(o.shape, "f", o.snap())
            return o
        if name == "dtype":
            return {"f": T["float64"], "i": T["int64"], "b": T["bool"], "c": T["complex"]}[o.dtype]
        if name in ("__iter__", "__getitem__", "__len__", "__array__"):
            return True
        m = dict(sum=sum_, any=any_, all=all_, max=NP["max"], min=NP["min"], argmax=NP["argmax"], argmin=NP["argmin"], mean=mean, copy=a_copy,
                 astype=lambda it, a, d, **k: astype(it, a, d), reshape=reshape, flatten=flatten, ravel=flatten, clip=clip, transpose=transpose, cumsum=cumsum,
                 dot=dot, repeat=repeat, item=lambda it, a, *k: scalar_of(it, a) if not k else it.getitem(a, k[0]),
                 tolist=lambda it, a: SymIter(a.shape[0], lambda i, s=a.snap(): s(i)), fill=lambda it, a, v: assign(it, a, (Ellipsis,), v),
                 nonzero=where)
        if name in m:
            f = m[name]
            return lambda it_, args, kw: f(it_, o, *args, **kw)
        if name in ("get",):
            raise PyRaise(AttributeError(name))
        if name in ("sort", "byteswap", "resize", "put", "partition", "var", "std", "prod", "round", "squeeze", "swapaxes", "view", "setflags", "flags", "nbytes", "itemsize", "base",
                    "data", "strides", "flat", "imag", "conj", "cumprod", "trace", "take", "searchsorted", "diagonal", "choose", "compress", "tobytes", "dump"):
            raise Unsupported(f"array method {name}")
        raise PyRaise(AttributeError(name))
    if isinstance(o, Cplx):
        if name == "real":
            return o.re
        raise Unsupported("complex number")
    if isinstance(o, Quantified):
        if name in ("any", "all"):
            return lambda it_, a, k: o
    if isinstance(o, (int, float, Fraction, z3.ExprRef)):
        if name in ("real",):
            return o
        if name in ("__iter__", "__getitem__", "__len__", "shape", "get"):
            raise PyRaise(AttributeError(name))
        if name == "astype":
            return lambda it_, a, k: cast_scalar(it_, a[0], o)
        if name == "copy":
            return lambda it_, a, k: o
        if name == "clip":
            return lambda it_, a, k: clip(it_, o, *a, **k)
        if name in ("sum", "max", "min", "mean", "item"):
            return lambda it_, a, k: o
        raise Unsupported(f"attribute {name} of a number")
    if o is None:
        raise PyRaise(AttributeError(name))
    if isinstance(o, SymStr):
        if name == "strip":
            return lambda it_, a, k: SymStr(o.name if o.name.endswith(".strip") else o.name + ".strip")
        if name in ("__iter__", "__getitem__", "__len__"):
            return True
        raise Unsupported(f"text method {name}")
    if isinstance(o, str):
        if name in ("__iter__", "__getitem__", "__len__"):
            return True
        if isinstance(o, Text):
            return lambda it_, a, k: Text("text")
        if name == "format":
            return lambda it_, a, k: Text("text")
        if hasattr(o, name):
            return lambda it_, a, k: getattr(o, name)(*a, **k)
        raise PyRaise(AttributeError(name))
    if isinstance(o, (list, tuple, SymIter)):
        if name in ("__iter__", "__getitem__", "__len__"):
            return True
        if name == "append" and isinstance(o, list):
            def app(it_, a, k):
                it_.opaque_effect("append", o)
                it_.log(o.pop)
                o.append(a[0])
            return app
        if name == "extend" and isinstance(o, list):
            def ext(it_, a, k):
                it_.opaque_effect("extend", o)
                n = len(o)
                it_.log(lambda: o.__delitem__(slice(n, None)))
                o.extend(it_.items(a[0]))
            return ext
        if name == "pop" and isinstance(o, list):
            def pop(it_, a, k):
                it_.opaque_effect("pop", o)
                old = list(o)
                it_.log(lambda: o.__setitem__(slice(None), old))
                return o.pop(*a)
            return pop
        if name == "copy":
            return lambda it_, a, k: list(o)
        if name == "index" and not isinstance(o, SymIter):
            return lambda it_, a, k: o.index(a[0])
        if name in ("shape", "get", "astype", "any", "clip", "ndim", "size"):
            raise PyRaise(AttributeError(name))
        raise Unsupported(f"list method {name}")
    if isinstance(o, dict):
        if name in ("__iter__", "__getitem__", "__len__"):
            return True
        if name == "copy":
            return lambda it_, a, k: SDict(o)
        if name == "keys":
            return lambda it_, a, k: list(o)
        if name == "values":
            return lambda it_, a, k: list(o.values())
        if name == "items":
            return lambda it_, a, k: [tuple(x) for x in o.items()]
        if name == "get":
            return lambda it_, a, k: o.get(*a)
        if name == "pop":
            def dpop(it_, a, k):
                if a[0] not in o:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise(KeyError(a[0]))
                v = o[a[0]]
                it_.opaque_effect("dict", o)
                it_.log(lambda: o.__setitem__(a[0], v))
                return o.pop(a[0])
            return dpop
        if name == "update":
            def upd(it_, a, k):
                for d in list(a) + [k]:
                    for kk, vv in d.items():
                        it_.set_key(o, kk, vv)
            return upd
        raise Unsupported(f"dict method {name}")
    if isinstance(o, DType):
        if name == "type":
            return o
        if name == "name" or name == "__name__":
            return o.name
        if name == "__class__":
            return T["str"]
    if isinstance(o, BaseException):
        return Text("text")
    if callable(o):
        if name == "at":
            return add_at
        if name == "__name__":
            return Text("text")
        raise PyRaise(AttributeError(name))
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def add_at(it, args, kw):
    a, ix, v = args
    ix = asarray(it, ix)
    if a.ndim != 1 or ix.ndim != 1:
        raise Unsupported("add.at of several dimensions")
    si, old = ix.snap(), a.snap()
    gv = bget(v, ix.shape)
    n = ix.shape[0]
    q = Quantified("all", list(ix.shape), lambda i: And(si(i) >= 0, si(i) < num(a.shape[0])))
    if not q.decide(it):
        raise Unsupported("add.at with indices out of range")
    write(it, a, memo(it, lambda c: norm(old(c) + it.ctx.sum(n, lambda k: ite(norm(si(k) == c), as_sort(gv(k), a.dtype), ZERO[a.dtype]), sort=SORT[a.dtype]))))


# ------------------------------------------------------------------------------------------------ builtins
def b_len(it, args, kw):
    from pyfront import PyRaise, SymIter, Rng, Text
    v, = args
    if isinstance(v, NDArr):
        if v.ndim == 0:
            raise PyRaise(TypeError("len() of unsized object"))
        return dim_out(v.shape[0])
    if isinstance(v, SymIter):
        return dim_out(norm(num(v.n)))
    if isinstance(v, Text) or isinstance(v, SymStr):
        raise Unsupported("length of a text")
    if isinstance(v, (list, tuple, dict, str, range)):
        return len(v)
    if v is None or isinstance(v, (int, float, Fraction, z3.ExprRef)):
        raise PyRaise(TypeError("object has no len()"))
    raise Unsupported(f"len of {type(v).__name__}")


def b_range(it, args, kw):
    from pyfront import Rng, PyRaise
    a = list(args)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi, st):
        if isinstance(x, Fraction) or isinstance(x, z3.ExprRef) and x.sort() == R:
            raise PyRaise(TypeError("integer required"))
    if isinstance(st, z3.ExprRef):
        if is_num(norm(st)):
            st = int(numval(norm(st)))
        else:
            raise Unsupported("range with a symbolic step")
    return Rng(lo, hi, st)


def b_minmax(big):
    def f(it, args, kw):
        from pyfront import PyRaise
        if len(args) == 1:
            if isinstance(args[0], NDArr) and isinstance(args[0].shape[0], z3.ExprRef):
                return extremum(it, args[0], big)
            args = it.items(args[0])
        if not args:
            raise PyRaise(ValueError("empty sequence"))
        r = args[0]
        for x in args[1:]:
            if not isinstance(r, z3.ExprRef) and not isinstance(x, z3.ExprRef):
                r = max(r, x) if big else min(r, x)
            else:
                r = maximum(big)(it, r, x)
                r = it.ctx.simp(r)
        return r
    return f


def b_abs(it, args, kw):
    v = args[0]
    if isinstance(v, (int, float, Fraction)):
        return abs(lit(v))
    return NP["abs"](it, v)


def b_sum(it, args, kw):
    from pyfront import SymIter
    v = args[0]
    if isinstance(v, NDArr):
        if v.ndim == 1:
            return sum_(it, v)
        return sum_(it, v, axis=0)
    if isinstance(v, SymIter):
        return it.ctx.sum(v.n, lambda k: num(lit(v.get(k))))
    r = args[1] if len(args) > 1 else 0
    for x in it.items(v):
        r = it.binop(ast.Add, r, x)
    return r


def b_isinstance(it, args, kw):
    return it.is_type(args[0], args[1])


def b_hasattr(it, args, kw):
    return it.has(args[0], args[1])


def b_getattr(it, args, kw):
    from pyfront import PyRaise
    try:
        return it.getattr(args[0], args[1])
    except PyRaise as p:
        if isinstance(p.exc, AttributeError) and len(args) > 2:
            return args[2]
        raise


def b_setattr(it, args, kw):
    it.setattr(*args)


def b_zip(it, args, kw):
    from pyfront import SymIter
    seqs = [it.sequence(a) for a in args]
    if all(isinstance(s, list) for s in seqs):
        return [tuple(x) for x in zip(*seqs)]
    n = None
    for s in seqs:
        m = num(len(s)) if isinstance(s, list) else num(s.n)
        n = m if n is None else (n if it.decide(n <= m) else m)
    gets = [(lambda i, s=s: it.getitem(s, i)) if isinstance(s, list) else s.get for s in seqs]
    return SymIter(n, lambda i: tuple(g(i) for g in gets))


def b_enumerate(it, args, kw):
    from pyfront import SymIter
    s = it.sequence(args[0])
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(s, list):
        return [(it.binop(ast.Add, i, st), x) for i, x in enumerate(s)]
    return SymIter(s.n, lambda i: (norm(i + num(st)), s.get(i)))


def b_reversed(it, args, kw):
    from pyfront import SymIter
    s = it.sequence(args[0])
    if isinstance(s, list):
        return s[::-1]
    return SymIter(s.n, lambda i: s.get(norm(num(s.n) - 1 - i)))


def b_round(it, args, kw):
    raise Unsupported("round")


BUILTINS = dict(
    len=b_len, range=b_range, min=b_minmax(False), max=b_minmax(True), abs=b_abs, sum=b_sum, isinstance=b_isinstance, hasattr=b_hasattr, getattr=b_getattr,
    setattr=b_setattr, zip=b_zip, enumerate=b_enumerate, reversed=b_reversed, print=lambda it, a, k: None, all=fn(all_), any=fn(any_), round=b_round,
    callable=lambda it, a, k: callable(a[0]) or type(a[0]).__name__ in ("PyFunc", "Bound", "PyClass", "Multi"),
    float=T["float"], int=T["int"], bool=T["bool"], str=T["str"], list=T["list"], tuple=T["tuple"], dict=T["dict"], complex=T["complex"], object=object,
    type=lambda it, a, k: getattr(a[0], "cls", None) or type(a[0]), id=lambda it, a, k: id(a[0]), map=lambda it, a, k: [it.call(a[0], [x], {}) for x in it.items(a[1])],
    sorted=lambda it, a, k: _sorted(it, a[0]), Ellipsis=Ellipsis, repr=lambda it, a, k: "text", iter=lambda it, a, k: a[0],
    slice=lambda it, a, k: slice(*a), pow=lambda it, a, k: it.binop(ast.Pow, *a), divmod=lambda it, a, k: (it.binop(ast.FloorDiv, *a), it.binop(ast.Mod, *a)),
)
BUILTINS["True"], BUILTINS["False"], BUILTINS["None"] = True, False, None


def _sorted(it, v):
    xs = it.items(v)
    if any(isinstance(x, z3.ExprRef) for x in xs):
        raise Unsupported("sorting of symbolic values")
    return sorted(xs)


# ------------------------------------------------------------------------------------- external modules
CONSTANTS = dict(c=299792458, e=Fraction("1.602176634e-19"), speed_of_light=299792458, elementary_charge=Fraction("1.602176634e-19"), pi=pi_c)


def newton(it, args, kw):
    """Assumed contract of scipy.optimize.newton: either RuntimeError is raised, or the result is a root found by
    the iteration for func with derivative fprime started at x0: root(i) with the residual bounded by an
    unspecified small number.  The call is recorded so that contracts can state what was solved."""
    from pyfront import PyRaise
    names = ["func", "x0", "fprime", "args", "tol", "maxiter"]
    a = dict(zip(names, args))
    a.update(kw)
    extra = a.get("args", ())
    func, fprime = a["func"], a.get("fprime")
    if it.choose(2) == 1:
        raise PyRaise(RuntimeError("Failed to converge"))
    r = it.sym("root", R)
    # evaluating the functions at the start makes their exceptions visible
    probe = it.sym("probe", R)
    res = it.call(func, [r] + list(extra), {})
    der = None if fprime is None else it.call(fprime, [r] + list(extra), {})
    it.assume(z3.Function("solves", R, R, R, B)(norm(to_real(num(lit(res)))), z3.RealVal(0) if der is None else norm(to_real(num(lit(der)))), r))
    it.calls.append(("newton", dict(root=r, x0=a["x0"], residual=res, derivative=der, tol=a.get("tol"), maxiter=a.get("maxiter"))))
    return r


def external(it, name):
    from pyfront import Module, NoOp, Opaque, PKG, Text
    if name == "numpy":
        ns = {k: fn(f) for k, f in NP.items()}
        for k in ("float64", "float32", "int32", "int64", "ndarray", "int16", "uint32", "floating"):
            ns[k] = T[k]
        ns["bool_"] = T["bool"]
        ns["add"].name = "add"
        ns["pi"] = pi_c
        ns["newaxis"] = None
        ns["complex128"] = T["complex"]
        ns["random"] = Opaque("numpy.random")
        ns["asarray_chkfinite"] = ns["asarray"]

        def more(n):
            if n in ("array_split", "polyfit", "gradient", "genfromtxt", "loadtxt", "savetxt", "linspace", "vstack", "hstack", "stack", "convolve", "histogram", "einsum",
                     "cross", "outer", "prod", "std", "var", "median", "percentile", "sort", "argsort", "roll", "flip", "pad", "split", "nan", "inf", "nan_to_num",
                     "digitize", "searchsorted", "bincount", "allclose", "isclose", "round", "around", "rint", "exp", "log", "tan", "arctan", "arccos", "floor_divide",
                     "product", "squeeze", "expand_dims", "broadcast_to", "swapaxes", "column_stack", "append", "delete", "insert", "trapz", "errstate", "seterr",
                     "ix_", "fromiter", "vectorize", "apply_along_axis", "ptp", "nansum", "nanmax", "nanmin", "unravel_index", "ravel_multi_index", "triu", "tril", "eye",
                     "identity", "diag", "ogrid", "mgrid", "indices", "lexsort", "partition", "hypot", "sinh", "cosh", "degrees", "radians", "mod", "fmod", "modf", "copysign"):
                return lambda it_, a, k: _unsup(n)
            return None
        ns["__getattr__"] = more
        return Module("numpy", ns)
    if name == "scipy.constants":
        return Module(name, dict(CONSTANTS, value=lambda it_, a, k: z3.Const(f"constant({a[0]})", R)))
    if name in ("scipy.optimize",):
        return Module(name, dict(newton=newton))
    if name == "scipy":
        return Module(name, dict(optimize=it.module("scipy.optimize"), constants=it.module("scipy.constants"), signal=NoOpSignal()))
    if name == "scipy.signal":
        return Module(name, dict(savgol_filter=lambda it_, a, k: savgol(it_, a, k)))
    if name == "math":
        return Module(name, dict(pi=pi_c, sqrt=lambda it_, a, k: NP["sqrt"](it_, a[0]), sin=lambda it_, a, k: NP["sin"](it_, a[0]), cos=lambda it_, a, k: NP["cos"](it_, a[0]),
                                 floor=lambda it_, a, k: it_.floor(num(lit(a[0]))), ceil=lambda it_, a, k: norm(-it_.floor(norm(-to_real(num(lit(a[0])))))),
                                 fabs=lambda it_, a, k: NP["abs"](it_, a[0]), copysign=lambda it_, a, k: _unsup("copysign"), isfinite=lambda it_, a, k: True,
                                 isclose=lambda it_, a, k: _unsup("isclose"), trunc=lambda it_, a, k: it_.trunc(a[0])))
    if name == "numbers":
        return Module(name, dict(Number=T["number"]))
    if name == "collections.abc" or name == "collections":
        m = Module(name, dict(Sequence=T["sequence"], Iterable=T["sequence"], Collection=T["sequence"], Callable=NoOp("Callable")))
        if name == "collections":
            m.ns["abc"] = it.module("collections.abc")
        return m
    if name == "abc":
        return Module(name, dict(ABC=NoOp("ABC"), abstractmethod=NoOp("abstractmethod")))
    if name in ("typing",):
        return Module(name, dict(TYPE_CHECKING=False, __getattr__=lambda n: NoOp(n)))
    if name == "multipledispatch":
        return Module(name, dict(dispatch=NoOp("dispatch")))
    if name == "itertools":
        return Module(name, dict(product=lambda it_, a, k: _unsup("itertools.product")))
    if name == "copy":
        return Module(name, dict(copy=lambda it_, a, k: a_copy(it_, a[0]) if isinstance(a[0], NDArr) else _unsup("copy"),
                                 deepcopy=lambda it_, a, k: a_copy(it_, a[0]) if isinstance(a[0], NDArr) else _unsup("deepcopy")))
    if name == "functools":
        return Module(name, dict(reduce=lambda it_, a, k: _unsup("reduce"), partial=lambda it_, a, k: partial(it_, a, k)))
    if name == "operator":
        return Module(name, {})
    if name in ("logging", "warnings", "time", "matplotlib", "matplotlib.pyplot", "matplotlib.gridspec", "glob", "ctypes", "cupy"):
        return NoOp(name)
    if name in ("os", "sys", "os.path"):
        return Module(name, dict(path=Opaque("os.path"), stdin=Opaque("stdin"), environ=Opaque("environ")))
    if name == PKG + ".cpp_routines.libtomo":
        import pylib
        return Module(name, pylib.library(it))
    if name == PKG:
        m = Module(PKG, {})
        m.ns["__getattr__"] = lambda n: it.module(PKG + "." + n) if it.world.tree(PKG + "." + n) is not None else None
        return m
    if name.split(".")[0] not in (PKG,):
        return Opaque(name)
    return None


def partial(it, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return lambda it_, args, kwargs: it_.call(f, pre + list(args), dict(kw, **kwargs))


def _unsup(n):
    raise Unsupported(n)


def NoOpSignal():
    from pyfront import Opaque
    return Opaque("scipy.signal")


def savgol(it, a, k):
    x = a[0] if a else k["x"]
    it.calls.append(("savgol_filter", dict(k)))
    return fresh_array(it, "savgol", x.shape, "f")
