"""Verification-condition generation for the Python part: a symbolic interpreter of the abstract syntax trees
of the package's own modules, read from the working tree on every run.

* every function of the package that is called is interpreted (or, where the contract says so, replaced by
  the contract of the callee); numpy, scipy and the compiled library are represented by contracts (pynp.py);
* numbers are mathematical reals and integers, arrays are closures from index terms to element terms with
  symbolic shapes;
* a branch on a symbolic condition splits the path; every path is executed from the start (decision prefix);
* a loop over a symbolic range is summarised without a bound: its body is executed once for a generic
  iteration, every written cell is shown to be written by one iteration only (or to be an accumulation), and
  the completed iterations are described by the universally quantified equations that the body establishes.

What the interpretation drops: text of messages (f-strings, logging, printing, warnings), type annotations,
docstrings, floating point rounding, integer overflow, aliasing of Python objects handed to numpy.
"""
import ast
import builtins
import os
import time
from fractions import Fraction
from numbers import Number as _Number

import z3

from sym import Obligation, short, OBL_LIMIT
from term import (a_key, poly, unpoly, recip_f, _pmul, _padd, And, B, Ctx, I, R, Unsupported, FOLD_BY_DECL, DEF_BY_DECL, _BUILTIN_FACTS, contains, coerce, dname, fresh, freshfn, is_num, ite, mk_div, mk_mod,
                  no_md, norm, num, numval, pi_c, floor_f, sqrt_f, to_int, to_real, walk, _serial)

PKG = "longitudinal_tomography"


class SDict(dict):
    """dictionary with a time stamp"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.serial = next(_serial)


class PyRaise(Exception):
    """an exception of the interpreted program"""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Signal(Exception):
    pass


class Return(Signal):
    def __init__(self, value):
        self.value = value


class Break(Signal):
    pass


class Continue(Signal):
    pass


class Infeasible(Exception):
    """the path cannot be taken"""


def lit(x):
    """number of a source literal"""
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


# ------------------------------------------------------------------------------------------------ prover
class Quant:
    """forall vars: body, instantiated by matching single applications (or pairs of them)"""
    count = 0

    def __init__(self, vs, body, text=""):
        Quant.count += 1
        self.id, self.vs, self.body = ("Q", Quant.count), vs, body
        self.pats = self.patterns()

    def patterns(self):
        apps = []
        for x in walk(self.body).values():
            if not z3.is_app(x) or x.num_args() == 0 or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            if dname(x) in FOLD_BY_DECL or dname(x) in DEF_BY_DECL or dname(x) in ("dv", "md", "recip", "floor", "mulI", "mulR", "sqrt", "sin", "cos"):
                continue
            m = {}
            for d, a in enumerate(x.children()):
                if a.sort() != I:
                    continue
                for v in self.vs:
                    off = norm(a - v)
                    if not any(contains(off, w) for w in self.vs):
                        m.setdefault(v.get_id(), (d, off, 1))
                    off = norm(a + v)
                    if not any(contains(off, w) for w in self.vs):
                        m.setdefault(v.get_id(), (d, off, -1))
            if m:
                apps.append((x.decl(), m))
        ids = [v.get_id() for v in self.vs]
        full = [(f, m) for f, m in apps if all(i in m for i in ids)]
        if full:
            return [[p] for p in full]
        out = []
        for i, (f, m) in enumerate(apps):
            for g, k in apps[i + 1:]:
                if all(x in m or x in k for x in ids):
                    out.append([(f, m), (g, k)])
        return out[:6]

    def match(self, byname):
        """tuples of values for the variables"""
        seen = set()
        for pat in self.pats:
            f, m = pat[0]
            for x in byname.get(f.name(), ()):
                if not x.decl().eq(f):
                    continue
                s1 = {i: norm(x.arg(d) - off) if sg == 1 else norm(off - x.arg(d)) for i, (d, off, sg) in m.items()}
                if len(pat) == 1:
                    subs = [s1]
                else:
                    g, k = pat[1]
                    subs = []
                    for y in byname.get(g.name(), ()):
                        if y.decl().eq(g):
                            s2 = {i: norm(y.arg(d) - off) if sg == 1 else norm(off - y.arg(d)) for i, (d, off, sg) in k.items()}
                            subs.append({**s2, **s1})
                for s in subs:
                    t = tuple(s[v.get_id()] for v in self.vs)
                    key = tuple(a.get_id() for a in t)
                    if key not in seen:
                        seen.add(key)
                        yield t


def _minus(m, k):
    """monomial m without the atoms of k, or None"""
    l = list(m)
    for a in k:
        for i, b in enumerate(l):
            if b.eq(a):
                del l[i]
                break
        else:
            return None
    return tuple(l)


class PyCtx(Ctx):
    """adds quantified facts over several variables; they live in self.foralls, too"""

    def quant(self, dims, fn, text=""):
        vs = [fresh("q") for _ in dims]
        with self.scope():
            body = norm(fn(*vs))
        g = And(*[And(v >= 0, v < num(n)) for v, n in zip(vs, dims)])
        body = norm(z3.Implies(g, body))
        if z3.is_true(body):
            return
        self.foralls.append(Quant(vs, body, text))

    def cancel(self, t):
        """x / x = 1 for denominators that are not zero here"""
        t = norm(t)
        for _ in range(6):
            r = self._cancel1(t)
            if r.eq(t):
                break
            t = r
        return t

    def _cancel1(self, t):
        if not z3.is_app(t) or not any(z3.is_app(x) and x.decl().eq(recip_f) for x in walk(t).values()):
            return t
        arith = t.sort() == R and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL)
        if not arith:
            if t.num_args() == 0:
                return t
            args = [self._cancel1(a) for a in t.children()]
            if t.decl().kind() == z3.Z3_OP_EQ and args[0].sort() == R:
                d = self._cancel1(norm(args[0] - args[1]))
                return norm(d == 0)
            return norm(t.decl()(*args))
        out, todo = {}, dict(poly(t))
        # atoms first: arguments of functions
        q = {}
        for m, c in todo.items():
            mm, k = [], Fraction(1)
            p = {(): Fraction(1)}
            for a in m:
                b = self._cancel1(a)
                p = _pmul(p, poly(b) if not b.eq(a) else {(a,): Fraction(1)})
            _padd(q, p, c)
        roots = {a.get_id(): a for m in q for a in m if a.decl().name() == "sqrt" and sum(1 for y in m if y.eq(a)) >= 2}
        for r in roots.values():
            if not self.quick(norm(r.arg(0) >= 0), 2500):
                continue
            new, pu = {}, poly(r.arg(0))
            for m, c in q.items():
                l, p = list(m), {(): Fraction(1)}
                while sum(1 for y in l if y.eq(r)) >= 2:
                    for _ in range(2):
                        l.remove(next(y for y in l if y.eq(r)))
                    p = _pmul(p, pu)
                _padd(new, _pmul(p, {tuple(l): Fraction(1)}), c)
            q = new
        dens = {}
        for m in q:
            for a in m:
                if a.decl().eq(recip_f):
                    dens[a.get_id()] = a
        for d in dens.values():
            u = d.arg(0)
            pu = poly(u)
            if not self.quick(norm(u != 0), 2500):
                continue
            while True:
                g = {m: c for m, c in q.items() if any(a.eq(d) for a in m)}
                hit = False
                for m in list(g):
                    lead = min(pu, key=lambda k: [a_key(a) for a in k])
                    for lead in pu:
                        rest = _minus(m, lead + (d,))
                        if rest is None:
                            continue
                        c = g[m] / pu[lead]
                        want = {tuple(sorted(rest + (d,) + k, key=a_key)): c * v for k, v in pu.items()}
                        if all(x in q for x in want) and (len(pu) == 1 or all(abs(q[x]) >= abs(w) and q[x] * w > 0 for x, w in want.items())):
                            for x, w in want.items():
                                q[x] -= w
                                if not q[x]:
                                    del q[x]
                            _padd(q, {rest: c}, 1)
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    break
        return norm(unpoly(q, R))

    def _instances0(self, fs):
        out, seen_apps, todo = [], set(), list(fs)
        rounds = 0
        quants = [q for q in self.foralls if isinstance(q, Quant)]
        allnames = {}
        while todo and rounds < 5 and len(out) < 600:
            rounds += 1
            new = []
            terms = {}
            for f in todo:
                walk(f, terms)
            for i, x in terms.items():
                if i in seen_apps:
                    continue
                seen_apps.add(i)
                n = dname(x)
                if n:
                    allnames.setdefault(n, []).append(x)
                new += self._facts(x)
                if n == "dv":
                    for c, m, size in self.div_rules:
                        if x.arg(1).eq(c):
                            a = x.arg(0)
                            new.append(no_md(norm(z3.Implies(z3.And(a >= 0, a < size, size <= c * m, c > 0), z3.And(x >= 0, x < m))), self.keep_md))
            for q in quants:
                for t in q.match(allnames):
                    kk = (q.id, tuple(a.get_id() for a in t))
                    if kk in seen_apps:
                        continue
                    seen_apps.add(kk)
                    key = ("qi", kk, self.keep_md)
                    h = self.icache.get(key)
                    if h is None:
                        f = no_md(norm(z3.substitute(q.body, *zip(q.vs, t))), self.keep_md)
                        h = self.icache[key] = ([] if z3.is_true(f) else [f], t, q)
                    new += h[0]
            out += new
            todo = new
        return out


# ------------------------------------------------------------------------------------------------ values
class Obj:
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, SDict(attrs)

    def __repr__(self):
        return f"<{self.cls.name if self.cls else 'object'} object>"


class PyClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class PyFunc:
    def __init__(self, node, module, closure=None, cls=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return f"{self.module.name}:{self.cls + '.' if self.cls else ''}{self.name}"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class Multi:
    """multiple dispatch"""

    def __init__(self, name):
        self.name, self.cases = name, []


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Module:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Opaque:
    """a value nothing is known about; using it is unsupported"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


class NoOp:
    """logging, warnings, figures: any attribute, any call; no effect"""

    def __init__(self, name="noop"):
        self.name = name


class Text(str):
    """text that the interpretation does not look at"""


class Rng:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymIter:
    """a sequence of symbolic length: n items, get(i)"""

    def __init__(self, n, get):
        self.n, self.get = n, get


class Frame:
    def __init__(self, module, fn=None, parent=None, cls=None, self_=None):
        self.module, self.fn, self.parent, self.cls, self.self_ = module, fn, parent, cls, self_
        self.vars = SDict()


UNBOUND = object()


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_number(x):
    return isinstance(x, (int, float, Fraction)) or is_z(x)


# ------------------------------------------------------------------------------------------- interpreter
class World:
    """source text of the package, parsed once"""

    def __init__(self, repo):
        self.repo, self.asts = repo, {}

    def path(self, mod):
        base = os.path.join(self.repo, *mod.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py")
        return base + ".py"

    def tree(self, mod):
        if mod not in self.asts:
            p = self.path(mod)
            if not os.path.exists(p):
                self.asts[mod] = None
            else:
                with open(p) as f:
                    self.asts[mod] = ast.parse(f.read(), p)
        return self.asts[mod]


class Interp:
    """one execution path"""
    MAX_UNROLL = 130

    def __init__(self, world, prefix=(), contracts=None, timeout=6000):
        import pynp
        self.np = pynp
        self.world = world
        self.ctx = PyCtx(timeout)
        self.ctx.assume(pi_c > z3.RealVal("3.1415926"), pi_c < z3.RealVal("3.1415927"))
        self.prefix, self.trace, self.alts = list(prefix), [], []
        self.modules = {}
        self.contracts = contracts or {}       # qualified name -> callable(interp, args, kwargs) standing for the callee
        self.used = set()
        self.counters = []                     # iteration counters of the loops under way
        self.trail = []                        # undo log
        self.loops = []                        # records of loops under way
        self.ratios = {}
        self.steps = 0
        self.depth = 0
        self.calls = []                        # recorded calls of external routines
        self.memo_fn = {}
        self.name_sizes = False  # products of sizes get names (np.named)
        self.lists = {}
        self.selections = []                   # selections by a mask, in order

    # --------------------------------------------------------------------------------- fresh symbols
    def sym(self, name, sort):
        """fresh value, a function of the iterations under way"""
        if not self.counters:
            return fresh(name, sort)
        return freshfn(name, *[I] * len(self.counters), sort)(*self.counters)

    def symfn(self, name, *sorts):
        if not self.counters:
            f = freshfn(name, *sorts)
            return lambda *a: f(*a)
        f = freshfn(name, *[I] * len(self.counters), *sorts)
        cs = list(self.counters)
        return lambda *a: f(*cs, *a)

    def assume(self, *fs):
        self.ctx.assume(*[f for f in fs])

    def forall(self, dims, fn):
        self.ctx.quant(dims, fn)

    # ------------------------------------------------------------------------------------- decisions
    def choose(self, n, feasible=None):
        """m-way choice"""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            opts = [i for i in range(n) if feasible is None or feasible(i)]
            if not opts:
                raise Infeasible()
            c = opts[0]
            for o in opts[1:]:
                self.alts.append(self.trace + [o])
        self.trace.append(c)
        return c

    def decide(self, cond):
        """truth of a condition on this path"""
        if isinstance(cond, bool):
            return cond
        cond = norm(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = norm(z3.Not(cond))

        def feas(i):
            # option 0: true, option 1: false
            return not self.ctx.quick(neg if i == 0 else cond, 2500)
        k = len(self.trace)
        known = k < len(self.prefix)
        if not known:
            if not feas(1):
                self.trace.append(0)        # forced
                self.assume(cond)
                return True
        c = self.choose(2, feas)
        if c == 0:
            self.assume(cond)
        else:
            self.assume(neg)
        return c == 0

    def truth(self, v):
        if is_z(v):
            if v.sort() == B:
                return self.decide(v)
            return self.decide(v != 0)
        if isinstance(v, self.np.NDArr):
            return self.decide(self.np.scalar_of(self, v, truth=True))
        if isinstance(v, self.np.Quantified):
            return v.decide(self)
        if isinstance(v, (Obj, PyClass, PyFunc, Bound, Module, NoOp)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, Text):
            raise Unsupported("truth of a text")
        if isinstance(v, SymIter):
            return self.decide(num(v.n) != 0)
        return bool(v)

    # ------------------------------------------------------------------------------------------- undo
    def log(self, undo):
        self.trail.append(undo)

    def undo_to(self, n):
        while len(self.trail) > n:
            self.trail.pop()()

    def set_key(self, d, k, v, tag=None):
        """d[k] = v for the dictionaries of frames and objects"""
        old = d.get(k, UNBOUND)

        def back(d=d, k=k, old=old):
            if old is UNBOUND:
                d.pop(k, None)
            else:
                d[k] = old
        self.log(back)
        for r in self.loops:
            r.assigned(d, k, old)
        d[k] = v

    def born(self, x):
        """remembers when a list was made"""
        self.lists[id(x)] = (x, next(_serial))
        return x

    def opaque_effect(self, what, obj=None):
        """a mutation of an object which the loop rule cannot describe"""
        for r in self.loops:
            r.effect(what, obj)

    # ----------------------------------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.np.external(self, name)
        if m is not None:
            self.modules[name] = m
            return m
        tree = self.world.tree(name)
        if tree is None:
            raise Unsupported(f"module {name}")
        m = self.modules[name] = Module(name, {})
        m.ns["__name__"] = name
        fr = Frame(m)
        fr.vars = m.ns
        body = tree.body
        if name == PKG + ".utils.tomo_config":
            body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call))]
        for s in body:
            try:
                self.stmt(s, fr)
            except Unsupported as x:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.ns[n.id] = Opaque(f"{n.id}: {x}")
        return m

    def import_name(self, fr, node):
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name.split(".")[0]
                m = self.module(a.name if a.asname else top)
                if "." in a.name:
                    self.module(a.name)
                self.set_key(fr.vars, a.asname or top, m)
            return
        base = node.module or ""
        if node.level:
            parts = fr.module.name.split(".")
            is_pkg = os.path.basename(self.world.path(fr.module.name)) == "__init__.py"
            parts = parts[: len(parts) - node.level + (1 if is_pkg else 0)]
            base = ".".join(parts + ([base] if base else []))
        if base == "__future__":
            return
        for a in node.names:
            if a.name == "*":
                m = self.module(base)
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.set_key(fr.vars, k, v)
                continue
            v = UNBOUND
            if base == PKG + ".cpp_routines" and a.name == "libtomo":
                v = self.module(base + ".libtomo")
            else:
                m = self.module(base)
                v = self.module_attr(m, a.name)
                if v is UNBOUND:
                    v = self.module(base + "." + a.name)
            self.set_key(fr.vars, a.asname or a.name, v)

    def module_attr(self, m, name):
        if isinstance(m, NoOp):
            return m
        if name in m.ns:
            return m.ns[name]
        if name == "__getattr__":
            return UNBOUND
        g = m.ns.get("__getattr__")
        if callable(g):
            v = g(name)
            if v is not None:
                return v
        if m.name == PKG + ".utils.tomo_config":
            lt = self.module(PKG + ".cpp_routines.libtomo")
            if name in ("kick_and_drift", "reconstruct", "make_phase_space"):
                return self.module_attr(lt, name)
            return self.module_attr(self.module("numpy"), name)
        if m.name.startswith(PKG) and self.world.tree(m.name + "." + name) is not None:
            return self.module(m.name + "." + name)
        return UNBOUND

    # -------------------------------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
        return m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        self.import_name(fr, s)

    def s_ImportFrom(self, s, fr):
        self.import_name(fr, s)

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_FunctionDef(self, s, fr):
        f = PyFunc(s, fr.module, fr if fr.fn is not None else None, fr.cls)
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, fr) for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s, fr)
        self.set_key(fr.vars, s.name, v)

    def decorate(self, d, v, s, fr):
        name = ast.unparse(d)
        if name == "property":
            return Prop(v)
        if name.endswith(".setter"):
            old = fr.vars.get(s.name)
            return Prop(old.get if isinstance(old, Prop) else None, v)
        if name == "classmethod":
            return ClassM(v)
        if name == "staticmethod":
            return StaticM(v)
        if name in ("abstractmethod", "abc.abstractmethod"):
            return v
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "dispatch":
            tys = [self.ev(a, fr) for a in d.args]
            old = fr.vars.get(s.name)
            mu = Multi(s.name)
            mu.cases = list(old.cases) if isinstance(old, Multi) else []
            mu.cases.append((tys, v))
            return mu
        raise Unsupported(f"decorator {name}")

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases if not isinstance(b, (NoOp, Opaque))]
        if bases and all(isinstance(b, type) and issubclass(b, BaseException) for b in bases):
            self.set_key(fr.vars, s.name, type(s.name, tuple(bases), {}))
            return
        cls = PyClass(s.name, [b for b in bases if b is not object], {}, fr.module)
        cf = Frame(fr.module, cls=s.name)
        cf.parent = fr if fr.fn is not None else None
        cf.vars = cls.ns
        for st in s.body:
            self.stmt(st, cf)
        for v in list(cls.ns.values()):
            for f in (v, getattr(v, "fn", None), getattr(v, "get", None), getattr(v, "set", None)):
                if isinstance(f, PyFunc):
                    f.owner = cls
        self.set_key(fr.vars, s.name, cls)

    def s_If(self, s, fr):
        t = s.test
        if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING":
            return
        self.block(s.body if self.truth(self.ev(t, fr)) else s.orelse, fr)

    def s_Return(self, s, fr):
        raise Return(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = self.lookup("__current_exception__", fr)
            raise PyRaise(e)
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise Unsupported("raise of a value that is not an exception")
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, fr)
                        ty = ty if isinstance(ty, tuple) else (ty,)
                        ok = isinstance(p.exc, tuple(t for t in ty if isinstance(t, type)))
                    if ok:
                        self.set_key(fr.vars, "__current_exception__", p.exc)
                        if h.name:
                            self.set_key(fr.vars, h.name, p.exc)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            import sys
            e = sys.exc_info()[1]
            if e is None or isinstance(e, (PyRaise, Signal)):
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        raise Unsupported("with statement")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_key(fr.vars, t.id, UNBOUND)
            else:
                raise Unsupported("del")

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign(t, self.aug(op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(cur, self.np.NDArr):
            r = self.binop(op, cur, v)
            if r.dtype == "f" and cur.dtype == "i":
                raise PyRaise(TypeError("cannot cast in place"))
            self.np.assign(self, cur, (Ellipsis,), r)
            return cur
        if isinstance(cur, list) and op is ast.Add:
            self.opaque_effect("list", cur)
            n = len(cur)
            self.log(lambda: cur.__delitem__(slice(n, None)))
            cur += list(v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_key(fr.vars, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, len(t.elts))
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError("unpacking"))
            for a, b in zip(t.elts, vs):
                self.assign(a, b, fr)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def items(self, v, n=None):
        """elements of a sequence of known length"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, self.np.NDArr):
            d = v.shape[0]
            if is_z(d):
                if n is not None and self.decide(d == n):
                    d = n
                else:
                    raise Unsupported("iteration over an array of symbolic length")
            return [self.getitem(v, i) for i in range(d)]
        if isinstance(v, SymIter):
            d = norm(num(v.n))
            if is_num(d):
                return [v.get(z3.IntVal(i)) for i in range(int(numval(d)))]
            if n is not None and self.decide(d == n):
                return [v.get(z3.IntVal(i)) for i in range(n)]
        if isinstance(v, Rng):
            lo, hi = norm(num(v.lo)), norm(num(v.hi))
            if is_num(lo) and is_num(hi):
                return list(range(int(numval(lo)), int(numval(hi)), v.step))
        raise Unsupported(f"elements of {type(v).__name__}")

    # --------------------------------------------------------------------------------------------- loops
    def s_While(self, s, fr):
        n = 0
        while True:
            t = self.ev(s.test, fr)
            if is_z(t) or isinstance(t, self.np.NDArr):
                raise Unsupported(f"while loop with a symbolic condition (line {s.lineno})")
            if not self.truth(t):
                break
            n += 1
            if n > self.MAX_UNROLL:
                raise Unsupported("unbounded loop")
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
        self.block(s.orelse, fr)

    def sequence(self, v):
        """(number of items or None, get) of an iterable"""
        if isinstance(v, Rng):
            lo, hi = norm(num(v.lo)), norm(num(v.hi))
            if is_num(lo) and is_num(hi):
                return list(range(int(numval(lo)), int(numval(hi)), v.step))
            if v.step == 1:
                return SymIter(norm(hi - lo), lambda i: norm(lo + i))
            if v.step == -1:
                return SymIter(norm(lo - hi), lambda i: norm(lo - i))
            raise Unsupported("range with a step")
        if isinstance(v, self.np.NDArr):
            d = norm(num(v.shape[0]))
            if is_num(d):
                return [self.getitem(v, i) for i in range(int(numval(d)))]
            return SymIter(d, lambda i: self.getitem(v, i))
        if isinstance(v, SymIter):
            if is_num(norm(num(v.n))):
                return self.items(v)
            return v
        if isinstance(v, (list, tuple, range, dict)):
            return list(v)
        if isinstance(v, str) and not isinstance(v, Text):
            return list(v)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def s_For(self, s, fr):
        v = self.sequence(self.ev(s.iter, fr))
        if isinstance(v, list):
            for x in v:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except Break:
                    return
                except Continue:
                    pass
            self.block(s.orelse, fr)
            return
        import pyloop
        pyloop.symbolic_for(self, s, v, fr)

    # --------------------------------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} (line {getattr(e, 'lineno', '?')})")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return lit(e.value)

    def e_JoinedStr(self, e, fr):
        return Text("text")

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars and f.vars[name] is not UNBOUND:
                return f.vars[name]
            f = f.parent
        ns = fr.module.ns
        if name in ns and ns[name] is not UNBOUND:
            return ns[name]
        if name in self.np.BUILTINS:
            return self.np.BUILTINS[name]
        if name == "super":
            return ("super", fr)
        if fr.module.name == PKG + ".utils.tomo_config" and name == "globals":
            raise Unsupported("globals()")
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        raise PyRaise(NameError(name))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e, fr))

    def e_List(self, e, fr):
        return self.born(list(self.elts(e, fr)))

    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_ListComp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        out = []
        seq = self.sequence(self.ev(g.iter, fr))
        if isinstance(seq, SymIter):
            if g.ifs:
                raise Unsupported("filtered comprehension of symbolic length")
            def get(i):
                f2 = Frame(fr.module, fr.fn, fr, fr.cls, fr.self_)
                self.assign(g.target, seq.get(i), f2)
                return self.ev(e.elt, f2)
            return SymIter(seq.n, get)
        for x in seq:
            f2 = Frame(fr.module, fr.fn, fr, fr.cls, fr.self_)
            self.assign(g.target, x, f2)
            if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                out.append(self.ev(e.elt, f2))
        return self.born(out)

    e_GeneratorExp = e_ListComp

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, self.np.Quantified):
                return v.negate()
            if is_z(v) and v.sort() == B:
                return norm(z3.Not(v))
            return not self.truth(v)
        return self.unop(type(e.op), v)

    def unop(self, op, v):
        if isinstance(v, self.np.NDArr):
            return self.np.map1(self, lambda x: self.unop(op, x), v, dtype="b" if op is ast.Invert and v.dtype == "b" else v.dtype)
        if op is ast.USub:
            return norm(-self.arith(v)) if is_z(v) else -v
        if op is ast.UAdd:
            return v
        if op is ast.Invert:
            if is_z(v) and v.sort() == B:
                return norm(z3.Not(v))
            if isinstance(v, bool):
                return not v
        raise Unsupported(f"unary {op.__name__}")

    @staticmethod
    def arith(v):
        return to_int(v) if v.sort() == B else v

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        NDArr = self.np.NDArr
        if isinstance(a, (list, tuple)) and isinstance(b, NDArr) or isinstance(b, (list, tuple)) and isinstance(a, NDArr):
            a, b = [self.np.asarray(self, x) for x in (a, b)]
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return self.np.broadcast(self, lambda x, y: self.binop(op, x, y), a, b, op)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, Text) or isinstance(b, Text):
                return Text("text")
            if op is ast.Add and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op is ast.Mod:
                return Text("text")
        if isinstance(a, (list, tuple)) and isinstance(b, type(a)) and op is ast.Add:
            return a + b
        if isinstance(a, (list, tuple)) and op is ast.Mult and isinstance(b, int):
            return a * b
        if not (is_number(a) and is_number(b)):
            if a is None or b is None:
                raise PyRaise(TypeError("unsupported operand"))
            raise Unsupported(f"operation on {type(a).__name__} and {type(b).__name__}")
        a, b = lit(a), lit(b)
        if not is_z(a) and not is_z(b):
            return self.concrete(op, a, b)
        x, y = num(a), num(b)
        if x.sort() == B and y.sort() == B and op in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Mult):
            return norm({ast.BitAnd: z3.And, ast.Mult: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](x, y))
        x, y = coerce(x, y)
        if x.sort() == B:
            x, y = to_int(x), to_int(y)
        if op is ast.Add:
            return norm(x + y)
        if op is ast.Sub:
            return norm(x - y)
        if op is ast.Mult:
            return norm(x * y)
        if op is ast.Div:
            r = norm(to_real(x) / to_real(y))
            if x.sort() == I:
                self.ratios[r.get_id()] = (x, y, r)
            return r
        if op is ast.FloorDiv:
            if x.sort() == I:
                if not self.decide(y > 0):
                    raise Unsupported("floor division by a number that may not be positive")
                return mk_div(norm(x), norm(y))
            return to_real(self.floor(norm(x / y)))
        if op is ast.Mod:
            if x.sort() == I:
                if not self.decide(y > 0):
                    if self.decide(y == 0):
                        raise PyRaise(ZeroDivisionError())
                    raise Unsupported("remainder of a division by a negative number")
                return mk_mod(norm(x), norm(y))
            return norm(x - y * to_real(self.floor(norm(x / y))))
        if op is ast.Pow:
            if is_num(norm(y)):
                n = numval(norm(y))
                if n.denominator == 1 and 0 <= n <= 8:
                    r = z3.RealVal(1) if x.sort() == R else z3.IntVal(1)
                    for _ in range(int(n)):
                        r = r * x
                    return norm(r)
                if n.denominator == 1 and -4 <= n < 0:
                    r = z3.RealVal(1)
                    for _ in range(int(-n)):
                        r = r * to_real(x)
                    return norm(1 / r)
                if n == Fraction(1, 2):
                    return sqrt_f(norm(to_real(x)))
            raise Unsupported("power")
        raise Unsupported(f"operator {op.__name__}")

    @staticmethod
    def concrete(op, a, b):
        try:
            r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                 ast.Div: lambda: Fraction(a) / Fraction(b), ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                 ast.Pow: lambda: Fraction(a) ** b if isinstance(b, int) and b < 0 else a ** b,
                 ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                 ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[op]()
        except ZeroDivisionError:
            raise PyRaise(ZeroDivisionError())
        return lit(r)

    def floor(self, x):
        """largest integer <= x, as an integer term"""
        x = norm(num(x))
        if x.sort() == I:
            return x
        if is_num(x):
            v = numval(x)
            return z3.IntVal(v.numerator // v.denominator)
        q = self.ratio(x)
        if q is not None and self.ctx.quick(q[1] > 0):
            return self.ctx.simp(mk_div(norm(q[0]), norm(q[1])))
        y = self.ctx.cancel(x)
        if not y.eq(x):
            return self.floor(y)
        from term import as_int, poly, unpoly
        i = as_int(x)
        if i is not None:
            return norm(i)
        # integer-valued summands move out of the floor
        p = poly(x)
        whole, rest = {}, {}
        for m, c in p.items():
            t = as_int(unpoly({m: Fraction(1)}, R)) if c.denominator == 1 else None
            (whole if t is not None else rest)[m] = c
        if whole and rest:
            w = as_int(unpoly(whole, R))
            if w is not None:
                return norm(w + self.floor(unpoly(rest, R)))
        return floor_f(x)

    def ratio(self, x):
        """(numerator, denominator) of a quotient of integers"""
        q = self.ratios.get(x.get_id())
        if q is not None:
            return q
        from term import as_int
        den, top = None, {}
        for m, c in poly(x).items():
            r = [a for a in m if a.decl().eq(recip_f)]
            if len(r) != 1 or c.denominator != 1 or den is not None and not r[0].eq(den):
                return None
            den = r[0]
            top[_minus(m, (den,))] = c
        if den is None:
            return None
        a, b = as_int(unpoly(top, R)), as_int(den.arg(0))
        return None if a is None or b is None else (a, b, x)

    def trunc(self, x):
        x = norm(num(x))
        if x.sort() != R:
            return to_int(x)
        y = self.ctx.cancel(x)
        if not y.eq(x) and self.ratio(x) is None:
            return self.trunc(y)
        q = self.ratio(x)
        if q is not None and self.ctx.quick(And(q[0] >= 0, q[1] > 0)):
            return self.floor(x)
        if self.ctx.quick(x >= 0):
            return self.floor(x)
        if self.ctx.quick(x <= 0):
            return norm(-self.floor(norm(-x)))
        return ite(x >= 0, self.floor(x), norm(-self.floor(norm(-x))))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.compare(type(op), left, right)
            if res is None:
                res = r
            else:
                if not self.truth(res):
                    return res
                res = r
            left = right
        return res

    def compare(self, op, a, b):
        NDArr = self.np.NDArr
        if op in (ast.Is, ast.IsNot):
            r = self.same(a, b)
            return r if op is ast.Is else (norm(z3.Not(r)) if is_z(r) else not r)
        if op in (ast.In, ast.NotIn):
            if isinstance(b, Text) or isinstance(a, Text):
                raise Unsupported("membership in a text")
            if isinstance(b, str):
                r = a in b
            elif isinstance(b, dict):
                r = a in b
            elif isinstance(b, (list, tuple)):
                r = False
                for x in b:
                    t = self.compare(ast.Eq, a, x)
                    if self.truth(t):
                        r = True
                        break
            else:
                raise Unsupported(f"membership in {type(b).__name__}")
            return r if op is ast.In else not r
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            if a is None or b is None:
                raise Unsupported("comparison of an array with None")
            return self.np.broadcast(self, lambda x, y: self.compare(op, x, y), a, b, op, dtype="b")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in (ast.Eq, ast.NotEq):
            if len(a) != len(b):
                r = False
            else:
                r = And(*[num(self.compare(ast.Eq, x, y)) for x, y in zip(a, b)])
                r = norm(r)
            if op is ast.NotEq:
                return norm(z3.Not(r)) if is_z(r) else not r
            return r
        if is_number(a) and is_number(b):
            a, b = lit(a), lit(b)
            if not is_z(a) and not is_z(b):
                return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
            x, y = num(a), num(b)
            if x.sort() == B and y.sort() == B:
                if op is ast.Eq:
                    return norm(x == y)
                if op is ast.NotEq:
                    return norm(x != y)
            x, y = coerce(x, y)
            if x.sort() == B:
                x, y = to_int(x), to_int(y)
            return norm({ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                         ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[op]())
        if op in (ast.Eq, ast.NotEq):
            for v in (a, b):
                if isinstance(v, (Opaque, Text, self.np.SymStr)):
                    if isinstance(a, self.np.SymStr) and isinstance(b, str) or isinstance(b, self.np.SymStr) and isinstance(a, str):
                        r = self.np.str_eq(self, a, b)
                        return r if op is ast.Eq else norm(z3.Not(r))
                    raise Unsupported(f"comparison of {type(v).__name__}")
            if isinstance(a, (Obj, PyClass)) or isinstance(b, (Obj, PyClass)):
                r = a is b
            else:
                r = a == b
            return r if op is ast.Eq else not r
        if a is None or b is None:
            raise PyRaise(TypeError("comparison with None"))
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                return y is None
            if x is True or x is False:
                if is_z(y) and y.sort() == B:
                    return y if x else norm(z3.Not(y))
                return x is y
        if is_z(a) or is_z(b):
            raise Unsupported("identity of numbers")
        return a is b

    # ---------------------------------------------------------------------------------------- subscripts
    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def pyindex(self, i):
        if is_z(i):
            v = norm(i)
            if is_num(v) and v.sort() == I:
                return int(numval(v))
            raise Unsupported("symbolic index into a Python sequence")
        if isinstance(i, Fraction):
            raise PyRaise(TypeError("indices must be integers"))
        return i

    def getitem(self, o, k):
        if isinstance(o, self.np.NDArr):
            return self.np.getitem(self, o, k)
        if isinstance(o, (list, tuple, str)):
            if isinstance(o, Text):
                return o
            try:
                if isinstance(k, slice):
                    return o[slice(*[None if x is None else self.pyindex(x) for x in (k.start, k.stop, k.step)])]
                return o[self.pyindex(k)]
            except IndexError as x:
                raise PyRaise(x)
        if isinstance(o, dict):
            if k not in o:
                raise PyRaise(KeyError(k))
            return o[k]
        if isinstance(o, SymIter):
            if isinstance(k, slice):
                raise Unsupported("slice of a symbolic sequence")
            i = self.np.norm_index(self, k, o.n)
            return o.get(i)
        if isinstance(o, (NoOp, Opaque)) or isinstance(o, PyClass):
            return o                            # generic aliases in annotations
        if is_number(o):
            raise PyRaise(TypeError("not subscriptable"))
        if o is None:
            raise PyRaise(TypeError("None is not subscriptable"))
        if isinstance(o, Obj):
            f = self.method(o, "__getitem__")
            if f is not None:
                return self.call(f, [k], {})
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, self.np.NDArr):
            return self.np.assign(self, o, k if isinstance(k, tuple) else (k,), v)
        if isinstance(o, list):
            k = self.pyindex(k)
            if not -len(o) <= k < len(o):
                raise PyRaise(IndexError())
            old = o[k]
            self.opaque_effect("list item", o)
            self.log(lambda: o.__setitem__(k, old))
            o[k] = v
            return
        if isinstance(o, dict):
            self.set_key(o, k, v)
            return
        raise Unsupported(f"item assignment to {type(o).__name__}")

    # ---------------------------------------------------------------------------------------- attributes
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls:
            return f"_{fr.cls}{name}"
        return name

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def has(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as p:
            if isinstance(p.exc, AttributeError):
                return False
            raise

    def method(self, o, name):
        v, _ = o.cls.find(name) if o.cls is not None else (None, None)
        return Bound(v, o) if isinstance(v, PyFunc) else None

    def getattr(self, o, name):
        if isinstance(o, Obj):
            v, c = o.cls.find(name) if o.cls is not None else (None, None)
            if isinstance(v, Prop):
                if v.get is None:
                    raise PyRaise(AttributeError(name))
                return self.call(v.get, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if v is None and c is None:
                if name == "__class__":
                    return o.cls
                raise PyRaise(AttributeError(name))
            return self.bind(v, o, o.cls)
        if isinstance(o, Module):
            v = self.module_attr(o, name)
            if v is UNBOUND:
                raise PyRaise(AttributeError(f"{o.name}.{name}"))
            return v
        if isinstance(o, PyClass):
            v, c = o.find(name)
            if c is None:
                if name == "__name__":
                    return o.name
                raise PyRaise(AttributeError(name))
            if isinstance(v, ClassM):
                return Bound(v.fn, o)
            if isinstance(v, StaticM):
                return v.fn
            return v
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.get, [o.obj], {})
                    return self.bind(v, o.obj, c)
            if name in ("__init__", "__init_subclass__"):
                return lambda it, a, k: None
            raise PyRaise(AttributeError(name))
        if isinstance(o, NoOp):
            return o
        if isinstance(o, Opaque):
            raise Unsupported(f"attribute {name} of {o!r}")
        return self.np.attr(self, o, name)

    def bind(self, v, o, cls):
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, (PyFunc, Multi)):
            return Bound(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, _ = o.cls.find(name) if o.cls is not None else (None, None)
            if isinstance(p, Prop):
                if p.set is None:
                    raise PyRaise(AttributeError(f"can't set attribute {name}"))
                self.call(p.set, [o, v], {})
                return
            self.set_key(o.attrs, name, v)
            return
        if isinstance(o, PyClass):
            self.set_key(o.ns, name, v)
            return
        if isinstance(o, NoOp):
            return
        raise Unsupported(f"attribute assignment to {type(o).__name__}")

    # --------------------------------------------------------------------------------------------- calls
    def e_Lambda(self, e, fr):
        f = PyFunc(e, fr.module, fr, fr.cls)
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if isinstance(f, NoOp):
            return f
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "super":
            fn = f[1].fn
            owner = getattr(fn, "owner", None)
            if owner is None:
                raise Unsupported("super()")
            return Super(f[1].self_, owner)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                args += self.items(v)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                kw.update(v)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, PyFunc):
            return self.call_fn(f, args, kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Multi):
            return self.dispatch(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a for a in args if isinstance(a, str)])
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if isinstance(f, NoOp):
            return f
        if isinstance(f, self.np.DType):
            return self.np.cast_scalar(self, f, *args)
        if isinstance(f, Opaque):
            raise Unsupported(f"call of {f!r}")
        if isinstance(f, Obj):
            m = self.method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
            raise PyRaise(TypeError("not callable"))
        if callable(f):
            try:
                return f(self, list(args), dict(kw))
            except TypeError as x:
                if os.environ.get("DV_DEBUG"):
                    raise
                raise Unsupported(f"external call: {x}")
        raise PyRaise(TypeError(f"{type(f).__name__} is not callable"))

    def instantiate(self, cls, args, kw):
        for c in cls.mro():
            for n, v in c.ns.items():
                pass
        o = Obj(cls)
        init, c = cls.find("__init__")
        if isinstance(init, PyFunc):
            self.call_fn(init, [o] + list(args), kw)
        return o

    def is_type(self, v, t):
        np_ = self.np
        if isinstance(t, (tuple, list)):
            return any(self.is_type(v, x) for x in t)
        if isinstance(t, PyClass):
            return isinstance(v, Obj) and v.cls is not None and t in v.cls.mro()
        if isinstance(t, type) and issubclass(t, BaseException):
            return isinstance(v, t)
        if isinstance(t, np_.DType):
            if t.name == "number":
                return is_number(v)
            if t.name in ("float", "float64"):
                return isinstance(v, (float, Fraction)) or is_z(v) and v.sort() == R
            if t.name in ("int", "int32", "int64"):
                return isinstance(v, int) or is_z(v) and v.sort() == I
            if t.name == "bool":
                return isinstance(v, bool) or is_z(v) and v.sort() == B
            if t.name == "ndarray":
                return isinstance(v, np_.NDArr)
            if t.name == "sequence":
                return isinstance(v, (list, tuple, str, np_.SymStr, SymIter))
            if t.name == "str":
                return isinstance(v, (str, np_.SymStr))
            if t.name in ("list", "tuple", "dict"):
                return isinstance(v, dict(list=(list, SymIter), tuple=tuple, dict=dict)[t.name])
        raise Unsupported(f"isinstance of {t!r}")

    def dispatch(self, f, args, kw):
        for tys, fn in f.cases:
            if len(tys) == len(args) and all(self.is_type(a, t) for a, t in zip(args, tys)):
                return self.call(fn, args, kw)
        raise PyRaise(NotImplementedError(f.name))

    def call_fn(self, f, args, kw):
        q = f.qual
        if q in self.contracts and self.contracts[q] is not None:
            self.used.add(q)
            c = self.contracts[q]
            return c(self, f, args, kw)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            fr = Frame(f.module, f, f.closure, f.cls)
            self.bind_args(f, args, kw, fr)
            if args:
                fr.self_ = args[0]
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError(f"{f.name}() takes {len(names)} positional arguments"))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in vals:
                if n in kw:
                    raise PyRaise(TypeError(f"{f.name}() got multiple values for argument {n}"))
                continue
            if n in kw:
                vals[n] = kw.pop(n)
            elif i >= len(names) - nd:
                vals[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise PyRaise(TypeError(f"{f.name}() missing argument {n}"))
        for x, d, node in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif node is not None:
                vals[x.arg] = d
            else:
                raise PyRaise(TypeError(f"missing keyword argument {x.arg}"))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise(TypeError(f"{f.name}() got an unexpected keyword argument {sorted(kw)[0]}"))
        fr.vars.update(vals)

    # --------------------------------------------------------------------------- helpers of the contracts
    def get(self, dotted):
        """module attribute, e.g. tracking.machine:Machine"""
        m, n = dotted.split(":")
        v = self.module(PKG + "." + m)
        for p in n.split("."):
            v = self.getattr(v, p)
        return v

    def product(self, a, b):
        """lemma: a >= 1 and b >= 1 imply a*b >= a and a*b >= b"""
        if not (self.ctx.prove(norm(a >= 1)) and self.ctx.prove(norm(b >= 1))):
            raise Unsupported("lemma on products")
        self.assume(norm(a * b) >= a, norm(a * b) >= b)

    def new(self, dotted, **attrs):
        """an object of a class of the package with the given attributes (constructor not run)"""
        return Obj(self.get(dotted), **attrs)

    def const(self, name, sort=R):
        return z3.Const(name, sort)

    def array(self, name, shape, dtype="f"):
        return self.np.symbolic(self, name, shape, dtype)


# -------------------------------------------------------------------------------------------- contracts
class PyContract:
    """setup(it) -> (callable, args, kwargs) or a thunk; post(it, outcome) states obligations.

    name      label of the function under contract
    classes   obligation class
    """
    name = None
    file = None
    cls = "post"
    max_paths = 400
    contracts = {}

    def __init__(self):
        self.name = self.name or type(self).__name__

    def setup(self, it):
        raise NotImplementedError

    def post(self, it, out):
        raise NotImplementedError


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value      # "return" | "raise"

    @property
    def ok(self):
        return self.kind == "return"

    def raised(self, name):
        return self.kind == "raise" and any(c.__name__ == name for c in type(self.value).__mro__)


def _age(x):
    """number of an array generation, or None"""
    n = x.decl().name()
    return int(n.rsplit("!", 1)[1]) if n.startswith("cell!") else None


def rewritten(ctx, g):
    """the goal with integer variables that are known replaced, and array cells by what the known equations say
    they are (equations are used from younger to older generations of an array, so this ends)"""
    def parts(f):
        if z3.is_and(f):
            return [y for x in f.children() for y in parts(x)]
        return [f]

    def solved(f, xs):
        if not z3.is_eq(f) or f.arg(0).sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            return None
        s = f.arg(0) - f.arg(1)
        have = walk(norm(s))
        for x in xs:
            if x.get_id() not in have:
                continue
            for r in (norm(x - s), norm(x + s)):
                if x.get_id() in walk(r):
                    continue
                if x.num_args() == 0:
                    return x, r
                old = [_age(y) for y in walk(r).values() if z3.is_app(y) and _age(y) is not None]
                if all(a < _age(x) for a in old):
                    return x, r
        return None
    for _ in range(12):
        xs = [x for x in walk(g).values() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        ints = [x for x in xs if x.num_args() == 0 and x.sort_kind() == z3.Z3_INT_SORT]
        hit = None
        for h in ctx.hyps[-6:]:
            for f in parts(h):
                hit = hit or solved(f, ints)
        if not hit:
            cells = [x for x in xs if x.num_args() and _age(x) is not None]
            for f in ctx._instances([g]):
                if z3.is_implies(f):
                    todo = parts(f.arg(1))
                else:
                    todo = parts(f)
                for y in todo:
                    r = solved(y, cells)
                    if r and (not z3.is_implies(f) or ctx.quick(f.arg(0))):
                        hit = r
                        break
                if hit:
                    break
        if not hit:
            break
        g = ctx.simp(norm(z3.substitute(g, hit))) if not z3.is_bool(g) else norm(z3.substitute(g, hit))
    return g


class Checker:
    """obligations of one path"""

    def __init__(self, it, fname, obls):
        self.it, self.fname, self.obls = it, fname, obls
        self.limit = OBL_LIMIT

    def ob(self, text, goal, kind="post", cls="post"):
        ctx = self.it.ctx
        t0 = time.time()
        g = z3.BoolVal(goal) if isinstance(goal, bool) else norm(goal)
        ctx.stop = t0 + (10 if z3.is_false(g) else self.limit)
        try:
            ok = z3.is_true(g) or ctx.prove(g)
            if not ok and any(z3.is_app(x) and x.decl().eq(recip_f) for x in walk(g).values()):
                g2 = ctx.cancel(g)
                ok = not g2.eq(g) and (z3.is_true(g2) or ctx.prove(g2))
            if not ok and not z3.is_false(g):
                g2 = rewritten(ctx, g)
                ok = not g2.eq(g) and (z3.is_true(g2) or ctx.prove(g2))
        finally:
            ctx.stop = None
        o = Obligation(self.fname, kind, text, ok, time.time() - t0, cls)
        if not ok:
            o.goal, o.hyps = short(g, 1500), [short(h, 300) for h in ctx.hyps]
            if os.environ.get("DV_DEBUG"):
                print("GOAL", self.fname, text, "\n  ", g, "\n   HYPS", ctx.hyps, "\n  QUANTS", [q.body for q in ctx.foralls if isinstance(q, Quant)])
        self.obls.append(o)
        return ok

    def shape(self, text, arr, dims):
        if not isinstance(arr, self.it.np.NDArr):
            self.ob(f"{text}: is an array", False)
            return False
        if len(arr.shape) != len(dims):
            self.ob(f"{text}: number of dimensions", False)
            return False
        return self.ob(f"{text}: shape", And(*[num(a) == num(b) for a, b in zip(arr.shape, dims)]))

    def elements(self, text, arr, dims, fn, check_shape=True):
        """arr has the given shape and element fn(i, j, ...) at every index"""
        if check_shape and not self.shape(text, arr, dims):
            return False
        ix = [fresh("J") for _ in dims]
        ctx = self.it.ctx
        with ctx.scope(*[And(i >= 0, i < num(n)) for i, n in zip(ix, dims)]):
            a = num(arr.get(*ix))
            b = num(lit(fn(*ix)))
            a, b = coerce(a, b)
            if a.sort() == R:
                a, b = self.it.ctx.simp(a), self.it.ctx.simp(b)
            return self.ob(text, a == b)

    def every(self, text, dims, fn):
        ix = [fresh("J") for _ in dims]
        ctx = self.it.ctx
        with ctx.scope(*[And(i >= 0, i < num(n)) for i, n in zip(ix, dims)]):
            return self.ob(text, fn(*ix))

    def equal(self, text, a, b):
        a, b = lit(a), lit(b)
        if is_number(a) and is_number(b):
            x, y = coerce(num(a), num(b))
            return self.ob(text, x == y)
        return self.ob(text, a is b or (type(a) is type(b) and a == b))


def run_contract(world, c, deadline=None, stop_at_first=False):
    """explores all paths; returns the obligations"""
    obls, todo, paths, kinds = [], [[]], 0, {}
    used, labels = set(), set()
    while todo:
        prefix = todo.pop()
        if deadline and time.time() > deadline:
            raise Unsupported("time limit")
        paths += 1
        if paths > c.max_paths:
            raise Unsupported("too many paths")
        it = Interp(world, prefix, c.contracts)
        ch = Checker(it, c.name, obls)
        it.checker = ch
        try:
            thunk = c.setup(it)
            try:
                out = Outcome("return", thunk())
            except PyRaise as p:
                out = Outcome("raise", p.exc)
            except (Break, Continue, Return):
                raise Unsupported("control flow")
            if out.kind == "raise" and isinstance(out.value, (NameError, UnboundLocalError)) and os.environ.get("DV_DEBUG"):
                print("name error:", out.value)
            kinds[out.kind if out.ok else type(out.value).__name__] = kinds.get(out.kind if out.ok else type(out.value).__name__, 0) + 1
            ch.fname = c.name + ("" if out.ok else f" [{type(out.value).__name__}]")
            if os.environ.get("DV_PATHS"):
                print("PATH", it.trace, out.kind, out.value if not out.ok else "", [short(h, 100) for h in it.ctx.hyps][-3:])
            c.post(it, ch, out)
        except Infeasible:
            pass
        used |= it.used
        todo += it.alts
    expect = getattr(c, "outcomes", ("return",))
    for k in expect:
        obls.append(Obligation(c.name, "vacuity", f"some input leads to the outcome: {k}", kinds.get(k, 0) > 0, 0.0, "vacuity"))
    return obls, paths, used


def verify_py(repo, u, budget=400, deadline=None):
    import importlib
    from cfront import run_jobs
    m, a = u["spec"].split(":")
    cs = [c() for c in getattr(importlib.import_module(m), a)]
    cs = [c for c in cs if u["names"] is None or c.name in u["names"]]
    world = World(repo)

    def job(c):
        def go():
            import sys
            sys.setrecursionlimit(20000)
            t0 = time.time()
            try:
                obls, paths, used = run_contract(world, c, t0 + budget - 5)
            except Unsupported as x:
                return dict(status="unsupported", reason=str(x)[:300], obls=[], secs=time.time() - t0, inlined=set(), by_contract=set())
            return dict(status="ok" if all(o.ok for o in obls) else "failed", reason=f"{paths} paths", obls=obls, secs=time.time() - t0,
                        inlined=set(), by_contract=set())
        return go
    res = run_jobs([job(c) for c in cs], budget)
    out = {}
    for c, r in zip(cs, res):
        r = r or dict(status="unsupported", reason="no answer (time limit)", obls=[], secs=budget, inlined=set(), by_contract=set())
        r["path"] = c.file
        out[c.name] = r
    return out
