"""Symbolic state, contracts and the loop rule shared by the C++ and the Python front end.

Loop rule (no bound, no unrolling): for a loop with modified locations M
  1. the body is executed once from a state in which every location of M holds an
     arbitrary value (ghost iteration number kappa);
  2. a closed form C_m(kappa) is *guessed* for every m in M from the result (counter, sum,
     maximum, scatter, set-once flag, or a recurrence named by the contract);
  3. the guess is *verified*: C_m(0) is the value on entry, and executing the real body from
     the state C(kappa), 0 <= kappa < N, gives C(kappa + 1).  All safety obligations of the body
     are generated in this run.  Step 2 is untrusted.
  4. N is the number of iterations, verified against the loop condition.
"""
import itertools
import os
import time

import z3

from term import (And, B, Ctx, I, R, Unsupported, boolish, coerce, contains, contains_any, fresh, freshfn,
                  ite, is_num, lift_ite, mk_fold, norm, num, numval, poly, split_ite, to_int, to_real, unpoly,
                  walk, conjuncts, _map_leaves)

_rid = itertools.count()


class Arr:
    """Contents of a region: closure with a cache keyed by index and hypotheses."""

    def __init__(self, ctx, fn, sort, nd=1):
        self.ctx, self.fn, self.sort, self.nd = ctx, fn, sort, nd
        self.cache = {}

    def __call__(self, *idx):
        idx = tuple(norm(num(i)) for i in idx)
        key = (tuple(i.get_id() for i in idx), self.ctx.hkey(), len(self.ctx.foralls))
        hit = None if self.ctx.raw else self.cache.get(key)
        if hit is None:
            v = self.fn(*idx)
            v = num(v, self.sort if self.sort == R else None)
            if self.sort == R:
                v = to_real(v)
            if self.ctx.raw:
                return norm(v)
            hit = (self.ctx.simp(v), idx, list(self.ctx.hyps))
            self.cache[key] = hit
        return hit[0]


class Region:
    def __init__(self, name, sort, dims, heap=False):
        self.name, self.sort, self.dims, self.heap = name, sort, [num(d) if d is not None else None for d in dims], heap
        self.id = next(_rid)

    @property
    def nd(self):
        return len(self.dims)

    def __repr__(self):
        return f"<{self.name}>"


class Ptr:
    def __init__(self, region, rows=(), off=None):
        self.region, self.rows, self.off = region, tuple(rows), z3.IntVal(0) if off is None else off

    def __repr__(self):
        return f"Ptr({self.region.name},{self.rows},{self.off})"


class Uninit:
    def __init__(self, sort):
        self.sort = sort


class State:
    def __init__(self):
        self.vars, self.mem, self.alive, self.pc, self.foralls = {}, {}, {}, [], []

    def copy(self):
        s = State()
        s.vars, s.mem, s.alive = dict(self.vars), dict(self.mem), dict(self.alive)
        s.pc, s.foralls = list(self.pc), list(self.foralls)
        return s

    def assume(self, *fs):
        for f in fs:
            f = norm(f)
            if not z3.is_true(f):
                self.pc.append(f)

    def forall(self, n, fn, trig):
        self.foralls.append((next(_rid), num(n), fn, frozenset(trig)))


class Outcome:
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


OBL_LIMIT = float(os.environ.get("DV_OBL_LIMIT", "40"))      # seconds per obligation


class Obligation:
    def __init__(self, fn, kind, text, ok, secs, cls="post"):
        self.fn, self.kind, self.text, self.ok, self.secs, self.cls = fn, kind, text, ok, secs, cls

    def __repr__(self):
        return f"[{'ok' if self.ok else 'FAILED'}] {self.fn}: {self.kind}: {self.text} ({self.secs:.2f}s)"


def short(t, n=160):
    s = " ".join(str(t).split())
    return s if len(s) <= n else s[:n] + "..."


class Engine:
    def __init__(self, timeout=8000):
        self.ctx = Ctx(timeout)
        self.base_hyps, self.base_foralls = [], []
        self.obls = []
        self.quiet = 0
        self.shallow = 0
        self.writes = None          # set of keys while collecting the modified set
        self.accesses = None        # access log of the innermost enclosing parallel loop
        self.fname = "?"
        self.templates = []         # contract-supplied recurrences, see Template
        self.assumptions = set()
        self.deadline = None
        self.names = {}
        self.loop_stack = []
        self.atomic = False

    # ------------------------------------------------------------------ contexts
    def sync(self, st):
        self.ctx.hyps = self.base_hyps + st.pc
        self.ctx.foralls = self.base_foralls + st.foralls
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function used up")

    def oblige(self, st, goal, kind, text, cls="safety"):
        if self.quiet or self.shallow:
            return True
        self.sync(st)
        t0 = time.time()
        g = norm(goal)
        self.ctx.stop = t0 + (12 if z3.is_false(g) else OBL_LIMIT)
        ok = z3.is_true(g) or self.ctx.prove(g)
        self.ctx.stop = None
        self.obls.append(Obligation(self.fname, kind, text, ok, time.time() - t0, cls))
        if not ok:
            self.obls[-1].goal = short(g, 1500)
            self.obls[-1].hyps = [short(h, 300) for h in self.ctx.hyps]
            if os.environ.get("DV_DEBUG"):
                print("GOAL", self.fname, text, "\n  ", g, "\n   HYPS", self.ctx.hyps)
        return ok

    def quick(self, st, goal):
        if self.shallow:
            return False
        self.sync(st)
        return self.ctx.quick(goal)

    # ------------------------------------------------------------------- regions
    def arr(self, fn, sort, nd=1):
        return Arr(self.ctx, fn, sort, nd)

    def symbolic(self, st, name, sort, dims, heap=False, fresh_name=False):
        r = Region(name, sort, dims, heap)
        f = (freshfn if fresh_name else z3.Function)(name, *[I] * len(dims), sort)
        st.mem[r] = self.arr(lambda *i: f(*i), sort, len(dims))
        st.alive[r] = z3.BoolVal(True)
        r.fn = f
        return r

    def alloc(self, st, name, sort, n, zero):
        r = Region(name, sort, [n], heap=True)
        if zero:
            z = z3.RealVal(0) if sort == R else z3.IntVal(0) if sort == I else z3.BoolVal(False)
            st.mem[r] = self.arr(lambda i: z, sort)
        else:
            g = freshfn("uninit_" + name, I, sort)
            st.mem[r] = self.arr(lambda i: g(i), sort)
        st.alive[r] = z3.BoolVal(True)
        return r

    def read(self, st, r, idx, what="read"):
        self.access(st, r, idx, False)
        if self.shallow:
            return fresh("sh", r.sort)
        self.sync(st)
        return st.mem[r](*idx)

    def access(self, st, r, idx, write, bounds=True):
        if self.writes is not None and write:
            self.writes.add(("m", r))
        if self.shallow:
            return
        idx = [norm(num(i)) for i in idx]
        if bounds:
            cs = []
            for i, d in zip(idx, r.dims):
                if d is not None:
                    cs += [i >= 0, i < d]
            al = st.alive.get(r)
            if al is not None:
                cs.append(al)
            if not self.quiet:
                self.oblige(st, And(*cs), "bounds", f"{'write' if write else 'read'} {r.name}[{', '.join(short(i, 60) for i in idx)}]"
                            f" within {', '.join(short(d, 40) for d in r.dims if d is not None)}", "bounds")
        if self.accesses is not None and not self.quiet:
            self.accesses.append((r, tuple(idx), list(st.pc), write, list(self.loop_stack), self.atomic))

    def write(self, st, r, idx, val):
        self.access(st, r, idx, True)
        if self.shallow:
            return
        idx = tuple(norm(num(i)) for i in idx)
        old = st.mem[r]
        if r.sort == R:
            val = to_real(val)
        elif r.sort == I:
            val = to_int(val)
        else:
            val = boolish(val)

        def fn(*j):
            return ite(norm(And(*[a == b for a, b in zip(j, idx)])), val, old(*j))
        st.mem[r] = self.arr(fn, r.sort, r.nd)

    def set_content(self, st, r, fn):
        if self.writes is not None:
            self.writes.add(("m", r))
        if self.shallow:
            return
        st.mem[r] = self.arr(fn, r.sort, r.nd)

    def setvar(self, st, key, val):
        if self.writes is not None and key in st.vars:
            self.writes.add(("v", key))
        st.vars[key] = val

    # ------------------------------------------------------------------- merging
    def merge(self, c, s1, s2, base_len, base_fa):
        """State after `if c`: s1 (c holds) and s2 (c does not hold)."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = State()
        s.pc = s1.pc[:base_len]
        s.foralls = s1.foralls[:base_fa]
        for f in s1.pc[base_len:]:
            if not f.eq(norm(c)):
                s.assume(z3.Implies(c, f))
        for f in s2.pc[base_len:]:
            if not f.eq(norm(z3.Not(c))):
                s.assume(z3.Or(c, f))
        for (fid, n, fn, tr) in s1.foralls[base_fa:]:
            s.foralls.append((next(_rid), n, (lambda k, fn=fn: z3.Implies(c, fn(k))), tr))
        for (fid, n, fn, tr) in s2.foralls[base_fa:]:
            s.foralls.append((next(_rid), n, (lambda k, fn=fn: z3.Or(c, fn(k))), tr))
        for k in s1.vars:
            if k in s2.vars:
                s.vars[k] = self.merge_val(c, s1.vars[k], s2.vars[k])
        for r in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(r), s2.mem.get(r)
            if a is None or b is None or a is b:
                s.mem[r] = a if a is not None else b
            else:
                s.mem[r] = self.arr(self._merge_arr(c, a, b), r.sort, r.nd)
            x, y = s1.alive.get(r), s2.alive.get(r)
            if x is None or y is None:
                # allocated in one branch only: alive in the merged state only when that branch ran
                s.alive[r] = And(c, x) if y is None else And(z3.Not(c), y)
            else:
                s.alive[r] = ite(c, x, y)
        return s

    def _merge_arr(self, c, a, b):
        def fn(*j):
            with self.ctx.scope(c):
                x = a(*j)
            with self.ctx.scope(z3.Not(c)):
                y = b(*j)
            return ite(c, x, y)
        return fn

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                a, b = coerce(a, b)
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region and len(a.rows) == len(b.rows):
            return Ptr(a.region, [ite(c, x, y) for x, y in zip(a.rows, b.rows)], ite(c, a.off, b.off))
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            srt = a.sort if isinstance(a, Uninit) else b.sort
            x = fresh("uninit", srt) if isinstance(a, Uninit) else a
            y = fresh("uninit", srt) if isinstance(b, Uninit) else b
            return self.merge_val(c, x, y)
        m = self.merge_obj(c, a, b)
        if m is not NotImplemented:
            return m
        return Conflict(c, a, b)

    def merge_obj(self, c, a, b):
        return NotImplemented

    # -------------------------------------------------------------------- branch
    def branch(self, st, c, then, other):
        """Execute two alternatives; returns (normal state or None, outcomes)."""
        c = norm(boolish(c))
        if not self.shallow:
            self.sync(st)
            c = self.ctx.simp(c)
        bl, bf = len(st.pc), len(st.foralls)
        outs = []
        if z3.is_true(c):
            return then(st)
        if z3.is_false(c):
            return other(st)
        if not self.shallow:
            if self.quick(st, c):
                return then(st)
            if self.quick(st, z3.Not(c)):
                return other(st)
        s1 = st.copy()
        s1.assume(c)
        s2 = st.copy()
        s2.assume(z3.Not(c))
        n1, o1 = then(s1)
        n2, o2 = other(s2)
        return self.merge(c, n1, n2, bl, bf), o1 + o2

    # ---------------------------------------------------------------------- loops
    def get(self, st, key):
        if key[0] == "v":
            return st.vars.get(key[1])
        return st.mem[key[1]]

    def put(self, st, key, val):
        if key[0] == "v":
            st.vars[key[1]] = val
        else:
            st.mem[key[1]] = val

    def sortof(self, v):
        if isinstance(v, Uninit):
            return v.sort
        if isinstance(v, z3.ExprRef):
            return v.sort()
        return None

    def modified(self, st, iterate):
        """Locations existing on entry that the body may write (body executed without values)."""
        M = set()
        saved = self.writes
        for _ in range(6):
            self.writes = set()
            self.shallow += 1
            self.quiet += 1
            try:
                s = st.copy()
                for key in M:
                    if key[0] == "v":
                        v = s.vars.get(key[1])
                        srt = self.sortof(v)
                        if srt is not None:
                            s.vars[key[1]] = fresh("h", srt)
                        elif isinstance(v, Ptr):
                            s.vars[key[1]] = Ptr(v.region, v.rows, fresh("h"))
                        else:
                            s.vars[key[1]] = self.havoc_obj(s, v)
                iterate(s)
                W = {k for k in self.writes if (k[0] == "v" and k[1] in st.vars) or (k[0] == "m" and k[1] in st.mem)}
            finally:
                self.shallow -= 1
                self.quiet -= 1
                got, self.writes = self.writes, saved
            if self.writes is not None:
                self.writes |= got
            if W <= M:
                break
            M |= W
        return M

    def havoc_obj(self, st, v):
        raise Unsupported(f"loop modifies a variable of kind {type(v).__name__}")

    def run_loop(self, st, iterate, name, par=None):
        """iterate(state) -> (cond, state at the end of the iteration or None, outcomes).
        Returns (state after the loop or None, outcomes)."""
        M = self.modified(st, iterate)
        M = sorted(M, key=lambda k: (k[0], str(k[1])))
        if self.shallow:
            s = st.copy()
            for key in M:
                if key[0] == "v":
                    v = st.vars[key[1]]
                    srt = self.sortof(v)
                    s.vars[key[1]] = fresh("h", srt) if srt is not None else (
                        Ptr(v.region, v.rows, fresh("h")) if isinstance(v, Ptr) else self.havoc_obj(s, v))
            c, e, outs = iterate(s.copy())
            return s, [o for o in outs if o.kind in ("throw", "return")]
        sol = self.solve(st, iterate, M, name)
        kap = fresh("kap")
        # number of iterations
        S = self.at(st, M, sol, kap)
        S.assume(kap >= 0)
        self.sync(S)
        self.quiet += 1
        try:
            c, _, outs0 = iterate(S.copy())
        finally:
            self.quiet -= 1
        N = self.iterations(st, M, sol, iterate, kap, c, name)
        leaving = [o for o in outs0 if o.kind in ("throw", "return", "break")]
        # step 3: verify
        S = self.at(st, M, sol, kap)
        S.assume(kap >= 0, kap < N)
        nofact = self.no_exit_facts(st, leaving, kap, S) if leaving else None
        if nofact:
            for n_, fn_, tr_ in nofact(kap):
                S.forall(n_, fn_, tr_)
        saved_acc, saved_stack = self.accesses, self.loop_stack
        if par is not None and not self.quiet:
            self.accesses = []
            self.loop_stack = []
        self.loop_stack = self.loop_stack + [kap]
        try:
            c, E, outs = iterate(S)
            acc = self.accesses
        finally:
            self.accesses, self.loop_stack = saved_acc, saved_stack
        if saved_acc is not None and acc is not None and acc is not saved_acc:
            saved_acc.extend(acc)
        if not self.quiet:
            if E is not None:
                self.verify_closed(st, M, sol, kap, E, name, c)
            if par is not None:
                self.check_parallel(st, M, par, kap, acc, outs, name)
        outs = [o for o in outs if o.kind not in ("continue",)]
        brk = [o for o in outs if o.kind == "break"]
        other = [o for o in outs if o.kind != "break"]
        # normal exit
        F = self.at(st, M, sol, N)
        F.pc = list(st.pc)
        F.foralls = list(st.foralls)
        F.assume(N >= 0)
        if nofact:
            for n_, fn_, tr_ in nofact(N):
                F.forall(n_, fn_, tr_)
        if brk:
            F = self.merge_breaks(st, F, brk, name)
        return F, other

    def merge_breaks(self, st, F, brk, name):
        # leave through `break` at some iteration (kappa is the ghost witness) or run to completion
        for o in brk:
            b = fresh("broke", B)
            bl, bf = len(st.pc), len(st.foralls)
            o.state.pc.insert(bl, b)
            F.pc.insert(bl, norm(z3.Not(b)))
            F = self.merge(b, o.state, F, bl, bf)
        return F

    def no_exit_facts(self, st, leaving, kap, S):
        """forall t < k: the iteration t did not leave the loop."""
        nb = len(st.pc)
        gs = []
        for o in leaving:
            extra = [f for f in o.state.pc[nb:] if not f.eq(norm(kap >= 0)) and not f.eq(norm(kap < 0))]
            gs.append(And(*extra) if extra else z3.BoolVal(True))
        g = norm(z3.Or(*gs)) if len(gs) > 1 else gs[0]
        # private witnesses inside the guard cannot be negated pointwise
        tr = {x.decl().name() for x in walk(g).values() if z3.is_app(x) and x.num_args() > 0
              and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        frees = [x for x in walk(g).values() if z3.is_const(x) and x.decl().name().startswith("kap!") and not x.eq(kap)]
        if frees:
            raise Unsupported("exit from a nested loop")

        def facts(n):
            return [(n, lambda t: z3.Not(z3.substitute(g, (kap, t))), tr)]
        return facts

    def at(self, st, M, sol, k):
        s = st.copy()
        for key in M:
            s_val = sol[key](k)
            self.put(s, key, s_val)
        return s

    def solve(self, st, iterate, M, name):
        sol = {}
        init = {k: self.get(st, k) for k in M}
        kap = fresh("kap")
        for rnd in range(8):
            left = [k for k in M if k not in sol]
            if not left:
                return sol
            S = st.copy()
            S.assume(kap >= 0)
            hav = {}
            for key in M:
                if key in sol:
                    self.put(S, key, sol[key](kap))
                else:
                    self.put(S, key, self.havoc(init[key], key, hav))
            self.quiet += 1
            try:
                c, E, outs = iterate(S)
            finally:
                self.quiet -= 1
            if E is None:
                # the body never completes an iteration: nothing to iterate
                for key in left:
                    sol[key] = lambda k, v=init[key]: v
                return sol
            syms = {s.get_id() if isinstance(s, z3.ExprRef) else s.name() for s in hav.values()}
            progress = False
            for key in left:
                f = self.solve_one(st, key, init, hav, kap, S, E, sol, M, iterate)
                if f is not None:
                    sol[key] = f
                    progress = True
            if progress:
                continue
            for key in left:
                f = self.solve_template(st, key, init, hav, kap, S, E, sol, M)
                if f is not None:
                    sol[key] = f
                    progress = True
            if not progress:
                raise Unsupported(f"{name}: no closed form for " + ", ".join(str(self.names.get(k[1], k[1])) for k in left))
        raise Unsupported(f"{name}: closed forms did not stabilise")

    def havoc(self, v, key, hav):
        if key[0] == "v":
            srt = self.sortof(v)
            if srt is not None:
                x = fresh("hv", srt)
                hav[key] = x
                return x
            if isinstance(v, Ptr):
                x = fresh("hv")
                hav[key] = x
                return Ptr(v.region, v.rows, x)
            raise Unsupported(f"loop modifies {key[1]} of kind {type(v).__name__}")
        r = key[1]
        f = freshfn("hm_" + r.name, *[I] * r.nd, r.sort)
        hav[key] = f
        return self.arr(lambda *i: f(*i), r.sort, r.nd)

    def uses(self, t, hav, keys):
        """Which havoced locations occur in t (also inside fold bodies)."""
        from term import FOLD_BY_DECL, DEF_BY_DECL
        names, consts = set(), set()
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                nm = x.decl().name()
                names.add(nm)
                if nm in FOLD_BY_DECL:
                    st.append(FOLD_BY_DECL[nm].body)
                elif nm in DEF_BY_DECL:
                    st.append(DEF_BY_DECL[nm].body)
                st.extend(x.children())
        return [k for k in keys if (hav[k].decl().name() if isinstance(hav[k], z3.ExprRef) else hav[k].name()) in names]

    def solve_one(self, st, key, init, hav, kap, S, E, sol, M, iterate):
        left = [k for k in M if k in hav]
        sub = lambda t, k: z3.substitute(t, (kap, k))
        if key[0] == "v":
            v = self.get(E, key)
            x = hav[key]
            v0 = init[key]
            if isinstance(v, Conflict) or v is None:
                return None
            if isinstance(v, Ptr):
                if not isinstance(v0, Ptr) or v.region is not v0.region:
                    return None
                g = self.closed_scalar(norm(v.off), x, v0.off, hav, left, key, kap, S)
                return None if g is None else (lambda k: Ptr(v.region, v.rows, g(k)))
            if not isinstance(v, z3.ExprRef):
                return None
            if isinstance(v0, Uninit):
                v0 = fresh("uninit", v0.sort)
            if v.sort() != x.sort():
                return None
            return self.closed_scalar(norm(v), x, v0, hav, left, key, kap, S)
        # ---- region
        r = key[1]
        J = [fresh("J") for _ in range(r.nd)]
        E2 = E.copy()
        E2.pc = E2.pc + [norm(j >= 0) for j in J]
        self.sync(E2)
        a0 = init[key]
        eJ = self.get(E, key)(*J)
        h = hav[key](*J)
        if eJ.eq(h):
            return lambda k: a0
        if r.sort in (R, I):
            d = norm(self.leaf_diff(norm(lift_ite(eJ)), h, hav[key], J))
            if not self.uses(d, hav, left):
                def add(k):
                    def fn(*j):
                        return a0(*j) + self.ctx.sum(k, lambda t: z3.substitute(d, (kap, t), *zip(J, j)), sort=r.sort)
                    return self.arr(fn, r.sort, r.nd)
                return add
        # scatter
        leaves = split_ite(norm(lift_ite(eJ)) if r.sort != B else eJ)
        if r.sort == B:
            wc = norm(eJ != h)
        else:
            gs = [g for g, l in leaves if not l.eq(h)]
            wc = norm(z3.Or(*gs)) if len(gs) > 1 else norm(gs[0])
        if r.sort == B:
            f = self.flag_region(r, eJ, h, kap, J, a0, hav, left)
            if f is not None:
                return f
        f = self.touched_once(r, eJ, h, hav, key, left, kap, J, a0, wc)
        if f is not None:
            return f
        if self.uses(wc, hav, left):
            return None
        if not contains(wc, kap) and not self.uses(eJ if z3.is_true(wc) else self.under(wc, eJ), hav, left):
            # overwritten in every iteration
            val = eJ if z3.is_true(wc) else self.under(wc, eJ)

            def last(k):
                def fn(*j):
                    cond = self.ctx.simp(norm(And(num(k) > 0, z3.substitute(wc, *zip(J, j)))))
                    if z3.is_false(cond):
                        return a0(*j)
                    with self.ctx.scope(cond):
                        v = self.ctx.simp(z3.substitute(val, (kap, norm(num(k) - 1)), *zip(J, j)))
                    if z3.is_true(cond):
                        return v
                    with self.ctx.scope(z3.Not(cond)):
                        o = a0(*j)
                    return ite(cond, v, o)
                return self.arr(fn, r.sort, r.nd)
            return last
        if self.uses(self.under(wc, eJ), hav, [k for k in left if k != key]):
            return None
        # value written, with the earlier contents in place of the arbitrary ones
        S2 = st.copy()
        S2.assume(kap >= 0)
        for m in M:
            if m in sol:
                self.put(S2, m, sol[m](kap))
            elif m[0] == "m":
                self.put(S2, m, init[m])
            else:
                self.put(S2, m, self.get(S, m))
        self.quiet += 1
        try:
            c2, F, _ = iterate(S2)
        finally:
            self.quiet -= 1
        if F is None:
            return None
        F2 = F.copy()
        F2.assume(*[j >= 0 for j in J])
        F2.assume(wc)
        self.sync(F2)
        V = self.get(F, key)(*J)
        if self.uses(V, hav, [k for k in left if k[0] == "v"]):
            return None
        self.sync(E2)
        w = self.ctx.pin(kap, conjuncts(wc), And(kap >= 0, *[j >= 0 for j in J]))
        if w is None and not contains(V, kap) and not self.uses(self.under(wc, eJ), hav, left):
            def setonce(k):
                def fn(*j):
                    n = self.ctx.sum(k, lambda t: z3.If(z3.substitute(wc, (kap, t), *zip(J, j)), 1, 0), sort=I)
                    return ite(norm(n > 0), z3.substitute(V, *zip(J, j)), a0(*j))
                return self.arr(fn, r.sort, r.nd)
            return setonce
        if w is None:
            return None

        def scat(k):
            def fn(*j):
                ww = norm(z3.substitute(w, *zip(J, j)))
                cond = And(ww >= 0, ww < k, z3.substitute(wc, (kap, ww), *zip(J, j)))
                cond = self.ctx.simp(cond) if not z3.is_true(cond) else cond
                if z3.is_false(cond):
                    return a0(*j)
                with self.ctx.scope(cond):
                    v = self.ctx.simp(z3.substitute(V, (kap, ww), *zip(J, j)))
                if z3.is_true(cond):
                    return v
                with self.ctx.scope(z3.Not(cond)):
                    o = a0(*j)
                return ite(cond, v, o)
            return self.arr(fn, r.sort, r.nd)
        return scat

    def touched_once(self, r, eJ, h, hav, key, left, kap, J, a0, wc):
        """Every cell J is changed in at most one iteration w(J): there it goes from a0(J) to
        the body's result for a0(J)."""
        if self.uses(wc, hav, [k for k in left if k != key]):
            return None
        pure = [c for c in conjuncts(wc) if not self.uses(c, hav, left)]
        if pure and len(pure) < len(conjuncts(wc)):
            subs = []
            with self.ctx.scope(*pure):
                for x in walk(wc).values():
                    if z3.is_app(x) and x.num_args() and x.decl().eq(hav[key]) and not x.eq(h):
                        if self.ctx.quick(And(*[a == j for a, j in zip(x.children(), J)])):
                            subs.append((x, h))
            if subs:
                wc = norm(z3.substitute(wc, *subs))
        val = self.under(wc, eJ)
        val = norm(self.leaf_diff(norm(lift_ite(val)) if r.sort != B else val, None, hav[key], J, h))
        hole = fresh("cell", r.sort)
        v2 = z3.substitute(val, (h, hole))
        w2 = z3.substitute(wc, (h, hole))
        if self.uses(v2, hav, left) or self.uses(w2, hav, left):
            return None
        w = self.ctx.pin(kap, conjuncts(wc), And(kap >= 0, *[j >= 0 for j in J]))
        if w is None or contains(w, h):
            return None

        def scat(k):
            def fn(*j):
                old = a0(*j)
                ww = norm(z3.substitute(w, *zip(J, j)))
                at = lambda t: z3.substitute(t, (kap, ww), (hole, old), *zip(J, j))
                cond = self.ctx.simp(norm(And(ww >= 0, ww < k, at(w2))))
                if z3.is_false(cond):
                    return old
                with self.ctx.scope(cond):
                    v = self.ctx.simp(at(v2))
                return v if z3.is_true(cond) else ite(cond, v, old)
            return self.arr(fn, r.sort, r.nd)
        return scat

    def under(self, c, t):
        with self.ctx.scope(c):
            return self.ctx.simp(t)

    def leaf_diff(self, t, h, hf, J, repl=None):
        """t - h with h = hf(J); inside a branch that forces an index to equal J, hf(index) is hf(J)."""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            with self.ctx.scope(c):
                x = self.leaf_diff(a, h, hf, J, repl)
            with self.ctx.scope(z3.Not(c)):
                y = self.leaf_diff(b, h, hf, J, repl)
            return ite(c, x, y)
        subs = []
        cell = h if h is not None else repl
        for x in walk(t).values():
            if z3.is_app(x) and x.num_args() and x.decl().eq(hf) and not x.eq(cell):
                if self.ctx.quick(And(*[a == j for a, j in zip(x.children(), J)])):
                    subs.append((x, cell))
        if subs:
            t = norm(z3.substitute(t, *subs))
        return t if h is None else norm(t - h)

    def flag_region(self, r, eJ, h, kap, J, a0, hav, left):
        """Boolean cells that are only ever set to one constant: eJ == If(c, const, h)."""
        with self.ctx.scope(h):
            kt = norm(z3.simplify(z3.substitute(eJ, (h, z3.BoolVal(True)))))
        kf = norm(z3.simplify(z3.substitute(eJ, (h, z3.BoolVal(False)))))
        if z3.is_false(kf) and not self.uses(kt, hav, left):
            # h & kt : cleared when not kt
            def clear(k):
                def fn(*j):
                    n = self.ctx.sum(k, lambda t: z3.If(z3.Not(z3.substitute(kt, (kap, t), *zip(J, j))), 1, 0), sort=I)
                    return And(a0(*j), norm(n <= 0))
                return self.arr(fn, r.sort, r.nd)
            return clear
        if z3.is_true(kt) and not self.uses(kf, hav, left):
            def setit(k):
                def fn(*j):
                    n = self.ctx.sum(k, lambda t: z3.If(z3.substitute(kf, (kap, t), *zip(J, j)), 1, 0), sort=I)
                    return z3.Or(a0(*j), norm(n > 0))
                return self.arr(fn, r.sort, r.nd)
            return setit
        return None

    def closed_scalar(self, e, x, v0, hav, left, key, kap, S):
        sub = lambda t, k: z3.substitute(t, (kap, k))
        others = [k for k in left if k != key]
        if e.eq(x):
            return lambda k: v0
        if x.sort() in (I, R):
            d = norm(_map_leaves(norm(lift_ite(e)), lambda l: norm(l - x)))
            if not self.uses(d, hav, left):
                return lambda k: norm(v0 + self.ctx.sum(k, lambda t: sub(d, t), sort=x.sort()))
            # maximum
            if not self.uses(e, hav, others):
                lv = [l for _, l in split_ite(e) if not l.eq(x)]
                if len(lv) == 1 and not contains(lv[0], x):
                    m = lv[0]
                    self.sync(S)
                    if self.ctx.quick(e == z3.If(x < m, m, x)):
                        kk = fresh("k")
                        return lambda k: mk_fold("max", norm(num(k)), kk, sub(m, kk), v0)
                    if self.ctx.quick(e == z3.If(m < x, m, x)):
                        kk = fresh("k")
                        return lambda k: -mk_fold("max", norm(num(k)), kk, norm(-sub(m, kk)), norm(-v0))
        if not self.uses(e, hav, left):
            # overwritten in every iteration
            return lambda k: ite(norm(num(k) <= 0), v0, norm(sub(e, norm(num(k) - 1))))
        lv = split_ite(e)
        if len(lv) > 1 and not any(self.uses(c, hav, left) or contains(c, kap) for c, _ in lv) \
                and not any(self.uses(l, hav, left) for _, l in lv if not l.eq(x)):
            # kept or overwritten, depending on a loop-invariant condition
            e0 = norm(z3.substitute(e, (x, v0)))
            return lambda k: ite(norm(num(k) <= 0), v0, norm(sub(e0, norm(num(k) - 1))))
        if x.sort() == B and not self.uses(e, hav, others):
            kt = norm(z3.simplify(z3.substitute(e, (x, z3.BoolVal(True)))))
            kf = norm(z3.simplify(z3.substitute(e, (x, z3.BoolVal(False)))))
            if z3.is_true(kt):
                return lambda k: norm(z3.Or(v0, self.ctx.sum(k, lambda t: z3.If(sub(kf, t), 1, 0), sort=I) > 0))
            if z3.is_false(kf):
                return lambda k: norm(z3.And(v0, self.ctx.sum(k, lambda t: z3.If(sub(kt, t), 0, 1), sort=I) <= 0))
        return None

    def solve_template(self, st, key, init, hav, kap, S, E, sol, M):
        """Recurrences named by the contract (the invariant is still verified)."""
        for tp in self.templates:
            f = tp.match(self, st, key, init, kap, S, sol, M)
            if f is not None:
                return f
        return None

    def iterations(self, st, M, sol, iterate, kap, c, name):
        """N with: cond(kap) for 0 <= kap < N and not cond(N)."""
        s = st.copy()
        cands = []
        for g in conjuncts(norm(c)):
            for a in walk(g).values():
                if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_EQ, z3.Z3_OP_LT) and a.arg(0).sort() == I:
                    e = norm(a.arg(0) - a.arg(1))
                    for w in self.ctx._solve(e, kap):
                        # a: e <= 0 ; the boundary value and its successor
                        cands += [norm(w + 1), norm(w)]
        cands.append(z3.IntVal(0))
        for w in cands:
            if contains(w, kap):
                continue
            s1 = st.copy()
            self.sync(s1)
            N = w if self.ctx.quick(w >= 0) else z3.If(w > 0, w, z3.IntVal(0))
            s1.assume(kap >= 0, kap < N)
            self.sync(s1)
            if not self.ctx.quick(c):
                continue
            s2 = st.copy()
            s2.assume(N >= 0)
            self.sync(s2)
            cN = norm(z3.substitute(c, (kap, N)))
            if self.ctx.quick(z3.Not(cN)):
                return norm(N)
        raise Unsupported(f"{name}: number of iterations not found (condition {short(c)})")

    def verify_closed(self, st, M, sol, kap, E, name, c):
        for key in M:
            nm = self.names.get(key[1], str(key[1])) if key[0] == "v" else key[1].name
            v0 = self.get(st, key)
            if key[0] == "v":
                a, b = self.get(E, key), sol[key](norm(kap + 1))
                z = sol[key](z3.IntVal(0))
                if isinstance(a, Ptr):
                    a, b, z, v0 = a.off, b.off, z.off, v0.off
                if not isinstance(a, z3.ExprRef):
                    raise Unsupported(f"{name}: {nm} has no scalar value")
                if not isinstance(v0, Uninit):
                    self.check_inv(st, z == v0, f"{name}: {nm} on entry")
                self.check_inv(E, a == b, f"{name}: {nm} after one iteration")
            else:
                r = key[1]
                J = [fresh("J") for _ in range(r.nd)]
                rng = []
                for j, d in zip(J, r.dims):
                    rng.append(j >= 0)
                    if d is not None:
                        rng.append(j < d)
                s = st.copy()
                s.assume(*rng)
                self.sync(s)
                self.check_inv(s, sol[key](z3.IntVal(0))(*J) == v0(*J), f"{name}: {nm}[...] on entry")
                s = E.copy()
                s.assume(*rng)
                self.sync(s)
                x = self.get(E, key)(*J)
                y = sol[key](norm(kap + 1))(*J)
                self.check_inv(s, x == y, f"{name}: {nm}[...] after one iteration")

    def check_inv(self, st, goal, text):
        self.sync(st)
        t0 = time.time()
        g = norm(goal)
        ok = z3.is_true(g) or self.ctx.prove(g)
        self.obls.append(Obligation(self.fname, "invariant", text, ok, time.time() - t0, "inv"))
        if not ok:
            self.obls.pop()
            if os.environ.get("DV_DEBUG"):
                z3.set_param("smt.random_seed", 0)
                print("INV", text, g.sexpr()[:3000])
                for h in self.ctx.hyps:
                    print("   HYP", h.sexpr()[:300])
            raise Unsupported(f"loop invariant not inductive: {text}: {short(g, 400)}")

    # ----------------------------------------------------------------- parallelism
    def check_parallel(self, st, M, par, kap, acc, outs, name):
        """Bernstein conditions between two different iterations."""
        for o in outs:
            if o.kind in ("throw", "return", "break"):
                self.obls.append(Obligation(self.fname, "parallel", f"{name}: {o.kind} leaves the parallel loop", False, 0, "race"))
        for key in M:
            if key[0] == "v" and key[1] not in par["private"] and key[1] not in par["reduction"]:
                nmv = par["names"].get(key[1], key[1])
                self.obls.append(Obligation(self.fname, "race", f"{name}: iterations share the written variable {nmv}",
                                            False, 0, "race"))
        base = len(st.pc)
        # symbols private to an iteration: every fresh constant created since the loop started
        its = [kap] + list(par.get("inner", []))
        writes = [a for a in acc if a[3]]
        seen = set()
        for w in writes:
            for a in acc:
                if a[0] is not w[0] or (w[5] and a[5]):
                    continue
                # memory allocated inside of the iteration is private to it
                if w[0] not in st.mem:
                    continue
                kk = (tuple(i.get_id() for i in w[1]), tuple(i.get_id() for i in a[1]), a[3],
                      tuple(f.get_id() for f in w[2]), tuple(f.get_id() for f in a[2]))
                if kk in seen:
                    continue
                seen.add(kk)
                self._race_pair(st, base, kap, w, a, name, par)

    def _private_consts(self, terms, st):
        ks = {}
        known = {}
        for f in st.pc + self.base_hyps:
            walk(f, known)
        for t in terms:
            for x in walk(t).values():
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name() \
                        and x.get_id() not in known:
                    ks[x.get_id()] = x
        return list(ks.values())

    def _race_pair(self, st, base, kap, w, a, name, par):
        t0 = time.time()
        pw, pa = w[2][base:], a[2][base:]
        priv = self._private_consts(list(pa) + list(a[1]), st)
        ren = [(p, fresh("r_" + p.decl().name().split("!")[0], p.sort())) for p in priv]
        sub = lambda t: z3.substitute(t, *ren) if ren else t
        kap2 = sub(kap)
        s = st.copy()
        s.assume(kap >= 0, kap2 >= 0, *pw)
        s.assume(*[sub(f) for f in pa])
        s.assume(*[norm(x == sub(y)) for x, y in zip(w[1], a[1])])
        dist = [kap != kap2]
        for d in range(1, par.get("collapse", 1)):
            if d < len(w[4]) and d < len(a[4]):
                dist.append(w[4][d] != sub(a[4][d]))
        s.assume(z3.Or(*dist) if len(dist) > 1 else dist[0])
        self.sync(s)
        ok = self.ctx.prove(z3.BoolVal(False))
        self.obls.append(Obligation(self.fname, "race", f"{name}: {w[0].name}[{', '.join(short(i, 60) for i in w[1])}] written in one iteration is not "
                                    f"{'written' if a[3] else 'read'} in another ({', '.join(short(i, 60) for i in a[1])})",
                                    ok, time.time() - t0, "race"))


class Conflict:
    """Different kinds of values on two paths; only an error when used."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Template:
    """A family of spec functions F(T, i...) a contract offers as loop invariants for regions:
    region content at iteration kappa == fn(T(kappa)) where T is one of the integer locations of
    the loop (shifted by -1, 0, +1) or kappa itself."""

    def __init__(self, region, fn, scalar=None):
        self.region, self.fn = region, fn

    def match(self, eng, st, key, init, kap, S, sol, M):
        if key[0] != "m" or key[1] is not self.region:
            return None
        r = key[1]
        cands = [lambda k: k]
        for m in M:
            if m[0] == "v" and m in sol and isinstance(init[m], z3.ExprRef) and init[m].sort() == I:
                cands.append(sol[m])
        J = [fresh("J") for _ in range(r.nd)]
        s = st.copy()
        for j, d in zip(J, r.dims):
            s.assume(j >= 0)
            if d is not None:
                s.assume(j < d)
        for cnd in cands:
            for sh in (0, 1, -1):
                eng.sync(s)
                T0 = norm(cnd(z3.IntVal(0)) + sh)
                if eng.ctx.prove(init[key](*J) == self.fn(T0)(*J)):
                    return lambda k, cnd=cnd, sh=sh: eng.arr(self.fn(norm(cnd(k) + sh)), r.sort, r.nd)
        return None
