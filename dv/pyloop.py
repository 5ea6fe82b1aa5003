"""Loops over a symbolic number of iterations.

The body is executed for a generic iteration t (0 <= t < n), on every path.  Before it, every array that the body
writes holds, in the cells that earlier iterations wrote, unknown contents H; every variable that the body assigns
is unknown.  Supported effects, checked on all paths:
  keyed       one index of every write is  +t + c  or  -t + c  with c constant in the loop: a cell is written by one
              iteration only, so that H is what that iteration stored: H(cell of k) = value(k) for all k < n;
  accumulate  the new contents are the old ones plus a term that does not depend on them: a sum over the iterations;
  scalars     accumulated (old + term), or assigned before they are used.
Anything else is outside of the subset.  The loop completes (all iterations on normal paths), or some iteration t,
after t normal ones, leaves it (return, raise, break); both outcomes are explored."""
import re

import z3

from pyfront import (UNBOUND, Break, Continue, Infeasible, Opaque, PyRaise, Quant, Return, Signal, is_number, is_z)
from term import And, B, I, R, Unsupported, _serial, as_int, contains, fresh, freshfn, is_num, ite, norm, num, to_real, walk
import term as _t

SORTS = {"f": R, "i": I, "b": B, "c": R}


class LoopVar(Opaque):
    pass


class Record:
    def __init__(self, serial):
        self.serial, self.vars, self.bufs, self.plan = serial, {}, {}, None

    def assigned(self, d, k, old):
        if getattr(d, "serial", 0) <= self.serial:
            self.vars.setdefault((id(d), k), (d, k, old))

    def effect(self, what, obj):
        if obj is not None and id(obj) in self.it.lists and self.it.lists[id(obj)][0] is obj and self.it.lists[id(obj)][1] > self.serial:
            return
        if getattr(obj, "serial", 0) > self.serial:
            return
        raise Unsupported(f"{what} of an object from outside of the loop is modified in a loop")

    def written(self, buf, keys, old):
        if buf.serial <= self.serial:
            self.bufs.setdefault(id(buf), (buf, []))[1].append(keys)
            self.last = buf

    def stored(self, it, buf, keys):
        """the only write of a cell: what it stores gets the name of the contents after the loop"""
        p = self.plan.bufs.get(id(buf)) if self.plan is not None else None
        if p is None or not p.get("named") or any(k is None for k in keys):
            return
        keys = [norm(num(k)) for k in keys]
        new = buf.fn
        h = p["H"](*keys)
        it.assume(h == num(new(*keys)))
        old = p["unwritten"]

        def fn(*cell):
            cell = [norm(num(c)) for c in cell]
            cond = norm(And(*[c == k for c, k in zip(cell, keys)]))
            if z3.is_true(cond):
                return h
            if z3.is_false(cond):
                return old(*cell)
            return ite(cond, h, old(*cell))
        buf.fn = fn


class PathResult:
    pass


def newer(term, mark):
    """mentions a symbol made after the mark"""
    for x in walk(term).values():
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r"!(\d+)$", x.decl().name())
            if m and int(m.group(1)) >= mark:
                return True
    return False


def key_of(keyss, t, mark):
    """(dimension, sign, offset) such that every write has index sign*t + offset there"""
    nd = len(keyss[0])
    for d in range(nd):
        found = None
        for ks in keyss:
            k = ks[d]
            if k is None:
                found = None
                break
            k = norm(num(k))
            for sg in (1, -1):
                off = norm(k - sg * t)
                if not contains(off, t) and not newer(off, mark):
                    break
            else:
                found = None
                break
            if found is not None and not (found[1] == sg and found[2].eq(off)):
                found = None
                break
            found = (d, sg, off)
        if found is not None:
            return found
    return None


class Plan:
    """what is known about the effects of the loop"""

    def __init__(self):
        self.bufs = {}       # id -> dict(buf, mode, key, H, before)
        self.vars = {}       # (id, k) -> dict(d, k, old, X)


def generic(p, cell):
    return p["H"](*cell)


def content(it, p, t):
    """contents of a buffer before iteration t"""
    before, H = p["before"], p["H"]
    if p["mode"] == "keyed":
        d, sg, off = p["key"]

        def fn(*cell):
            cell = [norm(num(c)) for c in cell]
            tp = norm(sg * (cell[d] - off))
            cond = norm(tp < t)
            if z3.is_false(cond) or it.ctx.quick(norm(z3.Not(cond)), 600):
                return before(*cell)
            if it.ctx.quick(cond, 600):
                return H(*cell)
            return ite(cond, H(*cell), before(*cell))
        return fn
    return lambda *cell: H(*[norm(num(c)) for c in cell])


def explore(it, s, seq, fr, plan, t, n, serial):
    """all paths of the body for a generic iteration"""
    todo, out = [[]], []
    saved = (it.prefix, it.trace, it.alts)
    rec_all = Record(serial)
    rec_all.most = {}
    count = 0
    while todo:
        prefix = todo.pop()
        count += 1
        if count > 64:
            raise Unsupported("too many paths through a loop body")
        mark, h0, f0, c0, s0 = len(it.trail), len(it.ctx.hyps), len(it.ctx.foralls), len(it.calls), len(it.selections)
        it.prefix, it.trace, it.alts = list(prefix), [], []
        rec = Record(serial)
        rec.plan = plan
        rec.it = rec_all.it = it
        it.loops.append(rec)
        it.counters.append(t)
        r = PathResult()
        try:
            it.ctx.assume(t >= 0, t < n)
            for p in plan.bufs.values():
                b = p["buf"]
                it.log(lambda b=b, f=b.fn: setattr(b, "fn", f))
                b.fn = p["unwritten"] = content(it, p, t)
            for v in plan.vars.values():
                d, k, old = v["d"], v["k"], v["d"].get(v["k"], UNBOUND)

                def back(d=d, k=k, old=old):
                    if old is UNBOUND:
                        d.pop(k, None)
                    else:
                        d[k] = old
                it.log(back)
                d[k] = v["X"]
            r.kind = "normal"
            try:
                it.assign(s.target, seq.get(t), fr)
                it.block(s.body, fr)
            except Continue:
                pass
            except Break:
                r.kind = "break"
            except Return:
                r.kind = "return"
            except PyRaise:
                r.kind = "raise"
            except Infeasible:
                r.kind = None
            if r.kind is not None:
                r.pcs = [h for h in it.ctx.hyps[h0:] if not h.eq(norm(t >= 0)) and not h.eq(norm(t < n))]
                r.quants = [q for q in it.ctx.foralls[f0:] if isinstance(q, Quant)]
                r.vals, r.vars = {}, {}
                if r.kind == "normal":
                    for i, p in plan.bufs.items():
                        b = p["buf"]
                        g = [fresh("g") for _ in b.shape]
                        if p["mode"] == "keyed":
                            d, sg, off = p["key"]
                            g[d] = norm(sg * t + off)
                        with it.ctx.scope(*[And(x >= 0, x < num(m)) for x, m in zip(g, b.shape)]):
                            v = it.ctx.simp(num(b.fn(*g)))
                        r.vals[i] = (g, v)
                    for key, v in plan.vars.items():
                        r.vars[key] = v["d"].get(v["k"], UNBOUND)
                        x = r.vars[key]
                        if isinstance(x, it.np.NDArr):
                            gs = [fresh("g") for _ in x.shape]
                            with it.ctx.scope(*[And(y >= 0, y < num(m)) for y, m in zip(gs, x.shape)]):
                                r.vars[key] = ("array", [num(y) for y in x.shape], x.dtype, gs, num(x.get(*gs)))
                out.append(r)
        finally:
            it.undo_to(mark)
            del it.ctx.hyps[h0:]
            del it.ctx.foralls[f0:]
            del it.calls[c0:]
            del it.selections[s0:]
            alts = it.alts
            it.loops.pop()
            it.counters.pop()
        todo += alts
        for k, v in rec.vars.items():
            rec_all.vars.setdefault(k, v)
        for k, (b, ks) in rec.bufs.items():
            rec_all.most[k] = max(rec_all.most.get(k, 0), len(ks))
            rec_all.bufs.setdefault(k, (b, []))[1].extend(ks)
    it.prefix, it.trace, it.alts = saved
    return out, rec_all


def symbolic_for(it, s, seq, fr):
    n = norm(num(seq.n))
    if not it.decide(n > 0):
        it.block(s.orelse, fr)
        return
    saved = (it.prefix, it.trace, it.alts)
    try:
        plan, paths, t = summarise(it, s, seq, fr, n)
    except BaseException:
        it.prefix, it.trace, it.alts = saved
        raise
    exits = [r for r in paths if r.kind != "normal"]
    normal = [r for r in paths if r.kind == "normal"]
    opts = ([0] if normal else []) + ([1] if exits else [])
    if not opts:
        raise Infeasible()
    c = it.choose(2, lambda i: i in opts)
    if c == 0:
        facts(it, plan, normal, t, n)
        install(it, plan, normal, t, n)
        final_vars(it, s, seq, fr, plan, normal, t, n)
        it.block(s.orelse, fr)
        return
    te = it.sym("exit", I)
    it.assume(te >= 0, te < n)
    if normal:
        facts(it, plan, normal, t, te)
        install(it, plan, normal, t, te)
    else:
        it.assume(te == 0)
    for v in plan.vars.values():
        it.set_key(v["d"], v["k"], var_at(it, v, normal, t, te) if normal else v["old"])
    try:
        it.assign(s.target, seq.get(te), fr)
        it.block(s.body, fr)
    except Break:
        return
    except Continue:
        raise Infeasible()
    raise Infeasible()


def summarise(it, s, seq, fr, n):
    serial, mark = next(_serial), next(_t._fresh)
    t = fresh("t")
    plan = Plan()
    for _ in range(8):
        paths, rec = explore(it, s, seq, fr, plan, t, n, serial)
        changed = False
        for i, (b, keyss) in rec.bufs.items():
            key = key_of(keyss, t, mark)
            mode = "keyed" if key is not None else "sum"
            p = plan.bufs.get(i)
            if p is None or p["mode"] != mode or mode == "keyed" and not (p["key"][0] == key[0] and p["key"][1] == key[1] and p["key"][2].eq(key[2])):
                if mode == "sum":
                    f = freshfn("acc", *[I] * (len(it.counters) + 1 + len(b.shape)), SORTS[b.dtype])
                    H = (lambda *c, f=f: f(*it.counters[:], *c)) if False else (lambda *c, f=f, cs=list(it.counters) + [t]: f(*cs, *c))
                else:
                    f = freshfn("cell", *[I] * (len(it.counters) + len(b.shape)), SORTS[b.dtype])
                    H = lambda *c, f=f, cs=list(it.counters): f(*cs, *c)
                plan.bufs[i] = dict(buf=b, mode=mode, key=key, H=H, Hf=f, before=b.fn, keys=keyss)
                changed = True
            else:
                p["keys"] = keyss
        for k, (d, name, old) in rec.vars.items():
            if k not in plan.vars:
                if is_number(old) and not isinstance(old, bool):
                    srt = num(old).sort()
                    if srt == I and any(is_z(r.vars.get(k)) and r.vars[k].sort() == R for r in paths if r.kind == "normal"):
                        srt = R
                    f = freshfn("var", *[I] * (len(it.counters) + 1), srt)
                    X = f(*it.counters, t)
                else:
                    f, X = None, LoopVar(f"value of {name} from an earlier iteration")
                plan.vars[k] = dict(d=d, k=name, old=old, X=X, Xf=f)
                changed = True
        if changed:
            continue
        normal = [r for r in paths if r.kind == "normal"]
        check_plan(it, plan, normal, paths, t, n)
        for i, p in plan.bufs.items():
            if p["mode"] == "keyed" and not p["direct"] and not p.get("named") and rec.most.get(i) == 1 and all(k is not None for ks in p["keys"] for k in ks):
                p["named"] = changed = True
        if not changed:
            break
    else:
        raise Unsupported("effects of a loop")
    return plan, paths, t


def mentions(fs, decl):
    for f in fs:
        if is_z(f):
            for x in walk(f).values():
                if z3.is_app(x) and x.decl().eq(decl):
                    return True
    return False


def all_terms(r):
    out = list(r.pcs) + [q.body for q in r.quants] + [v for _, v in r.vals.values()]
    for v in r.vars.values():
        if is_z(v):
            out.append(v)
        elif isinstance(v, tuple) and v and v[0] == "array":
            out += v[1] + [v[4]]
    return out


def minus(v, h, gs):
    """v - h, where a branch under (cell == key) may speak of the contents at the key"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        diffs = [norm(e.arg(0) - e.arg(1)) for e in (c.children() if z3.is_and(c) else [c]) if z3.is_eq(e) and e.arg(0).sort() == I]
        same = lambda x, y: x.eq(y) or any(norm(x - y).eq(d) or norm(y - x).eq(d) for d in diffs)
        for x in list(walk(a).values()):
            if z3.is_app(x) and x.decl().eq(h.decl()) and not x.eq(h) and all(same(y, z) for y, z in zip(x.children(), h.children())) and \
                    all(y.eq(z) for y, z in zip(x.children()[:-len(gs)], h.children()[:-len(gs)])):
                a = norm(z3.substitute(a, (x, h)))
        return ite(c, minus(a, h, gs), minus(b, h, gs))
    return norm(v - h)


def check_plan(it, plan, normal, paths, t, n):
    for i, p in plan.bufs.items():
        if p["mode"] == "keyed":
            p["direct"] = not any(mentions(all_terms(r), p["Hf"]) for r in normal)
            continue
        # accumulation: contents = H + delta
        p["delta"] = []
        for r in normal:
            g, v = r.vals[i]
            if v.sort() == B:
                raise Unsupported("array written by several iterations")
            d = norm(v - p["H"](*g))
            if mentions([d], p["Hf"]):
                d = minus(v, p["H"](*g), g)
            if mentions([d], p["Hf"]):
                import os; os.environ.get("DV_DEBUG") and print("ACC", v, "\n", d)
                raise Unsupported("array written by several iterations (not an accumulation)")
            p["delta"].append((g, d))
        for r in paths:
            others = list(r.pcs) + [q.body for q in r.quants] + [v for k, (_, v) in r.vals.items() if k != i] + [v for v in r.vars.values() if is_z(v)]
            if mentions(others, p["Hf"]):
                raise Unsupported("an accumulated array is read in the loop")
    for k, v in plan.vars.items():
        v["mode"] = "temp"
        if v["Xf"] is None:
            continue
        used = any(mentions([x for x in all_terms(r)], v["Xf"]) for r in paths)
        if not used:
            continue
        v["mode"], v["delta"] = "sum", []
        for r in normal:
            x = r.vars[k]
            if not is_number(x):
                raise Unsupported(f"loop variable {v['k']}")
            d = norm(num(x) - v["X"]) if num(x).sort() == v["X"].sort() else norm(to_real(num(x)) - to_real(v["X"]))
            if mentions([d], v["Xf"]):
                raise Unsupported(f"loop variable {v['k']} is neither accumulated nor assigned first")
            v["delta"].append(d)
        # other uses of the accumulated variable see the closed form
        for r in paths:
            rest = list(r.pcs) + [q.body for q in r.quants] + [y for _, y in r.vals.values()] + [y for kk, y in r.vars.items() if kk != k and is_z(y)]
            if mentions(rest, v["Xf"]):
                v["closed"] = True
    for k, v in plan.vars.items():
        if v.get("closed"):
            if any(mentions([d], w["Xf"]) for d in v["delta"] for w in plan.vars.values() if w["Xf"] is not None):
                raise Unsupported(f"loop variable {v['k']}")
    for i, p in plan.bufs.items():
        if p["mode"] == "keyed" and p["direct"]:
            p["direct"] = not any(mentions(all_terms(r), v["Xf"]) for r in normal for v in plan.vars.values() if v.get("closed"))


def guard(r, t, k, ks=None):
    return norm(z3.substitute(And(*r.pcs), (t, k))) if r.pcs else z3.BoolVal(True)


def closed_vars(it, plan, normal, t, f):
    """replaces accumulated variables by their closed form, in a term over iteration t"""
    for v in plan.vars.values():
        if v.get("closed") and mentions([f], v["Xf"]):
            f = norm(z3.substitute(f, (v["X"], num(var_at(it, v, normal, t, t)))))
    return f


def facts(it, plan, normal, t, n):
    """what the first n iterations establish"""
    k = fresh("k")
    single = len(normal) == 1
    sub = lambda f: z3.substitute(f, (t, k))
    rng = And(k >= 0, k < n)
    clean = lambda f: closed_vars(it, plan, normal, t, f)
    if single:
        for h in normal[0].pcs:
            q = Quant([k], norm(z3.Implies(rng, sub(clean(h)))))
            it.ctx.foralls.append(q)
    else:
        it.ctx.foralls.append(Quant([k], norm(z3.Implies(rng, z3.Or(*[sub(clean(And(*r.pcs))) for r in normal])))))
    for p in plan.bufs.values():
        if p["mode"] == "keyed" and not p["direct"]:
            d, sg, off = p["key"]
            cell = [fresh("c") for _ in p["buf"].shape]
            tp = norm(sg * (cell[d] - off))
            h = And(*[And(c >= 0, c < num(m)) for c, m in zip(cell, p["buf"].shape)], z3.Or(tp < 0, tp >= n))
            with it.ctx.scope(h):
                body = it.ctx.simp(num(p["before"](*cell)))
            it.ctx.foralls.append(Quant(cell, norm(z3.Implies(h, p["H"](*cell) == body))))
    for r in normal:
        g = rng if single else And(rng, sub(clean(And(*r.pcs))))
        for q in r.quants:
            it.ctx.foralls.append(Quant(list(q.vs) + [k], norm(z3.Implies(g, sub(clean(q.body))))))
        for i, p in plan.bufs.items():
            if p["mode"] == "keyed" and not p["direct"]:
                gs, v = r.vals[i]
                d, sg, off = p["key"]
                vs = [x for j, x in enumerate(gs) if j != d]
                cell = [norm(sub(x)) for x in gs]
                dims = And(*[And(x >= 0, x < num(m)) for j, (x, m) in enumerate(zip(gs, p["buf"].shape)) if j != d])
                it.ctx.foralls.append(Quant(vs + [k], norm(z3.Implies(And(g, dims), p["H"](*cell) == sub(clean(v))))))


def install(it, plan, normal, t, n):
    """contents of the written arrays after n iterations"""
    for i, p in plan.bufs.items():
        b, before = p["buf"], p["before"]
        old = b.fn
        it.log(lambda b=b, old=old: setattr(b, "fn", old))
        for rec in it.loops:
            rec.written(b, [None if any(ks[d] is None or contains(norm(num(ks[d])), t) for ks in p["keys"]) or
                            any(not norm(num(ks[d])).eq(norm(num(p["keys"][0][d]))) for ks in p["keys"]) else norm(num(p["keys"][0][d]))
                            for d in range(len(b.shape))], old)
        if p["mode"] == "keyed":
            d, sg, off = p["key"]

            def fn(*cell, p=p, i=i, before=before, d=d, sg=sg, off=off):
                cell = [norm(num(c)) for c in cell]
                if not p["direct"]:
                    return p["H"](*cell)
                tp = norm(sg * (cell[d] - off))
                cond = norm(And(tp >= 0, tp < n))
                if z3.is_false(cond) or it.ctx.quick(norm(z3.Not(cond)), 800):
                    return before(*cell)
                val = None
                for r in reversed(normal):
                    gs, v = r.vals[i]
                    m = [(x, c) for j, (x, c) in enumerate(zip(gs, cell)) if j != d] + [(t, tp)]
                    w = norm(z3.substitute(v, *m))
                    val = w if val is None else ite(norm(z3.substitute(And(*r.pcs), (t, tp))), w, val)
                if it.ctx.quick(cond, 800):
                    return val
                return ite(cond, val, before(*cell))
        else:
            def fn(*cell, p=p, before=before, srt=SORTS[b.dtype]):
                cell = [norm(num(c)) for c in cell]

                def delta(k):
                    val = None
                    for r, (gs, dl) in reversed(list(zip(normal, p["delta"]))):
                        w = norm(z3.substitute(dl, *zip(gs, cell), (t, num(k))))
                        val = w if val is None else ite(norm(z3.substitute(And(*r.pcs), (t, num(k)))), w, val)
                    return val
                return norm(before(*cell) + it.ctx.sum(n, delta, sort=srt))
        b.fn = fn


def var_at(it, v, normal, t, m):
    """value of a variable after m iterations"""
    if v["mode"] != "sum":
        return LoopVar(f"value of {v['k']} from an earlier iteration")

    def delta(k):
        val = None
        for r, d in reversed(list(zip(normal, v["delta"]))):
            w = norm(z3.substitute(d, (t, num(k))))
            val = w if val is None else ite(norm(z3.substitute(And(*r.pcs), (t, num(k)))), w, val)
        return val
    srt = v["X"].sort()
    return norm(num(v["old"], srt if srt == R else None) + it.ctx.sum(m, delta, sort=srt))


def final_vars(it, s, seq, fr, plan, normal, t, n):
    last = norm(n - 1)
    for k, v in plan.vars.items():
        if v["mode"] == "sum":
            it.set_key(v["d"], v["k"], var_at(it, v, normal, t, n))
            continue
        vals = [r.vars[k] for r in normal]
        x = vals[0]
        new = None
        if len(vals) == 1 or all(type(a) is type(x) and (a.eq(x) if is_z(a) else a is x) for a in vals):
            if isinstance(x, tuple) and x and x[0] == "array":
                _, sh, dt, gs, el = x
                new = it.np.make([norm(z3.substitute(y, (t, last))) for y in sh], dt,
                                 lambda *ix, gs=gs, el=el: norm(z3.substitute(el, *zip(gs, [num(y) for y in ix]), (t, last))))
            elif is_z(x):
                new = norm(z3.substitute(closed_vars(it, plan, normal, t, x), (t, last)))
            elif x is UNBOUND or isinstance(x, (int, float, str, type(None))) or is_number(x):
                new = x
            else:
                new = Opaque(f"value of {v['k']} after a loop")
        elif all(is_number(a) for a in vals):
            val = None
            for r, a in reversed(list(zip(normal, vals))):
                w = norm(z3.substitute(closed_vars(it, plan, normal, t, num(a)), (t, last)))
                val = w if val is None else ite(guard(r, t, last), w, val)
            new = val
        else:
            new = Opaque(f"value of {v['k']} after a loop")
        it.set_key(v["d"], v["k"], new)
    # the loop target keeps its last value
    it.assign(s.target, seq.get(last), fr)
