"""C++ front end: verification conditions from the clang AST of the real source.

The executor walks the AST that clang builds for the file that is compiled into libtomo; no
source text is rewritten or copied by hand.  What the extraction drops (all listed in the
evidence as assumptions): rounding and NaN/Inf (float/double are mathematical reals), int
overflow, output to std::cout, and vdt::fast_sin is the mathematical sine (uninterpreted).
"""
import os
import sys
import re

import z3

from cload import Unit
from sym import (Conflict, Engine, Obligation, Outcome, Ptr, Region, State, Uninit, short)
from term import (And, B, I, R, Unsupported, as_int, boolish, coerce, dv_f, fresh, freshfn, ite, is_num, md_f, mk_div,
                  mk_mod, norm, num, numval, sin_f, cos_f, sqrt_f, floor_f, to_int, to_real, walk)

CB = "callback"


class Dead(Exception):
    """The current path has ended (all alternatives threw)."""


class Lambda:
    def __init__(self, node, captured, refs, this=None):
        self.node, self.captured, self.refs = node, captured, refs


class Callback:
    """An arbitrary callable supplied by the user: each call is recorded in the ghost trace and
    may throw."""


class Ref:
    def __init__(self, lv):
        self.lv = lv


class Stream:
    pass


class PtrTable:
    """new T*[n]: array of pointers into regions (row table)."""

    def __init__(self, region):
        self.region = region


def strip(n):
    """Skip wrappers that do not change the value."""
    while n.get("kind") in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr",
                            "CXXBindTemporaryExpr", "FullExpr", "SubstNonTypeTemplateParmExpr") or (
            n.get("kind", "").endswith("CastExpr") and n.get("castKind") in (
                "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion") and len(inner(n)) == 1):
        n = inner(n)[-1]
    return n


def inner(n):
    return [c for c in n.get("inner", ()) if c.get("kind") is not None and not c["kind"].endswith("Comment")]


def qtype(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


def clean(t):
    return re.sub(r"\b(const|volatile|register|restrict|__restrict)\b", "", t).replace("&", "").strip()


_INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
         "long long", "unsigned long long", "signed char", "size_t", "ssize_t"}


def sort_of(t):
    t = clean(t)
    if t in ("double", "float", "long double"):
        return R
    if t == "bool":
        return B
    if t in _INTS:
        return I
    return None


def int_sort(t):
    s = sort_of(t)
    return I if s is None else s


EXC = {"std::runtime_error": ["std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"],
       "std::logic_error": ["std::exception"], "std::invalid_argument": ["std::logic_error", "std::exception"],
       "std::exception": [], "std::range_error": ["std::runtime_error", "std::exception"],
       "std::bad_alloc": ["std::exception"], CB: ["std::exception"]}


class CFront(Engine):
    def __init__(self, unit, timeout=8000):
        super().__init__(timeout)
        self.unit = unit
        self.fns = unit.functions()
        self.by_decl = {f["id"]: f for fs in self.fns.values() for f in fs}
        self.contracts = {}         # name -> Contract usable at call sites
        self.pending = []
        self.depth = 0
        self.nested = {}
        self.inlined = set()
        self.by_contract = set()
        self.names = {}
        self.src = open(unit.path, "rb").read()
        self.cur_exc = []

    # ------------------------------------------------------------------ statements
    # exec_* return (normal state or None, outcomes)
    def exec(self, st, n):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None)
        if m is None:
            return self.s_expr(st, n)
        return m(st, n)

    def scoped(self, st, before):
        if st is not None:
            for v in [v for v in st.vars if v not in before]:
                del st.vars[v]
        return st

    def s_CompoundStmt(self, st, n):
        before = set(st.vars)
        outs = []
        for c in inner(n):
            st, o = self.exec(st, c)
            outs += o
            if st is None:
                break
        return self.scoped(st, before), outs

    def s_NullStmt(self, st, n):
        return st, []

    def full(self, st, f):
        """Evaluate a full expression; collects throw outcomes."""
        saved, self.pending = self.pending, []
        try:
            try:
                v = f()
                return v, st, self.pending
            except Dead:
                return None, None, self.pending
        finally:
            self.pending = saved

    def s_expr(self, st, n):
        _, st2, o = self.full(st, lambda: self.ev(st, n, discard=True))
        return st2, o

    def s_DeclStmt(self, st, n):
        outs = []
        for d in inner(n):
            if d["kind"] != "VarDecl":
                if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "EmptyDecl"):
                    continue
                raise Unsupported("declaration " + d["kind"])
            _, st, o = self.full(st, lambda: self.declare(st, d))
            outs += o
            if st is None:
                return None, outs
        return st, outs

    def declare(self, st, d):
        t = qtype(d)
        if d.get("storageClass") == "static" and "const" not in t:
            raise Unsupported("static local variable")
        self.names[d["id"]] = d.get("name", "?")
        ini = inner(d)
        srt = sort_of(t)
        if "&" in t and ini:
            lv = self.lvalue_or_temp(st, ini[0])
            st.vars[d["id"]] = Ref(lv)
            return
        m = re.match(r"(.*)\[(\d+)\]$", clean(t))
        if m and sort_of(m.group(1)) is not None:
            r = self.alloc(st, d["name"], sort_of(m.group(1)), z3.IntVal(int(m.group(2))), False)
            r.heap = False
            if ini and strip(ini[0])["kind"] == "InitListExpr":
                vals = [self.ev(st, c) for c in inner(strip(ini[0]))]
                for i in range(int(m.group(2))):
                    self.write(st, r, [z3.IntVal(i)], vals[i] if i < len(vals) else num(0, r.sort))
            st.vars[d["id"]] = Ptr(r)
            return
        if ini:
            v = self.ev(st, ini[0])
            if srt is not None:
                v = self.conv(v, srt)
            self.setvar(st, d["id"], v)
        elif srt is not None:
            self.setvar(st, d["id"], Uninit(srt))
        else:
            self.setvar(st, d["id"], None)

    def s_IfStmt(self, st, n):
        ch = inner(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with initialiser")
        c, st, o0 = self.full(st, lambda: boolish(self.ev(st, ch[0])))
        if st is None:
            return None, o0
        before = set(st.vars)
        a, o = self.branch(st, c, lambda s: self.exec(s, ch[1]),
                           lambda s: self.exec(s, ch[2]) if len(ch) > 2 else (s, []))
        return self.scoped(a, before), o0 + o

    def s_ForStmt(self, st, n, par=None):
        raw = n.get("inner", [])
        init, _, cond, inc, body = [c if c.get("kind") else None for c in (raw + [{}] * 5)[:5]]
        before = set(st.vars)
        outs = []
        if init is not None:
            st, o = self.exec(st, init)
            outs += o
            if st is None:
                return None, outs
        if par is not None and init is not None and init["kind"] == "DeclStmt":
            for d in inner(init):
                par["private"].add(d["id"])
        line = self.where(n)
        st, o = self.loop(st, cond, inc, body, f"for loop {line}", par)
        return self.scoped(st, before), outs + o

    def s_WhileStmt(self, st, n):
        ch = inner(n)
        return self.loop(st, ch[0], None, ch[1], f"while loop {self.where(n)}", None)

    def s_CXXForRangeStmt(self, st, n):
        raise Unsupported("range-based for")

    def where(self, n):
        # ordinal of the loop in its function, which (unlike a line number) survives unrelated edits
        d = self.nested
        return "#%d" % d.setdefault((self.fname, n["id"]), 1 + len([k for k in d if k[0] == self.fname]))

    def loop(self, st, cond, inc, body, name, par):
        def iterate(s):
            outs = []
            if cond is not None:
                c, s1, o = self.full(s, lambda: boolish(self.ev(s, cond)))
                outs += o
                if s1 is None:
                    return z3.BoolVal(False), None, outs
                s = s1
                if not self.shallow:
                    self.sync(s)
                    c = norm(c)
            else:
                c = z3.BoolVal(True)
            s.assume(c)
            e, o = self.exec(s, body)
            outs += o
            cont = [x for x in outs if x.kind == "continue"]
            outs = [x for x in outs if x.kind != "continue"]
            for x in cont:
                e = self.join(s, x.state, e)
            if e is not None and inc is not None:
                _, e, o = self.full(e, lambda: self.ev(e, inc, discard=True))
                outs += o
            return c, e, outs
        return self.run_loop(st, iterate, name, par)

    def join(self, base, a, b):
        """Merge two states of the same point reached under different path conditions."""
        if b is None:
            return a
        nb = 0
        while nb < min(len(a.pc), len(b.pc)) and a.pc[nb].eq(b.pc[nb]):
            nb += 1
        g = And(*a.pc[nb:]) if len(a.pc) > nb else z3.BoolVal(True)
        if any("kap!" in x.decl().name() for f in a.pc[nb:] for x in walk(f).values() if z3.is_const(x)) \
                or len(a.foralls) != len(b.foralls):
            bb = fresh("path", B)
            a.pc.insert(nb, bb)
            b.pc.insert(nb, norm(z3.Not(bb)))
            g = bb
        nf = 0
        while nf < min(len(a.foralls), len(b.foralls)) and a.foralls[nf] is b.foralls[nf]:
            nf += 1
        s = self.merge(g, a, b, nb, nf)
        return s

    def s_BreakStmt(self, st, n):
        return None, [Outcome("break", st)]

    def s_ContinueStmt(self, st, n):
        return None, [Outcome("continue", st)]

    def s_ReturnStmt(self, st, n):
        ch = inner(n)
        v, st2, o = self.full(st, lambda: self.ev(st, ch[0]) if ch else None)
        if st2 is None:
            return None, o
        return None, o + [Outcome("return", st2, v)]

    def s_CXXTryStmt(self, st, n):
        ch = inner(n)
        s, outs = self.exec(st, ch[0])
        handlers = ch[1:]
        res = []
        for o in outs:
            if o.kind != "throw":
                res.append(o)
                continue
            done = False
            for h in handlers:
                hraw = h.get("inner", [])
                decl = hraw[0] if hraw and hraw[0].get("kind") == "VarDecl" else None
                t = clean(qtype(decl)) if decl else None
                if t is None or t == o.value or t in EXC.get(o.value, ()):
                    hs = o.state
                    before = set(hs.vars)
                    if decl is not None:
                        hs.vars[decl["id"]] = None
                    self.cur_exc.append(o.value)
                    try:
                        s2, o2 = self.exec(hs, [c for c in hraw if c.get("kind") == "CompoundStmt"][0])
                    finally:
                        self.cur_exc.pop()
                    res += o2
                    if s2 is not None:
                        s = self.join(st, self.scoped(s2, before), s)
                    done = True
                    break
            if not done:
                res.append(o)
        return s, res

    # ---- OpenMP
    def pragma(self, n):
        b = n["range"]["begin"]
        off = b.get("offset", b.get("expansionLoc", {}).get("offset"))
        if off is None:
            raise Unsupported("OpenMP directive without a source position")
        # the text of the directive, with continuation lines
        ls = self.src.rfind(b"\n", 0, off) + 1
        end = off
        while True:
            end = self.src.find(b"\n", end)
            if end < 0:
                end = len(self.src)
                break
            if self.src[:end].rstrip(b"\r").endswith(b"\\"):
                end += 1
                continue
            break
        txt = self.src[ls:end].decode().replace("\\\n", " ")
        return re.sub(r"//.*", "", txt)

    def omp_loop(self, st, n):
        txt = self.pragma(n)
        if "pragma" not in txt:
            raise Unsupported("OpenMP directive in a macro")
        body = txt.split("for", 1)[1] if " for" in txt else txt
        clauses = re.findall(r"(\w+)\s*(?:\(([^()]*)\))?", body)
        par = dict(private=set(), reduction=set(), names=self.names, collapse=1)
        red, priv = [], []
        for nm, arg in clauses:
            if nm == "reduction":
                op, vs = arg.split(":")
                if op.strip() != "+":
                    raise Unsupported("reduction " + op)
                red += [v.strip() for v in vs.split(",")]
            elif nm in ("private", "lastprivate", "firstprivate"):
                priv += [v.strip() for v in arg.split(",")]
            elif nm == "collapse":
                par["collapse"] = int(arg)
            elif nm in ("schedule", "num_threads", "default", "shared", "if", "simd", "static", "dynamic", "nowait",
                        "proc_bind", "guided", "none"):
                pass
            else:
                raise Unsupported("OpenMP clause " + nm)
        vis = {}
        for v in st.vars:
            if v in self.names:
                vis[self.names[v]] = v
        for nm, tgt in [(x, par["reduction"]) for x in red] + [(x, par["private"]) for x in priv]:
            if nm in vis:
                tgt.add(vis[nm])
        f = n
        while f.get("kind") != "ForStmt":
            nxt = [c for c in inner(f) if c["kind"] in ("CapturedStmt", "CapturedDecl", "ForStmt", "CompoundStmt")]
            if not nxt:
                raise Unsupported("OpenMP loop structure")
            f = nxt[0]
        if self.accesses is not None and not self.quiet and not self.shallow:
            raise Unsupported("nested parallel loops")
        for v in priv:
            if v in vis:
                st.vars[vis[v]] = Uninit(self.sortof(st.vars[vis[v]]))
        return self.s_ForStmt(st, f, par)

    s_OMPParallelForDirective = omp_loop
    s_OMPParallelForSimdDirective = omp_loop

    def s_OMPSimdDirective(self, st, n):
        f = n
        while f.get("kind") != "ForStmt":
            f = [c for c in inner(f) if c["kind"] in ("CapturedStmt", "CapturedDecl", "ForStmt")][0]
        return self.s_ForStmt(st, f)

    def s_OMPAtomicDirective(self, st, n):
        f = n
        while f.get("kind") in ("OMPAtomicDirective", "CapturedStmt", "CapturedDecl"):
            f = [c for c in inner(f) if not c["kind"].startswith("OMP") and c["kind"] != "ImplicitParamDecl"][0]
        self.atomic = True
        try:
            return self.exec(st, f)
        finally:
            self.atomic = False

    # ----------------------------------------------------------------- expressions
    def conv(self, v, srt):
        if isinstance(v, Uninit):
            return fresh("uninit", srt)
        if not isinstance(v, z3.ExprRef):
            return v
        if v.sort() == srt:
            return v
        if srt == R:
            return to_real(v)
        if srt == B:
            return boolish(v)
        if v.sort() == B:
            return to_int(v)
        return self.trunc(v)

    def trunc(self, v):
        v = norm(v)
        i = as_int(v)
        if i is not None:
            return i
        if self.shallow:
            return fresh("sh")
        if self.ctx.quick(v >= 0):
            return floor_f(v)
        return z3.If(v >= 0, floor_f(v), -floor_f(norm(-v)))

    def lvalue_or_temp(self, st, n):
        x = strip(n)
        try:
            return self.lvalue(st, x)
        except Unsupported:
            v = self.ev(st, x)
            return ("val", v)

    def lvalue(self, st, n):
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            d = n["referencedDecl"]["id"]
            v = st.vars.get(d)
            if isinstance(v, Ref):
                return v.lv
            return ("var", d)
        if k == "ArraySubscriptExpr":
            ch = inner(n)
            p = self.ev(st, ch[0])
            i = self.ev(st, ch[1])
            return self.index(st, p, i)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(st, inner(n)[0])
            return self.index(st, p, z3.IntVal(0))
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            self.ev(st, n)
            return self.lvalue(st, inner(n)[0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("="):
            self.ev(st, n)
            return self.lvalue(st, inner(n)[0])
        if k.endswith("CastExpr"):
            return self.lvalue(st, inner(n)[0])
        raise Unsupported("lvalue " + k)

    def index(self, st, p, i):
        if isinstance(p, Ptr):
            r = p.region
            if len(p.rows) < r.nd - 1:
                return ("row", r, p.rows + (norm(p.off + i),))
            return ("mem", r, p.rows + (norm(p.off + i),))
        if isinstance(p, PtrTable):
            return ("tab", p, i)
        raise Unsupported(f"subscript of {type(p).__name__}")

    def load(self, st, lv):
        k = lv[0]
        if k == "var":
            if lv[1] not in st.vars:
                raise Unsupported("read of an unknown variable")
            v = st.vars[lv[1]]
            if isinstance(v, Ref):
                return self.load(st, v.lv)
            if isinstance(v, Uninit):
                return fresh("uninit", v.sort)
            if isinstance(v, Conflict):
                raise Unsupported("variable of different kinds on two paths")
            return v
        if k == "mem":
            return self.read(st, lv[1], list(lv[2]))
        if k == "row":
            return Ptr(lv[1], lv[2])
        if k == "val":
            return lv[1]
        if k == "tab":
            return self.tab_load(st, lv[1], lv[2])
        raise Unsupported("load " + k)

    def store(self, st, lv, v):
        k = lv[0]
        if k == "var":
            old = st.vars.get(lv[1])
            srt = self.sortof(old) if old is not None else None
            if srt is not None:
                v = self.conv(v, srt)
            self.setvar(st, lv[1], v)
        elif k == "mem":
            self.write(st, lv[1], list(lv[2]), self.conv(v, lv[1].sort))
        elif k == "tab":
            self.tab_store(st, lv[1], lv[2], v)
        else:
            raise Unsupported("store to " + k)

    def tab_load(self, st, t, i):
        raise Unsupported("pointer table")

    def tab_store(self, st, t, i, v):
        raise Unsupported("pointer table")

    def ev(self, st, n, discard=False):
        n = strip(n)
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k.endswith("CastExpr"):
                return self.e_cast(st, n, discard)
            raise Unsupported("expression " + k)
        if k in ("CXXOperatorCallExpr", "CallExpr"):
            return m(st, n, discard)
        return m(st, n)

    def e_cast(self, st, n, discard=False):
        ck = n["castKind"]
        c = inner(n)[0]
        if ck == "LValueToRValue":
            s = strip(c)
            if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["id"] not in st.vars:
                return self.constant(st, s)
            return self.load(st, self.lvalue(st, s))
        if ck in ("IntegralToFloating", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean",
                  "FloatingToIntegral"):
            return self.conv(self.ev(st, c), sort_of(qtype(n)))
        if ck == "IntegralCast":
            v = self.ev(st, c)
            return self.conv(v, int_sort(qtype(n)))
        if ck in ("BitCast", "NoOp"):
            v = self.ev(st, c)
            return v
        if ck == "ArrayToPointerDecay":
            s = strip(c)
            if s["kind"] in ("StringLiteral", "PredefinedExpr"):
                return "string"
            return self.load(st, self.lvalue(st, s))
        if ck == "ToVoid":
            self.ev(st, c)
            return None
        if ck == "NullToPointer":
            return None
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return self.ev(st, c)
        if ck == "ConstructorConversion":
            return self.ev(st, c)
        raise Unsupported("cast " + ck)

    def constant(self, st, n):
        d = self.unit.lookup(n["referencedDecl"]["id"])
        nm = n["referencedDecl"].get("name")
        if d is not None:
            if nm == "value" and "bool" in qtype(n):
                ini = [c for c in inner(d)]
                if ini:
                    return self.ev(st, ini[0])
            if d.get("constexpr") or "const" in d.get("type", {}).get("qualType", ""):
                ini = [c for c in inner(d) if c["kind"] != "TextComment"]
                if ini:
                    return self.conv(self.ev(st, ini[0]), int_sort(qtype(d)))
        raise Unsupported(f"global {nm}")

    def e_IntegerLiteral(self, st, n):
        return z3.IntVal(int(n["value"]))

    def e_FloatingLiteral(self, st, n):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(n["value"])))

    def e_CXXBoolLiteralExpr(self, st, n):
        return z3.BoolVal(bool(n["value"]))

    def e_CharacterLiteral(self, st, n):
        return z3.IntVal(int(n["value"]))

    def e_StringLiteral(self, st, n):
        return "string"

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return None

    def e_ImplicitValueInitExpr(self, st, n):
        return num(0, sort_of(qtype(n)))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, st, n):
        d = n["referencedDecl"]
        if d["id"] in st.vars:
            return self.load(st, ("var", d["id"]))
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", d)
        if d.get("name") in ("cout", "cerr", "clog"):
            return Stream()
        return self.constant(st, n)

    def e_MemberExpr(self, st, n):
        d = {"referencedDecl": {"id": n["referencedMemberDecl"], "name": n.get("name"), "kind": "VarDecl"}, "type": n["type"]}
        return self.constant(st, d)

    def e_ArraySubscriptExpr(self, st, n):
        return self.load(st, self.lvalue(st, n))

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n["name"] != "sizeof":
            raise Unsupported(n["name"])
        t = n.get("argType", {}).get("qualType") or qtype(inner(n)[0])
        size = {"int": 4, "float": 4, "double": 8, "bool": 1, "char": 1, "long": 8, "unsigned long": 8}.get(clean(t))
        if size is None:
            raise Unsupported("sizeof " + t)
        return z3.IntVal(size)

    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        c = inner(n)[0]
        if op in ("++", "--"):
            lv = self.lvalue(st, c)
            v = self.load(st, lv)
            if isinstance(v, Ptr):
                w = Ptr(v.region, v.rows, norm(v.off + (1 if op == "++" else -1)))
            else:
                w = norm(v + num(1 if op == "++" else -1, v.sort() if v.sort() == R else None))
            self.store(st, lv, w)
            return v if n.get("isPostfix") else w
        if op == "&":
            lv = self.lvalue(st, c)
            if lv[0] == "mem":
                return Ptr(lv[1], lv[2][:-1], lv[2][-1])
            raise Unsupported("address of a variable")
        if op == "*":
            return self.load(st, self.lvalue(st, n))
        v = self.ev(st, c)
        if op == "-":
            return norm(-to_int(v) if v.sort() == B else -v)
        if op == "+":
            return v
        if op == "!":
            return norm(z3.Not(boolish(v)))
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        a, b = inner(n)
        if op == "=":
            v = self.ev(st, b)
            lv = self.lvalue(st, a)
            self.store(st, lv, v)
            return v
        if op == ",":
            self.ev(st, a)
            return self.ev(st, b)
        if op in ("&&", "||"):
            x = boolish(self.ev(st, a))
            return self.shortcircuit(st, x, b, op)
        x = self.ev(st, a)
        y = self.ev(st, b)
        return self.binop(st, op, x, y, qtype(n))

    def shortcircuit(self, st, x, b, op):
        if self.shallow:
            y = boolish(self.ev(st, b))
            return fresh("sh", B)
        g = x if op == "&&" else z3.Not(x)
        g = norm(g)
        self.sync(st)
        if z3.is_true(norm(z3.Not(g))) or self.ctx.quick(z3.Not(g)):
            return x
        # the right operand is evaluated only under g
        s = st.copy()
        s.assume(g)
        saved = self.pending
        self.pending = []
        y = boolish(self.ev(s, b))
        if self.pending or s.mem != st.mem or any(s.vars[v] is not st.vars.get(v) for v in s.vars):
            raise Unsupported("side effect in the right operand of " + op)
        self.pending = saved
        return norm(z3.And(x, y) if op == "&&" else z3.Or(x, y))

    def e_ConditionalOperator(self, st, n):
        c, a, b = inner(n)
        c = norm(boolish(self.ev(st, c)))
        if self.shallow:
            x, y = self.ev(st, a), self.ev(st, b)
            return self.merge_val(c, x, y)
        self.sync(st)
        if self.ctx.quick(c):
            return self.ev(st, a)
        if self.ctx.quick(z3.Not(c)):
            return self.ev(st, b)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(z3.Not(c))
        x, y = self.ev(s1, a), self.ev(s2, b)
        for s in (s1, s2):
            if s.mem != st.mem or any(s.vars[v] is not st.vars.get(v) for v in s.vars):
                raise Unsupported("side effect in ?:")
        return self.merge_val(c, x, y)

    def e_CompoundAssignOperator(self, st, n):
        a, b = inner(n)
        v = self.ev(st, b)
        lv = self.lvalue(st, a)
        x = self.load(st, lv)
        if isinstance(x, Ptr):
            w = Ptr(x.region, x.rows, norm(x.off + (v if n["opcode"] == "+=" else -v)))
        else:
            w = self.binop(st, n["opcode"][:-1], x, v, n.get("computeResultType", {}).get("qualType", ""))
        self.store(st, lv, w)
        return w

    def binop(self, st, op, x, y, ty):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "+":
                p, i = (x, y) if isinstance(x, Ptr) else (y, x)
                return Ptr(p.region, p.rows, norm(p.off + i))
            if op == "-" and not isinstance(y, Ptr):
                return Ptr(x.region, x.rows, norm(x.off - y))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.region is y.region and not x.rows:
                return self.binop(st, op, x.off, y.off, ty)
            raise Unsupported("pointer arithmetic")
        if isinstance(x, Uninit):
            x = fresh("uninit", x.sort)
        if isinstance(y, Uninit):
            y = fresh("uninit", y.sort)
        if not isinstance(x, z3.ExprRef) or not isinstance(y, z3.ExprRef):
            raise Unsupported(f"operator {op} on {type(x).__name__}, {type(y).__name__}")
        if op in ("==", "!=") and x.sort() == B and y.sort() == B:
            return norm(x == y if op == "==" else z3.Not(x == y))
        x, y = coerce(x, y)
        if x.sort() == B:
            x, y = to_int(x), to_int(y)
        if op == "+":
            return norm(x + y)
        if op == "-":
            return norm(x - y)
        if op == "*":
            return norm(x * y)
        if op == "/":
            if x.sort() == R:
                return norm(x / y)
            if self.shallow:
                return fresh("sh")
            self.oblige(st, y != 0, "safety", f"integer division by {short(y, 60)}")
            if self.quick(st, And(x >= 0, y > 0)):
                return mk_div(x, y)
            if self.quick(st, y > 0):
                return ite(norm(x >= 0), mk_div(x, y), norm(-mk_div(norm(-x), y)))
            if self.quiet:
                return fresh("sh")
            raise Unsupported("integer division of possibly negative values")
        if op == "%":
            if self.shallow:
                return fresh("sh")
            self.oblige(st, y != 0, "safety", f"remainder by {short(y, 60)}")
            if self.quick(st, And(x >= 0, y > 0)):
                return mk_mod(x, y)
            if self.quick(st, y > 0):
                return ite(norm(x >= 0), mk_mod(x, y), norm(-mk_mod(norm(-x), y)))
            if self.quiet:
                return fresh("sh")
            raise Unsupported("remainder of possibly negative values")
        f = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
             "==": lambda: x == y, "!=": lambda: z3.Not(x == y)}.get(op)
        if f is None:
            raise Unsupported("operator " + op)
        return norm(f())

    def e_CXXNewExpr(self, st, n):
        if not n.get("isArray"):
            raise Unsupported("new of a single object")
        t = clean(qtype(n))
        assert t.endswith("*")
        elem = clean(t[:-1])
        srt = sort_of(elem)
        ch = inner(n)
        cnt = self.conv(self.ev(st, ch[0]), I)
        if srt is None:
            return self.new_other(st, n, elem, cnt)
        zero = any(c["kind"] in ("ImplicitValueInitExpr", "InitListExpr") for c in ch[1:])
        if not self.shallow:
            self.oblige(st, cnt >= 0, "safety", f"new[] of {short(cnt, 60)} elements")
        r = self.alloc(st, "heap%d" % len(st.mem), srt, cnt, zero)
        if self.shallow:
            r.dims = [None]
        return Ptr(r)

    def new_other(self, st, n, elem, cnt):
        raise Unsupported("new " + elem)

    def e_CXXDeleteExpr(self, st, n):
        p = self.ev(st, inner(n)[0])
        if p is None:
            return None
        if not isinstance(p, Ptr):
            return self.delete_other(st, p)
        r = p.region
        if self.shallow:
            return None
        self.oblige(st, And(st.alive.get(r, z3.BoolVal(True)), p.off == 0), "safety", f"delete[] of a live block ({r.name})")
        if not r.heap:
            self.obls.append(Obligation(self.fname, "safety", f"delete[] of {r.name}, which was not allocated here", False, 0, "safety"))
        st.alive[r] = z3.BoolVal(False)
        return None

    def delete_other(self, st, p):
        raise Unsupported("delete")

    def e_CXXThrowExpr(self, st, n):
        ch = inner(n)
        if not ch:
            if not self.cur_exc:
                raise Unsupported("rethrow outside of a handler")
            t = self.cur_exc[-1]
        else:
            t = clean(qtype(strip(ch[0])))
        self.pending.append(Outcome("throw", st.copy(), t))
        raise Dead()

    def e_LambdaExpr(self, st, n):
        rec = inner(n)[0]
        body = [c for c in inner(n) if c["kind"] == "CompoundStmt"][-1]
        meth = [c for c in inner(rec) if c["kind"] == "CXXMethodDecl" and c["name"] == "operator()"]
        return Lambda(dict(body=body, params=[p for p in inner(meth[0]) if p["kind"] == "ParmVarDecl"]), dict(st.vars), None)

    def e_CXXConstructExpr(self, st, n):
        ch = inner(n)
        if len(ch) == 1:
            return self.ev(st, ch[0])
        if not ch:
            return None
        raise Unsupported("constructor of " + qtype(n))

    def e_CXXDefaultArgExpr(self, st, n):
        return None

    def e_InitListExpr(self, st, n):
        ch = inner(n)
        if len(ch) == 1:
            return self.ev(st, ch[0])
        return [self.ev(st, c) for c in ch]

    def e_CXXOperatorCallExpr(self, st, n, discard=False):
        ch = inner(n)
        f = strip(ch[0])
        name = f.get("referencedDecl", {}).get("name", "")
        if name == "operator<<":
            # output: operands are evaluated for their effects (++ etc.)
            for c in ch[1:]:
                self.stream_arg(st, c)
            return Stream()
        if name == "operator()":
            callee = self.ev(st, ch[1])
            args = [self.ev(st, c) for c in ch[2:]]
            return self.call_value(st, callee, args)
        if name == "operator=":
            v = self.ev(st, ch[2])
            self.store(st, self.lvalue(st, ch[1]), v)
            return v
        raise Unsupported("operator " + name)

    def stream_arg(self, st, c):
        c = strip(c)
        if c["kind"] == "DeclRefExpr":
            return
        if c["kind"] in ("StringLiteral",) or (c["kind"].endswith("CastExpr") and c.get("castKind") == "ArrayToPointerDecay"):
            return
        if c["kind"] == "CXXOperatorCallExpr":
            return self.e_CXXOperatorCallExpr(st, c)
        if c["kind"] == "CallExpr":
            for x in inner(c)[1:]:
                self.ev(st, x)
            return
        self.ev(st, c)

    def call_value(self, st, callee, args):
        if isinstance(callee, Lambda):
            s = st
            saved = dict(st.vars)
            before = set(st.vars)
            for k, v in callee.captured.items():
                if k not in s.vars:
                    s.vars[k] = v
            for p, a in zip(callee.node["params"], args):
                s.vars[p["id"]] = a
            r = self.run_body(st, callee.node["body"], "lambda")
            for k in [k for k in st.vars if k not in before]:
                del st.vars[k]
            return r
        if isinstance(callee, Callback):
            return self.callback(st, args)
        raise Unsupported("call of " + type(callee).__name__)

    def callback(self, st, args):
        if self.accesses is not None and not self.quiet and not self.shallow:
            self.obls.append(Obligation(self.fname, "race", "callback invoked inside a parallel loop", False, 0, "race"))
        if self.writes is not None:
            self.writes.add(("v", "$n"))
        n = st.vars["$n"]
        for i, a in enumerate(args):
            self.write(st, st.vars["$trace"][i], [n], self.conv(a, I))
        self.setvar(st, "$n", norm(n + 1))
        if not self.shallow:
            c = self.cbthrow(n)
            s = st.copy()
            s.assume(c)
            self.pending.append(Outcome("throw", s, CB))
            st.assume(z3.Not(c))
        else:
            self.pending.append(Outcome("throw", st.copy(), CB))
        return None

    cbthrow = z3.Function("callback_throws", I, B)

    def ghost(self, st):
        st.vars["$n"] = z3.IntVal(0)
        t = [self.symbolic(st, f"trace{i}", I, [None]) for i in range(2)]
        st.vars["$trace"] = t
        return t

    # ------------------------------------------------------------------------ calls
    def e_CallExpr(self, st, n, discard=False):
        ch = inner(n)
        f = strip(ch[0])
        while f["kind"].endswith("CastExpr"):
            f = strip(inner(f)[0])
        if f["kind"] != "DeclRefExpr":
            raise Unsupported("call through " + f["kind"])
        d = f["referencedDecl"]
        name = d["name"]
        fd = self.by_decl.get(d["id"]) or self.find_def(d)
        if fd is not None and name not in ("fast_sin", "fast_sinf", "fast_cos", "fast_cosf"):
            return self.call(st, fd, ch[1:])
        return self.builtin(st, name, ch[1:], n)

    e_CXXMemberCallExpr = None

    def find_def(self, d):
        """Definition of a function declared elsewhere in the unit (same name and type)."""
        for f in self.fns.get(d.get("name"), ()):
            if f["type"]["qualType"] == d.get("type", {}).get("qualType"):
                return f
        return None

    def params(self, fd):
        return [c for c in inner(fd) if c["kind"] == "ParmVarDecl"]

    def call(self, st, fd, argn):
        ps = self.params(fd)
        args = []
        for p, a in zip(ps, argn):
            if "&" in qtype(p) and not clean(qtype(p)).startswith("std::function"):
                args.append(Ref(self.lvalue_or_temp(st, a)))
            else:
                v = self.ev(st, a)
                s = sort_of(qtype(p))
                args.append(self.conv(v, s) if s is not None else v)
        c = self.contract_for(fd)
        if c is not None:
            return self.call_contract(st, fd, c, args)
        return self.call_inline(st, fd, args)

    def contract_for(self, fd):
        c = self.contracts.get(fd["name"])
        if c is None or not c.matches([(p["name"], qtype(p)) for p in self.params(fd)]):
            return None
        return c

    def call_inline(self, st, fd, args):
        if self.depth > 12:
            raise Unsupported("recursion")
        self.inlined.add(fd["name"])
        ps = self.params(fd)
        keep = dict(st.vars)
        for p, a in zip(ps, args):
            self.names[p["id"]] = p["name"]
            st.vars[p["id"]] = a
        body = [c for c in inner(fd) if c["kind"] == "CompoundStmt"][0]
        self.depth += 1
        try:
            r = self.run_body(st, body, fd["name"])
        finally:
            self.depth -= 1
        for k in [k for k in st.vars if k not in keep]:
            del st.vars[k]
        return r

    def run_body(self, st, body, name):
        """Execute a body in place; merges its return outcomes; throws go to pending."""
        s, outs = self.exec(st.copy(), body)
        rets = [o for o in outs if o.kind == "return"]
        for o in outs:
            if o.kind == "throw":
                self.pending.append(o)
            elif o.kind != "return":
                raise Unsupported(o.kind + " outside of a loop")
        cur, val = s, None
        for o in rets:
            if cur is None:
                cur, val = o.state, o.value
            else:
                o.state.vars["$ret"] = o.value
                cur.vars["$ret"] = val if val is not None else (o.value if not isinstance(o.value, z3.ExprRef) else
                                                               fresh("noret", o.value.sort()))
                cur = self.join(st, o.state, cur)
                val = cur.vars.pop("$ret", None)
        if cur is None:
            raise Dead()
        st.vars, st.mem, st.alive, st.pc, st.foralls = cur.vars, cur.mem, cur.alive, cur.pc, cur.foralls
        return val

    def call_contract(self, st, fd, c, args):
        self.by_contract.add(fd["name"])
        if self.accesses is not None and not self.quiet and not self.shallow:
            raise Unsupported("call inside a parallel loop")
        env = c.bind(self, st, [p["name"] for p in self.params(fd)], args)
        if self.shallow:
            if self.writes is not None:
                for nm in c.modifies:
                    if nm == "$n":
                        self.writes.add(("v", "$n"))
                        for t in st.vars["$trace"]:
                            self.writes.add(("m", t))
                    else:
                        self.writes.add(("m", env.ptr(nm).region))
            if c.may_throw:
                self.pending.append(Outcome("throw", st.copy(), c.exc))
            if c.ret is not None:
                return fresh("sh", c.ret)
            return None
        for text, f in c.requires(env):
            self.oblige(st, f, "precondition", f"{fd['name']}: {text}", "safety")
        for text, n_, fn, _ in c.requires_all(env):
            k = fresh("k")
            s = st.copy()
            s.assume(k >= 0, k < n_)
            self.sync(s)
            self.oblige(s, fn(k), "precondition", f"{fd['name']}: {text}", "safety")
        for nm, (srt, dims) in c.arrays(env).items():
            p = env.ptr(nm)
            ln = dims[-1]
            if p.region.dims[-1] is not None and ln is not None:
                self.oblige(st, And(p.off >= 0, p.off + ln <= p.region.dims[-1], st.alive.get(p.region, z3.BoolVal(True))),
                            "bounds", f"call of {fd['name']}: {nm} has at least {short(ln, 60)} elements", "bounds")
        self.no_alias(st, fd, c, env)
        self.sync(st)
        post = c.ensures(env)
        if c.may_throw:
            cond = norm(c.throws(env))
            s = st.copy()
            s.assume(cond)
            for nm in c.modifies:
                if nm != "$n":
                    r = env.ptr(nm).region
                    g = freshfn("after_throw", *[I] * r.nd, r.sort)
                    s.mem[r] = self.arr(lambda *i, g=g: g(*i), r.sort, r.nd)
            self.sync(st)
            if z3.is_false(cond) or self.ctx.quick(z3.Not(cond)):
                pass
            else:
                self.pending.append(Outcome("throw", s, c.exc))
                st.assume(z3.Not(cond))
        for nm, fn in post.items():
            if nm == "ret":
                continue
            p = env.ptr(nm)
            r = p.region
            old = st.mem[r]
            ln = env.len(nm)
            off = p.off
            if r.nd == 1 or not p.rows:
                self.sync(st)
                fn = self.ctx.abbr(ln, fn)

            def content(*j, fn=fn, old=old, ln=ln, off=off, p=p):
                x = norm(j[-1] - off)
                cond = And(x >= 0, x < ln, *[a == b for a, b in zip(j, p.rows)])
                cond = self.ctx.simp(norm(cond))
                if z3.is_true(cond):
                    return fn(x)
                if z3.is_false(cond):
                    return old(*j)
                with self.ctx.scope(cond):
                    a = fn(x)
                with self.ctx.scope(z3.Not(cond)):
                    b = old(*j)
                return ite(cond, a, b)
            self.set_content(st, r, content)
        for f in c.facts(env):
            st.assume(f)
        return post.get("ret")

    def no_alias(self, st, fd, c, env):
        rs = [(nm, env.ptr(nm).region) for nm in c.arrays(env)]
        for i, (a, r) in enumerate(rs):
            for b, r2 in rs[i + 1:]:
                if r is r2 and (a in c.modifies or b in c.modifies):
                    raise Unsupported(f"call of {fd['name']}: {a} and {b} may overlap")

    def builtin(self, st, name, argn, n):
        if name in ("setw", "setprecision", "endl", "flush"):
            return Stream()
        if name in ("fill_n", "fill", "memcpy", "memset", "copy", "copy_n", "memmove"):
            return self.mem_builtin(st, name, argn)
        if name == "accumulate":
            p, q, v0 = [self.ev(st, a) for a in argn]
            if self.shallow:
                return fresh("sh", v0.sort())
            r = p.region
            arr = st.mem[r]
            n_ = norm(q.off - p.off)
            self.range_access(st, p, n_, False)
            self.sync(st)
            return norm(to_real(v0) + self.ctx.sum(n_, lambda k: arr(*p.rows, norm(p.off + k)), sort=R)) \
                if v0.sort() == R else norm(v0 + self.ctx.sum(n_, lambda k: arr(*p.rows, norm(p.off + k)), sort=I))
        if name in ("max", "min") and len(argn) == 2:
            a, b = coerce(self.ev(st, argn[0]), self.ev(st, argn[1]))
            return norm(z3.If(a < b, b, a) if name == "max" else z3.If(b < a, b, a))
        args = [self.ev(st, a) for a in argn]
        if name in ("fast_sin", "fast_sinf", "sin", "sinf"):
            return sin_f(norm(to_real(args[0])))
        if name in ("fast_cos", "fast_cosf", "cos", "cosf"):
            return cos_f(norm(to_real(args[0])))
        if name in ("pow", "powf"):
            e = norm(args[1])
            if is_num(e) and numval(e).denominator == 1 and 0 <= numval(e) <= 4:
                x = to_real(args[0])
                r = num(1, R)
                for _ in range(int(numval(e))):
                    r = r * x
                return norm(r)
            raise Unsupported("pow with this exponent")
        if name in ("sqrt", "sqrtf"):
            return sqrt_f(norm(to_real(args[0])))
        if name in ("abs", "fabs", "fabsf"):
            x = args[0]
            return norm(z3.If(x < 0, -x, x))
        if name in ("fmax", "fmin"):
            a, b = to_real(args[0]), to_real(args[1])
            return norm(z3.If(a < b, b, a) if name == "fmax" else z3.If(b < a, b, a))
        if name == "floor":
            return to_real(floor_f(norm(to_real(args[0]))))
        if name == "move" or name == "forward":
            return args[0]
        raise Unsupported("call of " + name)

    def range_access(self, st, p, n_, write):
        if self.shallow:
            if write and self.writes is not None:
                self.writes.add(("m", p.region))
            return
        r = p.region
        if r.dims[-1] is not None:
            self.oblige(st, z3.Or(n_ <= 0, And(p.off >= 0, p.off + n_ <= r.dims[-1], st.alive.get(r, z3.BoolVal(True)))),
                        "bounds", f"{'write' if write else 'read'} of {short(n_, 60)} elements of {r.name}", "bounds")
        if self.accesses is not None and not self.quiet:
            raise Unsupported("block access inside a parallel loop")

    def block_set(self, st, p, n_, fn):
        self.range_access(st, p, n_, True)
        if self.shallow:
            return
        r, off = p.region, p.off
        old = st.mem[r]

        def content(*j):
            x = norm(j[-1] - off)
            cond = self.ctx.simp(norm(And(x >= 0, x < n_, *[a == b for a, b in zip(j, p.rows)])))
            if z3.is_true(cond):
                return fn(x)
            if z3.is_false(cond):
                return old(*j)
            with self.ctx.scope(cond):
                a = fn(x)
            with self.ctx.scope(z3.Not(cond)):
                b = old(*j)
            return ite(cond, a, b)
        self.set_content(st, r, content)

    def mem_builtin(self, st, name, argn):
        a = [self.ev(st, x) for x in argn]
        size = {I: 4, R: None, B: 1}

        def elems(p, nbytes, an):
            t = clean(qtype(strip_cast(an)))
            s = {"int *": 4, "double *": 8, "float *": 4, "bool *": 1}.get(t)
            if s is None:
                raise Unsupported("block size of " + t)
            q = norm(nbytes)
            from term import poly, unpoly
            pp = poly(q)
            if any((c / s).denominator != 1 for c in pp.values()):
                raise Unsupported("block size not a multiple of the element size")
            return unpoly({m: c / s for m, c in pp.items()}, I)
        if name == "fill_n":
            p, cnt, v = a
            v = self.conv(v, p.region.sort)
            self.block_set(st, p, norm(self.conv(cnt, I)), lambda x: v)
        elif name == "fill":
            p, q, v = a
            v = self.conv(v, p.region.sort)
            self.block_set(st, p, norm(q.off - p.off), lambda x: v)
        elif name == "memset":
            p, v, nb = a
            if not (is_num(norm(v)) and numval(norm(v)) == 0):
                raise Unsupported("memset with a non-zero value")
            z = num(0, R) if p.region.sort == R else z3.IntVal(0) if p.region.sort == I else z3.BoolVal(False)
            self.block_set(st, p, elems(p, nb, argn[0]), lambda x: z)
        else:
            if name in ("memcpy", "memmove"):
                p, q, nb = a
                cnt = elems(p, nb, argn[0])
            elif name == "copy_n":
                q, cnt, p = a
                cnt = self.conv(cnt, I)
            else:
                q, qe, p = a
                cnt = norm(qe.off - q.off)
            if p.region is q.region:
                raise Unsupported("copy within one block")
            self.range_access(st, q, cnt, False)
            if not self.shallow:
                src = st.mem[q.region]
            self.block_set(st, p, cnt, lambda x: src(*q.rows, norm(q.off + x)))
        return None


def strip_cast(n):
    n = strip(n)
    while n["kind"].endswith("CastExpr") and n.get("castKind") in ("BitCast", "NoOp", "LValueToRValue"):
        if n.get("castKind") == "LValueToRValue":
            break
        n = strip(inner(n)[0])
    return n


# ------------------------------------------------------------------------- contracts
class Env:
    """Parameters of one call: scalars as terms, arrays as closures over the pre-state."""

    def __init__(self, eng, contract, vals, mem):
        self.eng, self.c, self.vals, self.mem = eng, contract, vals, mem
        self.ctx = eng.ctx

    def __getattr__(self, nm):
        if nm.startswith("_") or nm not in self.vals:
            raise AttributeError(nm)
        v = self.vals[nm]
        if isinstance(v, Ptr):
            arr, rows, off = self.mem[v.region], v.rows, v.off
            if v.region.nd - len(rows) > 1:
                return lambda *j: arr(*rows, *j)
            return lambda j: arr(*rows, norm(off + j))
        return v

    def ptr(self, nm):
        return self.vals[nm]

    def glen(self, nm):
        """Length of an array the contract leaves open: a ghost constant in the proof of the body,
        the actual length of the block at a call."""
        v = self.vals.get(nm)
        if isinstance(v, Ptr) and v.region.dims[-1] is not None:
            return norm(v.region.dims[-1] - v.off)
        return z3.Int("len_" + nm)

    def len(self, nm):
        return self.c.arrays(self)[nm][1][-1]

    def sum(self, n, fn, sort=R):
        return self.ctx.sum(n, fn, sort=sort)

    def abbr(self, n, fn):
        return self.ctx.abbr(n, fn)

    def count(self, n, fn):
        return self.ctx.sum(n, lambda k: z3.If(fn(k), z3.IntVal(1), z3.IntVal(0)), sort=I)


class Contract:
    """A contract is a pure function of the pre-state (strongest postcondition).

    params: {name: type}, type in int / real / bool / cb / int* / real* / bool* / real**.
    """
    name = None
    params = {}
    modifies = ()
    may_throw = False
    exc = "std::runtime_error"
    ret = None
    exported = False
    props = ()
    leaks_ret = False
    free_after = ()       # parameters whose final contents are unspecified

    def ctypes(self):
        return list(self.params.items())

    def matches(self, ps):
        if len(ps) != len(self.params):
            return False
        for (nm, t), (pn, pt) in zip(self.params.items(), ps):
            pt = clean(pt).replace("*const", "*").strip()
            want = {"int": I, "real": R, "bool": B}.get(t)
            if want is not None and sort_of(pt) != want:
                return False
            if t == "cb" and "function" not in pt:
                return False
            if t.endswith("**"):
                if not pt.replace(" ", "").endswith("**"):
                    return False
            elif t.endswith("*"):
                if not pt.endswith("*") or sort_of(pt[:-1]) != {"int*": I, "real*": R, "bool*": B}[t]:
                    return False
        return self.order([p for p, _ in ps]) is not None

    def order(self, names):
        """Positions of the parameters; by name when the names are a permutation, else by position."""
        want = list(self.params)
        if sorted(names) == sorted(want):
            return [names.index(w) for w in want]
        return list(range(len(want)))

    def bind(self, eng, st, names, args):
        o = self.order(names)
        vals = {}
        for nm, i in zip(self.params, o):
            v = args[i]
            if isinstance(v, Ref):
                v = eng.load(st, v.lv)
            vals[nm] = v
        return Env(eng, self, vals, dict(st.mem))

    def arrays(self, e):
        return {}

    def requires(self, e):
        return []

    def requires_all(self, e):
        return []

    def ensures(self, e):
        return {}

    def throws(self, e):
        return z3.BoolVal(False)

    def facts(self, e):
        return []

    def fixed(self):
        """Parameters the precondition determines, as terms over the others."""
        return {}

    def templates(self, e, regions):
        return []

    def lemmas(self, e):
        """Extra named goals over the postcondition: [(text, goal term or (n.., fn))]."""
        return []

    # -- verification of the body against the contract
    def verify(self, eng, fd):
        eng.fname = self.name + ("<%s>" % ",".join(fd["_targs"]) if fd.get("_targs") else "")
        st = State()
        eng.base_hyps, eng.base_foralls = [], []
        ps = eng.params(fd)
        names = [p["name"] for p in ps]
        order = self.order(names)
        vals = {}
        for nm, i in zip(self.params, order):
            t = self.params[nm]
            eng.names[ps[i]["id"]] = ps[i]["name"]
            if t in ("int", "real", "bool"):
                vals[nm] = z3.Const(nm, {"int": I, "real": R, "bool": B}[t])
            elif t == "cb":
                vals[nm] = Callback()
        vals.update(self.fixed())
        pre = Env(eng, self, dict(vals), {})
        eng.templates = []
        for nm, (srt, dims) in self.arrays(pre).items():
            r = eng.symbolic(st, nm, srt, dims)
            vals[nm] = Ptr(r)
        tr = eng.ghost(st)
        for nm, i in zip(self.params, order):
            st.vars[ps[i]["id"]] = vals[nm]
        e = Env(eng, self, vals, dict(st.mem))
        for text, f in self.requires(e):
            st.assume(f)
        for text, n_, fn, trig in self.requires_all(e):
            st.forall(n_, fn, trig)
        for nm, fn in self.initial(e).items():
            r = vals[nm].region
            st.mem[r] = eng.arr(fn, r.sort, r.nd)
        e = Env(eng, self, vals, dict(st.mem))
        eng.sync(st)
        if not eng.ctx.feasible():
            eng.obls.append(Obligation(eng.fname, "vacuity", "the precondition is satisfiable", False, 0, "vacuity"))
        eng.templates = self.templates(e, {nm: v.region for nm, v in vals.items() if isinstance(v, Ptr)})
        body = [c for c in inner(fd) if c["kind"] == "CompoundStmt"][0]
        s, outs = eng.exec(st.copy(), body)
        if s is not None:
            outs = outs + [Outcome("return", s, None)]
        seen = set()
        for o in outs:
            if o.kind == "throw":
                self.check_throw(eng, e, o, vals)
            elif o.kind == "return":
                self.check_return(eng, e, o, vals, st)
            seen.add(o.kind)
        if "return" not in seen:
            eng.obls.append(Obligation(eng.fname, "vacuity", "some execution returns normally", False, 0, "vacuity"))
        return outs

    def initial(self, e):
        return {}

    def check_leak(self, eng, o, keep=None):
        for r, al in o.state.alive.items():
            if r.heap and r is not keep:
                eng.oblige(o.state, z3.Not(al), "leak", f"block {r.name} is freed before leaving by {o.kind}", "safety")

    def check_throw(self, eng, e, o, vals):
        self.check_leak(eng, o)
        if o.value == CB:
            return
        eng.sync(o.state)
        c = self.throws(e) if self.may_throw else z3.BoolVal(False)
        if isinstance(c, z3.ExprRef):
            eng.oblige(o.state, c, "post", f"an error ({o.value}) is raised only when the contract says so", "post")
        else:
            c.on_throw(eng, o)
        if self.may_throw and o.value != self.exc:
            eng.obls.append(Obligation(eng.fname, "post", f"raises {self.exc}, not {o.value}", False, 0, "post"))

    def check_return(self, eng, e, o, vals, st0):
        st = o.state
        keep = None
        eng.sync(st)
        post = self.ensures(e)
        if "ret" in post:
            v = o.value
            if isinstance(v, Ptr) and callable(post["ret"]):
                keep = v.region
                j = fresh("J")
                n_ = self.ret_len(e)
                eng.oblige(st, And(v.off == 0, v.region.dims[0] == n_), "post", "size of the returned array", "post")
                s = st.copy()
                s.assume(j >= 0, j < n_)
                eng.sync(s)
                eng.oblige(s, st.mem[v.region](j) == post["ret"](j), "post", "contents of the returned array", "post")
            elif v is None:
                eng.obls.append(Obligation(eng.fname, "post", "a value is returned", False, 0, "post"))
            else:
                want = post["ret"]
                a, b = coerce(v, want)
                eng.oblige(st, a == b, "post", "returned value", "post")
        if self.may_throw:
            c = self.throws(e)
            if isinstance(c, z3.ExprRef):
                eng.oblige(st, z3.Not(c), "post", "an error is raised whenever the contract says so", "post")
            else:
                c.on_return(eng, o)
        for nm, v in vals.items():
            if not isinstance(v, Ptr) or nm in self.free_after or nm in self.unspecified:
                continue
            r = v.region
            if r.nd == 1:
                js = [fresh("J")]
            else:
                js = [fresh("J"), fresh("J")]
            s = st.copy()
            for j, d in zip(js, r.dims):
                s.assume(j >= 0)
                if d is not None:
                    s.assume(j < d)
            sp = self.split_index(e, nm)
            if sp is not None:
                term, hyp = sp
                s = st.copy()
                s.assume(*hyp)
                js = [term]
            eng.sync(s)
            if nm in post:
                lab = self.post_text(nm)
                eng.oblige(s, st.mem[r](*js) == post[nm](*js), "post", lab, "post")
            elif st.mem[r] is not e.mem[r]:
                eng.oblige(s, st.mem[r](*js) == e.mem[r](*js), "frame", f"{nm} is left unchanged", "post")
        if "cb" in self.params.values():
            self.check_trace(eng, e, o)
        self.check_leak(eng, o, keep)

    # modified arrays whose final contents the contract leaves open (covered by the run-time contract)
    unspecified = ()

    def split_index(self, e, nm):
        """(index term over fresh constants, their ranges) when every valid index has that form"""
        return None

    def post_text(self, nm):
        return f"final contents of {nm}"

    def check_trace(self, eng, e, o):
        pass


def run_jobs(jobs, budget, nproc=None):
    """Run thunks in forked processes; a job that dies or overruns yields None."""
    import pickle
    import select
    import signal
    import time
    nproc = nproc or int(os.environ.get("DV_PROCS", "0")) or os.cpu_count() or 4
    todo, live, out = list(enumerate(jobs)), {}, [None] * len(jobs)
    while todo or live:
        while todo and len(live) < nproc:
            i, j = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    sys.setrecursionlimit(20000)
                    data = pickle.dumps(j())
                except BaseException as x:      # noqa: the parent must always get an answer
                    if os.environ.get("DV_DEBUG"):
                        import traceback
                        print("".join(traceback.format_exc().splitlines(True)[-14:]))
                    data = pickle.dumps(dict(status="unsupported", reason=f"{type(x).__name__}: {str(x)[:300]}", obls=[], secs=0, inlined=set(), by_contract=set()))
                sys.stdout.flush()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                live[r][3].append(b)
                continue
            i, pid, t0, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(b"".join(buf))
            except Exception:
                out[i] = None
        for r, (i, pid, t0, buf) in list(live.items()):
            if time.time() - t0 > budget:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                live.pop(r)
    return out


def _verify_one(u, c, fd, usable, timeout, budget):
    import time
    t0 = time.time()
    r = dict(status="ok", obls=[], reason="", secs=0, inlined=set(), by_contract=set())
    eng = CFront(u, timeout)
    eng.contracts = dict(usable)
    eng.deadline = time.time() + budget
    if not c.matches([(p["name"], qtype(p)) for p in eng.params(fd)]):
        r["status"], r["reason"] = "unsupported", "signature differs from the contract"
        return r
    try:
        c.verify(eng, fd)
    except Unsupported as x:
        r["status"], r["reason"] = "unsupported", f"{eng.fname}: {x}"
    except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as x:
        if os.environ.get("DV_DEBUG"):
            raise
        r["status"], r["reason"] = "unsupported", f"{eng.fname}: {type(x).__name__}: {x}"
    for o in eng.obls:
        o.goal = None if getattr(o, "goal", None) is None else str(o.goal)[:2000]
        o.hyps = None if getattr(o, "hyps", None) is None else [str(h)[:300] for h in o.hyps][:40]
    r["obls"] = eng.obls
    r["inlined"] = set(map(str, eng.inlined))
    r["by_contract"] = set(map(str, eng.by_contract))
    if r["status"] == "ok" and any(not o.ok for o in r["obls"]):
        r["status"] = "failed"
    r["secs"] = time.time() - t0
    return r


def verify_unit(path, contracts, timeout=8000, budget=400, want=("double", "float"), only=None, deadline=None, retry=None, progress=None):
    """Verify every function of the unit that has a contract, each in its own process and
    against the contracts of its callees.  A callee whose own contract does not hold (or is out
    of reach) is inlined into its callers instead, which are then verified again."""
    u = Unit(path)
    fns = u.functions()
    usable = {c.name: c for c in contracts if c.name in fns}
    res = {c.name: dict(status="absent", obls=[], reason="no such function", secs=0, inlined=set(), by_contract=set())
           for c in contracts if c.name not in fns}
    inst = {}
    for c in contracts:
        if c.name in fns and (only is None or c.name in only):
            # the costly functions are verified for the first instantiation only, unless all are asked for
            w = want if getattr(c, "cost", 1) < 50 or retry is None else want[:1]
            fds = [f for f in fns[c.name] if not f.get("_targs") or f["_targs"][0] in w]
            inst[c.name] = (c, fds)
    todo = list(inst)
    parts = {}
    import time
    for rnd in range(4):
        if deadline:
            if rnd and time.time() > deadline - 20:
                for nm in todo:
                    res[nm] = dict(status="unsupported", obls=[], reason="out of time", secs=0, inlined=set(), by_contract=set())
                break
            budget = max(20, min(deadline - time.time(), retry if rnd and retry else 1e9))
        keys, jobs = [], []
        order = sorted(todo, key=lambda n: -getattr(inst[n][0], "cost", 1))
        for nm in order:
            c, fds = inst[nm]
            for fd in fds:
                keys.append(nm)
                jobs.append(lambda c=c, fd=fd: _verify_one(u, c, fd, {k: v for k, v in usable.items() if k != c.name}, timeout, budget))
        outs = run_jobs(jobs, budget + 10)
        for nm in todo:
            parts[nm] = []
        for nm, o in zip(keys, outs):
            parts[nm].append(o or dict(status="unsupported", reason=f"{nm}: no answer within {budget} s", obls=[], secs=budget, inlined=set(), by_contract=set()))
        bad = set()
        for nm in todo:
            ps = parts[nm]
            st = "ok"
            if not ps:
                st = "absent"
            for p in ps:
                if p["status"] == "unsupported" or (p["status"] == "failed" and st == "ok"):
                    st = p["status"]
            res[nm] = dict(status=st, obls=[o for p in ps for o in p["obls"]], reason="; ".join(p["reason"] for p in ps if p["reason"]),
                           secs=sum(p["secs"] for p in ps), inlined=set().union(*[p["inlined"] for p in ps]) if ps else set(),
                           by_contract=set().union(*[p["by_contract"] for p in ps]) if ps else set())
            # a race is inside the function itself: inlining it would not help
            if not (st == "ok" or st == "failed" and all(o.ok for o in res[nm]["obls"] if o.cls != "race")):
                bad.add(nm)
        if progress:
            progress(res)
        bad &= set(usable)
        if not bad:
            break
        for nm in bad:
            usable.pop(nm)
        todo = [nm for nm in inst if res[nm]["by_contract"] & bad]
        if not todo:
            break
    return res
