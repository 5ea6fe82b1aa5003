"""Contracts of cpp_routines/data_treatment.cpp."""
import z3

from cfront import Contract
from term import And, I, R, norm, walk
from spec_rec import pos, ZERO


class Witness:
    """raises iff bad(i) for some 0 <= i < n"""

    def __init__(self, e, n, bad, text):
        self.e, self.n, self.bad, self.text = e, n, bad, text

    def on_throw(self, eng, o):
        ks = {}
        for h in o.state.pc:
            for x in walk(h).values():
                if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ks[x.get_id()] = x
        eng.sync(o.state)
        cands = list(ks.values()) + [z3.IntVal(0), norm(self.n - 1)]
        for c in cands:
            g = And(c >= 0, c < self.n, self.bad(c))
            if eng.ctx.quick(g):
                eng.oblige(o.state, g, "post", f"an error is raised only if {self.text}", "post")
                return
        eng.oblige(o.state, z3.Or(*[And(c >= 0, c < self.n, self.bad(c)) for c in cands]), "post",
                   f"an error is raised only if {self.text}", "post")

    def on_return(self, eng, o):
        c = self.e.count(self.n, self.bad)
        eng.sync(o.state)
        eng.oblige(o.state, norm(c <= 0), "post", f"an error is raised whenever {self.text}", "post")


class MakePhaseSpace(Contract):
    """The image of n_bins x n_bins cells: cell (x, y) holds the weights of the particles with these
    coordinates; an error is raised iff some particle lies outside of the image."""
    name = "make_phase_space"
    exported = True
    params = dict(xp="int*", yp="int*", weight="real*", n_particles="int", n_bins="int")
    modifies = ()
    may_throw = True
    ret = R

    def arrays(self, e):
        return dict(xp=(I, [e.n_particles]), yp=(I, [e.n_particles]), weight=(R, [e.n_particles]))

    def requires(self, e):
        return pos(e.n_particles, e.n_bins)

    def ret_len(self, e):
        return norm(e.n_bins * e.n_bins)

    def ensures(self, e):
        return dict(ret=lambda b: e.sum(e.n_particles, lambda i: z3.If(norm(e.yp(i) + e.xp(i) * e.n_bins) == b, e.weight(i), ZERO)))

    exc = "std::out_of_range"

    def throws(self, e):
        bad = lambda i: z3.Not(And(e.xp(i) >= 0, e.xp(i) < e.n_bins, e.yp(i) >= 0, e.yp(i) < e.n_bins))
        return Witness(e, e.n_particles, bad, "some particle lies outside of the image")


ALL = [MakePhaseSpace()]

if __name__ == "__main__":
    import os
    import sys
    from cfront import verify_unit
    base = os.environ.get("REPO", "/repo") + "/longitudinal_tomography/cpp_routines/"
    res = verify_unit(base + "data_treatment.cpp", ALL, want=tuple(os.environ.get("WANT", "double").split(",")), only=set(sys.argv[1:]) or None)
    for n, r in res.items():
        print(n, r["status"], r["reason"], "%.1fs" % r.get("secs", 0), len(r["obls"]))
        for o in r["obls"]:
            if not o.ok or os.environ.get("V"):
                print("   ", o)
