"""Contracts of cpp_routines/kick_and_drift.cpp.

Spec: with T0 = rec_prof * dturns,
  PHI(T0, i), EN(T0, i)      the initial coordinates
  T >= T0:  PHI(T+1) = PHI(T) - drift(T) * EN(T)      EN(T+1) = EN(T) + kick(T+1, PHI(T+1))
  T <= T0:  EN(T-1) = EN(T) - kick(T, PHI(T))         PHI(T-1) = PHI(T) + drift(T-1) * EN(T-1)
  kick(T, x) = rf1v(T) sin(x + phi0(T)) + rf2v(T) sin(hratio (x + phi0(T) - phi12(T))) - deltaE0(T)
and row p of the results holds the coordinates at turn p * dturns.
"""
import z3

from cfront import Contract
from sym import Template
from term import And, I, R, fresh, is_num, norm, num, numval, poly
from spec_rec import pos
from cfront import sin_f


def kick(rf1, rf2, phi0, phi12, hratio, acc, x):
    return rf1 * sin_f(norm(x + phi0)) + rf2 * sin_f(norm(hratio * (x + phi0 - phi12))) - acc


class Kick(Contract):
    exported = True
    params = dict(dphi="real*", denergy="real*", rfv1="real", rfv2="real", phi0="real", phi12="real", hratio="real",
                  nr_particles="int", acc_kick="real")
    modifies = ("denergy",)

    def arrays(self, e):
        return dict(dphi=(R, [e.nr_particles]), denergy=(R, [e.nr_particles]))

    def requires(self, e):
        return pos(e.nr_particles)

    def ensures(self, e):
        s = self.sign
        return dict(denergy=lambda i: norm(e.denergy(i) + s * kick(e.rfv1, e.rfv2, e.phi0, e.phi12, e.hratio, e.acc_kick, e.dphi(i))))


class KickUp(Kick):
    name, sign = "kick_up", z3.RealVal(1)


class KickDown(Kick):
    name, sign = "kick_down", z3.RealVal(-1)


class Drift(Contract):
    exported = True
    params = dict(dphi="real*", denergy="real*", drift_coef="real", nr_particles="int")
    modifies = ("dphi",)

    def arrays(self, e):
        return dict(dphi=(R, [e.nr_particles]), denergy=(R, [e.nr_particles]))

    def requires(self, e):
        return pos(e.nr_particles)

    def ensures(self, e):
        return dict(dphi=lambda i: norm(e.dphi(i) + self.sign * e.drift_coef * e.denergy(i)))


class DriftUp(Drift):
    name, sign = "drift_up", z3.RealVal(-1)


class DriftDown(Drift):
    name, sign = "drift_down", z3.RealVal(1)


class Orbit:
    def __init__(self, e):
        self.e = e
        self.T0 = norm(e.rec_prof * e.dturns)
        self.P, self.E = z3.Function("PHI", I, I, R), z3.Function("EN", I, I, R)

    def kick(self, T, x):
        e = self.e
        return kick(e.rf1v(T), e.rf2v(T), e.phi0(T), e.phi12(T), e.hratio, e.deltaE0(T), x)

    def case(self, T):
        d = norm(T - self.T0)
        if is_num(d) and numval(d) == 0:
            return 0
        c = poly(d).get((), 0)
        if c >= 1 and self.e.ctx.quick(d >= 1):
            return 1
        if c <= -1 and self.e.ctx.quick(d <= -1):
            return -1
        return None

    def phi(self, T):
        T = norm(num(T))
        c = self.case(T)
        if c == 0:
            return lambda i: self.e.dphi(i)
        if c == 1:
            q = norm(T - 1)
            return lambda i: norm(self.phi(q)(i) - self.e.drift_coef(q) * self.en(q)(i))
        if c == -1:
            return lambda i: norm(self.phi(norm(T + 1))(i) + self.e.drift_coef(T) * self.en(T)(i))
        return lambda i: self.P(T, i)

    def en(self, T):
        T = norm(num(T))
        c = self.case(T)
        if c == 0:
            return lambda i: self.e.denergy(i)
        if c == 1:
            return lambda i: norm(self.en(norm(T - 1))(i) + self.kick(T, self.phi(T)(i)))
        if c == -1:
            q = norm(T + 1)
            return lambda i: norm(self.en(q)(i) - self.kick(q, self.phi(q)(i)))
        return lambda i: self.E(T, i)


    def at(self, f, T):
        """f (phi or en) at turn T with its definition unfolded once: (up, down, start)"""
        T = norm(num(T))
        e = self.e
        if f == "phi":
            up = lambda i: self.P(norm(T - 1), i) - e.drift_coef(norm(T - 1)) * self.E(norm(T - 1), i)
            dn = lambda i: self.P(norm(T + 1), i) + e.drift_coef(T) * self.down(norm(T + 1))(i)
            st = e.dphi
        else:
            up = lambda i: self.E(norm(T - 1), i) + self.kick(T, self.P(norm(T - 1), i) - e.drift_coef(norm(T - 1)) * self.E(norm(T - 1), i))
            dn = self.down(norm(T + 1))
            st = e.denergy
        return lambda i: z3.If(norm(T > self.T0), norm(up(i)), z3.If(norm(T < self.T0), norm(dn(i)), st(i)))

    def down(self, T):
        """EN(T - 1) for T <= T0"""
        return lambda i: self.E(T, i) - self.kick(T, self.P(T, i))


class KickAndDrift(Contract):
    name = "kick_and_drift"
    exported = True
    cost = 50
    params = dict(xp="real**", yp="real**", denergy="real*", dphi="real*", rf1v="real*", rf2v="real*", phi0="real*",
                  deltaE0="real*", drift_coef="real*", phi12="real*", hratio="real", dturns="int", rec_prof="int",
                  deltaturn="int", nturns="int", nparts="int", ftn_out="bool", callback="cb")
    modifies = ("xp", "yp", "denergy", "dphi", "$n")
    free_after = ("denergy", "dphi")
    NPROF = z3.Int("nprof")

    def arrays(self, e):
        n1 = norm(e.nturns + 1)
        r = dict(xp=(R, [self.NPROF, e.nparts]), yp=(R, [self.NPROF, e.nparts]), denergy=(R, [e.nparts]), dphi=(R, [e.nparts]))
        for nm in ("rf1v", "rf2v", "phi0", "deltaE0", "phi12"):
            r[nm] = (R, [n1])
        r["drift_coef"] = (R, [e.nturns])
        return r

    def requires(self, e):
        return pos(e.nparts, e.rec_prof) + [
            ("at least one profile", self.NPROF >= 1), ("dturns >= 1", e.dturns >= 1),
            ("nturns == (nprof - 1) * dturns", e.nturns == (self.NPROF - 1) * e.dturns),
            ("rec_prof < nprof", e.rec_prof < self.NPROF), ("deltaturn == 0", e.deltaturn == 0)]

    def fixed(self):
        return dict(deltaturn=z3.IntVal(0), nturns=norm((self.NPROF - 1) * z3.Int("dturns")))

    def orbit(self, e):
        if getattr(e, "_o", None) is None:
            e._o = Orbit(e)
        return e._o

    def templates(self, e, regions):
        o = self.orbit(e)
        return [Template(regions["dphi"], o.phi), Template(regions["denergy"], o.en)]

    def ensures(self, e):
        o = self.orbit(e)
        return dict(xp=lambda p, i: o.at("phi", p * e.dturns)(i), yp=lambda p, i: o.at("en", p * e.dturns)(i))

    def check_trace(self, eng, e, o):
        st = o.state.copy()
        j = fresh("J")
        st.assume(j >= 0, j < e.nturns)
        eng.oblige(o.state, o.state.vars["$n"] == e.nturns, "post", "number of progress callbacks", "post")
        t0, t1 = [o.state.mem[t] for t in o.state.vars["$trace"]]
        eng.sync(st)
        eng.oblige(st, And(t0(j) == j + 1, t1(j) == e.nturns), "post", "arguments of the progress callbacks", "post")


class CalcXpYp(Contract):
    name = "calc_xp_and_yp"
    params = dict(xp="real**", yp="real**", denergy="real*", dphi="real*", phi0="real", hnum="real", omega_rev0="real",
                  dtbin="real", xorigin="real", dEbin="real", yat0="real", profile="int", nparts="int")
    modifies = ("xp", "yp")
    NPROF = z3.Int("nprof")

    def arrays(self, e):
        return dict(xp=(R, [self.NPROF, e.nparts]), yp=(R, [self.NPROF, e.nparts]), denergy=(R, [e.nparts]), dphi=(R, [e.nparts]))

    def requires(self, e):
        return pos(e.nparts, e.profile) + [("profile < nprof", e.profile < self.NPROF)]

    def ensures(self, e):
        return dict(
            xp=lambda p, i: z3.If(p == e.profile, norm((e.dphi(i) + e.phi0) / (e.hnum * e.omega_rev0 * e.dtbin) - e.xorigin), e.xp(p, i)),
            yp=lambda p, i: z3.If(p == e.profile, norm(e.denergy(i) / e.dEbin + e.yat0), e.yp(p, i)))


ALL = [KickUp(), KickDown(), DriftUp(), DriftDown(), KickAndDrift(), CalcXpYp()]


if __name__ == "__main__":
    import os
    import sys
    from cfront import verify_unit
    base = os.environ.get("REPO", "/repo") + "/longitudinal_tomography/cpp_routines/"
    res = verify_unit(base + "kick_and_drift.cpp", ALL, want=tuple(os.environ.get("WANT", "double").split(",")), only=set(sys.argv[1:]) or None)
    for n, r in res.items():
        print(n, r["status"], r["reason"], "%.1fs" % r.get("secs", 0), len(r["obls"]))
        for o in r["obls"]:
            if not o.ok or os.environ.get("V"):
                print("   ", o)
