"""Contracts of the compiled library as seen from Python.  Each one records the call (so that a contract can state
what was handed over) and returns what the verified C++ contract of the routine (spec_*.py) allows."""
import z3

from term import I, R, And, Unsupported, norm, num


def library(it):
    import pynp

    def rec(name, args, kw, **extra):
        it.calls.append((name, dict(args=list(args), kw=dict(kw), **extra)))

    def reconstruct(it_, args, kw):
        names = ["xp", "waterfall", "n_iter", "n_bins", "n_particles", "n_profiles", "verbose", "callback"]
        a = dict(zip(names, args), **kw)
        w = pynp.fresh_array(it_, "weight", [a["n_particles"]], "f")
        d = pynp.fresh_array(it_, "diff", [norm(num(a["n_iter"]) + 1)], "f")
        r = pynp.fresh_array(it_, "recreated", [a["n_profiles"], a["n_bins"]], "f")
        rec("reconstruct", args, kw, named=a, result=(w, d, r))
        return (w, d, r)

    def kick_and_drift(it_, args, kw):
        names = ["xp", "yp", "denergy", "dphi", "rfv1", "rfv2", "phi0", "deltaE0", "drift_coef", "phi12", "h_ratio", "dturns", "rec_prof", "deltaturn", "nturns", "nparts", "ftn_out",
                 "callback"]
        a = dict(zip(names, args), **kw)
        snap = {k: (pynp.make(v.shape, v.dtype, v.snap()) if isinstance(v, pynp.NDArr) else v) for k, v in a.items()}
        rec("kick_and_drift", args, kw, named=a, snapshot=snap)
        for n in ("xp", "yp", "denergy", "dphi"):
            v = a[n]
            if not isinstance(v, pynp.NDArr):
                raise Unsupported("kick_and_drift without arrays")
            f = it_.symfn("tracked_" + n, *[I] * v.ndim, R)
            pynp.assign(it_, v, (Ellipsis,), pynp.make(v.shape, "f", lambda *ix, f=f: f(*ix)))
        return (a["xp"], a["yp"])

    def make_phase_space(it_, args, kw):
        a = dict(zip(["xp", "yp", "weights", "n_bins"], args), **kw)
        r = pynp.fresh_array(it_, "image", [a["n_bins"], a["n_bins"]], "f")
        rec("make_phase_space", args, kw, named=a, result=r)
        return r

    def other(n):
        def f(it_, args, kw):
            raise Unsupported(f"libtomo.{n}")
        return f
    ns = dict(reconstruct=reconstruct, kick_and_drift=kick_and_drift, make_phase_space=make_phase_space)
    for n in ("back_project", "project", "kick", "drift", "reconstruct_multi", "reconstruct_old", "count_particles_in_bins_multi"):
        ns[n] = other(n)
    return ns
