"""Reference evaluation of the documented iteration and map, written from the documentation."""
import numpy as np
from longitudinal_tomography.cpp_routines import libtomo


def flat(xp, nbins):
    xp = np.asarray(xp)
    return xp + nbins * np.arange(xp.shape[1])[None, :]


def counts(fp, size):
    return np.bincount(fp.ravel(), minlength=size).astype(float)


def doubt(k, A, P, margin):
    """how far rounding is from changing the verdict that no weight is left"""
    if k == 0 and (P >= 0).all() or A.size == 0:
        return margin
    return min(margin, -A.max())


def _iteration(xp, P, niter):
    """-> weights, recreated, discrepancies, (min |total| seen), stuck"""
    xp, P = np.asarray(xp, dtype=int), np.asarray(P, dtype=float)
    nprof, nbins = P.shape
    fp = flat(xp, nbins)
    c = counts(fp, nprof * nbins)
    C = c.max(initial=0) / np.maximum(1, c)
    A = P.ravel()[fp].sum(axis=1)
    W = np.maximum(0, A)
    D, margin = [], np.inf

    def proj(W):
        Q = np.bincount(fp.ravel(), weights=np.repeat(W, nprof), minlength=nprof * nbins).reshape(nprof, nbins)
        return Q / Q.sum(axis=1)[:, None]
    R = None
    for k in range(niter + 1):
        tot = W.sum()
        if tot <= 0:
            return W, R, D, doubt(k, A, P, margin), True
        margin = min(margin, tot)
        R = proj(W)
        d = P - R
        D.append(np.sqrt((d ** 2).sum() / (nprof * nbins)))
        if k < niter:
            A = W + (d.ravel() * C)[fp].sum(axis=1)
            W = np.maximum(0, A)
    return W, R, np.array(D), margin, False


def _iteration_multi(xp, P, cutl, cutr, centers, niter):
    xp, P = np.asarray(xp, dtype=int), np.asarray(P, dtype=float)
    nprof, nbins = P.shape
    fp = flat(xp, nbins)
    allfp = np.array([fp + c for c in centers])
    mask = np.array([np.all((xp + c >= l) & (xp + c <= r), axis=1) for c, l, r in zip(centers, cutl, cutr)])
    c = counts(allfp, nprof * nbins)
    C = c.max(initial=0) / np.maximum(1, c)
    A = P.ravel()[allfp].sum(axis=2) * mask
    W = np.maximum(0, A)
    D, DS, margin, R = [], [], np.inf, None
    for k in range(niter + 1):
        tot = W.sum()
        if tot <= 0:
            return W.ravel(), R, D, DS, doubt(k, A[mask], P, margin), True
        margin = min(margin, tot)
        Q = np.bincount(allfp.ravel(), weights=np.repeat(W.ravel(), nprof), minlength=nprof * nbins).reshape(nprof, nbins)
        R = Q / Q.sum(axis=1)[:, None]
        d = P - R
        D.append(np.sqrt((d ** 2).sum() / (nprof * nbins)))
        DS.append([np.sqrt((d[:, l:r] ** 2).sum() / (nprof * (r - l))) for l, r in zip(cutl, cutr)])
        if k < niter:
            A = W + (d.ravel() * C)[allfp].sum(axis=2) * mask
            W = np.maximum(0, A)
    return W.ravel(), R, np.array(D), np.array(DS), margin, False


def stable(fn, P, single=False):
    """the result, with the margin set to 0 where rounding errors are amplified too much to compare"""
    P = np.asarray(P, dtype=float)
    r = fn(P)
    eps, tol = (1e-6, 1e-3) if single else (1e-13, 1e-10)
    bad = False
    for s in (7, 3.1, 0.77):
        noise = np.sin(1 + s * np.arange(P.size)).reshape(P.shape)
        q = fn(P * (1 + eps * noise))
        bad = bad or r[-1] != q[-1]
        if not bad and not r[-1]:
            for a, b in zip(r[:-2], q[:-2]):
                a, b = np.asarray(a), np.asarray(b)
                if a.size and np.abs(a - b).max() > tol * max(1, np.abs(a).max()):
                    bad = True
    return (*r[:-2], 0.0, r[-1]) if bad else r


def iteration(xp, P, niter, single=False):
    return stable(lambda p: _iteration(xp, p, niter), P, single)


def iteration_multi(xp, P, cutl, cutr, centers, niter, single=False):
    return stable(lambda p: _iteration_multi(xp, p, cutl, cutr, centers, niter), P, single)


def rand_wf(rng, nprof, nbins, neg=True):
    P = rng.random((nprof, nbins))
    m = rng.integers(0, 4)
    if m == 0 and neg:
        P -= 0.4
    elif m == 1:
        P[rng.random(P.shape) < 0.5] = 0
    elif m == 2:
        P = np.zeros((nprof, nbins))
        P[np.arange(nprof), rng.integers(0, nbins, nprof)] = 1
    return P


def rand_xp(rng, npart, nprof, nbins):
    m = rng.integers(0, 4)
    if m == 0:
        return rng.integers(0, nbins, (npart, nprof))
    if m == 1:                       # concentrated
        return np.clip(rng.normal(nbins / 2, nbins / 8 + 0.1, (npart, nprof)).astype(int), 0, nbins - 1)
    if m == 2:                       # edges
        return rng.choice([0, nbins - 1], (npart, nprof))
    x = np.tile(rng.integers(0, nbins, (npart, 1)), (1, nprof))
    return x


def dims(rng, big=False):
    if big and rng.random() < 0.1:
        return int(rng.integers(50, 300)), int(rng.integers(2, 12)), int(rng.integers(5, 40))
    return int(rng.integers(1, 14)), int(rng.integers(1, 6)), int(rng.integers(1, 9))


def orbit(dphi, den, rf1, rf2, phi0, dE0, drift, phi12, hr, nprof, dturns, recprof):
    """rows p: coordinates at turn p * dturns"""
    nt = (nprof - 1) * dturns
    phi12 = np.broadcast_to(phi12, (nt + 1,))

    def kick(T, x):
        return rf1[T] * np.sin(x + phi0[T]) + rf2[T] * np.sin(hr * (x + phi0[T] - phi12[T])) - dE0[T]
    P, E = {}, {}
    t0 = recprof * dturns
    P[t0], E[t0] = np.array(dphi, float), np.array(den, float)
    for T in range(t0, nt):
        P[T + 1] = P[T] - drift[T] * E[T]
        E[T + 1] = E[T] + kick(T + 1, P[T + 1])
    for T in range(t0, 0, -1):
        E[T - 1] = E[T] - kick(T, P[T])
        P[T - 1] = P[T] + drift[T - 1] * E[T - 1]
    return np.array([P[p * dturns] for p in range(nprof)]), np.array([E[p * dturns] for p in range(nprof)])
