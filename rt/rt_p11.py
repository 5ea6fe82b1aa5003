import numpy as np
from base import need, raises, same
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography import exceptions as ex


def cases(tier, rng):
    while True:
        P, N, w = int(rng.integers(1, 6)), int(rng.integers(1, 9)), int(rng.integers(1, 9))
        xp = rng.random((P, N)) * w
        m = rng.integers(0, 5)
        if m:
            k = rng.random(xp.shape) < rng.choice([0.05, 0.15, 0.5])
            xp[k] = rng.choice([-0.5, -1e-12, float(w), w + 0.25, -3.0, 1e6], k.sum())
        if m == 3:
            xp = np.floor(xp)
        if m == 4:
            xp[rng.integers(P), rng.integers(N)] = np.nan
        d = dict(xp=xp, yp=rng.normal(3, 4, (P, N)), w=w)
        yield "filter", d
        yield "ready", d


def keep_of(xp, w):
    with np.errstate(invalid="ignore"):
        return np.all((xp >= 0) & (xp < w), axis=0)


def check_filter(xp, yp, w):
    xp, yp = np.array(xp, float), np.array(yp, float)
    x0, y0 = xp.copy(), yp.copy()
    k = keep_of(xp, w)
    got = []
    e = raises(lambda: got.append(pts.filter_lost(xp, yp, w)), ex.InvalidParticleError)
    need((e is None) == bool(k.any()), f"{k.sum()} particles are inside of the image, error {e!r}")
    if e is None:
        x, y, lost = got[0]
        same(x, x0[:, k], "x of the kept particles", 0, 0)
        same(y, y0[:, k], "y of the kept particles", 0, 0)
        need(lost == (~k).sum(), f"{lost} lost particles reported, {(~k).sum()} lost")
    same(xp, x0, "x after the call", 0, 0)
    same(yp, y0, "y after the call", 0, 0)


def check_ready(xp, yp, w):
    xp, yp = np.array(xp, float), np.array(yp, float)
    k = keep_of(xp, w)
    got = []
    e = raises(lambda: got.append(pts.ready_for_tomography(xp, yp, w)), ex.InvalidParticleError)
    need((e is None) == bool(k.any()), f"{k.sum()} particles are inside of the image, error {e!r}")
    if e is None:
        x, y = got[0]
        same(x, np.floor(xp[:, k]).T, "bins", 0, 0)
        same(y, np.trunc(yp[:, k]).T, "y bins", 0, 0)
        need(np.issubdtype(x.dtype, np.integer) and np.issubdtype(y.dtype, np.integer), "coordinates are not integers")
