import numpy as np
from base import Bad, need, raises, same
import lib
from lib import libtomo


def cases(tier, rng):
    while True:
        n, nb = int(rng.integers(0, 12)), int(rng.integers(1, 9))
        x, y = rng.integers(0, nb, n), rng.integers(0, nb, n)
        if n and rng.random() < 0.4:
            i = int(rng.integers(n))
            v = int(rng.choice([-1, nb, nb + 1, -nb, -7]))
            if rng.random() < 0.5:
                x[i] = v
            else:
                y[i] = v
        d = dict(x=x, y=y, w=rng.normal(0, 1, n), nb=nb, single=bool(rng.random() < 0.2))
        yield "image", d
        yield "module", {k: d[k] for k in ("x", "y", "w", "nb")} | dict(sx=float(rng.normal(3, 2)), sy=float(rng.normal(3, 2)), dt=float(rng.random() + .1), dE=float(rng.random() + .1))


def ref(x, y, w, nb):
    if ((x < 0) | (x >= nb) | (y < 0) | (y >= nb)).any():
        return None
    r = np.zeros((nb, nb))
    np.add.at(r, (x, y), w)
    return r


def check_image(x, y, w, nb, single):
    x, y, w = np.array(x, np.int32), np.array(y, np.int32), np.array(w, np.float32 if single else float)
    r = ref(x, y, w, nb)
    got = []
    e = raises(lambda: got.append(libtomo.make_phase_space(x, y, w, nb)))
    need((e is not None) == (r is None), f"error {e!r}; particles inside of the image: {r is not None}")
    if r is not None:
        same(got[0], r, "image", 1e-5 if single else 1e-9, 1e-5 if single else 1e-10)
        same(got[0].sum(), w.sum(), "total weight", 1e-4, 1e-4)


def check_module(x, y, w, nb, sx, sy, dt, dE):
    from longitudinal_tomography.data import data_treatment as dtm
    from rt_p03 import Mach
    x, y, w = np.array(x, np.int32), np.array(y, np.int32), np.array(w, float)
    r = ref(x, y, w, nb)
    if r is None:
        return
    T, E, D = dtm.phase_space_from_coordinates(x, y, w, nb, sx, sy, dt, dE)
    same(D, r, "density")
    same(T, (np.arange(nb) - sx) * dt, "time axis", 1e-9, 1e-9)
    same(E, (np.arange(nb) - sy) * dE, "energy axis", 1e-9, 1e-9)
    xs, ys = np.stack([(x + 1) % nb, x], axis=1), np.stack([(y + 1) % nb, y], axis=1)
    T, E, D = dtm.phase_space(Mach(xp=xs, yp=ys, weight=w), Mach(nbins=nb, synch_part_x=sx, synch_part_y=sy, dtbin=dt, dEbin=dE), 1)
    same(D, r, "density of profile 1")
    same(T, (np.arange(nb) - sx) * dt, "time axis", 1e-9, 1e-9)
    same(E, (np.arange(nb) - sy) * dE, "energy axis", 1e-9, 1e-9)
