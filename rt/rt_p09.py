import numpy as np
from base import need, raises, same
from longitudinal_tomography.utils import tomo_input as ti
from longitudinal_tomography import exceptions as ex


def cases(tier, rng):
    while True:
        nf, nb = int(rng.integers(1, 6)), int(rng.integers(1, 8))
        d = dict(nf=nf, nb=nb, sf=int(rng.integers(0, nf)), s=int(rng.integers(0, nb)), rb=int(rng.integers(1, 4)), as_list=bool(rng.random() < 0.3))
        d["e"] = int(rng.integers(0, nb - d["s"]))
        m = rng.random()
        if m < 0.4:
            k = rng.choice(["sf", "s", "e", "rb", "nf", "nb"])
            d[str(k)] = int(rng.choice([-1, 0, nf, nb, nb - 1, nb + 1]))
        n = max(0, d["nf"] * d["nb"] + int(rng.choice([0, 0, 0, 0, 1, -1])))
        yield "window", d | dict(raw=rng.normal(0, 1, n))
        yield "stored", dict(nf=nf, nb=nb, raw=rng.normal(0, 1, max(0, nf * nb + int(rng.choice([0, 0, 1, -1])))))


def check_window(nf, nb, sf, s, e, rb, as_list, raw):
    f = ti.Frames(nf, nb, sf, s, e, rb, 1e-9)
    raw = raw if as_list else np.array(raw, float)
    keep = np.array(raw, float)
    valid = nf > 0 and 0 <= sf < nf and nb > 0 and s >= 0 and e >= 0 and s + e < nb and rb >= 1
    n = nf * nb
    got = []
    x = raises(lambda: got.append(f.to_waterfall(raw)), ex.RawDataImportError, ex.InputError)
    if len(raw) != n:
        return need(isinstance(x, ex.RawDataImportError), f"{len(raw)} values for {nf} frames of {nb} bins: {x!r}")
    need((x is None) == valid, f"frame description valid: {valid}, error: {x!r}")
    if not valid:
        return
    same(got[0], keep.reshape(nf, nb)[sf:nf, s:nb - e], "waterfall", 0, 0)
    same(np.asarray(raw), keep, "raw data after the call", 0, 0)
    need(got[0].shape == (f.nprofs(), f.nbins()), "announced size")
    w = got[0]
    if isinstance(raw, np.ndarray) and w.size:
        w[:] = 7
        same(raw, keep, "raw data after the waterfall was modified", 0, 0)


def check_stored(nf, nb, raw):
    f = ti.Frames(nf, nb, 0, 0, 0, 1, 1e-9)
    raw = np.array(raw, float)

    def put():
        f.raw_data = raw
    x = raises(put, ex.RawDataImportError)
    need((x is None) == (len(raw) == nf * nb), f"{len(raw)} values for {nf} frames of {nb} bins: {x!r}")
    if x is None:
        keep = raw.copy()
        raw[:] = 3
        same(f.raw_data, keep, "raw data", 0, 0)
        f.raw_data[:] = 5
        same(f.raw_data, keep, "raw data after a copy was modified", 0, 0)
    need(raises(lambda: setattr(f, "raw_data", 3), ex.RawDataImportError) is not None, "a number was accepted as raw data")
