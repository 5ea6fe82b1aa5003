"""Run-time evaluation of the contracts on seeded concrete inputs (bounded stand-in and source of
failing inputs for the deductive checks).  Runs under the repository's own interpreter against a
freshly built scratch copy of the working tree."""
import json
import sys

import numpy as np


class Bad(Exception):
    """the property fails on this input"""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def same(a, b, what, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, f"{what}: shape {a.shape}, contract says {b.shape}")
    if a.size == 0:
        return
    a, b = a.astype(float), b.astype(float)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Bad(f"{what}{list(i)} = {a[i]!r}, contract says {b[i]!r}")


def raises(fn, *exc):
    """exception raised by fn, or None"""
    try:
        fn()
    except exc or Exception as e:
        return e
    return None


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x
