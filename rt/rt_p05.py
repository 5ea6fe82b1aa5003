"""Memory safety: the compiled routines under AddressSanitizer, on valid inputs, with the array blocks counted."""
import ctypes
import gc
import importlib

from base import need, raises
from lib import libtomo
import rt_p01
import rt_p03
import rt_p04
import rt_p07
import rt_p08

blocks = ctypes.CDLL(libtomo.__file__).verif_live_blocks
blocks.restype = ctypes.c_long


def cases(tier, rng):
    mods = [rt_p01, rt_p03, rt_p04, rt_p07, rt_p08]
    gens = [m.cases(tier, rng) for m in mods]
    while True:
        for g, m in zip(gens, mods):
            k, d = next(g)
            yield "call", dict(module=m.__name__, kind=k, args=d)
            if m is rt_p01 and rng.random() < 0.1:
                # no weight is left: the error path
                yield "call", dict(module="rt_p01", kind="reconstruct", args=dict(d, wf=(-abs(d["wf"])).tolist(), niter=1, single=False, threads=2))


def check_call(module, kind, args):
    f = getattr(importlib.import_module(module), "check_" + kind)
    before = blocks()
    raises(lambda: f(**args))
    if blocks() != before:
        gc.collect()
    need(blocks() <= before, f"{blocks() - before} allocated blocks are never freed ({module[3:]}.{kind})")
