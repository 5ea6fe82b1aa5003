import numpy as np
from base import need, raises
from rt_p03 import Mach
from longitudinal_tomography import assertions as asrt, exceptions as ex

SCALAR = dict(assert_greater=lambda v, l: v > l, assert_less=lambda v, l: v < l, assert_equal=lambda v, l: v == l, assert_not_equal=lambda v, l: v != l,
              assert_less_or_equal=lambda v, l: v <= l, assert_greater_or_equal=lambda v, l: v >= l)
ARRAY = dict(assert_array_greater=lambda v, l: v > l, assert_array_greater_eq=lambda v, l: v >= l, assert_array_less=lambda v, l: v < l, assert_array_less_eq=lambda v, l: v <= l)
POSITIVE = ("dtbin", "dturns", "niter", "snpt", "h_num", "b0", "mean_orbit_rad", "bending_rad", "e_rest")
NOTNEG = ("machine_ref_frame", "beam_ref_frame", "h_ratio")
SPACE = ("pickup_sensitivity", "g_coupling")
VALUES = [-2, -1, -.5, 0, .5, 1, 2, 3]


def cases(tier, rng):
    pick = lambda: rng.choice(VALUES)
    while True:
        yield "scalar", dict(name=str(rng.choice(list(SCALAR))), var=float(pick()), limit=float(pick()))
        yield "range", dict(var=float(pick()), low=float(pick()), up=float(pick()))
        yield "array", dict(name=str(rng.choice(list(ARRAY))), a=rng.choice(VALUES, int(rng.integers(1, 5)) if rng.random() < .9 else 0), limit=float(pick()))
        yield "array_range", dict(a=rng.choice(VALUES, (int(rng.integers(1, 4)), int(rng.integers(1, 3)))), low=float(pick()), up=float(pick()))
        yield "particles", dict(x=rng.choice([0, 0, 1, 2, 3, 4, -1], (int(rng.integers(1, 4)), int(rng.integers(1, 4)))), n=int(rng.integers(1, 6)))
        yield "index", dict(i=int(rng.integers(-7, 8)), n=int(rng.integers(1, 6)), wrap=bool(rng.random() < .5))
        yield "shapes", dict(a=[int(rng.integers(1, 3)), int(rng.integers(1, 3))], b=[int(rng.integers(1, 3)), int(rng.integers(1, 3))], n=int(rng.integers(1, 4)))
        m = {k: float(rng.choice([.5, 1, 2])) for k in POSITIVE} | {k: float(rng.choice([0, 1])) for k in NOTNEG} | {k: rng.choice([None, 0., 1.]) for k in SPACE}
        m["filmstart"] = int(rng.integers(0, 3))
        m["filmstop"] = m["filmstart"] + int(rng.integers(0, 3))
        m["filmstep"] = int(rng.integers(1, m["filmstop"] - m["filmstart"] + 2)) * int(rng.choice([1, -1]))
        for _ in range(int(rng.choice([0, 1, 1, 1, 2]))):
            k = str(rng.choice(list(m)))
            m[k] = [None, -1, 0, 1, 2, 5, -0.25][int(rng.integers(0, 7))]
        yield "machine", m


def check_scalar(name, var, limit):
    e = raises(lambda: getattr(asrt, name)(var, "value", limit, ex.InputError, "text"), ex.InputError)
    need((e is None) == SCALAR[name](var, limit), f"{name} of {var} against {limit}: {e!r}")


def check_range(var, low, up):
    e = raises(lambda: asrt.assert_inrange(var, "value", low, up, ex.InputError), ex.InputError)
    need((e is None) == (low <= var <= up), f"{var} in [{low}, {up}]: {e!r}")


def check_array(name, a, limit):
    a = np.array(a, float)
    e = raises(lambda: getattr(asrt, name)(a, limit, ex.InputError, "text", 2), ex.InputError)
    need((e is None) == bool(ARRAY[name](a, limit).all()), f"{name} of {a} against {limit}: {e!r}")
    if len(a):
        e = raises(lambda: asrt.assert_array_not_equal(a, "array", limit, ex.InputError), ex.InputError)
        need((e is None) == bool((a != limit).any()), f"not all elements of {a} are {limit}: {e!r}")


def check_array_range(a, low, up):
    a = np.array(a, float)
    e = raises(lambda: asrt.assert_array_in_range(a, low, up, ex.InputError), ex.InputError)
    need((e is None) == bool(((a >= low) & (a <= up)).all()), f"{a} in [{low}, {up}]: {e!r}")


def check_particles(x, n):
    x = np.array(x)
    e = raises(lambda: asrt.assert_only_valid_particles(x, n), ex.InvalidParticleError)
    need((e is None) == bool(((x >= 0) & (x < n)).all()), f"coordinates {x} in {n} bins: {e!r}")


def check_index(i, n, wrap):
    got = []
    e = raises(lambda: got.append(asrt.assert_index_ok(i, n, wrap_around=wrap)), IndexError, ex.NegativeIndexError)
    if i < 0 and not wrap:
        return need(isinstance(e, ex.NegativeIndexError), f"negative index {i}: {e!r}, {got}")
    if not -n <= i < n:
        return need(isinstance(e, IndexError), f"index {i} of {n}: {e!r}, {got}")
    need(got == [i % n], f"index {i} of {n}: {e!r}, {got}")


def check_shapes(a, b, n):
    x = [np.zeros(a), np.zeros(b)] + [np.zeros(a)] * (n - 2)
    x = x[:n]
    e = raises(lambda: asrt.assert_array_shape_equal(x, ["a"] * n, tuple(a)), ex.UnequalArrayShapes, AssertionError)
    if n < 2:
        return need(type(e) is AssertionError, f"one array compared: {e!r}")
    need((e is None) == (a == b) and (e is None or isinstance(e, ex.UnequalArrayShapes)), f"shapes {a} and {b}: {e!r}")


def check_machine(**m):
    e = raises(lambda: asrt.assert_machine_input(Mach(**m)), ex.MachineParameterError, ex.SpaceChargeParameterError)
    film = [m[k] for k in ("filmstart", "filmstop", "filmstep")]
    ok = all(m[k] is not None and m[k] > 0 for k in POSITIVE) and all(m[k] is not None and m[k] >= 0 for k in NOTNEG) and None not in film and \
        film[0] >= 0 and film[1] >= film[0] and film[2] != 0 and abs(film[2]) <= film[1] - film[0] + 1
    space = all(m[k] is None or m[k] >= 0 for k in SPACE)
    need((e is None) == (ok and space), f"machine parameters valid: {ok and space}, error {e!r}")
    if not ok:
        need(isinstance(e, ex.MachineParameterError), f"{e!r}")
    elif not space:
        need(isinstance(e, ex.SpaceChargeParameterError), f"{e!r}")
