"""The same call with its data in other forms: strided, Fortran-ordered, reversed and read-only arrays, integer types where the
values are integers, numpy scalars for numbers and indices. The value must not depend on the form."""
import numpy as np

from vlib import gen


def scalar(rng, x):
    """A number in another type of the same value."""
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, np.integer)):
        return (int(x), np.int64(x), np.int32(x), np.intp(x))[int(rng.integers(4))]
    if isinstance(x, (float, np.floating)):
        if float(x).is_integer() and rng.integers(2):
            return (int(x), np.int64(x), np.float64(x))[int(rng.integers(3))]
        return (float(x), np.float64(x))[int(rng.integers(2))]
    return x


def other(rng, x, ints=True):
    """The argument in another form; lists keep their type, their elements change type."""
    if isinstance(x, np.ndarray):
        y = x
        if ints and x.dtype.kind == "f" and np.all(x == np.round(x)) and np.abs(x).max(initial=0) < 2**30:
            y = x.astype((np.int64, np.int32, np.float64)[int(rng.integers(3))])
        y = gen.layout(rng, y)
        if rng.integers(4) == 0:
            y = y.view()
            y.flags.writeable = False
        return y
    if isinstance(x, list):
        return [scalar(rng, v) if not isinstance(v, (list, tuple, np.ndarray)) else v for v in x]
    if isinstance(x, dict):
        return {scalar(rng, k): scalar(rng, v) for k, v in x.items()}
    return scalar(rng, x)


def flat(x):
    if isinstance(x, (bool, np.bool_)):
        return [np.asarray(float(x))]
    if isinstance(x, (tuple, list)) and any(isinstance(v, np.ndarray) for v in x):
        return [np.asarray(v) for v in x]
    return [np.asarray(x)]


def same(ctx, name, f, args, kw, desc="", rtol=1e-9, atol=1e-11, before=None, ints=True):
    """f with the given (plain, float) arguments, and with one random choice of other forms."""
    rng = ctx.rng
    with ctx.case(f"{name} in other forms {desc}"):
        plain = [np.array(a, dtype=float if a.dtype.kind in "iu" else None, order="C") if isinstance(a, np.ndarray) else a for a in args]
        if before:
            before()
        ref = flat(f(*plain, **kw))
        alt = [other(rng, a, ints) for a in plain]
        kw2 = {k: other(rng, v) for k, v in kw.items()}
        if before:
            before()
        got = flat(f(*alt, **kw2))
        how = [f"{a.dtype}{'' if a.flags.c_contiguous else ' strided'}{'' if a.flags.writeable else ' read-only'}" if isinstance(a, np.ndarray) else type(a).__name__ for a in alt]
        if ctx.check(len(ref) == len(got), f"{name}: {len(got)} results instead of {len(ref)}"):
            for r, g in zip(ref, got):
                ctx.close(f"{name} of {how}", g, r, rtol=rtol, atol=atol, scale=max(1.0, float(np.abs(r).max(initial=0))), key="forms")
        ctx.nontrivial(name, *plain, str(sorted(kw)))
