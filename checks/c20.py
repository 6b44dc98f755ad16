"""C20 invert_no_zero."""

import warnings

import numpy as np

from vf import mpi
from vf.core import group

from caput.algorithms import invert_no_zero
from caput.mpiarray import MPIArray

RULE = (
    "arrays, scalars and distributed arrays of all supported types with zeros (of both signs), values "
    "whose reciprocal would overflow, infinities and NaNs, in any memory layout, with or without an "
    "output array (in place, strided, another layout); every element is compared with the reciprocal; "
    "non-trivial when there are zero and non-zero elements; distinct by the array and layouts"
)
ASSUMPTIONS = ["complex values are within 2**+-900 of one (double) or 2**+-110 (single), or are zero"]

DT = [np.float32, np.float64, np.complex64, np.complex128]


def content(c, shape, dt):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    if dt.kind in "iu":
        return c.rng.integers(-4 if dt.kind == "i" else 0, 5, n).astype(dt).reshape(shape)
    real = np.finfo(dt).dtype
    r = c.pick([30, 30, 110] if real == np.float32 else [100, 100, 900])
    a = c.rng.standard_normal(n) * 2.0 ** c.rng.integers(-r, r, n)
    a[c.rng.random(n) < 0.25] = 0
    if dt.kind == "c":
        b = c.rng.standard_normal(n) * 2.0 ** c.rng.integers(-r, r, n)
        b[c.rng.random(n) < 0.4] = 0
        k = c.rng.random(n) < 0.5
        with np.errstate(all="ignore"):
            b[k] = a[k] * c.rng.standard_normal(int(k.sum()))
        z = np.empty(n, dt)
        z.real, z.imag = a, b
        return z.reshape(shape)
    a = a.astype(dt)
    f = np.finfo(dt)
    sp = np.array([0.0, -0.0, f.max, -f.max, f.tiny, -f.tiny, 1, -1, np.inf, -np.inf, np.nan, 0.5 / f.max, f.smallest_subnormal, 1e-300], dt)
    k = c.rng.random(n) < 0.2
    a[k] = sp[c.rng.integers(0, len(sp), int(k.sum()))]
    return a.reshape(shape)


def reference(x):
    x = np.asarray(x)
    with np.errstate(all="ignore"):
        if x.dtype.kind in "iu":
            x = x.astype(np.float64)
        if x.dtype.kind == "c":
            w = x.astype(np.clongdouble)
            m = w.real**2 + w.imag**2
            r = np.where(m == 0, 0, np.conj(w) / np.where(m == 0, 1, m))
            return r.astype(x.dtype)
        # values whose reciprocal is not finite count as zero
        return np.where(np.abs(x) < 1.0 / np.float64(np.finfo(x.dtype).max), 0, 1 / x).astype(x.dtype)


def judge(c, got, x, msg):
    w = reference(x)
    g = np.asarray(got)
    c.check(g.shape == np.shape(x), f"{msg}: shape {g.shape} for {np.shape(x)}")
    x = np.asarray(x)
    z = x == 0
    c.check((g[z] == 0).all() if g.ndim else (g == 0 or not z), f"{msg}: zeros are not kept: {g} for {x}")
    if g.dtype.kind == "c" or w.dtype.kind == "c":
        eps = 1e-6 if np.asarray(x).dtype == np.complex64 else 1e-14
        with np.errstate(all="ignore"):
            c.check((np.abs(g - w) <= 8 * eps * np.abs(w)).all(), f"{msg}: {g} for {x}, expected {w}")
    else:
        eps = 2.0**-22 if np.asarray(x).dtype == np.float32 or g.dtype == np.float32 else 2.0**-51
        sub = np.finfo(g.dtype).tiny
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= eps * np.abs(w) + sub * eps * 2) | (g == w) | ((g != g) & (w != w))
        c.check(ok.all(), f"{msg}: {g} for {x}, expected {w}")
    c.count("elements", g.size)


def layout(c, shape, dt):
    """An array in one of many layouts, and the memory around it."""
    k = c.pick(["c", "f", "strided", "reversed", "swapped", "cut"])
    if k == "f":
        b = np.zeros(shape, dt, order="F")
        return b, b, k
    if k == "strided" and len(shape):
        b = np.zeros((*shape[:-1], shape[-1] * 2 + 1), dt)
        return b[..., 1::2], b, k
    if k == "reversed" and len(shape):
        b = np.zeros(shape, dt)
        return b[::-1], b, k
    if k == "swapped" and len(shape) > 1:
        b = np.zeros((shape[-1], *shape[1:-1], shape[0]), dt)
        return np.swapaxes(b, 0, -1), b, k
    if k == "cut" and len(shape):
        b = np.zeros((shape[0] + 2, *shape[1:]), dt)
        return b[1:-1], b, k
    b = np.zeros(shape, dt)
    return b, b, "c"


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        return f(*a, **k)


@group(quick=3000, thorough=50000, env={"OMP_NUM_THREADS": "3"})
def arrays(c):
    """Numpy arrays, with and without an output."""
    dt = c.pick(DT)
    nd = c.int(1, 3)
    shape = tuple(c.int(0, 6) for _ in range(nd)) if c.chance(0.9) else (c.int(100, 3000),)
    x, base, lx = layout(c, shape, dt)
    base[...] = content(c, base.shape, dt)
    keep = base.copy()
    mode = c.pick(["new", "new", "inplace", "out", "out", "out"])
    c.note(x=x, layout=lx, mode=mode)
    val = x.copy()
    key = lx
    if mode == "new":
        r = quiet(invert_no_zero, x)
        c.check(isinstance(r, np.ndarray) and r.dtype == x.dtype, f"result type {type(r)}")
        c.check(not np.shares_memory(r, base) or not x.size, "the result shares the memory of the input")
        if x.flags.c_contiguous and x.size:
            c.check(r.flags.c_contiguous, "layout not kept (C)")
        elif x.flags.f_contiguous and x.size:
            c.check(r.flags.f_contiguous, "layout not kept (Fortran)")
        judge(c, r, val, f"{lx} array")
    elif mode == "inplace":
        r = quiet(invert_no_zero, x, x) if c.chance(0.5) else quiet(invert_no_zero, x, out=x)
        c.check(r is x, "the output array is not returned")
        judge(c, x, val, f"{lx} array in place")
        got = x.copy()
        x[...] = val
        c.check(base.tobytes() == keep.tobytes(), "memory outside of the array was changed")
        x[...] = got
        keep = None
    else:
        out, ob, lo = layout(c, shape, dt)
        ob[...] = 77
        key += lo
        before = ob.copy()
        r = quiet(invert_no_zero, x, out=out)
        c.check(r is out, "the output array is not returned")
        judge(c, out, val, f"{lx} array into {lo} output")
        out[...] = 77
        c.check(np.array_equal(ob, before), "memory outside of the output was changed")
    if keep is not None:
        c.check(base.tobytes() == keep.tobytes(), "the input was changed")
    if (val == 0).any() and (val != 0).any():
        c.nontrivial(val.tobytes(), key, mode)


@group(quick=600, thorough=6000)
def others(c):
    """Integers, scalars, lists and outputs of another kind."""
    k = c.pick(["int", "scalar", "zerod", "pyscalar", "intout", "shape"])
    c.note(kind=k)
    if k in ("int", "intout"):
        shape = tuple(c.int(0, 5) for _ in range(c.int(1, 3)))
        x = content(c, shape, c.pick([np.int64, np.int32, np.uint8, np.int16]))
        c.note(x=x)
        keep = x.copy()
        if k == "int":
            r = quiet(invert_no_zero, x)
        else:
            out = np.full(shape, 3.0)
            r = quiet(invert_no_zero, x, out=out)
            c.check(r is out, "the output array is not returned")
        c.check(np.asarray(r).dtype.kind == "f", f"type {np.asarray(r).dtype}")
        judge(c, r, keep, "integers")
        c.same(x, keep, "the input")
        c.nontrivial(x.tobytes(), k)
    elif k in ("scalar", "zerod"):
        x = content(c, (1,), c.pick(DT))[0]
        x = np.array(x) if k == "zerod" else x
        c.note(x=x)
        judge(c, quiet(invert_no_zero, x), x, k)
        c.nontrivial(np.asarray(x).tobytes(), k)
    elif k == "pyscalar":
        x = c.pick([2.0, -0.5, 4, 1, 0.125, 2 + 2j, 0, 0.0, -0.0, 0j])
        if c.chance(0.5):
            x = [c.pick([2.0, 0.0, 0.125, -4]) for _ in range(c.int(1, 4))]
            x = [x] if c.chance(0.3) else x
        if c.chance(0.3):
            r = quiet(invert_no_zero, x, out=np.full(np.shape(x), 9 + 1j if isinstance(x, complex) else 9.0))
        else:
            r = quiet(invert_no_zero, x)
        judge(c, r, np.array(x), f"plain {x}")
        c.nontrivial(repr(x))
    else:
        shape = (c.int(1, 5), c.int(1, 5))
        x = content(c, shape, np.float64)
        bad = c.pick([(shape[0] + 1, shape[1]), (shape[0] * shape[1],), (shape[1] + 1, shape[0] + 3), (1, *shape)])
        c.raises(ValueError, invert_no_zero, x, out=np.zeros(bad), msg=f"output {bad} for {shape}")
        c.nontrivial(shape, bad)


@group(quick=250, thorough=3000, mpi=(1, 2, 3))
def distributed(c):
    """Distributed arrays keep their distribution."""
    comm = mpi.sub_comm(c) if hasattr(mpi, "sub_comm") else c.comm
    dt = c.pick(DT)
    shape = tuple(c.int(1, 7) for _ in range(c.int(1, 3)))
    ax = c.int(0, len(shape) - 1)
    full = content(c, shape, dt)
    mode = c.pick(["new", "out", "inplace"])
    c.note(shape=str(shape), axis=ax, mode=mode, dt=dt.__name__)
    x = MPIArray(shape, axis=ax, comm=comm, dtype=dt)
    sl = tuple(slice(o, o + n) for o, n in zip(x.local_offset, x.local_shape))
    x.local_array[...] = full[sl]
    if mode == "new":
        r = invert_no_zero(x)
    elif mode == "out":
        out = MPIArray(shape, axis=ax, comm=comm, dtype=dt)
        r = invert_no_zero(x, out=out)
        c.check(r is out, "the output array is not returned")
    else:
        r = invert_no_zero(x, out=x)
        c.check(r is x, "the output array is not returned")
    c.check(isinstance(r, MPIArray), f"result {type(r)}")
    c.check(r.global_shape == shape and r.axis == ax and r.comm is x.comm, f"distribution {r.global_shape} {r.axis}")
    c.check(tuple(r.local_offset) == tuple(x.local_offset), "offset")
    judge(c, r.local_array, full[sl], "the local part")
    if mode != "inplace":
        c.same(x.local_array, full[sl], "the input")
    if (full == 0).any() and (full != 0).any():
        c.nontrivial(full.tobytes(), ax, mode)
