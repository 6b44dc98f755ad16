"""Helpers for checks on distributed arrays: every rank knows the global reference."""

import numpy as np

from .core import rand_array

DTYPES = [
    "f8", "f4", "c16", "c8", "i8", "i4", "u1", "?", "S5", "U3",
    [("a", "i4"), ("b", "f8")],
]  # fmt: skip


def split(n, m):
    """Independent statement of the documented layout: consecutive, remainder first."""
    base, rem = divmod(n, m)
    out, pos = [], 0
    for i in range(m):
        k = base + (1 if i < rem else 0)
        out.append((pos, pos + k))
        pos += k
    return out


def bounds(n, comm):
    return split(n, comm.size)[comm.rank]


def local_sl(ndim, axis, n, comm):
    s, e = bounds(n, comm)
    sl = [slice(None)] * ndim
    sl[axis] = slice(s, e)
    return tuple(sl)


def axis_len(c, small=9):
    return c.pick([1, 2, 3, c.int(1, small), c.int(1, small), c.int(0, small)])


def gen_ref(c, ndim=None, dtypes=DTYPES, small=9, minlen=0):
    ndim = ndim or c.pick([1, 2, 2, 3, 3, 4])
    shape = tuple(max(minlen, axis_len(c, small if ndim < 4 else 5)) for _ in range(ndim))
    dt = np.dtype(c.pick(dtypes))
    return rand_array(c.rng, shape, dt)


def pick_comm(c):
    """The world, a duplicate, or a proper sub-communicator (all ranks take part)."""
    from mpi4py import MPI

    k = c.int(0, 3)
    if k == 0:
        return None, MPI.COMM_WORLD, "default"
    if k == 1 and c.size > 2:
        key = c.rank if c.chance(0.5) else -c.rank
        return (sub := c.comm.Split(c.rank % 2, key)), sub, "split"
    if k == 2 and c.size > 1 and c.chance(0.6):
        return (sub := c.comm.Split(0, -c.rank)), sub, "reversed"
    return c.comm, c.comm, "dup"


def make(mpiarray, ref, axis, comm_arg, comm):
    """A distributed array holding `ref`."""
    a = mpiarray.MPIArray(ref.shape, axis=axis, comm=comm_arg, dtype=ref.dtype)
    ax = axis % ref.ndim
    a.local_array[...] = ref[local_sl(ref.ndim, ax, ref.shape[ax], comm)]
    return a


def verify(c, arr, ref, axis, comm, msg, dtype=True):
    """`arr` is exactly `ref` distributed over `axis`: data and every piece of metadata."""
    from caput import mpiarray

    c.check(isinstance(arr, mpiarray.MPIArray), f"{msg}: result is a {type(arr).__name__}")
    c.check(arr.axis == axis, f"{msg}: distributed axis {arr.axis}, expected {axis}")
    c.check(
        tuple(arr.global_shape) == ref.shape,
        f"{msg}: global shape {arr.global_shape}, expected {ref.shape}",
    )
    s, e = bounds(ref.shape[axis], comm)
    want = ref[local_sl(ref.ndim, axis, ref.shape[axis], comm)]
    c.check(tuple(arr.local_shape) == want.shape, f"{msg}: local shape {arr.local_shape} != {want.shape}")
    off = [0] * ref.ndim
    off[axis] = s
    c.check(list(map(int, arr.local_offset)) == off, f"{msg}: offset {arr.local_offset} != {off}")
    lb = arr.local_bounds
    c.check((int(lb.start), int(lb.stop)) == (s, e), f"{msg}: local bounds {lb} != {(s, e)}")
    c.check(arr.comm == comm, f"{msg}: communicator changed")
    la = arr.local_array
    c.check(type(la) is np.ndarray, f"{msg}: local_array is {type(la)}")
    c.same(la, want, f"{msg}: local data", dtype=dtype)
