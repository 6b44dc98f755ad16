"""C04 distributed arrays: indexing by global position."""

import warnings

import numpy as np

from vf import mpi
from vf.core import group

from caput import mpiarray
from caput.mpiarray import MPIArray

warnings.simplefilter("ignore")

RULE = (
    "random arrays, distributed axes and global indices (positive/negative/numpy integers, slices "
    "with negative and out-of-range ends and strides, ellipsis, fancy indices on local axes); every "
    "rank compares what it gets, or what it holds after an assignment, with numpy on the global "
    "array; non-trivial when more than one rank takes part; distinct by (shape, axis, index)"
)
ASSUMPTIONS = ["a rank which holds none of the selected elements may get None or an empty array"]


def _slice(c, n, steps=(None, None, 1, 2, 3)):
    def end():
        return c.pick([None, c.int(-n - 2, n + 2), c.int(0, max(n, 1))])

    return slice(end(), end(), c.pick(steps))


def _index(c, shape, axis, fancy=True):
    """Random index; returns it expanded (one entry per axis) and as passed."""
    full = []
    used_fancy = False
    for i, n in enumerate(shape):
        k = c.int(0, 9)
        if i == axis:
            if k < 3:
                full.append(slice(None))
            elif k < 6 and n > 0:
                v = c.int(-n, n - 1)
                full.append(np.int64(v) if c.chance(0.3) else v)
            else:
                full.append(_slice(c, n))
        elif k < 5:
            full.append(slice(None))
        elif k < 7 and n > 0:
            full.append(c.int(-n, n - 1))
        elif k == 7 and fancy and n > 0 and not used_fancy:
            used_fancy = True
            sel = [int(x) for x in c.rng.integers(0, n, c.int(1, 4))]
            full.append(np.array(sel))
        else:
            full.append(_slice(c, n, steps=(None, 1, 2, -1)))
    if used_fancy:
        # Mixing integers and arrays moves axes about in numpy: keep to one kind
        full = [slice(int(s), int(s) + 1 or None) if isinstance(s, (int, np.integer)) and i != axis else s for i, s in enumerate(full)]
        if isinstance(full[axis], (int, np.integer)):
            full[axis] = slice(None)
    idx = list(full)
    isfull = [isinstance(s, slice) and s == slice(None) for s in idx]
    k = c.int(0, 3)
    if k == 0 and any(isfull):
        i = c.pick([j for j, f in enumerate(isfull) if f])
        j = i
        while j + 1 < len(idx) and isfull[j + 1]:
            j += 1
        idx[i : j + 1] = [Ellipsis]
    elif k == 1:
        while len(idx) > 1 and isinstance(idx[-1], slice) and idx[-1] == slice(None):
            idx.pop()
    out = tuple(idx)
    if len(out) == 1 and isinstance(out[0], (int, np.integer, slice)) and c.chance(0.6):
        out = out[0]
    return full, out


def _owned(full, shape, axis, comm):
    """Global indices on the distributed axis which the index selects and this rank holds."""
    s, e = mpi.bounds(shape[axis], comm)
    d = full[axis]
    if isinstance(d, slice):
        sel = range(shape[axis])[d]
    else:
        sel = [int(d) % shape[axis]]
    return [i for i in sel if s <= i < e]


@group(quick=800, thorough=12000, mpi=(1, 2, 3, 4, 5))
def get(c):
    """Fetching with a global index gives this rank's share of what numpy gives."""
    comm_arg, comm, cname = mpi.pick_comm(c)
    ref = mpi.gen_ref(c, dtypes=["f8", "i4", "S5"], small=8)
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, comm_arg, comm)
    full, idx = _index(c, ref.shape, axis)
    c.note(shape=list(ref.shape), axis=axis, index=str(idx), comm=cname)
    got = a.global_slice[idx]
    d = full[axis]
    if isinstance(d, slice) and d == slice(None):
        want = ref[tuple(full)]
        axis2 = axis - sum(isinstance(s, (int, np.integer)) for s in full[:axis])
        mpi.verify(c, got, want, axis2, comm, f"global_slice[{idx}]")
        c.count("full")
    else:
        own = _owned(full, ref.shape, axis, comm)
        if not own:
            c.check(got is None or np.asarray(got).size == 0, f"rank without data got {got!r}")
            c.count("absent")
        else:
            if isinstance(d, slice):
                f2 = list(full)
                f2[axis] = slice(own[0], own[-1] + 1, own[1] - own[0] if len(own) > 1 else 1)
                want = ref[tuple(f2)]
            else:
                want = ref[tuple(full)]
            c.check(not isinstance(got, MPIArray), "partial selection gave a distributed array")
            c.same(got, want, f"global_slice[{idx}]")
            basic = not any(isinstance(s, np.ndarray) for s in full)
            if basic and isinstance(got, np.ndarray) and got.size:
                c.check(np.shares_memory(got, a.local_array), "partial selection is not a view")
            c.count("partial")
    mpi.verify(c, a, ref, axis, comm, "array after fetching")
    if comm.size > 1:
        c.nontrivial(ref.shape, axis, str(idx))
    if cname == "split":
        comm.Free()


@group(quick=800, thorough=12000, mpi=(1, 2, 3, 4, 5))
def put(c):
    """Assigning with a global index changes exactly the elements numpy would change."""
    comm_arg, comm, cname = mpi.pick_comm(c)
    ref = mpi.gen_ref(c, dtypes=["f8", "i4", "c8"], small=8)
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, comm_arg, comm)
    want = ref.copy()
    for _ in range(c.int(1, 4)):
        full, idx = _index(c, ref.shape, axis, fancy=c.chance(0.3))
        n = ref.shape[axis]
        mode = c.pick(["scalar", "scalar", "row", "mpi", "absent"])
        d = full[axis]
        isfull = isinstance(d, slice) and d == slice(None)
        val = c.int(-100, 100)
        if mode == "absent":
            # A position beyond the end exists on no rank
            full[axis] = n + c.int(0, 2)
            idx = tuple(full)
            a.global_slice[idx] = val
            c.count("absent")
        elif mode == "mpi" and isfull:
            tgt = want[tuple(full)]
            axis2 = axis - sum(isinstance(s, (int, np.integer)) for s in full[:axis])
            v = c.rng.integers(-50, 50, tgt.shape).astype(ref.dtype)
            dv = mpi.make(mpiarray, v, axis2, comm_arg, comm)
            a.global_slice[idx] = dv
            want[tuple(full)] = v
            c.count("mpi")
        elif mode == "row":
            # An array which broadcasts along the distributed axis
            tgt = want[tuple(full)]
            if isinstance(d, slice):
                axis2 = axis - sum(isinstance(s, (int, np.integer)) for s in full[:axis])
                shp = [1 if k == axis2 else m for k, m in enumerate(tgt.shape)]
            else:
                shp = tgt.shape
            v = c.rng.integers(-50, 50, shp).astype(ref.dtype)
            a.global_slice[idx] = v
            want[tuple(full)] = v
            c.count("row")
        else:
            a.global_slice[idx] = val
            want[tuple(full)] = val
            c.count("scalar")
        c.note(shape=list(ref.shape), axis=axis, index=str(idx), comm=cname, mode=mode)
        mpi.verify(c, a, want, axis, comm, f"after global_slice[{idx}] = ...")
    if comm.size > 1:
        c.nontrivial(ref.shape, axis, c.desc["index"], c.desc["mode"])
    if cname == "split":
        comm.Free()


@group(quick=60, thorough=600, mpi=(2, 3, 4))
def refuse(c):
    """A reversed order along the distributed axis is refused, not silently misread."""
    ref = mpi.gen_ref(c, dtypes=["f8"], small=8, minlen=1)
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, c.comm, c.comm)
    idx = [slice(None)] * ref.ndim
    idx[axis] = slice(None, None, -c.int(1, 3))
    c.note(shape=list(ref.shape), axis=axis)
    c.raises((IndexError, ValueError), lambda: a.global_slice[tuple(idx)], msg="negative step")
    # Indices that fit no element are refused by every rank with elements, and nothing is changed
    bad = (slice(None),) * (ref.ndim + 1)
    if axis < ref.ndim - 1 and c.chance(0.5):
        bad = (slice(None),) * (ref.ndim - 1) + (c.pick([ref.shape[-1], -ref.shape[-1] - 1]),)
    before = a.local_array.copy()
    if before.size:
        c.raises(IndexError, lambda: a.global_slice[bad], msg=f"index {bad}")
        c.raises(IndexError, lambda: a.global_slice.__setitem__(bad, 7), msg=f"assigning to index {bad}")
    c.same(a.local_array, before, "refused")
    c.nontrivial(ref.shape, axis, str(idx))
