"""C02 distributed arrays: data movement and views preserve the global array."""

import warnings

import numpy as np

from vf import mpi
from vf.core import group, rand_array

from caput import mpiarray
from caput.mpiarray import MPIArray

warnings.simplefilter("ignore")

RULE = (
    "random global arrays (1-4 axes, lengths 0-9 so that ranks are often empty, 12 dtypes), random "
    "distributed axis and communicator, random chains of operations; every rank compares its part "
    "and metadata with the global reference after every step; non-trivial when more than one rank "
    "takes part; distinct by (shape, dtype, axis, chain)"
)
ASSUMPTIONS = ["all ranks are on one node (shared-memory transport)"]


def _factor(c, n):
    """A random factorisation of n."""
    out = []
    for p in (2, 3, 5, 7):
        while n > 1 and n % p == 0 and c.chance(0.6):
            out.append(p)
            n //= p
    out.append(n)
    if c.chance(0.3):
        out.insert(c.int(0, len(out)), 1)
    if c.chance(0.2) and out == [1]:
        out = []
    return out


def _step(c, a, ref, axis, comm):
    """Apply one random operation to the array and to the model."""
    nd = ref.ndim
    op = c.pick(["redist", "redist", "transpose", "reshape", "copy", "index", "index", "gather", "allgather", "wrap", "astype", "enum"])
    before = a.local_array.copy()
    meta = (a.axis, a.global_shape, a.local_offset)
    src = a
    if op == "redist":
        ax = c.int(0, nd - 1)
        arg = ax - nd if c.chance(0.25) else ax
        b = a.redistribute(arg)
        if ax == axis:
            c.check(b is a or np.shares_memory(b.local_array, a.local_array) or a.size == 0, "same axis: not the original array")
        elif comm.size > 1:
            c.check(b.local_array.flags["C_CONTIGUOUS"], "redistribute: result is not C contiguous")
        desc = f"redistribute({arg})"
        r2, axis2 = ref, ax
    elif op == "transpose":
        perm = [int(x) for x in c.rng.permutation(nd)]
        k = c.int(0, 6)
        if k == 0:
            b, desc, perm = a.transpose(), "transpose()", list(range(nd))[::-1]
        elif k == 1:
            b, desc, perm = a.T, "T", list(range(nd))[::-1]
        elif k == 2:
            b, desc = a.transpose(*perm), f"transpose(*{perm})"
        elif k == 3:
            neg = [p - nd if c.chance(0.5) else p for p in perm]
            b, desc = a.transpose(tuple(neg)), f"transpose({neg})"
        elif k == 4:
            b, desc = np.transpose(a, perm), f"np.transpose({perm})"
        elif k == 5:
            i, j = c.int(0, nd - 1), c.int(0, nd - 1)
            perm = list(range(nd))
            perm[i], perm[j] = perm[j], perm[i]
            b, desc = a.swapaxes(i, j), f"swapaxes({i},{j})"
        else:
            b, desc = a.transpose(list(perm)), f"transpose(list {perm})"
        r2, axis2 = ref.transpose(perm), perm.index(axis)
    elif op == "reshape":
        pre, post = _factor(c, int(np.prod(ref.shape[:axis]))), _factor(c, int(np.prod(ref.shape[axis + 1 :])))
        if len(pre) + len(post) > 4:
            pre, post = [int(np.prod(ref.shape[:axis]))], [int(np.prod(ref.shape[axis + 1 :]))]
        order = c.pick(["C", "C", "F"])
        newshape = (*pre, ref.shape[axis], *post)
        args = [*pre, None, *post]
        sub = pre if c.chance(0.5) else post
        if sub and c.chance(0.5) and all(sub):
            off = 0 if sub is pre else len(pre) + 1
            args[off + c.int(0, len(sub) - 1)] = -1
        b = a.reshape(*args, order=order) if c.chance(0.5) else a.reshape(tuple(args), order=order)
        desc = f"reshape({args},{order})"
        r2, axis2 = ref.reshape(newshape, order=order), len(pre)
        if c.chance(0.2):
            # Mixing the distributed axis with the others is not possible
            bad = [*args]
            bad = [int(np.prod(ref.shape[:axis])) * 2 + 1, None, *post]
            c.raises(ValueError, a.reshape, *bad, msg=f"reshape({bad}) of {ref.shape}")
    elif op == "copy":
        order = c.pick(["", "C", "F", "A", "K"])
        b, desc = (a.copy(order) if order else a.copy()), f"copy({order})"
        want = (a.local_array.copy(order) if order else a.local_array.copy()).flags
        c.check((b.flags.c_contiguous, b.flags.f_contiguous) == (want.c_contiguous, want.f_contiguous), f"{desc}: layout {b.flags}")
        c.check(not np.shares_memory(b.local_array, a.local_array), "copy shares memory")
        r2, axis2 = ref, axis
    elif op == "astype":
        dt = np.dtype("c16") if ref.dtype.kind in "fciu" else ref.dtype
        b, desc = a.astype(dt), f"astype({dt})"
        r2, axis2 = ref.astype(dt), axis
    elif op == "index":
        sl, removed, added = [], 0, 0
        ax2 = 0
        for i in range(nd):
            if c.chance(0.12) and nd + added < 5:
                sl.append(np.newaxis)
                added += 1
                if i <= axis:
                    ax2 += 1
            if i == axis:
                sl.append(slice(None))
                continue
            n = ref.shape[i]
            k = c.int(0, 4)
            if k == 0 and n > 0:
                v = c.int(-n, n - 1)
                sl.append(np.int64(v) if c.chance(0.3) else v)
                if i < axis:
                    ax2 -= 1
            elif k == 1:
                sl.append(slice(c.pick([None, c.int(-n - 1, n + 1)]), c.pick([None, c.int(-n - 1, n + 1)]), c.pick([None, 1, 2, -1])))
            else:
                sl.append(slice(None))
        axis2 = axis + ax2
        # Optionally use an ellipsis for a run of full slices
        full = [i for i, s in enumerate(sl) if isinstance(s, slice) and s == slice(None)]
        if full and c.chance(0.4):
            i = c.pick(full)
            j = i
            while j + 1 < len(sl) and (j + 1) in full and c.chance(0.7):
                j += 1
            sl[i : j + 1] = [Ellipsis]
        elif c.chance(0.3):
            while sl and sl[-1] is not np.newaxis and isinstance(sl[-1], slice) and sl[-1] == slice(None) and len(sl) > 1:
                sl.pop()
        sl = tuple(sl)
        desc = f"[{sl}]"
        b = a[sl] if len(sl) != 1 or c.chance(0.5) else a[sl[0]]
        r2 = ref[sl]
        if r2.size:
            loc = r2[mpi.local_sl(r2.ndim, axis2, r2.shape[axis2], comm)]
            if loc.size:
                c.check(np.shares_memory(b.local_array, a.local_array), f"{desc}: not a view of the array")
    elif op == "gather":
        root = c.int(0, comm.size - 1)
        desc = f"gather({root})"
        g = a.gather(root) if root or c.chance(0.5) else a.gather()
        if comm.rank == root:
            c.check(type(g) is np.ndarray, f"gather gave {type(g)}")
            c.same(g, ref, desc)
            c.check(not np.shares_memory(g, a.local_array), "gathered copy shares memory")
        else:
            c.check(g is None, f"{desc}: rank {comm.rank} got {g!r}")
        b, r2, axis2 = a, ref, axis
    elif op == "allgather":
        desc = "allgather"
        g = a.allgather()
        c.check(type(g) is np.ndarray, f"allgather gave {type(g)}")
        c.same(g, ref, desc)
        b, r2, axis2 = a, ref, axis
    elif op == "wrap":
        arg = axis - nd if c.chance(0.3) else axis
        loc = np.array(a.local_array)
        b, desc = MPIArray.wrap(loc, axis=arg, comm=comm), f"wrap(axis={arg})"
        c.check(loc.size == 0 or np.shares_memory(b.local_array, loc), "wrap copied the data")
        r2, axis2 = ref, axis
    else:
        desc = "enumerate"
        for ax in range(nd):
            got = [(int(i), int(g)) for i, g in a.enumerate(ax)]
            s, e = mpi.bounds(ref.shape[ax], comm) if ax == axis else (0, ref.shape[ax])
            c.check(got == list(enumerate(range(s, e))), f"enumerate({ax}) gave {got}")
        b, r2, axis2 = a, ref, axis
    c.count(op)
    # The source is left alone
    c.check((src.axis, src.global_shape, src.local_offset) == meta, f"{desc} changed its source's metadata")
    c.same(src.local_array, before, f"{desc} changed its source")
    mpi.verify(c, b, r2, axis2, comm, desc)
    return b, r2, axis2, desc


@group(quick=500, thorough=6000, mpi=(1, 2, 3, 4, 5))
def chain(c):
    """Random chains of redistribute/transpose/reshape/copy/index/gather/allgather/wrap."""
    ref = mpi.gen_ref(c)
    comm_arg, comm, cname = mpi.pick_comm(c)
    axis = c.int(0, ref.ndim - 1)
    arg = axis - ref.ndim if c.chance(0.2) else axis
    c.note(shape=list(ref.shape), dtype=str(ref.dtype), axis=arg, comm=cname)
    a = mpi.make(mpiarray, ref, arg, comm_arg, comm)
    mpi.verify(c, a, ref, axis, comm, "constructor")
    shape0 = ref.shape
    steps = []
    for _ in range(c.int(2, 7)):
        c.note(steps=str(steps)[-350:])
        a, ref, axis, d = _step(c, a, ref, axis, comm)
        steps.append(d)
    c.note(steps=str(steps)[-350:])
    if comm.size > 1:
        c.nontrivial(shape0, str(ref.dtype), steps)
    if cname == "split":
        comm.Free()


@group(quick=60, thorough=500, mpi=(2, 4))
def large(c):
    """Messages beyond the eager limit (rendezvous protocol): redistribute and gather."""
    shape = (c.int(200, 420), c.int(150, 420))
    dt = np.dtype(c.pick(["f8", "c16", "i4", "S7"]))
    n = int(np.prod(shape))
    ref = (np.arange(n).reshape(shape) % 100003).astype(dt)
    axis = c.int(0, 1)
    c.note(shape=list(shape), dtype=str(dt), axis=axis)
    comm = c.comm
    a = mpi.make(mpiarray, ref, axis, comm, comm)
    b = a.redistribute(1 - axis)
    mpi.verify(c, b, ref, 1 - axis, comm, "redistribute")
    d = b.T.redistribute(1 - axis)
    mpi.verify(c, d, ref.T, 1 - axis, comm, "transpose.redistribute")
    root = c.int(0, c.size - 1)
    g = d.gather(root)
    if c.rank == root:
        c.same(g, ref.T, "gather")
    c.same(b.allgather(), ref, "allgather")
    c.nontrivial(shape, str(dt), axis)


@group(quick=60, thorough=600, mpi=(1, 2, 3, 4))
def construct(c):
    """zeros/ones/wrap validation; a bad layout is rejected on every rank."""
    comm_arg, comm, cname = mpi.pick_comm(c)
    ref = mpi.gen_ref(c, dtypes=["f8", "i4", "c8"])
    axis = c.int(0, ref.ndim - 1)
    c.note(shape=list(ref.shape), axis=axis, comm=cname)
    z = mpiarray.zeros(ref.shape, axis=axis, comm=comm_arg, dtype=ref.dtype)
    mpi.verify(c, z, np.zeros_like(ref), axis, comm, "zeros")
    o = mpiarray.ones(ref.shape, axis=axis, comm=comm_arg, dtype=ref.dtype)
    mpi.verify(c, o, np.ones_like(ref), axis, comm, "ones")
    # Unbalanced local lengths: not a valid layout, all ranks must reject it
    if comm.size > 1:
        lens = [int(x) for x in c.rng.integers(0, 4, comm.size)]
        tot = sum(lens)
        good = [e - s for s, e in mpi.split(tot, comm.size)]
        shp = list(ref.shape)
        shp[axis] = lens[comm.rank]
        loc = rand_array(c.rng, tuple(shp), "f8")
        if lens == good:
            w = MPIArray.wrap(loc, axis, comm_arg)
            c.check(w.global_shape[axis] == tot, "wrap of a valid layout")
        else:
            c.count("bad_layouts")
            c.raises(mpiarray.AxisException, MPIArray.wrap, loc, axis, comm_arg, msg=f"wrap of local lengths {lens}")
    c.raises((ValueError, IndexError), MPIArray.wrap, np.zeros((2, 2)), 3, comm_arg, msg="wrap with an axis that does not exist")
    # ravel flattens over the distributed axis: refused
    c.raises(NotImplementedError, z.ravel, msg="ravel")
    if comm.size > 1:
        c.nontrivial(ref.shape, axis, cname)
    if cname == "split":
        comm.Free()
