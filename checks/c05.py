"""C05 distributed arrays: reading and writing files."""

import os
import warnings

import h5py
import numpy as np
import zarr

from vf import mpi
from vf.core import fast_sleep, group, rand_array

from caput import mpiarray
from caput.memdata import fileformats
from caput.mpiarray import MPIArray

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random arrays, formats, distributed axes, chunk shapes, selections and communicators of "
    "different size for writing and reading; files are cross-checked with h5py/zarr directly; "
    "non-trivial when the array is not empty; distinct by (shape, dtype, format, axes, selection)"
)
ASSUMPTIONS = ["h5py is built without MPI-IO here, so the serialised HDF5 write path is what runs"]

DT = ["f8", "f4", "c16", "i8", "i4", "u1", "?", "S5", ">f4", ">i8", [("a", "i4"), ("b", "f8")]]


def _sel(c, shape, axis, fmt):
    """A selection (tuple shorter than or as long as the number of axes)."""
    out = []
    nlist = 0
    for i, n in enumerate(shape):
        k = c.int(0, 5)
        if k < 2:
            out.append(slice(None))
        elif k == 2 and fmt == "hdf5" and nlist == 0 and n > 0:
            nlist += 1
            m = c.int(1, n)
            out.append(sorted(int(x) for x in c.rng.permutation(n)[:m]))
        else:
            lo, hi = c.int(0, n), c.int(0, n)
            if c.chance(0.75) and lo > hi:
                lo, hi = hi, lo
            out.append(slice(c.pick([None, lo, lo - n if lo < n else lo]), c.pick([None, hi]), c.pick([None, 1, 2, 3])))
    while out and isinstance(out[-1], slice) and out[-1] == slice(None) and c.chance(0.4):
        out.pop()
    return tuple(out)


def _apply(ref, sel):
    for i, s in enumerate(sel):
        ref = ref[(slice(None),) * i + (s,)]
    return ref


@group(quick=240, thorough=3000, mpi=(1, 2, 3, 4))
def roundtrip(c):
    """Write with some ranks and axis, read with other ranks, axis and selection."""
    comm = c.comm
    fmt = c.pick(["hdf5", "hdf5", "hdf5", "zarr"])
    ff = fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr
    ref = mpi.gen_ref(c, dtypes=DT, small=7, minlen=1 if fmt == "zarr" else 0)
    if ref.size == 0 and fmt == "zarr":
        ref = rand_array(c.rng, (3, 4), "f8")
    axis = c.int(0, ref.ndim - 1)
    ext = "h5" if fmt == "hdf5" else "zarr"
    fn = os.path.join(c.tmp, f"file.{ext}")
    name = c.pick(["data", "grp/data"])
    a = mpi.make(mpiarray, ref, axis, comm, comm)
    layout = c.pick(["plain", "plain", "transposed", "strided"])
    if layout == "transposed":
        perm = list(range(ref.ndim))[::-1]
        a, ref, axis = a.transpose(perm), ref.transpose(perm), perm.index(axis)
    elif layout == "strided" and ref.ndim > 1:
        k = c.pick([i for i in range(ref.ndim) if i != axis])
        sl = tuple(slice(None, None, 2) if i == k else slice(None) for i in range(ref.ndim))
        a, ref = a[sl], ref[sl]
    chunks = None
    if c.chance(0.4) and ref.size:
        chunks = tuple(c.int((n + 1) // 2, n) for n in ref.shape)
    c.note(fmt=fmt, shape=list(ref.shape), dtype=str(ref.dtype), axis=axis, name=name, layout=layout, chunks=chunks)

    kw = dict(create=True, chunks=chunks, file_format=ff)
    comp = None
    if fmt == "zarr" or ref.size:
        comp = c.pick([None, None, ("gzip", c.int(1, 9)), ("bitshuffle", (c.pick([0, None]), "lz4"))])
        store = {"chunks": chunks, "compression": comp and comp[0], "compression_opts": comp and comp[1]}
        for k, v in store.items():
            if v is not None and c.chance(0.4):  # options may also be kept with the array
                setattr(a, k, v)
                kw.pop(k, None)
            elif v is not None:
                kw[k] = v
        comp_all = comp
        c.note(comp=comp, given=sorted(kw))
    if c.chance(0.3) and fmt == "hdf5":
        store = {k: v for k, v in kw.items() if k != "file_format"} if c.chance(0.5) else dict(create=True)
        chunks, comp = store.get("chunks"), (store["compression"], store.get("compression_opts")) if "compression" in store else None
        if comp and comp[1] is None:
            store["compression_opts"] = comp_all[1]
            comp = comp_all
        a.to_hdf5(fn, name, **store)
    else:
        a.to_file(fn, name, **kw)
    comm.Barrier()
    mpi.verify(c, a, ref, axis, comm, "array after writing")
    c.count("written")

    # What is in the file is the global array
    if c.rank == 0:
        if fmt == "hdf5":
            with h5py.File(fn, "r") as f:
                d = f[name][...]
                if chunks is not None:
                    c.check(f[name].chunks == chunks, f"chunks {f[name].chunks} instead of {chunks}")
                if comp is not None:
                    c.check((f[name].compression, f[name].compression_opts) == comp if comp[0] == "gzip" else "32008" in f[name]._filters, f"compression {f[name]._filters} instead of {comp}")
                elif chunks is None:
                    c.check(not f[name]._filters and f[name].chunks is None, f"compression {f[name]._filters}, none was asked for")
        else:
            z = zarr.open_group(fn, "r")[name]
            d = z[...]
            if chunks is not None:
                c.check(z.chunks == chunks, f"chunks {z.chunks} instead of {chunks}")
            got = z.compressor.get_config() if z.compressor is not None else {}
            ok = not got if comp is None else (got["id"] == "gzip" and got["level"] == comp[1]) if comp[0] == "gzip" else (got["id"] == "blosc" and got["cname"] == "lz4" and got["shuffle"] == 2)
            c.check(ok, f"compressor {got} instead of {comp}")
        c.same(d, ref, "content of the file")
        left = sorted(os.listdir(c.tmp))
        c.check(left == [f"file.{ext}"], f"files left behind: {left}")
    comm.Barrier()

    # Overwrite: same dataset, new content; neighbours are untouched
    if c.chance(0.3):
        ref2 = rand_array(c.rng, ref.shape, ref.dtype)
        b = mpi.make(mpiarray, ref2, axis, comm, comm)
        b.to_file(fn, "other", create=c.chance(0.5), file_format=ff)
        comm.Barrier()
        got = MPIArray.from_file(fn, name, comm=comm, axis=0, file_format=ff)
        mpi.verify(c, got, ref, 0, comm, "the first dataset after writing another one")
        comm.Barrier()
        ref3 = rand_array(c.rng, ref.shape, ref.dtype)
        b = mpi.make(mpiarray, ref3, axis, comm, comm)
        b.to_file(fn, name, file_format=ff)
        comm.Barrier()
        got = MPIArray.from_file(fn, "other", comm=comm, axis=0, file_format=ff)
        mpi.verify(c, got, ref2, 0, comm, "neighbouring dataset")
        comm.Barrier()
        left = sorted(os.listdir(c.tmp))
        c.check(left == [f"file.{ext}"], f"files left behind after overwriting: {left}")
        ref = ref3
        c.count("overwritten")

    # Read back in different ways
    for _ in range(3):
        rc, rcomm = comm, comm
        split = c.size > 1 and c.chance(0.4)
        if split:
            rc = rcomm = comm.Split(c.rank % 2, c.rank)
        ax = c.int(0, ref.ndim - 1)
        arg = ax - ref.ndim if c.chance(0.3) else ax
        sel = _sel(c, ref.shape, ax, fmt) if c.chance(0.7) else None
        c.note(read_axis=arg, sel=str(sel), split=split)
        src, dname = fn, name
        fh = None
        if c.chance(0.3):
            fh = src = h5py.File(fn, "r") if fmt == "hdf5" else zarr.open_group(fn, "r")
            if "/" in name and c.chance(0.5):
                src, dname = fh["grp"], "data"
        if fmt == "hdf5" and c.chance(0.3):
            got = MPIArray.from_hdf5(src, dname, comm=rc, axis=arg, sel=sel)
        else:
            got = MPIArray.from_file(src, dname, comm=rc, axis=arg, sel=sel, file_format=ff)
        if fh is not None and fmt == "hdf5":
            c.check(bool(fh), "a file handle given by the caller was closed")
            fh.close()
        want = ref if sel is None else _apply(ref, sel)
        mpi.verify(c, got, want, ax, rcomm, f"read axis={arg} sel={sel}")
        c.count("read")
        if split:
            rcomm.Free()
    c.raises(mpiarray.AxisException, MPIArray.from_file, fn, name, comm=comm, axis=ref.ndim + c.int(0, 2), file_format=ff, msg="axis out of range")
    if ref.size:
        c.nontrivial({k: str(v) for k, v in c.desc.items()})


@group(quick=40, thorough=400)
def refuse(c):
    """Writing over a dataset of another shape or type is refused and leaves it intact."""
    fmt = c.pick(["hdf5", "zarr"])
    ff = fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr
    fn = os.path.join(c.tmp, "file." + ("h5" if fmt == "hdf5" else "zarr"))
    ref = rand_array(c.rng, (c.int(1, 5), c.int(1, 5)), "f8")
    a = MPIArray.wrap(ref.copy(), 0)
    a.to_file(fn, "d", create=True, file_format=ff)
    if c.chance(0.5):
        b = MPIArray.wrap(rand_array(c.rng, (ref.shape[0] + 1, ref.shape[1]), "f8"), 0)
        what = "shape"
    else:
        b = MPIArray.wrap(rand_array(c.rng, ref.shape, c.pick(["f4", "i4", "c16"])), 0)
        what = "dtype"
    c.note(fmt=fmt, what=what, shape=list(ref.shape))
    c.raises(RuntimeError, b.to_file, fn, "d", file_format=ff, msg=f"incompatible {what}")
    got = MPIArray.from_file(fn, "d", file_format=ff)
    c.same(got.local_array, ref, "dataset after a refused write")
    # Without permission to create, a missing file is an error
    c.raises(Exception, a.to_file, os.path.join(c.tmp, "missing." + fn.rsplit(".", 1)[1]), "d", create=False, file_format=ff, msg="missing file")
    c.nontrivial(fmt, what, ref.shape)
