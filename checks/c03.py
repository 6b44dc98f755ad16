"""C03 distributed arrays: numpy operations equal the same operation on the global array."""

import warnings

import numpy as np

from vf import mpi
from vf.core import Violation, group

from caput import mpiarray
from caput.mpiarray import AxisException, MPIArray, UnsupportedOperation

warnings.simplefilter("ignore")

RULE = (
    "random global arrays, operation, operand kind and axis; every rank compares its part and the "
    "metadata of the result with numpy on the global array; non-trivial when more than one rank "
    "takes part; distinct by (operation, shapes, axis, arguments)"
)
ASSUMPTIONS = ["values are small integers or dyadic rationals so that results are exact in any order"]

UNARY = [np.negative, np.absolute, np.square, np.isfinite, np.sign, np.conjugate, np.positive, np.exp, np.modf, np.frexp, np.logical_not, np.floor]
BINARY = [np.add, np.subtract, np.multiply, np.maximum, np.minimum, np.less, np.equal, np.greater_equal, np.not_equal, np.logical_and, np.hypot, np.divmod, np.true_divide, np.copysign]


def _vals(c, shape, dt="f8"):
    a = c.rng.integers(-8, 9, shape) / 4.0
    if dt == "c16":
        return a + 1j * c.rng.integers(-8, 9, shape) / 4.0
    if dt == "i8":
        return c.rng.integers(-8, 9, shape)
    if dt == "?":
        return c.rng.integers(0, 2, shape).astype(bool)
    return a.astype(dt)


def _ref(c, dts=("f8", "f8", "i8", "c16", "f4"), ndim=None):
    ndim = ndim or c.pick([1, 2, 2, 3, 3])
    shape = tuple(c.pick([1, 2, 3, c.int(1, 7), c.int(1, 7)]) for _ in range(ndim))
    return _vals(c, shape, c.pick(dts))


def _cmp(c, got, want, axis, comm, msg):
    gs = got if isinstance(got, tuple) else (got,)
    ws = want if isinstance(want, tuple) else (want,)
    c.check(len(gs) == len(ws), f"{msg}: {len(gs)} results, expected {len(ws)}")
    for g, w in zip(gs, ws):
        mpi.verify(c, g, np.asarray(w), axis, comm, msg)


@group(quick=400, thorough=6000, mpi=(1, 2, 3, 4, 5))
def elementwise(c):
    """Unary and binary ufuncs, operators, in-place operators and out= arguments."""
    comm_arg, comm, cname = mpi.pick_comm(c)
    ref = _ref(c)
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, comm_arg, comm)
    before = a.local_array.copy()
    kind = c.pick(["unary", "scalar", "array", "mpi", "mpi", "lower", "inplace", "out", "rarray"])
    c.note(shape=list(ref.shape), dtype=str(ref.dtype), axis=axis, kind=kind, comm=cname)
    ax_out = axis
    with np.errstate(all="ignore"):
        if kind == "unary":
            f = c.pick(UNARY)
            if ref.dtype.kind == "c" and f in (np.modf, np.frexp, np.floor):
                f = np.negative
            c.note(f=f.__name__)
            _cmp(c, f(a), f(ref), axis, comm, f.__name__)
        elif kind == "inplace":
            op = c.pick(["__iadd__", "__isub__", "__imul__"])
            other, oref = (c.pick([2, 0.5, -1]), None) if c.chance(0.4) else (None, _vals(c, ref.shape))
            if ref.dtype.kind == "i":
                other, oref = c.pick([2, -3]), None
            if oref is None:
                oref = other
            else:
                oref = oref.astype(ref.dtype)
                other = mpi.make(mpiarray, oref, axis, comm_arg, comm)
            want = ref.copy()
            want = getattr(want, op)(oref)
            la = a.local_array
            b = getattr(a, op)(other)
            c.check(b is a, f"{op} did not work in place")
            c.check(np.shares_memory(la, a.local_array) or la.size == 0, f"{op} replaced the data")
            c.note(op=op)
            mpi.verify(c, a, want, axis, comm, op)
            before = None
        else:
            f = c.pick(BINARY)
            if ref.dtype.kind == "c" and f in (np.maximum, np.minimum, np.less, np.greater_equal, np.hypot, np.divmod, np.copysign):
                f = np.multiply
            if kind == "scalar":
                s = c.pick([2, -0.5, np.float64(1.5), np.int32(3), True])
                if c.chance(0.5):
                    got, want = f(a, s), f(ref, s)
                else:
                    got, want = f(s, a), f(s, ref)
            elif kind in ("array", "rarray", "lower"):
                # A plain array must have length 1 on (or not reach) the distributed axis
                nd = c.int(1, ref.ndim) if kind != "lower" else c.int(1, ref.ndim + 1)
                shp = []
                for k in range(nd):
                    pos = ref.ndim - nd + k
                    n = ref.shape[pos] if pos >= 0 else c.int(1, 3)
                    shp.append(1 if pos == axis else c.pick([1, n]))
                ax_out = axis + max(0, nd - ref.ndim)
                o = _vals(c, tuple(shp), "f8")
                if kind == "rarray":
                    got, want = f(o, a), f(o, ref)
                else:
                    got, want = f(a, o), f(ref, o)
                c.note(other=shp)
            elif kind == "mpi":
                # Another distributed array, possibly of lower dimension or with length-1 axes
                lo = c.int(0, axis)
                shp = [ref.shape[k] if k == axis else c.pick([1, ref.shape[k]]) for k in range(lo, ref.ndim)]
                o = _vals(c, tuple(shp), "f8")
                d = mpi.make(mpiarray, o, axis - lo, comm_arg, comm)
                c.note(other=shp)
                if c.chance(0.5):
                    got, want = f(a, d), f(ref, o)
                else:
                    got, want = f(d, a), f(o, ref)
            else:  # out=
                o = _vals(c, ref.shape)
                d = mpi.make(mpiarray, o, axis, comm_arg, comm)
                want = np.multiply(ref, o)
                out = mpiarray.zeros(ref.shape, axis=axis, comm=comm_arg, dtype=want.dtype)
                got = np.multiply(a, d, out=out)
                c.check(got is out, "out= argument was not returned")
                mpi.verify(c, out, want, axis, comm, "out=")
                f = np.multiply
            c.note(f=f.__name__)
            _cmp(c, got, want, ax_out, comm, f"{f.__name__} {kind}")
    if before is not None:
        mpi.verify(c, a, ref, axis, comm, "operand after the operation")
    c.count(kind)
    if comm.size > 1:
        c.nontrivial({k: str(v) for k, v in c.desc.items()})
    if cname == "split":
        comm.Free()


@group(quick=400, thorough=6000, mpi=(1, 2, 3, 4, 5))
def reductions(c):
    """sum/prod/max/min/any/all/mean/var/cumsum over local axes; total reductions; allreduce."""
    comm_arg, comm, cname = mpi.pick_comm(c)
    ref = _ref(c, dts=("f8", "i8", "f8", "?"), ndim=c.pick([1, 2, 3, 3, 4]))
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, comm_arg, comm)
    name = c.pick(["sum", "prod", "max", "min", "any", "all", "mean", "var", "cumsum", "cumprod", "ptp"])
    others = [k for k in range(ref.ndim) if k != axis]
    mode = c.pick(["local", "local", "local", "total", "total"]) if others else "total"
    c.note(shape=list(ref.shape), dtype=str(ref.dtype), axis=axis, name=name, mode=mode, comm=cname)
    if ref.dtype == bool and name in ("ptp",):
        name = "any"
    ufn = {"sum": np.add, "prod": np.multiply, "max": np.maximum, "min": np.minimum, "any": np.logical_or, "all": np.logical_and, "cumsum": np.add, "cumprod": np.multiply}
    exact = name in ("max", "min", "any", "all", "sum", "cumsum")
    if name in ("prod", "cumprod") and ref.dtype.kind == "f":
        ref = np.sign(ref) * 2.0 ** np.clip(np.abs(ref), 0, 1).round()
        a = mpi.make(mpiarray, ref, axis, comm_arg, comm)
        exact = True

    def chk(got, want, axis2, msg):
        want = np.asarray(want)
        if exact or want.dtype.kind in "iub":
            mpi.verify(c, got, want, axis2, comm, msg)
        else:
            c.check(got.axis == axis2 and tuple(got.global_shape) == want.shape, f"{msg}: axis {got.axis} shape {got.global_shape} vs {want.shape}")
            s, e = mpi.bounds(want.shape[axis2], comm)
            c.check(int(got.local_offset[axis2]) == s, f"{msg}: offset")
            c.close(got.local_array, want[mpi.local_sl(want.ndim, axis2, want.shape[axis2], comm)], 1e-9, msg)

    if mode == "local":
        if name in ("cumsum", "cumprod"):
            k = c.pick(others)
            k = k - ref.ndim if c.chance(0.4) else k
            c.note(over=k)
            form = c.int(0, 2)
            f = [lambda x: getattr(x, name)(axis=k), lambda x: ufn[name].accumulate(x, axis=k), lambda x: getattr(np, name)(x, axis=k)][form]
            chk(f(a), f(ref), axis, name)
        else:
            n = c.int(1, len(others))
            ks = [int(x) for x in c.rng.permutation(others)[:n]]
            over = tuple(k - ref.ndim if c.chance(0.3) else k for k in ks)
            keep = c.chance(0.3)
            if len(over) == 1 and c.chance(0.7):
                over = over[0]
            c.note(over=over, keepdims=keep)
            axis2 = axis if keep else axis - sum(k < axis for k in ks)
            form = c.int(0, 2)
            if name == "ptp":
                form, keep, axis2 = 0, False, axis - sum(k < axis for k in ks)
                f = lambda x: np.max(x, axis=over) - np.min(x, axis=over)  # noqa: E731
            elif form == 0 or name not in ufn:
                f = lambda x: getattr(np, name)(x, axis=over, keepdims=keep)  # noqa: E731
            elif form == 1:
                f = lambda x: getattr(x, name)(axis=over, keepdims=keep)  # noqa: E731
            else:
                f = lambda x: ufn[name].reduce(x, axis=over, keepdims=keep)  # noqa: E731
            chk(f(a), f(ref), axis2, name)
    else:
        # One element per rank, holding the reduction of that rank's part
        nonempty = ref.shape[axis] >= comm.size
        if name in ("cumsum", "cumprod", "ptp", "mean", "var") or (not nonempty and name in ("max", "min")):
            name = "sum"
        if ref.dtype == bool and name == "prod":
            name = "sum"
        loc = ref[mpi.local_sl(ref.ndim, axis, ref.shape[axis], comm)]
        got = getattr(a, name)() if c.chance(0.5) else getattr(np, name)(a)
        want = getattr(loc, name)()
        c.check(isinstance(got, MPIArray), f"total {name} is a {type(got)}")
        c.check(tuple(got.global_shape) == (comm.size,) and tuple(got.local_shape) == (1,) and got.axis == 0 and int(got.local_offset[0]) == comm.rank,
                f"total {name}: shape {got.global_shape}/{got.local_shape} axis {got.axis} offset {got.local_offset}")
        c.same(got.local_array, np.asarray(want).reshape(1), f"total {name}")
        from mpi4py import MPI

        if name in ("sum", "max", "min") and got.dtype.kind in "fi":
            op = {"sum": c.pick([None, MPI.SUM]), "max": MPI.MAX, "min": MPI.MIN}[name]
            r = got.allreduce(op) if op is not None else got.allreduce()
            c.check(r == getattr(ref, name)(), f"allreduce of {name}: {r} != {getattr(ref, name)()}")
            c.count("allreduce")
        if a.local_shape != (1,):
            c.raises(ValueError, a.allreduce, msg="allreduce of an array with more than one element")
    mpi.verify(c, a, ref, axis, comm, "operand after the reduction")
    c.count(name)
    if comm.size > 1:
        c.nontrivial({k: str(v) for k, v in c.desc.items()})
    if cname == "split":
        comm.Free()


@group(quick=300, thorough=3000, mpi=(1, 2, 3, 4))
def rejected(c):
    """Operations which cannot be done rank by rank are refused, on every rank."""
    comm = c.comm
    ref = _ref(c, dts=("f8", "i8"), ndim=c.pick([1, 2, 3]))
    axis = c.int(0, ref.ndim - 1)
    a = mpi.make(mpiarray, ref, axis, comm, comm)
    kind = c.pick(["reduce", "reduce", "accumulate", "otheraxis", "otherlen", "arraylen", "outer", "at", "reduceat", "where", "outnd", "outaxis", "comm", "outcomm", "outlen"])
    c.note(shape=list(ref.shape), axis=axis, kind=kind)
    neg = axis - ref.ndim
    rej = (AxisException, ValueError)
    done = True
    if kind == "reduce":
        over = c.pick([axis, neg, (axis,), (neg,)])
        if ref.ndim > 1 and c.chance(0.5):
            o = c.pick([k for k in range(ref.ndim) if k != axis])
            over = (o, c.pick([axis, neg]))
        f = c.pick(["sum", "max", "prod", "any", "mean", "min", "std"])
        c.note(over=over, f=f)
        c.raises(rej, lambda: getattr(np, f)(a, axis=over), msg=f"{f} over the distributed axis")
    elif kind == "accumulate":
        over = c.pick([axis, neg])
        c.note(over=over)
        g = c.pick([lambda: np.cumsum(a, axis=over), lambda: np.add.accumulate(a, axis=over), lambda: a.cumsum(axis=over), lambda: np.cumprod(a, axis=over)])
        c.raises(rej, g, msg="accumulation over the distributed axis")
    elif kind == "otheraxis" and ref.ndim > 1:
        o = c.pick([k for k in range(ref.ndim) if k != axis])
        d = mpi.make(mpiarray, ref, o, comm, comm)
        c.raises(rej, lambda: c.pick([np.add, np.less, np.multiply])(a, d), msg="operands with different distributed axes")
    elif kind == "otherlen":
        shp = list(ref.shape)
        shp[axis] = shp[axis] + c.int(1, 3)
        d = mpi.make(mpiarray, _vals(c, shp), axis, comm, comm)
        c.raises(rej, lambda: a + d, msg="operands with different lengths")
    elif kind == "arraylen":
        shp = list(ref.shape)
        shp[axis] = c.pick([max(2, shp[axis]), c.int(2, -(-shp[axis] // c.size) + 3)])
        c.note(other=shp)
        o = _vals(c, shp)
        if a.local_shape[axis] != shp[axis]:
            c.raises(rej, lambda: a * o, msg="plain array which does not fit the distributed axis")
    elif kind == "outer":
        c.raises(UnsupportedOperation, lambda: np.add.outer(a, a), msg="outer")
    elif kind == "at":
        c.raises(UnsupportedOperation, lambda: np.add.at(a, 0, 1), msg="at")
    elif kind == "reduceat":
        c.raises(UnsupportedOperation, lambda: np.add.reduceat(a, [0], axis=0), msg="reduceat")
    elif kind == "where":
        w = np.ones(a.shape, bool)
        c.raises(UnsupportedOperation, lambda: c.pick([lambda: np.add(a, 1, where=w), lambda: np.sum(a, axis=None, where=w)])(), msg="where")
    elif kind == "outnd":
        buf = np.zeros(a.shape)
        c.raises(TypeError, lambda: np.add(a, 1, out=buf), msg="plain array as output")
    elif kind == "outaxis" and ref.ndim > 1:
        o = c.pick([k for k in range(ref.ndim) if k != axis])
        out = mpiarray.zeros(ref.shape, axis=o, comm=comm, dtype="f8")
        c.raises(ValueError, lambda: np.add(a, 1.0, out=out), msg="output with another distributed axis")
    elif kind == "outlen":
        shp = list(ref.shape)
        shp[axis] += 1
        out = mpiarray.zeros(shp, axis=axis, comm=comm, dtype="f8")
        c.raises(ValueError, lambda: np.add(a, 1.0, out=out), msg="output with another length")
    elif kind == "outcomm" and c.size > 1:
        dup = comm.Dup()
        out = mpiarray.zeros(ref.shape, axis=axis, comm=dup, dtype="f8")
        try:
            c.raises(ValueError, lambda: np.add(a, 1.0, out=out), msg="output on another communicator")
        finally:
            dup.Free()
    elif kind == "comm" and c.size > 1:
        from mpi4py import MPI

        dup = comm.Dup()
        d = mpi.make(mpiarray, ref, axis, dup, dup)
        try:
            c.raises(ValueError, lambda: a + d, msg="operands on different communicators")
        finally:
            dup.Free()
    else:
        done = False
    mpi.verify(c, a, ref, axis, comm, "operand after the refused operation")
    if done:
        c.count(kind)
        if c.size > 1:
            c.nontrivial({k: str(v) for k, v in c.desc.items()})
