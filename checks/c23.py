"""C23 Fourier transforms."""

import concurrent.futures

import numpy as np
import scipy.fft

from vf.core import group

from caput.algorithms import fft as cfft
from caput.algorithms.fft import fftw

RULE = (
    "random complex arrays of one to four dimensions in any memory layout and both precisions, any set of "
    "axes, transformed in random sequences by one object or by the functions; every result is compared "
    "with scipy, all inputs and earlier results are checked to be unchanged; the re-exported scipy "
    "functions are compared with scipy itself; non-trivial when there is more than one element; distinct "
    "by array shape, layout, axes and sequence"
)
ASSUMPTIONS = ["scipy.fft is the reference; arrays are not empty"]


def content(c, shape, dt):
    k = c.pick(["normal", "delta", "wave", "const"])
    if k == "normal":
        x = c.rng.standard_normal(shape) + 1j * c.rng.standard_normal(shape)
    elif k == "delta":
        x = np.zeros(shape, complex)
        x[tuple(c.int(0, n - 1) for n in shape)] = 1 - 2j
    elif k == "wave":
        x = np.exp(2j * np.pi * np.arange(np.prod(shape)).reshape(shape) * c.rng.random())
    else:
        x = np.full(shape, 3 - 1j)
    return x.astype(dt)


def place(c, x):
    """The same array in another layout or alignment."""
    k = c.pick(["plain", "plain", "fortran", "strided", "offset", "reversed", "swapped", "broadcast"])
    if k == "fortran":
        return np.asfortranarray(x)
    if k == "strided":
        b = np.zeros((*x.shape[:-1], 2 * x.shape[-1]), x.dtype)
        b[..., ::2] = x
        return b[..., ::2]
    if k == "offset":
        b = np.zeros(x.nbytes + 64, np.uint8)
        o = (-b.ctypes.data) % 32 + c.pick([8, 16, 24])
        y = b[o : o + x.nbytes].view(x.dtype).reshape(x.shape)
        y[...] = x
        return y
    if k == "reversed":
        return x[::-1].copy()[::-1]
    if k == "swapped" and x.ndim > 1:
        return np.swapaxes(np.swapaxes(x, 0, -1).copy(), 0, -1)
    if k == "broadcast" and x.ndim > 1:
        return np.broadcast_to(x[:1], x.shape)
    return x.copy()


def pick_axes(c, nd):
    k = c.int(0, 3)
    if k == 0:
        return None, tuple(range(nd))
    if k == 1:
        a = c.int(-nd, nd - 1)
        return a, (a,)
    n = c.int(1, nd)
    axes = [int(a) for a in c.rng.permutation(nd)[:n]]
    axes = tuple(a - nd if c.chance(0.3) else a for a in axes)
    return (axes if k == 2 else list(axes)), axes


def shapes(c):
    nd = c.int(1, 4)
    top = {1: 200, 2: 24, 3: 9, 4: 6}[nd]
    return tuple(c.int(1, top) for _ in range(nd))


def same(c, got, w, dt, msg, scale=0.0):
    c.check(isinstance(got, np.ndarray) and got.dtype == dt and got.shape == w.shape, f"{msg}: {getattr(got, 'dtype', type(got))} {getattr(got, 'shape', None)}, expected {np.dtype(dt)} {w.shape}")
    tol = (2e-5 if dt == np.complex64 else 1e-12) * (np.abs(w).max() + scale + 1e-30) * 3
    bad = np.abs(got - w)
    c.check((bad <= tol).all(), f"{msg}: differs by {bad.max()}")
    c.count("transforms")


def do(obj, op, x, y, axes):
    """Apply an operation, of the object or the module, and its reference."""
    X = x.astype(np.complex128)
    m = obj or fftw
    kw = {} if obj else {"axes": axes[0]}
    f = lambda v: scipy.fft.fftn(v, axes=axes[1])  # noqa: E731
    b = lambda v: scipy.fft.ifftn(v, axes=axes[1])  # noqa: E731
    if op == "fft":
        return m.fft(x, **kw), f(X)
    if op == "ifft":
        return m.ifft(x, **kw), b(X)
    if op == "fftconvolve":
        return m.fftconvolve(x, y, **kw), b(f(X) * f(y.astype(np.complex128)))
    return m.fftwindow(x, y, **kw), b(f(X) * y)


@group(quick=350, thorough=6000)
def transforms(c):
    """Sequences of transforms by an object or by functions."""
    shape, dt = shapes(c), c.pick([np.complex128, np.complex64])
    axes = pick_axes(c, len(shape))
    obj = None
    if c.chance(0.7):
        obj = fftw.FFTW(shape, c.pick([dt, np.dtype(dt), np.dtype(dt).name]), axes[0]) if c.chance(0.5) else fftw.FFTW(shape, dt, axes=axes[0])
        p = obj.params
        c.check(tuple(p["shape"]) == shape and p["dtype"] == dt and tuple(p["axes"]) == axes[1], f"params {p}")
    hist, ops = [], []
    c.note(shape=shape, dt=np.dtype(dt).name, axes=axes[0], object=obj is not None)
    for i in range(c.int(1, 5 if obj else 2)):
        op = c.pick(["fft", "ifft", "fftconvolve", "fftwindow"])
        old = [h for h, _ in hist if h.shape == shape and h.dtype == dt]
        if old and c.chance(0.3):
            x = old[c.int(0, len(old) - 1)]  # an earlier input or output
        else:
            x = place(c, content(c, shape, dt))
        y = None
        if op == "fftconvolve":
            y = x if c.chance(0.2) else place(c, content(c, shape, dt))
        elif op == "fftwindow":
            wsh = tuple(n if c.chance(0.8) else 1 for n in shape)[c.int(0, 1) * c.int(0, len(shape) - 1) :]
            y = c.rng.standard_normal(wsh).astype(c.pick([np.float32, np.float64]))
            if c.chance(0.4):
                y = y + 1j * c.rng.standard_normal(wsh).astype(y.dtype)
        ops.append(op)
        c.note(ops=ops)
        for v in (x, y):
            if v is not None and all(v is not h for h, _ in hist):
                hist.append((v, v.copy()))
        got, w = do(obj, op, x, y, axes)
        scale = np.linalg.norm(x) / (np.prod(shape) ** 0.5 if op == "ifft" else 1.0)
        scale *= {"fftconvolve": np.linalg.norm(y) if op == "fftconvolve" else 0, "fftwindow": np.abs(y).max() if y is not None else 0}.get(op, 1.0)
        same(c, got, w, dt, f"{op}, call {i}", scale)
        c.check(all(not np.shares_memory(got, h) for h, _ in hist), f"{op}, call {i}: the result shares memory with an input or an earlier result")
        hist.append((got, got.copy()))
        for h, keep in hist:
            c.check(h.tobytes() == keep.tobytes() or np.array_equal(h, keep), f"{op}, call {i}: changed an input or an earlier result")
    if np.prod(shape) > 1:
        c.nontrivial(shape, str(axes), str(ops), hist[0][0].strides)


@group(quick=40, thorough=500)
def functions(c):
    """Every function over every single axis, and over all of them."""
    nd = c.int(1, 3)
    shape, dt = tuple(c.int(2, 7) for _ in range(nd)), c.pick([np.complex128, np.complex64])
    c.note(shape=shape, dt=np.dtype(dt).name)
    x, y = place(c, content(c, shape, dt)), place(c, content(c, shape, dt))
    for a in [None, *range(-nd, nd)]:
        ax = (a, tuple(range(nd)) if a is None else (a,))
        for op in ("fft", "ifft", "fftconvolve", "fftwindow"):
            got, w = do(None, op, x, y, ax)
            scale = np.linalg.norm(x) * (np.linalg.norm(y) if op == "fftconvolve" else np.abs(y).max() if op == "fftwindow" else 1.0)
            same(c, got, w, dt, f"{op} over {a}", scale)
    c.nontrivial(shape, x.tobytes())


@group(quick=120, thorough=1500)
def inverse(c):
    """Backward undoes forward; Parseval; one sided objects."""
    shape, dt = shapes(c), c.pick([np.complex128, np.complex64])
    axes = pick_axes(c, len(shape))
    c.note(shape=shape, dt=np.dtype(dt).name, axes=axes[0])
    x = place(c, content(c, shape, dt))
    keep = x.copy()
    f, b = fftw.FFTW(shape, dt, axes[0], backward=False), fftw.FFTW(shape, dt, axes[0], forward=False)
    X = f.fft(x)
    same(c, b.ifft(X), keep.astype(np.complex128), dt, "ifft(fft(x))")
    same(c, f.fft(b.ifft(x)), keep.astype(np.complex128), dt, "fft(ifft(x))")
    n = np.prod([shape[a] for a in axes[1]])
    e = (np.abs(keep.astype(complex)) ** 2).sum() * n
    c.check(abs((np.abs(X.astype(complex)) ** 2).sum() - e) <= 1e-4 * e + 1e-20, "energy is not conserved")
    c.raises((RuntimeError, AttributeError), f.ifft, x, msg="backward transform was not asked for")
    c.raises((RuntimeError, AttributeError), b.fft, x, msg="forward transform was not asked for")
    c.raises((RuntimeError, AttributeError), f.fftconvolve, x, x, msg="backward transform was not asked for")
    c.raises((RuntimeError, AttributeError), b.fftwindow, x, x, msg="forward transform was not asked for")
    other = x.astype(np.complex64 if dt == np.complex128 else np.complex128)
    c.raises((ValueError, TypeError), f.fft, other, msg="array of another type")
    c.raises((ValueError, TypeError), f.fft, x.real.copy(), msg="real array")
    c.raises((ValueError, TypeError), f.fft, np.zeros((*shape[:-1], shape[-1] + 1), dt), msg="array of another shape")
    c.raises(TypeError, fftw.FFTW, shape, c.pick([np.float64, np.float32, np.int64]), msg="real type")
    c.raises(TypeError, c.pick([fftw.fft, fftw.ifft]), keep.real, msg="real type")
    c.same(x, keep, "the input")
    if np.prod(shape) > 1:
        c.nontrivial(shape, str(axes), keep.tobytes())


@group(quick=40, thorough=500)
def concurrent_use(c):
    """One object used by several threads."""
    shape, dt = shapes(c), np.complex128
    obj = fftw.FFTW(shape, dt)
    xs = [place(c, content(c, shape, dt)) for _ in range(c.int(2, 8))]
    keep = [x.copy() for x in xs]
    c.note(shape=shape, n=len(xs))
    with concurrent.futures.ThreadPoolExecutor(len(xs)) as ex:
        # Separate objects may be planned and used at the same time
        objs = [obj] + [fftw.FFTW(shape, dt) for _ in xs[1:]]
        got = list(ex.map(lambda i: objs[i].ifft(objs[i].fft(xs[i])), range(len(xs))))
    for g, k, x in zip(got, keep, xs):
        same(c, g, k, dt, "threads")
        c.same(x, k, "the input")
    c.nontrivial(shape, len(xs))


C2C = ["fft", "ifft", "fft2", "ifft2", "fftn", "ifftn", "hfft"]
R = ["rfft", "rfftn", "dct", "idct", "dst", "dctn", "ihfft"]


@group(quick=200, thorough=3000)
def scipys(c):
    """The functions of scipy."""
    x = content(c, tuple(c.int(2, 9) for _ in range(c.int(2, 3))), c.pick([np.complex128, np.complex64]))
    name = c.pick(C2C + R + ["irfft", "fftfreq", "rfftfreq", "fftshift", "ifftshift", "next_fast_len"])
    kw = {}
    if name in ("fftfreq", "rfftfreq"):
        a = (c.int(1, 20), float(c.rng.random() + 0.1))
    elif name == "next_fast_len":
        a = (c.int(1, 9999),)
    else:
        a = (place(c, x if name in C2C or "shift" in name or name == "irfft" else x.real.copy()),)
        if name in ("fft", "ifft", "rfft", "irfft", "hfft", "ihfft", "dct", "idct", "dst"):
            if c.chance(0.5):
                kw["axis"] = c.int(-x.ndim, x.ndim - 1)
            if c.chance(0.4):
                kw["n"] = c.int(2, 14)
        if "shift" not in name and c.chance(0.4):
            kw["norm"] = c.pick(["ortho", "backward", "forward"])
    c.note(name=name, kw=kw)
    want = getattr(scipy.fft, name)(*a, **kw)
    keep = [np.copy(v) for v in a]
    if "shift" not in name and "freq" not in name and name != "next_fast_len" and c.chance(0.4):
        kw["workers"] = c.int(1, 4)
    before = scipy.fft.get_workers()
    got = getattr(cfft, name)(*a, **kw)
    c.check(scipy.fft.get_workers() == before, "the number of workers has changed for all")
    c.check(np.asarray(got).dtype == np.asarray(want).dtype and np.shape(got) == np.shape(want), f"{name}: {np.asarray(got).dtype} {np.shape(got)}")
    c.check(np.allclose(got, want, rtol=1e-5 if np.asarray(want).dtype in (np.complex64, np.float32) else 1e-12, atol=1e-5 if np.asarray(want).dtype in (np.complex64, np.float32) else 1e-11), f"{name} {kw}: not what scipy gives")
    for v, k in zip(a, keep):
        c.check(np.array_equal(v, k), f"{name}: the input was changed")
    c.raises(AttributeError, getattr, cfft, c.pick(["fftz", "nothing", "rffft"]), msg="unknown function")
    c.count("functions")
    c.nontrivial(name, str(kw), np.shape(want))
