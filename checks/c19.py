"""C19 bit truncation keeps the requested precision."""

import math
from fractions import Fraction

import numpy as np

from vf.core import group

from caput.util import truncate

RULE = (
    "values over the whole exponent range (normal, subnormal, zero, powers of two and their neighbours, "
    "ties) and errors from zero to far beyond the value, given absolutely, relatively, as inverse "
    "variances or relative to a row; every result is compared in rational arithmetic; non-trivial when "
    "the value is changed; distinct by value and error"
)
ASSUMPTIONS = [
    "values are finite and below half of the largest one of their type; errors are not negative",
    "values below 2**-103 (float) or 2**-970 (double) are only judged on the error bound",
]

F = {np.float32: (23, 8, 127), np.float64: (52, 11, 1023)}


def rhe(num, gran):
    """The nearest multiple of gran, ties to even."""
    return round(Fraction(num) / gran) * gran


def expected(v, err, dt):
    """The exact result for one value and error, or None where only the bound is specified."""
    man, _, bias = F[dt]
    v, err = float(v), float(err)
    if v == 0:
        return Fraction(0)
    e = math.frexp(v)[1] - 1
    if e < -bias + man + 1:
        return None
    u = Fraction(2) ** (e - man)
    n = int(min(Fraction(err) / u, Fraction(2) ** (man + 5))) if err != math.inf else 2 ** (man + 5)
    return rhe(Fraction(v), u * 2 ** n.bit_length())


def values(c, dt, n, wide=True):
    man, ebits, bias = F[dt]
    out = []
    for _ in range(n):
        k = c.int(0, 9)
        e = c.int(-bias + man + 1, bias - 2) if wide and k % 2 else c.int(-12, 12)
        m = c.int(0, 2**man - 1)
        if k == 0:
            v = 0.0
        elif k == 1:
            v = float(m) * 2.0 ** max(-bias + 1 - man, -1074) if wide else 1.0
        elif k == 2:
            v = 2.0**e
        elif k == 3:
            v = 2.0**e * (1 - 2.0 ** -(man + 1))
        elif k == 4:
            v = float(c.int(1, 1000)) * 2.0 ** c.int(-10, 10)
        elif k == 5 and wide:
            v = (1 + m / 2**man) * 2.0 ** c.int(-bias + 1, -bias + man)
        else:
            v = (1 + m / 2**man) * 2.0**e
        out.append(-v if c.chance(0.4) else v)
    return np.array(out, dtype=dt)


def error(c, v, dt):
    """An error for the value: often comparable with its bits, or on a power of two."""
    man, _, bias = F[dt]
    k = c.int(0, 7)
    a = abs(float(v)) or 1.0
    if k == 0:
        return 0.0
    if k == 1:
        return c.pick([1.0, math.inf, 2.0 ** (bias - 1), 2.0 ** (-bias + 1)])
    if k in (2, 3):
        r = a * 2.0 ** c.int(-man - 2, 4)
    elif k == 4:
        r = 2.0 ** (math.frexp(a)[1] - 1 - c.int(0, man + 1))
    elif k == 5:
        r = a
    else:
        r = a * 10.0 ** -float(c.rng.random() * 8)
    with np.errstate(all="ignore"):
        return float(dt(min(max(r, 0.0), 2.0**bias)))


def bound(c, got, v, err, what, slack=Fraction(0), extra=Fraction(0)):
    d = abs(Fraction(float(got)) - Fraction(float(v)))
    if math.isinf(err):
        return
    c.check(d <= Fraction(err) * (1 + slack) + extra, f"{what}: {v!r} with error {err!r} gives {got!r}")


def coarse(c, got, v, err, dt, what):
    """The result has no bits below the granularity the error allows."""
    man, _, bias = F[dt]
    v = float(v)
    if v == 0 or not err or math.isinf(err):
        return
    e = math.frexp(v)[1] - 1
    lo = float(err) * (1 - 1e-6)
    if e < -bias + man + 1 or lo <= 0 or lo < 2.0 ** (e - man):
        return
    g = Fraction(2) ** min(math.frexp(lo)[1], e + 6)
    c.check(Fraction(float(got)) % g == 0, f"{what}: {v!r} with error {err!r} gives {got!r}, not a multiple of {float(g)}")
    c.count("granularities")


@group(quick=1500, thorough=20000)
def scalar(c):
    """Single values with an absolute error."""
    dt = c.pick([np.float32, np.float64])
    fn = truncate.bit_truncate_float if dt is np.float32 else truncate.bit_truncate_double
    chg = False
    vs = values(c, dt, 8)
    for v in vs:
        err = error(c, v, dt)
        c.note(v=float(v).hex(), err=float(err).hex(), dt=dt.__name__)
        r = fn(float(v), err)
        c.check(isinstance(r, float) and dt(r) == r, f"result {r!r}")
        bound(c, r, v, err, "absolute")
        c.check(r == 0 or (r > 0) == (v > 0), f"{v!r} with {err!r} changes sign to {r!r}")
        w = expected(v, err, dt)
        if w is not None:
            c.check(Fraction(r) == w, f"{float(v).hex()} with error {float(err).hex()} gives {r.hex()}, expected {float(w).hex()}")
            c.count("exact")
        elif err == 0:
            c.check(r == v, f"{v!r} with no error gives {r!r}")
        chg |= r != v
        c.count("values")
    c.raises(ValueError, fn, 1.5, math.nan, msg="error NaN")
    if chg:
        c.nontrivial(vs.tobytes())


@group(quick=500, thorough=5000)
def integer(c):
    """Integers with an absolute error."""
    for fn, bits in ((truncate.bit_truncate_int, 30), (truncate.bit_truncate_long, 62)):
        for _ in range(8):
            v = c.int(-(2**bits) + 1, 2**bits - 1) >> c.int(0, bits)
            err = c.int(0, 2**bits - 1) >> c.int(0, bits)
            if c.chance(0.2):
                err = 1 << c.int(0, bits - 1)
            if c.chance(0.2):
                g = 2 ** err.bit_length()
                v = (v // g) * g + g // 2
                if abs(v) >= 2**bits - g:
                    v = g // 2
            if abs(v) > 2 ** (bits + 1) - 2 ** (err.bit_length() + 1):
                continue
            c.note(v=v, err=err, bits=bits)
            r = fn(v, err)
            w = rhe(v, 2 ** err.bit_length())
            c.check(r == w, f"{v} with error {err} gives {r}, expected {w}")
            c.check(abs(r - v) <= err, f"{v} with error {err} gives {r}")
            c.count("values")
    c.nontrivial(v, err)


def place(c, a):
    """The same values as a view of something else."""
    k = c.pick(["plain", "real", "strided", "reversed"])
    if k == "plain":
        b = a.copy()
        return b, b
    if k == "real":
        z = np.full(a.shape, 7 + 9j, dtype=np.complex64 if a.dtype == np.float32 else np.complex128)
        z.imag = a
        return z.imag, z
    if k == "reversed":
        b = a[::-1].copy()
        return b[::-1], b
    b = np.full((a.size * 3,), 5, a.dtype)
    b[1::3] = a
    return b[1::3], b


@group(quick=600, thorough=8000, env={"OMP_NUM_THREADS": "3"})
def weights(c):
    """Arrays with the error given by inverse variances."""
    dt = c.pick([np.float32, np.float64])
    n = c.pick([0, 1, 2, 5, 40, 200])
    v = values(c, dt, n, wide=c.chance(0.3))
    iv = np.zeros(n, dt)
    for i in range(n):
        k = c.int(0, 5)
        e = error(c, v[i], dt)
        if k and e and not math.isinf(e):
            with np.errstate(all="ignore"):
                iv[i] = dt(1.0 / e) * dt(1.0 / e)
            if not np.isfinite(iv[i]):
                iv[i] = 1
    fb = float(dt(c.pick([0.0, 1e-3, 0.1, 0.5, 1e-6, 2.0**-10])))
    c.note(v=v, inv_var=iv, fallback=fb)
    val, base = place(c, v)
    w, wbase = place(c, iv)
    rest, wkeep = base.copy(), wbase.copy()
    r = truncate.bit_truncate_weights(val, w, fb)
    after(c, r, val, base, rest, v)
    c.check(np.array_equal(wbase, wkeep), "the weights were changed")
    s = Fraction(1, 10**6)
    for i in range(n):
        err = float(iv[i]) ** -0.5 if iv[i] else fb * abs(float(v[i]))
        what = f"inverse variance {iv[i]!r}, fallback {fb}"
        tiny = Fraction(2) ** -149 if dt is np.float32 else Fraction(2) ** -1074
        bound(c, r[i], v[i], err, what, s, tiny)
        coarse(c, r[i], v[i], err, dt, what)
    c.count("values", n)
    if (r != v).any():
        c.nontrivial(v.tobytes(), iv.tobytes(), fb)


def after(c, r, val, base, rest, v):
    """The result is the changed input and nothing around it has changed."""
    c.check(isinstance(r, np.ndarray) and r.dtype == v.dtype and r.shape == v.shape, f"result {type(r)} {getattr(r, 'dtype', None)}")
    c.check(not v.size or np.shares_memory(r, base), "the result does not share the memory of the input")
    c.check(np.array_equal(r, val), "the input was not changed in place")
    got = val.copy()
    val[...] = v
    c.check(np.array_equal(base, rest), "memory outside of the array was changed")
    val[...] = got


@group(quick=600, thorough=8000, env={"OMP_NUM_THREADS": "3"})
def relative(c):
    """Arrays with a relative error."""
    dt = c.pick([np.float32, np.float64])
    n = c.pick([0, 1, 2, 5, 40, 200])
    v = values(c, dt, n, wide=c.chance(0.5))
    p = float(dt(c.pick([0.0, 1e-3, 0.1, 0.5, 1.0, 1e-7, 2.0**-10, 3.0, float(c.rng.random())])))
    c.note(v=v, prec=p)
    val, base = place(c, v)
    rest = base.copy()
    r = truncate.bit_truncate_relative(val, p)
    after(c, r, val, base, rest, v)
    tiny = Fraction(2) ** -149 if dt is np.float32 else Fraction(2) ** -1074
    for i in range(n):
        err = p * abs(float(v[i]))
        bound(c, r[i], v[i], err, f"relative {p}", Fraction(1, 10**6), tiny)
        coarse(c, r[i], v[i], err, dt, f"relative {p}")
    c.count("values", n)
    if (r != v).any():
        c.nontrivial(v.tobytes(), p)


@group(quick=400, thorough=6000, env={"OMP_NUM_THREADS": "3"})
def rows(c):
    """Complex rows with an error relative to the elements and to the largest one."""
    n, m = c.int(0, 6), c.int(0, 12)
    scale = 2.0 ** c.rng.integers(-20, 20, (n, m)) if c.chance(0.6) else np.ones((n, m))
    v = (c.rng.standard_normal((n, m)) + 1j * c.rng.standard_normal((n, m))) * scale * 10.0 ** c.int(-8, 8)
    v[c.rng.random((n, m)) < 0.1] = 0
    if c.chance(0.3):
        v = v.real.astype(complex)
    if n and c.chance(0.2):
        v[0] = 0
    p = float(np.float32(c.pick([0.0, 1e-3, 0.1, 1e-6, 0.5])))
    pm = float(np.float32(c.pick([0.0, 1e-3, 0.1, 1e-6, 0.5, 1e-5])))
    c.note(v=v, prec=p, prec_max_row=pm)
    k = c.pick(["c", "f", "strided"])
    if k == "c":
        base = v.copy()
        val = base
    elif k == "f":
        base = np.asfortranarray(v)
        base = base if base is not v else base.copy(order="F")
        val = base
    else:
        base = np.full((n, m * 2), 3 + 4j)
        val = base[:, ::2]
        val[...] = v
    rest = base.copy()
    r = truncate.bit_truncate_max_complex(val, p, pm)
    after(c, r, val, base, rest, v)
    mx = np.abs(v).max(axis=1) if m else np.zeros(n)
    for i in range(n):
        for j in range(m):
            err = max(abs(v[i, j]) * p, pm * mx[i])
            for g, x in ((r[i, j].real, v[i, j].real), (r[i, j].imag, v[i, j].imag)):
                what = f"row {i} column {j} with {p}, {pm}"
                bound(c, g, x, err, what, Fraction(1, 10**5), Fraction(abs(x)) / 2**23)
                coarse(c, g, np.float32(x), err * (1 - 1e-5), np.float32, what)
                c.count("values")
    if (r != v).any():
        c.nontrivial(v.tobytes(), p, pm)


@group(quick=100, thorough=1000)
def refused(c):
    """Arrays that do not fit are refused and left alone."""
    n = c.int(1, 5)
    a = np.arange(1.0, n + 1)
    k = c.pick(["length", "types", "inttype", "ndim", "relative"])
    c.note(kind=k)
    keep = a.copy()
    if k == "length":
        dt = c.pick([np.float32, np.float64])
        c.raises(ValueError, truncate.bit_truncate_weights, a.astype(dt), np.ones(n + c.pick([-1, 1]), dt), 0.1, msg="lengths")
    elif k == "types":
        c.raises(RuntimeError, truncate.bit_truncate_weights, a, np.ones(n, np.float32), 0.1, msg="types")
        c.raises(RuntimeError, truncate.bit_truncate_weights, a.astype(np.float32), np.ones(n), 0.1, msg="types")
    elif k == "inttype":
        c.raises(RuntimeError, truncate.bit_truncate_weights, a.astype(int), np.ones(n, int), 0.1, msg="types")
    elif k == "ndim":
        c.raises(ValueError, truncate.bit_truncate_weights, a[None], a[None], 0.1, msg="two dimensions")
        c.raises(ValueError, truncate.bit_truncate_relative, a[None], 0.1, msg="two dimensions")
    else:
        c.raises(RuntimeError, truncate.bit_truncate_relative, a.astype(c.pick([int, complex, np.float16])), 0.1, msg="types")
    c.same(a, keep, "refused input")
    c.nontrivial(k, n)
