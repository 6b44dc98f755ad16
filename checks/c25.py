"""C25 spherical coordinates, projections and Bessel functions."""

import warnings

import numpy as np
from skyfield.units import Angle

from vf.core import group

from caput.astro.coordinates import bessel
from caput.astro.coordinates import spherical as sp

RULE = (
    "random and special directions (poles, equator, meridian, antipodes, repeated points), of every "
    "shape, type and memory layout, transformed and compared with elementary geometry and with the "
    "inverse transform; Bessel functions of orders up to 2000 and arguments from zero to 3000 against "
    "backward recurrence in extended precision; non-trivial when there is at least one point; distinct "
    "by the points"
)
ASSUMPTIONS = [
    "great circles are judged between points more than 0.05 rad apart and from being antipodal, ground "
    "coordinates more than 0.01 above the horizon",
    "where jl uses its documented approximations its relative error may be 2e-3 (small arguments) or "
    "1e-4 of the envelope (large ones)",
]

PI = np.pi


def sph(c, shape, r):
    """Spherical points with special directions."""
    n = int(np.prod(shape))
    th = np.arccos(c.rng.uniform(-1, 1, n))
    ph = c.rng.uniform(-PI, PI, n)
    k = c.rng.random(n) < 0.2
    th[k] = c.rng.choice([0, PI / 2, PI, PI / 4, 1e-8, PI - 1e-8], int(k.sum()))
    k = c.rng.random(n) < 0.2
    ph[k] = c.rng.choice([0, PI / 2, PI, -PI / 2, -PI, 2 * PI, 7.5], int(k.sum()))
    cols = [th, ph]
    if r:
        cols.insert(0, 10.0 ** c.rng.uniform(-6, 6, n))
    return np.stack(cols, axis=-1).reshape(*shape, 2 + r)


def cart(s):
    r = s[..., 0] if s.shape[-1] == 3 else 1.0
    th, ph = s[..., -2], s[..., -1]
    return np.stack([r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th) * np.ones_like(ph)], axis=-1)


def layout(c, a):
    k = c.pick(["c", "c", "f", "strided", "swapped"])
    if k == "f":
        return np.asfortranarray(a)
    if k == "strided":
        b = np.zeros((*a.shape[:-1], a.shape[-1] * 2), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == "swapped" and a.ndim > 1:
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, -1)), 0, -1)
    return a


def shape_of(c):
    if c.chance(0.1):
        return (c.int(50, 400),)
    return tuple(c.int(0, 5) for _ in range(c.int(0, 3)))


def within(c, g, w, tol, msg):
    g, w = np.asarray(g), np.asarray(w)
    c.check(g.shape == w.shape, f"{msg}: shape {g.shape}, expected {w.shape}")
    c.evals += 1
    bad = ~(np.abs(g - w) <= tol)
    if np.any(bad):
        i = tuple(np.argwhere(np.atleast_1d(bad))[0])
        c.fail(f"{msg}: at {i} got {g!r:.200} expected {w!r:.200}")


@group(quick=1500, thorough=20000, env={"OMP_NUM_THREADS": "3"})
def vectors(c):
    """Spherical and cartesian vectors."""
    r = c.chance(0.5)
    s = sph(c, shape_of(c), r)
    dt = c.pick([np.float64, np.float64, np.float32, np.int64])
    s = s.astype(dt)
    x = layout(c, s)
    keep = s.copy()
    c.note(sph=s, dt=s.dtype)
    s = s.astype(np.float64)
    got = sp.sph_to_cart(x)
    w = cart(s)
    scale = np.abs(s[..., :1]) if r else 1.0
    c.check(got.dtype == np.float64, f"type {got.dtype}")
    within(c, got, w, 1e-14 * scale, "sph_to_cart")
    back = sp.cart_to_sph(w)
    if w.size:
        ok = (w != 0).any(axis=-1)
        n = np.sqrt((w**2).sum(axis=-1))
        within(c, back[..., 0][ok], n[ok], 1e-14 * n[ok], "cart_to_sph radius")
        c.check(((back[..., 1][ok] >= 0) & (back[..., 1][ok] <= PI)).all() and (np.abs(back[..., 2][ok]) <= PI).all(), "angles out of range")
        within(c, cart(back)[ok], w[ok], 1e-7 * n[ok][:, None], "cart_to_sph direction")
        iv = np.rint(w / np.maximum(n, 1e-300)[..., None] * 9).astype(int)
        nz = (iv != 0).any(axis=-1)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = sp.cart_to_sph(iv if c.chance(0.7) else iv.tolist())
        within(c, cart(b)[nz], iv[nz], 1e-6, "cart_to_sph of integers")
    # Unit vectors
    th, ph = sp.thetaphi_plane(s)
    c.check(th.shape == s.shape and ph.shape == s.shape, "thetaphi_plane shape")
    rh = cart(s[..., -2:])
    t, p = cart(th), cart(ph)
    within(c, np.cross(t, p), rh, 1e-9, "theta x phi is not the direction")
    tt = np.stack([np.cos(s[..., -2]) * np.cos(s[..., -1]), np.cos(s[..., -2]) * np.sin(s[..., -1]), -np.sin(s[..., -2])], axis=-1)
    within(c, t, tt, 1e-9, "theta unit vector")
    tp = sp.thetaphi_plane_cart(x[..., -2:])
    within(c, tp, np.stack([t, p]), 1e-9, "thetaphi_plane_cart")
    # Scalar products with a single vector
    one = sph(c, (), c.chance(0.5))
    d = cart(s) @ cart(one)
    m = 1e-13 * (np.abs(s[..., 0]) if r else 1.0) * (abs(one[0]) if one.size == 3 else 1.0)
    within(c, sp.sph_dot(x, one), d, m, "sph_dot")
    within(c, sp.sph_dot(one, x), d, m, "sph_dot")
    c.same(x, keep, "the input", dtype=False)
    c.raises(ValueError, sp.sph_to_cart, np.zeros((2, c.pick([1, 4, 5]))), msg="wrong number of coordinates")
    c.raises(ValueError, sp.thetaphi_plane_cart, np.zeros((2, 3)), msg="wrong number of coordinates")
    c.count("points", s.size // (2 + r))
    if s.size:
        c.nontrivial(s.tobytes())


@group(quick=500, thorough=8000, env={"OMP_NUM_THREADS": "3"})
def norms(c):
    """Normalising in place, and the cosine rule."""
    shape = shape_of(c)
    v = c.rng.standard_normal((*shape, 2)) * 10.0 ** c.rng.uniform(-8, 8, (*shape, 1))
    dt = c.pick([np.float64, np.float64, np.float32])
    v = v.astype(dt)
    x = layout(c, v.copy())
    c.note(vec=v, strides=str(x.strides))
    n = np.hypot(v[..., :1].astype(float), v[..., 1:].astype(float))
    ret = sp.norm_vec2(x)
    c.check(ret is None, "norm_vec2 returns something")
    within(c, x, v / n, 1e-6 if dt is np.float32 else 1e-14, "norm_vec2")
    c.raises(ValueError, sp.norm_vec2, np.ones((2, 3)), msg="wrong length")
    mu = c.rng.uniform(-1, 1, c.int(0, 6))
    mu[c.rng.random(mu.size) < 0.2] = c.pick([1.0, -1.0, 0.0])
    x1, x2 = (c.rng.uniform(0, 100, c.int(0, 6)) for _ in range(2))
    if x1.size and x2.size and c.chance(0.5):
        x2[0] = x1[0] * c.pick([1.0, 1.0, 1 + 1e-9])
        mu[: mu.size // 2] = 1.0
    got = sp.cosine_rule(mu, x1, x2)
    a = np.arccos(mu)
    M, A, B = np.meshgrid(a, x1, x2, indexing="ij")
    w = np.hypot(A - B * np.cos(M), B * np.sin(M))
    within(c, got, w, 1e-5, "cosine_rule")
    # In the same direction it is the difference
    flat = mu == 1.0
    within(c, got[flat], np.broadcast_to(np.abs(x1[:, None] - x2), (int(flat.sum()), x1.size, x2.size)), 1e-12, "cosine_rule in the same direction")
    if mu.size and x1.size and x2.size:
        within(c, got**2, A**2 + B**2 - 2 * A * B * np.cos(M), 1e-9 * (1 + A**2 + B**2), "cosine_rule squared")
    if v.size:
        c.nontrivial(v.tobytes(), mu.tobytes())


def angle(a, b):
    x = np.cross(a, b)
    return np.arctan2(np.sqrt((x**2).sum(axis=-1)), (a * b).sum(axis=-1))


@group(quick=600, thorough=8000)
def distances(c):
    """Angular distances and great circles."""
    n = c.int(1, 6)
    p = sph(c, (n,), 0)
    q = sph(c, (n if c.chance(0.7) else 1,), 0)
    k = c.pick(["any", "same", "antipodal", "near"])
    if k == "same":
        q = p.copy()
    elif k == "antipodal":
        q = np.stack([PI - p[:, 0], p[:, 1] + PI], axis=-1)
    elif k == "near":
        q = p + c.rng.standard_normal(p.shape) * 1e-5
    c.note(p=p, q=q, kind=k)

    def ang(v):
        m = c.int(0, 2)
        return [Angle(radians=v), Angle(degrees=np.degrees(v)), Angle(hours=v * 12 / PI)][m]

    got = sp.sphdist(ang(p[:, 1]), ang(PI / 2 - p[:, 0]), ang(q[:, 1]), ang(PI / 2 - q[:, 0]))
    c.check(isinstance(got, Angle), f"result {type(got)}")
    w = angle(cart(p), np.broadcast_to(cart(q), (n, 3)))
    within(c, got.radians, w, 1e-7 if k == "antipodal" else 1e-13 + 1e-7 * (w > 3), "sphdist")
    i = c.int(0, n - 1)
    one = sp.sphdist(*(Angle(radians=float(v)) for v in (p[i, 1], PI / 2 - p[i, 0], q[0, 1], PI / 2 - q[0, 0])))
    within(c, one.radians, angle(cart(p[i]), cart(q[0])), 1e-7, "sphdist of two points")
    # Great circles
    a, b = sph(c, (), 0), sph(c, (), 0)
    d = angle(cart(a), cart(b))
    m = c.int(2, 12)
    if 0.05 < d < PI - 0.05:
        c.note(a=a, b=b, npoints=m)
        g = sp.great_circle_points(a, b, m)
        c.check(g.shape == (m, 2), f"great circle shape {g.shape}")
        v = cart(g)
        f = np.linspace(0, 1, m)[:, None]
        w = (np.sin((1 - f) * d) * cart(a) + np.sin(f * d) * cart(b)) / np.sin(d)
        within(c, v, w, 1e-6, "great circle points")
        c.count("circles")
    c.nontrivial(p.tobytes(), q.tobytes())


@group(quick=600, thorough=8000)
def ground(c):
    """Ground coordinates, projections and rotations."""
    shape = tuple(c.int(1, 4) for _ in range(c.int(0, 2)))
    u = lambda a, b: c.rng.uniform(a, b, shape) if shape else float(c.rng.uniform(a, b))  # noqa: E731
    ha, dec = u(-PI, PI), u(-PI / 2, PI / 2)
    lat = float(c.rng.uniform(-PI / 2, PI / 2)) if c.chance(0.7) else u(-PI / 2, PI / 2)
    c.note(ha=ha, dec=dec, lat=lat)
    keep = np.copy(ha), np.copy(dec), np.copy(lat)
    x, y, z = sp.sph_to_ground(ha, lat, dec)
    # Rotate the equatorial direction about the East axis
    e = np.stack(np.broadcast_arrays(np.cos(dec) * np.cos(ha), -np.cos(dec) * np.sin(ha), np.sin(dec)), axis=-1)
    sl, cl = np.sin(lat), np.cos(lat)
    w = np.stack(np.broadcast_arrays(e[..., 1], cl * e[..., 2] - sl * e[..., 0], sl * e[..., 2] + cl * e[..., 0]), axis=-1)
    within(c, np.stack([x, y, z], axis=-1), w, 1e-13, "sph_to_ground")
    up = np.asarray(z) > 0.01
    h2, d2 = sp.ground_to_sph(x, y, lat)
    e2 = np.stack(np.broadcast_arrays(np.cos(d2) * np.cos(h2), -np.cos(d2) * np.sin(h2), np.sin(d2)), axis=-1)
    within(c, e2[up], e[up], 1e-10, "ground_to_sph")
    b = [u(-1000, 1000) for _ in range(3)]
    if c.chance(0.3):
        within(c, sp.projected_distance(ha, lat, dec, b[0], b[1]), x * b[0] + y * b[1], 1e-9, "projected_distance")
    else:
        within(c, sp.projected_distance(ha, lat, dec, *b), x * b[0] + y * b[1] + z * b[2], 1e-9, "projected_distance")
    rot = tuple(c.rng.uniform(-7, 7, 3) * c.rng.integers(0, 2, 3))
    basis = [u(-1, 1) for _ in range(3)]
    cy, cp, cr = np.cos(rot)
    sy, s_p, sr = np.sin(rot)
    Y = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    P = np.array([[1, 0, 0], [0, cp, s_p], [0, -s_p, cp]])
    R = np.array([[cr, 0, -sr], [0, 1, 0], [sr, 0, cr]])
    got = sp.rotate_ypr(rot, *basis)
    w = np.tensordot(R @ P @ Y, np.stack(basis), axes=1)
    within(c, np.stack(got), w, 1e-12, f"rotation by {rot}")
    c.check(all(np.array_equal(a, b) for a, b in zip(keep, (ha, dec, lat))), "the input was changed")
    c.nontrivial(np.asarray(ha).tobytes(), np.asarray(dec).tobytes())


def miller(ls, z):
    """Spherical Bessel functions of the given orders by backward recurrence."""
    ld = np.longdouble
    z = ld(z)
    top = int(max(max(ls), z)) + 60 + int(10 * np.sqrt(max(max(ls), float(z))))
    out, nxt, cur, S = {}, ld(0), ld(1e-300), ld(0)
    for n in range(top, -1, -1):
        if n in ls:
            out[n] = cur
        S += (2 * n + 1) * cur * cur
        if n == 0:
            break
        nxt, cur = cur, (2 * n + 1) / z * cur - nxt
        if abs(cur) > 1e200:
            f = ld(1e-200)
            cur, nxt, S = cur * f, nxt * f, S * f * f
            out = {k: v * f for k, v in out.items()}
    s0, c0 = np.sin(z), np.cos(z)
    j0, j1 = s0 / z, s0 / z**2 - c0 / z
    # Normalise with the larger one of the two lowest orders, where it is well determined
    if z < 1e-3:
        nrm = (1 - z * z / 6) / cur
    else:
        nrm = j0 / cur if abs(j0) > abs(j1) else j1 / nxt
    return {k: float(v * nrm) for k, v in out.items()}


def tolerance(l, z, r, near=0):
    """The accuracy of an order, or the worst one of the neighbouring orders."""
    env = abs(r) if z < l else max(abs(r), 1 / z)
    if l + near > 20 and z < (l + near) / 5:
        return 2e-3 * env
    if l + near > 20 and z > 10 * (l - near):
        return 1e-4 * env
    return 1e-9 * env


@group(quick=400, thorough=6000)
def besselj(c):
    """Spherical Bessel functions and their derivatives."""
    z = c.pick([float(10 ** c.rng.uniform(-9, 0)), float(10 ** c.rng.uniform(-1, 2)), float(c.rng.uniform(0.5, 3000))])
    if c.chance(0.3):
        z = float(c.pick([0.5, 1, 2, 20, 1e-6, 210, 250, 4.2, 5]))
    ls = sorted({c.int(0, c.pick([3, 25, 25, 150, 2000])) for _ in range(c.int(1, 4))})
    c.note(l=str(ls), z=z)
    ref = miller({k + i for k in ls for i in range(3)}, z)
    how = c.pick(["scalar", "array", "list", "grid"])
    zz = np.array([z, 0.0])
    if how == "scalar":
        got = [bessel.jl(k, z) for k in ls]
        c.check(all(np.ndim(g) == 0 for g in got), "a scalar gives an array")
    elif how == "array":
        got = bessel.jl(np.array(ls), z if c.chance(0.5) else np.full(len(ls), z))
    elif how == "list":
        got = bessel.jl(ls, z) if c.chance(0.5) else bessel.jl(ls, [z] * len(ls))
    else:
        g = bessel.jl(np.array(ls)[:, None], zz)
        c.check(g.shape == (len(ls), 2), f"shape {g.shape}")
        c.check(all(v == (1.0 if k == 0 else 0.0) for k, v in zip(ls, g[:, 1])), f"values at zero {g[:, 1]}")
        got = g[:, 0]
    c.check(np.shape(got) == (len(ls),), f"shape {np.shape(got)} for {len(ls)} orders")
    for k, g in zip(ls, got):
        r = ref[k]
        if abs(r) < 1e-290:
            c.check(abs(g) < 1e-280, f"j_{k}({z}) = {g}, expected {r}")
            continue
        c.check(abs(g - r) <= tolerance(k, z, r), f"j_{k}({z}) = {g}, expected {r}")
        c.count("values")
    # At zero
    for at, f in ({1: 1 / 3}, bessel.jl_d), ({0: -1 / 3, 2: 2 / 15}, bessel.jl_d2):
        got = [f(k, c.pick([0, 0.0, np.float64(0)])) for k in ls] if how == "scalar" else f(ls if how == "list" else np.array(ls), [0.0] * len(ls) if how == "list" else 0.0)
        c.check(np.shape(got) == (len(ls),), f"{f.__name__}: shape {np.shape(got)} for {len(ls)} orders")
        c.check(all(abs(g - at.get(k, 0.0)) < 1e-12 for k, g in zip(ls, got)), f"{f.__name__} of orders {ls} at zero: {got}")
    if z > 1e-4:
        for k in ls:
            j0, j1, j2 = ref[k], ref[k + 1], ref[k + 2]
            if abs(j2) < 1e-280:
                continue
            t0, t1, t2 = (tolerance(k + i, z, ref[k + i], 4) + 1e-9 * abs(ref[k + i]) for i in range(3))
            arg = c.pick([(k, z), (np.array([k]), np.array([z])), ([k], z), (k, [z])])
            d = float(np.ravel(bessel.jl_d(*arg))[0])
            w = -j1 + k / z * j0
            c.check(abs(d - w) <= t1 + k / z * t0, f"j_{k}'({z}) = {d}, expected {w}")
            d = float(np.ravel(bessel.jl_d2(*arg))[0])
            w = 2 / z * j1 + ((k * k - k) / z**2 - 1) * j0
            tol = t2 + (2 * k + 1) / z * t1 + (k * k + k) / z**2 * t0
            c.check(abs(d - w) <= tol, f"j_{k}''({z}) = {d}, expected {w}")
            c.count("derivatives")
    c.nontrivial(str(ls), z)
