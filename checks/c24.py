"""C24 time conversions and local observers."""

import os
import tempfile
from datetime import datetime, timedelta, timezone

import numpy as np
from skyfield.api import Star
from skyfield.timelib import Time
from skyfield.units import Angle
from skyfield.vectorlib import VectorFunction

from vf.core import group
from vf.native import REPO

from caput.astro import constants
from caput.astro import skyfield as csf
from caput.astro import time as ctime
from caput.astro.observer import Observer

RULE = (
    "random times (1973 to 2025, whole, fractional, around leap seconds and midnights) in every accepted "
    "form, single or in arrays, lists and empty; converted and compared with the calendar, with the "
    "published leap seconds and Earth orientation table, with elementary rotations of the sky and with "
    "the inverse conversion; searches for transits, risings and settings are compared with all sign "
    "changes of a dense sampling; non-trivial when there is at least one time; distinct by the times"
)
ASSUMPTIONS = [
    "angles to times are judged to the documented 5 ms, and not within two seconds of a leap second",
    "no planetary ephemeris is available offline: the Earth rests at a fixed place and sources are stars",
]

LEAPS = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
LEAP = np.array([(datetime(y, m, 1, tzinfo=timezone.utc) - EPOCH).total_seconds() for y, m in LEAPS])
LO, HI = 1.0e8, 1.75e9


def iers():
    mjd, dut = [], []
    with open(os.path.join(REPO, "caput", "astro", "_skyfield_data", "finals2000A.all")) as f:
        for line in f:
            if line[58:68].strip():
                mjd.append(float(line[7:15]))
                dut.append(float(line[58:68]))
    return np.array(mjd), np.array(dut)


MJD, DUT = iers()
DUTTAI = DUT - np.searchsorted(LEAP, (MJD - 40587) * 86400, side="right")


def ref_era(t):
    """The Earth rotation angle in degrees, from the published table."""
    t = np.asarray(t, float)
    leap = np.searchsorted(LEAP, t, side="right")
    dut = np.interp(t / 86400 + 40587, MJD, DUTTAI) + leap
    day = np.floor(t / 86400)
    frac = (t - day * 86400 + dut) / 86400
    d = day + 40587 - 51544.5
    turns = 0.7790572732640 + 0.00273781191135448 * (d + frac) + (d % 1.0) + frac
    return 360.0 * (turns % 1.0)


def turn(a):
    """An angle difference in -180 to 180 degrees."""
    return (np.asarray(a) + 180.0) % 360.0 - 180.0


def times(c, n):
    k = c.pick(["any", "whole", "leap", "midnight", "milli"])
    t = c.rng.uniform(LO, HI, n)
    if k == "whole":
        t = np.floor(t)
    elif k == "milli":
        t = np.round(t, 3)
    elif k == "leap":
        t = LEAP[c.rng.integers(2, len(LEAP), n)] + np.round(c.rng.uniform(-3, 3, n), c.int(0, 3))
    elif k == "midnight":
        t = np.floor(t / 86400) * 86400 + c.pick([0.0, 0.25, -0.5, 1e-3])
    return t


def away(t):
    """Not within two seconds of a leap second."""
    return np.abs(np.asarray(t)[..., None] - LEAP).min(axis=-1) > 2.0


def form(c, v):
    """Times as a scalar, list, tuple or array."""
    k = c.pick(["list", "tuple", "array"])
    return list(v) if k == "list" else tuple(v) if k == "tuple" else np.array(v, dtype=None if not len(v) or isinstance(v[0], (float, str, np.floating)) else object)


def near(c, got, want, tol, msg):
    g, w = np.asarray(got, float), np.asarray(want, float)
    c.check(g.shape == w.shape, f"{msg}: shape {g.shape}, expected {w.shape}")
    bad = np.abs(g - w)
    c.check((bad <= tol).all(), f"{msg}: {got}, expected {want}, off by {bad.max() if bad.size else 0}")
    c.count("values", g.size)


@group(quick=600, thorough=10000, env={"TZ": "PST8PDT,M3.2.0,M11.1.0"})
def stamps(c):
    """Calendar times, text and numbers."""
    n = c.pick([0, 1, 2, 5])
    t = times(c, n)
    if c.chance(0.2):
        t = c.rng.uniform(-2e9, 3e9, n)
    c.note(t=t)
    tz = c.pick([timezone.utc, None, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8))])
    ref = [EPOCH + timedelta(microseconds=round(float(x) * 1e6)) for x in t]
    sec = [r.replace(microsecond=0) for r in ref]
    got = ctime.unix_to_datetime(form(c, t))
    c.check(np.shape(got) == (n,), f"unix_to_datetime: shape {np.shape(got)}")
    for g, r in zip(got, ref):
        c.check(isinstance(g, datetime) and g.utcoffset() == timedelta(0) and abs(g - r) <= timedelta(microseconds=1), f"unix_to_datetime: {g!r}, expected {r!r}")
    near(c, ctime.datetime_to_unix(got), t, 2e-6, "datetime_to_unix(unix_to_datetime)")
    other = [r.astimezone(tz) if tz else r.replace(tzinfo=None) for r in ref]
    near(c, ctime.datetime_to_unix(form(c, other)), t, 2e-6, f"datetime_to_unix in {tz}")
    near(c, ctime.ensure_unix(form(c, other)) if n else [], t, 2e-6, f"ensure_unix of datetimes in {tz}")
    near(c, ctime.ensure_unix(form(c, t)), t, 0, "ensure_unix of numbers")
    whole = np.floor(t)
    near(c, ctime.ensure_unix(whole.astype(int)), whole, 0, "ensure_unix of integers")
    s = ctime.datetime_to_timestr(form(c, other))
    c.check(list(s) == [f"{r:%Y%m%dT%H%M%S}Z" for r in sec], f"datetime_to_timestr: {s} for {other}")
    back = ctime.timestr_to_datetime(s if n else [])
    c.check(list(back) == [r.replace(tzinfo=None) for r in sec], f"timestr_to_datetime: {back} for {s}")
    extra = [x[:-1] + c.pick(["", "Z", "_chime_corr", ".h5"]) for x in s]
    near(c, ctime.ensure_unix(form(c, extra)) if n else [], [(r - EPOCH).total_seconds() for r in sec], 0, f"ensure_unix of {extra}")
    near(c, ctime.time_of_day(form(c, t)), t % 86400.0, 3e-6 if n and np.abs(t % 86400 - 86400).min() > 1e-5 else 90000, "time_of_day")
    if n:
        i = c.int(0, n - 1)
        x = float(t[i])
        g = ctime.unix_to_datetime(x)
        c.check(isinstance(g, datetime) and abs(g - ref[i]) <= timedelta(microseconds=1), f"unix_to_datetime({x}): {g!r}")
        for form1, v in (("datetime", other[i]), ("text", s[i]), ("number", x), ("integer", int(whole[i])), ("array without dimensions", np.array(x))):
            g = ctime.ensure_unix(v)
            w = {"text": (sec[i] - EPOCH).total_seconds(), "integer": whole[i]}.get(form1, x)
            c.check(np.ndim(g) == 0, f"ensure_unix of a single {form1}: {g!r}")
            near(c, g, w, 2e-6, f"ensure_unix of a single {form1}")
        c.check(ctime.datetime_to_timestr(other[i]) == s[i], "datetime_to_timestr of one")
        c.check(ctime.timestr_to_datetime(str(s[i])) == back[i], "timestr_to_datetime of one")
        g = ctime.time_of_day(other[i])
        c.check(isinstance(g, float) and (abs(g - x % 86400) < 3e-6 or abs(g - x % 86400) > 86399), f"time_of_day of one: {g}")
        nv = ctime.naive_datetime_to_utc(ref[i].replace(tzinfo=None))
        c.check(nv.utcoffset() == timedelta(0) and nv == ref[i], f"naive_datetime_to_utc: {nv!r}")
        aw = ctime.naive_datetime_to_utc(other[i] if tz else ref[i])
        c.check(aw == ref[i] and aw.utcoffset() == (other[i] if tz else ref[i]).utcoffset(), f"naive_datetime_to_utc of an aware datetime: {aw!r}")
        c.nontrivial(t.tobytes(), str(tz))
    c.raises((TypeError, ValueError), ctime.ensure_unix, c.pick([None, {}, [None], b"x", object()]), msg="not a time")


@group(quick=250, thorough=4000)
def rotation(c):
    """Earth rotation angle, leap seconds and skyfield times."""
    n = c.pick([0, 1, 2, 6])
    t = times(c, n)
    c.note(t=t)
    got = ctime.unix_to_era(form(c, t))
    c.check(np.shape(got) == (n,) and ((np.asarray(got) >= 0) & (np.asarray(got) < 360)).all(), f"unix_to_era: {got}")
    near(c, turn(got - ref_era(t)) if n else [], np.zeros(n), 2e-6, f"unix_to_era at {t}")
    if n:
        # Skyfield times
        st = csf.unix_to_skyfield_time(form(c, t))
        leap = np.searchsorted(LEAP, t, side="right")
        tt = t / 86400 + 2440587.5 + (leap + 10 + 32.184) / 86400
        c.check(isinstance(st, Time), f"unix_to_skyfield_time: {st!r}")
        near(c, st.tt, tt, 2e-9, "unix_to_skyfield_time")
        ok = away(t)
        bk = csf.skyfield_time_to_unix(st)
        near(c, bk[ok], t[ok], 0.6e-3, "skyfield_time_to_unix")
        near(c, ctime.ensure_unix(st)[ok], t[ok], 0.6e-3, "ensure_unix of skyfield times")
        one = csf.unix_to_skyfield_time(float(t[0]))
        c.check(np.ndim(one.tt) == 0, "a single skyfield time is an array")
        if ok[0]:
            g = csf.skyfield_time_to_unix(one)
            c.check(np.ndim(g) == 0, "a single time is an array")
            near(c, g, t[0], 0.6e-3, "skyfield_time_to_unix of one")
    # Leap seconds between two times
    u = times(c, n)
    want = np.searchsorted(LEAP, u, side="right") - np.searchsorted(LEAP, t, side="right")
    got = ctime.leap_seconds_between(form(c, t), form(c, u))
    c.check(np.shape(got) == (n,) and np.array_equal(got, want), f"leap_seconds_between {t} and {u}: {got}, expected {want}")
    c.check(np.asarray(got).dtype.kind == "i", "number of leap seconds is not an integer")
    t0 = float(times(c, 1)[0])
    w0 = np.searchsorted(LEAP, u, side="right") - np.searchsorted(LEAP, t0, side="right")
    got = ctime.leap_seconds_between(t0, form(c, u))
    c.check(np.shape(got) == (n,) and np.array_equal(got, w0), f"leap_seconds_between {t0} and {u}: {got}, expected {w0}")
    # Angles to times
    era = c.rng.uniform(0, 360, n)
    if n and c.chance(0.3):
        era = np.round(era) + c.pick([0, 0, 360, -720])
    if c.chance(0.4):
        t0 = float(LEAP[c.int(2, len(LEAP) - 1)] - c.rng.uniform(3, 86000))
    start = t0 if c.chance(0.5) else form(c, t)
    c.note(era=era, time0=start)
    got = ctime.era_to_unix(form(c, era), start)
    c.check(np.shape(got) == (n,), f"era_to_unix: shape {np.shape(got)}")
    s = np.broadcast_to(np.asarray(start, float), (n,))
    ok = away(got) & away(s) if n else np.zeros(0, bool)
    got = np.asarray(got, float)
    near(c, turn(ref_era(got) - era)[ok] if n else [], np.zeros(ok.sum()), 5e-3 * 360 / 86164, f"era_to_unix {era} after {s}")
    c.check(((got >= s - 6e-3) & (got <= s + 86164.2))[ok].all(), f"era_to_unix: {got} is not in the day after {s}")
    if n and ok[0]:
        g = ctime.era_to_unix(float(era[0]), float(s[0]))
        c.check(np.ndim(g) == 0, "a single time is an array")
        near(c, g, got[0], 1e-6, "era_to_unix of one")
    if n:
        c.nontrivial(t.tobytes(), era.tobytes())


@group(quick=200, thorough=3000, env={"TZ": "PST8PDT,M3.2.0,M11.1.0"})
def local(c):
    """Local stellar angles and days."""
    lon, lat, alt = float(np.round(c.rng.uniform(-180, 180), 3)), float(np.round(c.rng.uniform(-90, 90), 3)), float(c.int(-100, 4000))
    start = None if c.chance(0.3) else float(np.round(c.rng.uniform(LO, HI)))
    kind = c.pick(["number", "datetime", "text"])
    arg = start
    if start is not None and kind != "number":
        d = EPOCH + timedelta(seconds=start)
        arg = d if kind == "datetime" else f"{d:%Y%m%dT%H%M%SZ}"
    n = c.pick([0, 1, 2, 6])
    t = times(c, n)
    c.note(lon=lon, start=arg, t=t)
    if c.chance(0.5):
        o = Observer(lon, lat, alt, arg) if arg is not None else Observer(lon, lat, alt)
    else:
        o = Observer(lon=lon, lat=lat, alt=alt, lsd_start=arg)
    c.check((o.longitude, o.latitude, o.altitude) == (lon, lat, alt), "position")
    s = start if start is not None else 946727936.0
    near(c, o.lsd_start_day if start is not None else ctime.ensure_unix(o.lsd_start_day), s, 1e-6, "lsd_start_day")
    lsa = o.unix_to_lsa(form(c, t))
    c.check(np.shape(lsa) == (n,) and ((np.asarray(lsa) >= 0) & (np.asarray(lsa) < 360)).all(), f"unix_to_lsa: {lsa}")
    near(c, turn(lsa - ref_era(t) - lon) if n else [], np.zeros(n), 2e-6, "unix_to_lsa")
    near(c, o.lsa(t), lsa, 1e-9, "lsa")
    # The zero point is the first time after the start with an angle of zero
    z = o.lsd_zero()
    c.check(np.ndim(z) == 0, f"lsd_zero: {z!r}")
    if away(z) and away(s):
        near(c, turn(ref_era(z) + lon), 0, 5e-3 * 360 / 86164, "angle at lsd_zero")
        c.check(s - 6e-3 <= z <= s + 86164.2, f"lsd_zero {z} is not in the day after {s}")
    # Days count the turns since then
    lsd = o.unix_to_lsd(form(c, t))
    c.check(np.shape(lsd) == (n,), f"unix_to_lsd: {lsd}")
    near(c, turn((np.asarray(lsd) % 1.0) * 360 - lsa) if n else [], np.zeros(n), 1e-6, "fraction of unix_to_lsd")
    # (UT1 stays within a second of UTC)
    near(c, lsd, (t - z) / (86400.0 / 1.00273781191135448), 3e-5, "unix_to_lsd")
    near(c, o.lsd(t), lsd, 1e-9, "lsd")
    back = o.lsd_to_unix(form(c, lsd) if n else [])
    ok = away(t) if n else np.zeros(0, bool)
    near(c, np.asarray(back)[ok], t[ok], 6e-3, "lsd_to_unix(unix_to_lsd)")
    d = np.array([float(c.int(-3000, 6000)) + c.pick([0, 0.5, 1e-6, 0.999999]) for _ in range(n)])
    u = np.asarray(o.lsd_to_unix(d), float)
    inside = (u > LO) & (u < HI)
    c.check(np.shape(u) == (n,), "shape of lsd_to_unix")
    if n:
        near(c, np.asarray(o.unix_to_lsd(u))[inside & away(u)], d[inside & away(u)], 1e-7, "unix_to_lsd(lsd_to_unix)")
    if n > 1:
        q = np.sort(t)
        v = np.asarray(o.unix_to_lsd(q))
        gap = np.diff(q) > 1.1
        c.check((np.diff(v)[gap] > 0).all(), f"days do not increase with time: {v} at {q}")
    a = c.rng.uniform(0, 360, n)
    t0 = float(times(c, 1)[0])
    g = np.asarray(o.lsa_to_unix(form(c, a), t0), float)
    ok = away(g) & away(t0) if n else np.zeros(0, bool)
    near(c, turn(ref_era(g) + lon - a)[ok] if n else [], np.zeros(ok.sum()), 5e-3 * 360 / 86164, "lsa_to_unix")
    c.check(((g >= t0 - 6e-3) & (g <= t0 + 86164.2))[ok].all(), f"lsa_to_unix: {g} is not in the day after {t0}")
    # Sidereal time is ahead by the precession of the equinox, up to nutation
    lst = o.unix_to_lst(form(c, t))
    if n:
        T = (t / 86400 + 2440587.5 - 2451545.0) / 36525
        prec = (0.014506 + 4612.156534 * T + 1.3915817 * T**2) / 3600
        near(c, turn(lst - ref_era(t) - lon - prec), np.zeros(n), 0.0055, "unix_to_lst")
        c.check(((np.asarray(lst) >= 0) & (np.asarray(lst) < 360)).all(), f"unix_to_lst: {lst}")
        near(c, o.lst(float(t[0])), lst[0], 1e-9, "lst of one")
        for f, w in ((o.unix_to_lsa, lsa), (o.unix_to_lsd, lsd)):
            g = f(float(t[0]))
            c.check(np.ndim(g) == 0, "a single angle is an array")
            near(c, g, w[0], 1e-9, "one time")
        c.nontrivial(t.tobytes(), lon, start)


class Earth(VectorFunction):
    """An Earth at rest."""

    center, target, center_name, target_name = 0, 399, "barycenter", "earth"

    def _at(self, t):
        z = np.zeros((3, *np.shape(t.tt)))
        return z + np.array([0.5, 0.7, 0.3]).reshape(3, *(1,) * np.ndim(t.tt)), z, None, None


class Wrapper:
    """Stands in for the wrapper, which would download an ephemeris."""

    timescale = csf.skyfield_wrapper.timescale
    ephemeris = {"earth": Earth()}


def direction(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def seen(o, ra, dec, t):
    """Hour angle, declination and altitude of a star, in degrees."""
    st = csf.unix_to_skyfield_time(np.atleast_1d(t))
    v = np.einsum("ijk,j->ik", st.M, direction(ra, dec))
    r, d = np.degrees(np.arctan2(v[1], v[0])), np.degrees(np.arcsin(v[2]))
    ha = turn(np.asarray(o.unix_to_lst(np.atleast_1d(t))) - r)
    p, dd, h = np.radians(o.latitude), np.radians(d), np.radians(ha)
    return ha, d, np.degrees(np.arcsin(np.sin(p) * np.sin(dd) + np.cos(p) * np.cos(dd) * np.cos(h)))


def crossings(t, v, jump=1e9):
    """Where v changes sign: index and direction."""
    s = np.where((np.sign(v[:-1]) != np.sign(v[1:])) & (np.abs(np.diff(v)) < jump))[0]
    return t[s], t[s + 1], v[s + 1] > v[s]


@group(quick=160, thorough=2500)
def events(c):
    """Transits, risings and settings of stars."""
    lon, lat = float(c.rng.uniform(-180, 180)), float(c.rng.uniform(-75, 75))
    o = Observer(lon, lat, float(c.int(0, 3000)), sf_wrapper=Wrapper())
    ra, dec = float(c.rng.uniform(0, 360)), float(c.rng.uniform(-85, 85))
    t0 = float(np.round(c.rng.uniform(LO, HI)))
    while not away([t0, t0 + 86400, t0 + 2 * 86400, t0 + 3 * 86400, t0 + 4 * 86400]).all():
        t0 += 10
    days = c.pick([None, 0.4, 1.5, float(np.round(c.rng.uniform(0.05, 3.5), 3))])
    t1 = None if days is None else t0 + days * 86400
    end = t1 or t0 + 86164.0989
    step = None
    if c.chance(0.6):
        step = float(c.pick([0.03, 0.05, 0.1, 0.19, 0.01]))
        step = None if step * 86400 >= end - t0 else step
    diam = c.pick([0.0, 0.0, 1.6, -10.0, 20.0])
    src = csf.skyfield_star_from_ra_dec(ra, dec, "star") if c.chance(0.7) else Star(ra_hours=ra / 15, dec_degrees=dec)
    how = c.pick(["number", "datetime", "text"])
    args = [x if how == "number" or x is None else EPOCH + timedelta(seconds=x) for x in (t0, t1)]
    if how == "text":
        args = [x if x is None else f"{x:%Y%m%dT%H%M%SZ}" for x in args]
        end = np.floor(end) if t1 else end
    c.note(lon=lon, lat=lat, ra=ra, dec=dec, t0=t0, t1=t1, step=step, diameter=diam, how=how)
    kw = {} if step is None else {"step": step}
    grid = np.linspace(t0, end, int((end - t0) / 240) + 2)
    ha, _, el = seen(o, ra, dec, grid)

    def match(got, a, b, what, tol):
        """Every crossing appears once, apart from those at the ends."""
        g = np.sort(np.atleast_1d(got))
        c.check(np.array_equal(g, np.atleast_1d(got)), f"{what}: not in order: {got}")
        edge = 3.0
        inner = (a > t0 + edge) & (b < end - edge)
        hit = [((g >= x - tol) & (g <= y + tol)).sum() for x, y in zip(a, b)]
        c.check(all(h == 1 for h, i in zip(hit, inner) if i), f"{what}: {got}, expected one in each of {list(zip(a, b))}")
        c.check(len(g) <= len(a) + 2 and all(any(x - edge - tol <= q <= y + edge + tol for x, y in zip(a, b)) or q < t0 + edge or q > end - edge for q in g), f"{what}: {got}, expected {list(zip(a, b))}")
        c.count("events", len(g))
        return g

    for lower in (False, True):
        f = ha if not lower else ha % 360.0 - 180.0
        a, b, _ = crossings(grid, f, 180)
        if c.chance(0.5):
            got, d = o.transit_times(src, args[0], args[1], lower=lower, return_dec=True, **kw)
            c.check(np.shape(d) == np.shape(got), "declinations")
            if len(got):
                st = csf.unix_to_skyfield_time(got)
                v = np.einsum("ijk,j->ik", st.C, direction(ra, dec))
                near(c, d, np.degrees(np.arcsin(v[2])), 2e-3, "declination at transit")
        else:
            got = o.transit_times(src, *args, step, lower) if c.chance(0.3) else o.transit_times(src, args[0], args[1], lower=lower, **kw)
        g = match(got, a, b, f"transits, lower {lower}", 0.05)
        if len(g):
            h = seen(o, ra, dec, g)[0]
            near(c, turn(h - 180 * lower), np.zeros(len(g)), 5e-4, f"hour angle at transits, lower {lower}")
    # Shorter times above or below the horizon than the step may be missed, as documented
    a, b, up = crossings(grid, el + diam / 2)
    limit = (step or min(0.2, (end - t0) / 5 / 86400)) * 86400
    alone = np.diff((a + b) / 2).min() if len(a) > 1 else 1e9
    if alone > limit + 5:
        got, rise = o.rise_set_times(src, *args, diameter=diam, **kw)
        g = match(got, a, b, "risings and settings", 0.5)
        c.check(np.shape(rise) == np.shape(got), "one direction for each time")
        if len(g):
            e = seen(o, ra, dec, np.concatenate([g - 20, g, g + 20]))[2].reshape(3, -1)
            near(c, e[1], np.full(len(g), -diam / 2), 3e-3, "altitude at rising or setting")
            c.check(np.array_equal(e[2] > e[0], rise), f"direction {rise}")
        r = o.rise_times(src, *args, diameter=diam, **kw)
        s = o.set_times(src, *args, diameter=diam, **kw)
        near(c, r, g[np.asarray(rise, bool)], 1e-3, "rise_times")
        near(c, s, g[~np.asarray(rise, bool)], 1e-3, "set_times")
        c.count("horizon")
    c.raises(ValueError, o.transit_times, src, t0, t0 - c.pick([0, 100]), msg="end before start")
    c.raises(ValueError, o.rise_times, src, t0, t0 + 8640, step=c.pick([0.1, 2]), msg="step larger than the interval")
    if c.chance(0.3):
        a, b, _ = crossings(grid, seen(o, ra, 0.0, grid)[0], 180)
        match(o.transit_times(c.pick([ra, np.float64(ra)]), *args), a, b, "transit of a right ascension", 0.05)
    c.nontrivial(lon, lat, ra, dec, t0)


@group(quick=120, thorough=1500)
def places(c):
    """Positions on the sky."""
    lon, lat = float(c.rng.uniform(-180, 180)), float(c.rng.uniform(-80, 80))
    o = Observer(lon, lat, 0.0, sf_wrapper=Wrapper())
    ra, dec = float(c.rng.uniform(0, 360)), float(c.rng.uniform(-85, 85))
    n = c.int(1, 4)
    t = times(c, n)
    c.note(lon=lon, lat=lat, t=t, ra=ra, dec=dec)
    # The direction on the meridian at the equator
    st = csf.unix_to_skyfield_time(t)
    lst = np.asarray(o.unix_to_lst(t))
    v = np.einsum("jik,jk->ik", st.M, direction(lst, np.zeros(n)))
    got = o.transit_RA(form(c, t))
    near(c, turn(got - np.degrees(np.arctan2(v[1], v[0]))), np.zeros(n), 1e-3, "transit_RA")
    c.check(np.ndim(o.transit_RA(float(t[0]))) == 0, "a single angle is an array")
    # Stars
    s = csf.skyfield_star_from_ra_dec(ra, dec, c.pick(["a", ("a", "b"), ["a"]]))
    c.check(isinstance(s, Star) and "a" in s.names and "ab"[: len(s.names)] == "".join(s.names), f"names {s.names}")
    near(c, (s.ra.degrees if hasattr(s.ra, "degrees") and s.ra.preference == "degrees" else s.ra._degrees, s.dec.degrees), (ra, dec), 1e-10, "skyfield_star_from_ra_dec")
    near(c, o.object_coords(s), np.radians((ra, dec)), 1e-12, "object_coords")
    near(c, o.object_coords(s, deg=True), (ra, dec), 1e-10, "object_coords in degrees")
    e = csf.unix_to_skyfield_time(float(t[0]))
    g = o.star_cirs(Angle(degrees=ra, preference="hours"), Angle(degrees=dec), e)
    w = e.C.T @ direction(ra, dec)
    near(c, direction(np.degrees(g.ra.radians), np.degrees(g.dec.radians)), w, 2e-5, "star_cirs")
    # Observers at the same place, but not the same height
    hs = [0.0, float(c.int(1, 9000)), float(c.int(-400, 5000))]
    pos = []
    for h in hs:
        q = Observer(lon, lat, h, sf_wrapper=Wrapper()).skyfield_obs().at(e)
        centre = Wrapper.ephemeris["earth"].at(e)
        pos.append(np.linalg.norm((q.position.au - centre.position.au) * 149597870700.0))
    near(c, np.array(pos) - pos[0], hs, 0.01 * max(np.abs(hs)) + 0.1, "height of observers")
    now = datetime.now(timezone.utc).timestamp()
    near(c, o.get_current_lsd(), o.unix_to_lsd(now), 1e-3, "get_current_lsd")
    # Where the data is
    d = tempfile.mkdtemp(prefix="c24-", dir=c.tmp)
    old = os.environ.pop("CAPUT_SKYFIELD_PATH", None)
    try:
        std = csf.SkyfieldWrapper().path
        c.check(os.path.exists(os.path.join(std, "finals2000A.all")), f"default path {std}")
        os.environ["CAPUT_SKYFIELD_PATH"] = d
        c.check(os.path.realpath(csf.SkyfieldWrapper().path) == os.path.realpath(d), "path of the environment")
        c.check(os.path.realpath(csf.SkyfieldWrapper(std).path) == os.path.realpath(std), "path given")
    finally:
        os.environ.pop("CAPUT_SKYFIELD_PATH", None)
        if old:
            os.environ["CAPUT_SKYFIELD_PATH"] = old
    c.nontrivial(lon, lat, t.tobytes())


PREFIX = {"kilo": 1e3, "mega": 1e6, "giga": 1e9, "milli": 1e-3, "micro": 1e-6, "nano": 1e-9, "centi": 1e-2, "tera": 1e12}
UNITS = {"gram": 1e-3, "second": 1.0, "hour": 3600.0, "minute": 60.0, "day": 86400.0, "eV": 1.602176634e-19, "hertz": None, "parsec": 3.085677581491367e16, "nu21": 1420.40575177, "inch": 0.0254}


@group(quick=60, thorough=400)
def units(c):
    """Constants and their prefixes."""
    p, u = c.pick(sorted(PREFIX)), c.pick([k for k, v in UNITS.items() if v])
    c.note(name=f"{p}_{u}")
    near(c, getattr(constants, u), UNITS[u], 1e-12 * UNITS[u], u)
    near(c, getattr(constants, f"{p}_{u}"), PREFIX[p] * UNITS[u], 1e-12 * PREFIX[p] * UNITS[u], f"{p}_{u}")
    c.raises(AttributeError, getattr, constants, c.pick([f"{p}_{p}_{u}", f"{p}_nothing", f"none_{u}", "wombat"]), msg="unknown constant")
    near(c, constants.stellar_second, 86164.098903691 / 86400, 1e-7, "stellar second")
    near(c, constants.sidereal_second, 86164.0905 / 86400, 1e-6, "sidereal second")
    near(c, ctime.STELLAR_S, constants.stellar_second, 0, "STELLAR_S")
    c.nontrivial(p, u)
