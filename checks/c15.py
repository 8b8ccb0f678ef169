"""C15: coordinate transforms and spheroid quantities are consistent."""
from fractions import Fraction

import mpmath
import numpy as np
from pyinterp import core, geodetic

import grids
import large
from vt import section

PARTS = ['geodetic']
NATIVE = ['math']
RULE = ('A case is one spheroid (WGS84, GRS80, sphere, random Earth-like) with a batch of positions (poles, equator, '
        'antimeridian, several turns, altitudes from -10 km to 40000 km) or one array of longitudes in any layout, judged against '
        'extended-precision closed forms or exact rationals. Non-trivial: at least one value was judged.')
ASSUMES = ['flattening within [0, 1/150]', 'altitudes from -10 km to 40 000 km', 'normalised longitudes are judged to within 2 ulp '
           'of the largest operand']
L = np.longdouble
PI = L('3.14159265358979323846264338327950288')


def spheroid(rng):
    r = rng.random()
    if r < .25:
        return geodetic.Spheroid()
    if r < .35:
        return geodetic.Spheroid((6378137.0, 1 / 298.257222101))
    if r < .5:
        return geodetic.Spheroid((float(rng.choice([6371000., 1., 6378137.])), 0.0))
    return geodetic.Spheroid((float(rng.uniform(3e6, 7e6)), float(1 / rng.uniform(150, 400))))


def places(rng, n):
    lon = rng.uniform(-180, 180, n)
    lat = rng.uniform(-90, 90, n)
    alt = np.where(rng.random(n) < .5, rng.uniform(-1e4, 1e5, n), 10**rng.uniform(0, 7.6, n))
    for k in range(n):
        r = rng.random()
        if r < .15:
            lat[k] = rng.choice([-90, 90, 0, 45, -45, 89.999999999, -89.9999, 1e-12, np.nextafter(90, 0), 56.7891, 57.9])
        if r < .05 or r > .9:
            lon[k] = rng.choice([-180, 180, 0, 90, -90, 179.9999999999, 1e-300, 45, -135])
        if .2 < r < .3:
            lon[k] += 360 * rng.integers(-3, 4)
        if .3 < r < .4:
            alt[k] = rng.choice([0, -1e4, 1e5, 8e5, 1.336e6])
    return lon, lat, alt


def trig(deg):
    """Extended-precision sine and cosine of degrees, exact on quadrants."""
    d = np.remainder(deg.astype(L), L(360))
    q = np.rint(d / 90)
    r = (d - 90 * q) * PI / 180
    q = q.astype(int) % 4
    s, c = np.sin(r), np.cos(r)
    return np.choose(q, [s, c, -s, -c]), np.choose(q, [c, -s, -c, s])


def cartesian(a, f, lon, lat, alt):
    e2 = L(f) * (2 - L(f))
    sx, cx = trig(lon)
    sy, cy = trig(lat)
    n = L(a) / np.sqrt(1 - e2 * sy * sy)
    return (n + alt) * cy * cx, (n + alt) * cy * sx, (n * (1 - e2) + alt) * sy


@section(1500)
def coordinates(ctx, rng):
    s = spheroid(rng)
    a, f = s.semi_major_axis, s.flattening
    c = geodetic.Coordinates(s)
    ctx.check(c.spheroid == s, 'spheroid')
    n = int(rng.choice([0, 1, 2, 17, 60]))
    lon, lat, alt = places(rng, n)
    alt = alt * (a / 6378137)
    lon, lat, alt = (grids.layout(rng, v) for v in (lon, lat, alt))
    t = int(rng.choice([0, 1, 3]))
    ctx.case(lon, lat, alt, a, f, a=a, f=f, n=n)
    x, y, z = c.lla_to_ecef(lon, lat, alt, num_threads=t)
    want = cartesian(a, f, lon, lat, alt)
    tol = 4e-15 * (a + np.abs(alt))
    for g, w, name in zip((x, y, z), want, 'xyz'):
        ctx.close(g, w.astype('float64'), f'lla_to_ecef:{name}', atol=tol, lon=lon, lat=lat, alt=alt, f=f)
    lo, la, al = c.ecef_to_lla(x, y, z, num_threads=t)
    # sub-millimetre, on the ground
    dn = np.abs(la - lat) * np.pi / 180 * (a + alt)
    de = np.abs(np.remainder(lo - lon + 180, 360) - 180) * np.pi / 180 * np.maximum(np.hypot(x, y), 0)
    lim = 1e-3 * a / 6378137
    ctx.all(dn < lim, 'ecef_to_lla:lat', lat=lat, got=la, lon=lon, alt=alt, f=f, error=dn)
    ctx.all(de < lim, 'ecef_to_lla:lon', lon=lon, got=lo, lat=lat, alt=alt, f=f, error=de)
    ctx.all(np.abs(al - alt) < lim, 'ecef_to_lla:alt', alt=alt, got=al, lat=lat, f=f)
    ctx.all((lo >= -180) & (lo <= 180) & (np.abs(la) <= 90 + 1e-9), 'ecef_to_lla:range', lon=lo, lat=la)
    # another system
    o = geodetic.Coordinates(spheroid(rng)) if a > 1e6 else c
    got = c.transform(o, lon, lat, alt, num_threads=t)
    for g, w, name in zip(got, o.ecef_to_lla(x, y, z), ('lon', 'lat', 'alt')):
        ctx.equal(g, w, f'transform:{name}')
    if abs(o.spheroid.semi_major_axis - a) < 1e6:
        back = o.lla_to_ecef(*got)
        for g, w, name in zip(back, (x, y, z), 'xyz'):
            ctx.close(g, w, f'transform:position {name}', atol=5e-3, lat=lat, alt=alt)
    ctx.count('positions', n)
    d = geodetic.Coordinates()
    ctx.check(d.spheroid == geodetic.Spheroid(), 'default')
    if n:
        for k in range(3):
            bad = [lon, lat, alt]
            bad[k] = bad[k][:-1]
            ctx.raises((ValueError, TypeError), lambda: c.lla_to_ecef(*bad), 'sizes')
            ctx.raises((ValueError, TypeError), lambda: c.ecef_to_lla(*bad), 'sizes')
            ctx.raises((ValueError, TypeError), lambda: c.transform(c, *bad), 'sizes')


@section(400)
def quantities(ctx, rng):
    s = spheroid(rng)
    a, f = s.semi_major_axis, s.flattening
    ctx.case(a, f, a=a, f=f)
    with mpmath.workdps(40):
        A, F = mpmath.mpf(a), mpmath.mpf(f)
        B = A * (1 - F)
        E = mpmath.sqrt(A * A - B * B)
        want = {
            'semi_minor_axis': B,
            'first_eccentricity_squared': (A * A - B * B) / (A * A),
            'second_eccentricity_squared': (A * A - B * B) / (B * B),
            'polar_radius_of_curvature': A * A / B,
            'equatorial_radius_of_curvature': B * B / A,
            'axis_ratio': B / A,
            'linear_eccentricity': E,
            'mean_radius': (2 * A + B) / 3,
            'authalic_radius': mpmath.sqrt((A * A + (A * B * B / E * mpmath.log((A + E) / B) if E else A * A)) / 2),
            'volumetric_radius': mpmath.cbrt(A * A * B),
        }
        for name, w in want.items():
            ctx.close(getattr(s, name)(), float(w), name, rtol=1e-12, a=a, f=f)
        ctx.close(s.equatorial_circumference(True), float(2 * mpmath.pi * A), 'equatorial_circumference', rtol=1e-14)
        ctx.close(s.equatorial_circumference(False), float(2 * mpmath.pi * B), 'equatorial_circumference', rtol=1e-14)
        for lat in (0., 90., -90., float(rng.uniform(-90, 90)), float(rng.uniform(-90, 90))):
            p = mpmath.mpf(lat) * mpmath.pi / 180
            c, t = mpmath.cos(p), mpmath.sin(p)
            w = mpmath.sqrt(((A * A * c)**2 + (B * B * t)**2) / ((A * c)**2 + (B * t)**2))
            ctx.close(s.geocentric_radius(lat), float(w), 'geocentric_radius', rtol=1e-14, lat=lat)
            q = geodetic.Coordinates(s).lla_to_ecef(np.zeros(1), np.array([lat]), np.zeros(1))
            ctx.close(np.linalg.norm(np.array(q)), float(w), 'geocentric_radius of a position', rtol=1e-14, lat=lat)
    o = spheroid(rng)
    same = (o.semi_major_axis, o.flattening) == (a, f)
    ctx.check((s == o) == same and (s != o) == (not same) and s == geodetic.Spheroid((a, f)), 'equality')
    ctx.check(eval(repr(s), {'Spheroid': lambda *a: geodetic.Spheroid(a)}) == s, 'repr')


@section(1500)
def longitudes(ctx, rng):
    n = int(rng.choice([0, 1, 3, 20]))
    m = float(rng.choice([-180, 0, -360, 180, 90.5, -0.1, rng.uniform(-720, 720), 1e-20, 20]))
    x = rng.uniform(-1000, 1000, n)
    for k in range(n):
        r = rng.random()
        if r < .3:
            x[k] = m + 360 * rng.integers(-3, 4)
            if rng.random() < .7:
                x[k] = np.nextafter(x[k], rng.choice([-1e9, 1e9]))
        elif r < .4:
            x[k] = rng.choice([0, -0.0, 360, -360, 180, -180, 1e-300, -1e-300, 1e-17, -1e-17, 540, 720])
        elif r < .5:
            x[k] = float(rng.choice([-1, 1])) * 10**rng.uniform(3, 18)
        elif r < .6:
            x[k] = m - 10**rng.uniform(-20, -1)
    if rng.random() < .2:
        x = x.astype('float32' if rng.random() < .5 else 'int64')
    orig = x.astype('float64')
    lay = grids.layout(rng, x)
    if rng.random() < .3:
        lay.flags.writeable = False
    ctx.case(orig, m, min_lon=m, n=n, dtype=str(x.dtype), strides=lay.strides, writeable=bool(lay.flags.writeable))
    frozen = not lay.flags.writeable
    inner = rng.random() < .2
    got = np.array(geodetic.normalize_longitudes(lay, m)) if m != -180 or rng.random() < .5 else np.array(
        geodetic.normalize_longitudes(lay))
    if frozen:
        ctx.equal(lay, x, 'read-only input')
    ctx.check(got.shape == (n, ), 'shape')
    for v, g in zip(orig, got.astype('float64')):
        ctx.check(m <= g < m + 360, 'range', lon=v, min_lon=m, got_=g)
        tol = Fraction(4 * np.spacing(abs(v) + abs(m) + 360))
        d = (Fraction(float(g)) - Fraction(float(v))) % 360
        ctx.check(min(d, 360 - d) <= tol, 'whole turns', lon=v, min_lon=m, got_=g, strides=lay.strides)
        if m <= v < m + 360 - tol:
            ctx.check(abs(g - v) <= tol, 'already in range', lon=v, min_lon=m, got_=g)
    if inner and x.dtype == np.float64:
        y = np.ascontiguousarray(orig)
        y.flags.writeable = False
        ctx.equal(core.geodetic.normalize_longitudes(y, m), got, 'core', orig=orig, m=m, strides=lay.strides)
    ctx.count('longitudes', n)


@section(1500, native='math')
def elementary(ctx, rng):
    """The functions of angles in degrees, and remainders, behind all this."""
    import vtn_math as m
    n = 40
    kind = int(rng.integers(0, 4))
    if kind == 0:
        x = rng.uniform(-1000, 1000, n)
    elif kind == 1:
        x = 90. * rng.integers(-40, 41, n) + rng.choice([0, 0, 1, -1], n) * 10**rng.uniform(-14, 0, n)
    elif kind == 2:
        x = rng.normal(0, 1, n) * 10**rng.uniform(-12, 12, n)
    else:
        x = 15. * rng.integers(-100, 101, n)
    ctx.case(x, kind=kind)
    L = np.longdouble
    pi = L('3.14159265358979323846264338327950288')
    # fmod is exact
    r = np.fmod(x, 360.)
    turn = np.round(r / 90)
    a = (L(1) * (r - 90 * turn)) * (pi / 180)
    q = turn.astype(int) % 4
    sin = np.choose(q, [np.sin(a), np.cos(a), -np.sin(a), -np.cos(a)])
    cos = np.choose(q, [np.cos(a), -np.sin(a), -np.cos(a), np.sin(a)])
    eps = 9e-16
    s, c = np.array(m.sind(x)), np.array(m.cosd(x))
    ctx.all(abs(s - sin) <= eps * np.maximum(abs(sin), 1e-300), 'sind', x=x, got_=s)
    ctx.all(abs(c - cos) <= eps * np.maximum(abs(cos), 1e-300), 'cosd', x=x, got_=c)
    sc = np.array(m.sincosd(x))
    ctx.all(abs(sc[:, 0] - sin) <= eps * np.maximum(abs(sin), 1e-300), 'sincosd', x=x, got_=sc)
    ctx.all(abs(sc[:, 1] - cos) <= eps * np.maximum(abs(cos), 1e-300), 'sincosd', x=x, got_=sc)
    t = np.array(m.tand(x))
    ok = abs(cos) > 0
    ctx.all(abs(t[ok] - (sin[ok] / cos[ok])) <= 3 * eps * np.maximum(abs(sin[ok] / cos[ok]), 1e-300), 'tand', x=x[ok], got_=t[ok])
    ctx.all(np.isinf(t[~ok]), 'tand', 'pole', x=x[~ok], got_=t[~ok])
    # inverse functions
    y = x * 10**rng.uniform(-8, 1)
    at = np.array(m.atand(y))
    want = np.arctan(L(1) * y) * (180 / pi)
    ctx.all(abs(at - want) <= 2 * eps * np.maximum(abs(want), 1e-300), 'atand', y=y, got_=at)
    size = 10**rng.uniform(-6, 6, n)
    if rng.random() < .3:
        py, px = rng.integers(-2, 3, n).astype('float64'), rng.integers(-2, 3, n).astype('float64')
    else:
        py, px = rng.normal(0, 1, n) * size, rng.normal(0, 1, n) * size * 10**rng.uniform(-3, 3)
    at = np.array(m.atan2d(py, px))
    py, px = py + 0., px + 0.
    want = np.arctan2(L(1) * py, L(1) * px) * (180 / pi)
    ctx.all((abs(at - want) <= 2 * eps * np.maximum(abs(want), 1e-300)), 'atan2d', y=py, x=px, got_=at)
    exact = (py == 0) | (px == 0) | (abs(px) == abs(py))
    ctx.all(at[exact] == np.round(want[exact].astype('float64')), 'atan2d', 'exact', y=py[exact], x=px[exact], got_=at[exact])
    # degrees and radians
    ctx.all(abs(np.array(m.radians(x)) - (L(1) * x) * (pi / 180)) <= 4 * eps * abs(x), 'radians', x=x)
    ctx.all(abs(np.array(m.degrees(x)) - (L(1) * x) * (180 / pi)) <= 200 * eps * abs(x), 'degrees', x=x)
    # remainders have the sign of the divisor
    y = float(10**rng.uniform(-3, 6)) if rng.random() < .5 else float(rng.choice([360, 180, 1, 7]))
    got = np.array(m.remainder(x, y))
    want = np.mod(x, y)
    ctx.all((abs(got - want) <= 2e-16 * y) & (got >= 0) & (got <= y), 'remainder', x=x, y=y, got_=got)
    i = rng.integers(-10**int(rng.integers(1, 18)), 10**int(rng.integers(1, 18)), n)
    j = int(rng.choice([-1, 1]) * rng.integers(1, 10**int(rng.integers(1, 9))))
    ctx.equal(np.array(m.remainder_int(i, j)), i % j, 'remainder of integers', x=i, y=j)
    low = float(rng.choice([0, -180, 180, rng.uniform(-500, 500)]))
    got = np.array(m.normalize_angle(x, low, 360.))
    gap = (got - x) / 360
    ctx.all((got >= low) & (got < low + 360), 'normalize_angle', 'range', x=x, low=low, got_=got)
    ctx.all(abs(gap - np.round(gap)) * 360 <= 1e-15 * (abs(x) + abs(low) + 360), 'normalize_angle', x=x, low=low, got_=got)
    # powers
    p = int(rng.integers(-300, 301))
    ctx.check(m.power2(p) == 2.**p, 'power2', p=p, got_=m.power2(p))
    p = int(rng.integers(-300, 301))
    ctx.check(abs(m.power10(p) / float(f'1e{p}') - 1) <= 1e-13, 'power10', p=p, got_=m.power10(p))
    v = np.append(rng.normal(0, 3, 8), [0., 1., -2.])
    w = np.sinc(v)
    ctx.all(abs(np.array(m.sinc(v)) - w) <= 2e-15, 'sinc', x=v)


@section(4, 24)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c15(ctx, rng)
