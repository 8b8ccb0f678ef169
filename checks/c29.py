"""C29: orbits, passes and swaths against analytic ephemerides."""
import dataclasses

import numpy as np
import pyinterp
from pyinterp import core, geodetic, orbit

from c17 import vincenty
import vt
vt.SECTIONS.clear()
from vt import section

PARTS = ['geodetic', 'axis', 'interpolate1d', 'dates']
RULE = ('A case is one random circular orbit (sampled as an ephemeris, its passes and swaths) or swath; positions are compared with the analytic track and '
        'with geodesic distances computed independently. Non-trivial: at least one position was judged.')
ASSUMES = ['ephemerides last at least three orbits and start at their southernmost latitude, within 40 degrees of the equator (they are then '
           'cut at the first southernmost latitude), or elsewhere (their first pass is then longer, and not judged)',
           'positions are judged within the error of a linear interpolation of the ephemeris (0.08 m/s2 dt2 + 1.5 m)',
           'across-track distances and directions are judged within 2e-4 (ellipsoid)']
A, F = 6378137.0, 1 / 298.257223563


class Sat:
    """A circular orbit around a rotating Earth."""

    def __init__(self, rng, start):
        self.T = rng.uniform(5600, 7000)
        self.inc = np.radians(rng.uniform(50, 105))
        self.om = 2 * np.pi / 86164 * (0 if rng.random() < .1 else 1)
        self.l0 = rng.uniform(-180, 180)
        self.up = np.degrees(np.arcsin(np.sin(self.inc)))
        if start == 'south':
            self.u0 = -np.pi / 2
        elif start == 'equator':
            top = min(39 / self.up, 1)
            self.u0 = np.arcsin(rng.uniform(-top, top) * .9)
            if rng.random() < .5:
                self.u0 = np.pi - self.u0
            if rng.random() < .2:
                self.u0 = 0.0 if rng.random() < .5 else np.pi
        else:
            self.u0 = rng.uniform(-np.pi, np.pi)
        self.wrap = int(rng.integers(0, 3))

    def __call__(self, t):
        u = 2 * np.pi * t / self.T + self.u0
        lat = np.degrees(np.arcsin(np.sin(self.inc) * np.sin(u)))
        lon = np.degrees(np.arctan2(np.cos(self.inc) * np.sin(u), np.cos(u)) - self.om * t) + self.l0
        if self.wrap == 0:
            return lon % 360, lat
        return (lon + 180) % 360 - 180, lat

    def vector(self, t):
        lon, lat = self(t)
        return xyz(lon, lat)


def xyz(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def gap(lon0, lat0, lon1, lat1):
    """Distance in meters of close positions (sphere: within 1 %)."""
    return np.linalg.norm(xyz(lon0, lat0) - xyz(lon1, lat1), axis=-1) * A


def seconds(t):
    return t.astype('m8[ns]').astype('i8') / 1e9


@section(60, 900)
def orbits(ctx, rng):
    start = ['south', 'south', 'equator', 'equator', 'any'][int(rng.integers(0, 5))]
    sat = Sat(rng, start)
    dt = float(rng.choice([.4, 2, 10, 30, 60]))
    n = int(rng.uniform(3.2, 4.5 if dt < 5 else 5.5) * sat.T / dt)
    t = np.arange(n) * dt
    lon, lat = sat(t)
    height = float(rng.uniform(4e5, 1.4e6))
    unit = ['ns', 'us', 'ms'][int(rng.integers(0, 3))]
    time = (t * {'ns': 1e9, 'us': 1e6, 'ms': 1e3}[unit]).round().astype('i8').astype(f'm8[{unit}]')
    kw = {}
    res = float(rng.choice([2, 2, 5, 10]))
    if res != 2 or rng.random() < .5:
        kw['along_track_resolution'] = res
    cycle = None
    if rng.random() < .4:
        cycle = float(rng.uniform(2.6, 3.1) * sat.T)
        kw['cycle_duration'] = np.timedelta64(int(cycle * 1e9), 'ns')
    if rng.random() < .3:
        kw['spheroid'] = geodetic.Spheroid((A, F))
    ctx.case('orbit', start, n, dt, float(lon[3]), float(sat.inc), res)
    w = dict(start=start, T=sat.T, inc=np.degrees(sat.inc), u0=sat.u0, l0=sat.l0, dt=dt, n=n, height=height, res=res, cycle=cycle)
    keep = lon.copy(), lat.copy(), time.copy()
    orb = pyinterp.calculate_orbit(height, lon, lat, time, **kw)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (lon, lat, time))), 'input', 'the ephemeris was modified', **w)
    m = len(orb.time)
    ctx.check(len(orb.latitude) == len(orb.longitude) == len(orb.x_al) == m and m > 10, 'sizes', 'sizes of the orbit', m=m, **w)
    t0 = 0.0
    if abs(lat[0]) <= 40:
        d = np.diff(lat)
        t0 = t[np.flatnonzero((d[:-1] < 0) & (d[1:] >= 0))[0] + 1]
    tt = seconds(orb.time)
    tol = .08 * max(dt, .5)**2 + 1.5 + .02 * res**2
    a, b = sat(tt + t0)
    ctx.count('positions', m)
    ctx.all(gap(a, b, orb.longitude, orb.latitude) <= tol, 'position', 'position on the ephemeris', longitude=orb.longitude, latitude=orb.latitude, expected_lon=a,
            expected_lat=b, seconds=tt, tol=tol, **w)
    ctx.all(np.diff(tt) > 0, 'time', 'monotonic time', **w)
    ctx.check(tt[0] == 0, 'time-start', 'the orbit starts at 0', t=tt[0], **w)
    ctx.all(np.abs(np.diff(orb.x_al) - res) < 1e-6 * res, 'x_al', 'resolution', **w)
    x = orb.curvilinear_distance() / 1e3
    ctx.all(np.abs(x - (orb.x_al - orb.x_al[0])) < 1e-5 * orb.x_al[-1] + .01, 'distance', 'along track distance', **w)
    end = min(t[-1] - t0, cycle or np.inf)
    ctx.check(end - tt[-1] < 3 * max(dt, 1) + 2 * res / 5 and tt[-1] <= end, 'extent', 'the whole ephemeris', last=tt[-1], end=end, **w)
    ctx.check(orb.cycle_duration() == orb.time[-1] and orb.height == height, 'cycle', 'cycle duration', **w)
    passes(ctx, rng, sat, orb, start, t0, dict(w), tol)


def passes(ctx, rng, sat, orb, start, t0, w, tol):
    n = orb.passes_per_cycle()
    pt = seconds(orb.pass_time)
    ctx.check(n == len(pt) and pt[0] == seconds(orb.time)[0] and bool(np.all(np.diff(pt) > 0)), 'pass-times', 'times of the passes', pt=pt, **w)
    step = float(np.median(np.diff(seconds(orb.time))))
    aligned = start != 'any'
    if aligned:
        want = np.arange(n) * sat.T / 2
        # the first southernmost point is a sample of the ephemeris
        slack = 2 * step + w['dt'] + .6
        ctx.all(np.abs(pt - want) < slack, 'half-orbits', 'passes start at the extreme latitudes', pt=pt, expected=want, **w)
        last = seconds(orb.time)[-1]
        ctx.check(abs((last / (sat.T / 2) + 1) // 1 - n) <= (1 if min(last % (sat.T / 2), sat.T / 2 - last % (sat.T / 2)) < 2 * slack else 0), 'count', 'number of passes', passes=n, last=last, **w)
    dur = [orb.pass_duration(k) for k in range(1, n + 1)]
    ctx.check(sum(d.astype('i8') for d in dur) == (orb.time[-1] - orb.time[0] + orb.time[1] - orb.time[0]).astype('i8'), 'durations', 'durations of the passes', **w)
    ctx.raises(ValueError, lambda: orb.pass_duration(0), 'pass-range')
    ctx.raises(ValueError, lambda: orb.pass_duration(n + 1), 'pass-range')
    total = 0
    for k in range(1, n + 1):
        p = pyinterp.calculate_pass(k, orb)
        if p is None:
            total += int(((orb.time >= orb.pass_time[k - 1]) & ((orb.time < orb.pass_time[k]) if k < n else True)).sum())
            continue
        # consecutive slices of the orbit
        s = slice(total, total + len(p))
        total += len(p)
        ctx.check(np.array_equal(p.lon_nadir, orb.longitude[s]) and np.array_equal(p.lat_nadir, orb.latitude[s]) and np.array_equal(p.time, orb.time[s])
                  and np.array_equal(p.x_al, orb.x_al[s]), 'partition', 'passes are consecutive parts of the orbit', k=k, **w)
        if aligned:
            up = np.diff(p.lat_nadir) > 0
            sec = seconds(p.time)
            far = ((sec - sec[0] > slack) & (sec[-1] - sec > slack))[1:]
            ctx.check(bool(np.all(up[far] == (k % 2 == 1))), 'direction', 'odd passes ascend', k=k, **w)
        equator(ctx, sat, p, t0, dict(w, k=k), tol)
        if rng.random() < .5:
            box = geodetic.Box(geodetic.Point(-180, float(rng.uniform(-60, 0))), geodetic.Point(180, float(rng.uniform(1, 60))))
            if rng.random() < .4:
                # starts or ends on a point next to the equator
                j = int(np.abs(p.lat_nadir).argmin()) + int(rng.integers(-1, 2))
                y = float(p.lat_nadir[min(max(j, 0), len(p) - 1)])
                box = geodetic.Box(geodetic.Point(-180, y), geodetic.Point(180, y + 20)) if rng.random() < .5 else geodetic.Box(geodetic.Point(-180, y - 20), geodetic.Point(180, y))
            q = pyinterp.calculate_pass(k, orb, bbox=box)
            lo, hi = box.min_corner.lat, box.max_corner.lat
            mask = (p.lat_nadir >= lo) & (p.lat_nadir <= hi)
            edge = (np.abs(p.lat_nadir - lo) < 1e-9) | (np.abs(p.lat_nadir - hi) < 1e-9)
            if q is None:
                ctx.check(not mask[~edge].any(), 'bbox', 'pass in a box', k=k, lo=lo, hi=hi, **w)
            else:
                at = np.searchsorted(p.time, q.time)
                ctx.check(bool((at < len(p)).all()) and all(np.array_equal(getattr(q, x), getattr(p, x)[at]) for x in ('time', 'lon_nadir', 'lat_nadir', 'x_al')),
                          'bbox', 'the points of the pass, unchanged', k=k, lo=lo, hi=hi, **w)
                ctx.check(set(p.time[mask & ~edge].tolist()) <= set(q.time.tolist()) <= set(p.time[mask | edge].tolist()), 'bbox', 'pass in a box', k=k, lo=lo, hi=hi, **w)
                equator(ctx, sat, q, t0, dict(w, k=k, lo=lo, hi=hi), tol)
    ctx.check(total == len(orb.time), 'partition', 'every point belongs to a pass', total=total, **w)
    ctx.count('passes', n)
    # numbers
    for _ in range(5):
        c, k = int(rng.integers(-3, 900)), int(rng.integers(1, n + 1))
        z = orb.encode_absolute_pass_number(c, k)
        ctx.check(z == (c - 1) * n + k and orb.decode_absolute_pass_number(z) == (c, k), 'numbers', 'encode and decode', c=c, p=k, z=z, back=str(orb.decode_absolute_pass_number(z)), **w)
    ctx.raises(ValueError, lambda: orb.encode_absolute_pass_number(1, n + 1), 'number-range')
    ctx.raises(ValueError, lambda: orb.encode_absolute_pass_number(1, 0), 'number-range')
    first = np.datetime64('2020-02-03T04:05:06', 'ns') + np.timedelta64(int(rng.integers(0, 10**15)), 'ns')
    number = int(rng.integers(1, 3 * n))
    if rng.random() < .1:
        first = np.datetime64(0, 'ns')
    kw = {}
    stop = first + orb.cycle_duration()
    if rng.random() < .6:
        stop = first + np.timedelta64(int(rng.uniform(0, 2.5) * orb.cycle_duration().astype('i8')), 'ns')
        kw = dict(last_date=stop)
    date, z = first, number
    got = list(orb.iterate(first, absolute_pass_number=number, **kw))
    for c, k, d in got:
        ctx.check((c, k) == ((z - 1) // n + 1, (z - 1) % n + 1) and d == date and d <= stop, 'iterate', 'passes in order', c=c, p=k, d=str(d), date=str(date), **w)
        date += dur[k - 1]
        z += 1
    ctx.check(date > stop, 'iterate-end', 'the last date', date=str(date), stop=str(stop), **w)


def equator(ctx, sat, p, t0, w, tol):
    """The crossing of the equator by a part of a pass."""
    e = p.equator_coordinates
    y = p.lat_nadir
    cross = np.flatnonzero(y[:-1] * y[1:] < 0)
    if len(cross) == 1:
        i = cross[0]
        ctx.count('equator')
        te = seconds(np.array(e.time))
        s0, s1 = seconds(p.time[i:i + 2])
        f = y[i] / (y[i] - y[i + 1])
        if not ctx.check(np.isfinite(e.longitude) and s0 - 1e-6 <= te <= s1 + 1e-6, 'equator', 'date of the crossing', longitude=e.longitude, te=te, s0=s0, s1=s1, lat=y[i:i + 2], lon=p.lon_nadir[i:i + 2], **w):
            return
        ctx.check(abs(te - (s0 + f * (s1 - s0))) < .03 * (s1 - s0) + 1e-6, 'equator-time', 'date of the crossing', te=te, s0=s0, s1=s1, f=f, **w)
        a, b = sat(np.array(te + t0))
        ctx.check(gap(a, b, e.longitude, 0.0) < tol + .03 * 7500 * (s1 - s0), 'equator-position', 'position of the crossing', a=a, lat=b, longitude=e.longitude, **w)
    elif not len(cross) and not np.any(y == 0):
        ctx.count('no equator')
        ctx.check(bool(np.isnan(e.longitude)) and bool(np.isnat(e.time)), 'no-equator', 'a pass that does not cross the equator', longitude=e.longitude, **w)


@section(600, 12000)
def crossing(ctx, rng):
    """The properties of passes drawn by hand: any number of points, through
    the antimeridian, on the equator."""
    kind = int(rng.integers(0, 4))
    n = int(rng.integers(5, 40))
    s = float(rng.choice([-1, 1])) * 10**rng.uniform(-3, 0)
    base = float(rng.choice([0, 180, -180, rng.uniform(-180, 180)]))
    i = int(rng.integers(0, n - 1))
    f = float(rng.uniform(.02, .98))
    y = (np.arange(n) - i - f) * s
    if rng.random() < .3:
        y = np.sign(y) * abs(y)**rng.uniform(.8, 1.5)
    if kind == 1:
        # away from the equator
        y += np.sign(s) * (abs(y).max() + .1) * float(rng.choice([-1, 1]))
    elif kind == 2:
        y[i] = 0
    x = base + rng.normal(0, 2) * abs(s) * (np.arange(n) - i - rng.random())
    lon = (x + 180) % 360 - 180 if rng.random() < .7 else x % 360
    t = np.cumsum(rng.uniform(.2, 2, n))
    t -= t[0]
    time = (t * 1e9).astype('i8').astype('m8[ns]')
    al = np.cumsum(rng.uniform(1, 3, n))
    ctx.case(lon, y, t, kind=kind, n=n)
    orb = orbit.Orbit(8e5, y, lon, time[:1], time, al, None)
    p = pyinterp.calculate_pass(1, orb)
    w = dict(lon=lon, lat=y, seconds=t, i=i)
    ctx.check(p is not None and len(p) == n and all(np.array_equal(a, b) for a, b in ((p.lon_nadir, lon), (p.lat_nadir, y), (p.time, time), (p.x_al, al))),
              'crossing', 'the points of the pass', **w)
    e = p.equator_coordinates
    sec = seconds(np.array(e.time)) if not np.isnat(e.time) else np.nan
    if kind == 1:
        ctx.check(bool(np.isnan(e.longitude)) and bool(np.isnat(e.time)), 'crossing', 'a pass that does not cross the equator', longitude=e.longitude, **w)
        return
    g = 0. if kind == 2 else y[i] / (y[i] - y[i + 1])
    want_t = t[i] + g * (t[i + 1] - t[i])
    want_x = x[i] + g * (x[i + 1] - x[i])
    ctx.count('equator')
    ctx.check(abs(sec - want_t) < 1e-6, 'crossing', 'time', expected=want_t, time=sec, **w)
    ctx.check(-180 <= e.longitude <= 180 and abs((e.longitude - want_x + 180) % 360 - 180) < 1e-9 + 1e-3 * abs(x[i + 1] - x[i]), 'crossing', 'longitude', expected=want_x, longitude=e.longitude, **w)


@section(200, 4000)
def interpolation(ctx, rng):
    """interpolate() goes through the nodes, and follows the track between them."""
    sat = Sat(rng, 'any')
    n = int(rng.integers(6, 120))
    dt = float(rng.choice([1, 5, 20]))
    t = np.cumsum(rng.uniform(.6, 1.4, n)) * dt if rng.random() < .5 else np.arange(n) * dt
    lon, lat = sat(t)
    height = float(rng.choice([0, 8e5]))
    off = float(rng.choice([0, 1e4, -500]))
    q = np.concatenate([t, rng.uniform(t[0], t[-1], 60)])
    f = float(rng.choice([F, 1 / 150, 1 / 1000]))
    wgs = None if rng.random() < .5 else geodetic.Coordinates(geodetic.Spheroid((A, f)))
    ctx.case('interp', n, dt, float(lon[0]), float(lat[0]), height)
    w = dict(t=t, lon=lon, lat=lat, height=height, f=f, wgs=str(wgs))
    a, b = orbit.interpolate(lon, lat, t + off, q + off, height=height, wgs=wgs, half_window_size=int(rng.choice([5, 10, 50])))
    c, d = sat(q)
    ctx.all(gap(a[:n], b[:n], c[:n], d[:n]) < 1e-2, 'nodes', 'interpolation at the nodes', a=a[:n], b=b[:n], c=c[:n], d=d[:n], **w)
    ctx.all(gap(a, b, c, d) < .08 * (1.4 * dt)**2 * 2 + .05, 'between', 'interpolation between the nodes', a=a, b=b, c=c, d=d, q=q, **w)


def bearing(lon, lat, a, f):
    """Azimuth along a track, by central differences."""
    _, az = vincenty(lon[:-2], lat[:-2], lon[2:], lat[2:], a, f)
    return az


def swath_of(ctx, lon, lat, delta, half_gap, half, a, f, got, w, perp=True):
    """Judges the positions of the pixels around a nadir track."""
    glon, glat = got
    m = len(lon)
    if not ctx.check(glon.shape == (m, 2 * half) and glat.shape == (m, 2 * half), 'swath-shape', 'shape', shape=str(glon.shape), **w):
        return
    x = np.arange(half) * delta + half_gap
    x = np.concatenate([-x[::-1], x])
    L, B = np.broadcast_to(lon[:, None], glon.shape), np.broadcast_to(lat[:, None], glon.shape)
    d, az = vincenty(L.ravel(), B.ravel(), glon.ravel(), glat.ravel(), a, f)
    d, az = d.reshape(glon.shape), np.radians(az).reshape(glon.shape)
    ctx.count('pixels', d.size)
    X = np.broadcast_to(x, d.shape)
    loose = 3e-4 * np.abs(X) * (f / F) + 2e-3 + np.abs(X)**2 * 1e-9
    ctx.all(np.abs(d - np.abs(X)) < loose, 'swath-distance', 'distance to the nadir', d=d, x=X, lat=B, lon=L, glon=glon, glat=glat, **w)
    ctx.all(np.abs(d - d[:, ::-1]) < loose, 'swath-symmetry', 'symmetric', d=d, x=X, **w)
    if m < 3 or not perp:
        return
    # perpendicular: the mean direction of the track at this point
    v = ecef(lon, lat, a, f)
    tan = np.empty_like(v)
    tan[1:-1] = v[2:] - v[:-2]
    up = normal(lon, lat)
    tan -= (tan * up).sum(-1, keepdims=True) * up
    tan /= np.linalg.norm(tan, axis=-1, keepdims=True)
    right = np.cross(tan, up)
    lo, la = np.radians(lon), np.radians(lat)
    east = np.stack([-np.sin(lo), np.cos(lo), 0 * lo], -1)
    north = np.cross(up, east)
    azr = np.arctan2((right * east).sum(-1), (right * north).sum(-1))
    # positive distances on one side of the track, always the same
    rel = (az - azr[:, None] + np.pi) % (2 * np.pi) - np.pi
    side = np.cos(rel)[1:-1]
    big = (np.abs(X) > 100)[1:-1]
    ctx.all((np.abs(np.sin(rel[1:-1])) < 2e-3 * (f / F) + 2e-7 * np.abs(X[1:-1]) + 2e-3) | ~big, 'swath-perpendicular', 'perpendicular to the track', sine=np.sin(rel[1:-1]), x=X[1:-1], **w)
    ctx.all((side * np.sign(X[1:-1]) > .9) | ~big, 'swath-side', 'positive distances on the right of the track', side=side, x=X[1:-1], **w)


def ecef(lon, lat, a, f):
    lo, la = np.radians(lon), np.radians(lat)
    e2 = f * (2 - f)
    n = a / np.sqrt(1 - e2 * np.sin(la)**2)
    return np.stack([n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo), n * (1 - e2) * np.sin(la)], -1)


def normal(lon, lat):
    return xyz(lon, lat)


@section(300, 6000)
def swaths(ctx, rng):
    sat = Sat(rng, 'any')
    m = int(rng.integers(2, 60))
    dt = float(rng.choice([.1, .3, 1, 5]))
    t = np.arange(m) * dt + rng.uniform(0, sat.T * 3)
    lon, lat = sat(t)
    f = float(rng.choice([F, F, 1 / 1000, 1 / 200]))
    a = float(rng.choice([A, A, 6.3e6]))
    sph = None if rng.random() < .4 else geodetic.Spheroid((a, f))
    if sph is None:
        a, f = A, F
    if rng.random() < .4:
        delta, gp, half = float(rng.uniform(100, 6000)), float(rng.choice([0, 1e3, 2e4])), int(rng.integers(1, 40))
        ctx.case('core-swath', m, dt, float(lon[0]), delta, gp, half, f)
        w = dict(delta=delta, gap=gp, half=half, f=f, a=a, dt=dt, inc=np.degrees(sat.inc))
        got = core.geodetic.calculate_swath(lon, lat, delta, gp, half, sph)
        swath_of(ctx, lon, lat, delta, gp, half, a, f, got, w)
        return
    ac, al = float(rng.choice([.5, 1, 2, 3.7])), float(rng.choice([1, 2, 7]))
    hs, hg = float(rng.choice([20, 60, 70, 71.3])), float(rng.choice([0, 1, 2, 10, 10.7]))
    kw = {}
    for k, v, default in (('across_track_resolution', ac, 2), ('along_track_resolution', al, 2), ('half_swath', hs, 70), ('half_gap', hg, 2)):
        if v != default or rng.random() < .5:
            kw[k] = v
    if sph is not None:
        kw['spheroid'] = sph
    ctx.case('swath', m, dt, float(lon[0]), ac, al, hs, hg, f)
    p = orbit.Pass(lon, lat, (t * 1e9).astype('m8[ns]'), np.arange(m) * 7., orbit.EquatorCoordinates.undefined())
    s = pyinterp.calculate_swath(p, **kw)
    w = dict(kw={k: v for k, v in kw.items() if k != 'spheroid'}, f=f, a=a, dt=dt, inc=np.degrees(sat.inc), m=m)
    half = s.lon.shape[1] // 2
    last = hg + (half - 1) * ac
    ctx.check(s.lon.shape[1] % 2 == 0 and last <= hs + 1e-9 and last > hs - ac - 1e-9 and s.x_ac.shape == s.lon.shape, 'swath-extent', 'extent of the swath', last=last, **w)
    x = np.arange(half) * ac + hg
    x = np.concatenate([-x[::-1], x]) * 1e3
    ctx.close(s.x_ac, np.broadcast_to(x, s.x_ac.shape), 'x_ac', 1e-6, 0, 'across track distances', **w)
    swath_of(ctx, lon, lat, ac * 1e3, hg * 1e3, half, a, f, (s.lon, s.lat), w)
    ctx.check(all(np.array_equal(getattr(s, k), getattr(p, k)) for k in ('lon_nadir', 'lat_nadir', 'time', 'x_al')), 'swath-pass', 'the pass of the swath', **w)
    c = s.insert_central_pixel()
    for k, mid in (('lon', lon), ('lat', lat), ('x_ac', np.zeros(m))):
        v, o = getattr(c, k), getattr(s, k)
        ctx.check(v.shape == (m, 2 * half + 1) and np.array_equal(v[:, half], mid) and np.array_equal(np.delete(v, half, axis=1), o), 'central', 'central pixel', **w)
    lo, hi = sorted(rng.uniform(0, hs * 1e3, 2))
    mask = s.mask((lo, hi))
    if rng.random() < .5:
        # the limits belong to the requirements
        lo, hi = sorted(np.abs(s.x_ac[0, rng.integers(0, 2 * half, 2)]))
    mask = s.mask((lo, hi))
    inside = (np.abs(s.x_ac) >= lo) & (np.abs(s.x_ac) <= hi)
    ctx.equal(mask, np.where(inside, 1.0, np.nan), 'mask', 'requirements', **w)


@section(20)
def refusals(ctx, rng):
    ctx.case('refusals', int(rng.integers(0, 1 << 30)))
    one = np.zeros(1)
    ctx.raises(ValueError, lambda: core.geodetic.calculate_swath(one, one, 1e3, 1e3, 4), 'one point')
    ctx.raises(ValueError, lambda: core.geodetic.calculate_swath(np.zeros(0), np.zeros(0), 1e3, 1e3, 4), 'empty')
    ctx.raises(ValueError, lambda: core.geodetic.calculate_swath(np.zeros(4), np.zeros(5), 1e3, 1e3, 4), 'shape')
