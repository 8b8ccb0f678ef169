"""C17: distances, line strings and crossovers are geometrically correct."""
import math
import pickle

import numpy as np
from pyinterp import geodetic

import grids
import sphere
import large
from vt import section

PARTS = ['geodetic', 'axis']
RULE = ('A case is one table of pairs of positions measured with one formula and spheroid, one line string, or one pair of tracks '
        'crossing or not, judged against an independent solution of the geodesic, planar or gnomonic geometry. Non-trivial: at '
        'least one position, distance or crossover was judged.')
ASSUMES = ['positions nearly antipodal (more than 170 degrees apart) are only judged for symmetry and bounds',
           'tracks crossing at less than 2% of their size from an end, a vertex of the other, or another crossing are not judged',
           'longitudes of tracks in the cartesian plane are monotonic and span less than 180 degrees (half-orbits)']
Point = geodetic.Point
STRATEGY = ('andoyer', 'thomas', 'vincenty')
# relative errors of the formulas, for spheroids as flat as the Earth
ERROR = {'andoyer': 3e-5, 'thomas': 1e-6, 'vincenty': 1e-9}


def vincenty(lon1, lat1, lon2, lat2, a, f):
    """Geodesic distance and azimuth; NaN when it does not converge."""
    b = a * (1 - f)
    L = np.radians((lon2 - lon1 + 180) % 360 - 180)
    u1, u2 = np.arctan((1 - f) * np.tan(np.radians(lat1))), np.arctan((1 - f) * np.tan(np.radians(lat2)))
    s1, c1, s2, c2 = np.sin(u1), np.cos(u1), np.sin(u2), np.cos(u2)
    lam = L.copy()
    with np.errstate(all='ignore'):
        for _ in range(60):
            sl, cl = np.sin(lam), np.cos(lam)
            ss = np.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
            cs = s1 * s2 + c1 * c2 * cl
            sig = np.arctan2(ss, cs)
            sa = np.where(ss > 0, c1 * c2 * sl / np.where(ss > 0, ss, 1), 0)
            ca2 = 1 - sa * sa
            c2m = np.where(ca2 > 1e-16, cs - 2 * s1 * s2 / np.where(ca2 > 1e-16, ca2, 1), 0)
            C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
            new = L + (1 - C) * f * sa * (sig + C * ss * (c2m + C * cs * (-1 + 2 * c2m * c2m)))
            step = abs(new - lam)
            lam = new
            if np.nanmax(step, initial=0) < 1e-14:
                break
        k = ca2 * (a * a - b * b) / (b * b)
        A = 1 + k / 16384 * (4096 + k * (-768 + k * (320 - 175 * k)))
        B = k / 1024 * (256 + k * (-128 + k * (74 - 47 * k)))
        ds = B * ss * (c2m + B / 4 * (cs * (-1 + 2 * c2m**2) - B / 6 * c2m * (-3 + 4 * ss**2) * (-3 + 4 * c2m**2)))
        d = b * A * (sig - ds)
        az = np.degrees(np.arctan2(c2 * np.sin(lam), c1 * s2 - s1 * c2 * np.cos(lam)))
    d = np.where((step < 1e-11) & np.isfinite(d), d, np.nan)
    return d, az


def spheroid(rng):
    r = rng.random()
    if r < .5:
        return None, 6378137., 1 / 298.257223563
    if r < .6:
        return geodetic.Spheroid((6371000., 0.)), 6371000., 0.
    a, f = float(rng.uniform(1e6, 8e6)), 1 / float(rng.uniform(290, 700))
    return geodetic.Spheroid((a, f)), a, f


def positions(rng, n):
    lon, lat = rng.uniform(-180, 180, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    kind = rng.integers(0, 8, n)
    lat = np.where(kind == 0, rng.choice([-90, 90, 0], n), lat)
    lon = np.where(kind == 1, rng.choice([-180, 180, 0, 90], n), lon)
    return lon, lat.astype('float64')


@section(1000)
def distances(ctx, rng):
    n = int(rng.choice([1, 2, 7, 40]))
    lon1, lat1 = positions(rng, n)
    lon2, lat2 = positions(rng, n)
    near = rng.random(n) < .5
    step = 10**rng.uniform(-6, 1, n)
    lon2 = np.where(near, lon1 + step * rng.normal(size=n), lon2)
    lat2 = np.where(near, np.clip(lat1 + step * rng.normal(size=n), -90, 90), lat2)
    same = rng.random(n) < .1
    lon2, lat2 = np.where(same, lon1, lon2), np.where(same, lat1, lat2)
    if rng.random() < .3:
        lon2 = lon2 % 360
    wgs, a, f = spheroid(rng)
    s = STRATEGY[int(rng.integers(0, 3))]
    threads = int(rng.choice([0, 1, 2, 5]))
    ctx.case(lon1, lat1, lon2, s, n=n, strategy=s, a=a, f=f)
    d = np.asarray(geodetic.coordinate_distances(grids.layout(rng, lon1), grids.layout(rng, lat1), grids.layout(rng, lon2),
                                                 grids.layout(rng, lat2), strategy=s, wgs=wgs, num_threads=threads))
    ctx.check(d.shape == (n, ), 'shape')
    wit = {'strategy': s, 'a': a, 'f': f, 'lon1': lon1, 'lat1': lat1, 'lon2': lon2, 'lat2': lat2}
    want, az = vincenty(lon1, lat1, lon2, lat2, a, f)
    angle = np.degrees(np.arccos(np.clip((sphere.xyz(lon1, lat1) * sphere.xyz(lon2, lat2)).sum(-1), -1, 1)))
    ok = np.isfinite(want) & (angle < 170)
    ctx.close(d[ok], want[ok], f'{s}:distance', rtol=ERROR[s] if f else 1e-9, atol=2e-4 if s == 'vincenty' else .5, **wit)
    ctx.all((d >= 0) & (d <= np.pi * a * 1.0001), f'{s}:bounds', d=d, **wit)
    ctx.all(d[same] < 1e-6, f'{s}:same position', d=d, **wit)
    e = np.asarray(geodetic.coordinate_distances(lon2, lat2, lon1, lat1, s, wgs, 1))
    ctx.close(e[ok], d[ok], f'{s}:symmetry', rtol=1e-9 if s != 'andoyer' else 1e-6, atol=1e-4, **wit)
    pts = [Point(x, y) for x, y in zip(lon1, lat1)]
    oth = [Point(x, y) for x, y in zip(lon2, lat2)]
    g = np.array([p.distance(q, s, wgs) for p, q in zip(pts, oth)])
    ctx.equal(g, d, f'{s}:Point.distance', **wit)
    if s == 'thomas':
        ctx.equal(np.array([p.distance(q, wgs=wgs) for p, q in zip(pts, oth)]), d, 'Point.distance: default strategy')
        ctx.equal(np.asarray(geodetic.coordinate_distances(lon1, lat1, lon2, lat2, wgs=wgs)), d, 'default strategy')
    away = ok & (want > 10) & (angle < 150) & (abs(lat1) < 89) & (abs(lat2) < 89)
    for i in np.flatnonzero(away)[:8]:
        z = pts[i].azimuth(oth[i], wgs)
        ctx.check(abs((z - az[i] + 180) % 360 - 180) < .02 + 100 / want[i] * 1e-3, 'azimuth', got_=z, want=az[i], i=int(i), **wit)
        ctx.count('azimuths')
    ctx.count(s)
    if n > 1:
        bad = [lon1, lat1, lon2, lat2]
        k = int(rng.integers(0, 4))
        bad[k] = bad[k][:-1]
        ctx.raises((ValueError, RuntimeError), lambda: geodetic.coordinate_distances(*bad), 'sizes')
    ctx.raises((ValueError, RuntimeError), lambda: pts[0].distance(oth[0], 'haversine'), 'unknown strategy')


def track(rng, n, span):
    """A smooth planar curve of n points around (0, 0)."""
    t = np.linspace(-.5, .5, n)
    if rng.random() < .3:
        t = np.sort(rng.uniform(-.5, .5, n))
        while np.diff(t).min() < .1 / n:
            t = np.sort(rng.uniform(-.5, .5, n))
    a = rng.uniform(0, 2 * np.pi)
    bend = rng.uniform(-1, 1) * (1 if rng.random() < .6 else 5)
    p = np.stack([t, bend * (t * t - .1) + .1 * rng.uniform(-1, 1) * np.sin(6 * t)], -1) * span
    c, s = np.cos(a), np.sin(a)
    return p @ np.array([[c, s], [-s, c]])


def meet(p, q, margin):
    """Crossings of two polylines, [(x, y)], and True when it is clear."""
    pts, clear = [], True
    a, b = p[:-1], p[1:]
    c, d = q[:-1], q[1:]
    r, s = b - a, d - c
    den = r[:, None, 0] * s[None, :, 1] - r[:, None, 1] * s[None, :, 0]
    w = c[None] - a[:, None]
    with np.errstate(all='ignore'):
        t = (w[..., 0] * s[None, :, 1] - w[..., 1] * s[None, :, 0]) / den
        u = (w[..., 0] * r[:, None, 1] - w[..., 1] * r[:, None, 0]) / den
    hit = (t >= 0) & (t <= 1) & (u >= 0) & (u <= 1)
    for i, j in zip(*np.nonzero(hit)):
        pts.append(a[i] + t[i, j] * r[i])
        # a small angle is not clear
        if abs(den[i, j]) < .05 * np.linalg.norm(r[i]) * np.linalg.norm(s[j]):
            clear = False
    # no end or vertex next to the other line
    from sphere import edge_distance

    def dist(line, x):
        ring = np.concatenate([line, line[-2:0:-1]]) if len(line) > 2 else line
        return edge_distance(ring, x)

    if min(dist(p, q).min(), dist(q, p).min()) < margin:
        clear = False
    for i in range(len(pts)):
        for j in range(i):
            if np.linalg.norm(pts[i] - pts[j]) < 2 * margin:
                clear = False
    return np.array(pts).reshape(-1, 2), clear


def nearest(lon, lat, x, y):
    d = np.arccos(np.clip(sphere.xyz(lon, lat) @ sphere.xyz(x, y), -1, 1))
    o = np.sort(d)
    return int(np.argmin(d)), len(o) < 2 or o[1] - o[0] > 1e-2 * o[1], float(d.min())


@section(9000)
def crossovers(ctx, rng):
    """Tracks made of geodesics."""
    lat0 = float(rng.uniform(-65, 65))
    lon0 = float(rng.choice([180, -179, 0, rng.uniform(-180, 180), rng.uniform(-180, 180)]))
    proj = sphere.Gnomonic(lon0, lat0)
    span = 10**rng.uniform(-1, 1.4)
    n1, n2 = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    p = track(rng, n1, span)
    q = track(rng, n2, span) + rng.uniform(-.5, .5, 2) * span
    pts, clear = meet(p, q, 2e-3 * span)
    ctx.case(p, q, crossings=len(pts), span=span, at=(lon0, lat0))
    if not clear:
        ctx.count('unclear')
        return
    (lon1, lat1), (lon2, lat2) = proj.inverse(p), proj.inverse(q)
    if rng.random() < .2:
        lon1, lon2 = lon1 % 360, lon2 % 360
    wgs = None if rng.random() < .7 else geodetic.Spheroid((6378137., 1 / 298.257223563)) if rng.random() < .7 else geodetic.Spheroid((6378137., 1 / 400.))
    l1 = geodetic.LineString(grids.layout(rng, lon1), grids.layout(rng, lat1))
    l2 = geodetic.LineString([Point(x, y) for x, y in zip(lon2, lat2)])
    wit = {'lon1': lon1, 'lat1': lat1, 'lon2': lon2, 'lat2': lat2, 'crossings': len(pts)}
    ctx.check(len(l1) == n1 and len(l2) == n2, 'len')
    x = geodetic.Crossover(l1, l2)
    ctx.check(x.exists(wgs) == bool(len(pts)), 'exists', **wit)
    ctx.check(l1.intersects(l2, wgs) == bool(len(pts)) == l2.intersects(l1, wgs), 'intersects', **wit)
    lo, la = proj.inverse(pts)
    tol = np.radians(1e-3 * span) * 2

    def same(points, lo=lo, la=la):
        """The same set of positions."""
        g = np.array([[v.lon, v.lat] for v in points]).reshape(-1, 2)
        if len(lo) == 0 or len(g) == 0:
            return len(lo) == len(g)
        d = np.arccos(np.clip(sphere.xyz(g[:, 0], g[:, 1]) @ sphere.xyz(lo, la).T, -1, 1))
        return d.min(0).max() < tol and d.min(1).max() < tol

    found = x.search_all(wgs)
    ctx.check(same(found) and len(found) == len(pts), 'search_all', found=str(found), want=(lo, la), **wit)
    ctx.check(same(l1.intersection(l2, wgs)), 'intersection', **wit)
    if len(pts) > 1:
        ctx.raises((RuntimeError, ), lambda: x.search(wgs), 'search: several crossovers')
    else:
        one = x.search(wgs)
        ctx.check((one is None) == (len(pts) == 0), 'search', found=str(one), **wit)
        if one is not None:
            ctx.check(same([one]), 'search', found=str(one), want=(lo, la), **wit)
    strategy = STRATEGY[int(rng.integers(0, 3))]
    got = geodetic.calculate_crossover_list(lon1, lat1, lon2, lat2, strategy=strategy, wgs=wgs, cartesian_plane=False)
    ctx.check(same([g[0] for g in got]) and len(got) == len(pts), 'calculate_crossover_list', found=str(got), want=(lo, la), **wit)
    indexes(ctx, got, lon1, lat1, lon2, lat2, wit)
    limited(ctx, rng, got, lon1, lat1, lon2, lat2, strategy, wgs, False, wit)
    if len(pts) < 2:
        one = geodetic.calculate_crossover(lon1, lat1, lon2, lat2, strategy=strategy, wgs=wgs, cartesian_plane=False)
        ctx.check((one is None) == (len(pts) == 0), 'calculate_crossover', **wit)
        if one is not None:
            ctx.check(str(one) == str(got[0]), 'calculate_crossover', one=str(one), list=str(got))
    # nearest vertices and predicate
    for g in found[:2]:
        i, si, di = nearest(lon1, lat1, g.lon, g.lat)
        j, sj, dj = nearest(lon2, lat2, g.lon, g.lat)
        r = x.nearest(g, strategy=strategy, wgs=wgs)
        if si and sj:
            ctx.check(r == (i, j), 'nearest', got_=r, want=(i, j), **wit)
        far = max(Point(lon1[i], lat1[i]).distance(g, strategy, wgs), Point(lon2[j], lat2[j]).distance(g, strategy, wgs))
        if si and sj and far > 1:
            ctx.check(x.nearest(g, predicate=far * 1.001, strategy=strategy, wgs=wgs) == (i, j), 'predicate: larger', **wit)
            ctx.check(x.nearest(g, predicate=far * .999, strategy=strategy, wgs=wgs) is None, 'predicate: smaller', **wit)
            if len(found) == 1:
                for fn in (geodetic.calculate_crossover, geodetic.calculate_crossover_list):
                    ctx.check(bool(fn(lon1, lat1, lon2, lat2, far * 1.001, strategy, wgs, False)), 'predicate: larger', **wit)
                    ctx.check(not fn(lon1, lat1, lon2, lat2, far * .999, strategy, wgs, False), 'predicate: smaller', **wit)
    ctx.count('crossings', len(pts))
    ctx.count('none' if len(pts) == 0 else 'one' if len(pts) == 1 else 'several')


def limited(ctx, rng, got, lon1, lat1, lon2, lat2, strategy, wgs, plane, wit):
    """A predicate keeps the crossovers whose two vertices are near enough, and
    them only."""
    if len(got) < 2:
        return
    far = np.array([max(Point(lon1[i], lat1[i]).distance(p, strategy, wgs), Point(lon2[j], lat2[j]).distance(p, strategy, wgs)) for p, (i, j) in got])
    for a, b in zip(np.sort(far)[:-1], np.sort(far)[1:]):
        if b - a > 1e-3 + 1e-6 * b:
            limit = float(a + (b - a) * rng.uniform(.2, .8))
            part = geodetic.calculate_crossover_list(lon1, lat1, lon2, lat2, limit, strategy, wgs, plane)
            ctx.check(sorted(map(str, part)) == sorted(str(g) for g, d in zip(got, far) if d < limit), 'predicate: some of the crossovers', limit=limit, far=far, found=str(part), **wit)
            ctx.count('lists limited')


def indexes(ctx, got, lon1, lat1, lon2, lat2, wit):
    for point, (i, j) in got:
        a, sa, _ = nearest(lon1, lat1, point.lon, point.lat)
        b, sb, _ = nearest(lon2, lat2, point.lon, point.lat)
        if sa:
            ctx.check(i == a, 'nearest vertex of the first', got_=i, want=a, point=str(point), **wit)
        if sb:
            ctx.check(j == b, 'nearest vertex of the second', got_=j, want=b, point=str(point), **wit)


@section(9000)
def cartesian(ctx, rng):
    """Half-orbits in the plane of longitudes and latitudes."""
    n1, n2 = int(rng.integers(3, 40)), int(rng.integers(3, 40))
    lon0 = float(rng.choice([180, -175, 0, 359, rng.uniform(-180, 180), rng.uniform(0, 360)]))
    w = float(rng.uniform(1, 100))

    def half_orbit(n):
        t = np.linspace(0, 1, n)
        x = rng.uniform(-.4, .4) * w + (t - .5) * w * rng.uniform(.4, 1)
        amp = rng.uniform(20, 80)
        y = amp * (np.sin(np.pi * (t - .5)) * (1 if rng.random() < .5 else -1) + rng.uniform(-.05, .05))
        if rng.random() < .5:
            x, y = x[::-1], y[::-1]
        return np.stack([x, np.clip(y, -85, 85)], -1)

    p, q = half_orbit(n1), half_orbit(n2)
    if rng.random() < .3:
        q[:, 1] += 30 * rng.uniform(-1, 1)
        q[:, 1] = np.clip(q[:, 1], -89, 89)
    pts, clear = meet(p, q, .02)
    ctx.case(p, q, crossings=len(pts), width=w, lon0=lon0)
    if not clear:
        ctx.count('unclear')
        return
    # longitudes in the same range
    lo = float(rng.choice([-180, 0]))
    lon1, lat1 = (p[:, 0] + lon0 - lo) % 360 + lo, p[:, 1]
    lon2, lat2 = (q[:, 0] + lon0 - lo) % 360 + lo, q[:, 1]
    wit = {'lon1': lon1, 'lat1': lat1, 'lon2': lon2, 'lat2': lat2, 'crossings': len(pts)}
    got = geodetic.calculate_crossover_list(grids.layout(rng, lon1), grids.layout(rng, lat1), lon2, lat2)
    want = np.stack([(pts[:, 0] + lon0 + 180) % 360 - 180, pts[:, 1]], -1)
    g = np.array([[v.lon, v.lat] for v, _ in got]).reshape(-1, 2)
    ok = len(g) == len(want)
    if ok and len(g):
        dx = abs((g[:, None, 0] - want[None, :, 0] + 180) % 360 - 180)
        d = np.hypot(dx, g[:, None, 1] - want[None, :, 1])
        ok = d.min(0).max() < 1e-6 and d.min(1).max() < 1e-6
    ctx.check(ok, 'calculate_crossover_list', found=g, want=want, **wit)
    limited(ctx, rng, got, lon1, lat1, lon2, lat2, STRATEGY[int(rng.integers(0, 3))], None, True, wit)
    # the indexes are those of the nearest vertices in the plane
    for (point, (i, j)) in got:
        for k, line, name in ((i, p, 'first'), (j, q, 'second')):
            x = (point.lon - lon0 - line[:, 0] + 180) % 360 - 180
            d = np.hypot(x, line[:, 1] - point.lat)
            o = np.sort(d)
            if o[1] - o[0] > 1e-6:
                ctx.check(k == int(np.argmin(d)), f'nearest vertex of the {name}', got_=k, want=int(np.argmin(d)), point=str(point), **wit)
        far = max(Point(lon1[i], lat1[i]).distance(point, 'andoyer'), Point(lon2[j], lat2[j]).distance(point, 'andoyer'))
        if len(got) == 1 and far > 1:
            for fn in (geodetic.calculate_crossover, geodetic.calculate_crossover_list):
                ctx.check(bool(fn(lon1, lat1, lon2, lat2, predicate=far * 1.001, strategy='andoyer')), 'predicate: larger', **wit)
                ctx.check(not fn(lon1, lat1, lon2, lat2, predicate=far * .999, strategy='andoyer'), 'predicate: smaller', **wit)
    if len(pts) > 1:
        ctx.raises((RuntimeError, ), lambda: geodetic.calculate_crossover(lon1, lat1, lon2, lat2), 'several crossovers')
    else:
        one = geodetic.calculate_crossover(lon1, lat1, lon2, lat2)
        ctx.check((one is None) == (len(pts) == 0) and (one is None or str(one) == str(got[0])), 'calculate_crossover', one=str(one), **wit)
    ctx.count('crossings', len(pts))
    ctx.count('across the seam' if (abs(np.diff(lon1)) > 180).any() or (abs(np.diff(lon2)) > 180).any() else 'elsewhere')


@section(2000)
def lines(ctx, rng):
    lat0 = float(rng.uniform(-65, 65))
    lon0 = float(rng.choice([180, 0, rng.uniform(-180, 180)]))
    proj = sphere.Gnomonic(lon0, lat0)
    span = 10**rng.uniform(-1, 1)
    n = int(rng.integers(2, 25))
    p = track(rng, n, span)
    lon, lat = proj.inverse(p)
    wgs, a, f = spheroid(rng)
    s = STRATEGY[int(rng.integers(0, 3))]
    line = geodetic.LineString(lon, lat)
    ctx.case(p, n=n, span=span, strategy=s)
    wit = {'lon': lon, 'lat': lat}
    got = np.asarray(line.curvilinear_distance(s, wgs))
    pts = list(line)
    ctx.check([(v.lon, v.lat) for v in pts] == list(zip(lon, lat)), 'iteration')
    ctx.check([(line[i].lon, line[i].lat) for i in range(n)] == list(zip(lon, lat)), 'items')
    ctx.raises((IndexError, ), lambda: line[n], 'index out of range')
    step = np.array([x.distance(y, s, wgs) for x, y in zip(pts, pts[1:])])
    ctx.close(got, np.append(0, np.cumsum(step)), f'curvilinear_distance:{s}', rtol=1e-12, **wit)
    if s == 'thomas':
        ctx.equal(np.asarray(line.curvilinear_distance(wgs=wgs)), got, 'curvilinear_distance: default')
    other = geodetic.LineString()
    for v in pts:
        other.append(v)
    ctx.check(other == line and not other != line and len(other) == n, 'append')
    ctx.check(np.asarray(geodetic.LineString().curvilinear_distance()).size == 0, 'empty line')
    # closest point
    m = int(rng.choice([1, 3, 20]))
    q = rng.uniform(-1, 1, (m, 2)) * span
    qx, qy = proj.inverse(q)
    earth = wgs if f > 0 else None
    x, y = line.closest_point(qx, qy, earth, num_threads=int(rng.choice([0, 1, 2, 30])))
    one = [line.closest_point(Point(u, v), earth) for u, v in zip(qx, qy)]
    ctx.equal(np.array([[v.lon, v.lat] for v in one]).T, np.array([x, y]), 'closest_point: scalar', **wit)
    d = np.arccos(np.clip((sphere.xyz(x, y) * sphere.xyz(qx, qy)).sum(-1), -1, 1))
    t = np.linspace(0, 1, 400)[:, None]
    dense = np.concatenate([u + t * (v - u) for u, v in zip(p, p[1:])])
    at = sphere.xyz(*proj.inverse(dense))
    near = np.arccos(np.clip((at @ sphere.xyz(qx, qy).T).max(0), -1, 1))
    slack = np.radians(span) * 4e-3
    ctx.all(abs(d - near) <= .01 * near + slack, 'closest_point: distance', d=np.degrees(d), want=np.degrees(near), x=x, y=y, qx=qx, qy=qy, **wit)
    on = np.arccos(np.clip((at @ sphere.xyz(x, y).T).max(0), -1, 1))
    ctx.all(on <= slack, 'closest_point: on the line', x=x, y=y, on=np.degrees(on), qx=qx, qy=qy, **wit)
    ctx.raises((ValueError, RuntimeError), lambda: line.closest_point(np.zeros(3), np.zeros(2)), 'sizes')
    # simplify
    tol = float(10**rng.uniform(0, 5))
    r = list(line.simplify(tol, s, wgs))
    keep = [(v.lon, v.lat) for v in r]
    every = list(zip(lon, lat))
    k = [every.index(v) for v in keep if v in every]
    ctx.check(len(k) == len(keep) and k == sorted(k) and k[0] == 0 and k[-1] == n - 1, 'simplify: vertices', **wit)
    scale = a / 6371008.8
    for u, v in zip(k, k[1:]):
        if v > u + 1:
            seg = p[[u, v]]
            dd = sphere.edge_distance(seg, p[u + 1:v]).max() * 111195 * scale
            ctx.check(dd <= tol * 1.06 + span * 150, 'simplify: tolerance', dd=dd, tolerance=tol, **wit)
    zero = {(v.lon, v.lat) for v in line.simplify(0, s, wgs)}
    gone = [i for i, v in enumerate(every) if v not in zero]
    ctx.check(all(sphere.edge_distance(p[[i - 1, i + 1]], p[[i]]).max() < 2e-3 * span for i in gone), 'simplify: 0', **wit)
    # the same line on a smaller spheroid of the same shape
    k = float(rng.choice([.25, .5, 2]))
    small = geodetic.Spheroid((a * k, f))
    ctx.close(np.asarray(line.curvilinear_distance(s, small)), got * k, f'curvilinear_distance: smaller spheroid:{s}', rtol=1e-11, **wit)
    for t in (tol, float(got[-1]) / n * float(rng.uniform(.01, .5))):
        ctx.check([(v.lon, v.lat) for v in line.simplify(t * k, s, small)] == [(v.lon, v.lat) for v in line.simplify(t, s, geodetic.Spheroid((a, f)))],
                  'simplify: smaller spheroid', tolerance=t, factor=k, strategy=s, **wit)
    # vertices given several times
    often = np.repeat(np.arange(n), rng.choice([1, 1, 2, 3], n))
    twice = geodetic.LineString(lon[often], lat[often])
    ctx.close(np.asarray(twice.curvilinear_distance(s, wgs)), got[often], f'curvilinear_distance: repeated vertices:{s}', rtol=1e-11, atol=1e-9, **wit)
    every = list(zip(lon[often], lat[often]))
    for name, o in (('pickle', pickle.loads(pickle.dumps(twice))), ('GeoJSON', geodetic.LineString.from_geojson(twice.to_geojson()['coordinates']))):
        ctx.check([(v.lon, v.lat) for v in o] == every and o == twice, f'repeated vertices: {name}', **wit)
    # parts of the line in a polygon
    ring = sphere.star(rng, int(rng.integers(3, 8)), .2 * span, .6 * span, tuple(rng.uniform(-.2, .2, 2) * span))
    lo, la = proj.inverse(ring[::-1])
    v = [Point(i, j) for i, j in zip(lo, la)]
    poly = geodetic.Polygon(v + v[:1])
    closed = np.concatenate([ring, ring[:1]])
    cross, clear = meet(p, closed, 5e-3 * span)
    if clear and min(sphere.edge_distance(ring, p).min(), 1) > 5e-3 * span:
        parts = line.intersection(poly, None)
        inside = sphere.inside(ring, dense)
        seg = np.repeat(np.linalg.norm(np.diff(p, axis=0), axis=1) / 399, 400)
        want = (inside * seg).sum()
        total = 0
        for part in parts:
            c = np.array([[i.lon, i.lat] for i in part])
            g = proj(c[:, 0], c[:, 1])
            total += np.linalg.norm(np.diff(g, axis=0), axis=1).sum()
            mid = g[:-1] + .5 * np.diff(g, axis=0)
            ok = sphere.inside(ring, mid) | (sphere.edge_distance(ring, mid) < 1e-2 * span)
            ctx.all(ok, 'intersection with a polygon: inside', polygon=poly.wkt(), **wit)
        ctx.close(total, want, 'intersection with a polygon: length', atol=.03 * span, polygon=poly.wkt(), parts=str(parts), **wit)
        # number of parts
        ctx.check(len(parts) == (len(cross) + int(inside[0]) + int(inside[-1])) / 2, 'intersection with a polygon: parts',
                  parts=str(parts), crossings=len(cross), polygon=poly.wkt(), **wit)
        ctx.count('parts', len(parts))


@section(60)
def degenerate(ctx, rng):
    x, y = rng.uniform(-170, 170, 4), rng.uniform(-80, 80, 4)
    ctx.case(x, y)
    empty, line = geodetic.LineString(), geodetic.LineString(x, y)
    for a, b in ((empty, line), (line, empty), (empty, empty)):
        c = geodetic.Crossover(a, b)
        ctx.check(c.exists() is False and c.search() is None and c.search_all() == [], 'empty half-orbits')
        ctx.check(c.nearest(Point(0, 0)) is None, 'nearest of empty half-orbits')
    ctx.raises((ValueError, RuntimeError), lambda: geodetic.calculate_crossover(x, y[:3], x, y), 'sizes of the first')
    ctx.raises((ValueError, RuntimeError), lambda: geodetic.calculate_crossover_list(x, y, x, y[:3]), 'sizes of the second')
    ctx.raises((ValueError, RuntimeError), lambda: geodetic.LineString(x, y[:3]), 'sizes of a line')
    ctx.raises((ValueError, RuntimeError), lambda: geodetic.calculate_crossover(x, y, x, y, strategy='?'), 'strategy')
    ctx.raises((ValueError, RuntimeError, TypeError), lambda: empty.closest_point(x, y, None, int(rng.choice([0, 1, 4]))), 'closest point of nothing')
    c = geodetic.Crossover(line, geodetic.LineString(x[::-1].copy(), y))
    ctx.check(c.half_orbit_1 == line and len(c.half_orbit_2) == 4, 'half_orbit')


@section(1, 1)
def finding(ctx, rng):
    """Known finding: geodesics crossing a line on the equator."""
    n, bad = 0, []
    for k in range(24):
        th = np.radians(15 * k + 7.5)
        x, y = np.array([10 - .03 * np.cos(th), 10 + .07 * np.cos(th)]), np.array([-.03 * np.sin(th), .07 * np.sin(th)])
        r = geodetic.LineString(x, y).intersection(geodetic.LineString(np.array([9., 11.]), np.zeros(2)))
        n += 1
        if len(r) != 1 or abs(r[0].lon - 10) > 1e-4 or abs(r[0].lat) > 1e-4:
            bad.append(k)
    ctx.case('equator', n)
    ctx.count('wrong answers', len(bad))
    # geodesics going north west or south east
    key = 'intersection with a line on the equator'
    if set(bad) - set(range(6, 12)) - set(range(18, 24)):
        key = 'intersections beyond the known finding'
    ctx.check(not bad, key, f'{len(bad)} of {n} intersections are on the wrong side', bad=bad)


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c17(ctx, rng)
