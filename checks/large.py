"""Long arrays: what a function gives for each item does not depend on their
number (an index that overflows shows beyond 255 or 65535 items)."""
import numpy as np

N = 70001


def split(rng, n):
    """Bounds of parts of different sizes."""
    cuts = np.unique(np.concatenate([[0, n], rng.integers(0, n, 7), [250, 33000]]))
    return list(zip(cuts[:-1], cuts[1:]))


def outputs(r):
    if isinstance(r, dict):
        return {str(k): np.asarray(v) for k, v in r.items()}
    if isinstance(r, (tuple, list)):
        return {str(i): np.asarray(v) for i, v in enumerate(r)}
    return {'': np.asarray(r)}


def elementwise(ctx, rng, name, f, arrays, each=None):
    """f(*arrays) is, item by item, what f gives for parts of the arrays."""
    n = len(arrays[0])
    whole = outputs(f(*arrays))
    ctx.count(name, n)
    for a, b in split(rng, n):
        part = outputs(f(*[x[a:b] for x in arrays]))
        for k, v in part.items():
            w = whole[k][a:b]
            same = w.shape == v.shape and w.dtype == v.dtype
            if same:
                with np.errstate(all='ignore'):
                    same = bool(((w == v) | ((w != w) & (v != v))).all())
            if not ctx.check(same, f'{name}: items of a long array', k, first=int(a), last=int(b)):
                return
    i = int(rng.integers(0, n))
    one = outputs(f(*[x[i:i + 1] for x in arrays]))
    for k, v in one.items():
        ctx.check(str(v[0]) == str(whole[k][i]), f'{name}: item of a long array', k, index=i)


def ecdf_axis(rng, n):
    v = np.cumsum(rng.uniform(.1, 1., n)) if rng.random() < .5 else np.arange(n) * float(rng.choice([.25, 1., 3.])) + float(rng.choice([0, -180, 5e4]))
    return v if rng.random() < .6 else v[::-1].copy()


def long_size(rng):
    return int(rng.choice([257, 300, 40000, 65537, N]))


def c01(ctx, rng):
    from pyinterp import core
    n = long_size(rng)
    v = ecdf_axis(rng, n)
    ax = core.Axis(v, 1e-9, False)
    ctx.case(v, size=n)
    ctx.check(len(ax) == n and np.allclose(ax[:], v, rtol=1e-12, atol=1e-9), 'long axis: values', size=n)
    q = np.concatenate([rng.uniform(v.min(), v.max(), N - n if n < N else 0), rng.permutation(v)])
    got = ax.find_index(q)
    ok = (got >= 0) & (got < n)
    ctx.check(ok.all(), 'long axis: located', size=n)
    s = np.sort(v)
    k = np.clip(np.searchsorted(s, q), 1, n - 1)
    best = np.minimum(abs(q - s[k - 1]), abs(s[k] - q))
    ctx.check((abs(v[got] - q) <= best + 1e-9 * (1 + abs(q))).all(), 'long axis: nearest', size=n)
    pair = ax.find_indexes(q)
    ctx.check(((pair >= 0) & (pair < n)).all() and (abs(pair[:, 1] - pair[:, 0]) == 1).all(), 'long axis: consecutive', size=n)
    a, b = v[pair[:, 0]], v[pair[:, 1]]
    e = 1e-9 * (1 + abs(q))
    ctx.check(((np.minimum(a, b) <= q + e) & (q - e <= np.maximum(a, b))).all(), 'long axis: bracket', size=n)
    elementwise(ctx, rng, 'find_index', lambda x: ax.find_index(x), [q])
    elementwise(ctx, rng, 'find_indexes', lambda x: ax.find_indexes(x), [q])


def c03(ctx, rng):
    from pyinterp import core
    n = long_size(rng)
    unit = str(rng.choice(['s', 'ns', 'h']))
    v = np.cumsum(rng.integers(1, 9, n)) if rng.random() < .5 else np.arange(n) * int(rng.integers(1, 9))
    v = v.astype('i8') + int(rng.choice([0, -10**6, 4 * 10**5]))
    if rng.random() < .4:
        v = v[::-1].copy()
    ax = core.TemporalAxis(v.astype(f'M8[{unit}]'))
    ctx.case(v, unit, size=n)
    ctx.check(len(ax) == n and np.array_equal(np.asarray(ax[:]).astype('i8'), v), 'long axis: values', size=n)
    q = rng.integers(v.min(), v.max() + 1, N)
    got = ax.find_index(q.astype(f'M8[{unit}]'))
    s = np.sort(v)
    k = np.clip(np.searchsorted(s, q), 1, n - 1)
    best = np.minimum(abs(q - s[k - 1]), abs(s[k] - q))
    ctx.check(((got >= 0) & (got < n)).all() and (abs(v[got] - q) == best).all(), 'long axis: nearest', size=n)
    pair = ax.find_indexes(q.astype(f'M8[{unit}]'))
    ctx.check(((pair >= 0) & (pair < n)).all() and (abs(pair[:, 1] - pair[:, 0]) == 1).all() and
              ((np.minimum(v[pair[:, 0]], v[pair[:, 1]]) <= q) & (q <= np.maximum(v[pair[:, 0]], v[pair[:, 1]]))).all(), 'long axis: bracket', size=n)
    elementwise(ctx, rng, 'find_index', lambda x: ax.find_index(x), [q.astype(f'M8[{unit}]')])


def grids_of(rng, dims, n, which):
    """A grid of which one axis has n values."""
    shape = [int(rng.integers(8, 12)) for _ in range(dims)]
    shape[which] = n
    # (steps that no rounding makes irregular)
    v = [np.arange(s) * .5 - 40. if i == 1 and s < 100 else np.arange(s) * .5 for i, s in enumerate(shape)]
    for i in range(2, dims):
        v[i] = np.arange(shape[i]) * .25
    return v, rng.normal(size=shape)


def interpolation(ctx, rng, dims, windowed=False):
    """A grid with a long axis is interpolated like the part of it around the points; many points like each of them."""
    import pyinterp
    from pyinterp import core
    which = int(rng.integers(0, dims))
    n = int(rng.choice([300, 40000, 70000] if dims < 4 else [300, 20000]))
    if which == 1 and not windowed:
        n = min(n, 300)
    v, z = grids_of(rng, dims, n, which)
    cls = {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}[dims]
    lengthy = cls(*[core.Axis(a) for a in v], z)
    name = 'bicubic' if windowed else {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[dims]
    fn = getattr(pyinterp, name)
    kw = dict(num_threads=int(rng.choice([1, 3])))
    if windowed:
        kw.update(fitting_model=str(rng.choice(['akima', 'c_spline', 'linear', 'steffen', 'bicubic'])), nx=3, ny=3)
    else:
        kw['interpolator'] = str(rng.choice(['bilinear', 'nearest']))
    m = 3000 if windowed else N
    q = [rng.uniform(a[3], a[-4], m) for a in v]
    ctx.case(n, which, str(kw), ctx.index, size=n, axis=which, function=name, **kw)
    whole = fn(lengthy, *q, **kw)
    start = int(rng.integers(0, n - 20))
    cut = [slice(None)] * dims
    cut[which] = slice(start, start + 20)
    part = cls(*[core.Axis(np.ascontiguousarray(a[s])) for a, s in zip(v, cut)], np.ascontiguousarray(z[tuple(cut)]))
    q2 = [x[:500].copy() for x in q]
    q2[which] = rng.uniform(v[which][start + 3], v[which][start + 16], 500)
    got, want = fn(lengthy, *q2, **kw), fn(part, *q2, **kw)
    ctx.check(np.isfinite(got).all() and np.allclose(got, want, rtol=1e-7, atol=1e-7), f'{name}: grid with a long axis', 'unlike the part of it', size=n, axis=which, start=start)
    elementwise(ctx, rng, name, lambda *x: fn(lengthy, *x, **kw), q)
    ctx.check(np.isfinite(whole).all(), f'{name}: points of a grid with a long axis', size=n, axis=which)


def c07(ctx, rng):
    from pyinterp import core
    n = int(rng.choice([300, 70000]))
    x = np.cumsum(rng.uniform(.5, 1.5, n))
    y = rng.normal(size=n)
    kind = str(rng.choice(['linear', 'akima', 'c_spline', 'steffen']))
    m = 2000
    xi = np.sort(rng.uniform(x[10], x[-10], m))
    ctx.case(x[:5], n, kind, ctx.index, size=n, kind=kind)
    ax = core.Axis(x)
    got = core.interpolate1d(ax, y, xi, half_window_size=4, kind=kind)
    start = int(rng.integers(0, n - 60))
    sel = slice(start, start + 60)
    q = np.sort(rng.uniform(x[start + 10], x[start + 50], 200))
    a = core.interpolate1d(ax, y, q, half_window_size=4, kind=kind)
    b = core.interpolate1d(core.Axis(x[sel].copy()), y[sel].copy(), q, half_window_size=4, kind=kind)
    ctx.check(np.isfinite(a).all() and np.allclose(a, b, rtol=1e-9, atol=1e-9), 'long axis', 'unlike the part of it', kind=kind, size=n)
    ctx.check(np.isfinite(got).all(), 'long axis: defined', kind=kind)


def sphere_points(rng, n):
    return rng.uniform(-180, 180, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))


def c13(ctx, rng):
    from pyinterp import geohash
    from pyinterp.geohash import int64
    lon, lat = sphere_points(rng, N)
    p, c = int(rng.integers(1, 65)), int(rng.integers(1, 13))
    ctx.case(lon, p, c, precision=p, chars=c)
    elementwise(ctx, rng, 'int64.encode', lambda x, y: int64.encode(x, y, p), [lon, lat])
    elementwise(ctx, rng, 'int64.decode', lambda h: int64.decode(h, p), [int64.encode(lon, lat, p)])
    elementwise(ctx, rng, 'encode', lambda x, y: geohash.encode(x, y, c), [lon, lat])
    words = geohash.encode(lon, lat, c)
    elementwise(ctx, rng, 'decode', lambda h: geohash.decode(h), [words])
    d = int(rng.integers(1, c + 1))
    few = geohash.transform(words, d)
    ctx.check(set(few.tolist()) == {w[:d] for w in words.tolist()}, 'transform of a long array', precision=d)


def c14(ctx, rng):
    from pyinterp import geohash
    from pyinterp.geohash import int64
    c = 4
    lon, lat = sphere_points(rng, N)
    words = geohash.encode(lon, lat, c)
    ctx.case(lon, chars=c)
    elementwise(ctx, rng, 'area', lambda h: geohash.area(h), [words])
    # more than 65536 cells: the globe, or a part of it
    all_ = geohash.bounding_boxes(precision=c)
    ctx.check(len(all_) == 32**c and len(np.unique(all_)) == 32**c, 'cells of the globe', f'{len(all_)}')
    elementwise(ctx, rng, 'decode', lambda h: geohash.decode(h), [np.ascontiguousarray(all_[:N])])
    from pyinterp import geodetic
    x0, y0 = float(rng.uniform(-170, 0)), float(rng.uniform(-80, -10))
    box = geodetic.Box(geodetic.Point(x0, y0), geodetic.Point(x0 + 120., y0 + 80.))
    some = geohash.bounding_boxes(box, precision=c)
    px, py = geohash.decode(np.ascontiguousarray(all_))
    w, h = 360 / 2**10 / 2, 180 / 2**10 / 2
    meet = (px + w > x0) & (px - w <= x0 + 120) & (py + h > y0) & (py - h <= y0 + 80)
    ctx.check(len(some) > 65536 and len(np.unique(some)) == len(some), 'cells of a large box: distinct', f'{len(some)}')
    core_ = set(all_[(px - w > x0 + 1e-6) & (px + w < x0 + 120 - 1e-6) & (py - h > y0 + 1e-6) & (py + h < y0 + 80 - 1e-6)].tolist())
    ctx.check(core_ <= set(some.tolist()), 'cells of a large box: inside ones')
    edge = set(all_[(px + w > x0 - 1e-6) & (px - w <= x0 + 120 + 1e-6) & (py + h > y0 - 1e-6) & (py - h <= y0 + 80 + 1e-6)].tolist())
    ctx.check(set(some.tolist()) <= edge, 'cells of a large box: near ones', f'{meet.sum()} {len(some)}')


def c15(ctx, rng):
    from pyinterp import geodetic
    lon, lat = sphere_points(rng, N)
    alt = rng.uniform(-1e4, 1e6, N)
    ctx.case(lon)
    a, b = geodetic.Coordinates(), geodetic.Coordinates(geodetic.Spheroid((6378136., 1 / 298.)))
    t = int(rng.choice([1, 3]))
    elementwise(ctx, rng, 'lla_to_ecef', lambda *x: a.lla_to_ecef(*x, num_threads=t), [lon, lat, alt])
    elementwise(ctx, rng, 'ecef_to_lla', lambda *x: a.ecef_to_lla(*x, num_threads=t), list(a.lla_to_ecef(lon, lat, alt)))
    elementwise(ctx, rng, 'transform', lambda *x: a.transform(b, *x, num_threads=t), [lon, lat, alt])
    elementwise(ctx, rng, 'normalize_longitudes', lambda x: geodetic.normalize_longitudes(x.copy(), -180), [lon * 7])


def polygon(rng, n):
    """A ring of n sides around the origin."""
    from pyinterp import geodetic
    a = np.sort(rng.uniform(0, 2 * np.pi, n))
    r = rng.uniform(15, 20, n)
    x, y = r * np.cos(a), r * np.sin(a)
    return geodetic.Polygon([geodetic.Point(float(p), float(q)) for p, q in zip(np.append(x, x[0]), np.append(y, y[0]))]), x, y


def c16(ctx, rng):
    import pickle

    from pyinterp import geodetic
    n = int(rng.choice([5, 40]))
    p, x, y = polygon(rng, n)
    lon, lat = rng.uniform(-25, 25, N), rng.uniform(-25, 25, N)
    ctx.case(x, sides=n)
    t = int(rng.choice([1, 3]))
    elementwise(ctx, rng, 'Polygon.covered_by', lambda a, b: p.covered_by(a, b, num_threads=t), [lon, lat])
    box = geodetic.Box(geodetic.Point(-10, -5), geodetic.Point(12, 20))
    elementwise(ctx, rng, 'Box.covered_by', lambda a, b: box.covered_by(a, b, num_threads=t), [lon, lat])
    m = geodetic.MultiPolygon([p])
    elementwise(ctx, rng, 'MultiPolygon.covered_by', lambda a, b: m.covered_by(a, b, num_threads=t), [lon, lat])
    # many sides
    n = int(rng.choice([300, 70000]))
    p, x, y = polygon(rng, n)
    e = p.envelope()
    ctx.check(e.min_corner.lon == x.min() and e.max_corner.lon == x.max() and abs(e.min_corner.lat - y.min()) < .05 and abs(e.max_corner.lat - y.max()) < .05, 'envelope of many sides', sides=n)
    q = pickle.loads(pickle.dumps(p))
    ring = list(q.outer)
    ctx.check(len(ring) == n + 1 and all(a.lon == b and a.lat == c for a, b, c in zip(ring, x, y)), 'pickled polygon of many sides', sides=n)
    ctx.check(len(q.to_geojson()['coordinates'][0]) == n + 1, 'GeoJSON of many sides', sides=n)
    m = geodetic.MultiPolygon([polygon(rng, 3)[0] for _ in range(300)])
    m2 = pickle.loads(pickle.dumps(m))
    ctx.check(len(m2) == 300 and m2.to_geojson() == m.to_geojson() and len(m.to_geojson()['coordinates']) == 300, 'many polygons')


def c17(ctx, rng):
    import pickle

    from pyinterp import geodetic
    p, q = sphere_points(rng, N), sphere_points(rng, N)
    s = str(rng.choice(['andoyer', 'thomas']))
    t = int(rng.choice([1, 3]))
    ctx.case(p[0], strategy=s)
    elementwise(ctx, rng, 'coordinate_distances', lambda a, b, c, d: geodetic.coordinate_distances(a, b, c, d, strategy=s, num_threads=t), [*p, *q])
    n = int(rng.choice([300, 70000]))
    x, y = np.cumsum(rng.uniform(0, 350 / n, n)) - 175, np.cumsum(rng.normal(0, 60 / n, n))
    line = geodetic.LineString(x, y)
    for o in (line, pickle.loads(pickle.dumps(line))):
        ctx.check(len(o) == n and all(o[i].lon == x[i] and o[i].lat == y[i] for i in [0, 1, 255, 256, n // 2, n - 1]), 'long line: points', size=n)
        ctx.check(all(a.lon == b and a.lat == c for a, b, c in zip(o, x, y)), 'long line: iteration', size=n)
    c = line.curvilinear_distance(strategy=s)
    d = np.concatenate([[0.], np.cumsum(geodetic.coordinate_distances(x[:-1], y[:-1], x[1:], y[1:], strategy=s))])
    ctx.check(c.shape == d.shape and np.allclose(c, d, rtol=1e-9, atol=1e-3), 'long line: distance', size=n)
    ctx.check(len(line.to_geojson()['coordinates']) == n, 'long line: GeoJSON', size=n)


def c18(ctx, rng):
    import pickle

    import pyinterp
    n = int(rng.choice([300, 70000]))
    lon, lat = sphere_points(rng, n)
    alt = rng.uniform(0, 1e5, n)
    tree = pyinterp.RTree()
    xyz = np.column_stack([lon, lat, alt])
    v = np.arange(n) * 1.
    ctx.case(lon, size=n)
    if rng.random() < .5:
        tree.packing(xyz, v)
    else:
        k = n // 3
        tree.packing(xyz[:k], v[:k])
        tree.insert(xyz[k:], v[k:])
    tree = pickle.loads(pickle.dumps(tree)) if rng.random() < .5 else tree
    ctx.check(len(tree) == n, 'long tree: len', size=n)
    t = int(rng.choice([1, 3]))
    d, got = tree.query(xyz, k=1, within=False, num_threads=t)
    ctx.check((d.ravel() < 1e-3).all() and (got.ravel() == v).all(), 'long tree: points', size=n)
    elementwise(ctx, rng, 'query', lambda a: tree.query(a, k=3, within=False, num_threads=t), [np.column_stack([*sphere_points(rng, N // 3), rng.uniform(0, 1e5, N // 3)])])


def c19(ctx, rng):
    import pyinterp
    n = 400
    tree = pyinterp.RTree()
    tree.packing(np.column_stack([*sphere_points(rng, n), np.zeros(n)]), rng.normal(size=n))
    q = np.column_stack([*sphere_points(rng, N), np.zeros(N)])
    t = int(rng.choice([1, 3]))
    fn, kw = [('inverse_distance_weighting', dict(k=3)), ('radial_basis_function', dict(k=4, rbf='linear')), ('window_function', dict(k=5, radius=2e6, wf='hamming')),
              ('universal_kriging', dict(k=4, radius=3e6, covariance='matern_12'))][ctx.index % 4]
    ctx.case(q, function=fn)
    elementwise(ctx, rng, fn, lambda a: getattr(tree, fn)(a, within=False, num_threads=t, **kw), [q])


def c20(ctx, rng):
    import pickle

    from pyinterp import geodetic
    n = int(rng.choice([300, 70000]))
    lon, lat = sphere_points(rng, n)
    tree = geodetic.RTree()
    v = np.arange(n) * 1.
    ctx.case(lon, size=n)
    k = n // 3 if rng.random() < .5 else n
    tree.packing(lon[:k], lat[:k], v[:k])
    tree.insert(lon[k:], lat[k:], v[k:])
    tree = pickle.loads(pickle.dumps(tree)) if rng.random() < .6 else tree
    ctx.check(len(tree) == n, 'long tree: len', size=n)
    t = int(rng.choice([1, 3]))
    d, got = tree.query(lon, lat, k=1, within=False, num_threads=t)
    ctx.check((d.ravel() < 1e-3).all() and (got.ravel() == v).all(), 'long tree: points', size=n)
    elementwise(ctx, rng, 'query', lambda a, b: tree.query(a, b, k=2, within=False, num_threads=t), list(sphere_points(rng, N // 3)))


def c21(ctx, rng):
    import pyinterp
    x, y = rng.uniform(-.49, 2.49, 3 * N), rng.uniform(-.49, 1.49, 3 * N)
    z = rng.normal(10, 2, 3 * N)
    b = pyinterp.Binning2D(pyinterp.Axis(np.arange(3.)), pyinterp.Axis(np.arange(2.)))
    b.push(x, y, z, simple=True)
    i, j = np.rint(x).astype(int), np.rint(y).astype(int)
    count, total = np.zeros((3, 2), 'i8'), np.zeros((3, 2))
    np.add.at(count, (i, j), 1)
    np.add.at(total, (i, j), z)
    ctx.case(x, y, z)
    ctx.check((b.variable('count') == count).all(), 'many samples: count', f'{b.variable("count")} {count}')
    ctx.close(b.variable('sum'), total, 'many samples: sum', rtol=1e-9)
    ctx.close(b.variable('mean'), total / count, 'many samples: mean', rtol=1e-9)
    # many bins
    n = 70000
    v = np.arange(float(n))
    b = pyinterp.Binning2D(pyinterp.Axis(v), pyinterp.Axis(np.arange(2.)))
    z = rng.normal(size=n)
    b.push(rng.permutation(n)[:0].astype('f8'), np.zeros(0), np.zeros(0))
    b.push(v, np.ones(n), z)
    ctx.check((b.variable('count')[:, 1] == 1).all() and (b.variable('count')[:, 0] == 0).all() and np.array_equal(b.variable('mean')[:, 1], z), 'many bins')


def c22(ctx, rng):
    import pyinterp
    n = 3 * N
    x = rng.normal(size=n)
    h = pyinterp.StreamingHistogram(x, bin_count=int(rng.choice([10, 300])))
    ctx.case(x)
    ctx.check(int(h.count()[0]) == n and abs(float(h.sum_of_weights()[0]) - n) < 1e-6 * n, 'many samples: count')
    ctx.check(float(h.min()[0]) == x.min() and float(h.max()[0]) == x.max(), 'many samples: range')
    ctx.close(h.mean(), [x.mean()], 'many samples: mean', atol=1e-9)
    b = h.bins().ravel()
    ctx.close(b['weight'].sum(), n, 'many samples: weight of the bins', rtol=1e-9)
    # many bins
    m = 5000
    h = pyinterp.StreamingHistogram(np.arange(m) * 1., bin_count=m)
    ctx.check(int(h.size()[0]) == m and np.array_equal(h.bins().ravel()['value'], np.arange(m)), 'many bins')


def c23(ctx, rng):
    import pyinterp
    n = 3 * N
    x = rng.normal(3, 2, (n, 2))
    s = pyinterp.DescriptiveStatistics(x, axis=(0, ))
    ctx.case(x)
    ctx.check((s.count() == n).all(), 'many samples: count', f'{s.count()}')
    ctx.close(s.mean(), x.mean(0), 'many samples: mean', rtol=1e-9)
    ctx.close(s.var(), x.var(0), 'many samples: var', rtol=1e-9)
    ctx.close(s.sum(), x.sum(0), 'many samples: sum', rtol=1e-9)
    s = pyinterp.DescriptiveStatistics(x, axis=(1, ))
    ctx.check((s.count() == 2).all() and s.count().shape == (n, ), 'many cells: count')
    ctx.close(s.mean(), x.mean(1), 'many cells: mean', rtol=1e-9)
    ctx.check(np.array_equal(s.min(), x.min(1)) and np.array_equal(s.max(), x.max(1)), 'many cells: range')


def c25(ctx, rng):
    from pyinterp import fill
    n = int(rng.choice([300, N]))
    x = rng.normal(size=n)
    hole = rng.random(n) < .6
    hole[[0, -1]] = False
    a = int(rng.integers(1, n // 2))
    hole[a:a + int(n * .4)] = True
    y = np.where(hole, np.nan, x)
    want = np.interp(np.arange(n), np.flatnonzero(~hole), x[~hole])
    ctx.case(y, size=n)
    got = fill.vector(y, in_place=False)
    ctx.close(got, want, 'long vector', atol=1e-9)
    v = np.where(hole, np.iinfo('i8').max, np.arange(n) * 3).astype('i8')
    ctx.check(np.array_equal(fill.vector(v, in_place=False, fill_value=np.iinfo('i8').max), np.arange(n) * 3), 'long vector of integers')
    shape = (n, 3) if rng.random() < .5 else (3, n)
    m = rng.normal(size=shape).cumsum(0)
    long_axis = int(np.argmax(shape))
    z = m.copy()
    if long_axis == 1:
        z[:, hole] = np.nan
        want = np.array([np.interp(np.arange(n), np.flatnonzero(~hole), r[~hole]) for r in m])
    else:
        z[hole] = np.nan
        want = np.array([np.interp(np.arange(n), np.flatnonzero(~hole), r[~hole]) for r in m.T]).T
    ctx.close(fill.matrix(z, in_place=False), want, 'long matrix', atol=1e-7)


def c26(ctx, rng):
    from pyinterp.period import PeriodList
    n = int(rng.choice([300, N]))
    start = np.cumsum(rng.integers(20, 60, n))
    last = start + rng.integers(1, 15, n)
    rec = np.array([start, last]).astype('M8[s]')
    pl = PeriodList(rec)
    ctx.case(start, size=n)
    ctx.check(len(pl) == n, 'long list: len')
    q = np.sort(rng.integers(start[0] - 100, last[-1] + 100, N))
    k = np.searchsorted(start, q, 'right') - 1
    want = (k >= 0) & (q <= last[np.maximum(k, 0)])
    ctx.check(np.array_equal(np.asarray(pl.belong_to_a_period(q.astype('M8[s]'))).astype(bool), want), 'long list: belong', size=n)
    ctx.check(pl.are_periods_sorted_and_disjointed(), 'long list: sorted')
    d = pl.duration() if hasattr(pl, 'duration') else None
    if d is not None:
        ctx.count('durations', np.size(d))
    other = rec.copy()
    i = int(rng.integers(0, n - 1))
    other[1, i] = other[0, i + 1] + 1
    ctx.check(not PeriodList(other).are_periods_sorted_and_disjointed(), 'long list: not disjointed', size=n, index=i)


def c27(ctx, rng):
    from pyinterp import core
    unit = str(rng.choice(['s', 'ms', 'us', 'ns']))
    scale = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}[unit]
    x = (rng.integers(-10**9, 4 * 10**9, N) * scale + rng.integers(0, scale, N)).astype(f'M8[{unit}]')
    ctx.case(x, unit=unit)
    for name in ('date', 'time', 'weekday', 'isocalendar', 'timedelta_since_january', 'datetime'):
        f = getattr(core.dateutils, name)
        elementwise(ctx, rng, name, f, [x])


def twins(ctx, rng, obj, see, name):
    """Duplicates of an object of many items."""
    import copy
    import pickle
    before = see(obj)
    for how, o in (('pickle', pickle.loads(pickle.dumps(obj))), ('deepcopy', copy.deepcopy(obj))):
        after = see(o)
        for k, v in before.items():
            ctx.check(np.array_equal(v, after[k], equal_nan=np.asarray(v).dtype.kind == 'f'), f'{name}: {how} of many items', k, items=len(np.atleast_1d(v)))
    ctx.count(name)


def c30(ctx, rng):
    import pyinterp
    from pyinterp import core, geodetic
    n = int(rng.choice([300, N]))
    lon, lat = sphere_points(rng, n)
    v = np.arange(n) * 1.
    k = ctx.index % 9
    ctx.case(lon, k, size=n)
    if k == 0:
        twins(ctx, rng, core.Axis(ecdf_axis(rng, n)), lambda o: {'values': o[:], 'len': len(o)}, 'Axis')
    elif k == 1:
        twins(ctx, rng, core.TemporalAxis(np.cumsum(rng.integers(1, 9, n)).astype('M8[s]')), lambda o: {'values': np.asarray(o[:]), 'len': len(o)}, 'TemporalAxis')
    elif k == 2:
        g = pyinterp.Grid2D(core.Axis(v), core.Axis(np.arange(3.)), rng.normal(size=(n, 3)))
        twins(ctx, rng, g, lambda o: {'values': o.array, 'x': o.x[:]}, 'Grid2D')
    elif k == 3:
        t = pyinterp.RTree()
        xyz = np.column_stack([lon, lat, np.zeros(n)])
        t.packing(xyz, v)
        twins(ctx, rng, t, lambda o: {'points': o.query(xyz, k=1, within=False)[1], 'len': len(o)}, 'RTree')
    elif k == 4:
        t = geodetic.RTree()
        t.packing(lon, lat, v)
        twins(ctx, rng, t, lambda o: {'points': o.query(lon, lat, k=1, within=False)[1], 'len': len(o)}, 'geodetic.RTree')
    elif k == 5:
        twins(ctx, rng, geodetic.LineString(lon, lat), lambda o: {'lon': np.array([p.lon for p in o]), 'lat': np.array([p.lat for p in o]), 'len': len(o)}, 'LineString')
    elif k == 6:
        b = pyinterp.Binning2D(pyinterp.Axis(v), pyinterp.Axis(np.arange(2.)))
        b.push(rng.uniform(0, n - 1, 2 * n), rng.uniform(0, 1, 2 * n), rng.normal(size=2 * n))
        twins(ctx, rng, b, lambda o: {'count': o.variable('count'), 'mean': o.variable('mean'), 'max': o.variable('max')}, 'Binning2D')
    elif k == 7:
        s = pyinterp.DescriptiveStatistics(rng.normal(size=(n, 3)), axis=(1, ))
        twins(ctx, rng, s, lambda o: {'count': o.count(), 'mean': o.mean(), 'var': o.var()}, 'DescriptiveStatistics')
    else:
        h = pyinterp.StreamingHistogram(rng.normal(size=(min(n, 3000), 4)), axis=(1, ), bin_count=5)
        twins(ctx, rng, h, lambda o: {'count': o.count(), 'value': o.bins()['value'], 'weight': o.bins()['weight']}, 'StreamingHistogram')
