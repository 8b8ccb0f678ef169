"""Every function that takes num_threads, on random inputs (c09, c10).

build(rng, name, n) returns f(num_threads), which calls the function on fixed
inputs of n items and returns its arrays."""
import numpy as np
import pyinterp
import pyinterp.fill
from pyinterp import core, geodetic, geohash

import gen
import grids

SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 40, 63, 64, 65, 100, 129, 257, 1000]


def axes(rng, dims, small=False):
    x, y = grids.lonlat_axes(rng)
    if len(x) > 20:
        x = x[:20]
    x, y = np.sort(x), np.sort(y)
    while len(x) < 7:
        x = np.append(x, x[-1] + rng.uniform(.5, 2))
    while len(y) < 7:
        y = np.append(y, y[-1] + rng.uniform(.5, 2))
    out = [x, y]
    if dims > 2:
        out.append(np.cumsum(rng.uniform(.1, 3, int(rng.integers(2, 5)))))
    if dims > 3:
        out.append(np.cumsum(rng.uniform(.1, 3, int(rng.integers(2, 4)))))
    return out


def grid(rng, dims, dtype=None, circle=False):
    v = axes(rng, dims)
    if circle:
        n = int(rng.integers(8, 20))
        v[0] = np.arange(n) * 360 / n - rng.choice([0, 180])
    dtype = dtype or ('float32' if rng.random() < .3 else 'float64')
    z = grids.values(rng, tuple(len(a) for a in v), dtype)
    ax = [core.Axis(v[0], 1e-9, circle)] + [core.Axis(a) for a in v[1:]]
    temporal = dims > 2 and rng.random() < .4
    if temporal:
        v[2] = (1.6e9 + np.round(v[2] * 1e4)).astype('i8').astype('M8[s]')
        ax[2] = core.TemporalAxis(v[2])
    if rng.random() < .25 and not circle:
        pass
    g = grids.grid_class(dims)(*ax, z)
    return g, v, circle


def queries(rng, g, v, n, kind):
    """kind: in (inside), out (some outside or NaN), one (one outside)."""
    out = []
    for k, a in enumerate(v):
        if a.dtype.kind == 'M':
            b = a.astype('i8')
            q = rng.integers(b.min(), b.max() + 1, n)
            if kind == 'out':
                q = np.where(rng.random(n) < .2, b.max() + 10**6, q)
            out.append(g.z.safe_cast(q.astype('M8[s]')))
            continue
        q = rng.uniform(a.min(), a.max(), n)
        if kind == 'out':
            q = np.where(rng.random(n) < .2, rng.choice([a.max() + 500, a.min() - 500, np.nan, np.inf], n), q)
        out.append(q)
    if kind != 'one':
        out = gen.chain(rng, out)
    if kind == 'one' and n:
        k = int(rng.integers(0, n))
        ax = int(rng.integers(1, 2))
        out[ax][k] = v[ax].max() + 50 if rng.random() < .7 else np.nan
    return out


def variate(dims):
    def make(rng, n):
        dtype = str(rng.choice(['float64', 'float32', 'int8', 'uint8'])) if dims == 2 else None
        g, v, _ = grid(rng, dims, dtype, circle=rng.random() < .3)
        kind = str(rng.choice(['in', 'out', 'one']))
        q = queries(rng, g, v, n, kind)
        kw = dict(bounds_error=bool(rng.random() < .5), interpolator=str(rng.choice(grids.METHODS)))
        if dims > 2:
            kw['z_method'] = str(rng.choice(['linear', 'nearest']))
        if dims > 3:
            kw['u_method'] = str(rng.choice(['linear', 'nearest']))
        fn = {2: pyinterp.bivariate, 3: pyinterp.trivariate, 4: pyinterp.quadrivariate}[dims]
        return lambda t: [fn(g, *q, num_threads=t, **kw)]
    return make


MODELS = ['akima_periodic', 'akima', 'bicubic', 'c_spline_periodic', 'c_spline', 'linear', 'polynomial', 'steffen']


def windowed(dims):
    def make(rng, n):
        g, v, circle = grid(rng, dims, circle=rng.random() < .4)
        kind = str(rng.choice(['in', 'out', 'one']))
        q = queries(rng, g, v, n, kind)
        kw = dict(bounds_error=bool(rng.random() < .4), fitting_model=str(rng.choice(MODELS)), nx=3, ny=int(rng.integers(2, 4)),
                  boundary=str(rng.choice(['expand', 'sym', 'undef', 'wrap'])))
        return lambda t: [pyinterp.bicubic(g, *q, num_threads=t, **kw)]
    return make


def loess(dims):
    def make(rng, n):
        g, v, _ = grid(rng, dims, circle=rng.random() < .4)
        kw = dict(nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 4)), value_type=str(rng.choice(['undefined', 'defined', 'all'])))
        return lambda t: [pyinterp.fill.loess(g, num_threads=t, **kw)]
    return make


def gauss(dims):
    def make(rng, n):
        nx, ny = int(rng.integers(1, 20)), int(rng.choice([1, 2, 3, 7, 8, 9, 16, 33]))
        shape = (nx, ny) if dims == 2 else (max(nx, 2), max(ny, 2), int(rng.integers(2, 6)))
        z = rng.normal(size=shape)
        z[rng.random(shape) < rng.choice([.1, .5, .9])] = np.nan
        dtype = 'float32' if rng.random() < .3 else 'float64'
        z = z.astype(dtype)
        fg = core.fill.FirstGuess.Zero if rng.random() < .4 else core.fill.FirstGuess.ZonalAverage
        circle, relax, it = bool(rng.random() < .5), float(rng.uniform(.5, 1.9)), int(rng.integers(1, 40))
        if dims == 2:
            fn = getattr(core.fill, 'gauss_seidel_' + dtype)

            def run(t):
                a = z.copy()
                i, r = fn(a, fg, circle, it, 1e-4, relax, t)
                return [a, np.array(i), np.array(r)]
            return run
        ax = [core.Axis(np.arange(s) * 1.) for s in shape]
        g = pyinterp.Grid3D(*ax, z)

        def run3(t):
            c, a = pyinterp.fill.gauss_seidel(g, 'zero', it, 1e-4, relax, t)
            return [np.array(c), a]
        return run3
    return make


def points(rng, n):
    return rng.uniform(-180, 180, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))


def tree(rng):
    m = int(rng.choice([1, 5, 40, 300]))
    dtype = 'float32' if rng.random() < .3 else 'float64'
    t = pyinterp.RTree(None, np.dtype(dtype), False)
    lon, lat = points(rng, m)
    if rng.random() < .5:
        lon, lat = lon / 20, lat / 20
    c = np.stack([lon, lat], -1)
    if rng.random() < .3:
        c = np.column_stack([c, rng.uniform(0, 100, m)])
    v = rng.normal(size=m)
    if rng.random() < .9:
        (t.packing if rng.random() < .6 else t.insert)(c.astype(dtype), v.astype(dtype))
    return t, c.shape[1], dtype, bool(abs(lon).max() < 15)


def around(rng, n, dims, dtype, near):
    lon, lat = points(rng, n)
    if near:
        lon, lat = lon / 20, lat / 20
    c = np.column_stack([lon, lat] + [rng.uniform(0, 100, n)] * (dims - 2)).reshape(n, dims)
    return c.astype(dtype)


def scattered(method):
    def make(rng, n):
        t, dims, dtype, near = tree(rng)
        c = around(rng, n, dims, dtype, near)
        within = bool(rng.random() < .5)
        k = int(rng.integers(1, 12))
        radius = None if rng.random() < .5 else float(10**rng.uniform(5, 7))
        if method == 'query':
            return lambda th: list(t.query(c, k=k, within=within, num_threads=th))
        if method == 'value':
            return lambda th: list(t._instance.value(c, radius, k, within, th))
        if method == 'inverse_distance_weighting':
            return lambda th: list(t.inverse_distance_weighting(c, radius, k, int(rng_p), within, th))
        if method == 'radial_basis_function':
            rbf = str(rng.choice(['cubic', 'gaussian', 'inverse_multiquadric', 'linear', 'multiquadric', 'thin_plate']))
            return lambda th: list(t.radial_basis_function(c, radius, k, rbf, None, 0.1, within, th))
        if method == 'window_function':
            return lambda th: list(t.window_function(c, radius or 1e6, k, 'blackman', None, within, th))
        cov = str(rng.choice(['matern_12', 'matern_32', 'cauchy', 'spherical', 'gaussian']))
        return lambda th: list(t.universal_kriging(c, radius, k, cov, 1., 1e5, within, th))
    rng_p = 2
    return make


def gtree(method):
    def make(rng, n):
        t = geodetic.RTree()
        m = int(rng.choice([1, 5, 40, 300]))
        lon, lat = points(rng, m)
        if rng.random() < .9:
            t.packing(lon, lat, rng.normal(size=m))
        lon, lat = points(rng, n)
        within = bool(rng.random() < .5)
        k = int(rng.integers(1, 10))
        radius = None if rng.random() < .4 else float(10**rng.uniform(5.5, 7))
        if method == 'query':
            return lambda th: list(t.query(lon, lat, k, within, th))
        if method == 'inverse_distance_weighting':
            return lambda th: list(t.inverse_distance_weighting(lon, lat, radius, k, 2, within, th))
        if method == 'radial_basis_function':
            return lambda th: list(t.radial_basis_function(lon, lat, radius, k, 'multiquadric', None, .1, within, th))
        return lambda th: list(t.window_function(lon, lat, radius or 1e6, k, 'hamming', None, within, th))
    return make


def coordinates(method):
    def make(rng, n):
        a = geodetic.Coordinates()
        lon, lat = points(rng, n)
        alt = rng.uniform(-1e3, 1e6, n)
        if method == 'ecef_to_lla':
            x, y, z = rng.uniform(-7e6, 7e6, (3, n))
            return lambda t: list(a.ecef_to_lla(x, y, z, t))
        if method == 'lla_to_ecef':
            return lambda t: list(a.lla_to_ecef(lon, lat, alt, t))
        b = geodetic.Coordinates(geodetic.Spheroid((6378136.6, 1 / 300)))
        return lambda t: list(a.transform(b, lon, lat, alt, t))
    return make


def shape(rng):
    m = int(rng.integers(3, 12))
    a = np.linspace(0, 2 * np.pi, m, endpoint=False)
    r = rng.uniform(4, 15, m)
    x, y = rng.uniform(-90, 90), rng.uniform(-40, 40)
    ring = [geodetic.Point(float(x + r[i] * np.cos(a[i])), float(y + r[i] * np.sin(a[i]))) for i in range(m)]
    return geodetic.Polygon(ring + ring[:1]), x, y


def covered(kind):
    def make(rng, n):
        p, x, y = shape(rng)
        if kind == 'box':
            g = p.envelope()
        elif kind == 'polygon':
            g = p
        else:
            g = geodetic.MultiPolygon([p] + [shape(rng)[0] for _ in range(int(rng.integers(0, 3)))])
        lon, lat = rng.uniform(x - 20, x + 20, n), rng.uniform(y - 20, y + 20, n)
        return lambda t: [g.covered_by(lon, lat, t)]
    return make


def boxes(kind):
    def make(rng, n):
        p = shape(rng)[0]
        g = p if kind == 'polygon' else geodetic.MultiPolygon([p, shape(rng)[0]])
        precision = int(rng.integers(1, 4))
        return lambda t: [geohash.bounding_boxes(g, precision=precision, num_threads=t)]
    return make


def distances(rng, n):
    p, q = points(rng, n), points(rng, n)
    strategy = str(rng.choice(['andoyer', 'thomas', 'vincenty']))
    return lambda t: [geodetic.coordinate_distances(*p, *q, strategy=strategy, wgs=None, num_threads=t)]


def closest(rng, n):
    m = int(rng.integers(2, 20))
    line = geodetic.LineString(np.cumsum(rng.uniform(.1, 2, m)), np.cumsum(rng.normal(0, 1, m)))
    lon, lat = rng.uniform(-5, 30, n), rng.uniform(-15, 15, n)
    wgs = None if rng.random() < .5 else geodetic.Spheroid()
    return lambda t: list(line.closest_point(lon, lat, wgs, t))


FUNCTIONS = {
    'bivariate': variate(2), 'trivariate': variate(3), 'quadrivariate': variate(4),
    'bicubic2': windowed(2), 'bicubic3': windowed(3), 'bicubic4': windowed(4),
    'loess2': loess(2), 'loess3': loess(3), 'loess4': loess(4),
    'gauss_seidel2': gauss(2), 'gauss_seidel3': gauss(3),
    **{'rtree.' + m: scattered(m) for m in ('query', 'value', 'inverse_distance_weighting', 'radial_basis_function', 'window_function', 'universal_kriging')},
    **{'geodetic.RTree.' + m: gtree(m) for m in ('query', 'inverse_distance_weighting', 'radial_basis_function', 'window_function')},
    **{'coordinates.' + m: coordinates(m) for m in ('ecef_to_lla', 'lla_to_ecef', 'transform')},
    **{'covered_by.' + k: covered(k) for k in ('box', 'polygon', 'multipolygon')},
    'bounding_boxes.polygon': boxes('polygon'), 'bounding_boxes.multipolygon': boxes('multipolygon'),
    'coordinate_distances': distances, 'closest_point': closest,
}
# items processed one by one, whatever their number
SIZED = [k for k in FUNCTIONS if not k.startswith(('loess', 'gauss', 'bounding'))]


def call(f, t):
    """What f(t) gives: ('ok', arrays) or ('error', type, text)."""
    try:
        return ('ok', [np.array(a) for a in f(t)])
    except (ValueError, RuntimeError, IndexError, TypeError, OverflowError) as e:
        return ('error', type(e).__name__, str(e))
