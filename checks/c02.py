"""C02: longitude axes behave as circles."""
import copy
import pickle

import numpy as np
import pyinterp
from pyinterp import core

import gen
from vt import section

PARTS = ['axis', 'bivariate', 'trivariate', 'quadrivariate', 'bicubic']
NATIVE = ['axis']
RULE = ('A case is one circular axis (any origin, resolution, regular or irregular, both orders, direct or unpickled or '
        'copied or flipped) with lookups up to several turns away judged in angular distance, or one grid on such an '
        'axis evaluated twice (shifted query, rotated or reversed description, seam approached from both sides). '
        'Non-trivial: the axis covers the circle and at least one lookup or interpolation was judged.')
ASSUMES = ['two values whose angular distances differ by less than 1e-9 degree are both accepted as nearest']


def circle(rng, **kw):
    x, info = gen.circle_values(rng, **kw)
    how = int(rng.integers(0, 6))
    given = x
    if how == 0:  # as stored in files: wrapped somewhere
        cut = float(rng.choice([0, -180]))
        given = (x - cut) % 360.0 + cut
        d = np.diff(given)
        if (np.sign(d) == np.sign(d[0])).sum() < len(d) - 1:
            given = x
        if np.sign(given[1] - given[0]) != np.sign(x[1] - x[0]):
            given = x
    ax = core.Axis(given, 1e-6, True)
    if how == 1:
        ax = pickle.loads(pickle.dumps(ax))
    elif how == 2:
        ax = copy.copy(ax)
    elif how == 3:
        ax = core.Axis(x[::-1].copy(), 1e-6, True).flip(bool(rng.integers(0, 2)))
    return ax, info


def angdist(a, b):
    return np.abs((a - b + 180.0) % 360.0 - 180.0)


def queries(rng, x, n=60):
    span = np.sort(x)
    gap = np.array([span[-1], span[0] + 360])
    q = np.concatenate([
        rng.uniform(-720, 720, n),
        rng.choice(x, min(16, len(x))),
        rng.uniform(gap[0], gap[1], 12), [gap.mean(), gap[0], gap[1], np.nextafter(gap[0], 999), np.nextafter(gap[1], -999)],
        [0, -0.0, 180, -180, 360, -360, 540, 1e-300, -1e-300, -1e-20, np.nextafter(360, 0), np.nextafter(-180, -181)],
        [x[0], x[-1]],
    ])
    return np.concatenate([q, q[:20] + 360 * rng.integers(-3, 4, 20)])


@section(8000, 300000)
def lookup(ctx, rng):
    ax, info = circle(rng)
    x = ax[:]
    n = len(x)
    ctx.case(x=x, **info)
    if not ctx.check(ax.is_circle, 'circle not recognised', x=x, **info):
        return
    ctx.count(f'{info["kind"]} {info["order"]}')
    q = queries(rng, x)
    slack = 1e-9
    dist = angdist(q[:, None], x[None, :])
    best = dist.min(axis=1)
    for bounded in (False, True):
        got = ax.find_index(q, bounded)
        ctx.all((got >= 0) & (got < n), 'find_index:located', q=q, got=got, x=x, bounded=bounded)
        gi = np.clip(got, 0, n - 1)
        ctx.all(dist[np.arange(len(q)), gi] <= best + slack, 'find_index:nearest', q=q, got=got, x=x, bounded=bounded)
    i = ax.find_indexes(q)
    ctx.all((i >= 0) & (i < n), 'find_indexes:located', i=i, x=x)
    a, b = np.clip(i[:, 0], 0, n - 1), np.clip(i[:, 1], 0, n - 1)
    ctx.all((np.abs(a - b) == 1) | (a + b == n - 1) & (np.abs(a - b) == n - 1), 'find_indexes:consecutive', q=q, a=a, b=b, x=x)
    # the arc from one to the other contains the coordinate
    width = np.where(np.abs(a - b) == 1, np.abs(x[a] - x[b]), 360 - np.abs(x[a] - x[b]))
    if n == 2:
        width = np.maximum(width, 360 - width)
    inside = np.abs(angdist(q, x[a]) + angdist(q, x[b]) - width) < 1e-8
    ctx.all(inside | (width > 179), 'find_indexes:bracket', q=q, a=a, b=b, x=x)
    # whole turns do not matter (clear of ties)
    second = np.sort(dist, axis=1)[:, 1]
    clear = second - best > 1e-7
    off = best > 1e-7
    k = rng.integers(-4, 5, len(q))
    j = ax.find_index(q + 360.0 * k, False)
    ctx.all((j == ax.find_index(q, False)) | ~clear, 'find_index:turns', q=q, k=k, x=x)
    i2 = np.sort(ax.find_indexes(q + 360.0 * k), axis=1)
    ctx.all((i2 == np.sort(i, axis=1)).all(axis=1) | ~off, 'find_indexes:turns', q=q, k=k, x=x)
    bad = np.array([np.nan, np.inf, -np.inf])
    ctx.equal(ax.find_index(bad, False), [-1] * 3, 'find_index:non-finite', x=x)
    ctx.equal(ax.find_indexes(bad), np.full((3, 2), -1), 'find_indexes:non-finite', x=x)
    ctx.count('lookups', 5 * len(q))


@section(600, 6000)
def not_circle(ctx, rng):
    """Longitudes that do not go round are not a circle; NaN outside of them."""
    n = int(rng.integers(5, 60))
    step = 360.0 / n
    m = int(rng.integers(2, n - 1))
    o = float(rng.choice([0.0, -180.0, 350.0, rng.uniform(-360, 360)]))
    x = o + np.arange(m) * step
    if rng.random() < .5:
        x = x[::-1].copy()
    if m > 2 and rng.random() < .5:
        x[1] += 0.1 * (x[0] - x[1])
    ax = core.Axis(x, 1e-6, True)
    ctx.case(x=x)
    if x.max() - x.min() < 360 - 1.5 * np.abs(x[-1] - x[0]) / (m - 1):
        ctx.check(not ax.is_circle, 'partial axis taken for a circle', x=x)
        q = rng.uniform(x.min(), x.max(), 20)
        out = rng.uniform(x.max() + 0.55 * step + 1e-6, x.min() + 360 - 0.55 * step - 1e-6, 20)
        for k in (0, 360, -360, 720):
            d = np.abs(q[:, None] - x[None, :])
            got = ax.find_index(q + k, False)
            ctx.all((got >= 0) & (d[np.arange(20), got] <= d.min(axis=1) + 1e-9), 'partial:find_index', q=q, got=got, x=x)
            ctx.equal(ax.find_index(out + k, False), np.full(20, -1), 'partial:outside', q=out, x=x, k=k)
            i = ax.find_indexes(q + k)
            ctx.all((i >= 0).all(axis=1), 'partial:find_indexes', q=q, x=x)
            ctx.equal(ax.find_indexes(out + k), np.full((20, 2), -1), 'partial:outside2', q=out, x=x, k=k)


METHODS = ['bilinear', 'nearest', 'inverse_distance_weighting']


def grid_of(rng, dims, asc=False):
    kw = {'order': 'asc'} if asc else {}
    ax, info = circle(rng, n=int(rng.choice([4, 5, 8, 12, 36, 60])), **kw)
    y = np.sort(rng.uniform(-70, 70, int(rng.integers(2, 8))))
    y += np.arange(len(y)) * 0.5
    others = [np.cumsum(rng.uniform(0.5, 2, int(rng.integers(2, 4)))) for _ in range(dims - 2)]
    shape = (len(ax), len(y)) + tuple(len(o) for o in others)
    z = rng.normal(size=shape) * 10
    return ax, y, others, z, info


def mesh(ax, y, others, z):
    cls = {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}[2 + len(others)]
    return cls(ax, core.Axis(y, 1e-9, False), *[core.Axis(o, 1e-9, False) for o in others], z)


def evaluate(g, lon, lat, rest, method, window=None):
    n = 2 + len(rest)
    if window:
        kw = dict(zip('zu', rest))
        return pyinterp.bicubic(g, lon, lat, nx=window[0], ny=window[1], fitting_model=method, boundary=window[2],
                                num_threads=1, **kw)
    f = {2: pyinterp.bivariate, 3: pyinterp.trivariate, 4: pyinterp.quadrivariate}[n]
    return f(g, lon, lat, *rest, interpolator=method, num_threads=1)


@section(4000, 150000)
def relations(ctx, rng):
    """Bilinear, nearest and IDW on circular grids."""
    dims = int(rng.choice([2, 2, 3, 4]))
    ax, y, others, z, info = grid_of(rng, dims)
    x = ax[:]
    g = mesh(ax, y, others, z)
    ctx.case(x=x, y=y, z=z, **info)
    ctx.count(f'{dims}-D grids')
    n = 48
    gap = np.sort(x)[[-1, 0]] + [0, 360]
    lon = np.concatenate([rng.uniform(-400, 400, 24), rng.uniform(gap[0], gap[1], 12), rng.choice(x, 12)])
    lat = rng.uniform(y[0], y[-1], n)
    rest = [rng.uniform(o[0], o[-1], n) for o in others]
    for method in METHODS:
        ref = evaluate(g, lon, lat, rest, method)
        ctx.all(np.isfinite(ref), f'{method}:defined everywhere', lon=lon, lat=lat, x=x, y=y)
        ctx.all((ref >= z.min() - 1e-9) & (ref <= z.max() + 1e-9), f'{method}:range', lon=lon, ref=ref, x=x)
        d = np.sort(angdist(lon[:, None], x[None, :]), axis=1)
        clear = np.ones(n, dtype=bool)
        if method == 'nearest':
            clear = (d[:, 1] - d[:, 0] > 1e-6) & (np.diff(np.sort(np.abs(lat[:, None] - y[None, :]), axis=1)[:, :2])[:, 0] > 1e-3)
            # the nearest corner is judged on the sphere: stay clear of its ties
            i = ax.find_indexes(lon)
            edge = np.abs(d[:, 1] - d[:, 0]) > 0.05 * (d[:, 0] + d[:, 1])
            clear &= edge
            del i
        if method == 'inverse_distance_weighting':  # not continuous at the meridians of the grid
            clear = d[:, 0] > 1e-6
        tol = 1e-6

        def same(got, key, ref=ref, clear=clear, **kw):
            ctx.all(~clear | (np.abs(got - ref) <= tol), key, lon=lon, lat=lat, got=got, ref=ref, x=x, y=y, **kw)

        k = rng.integers(-3, 4, n)
        same(evaluate(g, lon + 360.0 * k, lat, rest, method), f'{method}:turns', k=k)
        # same grid, other starting meridian
        cut = int(rng.integers(1, len(x)))
        up = x[1] > x[0]
        xs = np.concatenate([x[cut:], x[:cut] + (360 if up else -360)])
        turn = 360.0 * int(rng.integers(-1, 2))
        a2 = core.Axis(xs + turn, 1e-6, True)
        if a2.is_circle or info['kind'] == 'regular':
            ctx.check(a2.is_circle, 'rotated circle not recognised', x=xs + turn)
            same(evaluate(mesh(a2, y, others, np.concatenate([z[cut:], z[:cut]])), lon, lat, rest, method),
                 f'{method}:rotation', cut=cut)
        # same grid in the other order
        a3 = ax.flip(False)
        ctx.check(a3.is_circle, 'flipped circle')
        same(evaluate(mesh(a3, y, others, z[::-1].copy()), lon, lat, rest, method), f'{method}:order')
        # exact at the meridians of the grid
        if method == 'bilinear':
            j = rng.integers(0, len(x), n)
            one = np.stack([np.interp(lat[i], y, z[j[i]].reshape(len(y), -1)[:, 0]) for i in range(n)])
            at = [np.full(n, o[0]) for o in others]
            got = evaluate(g, x[j] + 360.0 * k, lat, at, method)
            ctx.close(got, one, 'bilinear:meridians', atol=1e-6, x=x)


@section(3000, 100000)
def linear_seam(ctx, rng):
    """The cell across the seam is interpolated like any other one."""
    ax, y, others, z, info = grid_of(rng, 2)
    x = ax[:]
    g = mesh(ax, y, others, z)
    ctx.case(x=x, y=y, z=z, **info)
    o = np.argsort(x)
    xs = np.concatenate([x[o], [x[o[0]] + 360]])
    zs = np.concatenate([z[o], z[o[:1]]])
    t = np.sort(np.concatenate([rng.uniform(0, 1, 20), [0, 1, 1e-12, 1 - 1e-12, 0.5]]))
    i = len(x) - 1 if rng.random() < .7 else int(rng.integers(0, len(x)))
    lon = xs[i] + t * (xs[i + 1] - xs[i])
    lat = rng.uniform(y[0], y[-1], len(t))
    want = np.empty(len(t))
    for n in range(len(t)):
        a = np.interp(lat[n], y, zs[i])
        b = np.interp(lat[n], y, zs[i + 1])
        want[n] = a + (b - a) * t[n]
    turn = 360.0 * rng.integers(-2, 3, len(t))
    got = pyinterp.bivariate(g, lon + turn, lat, num_threads=1)
    ctx.close(got, want, 'bilinear:cell', atol=1e-7, x=x, lon=lon, lat=lat)
    # NaN where one of the two meridians is undefined, nowhere else
    if len(x) > 4:
        w = z.copy()
        w[o[i % len(x)]] = np.nan
        got = pyinterp.bivariate(mesh(ax, y, others, w), lon + turn, lat, num_threads=1)
        inner = (t > 1e-6) & (t < 1 - 1e-6)
        ctx.all(np.isnan(got) | ~inner, 'bilinear:undefined seam', lon=lon, got=got, x=x)
        nxt = 0.5 * (xs[(i + 1) % len(x)] + np.append(xs[1:], xs[1] + 360)[(i + 1) % len(x)])
        got = pyinterp.bivariate(mesh(ax, y, others, w), np.array([nxt]), lat[:1], num_threads=1)
        ctx.all(np.isfinite(got), 'bilinear:defined next to undefined', lon=np.array([nxt]), x=x)


MODELS = ['linear', 'bicubic', 'c_spline', 'akima', 'steffen', 'polynomial', 'c_spline_periodic', 'akima_periodic']


@section(2500, 80000)
def windowed(ctx, rng):
    """Bicubic and splines on circular grids: turns and rotation."""
    dims = int(rng.choice([2, 2, 2, 3]))
    ax, y, others, z, info = grid_of(rng, dims, asc=True)
    x = ax[:]
    if x[0] > x[-1]:
        ax = ax.flip(False)
        x = ax[:]
    model = str(rng.choice(MODELS))
    nmax = len(x) // 2 - 1
    nx = int(rng.integers(1, max(2, min(6, nmax) + 1)))
    lo = {'akima': 3, 'akima_periodic': 3, 'c_spline': 2, 'c_spline_periodic': 2, 'steffen': 2, 'polynomial': 2,
          'bicubic': 2}.get(model, 1)
    nx = max(nx, lo)
    ny = max(lo, int(rng.integers(1, 4)))
    if 2 * nx >= len(x) or 2 * ny > len(y):
        y = np.sort(rng.uniform(-70, 70, 2 * ny + 3)) + np.arange(2 * ny + 3) * 0.5
        ax, info = circle(rng, n=int(2 * nx + rng.integers(1, 20)), order='asc')
        x = ax[:]
        if x[0] > x[-1]:
            ax = ax.flip(False)
            x = ax[:]
        z = rng.normal(size=(len(x), len(y)) + z.shape[2:]) * 10
    g = mesh(ax, y, others, z)
    ctx.case(x=x, y=y, z=z, model=model, nx=nx, ny=ny, **info)
    ctx.count(model)
    n = 40
    lon = np.concatenate([rng.uniform(-400, 400, 28), rng.uniform(x[-1], x[0] + 360, 12)])
    lat = rng.uniform(y[ny - 1], y[len(y) - ny], n)
    rest = [rng.uniform(o[0], o[-1], n) for o in others]
    win = (nx, ny, 'undef')
    ref = evaluate(g, lon, lat, rest, model, win)
    ctx.all(np.isfinite(ref), f'{model}:defined everywhere', lon=lon, lat=lat, x=x, y=y, nx=nx, ny=ny)
    big = 1e-5 * max(1.0, np.nanmax(np.abs(ref)))
    d = angdist(lon[:, None], x[None, :]).min(axis=1)
    ok = d > 1e-5  # the window changes at the nodes

    def same(got, key, **kw):
        ctx.all(~ok | (np.abs(got - ref) <= big), key, lon=lon, lat=lat, got=got, ref=ref, x=x, y=y, nx=nx, ny=ny, **kw)

    k = rng.integers(-3, 4, n)
    same(evaluate(g, lon + 360.0 * k, lat, rest, model, win), f'{model}:turns', k=k)
    cut = int(rng.integers(1, len(x)))
    xs = np.concatenate([x[cut:], x[:cut] + 360]) + 360.0 * int(rng.integers(-2, 2))
    a2 = core.Axis(xs, 1e-6, True)
    if a2.is_circle:
        same(evaluate(mesh(a2, y, others, np.concatenate([z[cut:], z[:cut]])), lon, lat, rest, model, win),
             f'{model}:rotation', cut=cut)
    same(evaluate(g, lon, lat, rest, model, (nx, ny, str(rng.choice(['expand', 'wrap', 'sym'])))), f'{model}:boundary on a circle')


@section(2500, 50000, native='axis')
def raw(ctx, rng):
    """The C++ axis of longitudes."""
    import vtn_axis
    x, info = gen.circle_values(rng)
    n = len(x)
    single = n < 400 and rng.random() < .2
    if info['kind'] == 'regular' and rng.random() < .4:
        ax = vtn_axis.Float64(x[0], x[-1], float(n), 1e-6, True)
    elif single:
        ax = vtn_axis.Float32(x.astype('float32'), 1e-4, True)
    else:
        ax = vtn_axis.Float64(x, 1e-6, True)
    how = int(rng.integers(0, 4))
    if how == 0:
        ax = ax.copy()
    elif how == 1:
        ax.flip()
        x = x[::-1].copy()
    ctx.case(x=x, single=single, how=how, **info)
    if not ctx.check(ax.is_circle() and ax.is_angle(), 'C++: circle not recognised', x=x):
        return
    x = np.array(ax.values()[0])
    q = queries(rng, x)
    slack = 1e-9
    if single:
        q = q.astype('float32').astype('float64')
        slack = 1e-3
    lo = ax.min_value()
    t = np.array(ax.normalize(q))
    ctx.all((t >= lo) & (t <= lo + 360 if single else t < lo + 360), 'C++: normalize', q=q, t=t, lo=lo)
    ctx.all(angdist(t, q) <= slack, 'C++: normalize turns', q=q, t=t, lo=lo)
    dist = angdist(q[:, None], x[None, :])
    best = dist.min(axis=1)
    gap = 360 - (x.max() - x.min())
    for bounded in (False, True):
        g = np.array(ax.find_nearest_index(q, bounded))
        ctx.all((g >= 0) & (g < n), 'C++: find_nearest_index', q=q, g=g, x=x)
        ctx.all(dist[np.arange(len(q)), np.clip(g, 0, n - 1)] <= best + slack, 'C++: nearest', q=q, g=g, x=x, bounded=bounded)
        # not across the seam
        g = np.array(ax.find_index(q, bounded))
        inside = (t >= lo) & (t <= x.max())
        ctx.all((g >= -1 + bounded) & (g < n), 'C++: find_index', q=q, g=g, x=x)
        ctx.all((g >= 0) | ~inside, 'C++: find_index:located', q=q, g=g, x=x)
        ok = np.abs(t - x[np.clip(g, 0, n - 1)]) <= np.abs(t[:, None] - x[None, :]).min(axis=1) + slack
        ctx.all((g < 0) | ok, 'C++: find_index:nearest', q=q, g=g, x=x, bounded=bounded)
    del gap
    pairs = np.array(ax.find_indexes(q)).reshape(-1, 2)
    ctx.all((pairs >= 0) & (pairs < n), 'C++: find_indexes', q=q, pairs=pairs, x=x)
    for k in range(len(q)):
        i, j = int(pairs[k, 0]), int(pairs[k, 1])
        if i < 0 or j < 0:
            continue
        u, x0, x1 = ax.unwrap(q[k], i, j)
        ctx.check(min(x0, x1) - slack <= u <= max(x0, x1) + slack and abs(i - j) in (1, n - 1), 'C++: unwrap', x=x, q=q[k],
                  i=i, j=j, u=u, x0=x0, x1=x1)
        ctx.check(angdist(u, q[k]) <= slack and angdist(x0, x[i]) <= slack and angdist(x1, x[j]) <= slack,
                  'C++: unwrap turns', x=x, q=q[k], u=u, x0=x0, x1=x1)
        if k % 8 == 0 and x[0] < x[-1]:
            size = int(rng.choice([1, 2, 3, 5]))
            w = [(i + m) % n for m in range(1 - size, size + 1)]
            for code in vtn_axis.boundaries.values():
                ctx.equal(ax.window(q[k], size, code), w, 'C++: window', x=x, q=q[k], size=size)
    bad = np.array([np.nan, np.inf, -np.inf])
    ctx.equal(ax.find_indexes(bad), [(-1, -1)] * 3, 'C++: non-finite')
    ctx.equal(ax.find_index(bad, False), [-1] * 3, 'C++: non-finite')
