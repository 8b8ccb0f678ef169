"""C05: 3-D and 4-D interpolation compose the surface and axis methods."""
import itertools
import pickle

import numpy as np
import pyinterp
from pyinterp import core

import grids
import large
from vt import section

PARTS = ['axis', 'trivariate', 'quadrivariate', 'bivariate']
RULE = ('A case is one 3-D or 4-D grid (two data types, float or temporal third axis of any unit, any memory layout, both '
        'orders of each axis, with or without undefined values) and a batch of points (inside, on nodes, at the '
        'middles); every result of every combination of methods is judged by its definition on the enclosing cell. '
        'Non-trivial: at least one point was judged.')
ASSUMES = ['as in C04 for distances and ties; a point on a node may use either of the two cells']
UNITS = ['D', 'h', 's', 'ms', 'us', 'ns', 'ps']


def z_axis(rng, temporal):
    """(axis, values as numbers, dtype)."""
    n = int(rng.choice([2, 3, 5]))
    if not temporal:
        v, _ = grids.gen.axis_values(rng, n=n)
        ax = grids.axis(v)
        return ax, ax[:], None
    unit = str(rng.choice(UNITS))
    kind = str(rng.choice(['datetime64', 'timedelta64'], p=[.8, .2]))
    step = int(10**rng.uniform(0, 15))
    gaps = np.full(n - 1, step) if rng.random() < .5 else rng.integers(1, step + 1, n - 1)
    start = int(rng.choice([0, 1, -1])) * int(10**rng.uniform(0, 18))
    v = np.concatenate([[start], start + np.cumsum(gaps)]).astype('int64')
    if rng.random() < .3:
        v = v[::-1].copy()
    dtype = np.dtype(f'{kind}[{unit}]')
    return core.TemporalAxis(v.view(dtype)), v, dtype


def z_queries(rng, v, n, temporal):
    if not temporal:
        return grids.queries(rng, v, n)
    k = rng.integers(0, len(v) - 1, n)
    a, b = np.minimum(v[k], v[k + 1]), np.maximum(v[k], v[k + 1])
    q = a + (rng.random(n) * (b - a)).astype('int64')
    how = rng.random(n)
    q = np.where(how < .2, a, np.where(how < .3, b, np.where(how < .4, a + (b - a) // 2, q)))
    return np.clip(q, a, b)


def build(ctx, rng, dims, holes=True):
    vx, vy = grids.lonlat_axes(rng)
    ax, ay = grids.axis(vx), grids.axis(vy)
    temporal = bool(rng.random() < .5)
    az, vz, dtype = z_axis(rng, temporal)
    axes, vals = [ax, ay, az], [ax[:], ay[:], vz]
    if dims == 4:
        v, _ = grids.gen.axis_values(rng, n=int(rng.choice([2, 3, 4])))
        axes.append(grids.axis(v))
        vals.append(axes[-1][:])
    kind = str(rng.choice(['float64', 'float32']))
    z = grids.values(rng, tuple(len(v) for v in vals), kind, holes)
    g = grids.grid_class(dims)(*axes, grids.layout(rng, z))
    ctx.count(f'{dims}-D {kind} {"temporal" if temporal else "float"}')
    return g, vals, z, dtype


def evaluate(g, q, dtype, method, z_method, u_method=None, **kw):
    q = list(q)
    if dtype is not None:
        q[2] = g.z.safe_cast(q[2].view(dtype))
    if len(q) == 4:
        return pyinterp.quadrivariate(g, *q, interpolator=method, z_method=z_method, u_method=u_method, num_threads=1, **kw)
    return pyinterp.trivariate(g, *q, interpolator=method, z_method=z_method, num_threads=1, **kw)


def definition(ctx, got, q, vals, z, method, z_method, u_method, p, dtype):
    x, y, t = q[:3]
    vx, vy, vz = vals[:3]
    zf = z.astype('float64')
    options = []
    exact = int if dtype is not None else float
    u_cells = [None] if len(q) == 3 else _distinct(grids.cells(vals[3], q[3]))
    for cx, cy in itertools.product(_distinct(grids.cells(vx, x)), _distinct(grids.cells(vy, y))):
        s = grids.Surface(method, x, y, vx, vy, cx, cy, p)

        def at(k, m=None, s=s):
            return s.options(np.stack([zf[c + ((k, ) if m is None else (k, m))] for c in s.corner]))

        for cz in _distinct(grids.cells(vz, t)):
            for uc in u_cells:
                for wz in grids.axis_options(z_method, t, vz, cz, exact):
                    if uc is None:
                        options += grids.compose(at(cz[0]), at(cz[1]), *wz)
                        continue
                    lo = grids.compose(at(cz[0], uc[0]), at(cz[1], uc[0]), *wz)
                    hi = grids.compose(at(cz[0], uc[1]), at(cz[1], uc[1]), *wz)
                    for wu in grids.axis_options(u_method, q[3], vals[3], uc):
                        options += grids.compose(lo, hi, *wu)
    ctx.count(f'points {method} {z_method} {u_method}', len(x))
    ctx.count('undefined', np.isnan(got).sum())
    grids.judge(ctx, got, options, f'{method}:{len(q)}-D definition', x=x, y=y, t=t, z_method=z_method, u_method=u_method,
                dtype=str(dtype))


def _distinct(cells):
    (a, b), (c, d) = cells
    return cells[:1] if (a == c).all() else cells


def draw(rng, vals, n, dtype):
    return grids.gen.chain(
        rng, [grids.queries(rng, vals[0], n), grids.queries(rng, vals[1], n), z_queries(rng, vals[2], n, dtype is not None)] +
        ([grids.queries(rng, vals[3], n)] if len(vals) == 4 else []))


def case(ctx, rng, dims, n):
    g, vals, z, dtype = build(ctx, rng, dims)
    q = draw(rng, vals, n, dtype)
    # the oracle costs 4x per coordinate that may be on a node: one point or
    # all points inside otherwise
    if dims == 4:
        for k in range(4):
            if rng.random() < .5 and not (k == 2 and dtype is not None):
                v = vals[k]
                lo, hi = v.min(), v.max()
                q[k] = rng.uniform(lo, hi, n)
    ctx.case(z=z, vals=[v.tolist() for v in vals], dtype=str(dtype))
    method = str(rng.choice(grids.METHODS, p=[.4, .3, .3]))
    if dims == 4 and method != 'bilinear':  # keeps the number of alternatives low
        q = [np.asarray(a)[:6] for a in q]
    z_method, u_method = str(rng.choice(['linear', 'nearest'])), str(rng.choice(['linear', 'nearest']))
    kw, p = {}, 2
    if method[0] == 'i' and rng.random() < .5:
        p = int(rng.choice([1, 3]))
        kw = {'p': p}
    got = evaluate(g, q, dtype, method, z_method, u_method if dims == 4 else None, **kw)
    ctx.check(got.shape == q[0].shape, 'result:shape')
    definition(ctx, got, q, vals, z, method, z_method, u_method, p, dtype)


@section(9000, 400000)
def three(ctx, rng):
    case(ctx, rng, 3, 40)


@section(4000, 200000)
def four(ctx, rng):
    case(ctx, rng, 4, 12)


@section(4000, 150000)
def slices(ctx, rng):
    """At the nodes of the axes: the slice; and the data range elsewhere."""
    dims = int(rng.choice([3, 4]))
    g, vals, z, dtype = build(ctx, rng, dims, holes=False)
    n = 30
    q = draw(rng, vals, n, dtype)
    ctx.case(z=z, vals=[v.tolist() for v in vals], dtype=str(dtype))
    k = int(rng.integers(0, len(vals[2])))
    m = int(rng.integers(0, len(vals[3]))) if dims == 4 else 0
    at = list(q)
    at[2] = np.full(n, vals[2][k])
    if dims == 4:
        at[3] = np.full(n, vals[3][m])
    plane = z[:, :, k] if dims == 3 else z[:, :, k, m]
    flat = pyinterp.Grid2D(g.x, g.y, np.ascontiguousarray(plane))
    top = float(np.abs(z).max())
    for method in grids.METHODS:
        want = pyinterp.bivariate(flat, q[0], q[1], interpolator=method, num_threads=1)
        for z_method in ('linear', 'nearest'):
            got = evaluate(g, at, dtype, method, z_method, 'linear' if dims == 4 else None)
            ctx.close(got, want, f'{method}:slice', atol=1e-9 * top, z_method=z_method, dims=dims, dtype=str(dtype))
            got = evaluate(g, q, dtype, method, z_method, 'nearest' if dims == 4 else None)
            ctx.all((got >= float(z.min()) - 1e-9 * top) & (got <= float(z.max()) + 1e-9 * top), f'{method}:data range', got=got, top=top, z_method=z_method, q=[a.tolist() for a in q], vals=[v.tolist() for v in vals], dtype=str(dtype))
    # outside of one of the axes
    d = int(rng.integers(0, dims))
    out = list(q)
    v = vals[d]
    span = v.max() - v.min()
    if d == 2 and dtype is not None:
        far = rng.integers(1, int(span) + 2, n)
        out[d] = np.where(rng.random(n) < .5, v.min() - far, v.max() + far)
        out[d][0] = np.iinfo('int64').min
    else:
        far = span * rng.uniform(1e-6, 2, n)
        out[d] = np.where(rng.random(n) < .5, v.min() - far, v.max() + far)
        out[d][0] = np.nan
    for method in grids.METHODS:
        for a, b in itertools.product(('linear', 'nearest'), repeat=2):
            got = evaluate(g, out, dtype, method, a, b if dims == 4 else None)
            ctx.all(np.isnan(got), f'{method}:outside', axis=d)


@section(1200, 20000)
def unpickled(ctx, rng):
    """An unpickled grid interpolates like the original."""
    dims = int(rng.choice([3, 4]))
    g, vals, z, dtype = build(ctx, rng, dims)
    q = draw(rng, vals, 20, dtype)
    ctx.case(z=z, vals=[v.tolist() for v in vals], dtype=str(dtype))
    want = evaluate(g, q, dtype, 'bilinear', 'linear', 'linear' if dims == 4 else None)
    raw = list(q)
    h = grids.grid_class(dims).__new__(grids.grid_class(dims))
    h._prefix, h._instance = g._prefix, pickle.loads(pickle.dumps(g._instance))
    method = core.TemporalBilinear3D() if dtype is not None else core.Bilinear3D()
    f = 'trivariate' if dims == 3 else 'quadrivariate'
    suffix = 'float64' if z.dtype == np.float64 else 'float32'
    kw = {'z_method': 'linear', 'bounds_error': False, 'num_threads': 1}
    got = getattr(core, f'{f}_{suffix}')(h._instance, *raw, method, **kw)
    ctx.equal(got, want, 'unpickled grid')


@section(12, 72)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.interpolation(ctx, rng, 3 + ctx.index % 2)
