"""C04: 2-D interpolation equals its definition at every point."""
import itertools
import pickle

import numpy as np
import pyinterp

import grids
import large
from vt import section

PARTS = ['axis', 'bivariate']
RULE = ('A case is one 2-D grid (four data types, any memory layout, both orders of each axis, with or without undefined '
        'values) and a batch of points (inside, on nodes and grid lines, one ulp beside, at the middles and corners); '
        'every result of every method is judged by its definition on the enclosing cell. Non-trivial: at least one point '
        'was judged.')
ASSUMES = ['distances are great-circle ones, x and y being degrees, as in the library; ties within 1e-9 accept either corner',
           'on a grid line the point may be attributed to either of the two cells']


def evaluate(ctx, g, x, y, method, **kw):
    got = pyinterp.bivariate(g, x, y, interpolator=method, num_threads=1, **kw)
    ctx.check(got.shape == x.shape and got.dtype == np.float64, 'result:shape')
    return got


def build(ctx, rng, lonlat, dtype=None, holes=True):
    vx, vy = grids.lonlat_axes(rng) if lonlat else grids.any_axes(rng)
    ax, ay = grids.axis(vx), grids.axis(vy)
    vx, vy = ax[:], ay[:]
    dtype = str(rng.choice(grids.DTYPES)) if dtype is None else dtype
    z = grids.values(rng, (len(vx), len(vy)), dtype, holes)
    given = grids.layout(rng, z)
    g = pyinterp.Grid2D(ax, ay, given)
    if rng.random() < .1:
        g._instance = pickle.loads(pickle.dumps(g._instance))
    ctx.count(dtype)
    return g, vx, vy, z


def definition(ctx, got, method, x, y, vx, vy, z, p=2, key=''):
    zf = z.astype('float64')
    options = []
    for cx, cy in itertools.product(grids.cells(vx, x), grids.cells(vy, y)):
        s = grids.Surface(method, x, y, vx, vy, cx, cy, p)
        options += s.options(np.stack([zf[c] for c in s.corner]))
    grids.judge(ctx, got, options, f'{method}:definition{key}', x=x, y=y, vx=vx, vy=vy, dtype=str(z.dtype))
    ctx.count(f'points {method}', len(x))
    ctx.count('undefined', np.isnan(got).sum())


@section(14000, 600000)
def lonlat(ctx, rng):
    g, vx, vy, z = build(ctx, rng, True)
    n = int(rng.choice([1, 7, 60]))
    x, y = grids.gen.chain(rng, [grids.queries(rng, vx, n), grids.queries(rng, vy, n)])
    ctx.case(vx=vx, vy=vy, z=z)
    given = grids.layout(rng, np.stack([x, y]))
    for method in grids.METHODS:
        kw, p = {}, 2
        if method[0] == 'i' and rng.random() < .6:
            p = int(rng.choice([0, 1, 2, 3, 5, 9, 16]))
            kw = {'p': p}
        got = evaluate(ctx, g, given[0], given[1], method, **kw)
        definition(ctx, got, method, x, y, vx, vy, z, p)
    # exact at the nodes
    i, j = rng.integers(0, len(vx), 10), rng.integers(0, len(vy), 10)
    for method in grids.METHODS:
        got = evaluate(ctx, g, vx[i], vy[j], method)
        want = z[i, j].astype('float64')
        if method == 'bilinear':  # an undefined neighbour may have been used
            want = np.where(np.isnan(got) & _touched(z)[i, j], np.nan, want)
        ctx.equal(got, want, f'{method}:nodes', vx=vx, vy=vy)


def _touched(z):
    """Nodes with an undefined value around."""
    bad = np.pad(np.isnan(z.astype('float64')), 1)
    out = np.zeros(z.shape, dtype=bool)
    for a in range(3):
        for b in range(3):
            out |= bad[a:a + z.shape[0], b:b + z.shape[1]]
    return out


@section(5000, 200000)
def anywhere(ctx, rng):
    """Any coordinates: bilinear is its definition, all stay in the cell."""
    g, vx, vy, z = build(ctx, rng, False)
    n = 50
    x, y = grids.gen.chain(rng, [grids.queries(rng, vx, n), grids.queries(rng, vy, n)])
    ctx.case(vx=vx, vy=vy, z=z)
    got = evaluate(ctx, g, x, y, 'bilinear')
    definition(ctx, got, 'bilinear', x, y, vx, vy, z, key=' (any axes)')
    # functions it reproduces
    u, v = (vx - vx[0]) / (vx[-1] - vx[0]), (vy - vy[0]) / (vy[-1] - vy[0])
    c = rng.normal(size=4)

    def f(a, b):
        return c[0] + c[1] * a + c[2] * b + c[3] * a * b

    h = pyinterp.Grid2D(g.x, g.y, f(u[:, None], v[None, :]))
    got = evaluate(ctx, h, x, y, 'bilinear')
    ctx.close(got, f((x - vx[0]) / (vx[-1] - vx[0]), (y - vy[0]) / (vy[-1] - vy[0])), 'bilinear:reproduces a+bx+cy+dxy',
              atol=1e-8 * np.abs(c).sum(), x=x, y=y, vx=vx, vy=vy)


@section(4000, 100000)
def bounds_of_cell(ctx, rng):
    """Positive weights: results within the corner values; outside is NaN."""
    g, vx, vy, z = build(ctx, rng, True, holes=False)
    n = 40
    x, y = grids.gen.chain(rng, [grids.queries(rng, vx, n), grids.queries(rng, vy, n)])
    ctx.case(vx=vx, vy=vy, z=z)
    zf = z.astype('float64')
    lo, hi = np.full(n, np.inf), np.full(n, -np.inf)
    for (i0, i1), (j0, j1) in itertools.product(grids.cells(vx, x), grids.cells(vy, y)):
        for i, j in itertools.product((i0, i1), (j0, j1)):
            lo, hi = np.minimum(lo, zf[i, j]), np.maximum(hi, zf[i, j])
    slack = 1e-9 * np.maximum(np.abs(lo), np.abs(hi))
    for method in grids.METHODS:
        got = evaluate(ctx, g, x, y, method)
        ctx.all((got >= lo - slack) & (got <= hi + slack), f'{method}:corner range', got=got, lo=lo, hi=hi, x=x, y=y)
    sx, sy = np.ptp(vx), np.ptp(vy)
    out = rng.integers(0, 4, n)
    ox = np.where(out == 0, vx.min() - sx * rng.uniform(1e-6, 2, n), np.where(out == 1, vx.max() + sx * rng.uniform(1e-6, 2, n), x))
    oy = np.where(out == 2, vy.min() - sy * rng.uniform(1e-6, 2, n), np.where(out == 3, vy.max() + sy * rng.uniform(1e-6, 2, n), y))
    bad = rng.random(n)
    ox = np.where(bad < .1, np.nan, ox)
    oy = np.where((bad > .1) & (bad < .15), np.inf, oy)
    for method in grids.METHODS:
        ctx.all(np.isnan(evaluate(ctx, g, ox, oy, method)), f'{method}:outside', x=ox, y=oy, vx=vx, vy=vy)


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.interpolation(ctx, rng, 2)
