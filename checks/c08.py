"""C08: out-of-domain points are flagged, never extrapolated."""
import numpy as np
import pyinterp
from pyinterp import core

import c05
import gen
import grids
from vt import SECTIONS, section

for _name in list(SECTIONS):
    del SECTIONS[_name]
PARTS = ['axis', 'bivariate', 'trivariate', 'quadrivariate', 'bicubic']
RULE = ('A case is one grid (2-D to 4-D, every data type, planar or circular x axis, float or temporal third axis), one '
        'function (bivariate, trivariate, quadrivariate, bicubic with any fitting model) and a batch of points where some '
        'lie beyond one of the axes (next to its ends, far, NaN, infinite, NaT) or touch undefined data; the batch is compared '
        'with each point on its own and with the list of outside points, and the whole batch is repeated with bounds_error. '
        'Non-trivial: at least one point was judged.')
ASSUMES = ['for windowed functions with boundary="undef" a point whose window does not fit is outside of the domain']
FITS = ['bicubic', 'linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'akima', 'akima_periodic', 'steffen']


def build(rng, dims, kind, windowed, holes=True):
    n = [int(rng.integers(8, 12)) if windowed else int(rng.integers(2, 9)) for _ in range(2)]
    circle = bool(rng.random() < .4)
    if circle:
        vx, _ = gen.circle_values(rng, n=max(n[0], 5), order='asc' if windowed else None)
        ax = core.Axis(vx, 1e-6, True)
        circle = ax.is_circle
        if not circle:
            ax = core.Axis(vx, 1e-6, False)
    if not circle:
        vx = np.cumsum(rng.uniform(.5, 2, n[0])) + rng.uniform(-50, 50)
        if not windowed and rng.random() < .4:
            vx = vx[::-1]
        ax = grids.axis(vx)
    vy = np.cumsum(rng.uniform(.5, 2, n[1])) + rng.uniform(-50, 30)
    if rng.random() < .5:
        vy = np.linspace(vy[0], vy[-1], n[1])
    if not windowed and rng.random() < .4:
        vy = vy[::-1]
    axes, dtype = [ax, grids.axis(vy)], None
    vals = [np.array(a[:]) for a in axes]
    if dims > 2:
        az, vz, dtype = c05.z_axis(rng, bool(rng.random() < .5))
        axes.append(az)
        vals.append(np.array(vz))
    if dims > 3:
        v, _ = gen.axis_values(rng, n=int(rng.choice([2, 3, 4])))
        axes.append(grids.axis(v))
        vals.append(np.array(axes[-1][:]))
    z = grids.values(rng, tuple(len(v) for v in vals), kind, holes=holes and rng.random() < .4)
    return grids.grid_class(dims)(*axes, grids.layout(rng, z)), vals, z, dtype, circle


def inside(rng, vals, n, circle, dtype, windowed):
    q = []
    for d, v in enumerate(vals):
        if d == 2 and dtype is not None:
            q.append(c05.z_queries(rng, v, n, True))
            continue
        s = np.sort(v)
        if d == 0 and circle:
            q.append(rng.uniform(-720, 720, n))
        elif d < 2 and windowed:
            q.append(rng.uniform(s[3], s[-4], n))
        else:
            a = rng.uniform(s[0], s[-1], n)
            a[0] = s[0] if rng.random() < .5 else s[-1]
            q.append(a)
    return gen.chain(rng, q)


def outside(rng, vals, d, circle, dtype):
    """A value out of axis d."""
    v = vals[d]
    if d == 2 and dtype is not None:
        lo, hi = int(v.min()), int(v.max())
        return int(rng.choice([lo - 1, hi + 1, lo - (hi - lo), hi + (hi - lo), np.iinfo('int64').min]))
    if d == 0 and circle:
        return float(rng.choice([np.nan, np.inf, -np.inf]))
    s = np.sort(v)
    span = s[-1] - s[0]
    e = max(1e-6 * span, 1e-9 * np.abs(s).max())
    return float(
        rng.choice([
            s[0] - e, s[-1] + e, s[0] - .4 * (s[1] - s[0]), s[-1] + .4 * (s[-1] - s[-2]), s[0] - span, s[-1] + span, 1e9 * span,
            np.nan, np.inf, -np.inf
        ]))


def caller(rng, g, dims, dtype, windowed):
    """(name, function of (points, bounds_error, num_threads))."""
    if windowed:
        fit = str(rng.choice(FITS))
        names = ['z', 'u'][:dims - 2]

        def f(q, bounds_error, num_threads, **kw):
            return pyinterp.bicubic(g, q[0], q[1], **dict(zip(names, q[2:])), nx=3, ny=3, fitting_model=fit,
                                    bounds_error=bounds_error, num_threads=num_threads, **kw)

        return f'bicubic {fit}', f
    method = str(rng.choice(grids.METHODS))
    zm, um = (str(m) for m in rng.choice(['linear', 'nearest'], 2))

    def h(q, bounds_error, num_threads, **kw):
        kw = {'interpolator': method, 'bounds_error': bounds_error, 'num_threads': num_threads, **kw}
        if dims == 2:
            return pyinterp.bivariate(g, *q, **kw)
        if dims == 3:
            return pyinterp.trivariate(g, *q, **{'z_method': zm, **kw})
        return pyinterp.quadrivariate(g, *q, **{'z_method': zm, 'u_method': um, **kw})

    return f'{dims}-D {method} {zm} {um}', h


def typed(g, q, dtype):
    q = list(q)
    if dtype is not None:
        q[2] = g.z.safe_cast(np.asarray(q[2], dtype='int64').view(dtype))
    return q


@section(4000)
def flagged(ctx, rng):
    dims = int(rng.choice([2, 3, 4], p=[.5, .3, .2]))
    windowed = bool(rng.random() < .5)
    kind = str(rng.choice(grids.DTYPES if dims == 2 and not windowed else grids.DTYPES[:2]))
    g, vals, z, dtype, circle = build(rng, dims, kind, windowed)
    n = int(rng.choice([1, 2, 7, 20]))
    q = inside(rng, vals, n, circle, dtype, windowed)
    out = np.zeros(n, dtype=bool)
    for k in range(n):
        if rng.random() < .3:
            for d in rng.permutation(dims)[:int(rng.choice([1, 1, 2]))]:
                q[d][k] = outside(rng, vals, d, circle, dtype)
            out[k] = True
    name, f = caller(rng, g, dims, dtype, windowed)
    ctx.case(z, *vals, *q, name, dims=dims, function=name, circle=circle, n=n, out=int(out.sum()))
    threads = int(rng.choice([0, 1, 1, 2, 5]))
    tq = typed(g, q, dtype)
    got = f(tq, False, threads)
    if not ctx.check(got.shape == (n, ), 'shape'):
        return
    ctx.count('points', n)
    ctx.count('outside', out.sum())
    ctx.all(np.isnan(got) | ~out, f'{name}:outside points are NaN', got=got, q=[list(c) for c in q], vals=[v.tolist() for v in vals])
    alone = np.concatenate([f([c[k:k + 1] for c in tq], False, 1) for k in range(n)])
    ctx.equal(got, alone, f'{name}:each point on its own', threads=threads)
    # points inside, on defined data: defined
    if not np.isnan(z).any() if z.dtype.kind == 'f' else True:
        ctx.equal(np.isnan(got), out, f'{name}:NaN exactly outside', got_=got, q=[list(c) for c in q], circle=circle,
                  vals=[v.tolist() for v in vals])
        ctx.count('on defined data', n)
    if out.any():
        ctx.raises(ValueError, lambda: f(tq, True, threads), f'{name}:bounds_error', q=[list(c) for c in q])
        ctx.count('errors')
        tin = [c[~out] for c in tq]
    else:
        tin = tq
    try:
        again = f(tin, True, threads)
    except ValueError as e:
        ctx.check(False, f'{name}:bounds_error with points inside', str(e), q=[list(c) for c in q], vals=[v.tolist() for v in vals])
        return
    ctx.equal(again, got[~out], f'{name}:bounds_error changes the values')
    ctx.count('no error')


@section(500)
def edge_windows(ctx, rng):
    """Windowed: in the axes, but the window does not fit."""
    dims = int(rng.choice([2, 2, 3]))
    g, vals, z, dtype, circle = build(rng, dims, 'float64', True)
    q = inside(rng, vals, 4, circle, dtype, True)
    d = 1 if circle else int(rng.integers(0, 2))
    v = vals[d]
    e = .1 * (v[1] - v[0])
    q[d][2] = rng.choice([v[0], v[0] + e, v[1] + e, v[-1], v[-2] - e if v[-2] - e > v[-3] else v[-1]])
    name, f = caller(rng, g, dims, dtype, True)
    ctx.case(z, *vals, *q, name, function=name, circle=circle)
    tq = typed(g, q, dtype)
    got = f(tq, False, 1)
    ctx.check(np.isnan(got[2]), f'{name}:window out of the grid', got=got, v=v, q=q[d])
    ctx.raises(ValueError, lambda: f(tq, True, int(rng.integers(0, 3))), f'{name}:bounds_error')
    for boundary in ('expand', 'wrap', 'sym'):
        f(tq, True, 1, boundary=boundary)  # must not raise
        ctx.judgements += 1


@section(300)
def rejected(ctx, rng):
    """Sizes, shapes, names."""
    dims = int(rng.choice([2, 3, 4]))
    windowed = bool(rng.random() < .5)
    g, vals, z, dtype, circle = build(rng, dims, 'float64', windowed, holes=False)
    n = int(rng.integers(2, 6))
    q = inside(rng, vals, n, circle, dtype, windowed)
    name, f = caller(rng, g, dims, dtype, windowed)
    ctx.case(z, *vals, *q, name, function=name)
    tq = typed(g, q, dtype)
    err = (ValueError, TypeError)
    for d in range(dims):
        bad = list(tq)
        bad[d] = bad[d][:-1]
        ctx.raises(err, lambda: f(bad, False, 1), f'{name}:sizes', axis=d)
        bad[d] = np.concatenate([tq[d], tq[d][:1]])
        ctx.raises(err, lambda: f(bad, False, 1), f'{name}:sizes', axis=d)
        bad[d] = tq[d][:0]
        ctx.raises(err, lambda: f(bad, False, 1), f'{name}:sizes', axis=d)
        bad[d] = tq[d][None, :]
        ctx.raises(err, lambda: f(bad, False, 1), f'{name}:ndim', axis=d)
    ctx.raises(err, lambda: f([c[None, :] for c in tq], False, 1), f'{name}:ndim')
    ctx.check(f([c[:0] for c in tq], True, 1).shape == (0, ), f'{name}:empty')
    if windowed:
        ctx.raises(err, lambda: f(tq, False, 1, boundary='mirror'), 'boundary')
        h = [lambda **kw: pyinterp.bicubic(g, *tq[:2], **dict(zip('zu', tq[2:])), num_threads=1, **kw)][0]
        ctx.raises(err, lambda: h(fitting_model='cubic'), 'fitting model')
        for key in ('nx', 'ny'):
            for v in (0, -1):
                ctx.raises((*err, MemoryError), lambda: h(**{key: v}), f'{key}={v}')
        for fit, least in (('akima', 3), ('akima_periodic', 3), ('c_spline', 2), ('polynomial', 2), ('steffen', 2)):
            ctx.raises(err, lambda: h(fitting_model=fit, nx=least - 1, ny=3), f'{fit}:nx too small')
            ctx.raises(err, lambda: h(fitting_model=fit, nx=3, ny=least - 1), f'{fit}:ny too small')
        if dims > 2:
            ctx.raises(err, lambda: pyinterp.bicubic(g, *tq[:2]), 'no z')
    else:
        ctx.raises(err, lambda: f(tq, False, 1, interpolator='cubic'), 'interpolator')
        if dims > 2:
            ctx.raises(err, lambda: f(tq, False, 1, z_method='cubic'), 'z_method')
        if dims > 3:
            ctx.raises(err, lambda: f(tq, False, 1, u_method='cubic'), 'u_method')
        ctx.raises(err, lambda: f(tq, False, 1, interpolator='bilinear', p=3), 'p with bilinear')
