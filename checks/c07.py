"""C07: interpolate1d equals the textbook interpolant of the window."""
import numpy as np
from pyinterp import core

import gen
from models1d import KINDS, MIN, model
import large
from vt import section

PARTS = ['axis', 'interpolate1d']
NATIVE = ['interp']
RULE = ('A case is one increasing axis (2 to 120 values, regular or irregular), one vector of ordinates (smooth, noisy, '
        'stepped, flat, linear, huge or tiny), one of the 7 models, a half-window of 0 to 40 and about 60 abscissae (knots, '
        'middles, quarter points, ends, outside, NaN). Every result is compared with an independent dense implementation of '
        'the model on the window around the nearest knot. Non-trivial: at least one point was judged.')
ASSUMES = ['when an abscissa is half-way between two knots either window is accepted',
           'Akima slopes whose two weights vanish up to rounding are not judged']

def ordinates(rng, x):
    n = len(x)
    u = (x - x[0]) / (x[-1] - x[0])
    kind = str(rng.choice(['noise', 'smooth', 'step', 'line', 'const', 'spiky', 'flatparts']))
    if kind == 'noise':
        y = rng.standard_normal(n)
    elif kind == 'smooth':
        y = np.cos(u * rng.uniform(1, 20)) + u * u
    elif kind == 'step':
        y = (u > rng.random()).astype(float)
    elif kind == 'line':
        y = 2 - 3 * u
    elif kind == 'const':
        y = np.full(n, rng.standard_normal())
    elif kind == 'spiky':
        y = np.zeros(n)
        y[rng.integers(0, n)] = 1
    else:
        y = np.floor(rng.standard_normal(n) * 2)
    return y * float(rng.choice([1, 1, 1, 1e-6, 1e8])) + float(rng.choice([0, 0, 1000])), kind


def setup(rng, kind=None):
    n = int(rng.choice([2, 3, 4, 5, 6, 8, 12, 30, 120]))
    v, _ = gen.axis_values(rng, n)
    v = np.asarray(v, dtype='float64')
    n = len(v)
    v = np.sort(v)
    axis = core.Axis(v, 1e-12, False)
    x = np.array(axis[:], dtype='float64')
    y, yk = ordinates(rng, x)
    kind = kind or str(rng.choice(KINDS))
    hw = int(rng.choice([1, 2, 3, 3, 4, 6, 10, 40]))
    if kind == 'polynomial':
        hw = min(hw, 4)
    return axis, x, y, yk, kind, hw


def points(rng, x, m=20):
    n = len(x)
    k = rng.integers(0, n - 1, m)
    d = x[k + 1] - x[k]
    q = np.concatenate([
        x[rng.integers(0, n, m // 2)], x[k] + d * rng.random(m), x[k] + d * .5, x[k] + d * 1e-9, x[k + 1] - d * 1e-9,
        x[[0, -1, 0, 1, -2]]
    ])
    return rng.permutation(np.clip(q, x[0], x[-1]))


def windows(x, t, hw):
    d = np.abs(x - t)
    best = d.min()
    slack = 1e-9 * max(np.diff(x).min(), 1e-300) + 1e-13 * np.abs(x).max()
    for i in np.nonzero(d <= best + 2 * slack)[0]:
        yield max(0, i - hw), min(len(x) - 1, i + hw) + 1


@section(3000)
def textbook(ctx, rng):
    axis, x, y, yk, kind, hw = setup(rng)
    n = len(x)
    q = points(rng, x)
    if rng.random() < .5:
        q = np.sort(q)
    ctx.case(x, y, q, kind, hw, kind=kind, n=n, hw=hw, data=yk)
    # the smallest window a point of the axis can get
    if min(hw + 1, n) < MIN[kind] or any(
            b - a < MIN[kind] for t in q for a, b in windows(x, t, hw)):
        if n < MIN[kind] or 2 * hw + 1 < MIN[kind]:
            ctx.raises(ValueError, lambda: core.interpolate1d(axis, y, q, hw, True, kind), f'{kind}:window too small accepted',
                       n=n, hw=hw)
            ctx.count('windows too small')
            return
        # only the middle of the axis has large enough windows
        q = np.array([t for t in q if all(b - a >= MIN[kind] for a, b in windows(x, t, hw))])
    got = core.interpolate1d(axis, y, q, hw, bool(rng.integers(2)), kind)
    ctx.check(got.shape == q.shape, f'{kind}:shape')
    worst = None
    judged = 0
    for k, t in enumerate(q):
        alt = [model(kind, x[a:b], y[a:b], t) for a, b in windows(x, t, hw)]
        if any(a is None for a in alt):
            continue
        judged += 1
        if not any(abs(got[k] - v) <= tol + 1e-300 for v, tol in alt):
            worst = (t, got[k], alt)
            break
    ctx.count('points judged', judged)
    ctx.count('models:' + kind)
    if judged:
        ctx.check(worst is None, f'{kind}:textbook', x=x, y=y, hw=hw, worst=worst)
    # knots
    g = core.interpolate1d(axis, y, x, hw, True, kind) if min(hw + 1, n) >= MIN[kind] else None
    if g is not None:
        gap = float(np.diff(x).max() / np.diff(x).min())
        tol = 1e-9 if kind != 'polynomial' else 1e-12 * gap**3 * 2**(2 * hw)
        ctx.close(g, y, f'{kind}:knots', atol=tol * (np.abs(y).max() + 1e-300), x=x, y=y, hw=hw)
    # each point on its own
    if len(q):
        k = int(rng.integers(0, len(q)))
        one = core.interpolate1d(axis, y, q[k:k + 1], hw, True, kind)
        ctx.close(one, got[k:k + 1], f'{kind}:alone', rtol=1e-12, atol=1e-300)


@section(800)
def reproduction(ctx, rng):
    kind = str(rng.choice(KINDS))
    axis, x, _, _, kind, hw = setup(rng, kind)
    hw = max(hw, 4)
    n = len(x)
    if n < MIN[kind]:
        return
    q = points(rng, x)
    u = (x - x[0]) / (x[-1] - x[0])
    uq = (q - x[0]) / (x[-1] - x[0])
    if kind in ('c_spline_periodic', 'akima_periodic'):
        coef = rng.standard_normal(1)
    elif kind == 'polynomial':
        coef = rng.standard_normal(int(rng.integers(1, min(n, hw + 1) + 1)))
    else:
        coef = rng.standard_normal(2)
    ctx.case(x, coef, q, kind, hw, kind=kind, n=n, hw=hw, degree=len(coef) - 1)
    y = np.polyval(coef, u)
    got = core.interpolate1d(axis, y, q, hw, False, kind)
    gap = float(np.diff(x).max() / np.diff(x).min())
    tol = 1e-8 if kind != 'polynomial' else 1e-10 * gap**3 * 2**(2 * hw)
    if tol < 1e-2:
        ctx.close(got, np.polyval(coef, uq), f'{kind}:reproduces degree {len(coef) - 1}', atol=tol * np.abs(coef).sum(), x=x,
                  hw=hw, q=q)


@section(600)
def steffen(ctx, rng):
    """Never overshoots the two knots around the point."""
    axis, x, y, yk, kind, hw = setup(rng, 'steffen')
    hw = max(2, hw)
    if len(x) < 3:
        return
    q = points(rng, x, 60)
    ctx.case(x, y, q, hw, n=len(x), hw=hw, data=yk)
    got = core.interpolate1d(axis, y, q, hw, True, 'steffen')
    k = np.clip(np.searchsorted(x, q, side='right') - 1, 0, len(x) - 2)
    lo, hi = np.minimum(y[k], y[k + 1]), np.maximum(y[k], y[k + 1])
    tol = 1e-10 * np.abs(y).max()
    ctx.all((got >= lo - tol) & (got <= hi + tol), 'steffen:overshoot', x=x, y=y, q=q, got=got, lo=lo, hi=hi)


@section(800)
def bounds(ctx, rng):
    axis, x, y, yk, kind, hw = setup(rng)
    hw = max(hw, 4)
    n = len(x)
    if n < MIN[kind]:
        return
    inside = points(rng, x, 6)
    span = x[-1] - x[0]
    out = np.array([x[0] - span * 1e-3, x[-1] + span * 1e-3, x[0] - span, x[-1] + 10 * span, np.nan, np.inf, -np.inf])
    out = out[(out < x[0] - 1e-9 * np.abs(x).max()) | (out > x[-1] + 1e-9 * np.abs(x).max()) | ~np.isfinite(out)]
    q = np.concatenate([inside, out])
    p = rng.permutation(len(q))
    ctx.case(x, y, q, kind, hw, kind=kind, n=n, hw=hw)
    q, isout = q[p], (p >= len(inside))
    got = core.interpolate1d(axis, y, q, hw, False, kind)
    ctx.equal(np.isnan(got), isout, f'{kind}:NaN outside the axis', x=x, q=q, result=got)
    ref = core.interpolate1d(axis, y, inside, hw, True, kind)
    ctx.close(got[~isout], ref[p[~isout]], f'{kind}:neighbours of an outside point', rtol=1e-12, atol=1e-300)
    k = int(rng.integers(0, len(out)))
    bad = np.append(inside, out[k])
    ctx.raises((ValueError, IndexError), lambda: core.interpolate1d(axis, y, bad, hw, True, kind), f'{kind}:bounds_error',
               point=out[k])
    ctx.count('outside points', int(isout.sum()))


@section(60)
def rejected(ctx, rng):
    axis, x, y, yk, kind, hw = setup(rng)
    ctx.case(x, y, kind)
    q = x[:1]
    ctx.raises(ValueError, lambda: core.interpolate1d(axis, y, q, 0, True, kind), f'{kind}:half window 0')
    ctx.raises(ValueError, lambda: core.interpolate1d(axis, y, q, -3, True, kind), f'{kind}:negative half window')
    ctx.raises(ValueError, lambda: core.interpolate1d(axis, y[:-1], q, 5, True, kind), 'sizes')
    ctx.raises(ValueError, lambda: core.interpolate1d(axis, np.append(y, 1.), q, 5, True, kind), 'sizes')
    ctx.raises(ValueError, lambda: core.interpolate1d(axis, y, q, 5, True, kind + 'x'), 'kind')
    got = core.interpolate1d(axis, y, np.empty(0), 5, True, kind)
    ctx.check(got.shape == (0, ), 'empty')


def slope(kind, x, y, t):
    """Derivatives of the textbook curve at t (two of them at a knot of a broken line) and their tolerance."""
    if kind == 'polynomial':
        xl = x.astype(np.longdouble)
        total, cond = np.longdouble(0), 0.0
        for i in range(len(x)):
            o = np.delete(xl, i)
            w = np.prod(1 / (xl[i] - o))
            li = w * sum(np.prod(np.longdouble(t) - np.delete(o, j)) for j in range(len(o)))
            total += li * y[i]
            cond += abs(float(li)) * float(np.abs(y).max())
        gap = float(np.diff(x).max() / np.diff(x).min())
        return [float(total)], 1e-12 * cond * gap**min(len(x) - 2, 3) * 2**len(x)
    k = int(np.clip(np.searchsorted(x, t, side='right') - 1, 0, len(x) - 2))
    out, tol = [], 0.0
    for j in {k, k - 1} if t == x[k] and k > 0 and kind == 'linear' else {k}:
        h = x[j + 1] - x[j]
        # the cubic through four values of the curve in the cell
        u = np.array([.07, .36, .64, .93])
        v = [model(kind, x, y, x[j] + h * w) for w in u]
        if any(w is None for w in v):
            return None
        v0 = y[j]
        c = np.linalg.solve(np.vander(u, 4, increasing=True), [w[0] - v0 for w in v])
        w = (t - x[j]) / h
        out.append((c[1] + 2 * c[2] * w + 3 * c[3] * w * w) / h)
        size = (abs(c[1]) + abs(c[2]) + abs(c[3])) / h
        tol = max(tol, 100 * max(w[1] for w in v) / h + (1e-11 + 300 * np.spacing(np.abs(x).max()) / h) * size)
    return out, tol


@section(2500, native='interp')
def whole(ctx, rng):
    """The C++ interpolators on whole vectors: values, derivatives, reuse."""
    import vtn_interp
    kind = str(rng.choice(KINDS))
    f = vtn_interp.OneFloat64(kind)
    ctx.check(f.min_size() == MIN[kind], 'C++: min_size')
    ctx.case(kind, rng.integers(1 << 60), kind=kind)
    for _ in range(3):  # an object serves vectors of any size in turn
        n = int(rng.choice([2, 3, 4, 5, 6, 8, 12, 30]))
        n = min(n, 9) if kind == 'polynomial' else n
        v, _ = gen.axis_values(rng, n)
        x = np.sort(np.asarray(v, dtype='float64'))
        y, _ = ordinates(rng, x)
        q = points(rng, x, 8)
        if n < MIN[kind]:
            ctx.raises(ValueError, lambda: f.all(x, y, q), f'C++ {kind}: too few points')
            ctx.raises(ValueError, lambda: f.derivative_one(x, y, q[0]), f'C++ {kind}: too few points')
            continue
        if rng.random() < .1:
            ctx.raises(ValueError, lambda: f.one(x, y[:-1], q[0]), f'C++ {kind}: sizes')
            ctx.raises(ValueError, lambda: f.derivative_all(x, y[1:], q), f'C++ {kind}: sizes')
        got = f.all(x, y, q)
        der = f.derivative_all(x, y, q)
        ctx.equal([f.one(x, y, t) for t in q], got, f'C++ {kind}: one by one')
        ctx.equal([f.derivative_one(x, y, t) for t in q], der, f'C++ {kind}: derivatives one by one')
        for t, g, d in zip(q, got, der):
            w = model(kind, x, y, t)
            if w is not None:
                ctx.check(abs(g - w[0]) <= w[1] + 1e-300, f'C++ {kind}: value', x=x, y=y, t=t, value=g, expected=w)
            w = slope(kind, x, y, t)
            if w is not None:
                ctx.check(any(abs(d - a) <= w[1] + 1e-300 for a in w[0]), f'C++ {kind}: derivative', x=x, y=y, t=t,
                          value=d, expected=w)
                ctx.count('derivatives:' + kind)
        span = x[-1] - x[0]
        out = np.array([x[0] - span * 1e-3, x[-1] + span * 1e-3, x[0] - span, x[-1] + 9 * span, np.nan, np.inf, -np.inf])
        ctx.all(np.isnan(f.all(x, y, out)), f'C++ {kind}: outside', x=x)
        ctx.all(np.isnan(f.derivative_all(x, y, out)), f'C++ {kind}: derivative outside', x=x)


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c07(ctx, rng)
