"""C06: windowed interpolation equals its separable definition."""
import itertools

import numpy as np
import pyinterp
from pyinterp import core

import c05
import gen
import grids
import models1d
import large
from vt import SECTIONS, section

for _name in list(SECTIONS):  # those of the modules imported above
    del SECTIONS[_name]
PARTS = ['axis', 'bicubic', 'bivariate']
NATIVE = ['interp']
RULE = ('A case is one 2-D, 3-D or 4-D grid (float64 or float32, planar or circular x axis, float or temporal third axis, '
        'any layout, with or without undefined values), a fitting model, a half-window and about 12 points (nodes, middles, '
        'inside); every value is compared with an independent dense fit of the window around the point. Non-trivial: at least '
        'one point was judged.')
ASSUMES = ['x and y axes increase (the functions reject the others)', 'the window holds at most one turn of a circular axis',
           'a point within rounding of a node may use the window of either cell']
MODELS = ['bicubic'] + models1d.KINDS
NEED = dict(models1d.MIN, bicubic=4)


def xy_axes(rng, need):
    n = [max(2 * need + int(rng.integers(0, 6)), 2) for _ in range(2)]
    circle = bool(rng.random() < .35)
    if circle:
        k = max(n[0], 4)
        if rng.random() < .5:
            k = int(rng.choice([m for m in (6, 8, 10, 12, 18, 36) if m >= k]))
            vx = np.arange(k) * (360 / k) + float(rng.choice([0, -180, 5, 0.1, 170.3]))
        else:
            vx, _ = gen.circle_values(rng, n=max(k, 5), kind='irregular', order='asc')
        ax = core.Axis(vx, 1e-6, True)
        if not ax.is_circle:
            circle = False
            ax = core.Axis(vx, 1e-9, False)
    else:
        gaps = rng.uniform(.6, 1.6, n[0]) if rng.random() < .6 else np.ones(n[0])
        vx = np.cumsum(gaps) * float(10.0**rng.uniform(-2, 3)) + float(rng.choice([0, 100, -50]))
        # degrees that do not go round
        ax = core.Axis(vx, 1e-9, bool(np.ptp(vx) < 90 and abs(vx).max() < 150 and rng.random() < .5))
    gaps = rng.uniform(.6, 1.6, n[1]) if rng.random() < .6 else np.ones(n[1])
    vy = np.cumsum(gaps) * float(10.0**rng.uniform(-2, 1)) + float(rng.choice([0, 10, -40]))
    ay = core.Axis(vy, 1e-9, False)
    return ax, ay, circle


def data(rng, vals, holes):
    """Smooth + noise."""
    shape = tuple(len(v) for v in vals)
    z = np.zeros(shape)
    for d, v in enumerate(vals):
        u = np.linspace(0, rng.uniform(1, 9), len(v)).reshape([-1 if k == d else 1 for k in range(len(vals))])
        z = z + np.cos(u + d)
    z = z + rng.normal(size=shape) * float(rng.choice([0, .1, 1]))
    z *= float(10.0**rng.uniform(-3, 3))
    if holes:
        z[rng.random(shape) < .03] = rng.choice([np.nan, np.nan, np.nan])
    return z


def frame(boundary, k, n, ln, circle):
    """Indices of the window of 2 n elements around the cell (k, k + 1)."""
    idx = np.arange(k - n + 1, k + n + 1)
    if circle or boundary == 'wrap':
        return idx % ln
    if boundary == 'expand':
        return np.clip(idx, 0, ln - 1)
    idx = idx % (2 * (ln - 1))
    return np.where(idx < ln, idx, 2 * (ln - 1) - idx)


def extended(v, k, n, boundary):
    """Coordinates of this window where it leaves the axis."""
    ln = len(v)
    gap = np.diff(v)

    def step(a):
        """Between the elements a and a + 1 of the unlimited axis."""
        if boundary == 'sym':
            a %= 2 * (ln - 1)
            return gap[a if a < ln - 1 else 2 * (ln - 1) - a - 1]
        if boundary == 'expand' or a % ln == ln - 1:
            return gap[min(max(a, 0), ln - 2)]
        return gap[a % ln]

    out = [v[k], v[k + 1]]
    for a in range(k + 1, k + n):
        out.append(v[a + 1] if a + 1 < ln else out[-1] + step(a))
    for a in range(k - 1, k - n, -1):
        out.insert(0, v[a] if a >= 0 else out[0] - step(a))
    return np.array(out)


def windows(v, t, n, circle, boundary='undef'):
    """[(indices, coordinates of the window, t in their turn)], None when it does not fit; the alternatives of a point on a
    node."""
    ln = len(v)
    if circle:
        t = (t - v[0]) % 360 + v[0]
        ext = np.concatenate([v, [v[0] + 360]])
    else:
        ext = v
    k = int(np.clip(np.searchsorted(ext, t, side='right') - 1, 0, len(ext) - 2))
    gap = np.diff(ext)
    eps = 1e-9 * gap.min() + 1e-12 * np.abs(ext).max()
    ks = {k}
    if abs(t - ext[k]) < eps:
        ks.add(k - 1)
    if abs(t - ext[k + 1]) < eps:
        ks.add(k + 1)
    out = []
    for k in ks:
        if circle:
            idx = np.arange(k - n + 1, k + n + 1)
            turn = np.floor_divide(idx, ln)
            out.append((idx % ln, v[idx % ln] + 360 * turn, t))
        else:
            if not 0 <= k < ln - 1:
                continue
            idx = np.arange(k - n + 1, k + n + 1)
            fits = idx[0] >= 0 and idx[-1] < ln
            if fits or boundary == 'undef':
                out.append((idx, v[idx], min(max(t, v[k]), v[k + 1])) if fits else None)
            else:
                out.append((frame(boundary, k, n, ln, False), extended(v, k, n, boundary), min(max(t, v[k]), v[k + 1])))
    return out


def draw(rng, v, n, circle, edge):
    """Mostly points whose window fits."""
    ln = len(v)
    m = 12
    ext = np.append(v, v[0] + 360) if circle else v
    lo, hi = (0, len(ext) - 1) if circle or edge else (n - 1, ln - n)
    k = rng.integers(lo, hi, m) if hi > lo else np.full(m, lo)
    k = np.minimum(k, len(ext) - 2)
    f = np.where(rng.random(m) < .25, rng.choice([0., 1., .5], m), rng.random(m))
    q = ext[k] + f * (ext[k + 1] - ext[k])
    q[f == 1] = ext[k + 1][f == 1]
    if circle:
        q = q + 360.0 * rng.integers(-2, 3, m)
    return q


def expected(kind, vals, z, pt, nx, ny, circle, boundary):
    """[(value, tolerance)] alternatives; value NaN where undefined; None: not judged."""
    alt = []
    rest = []
    for d in range(2, len(vals)):
        v = vals[d]
        asc = v[0] < v[-1]
        s = v if asc else v[::-1]
        t = pt[d]
        i = int(np.clip(np.searchsorted(s, t, side='right') - 1, 0, len(s) - 2))
        cand = [(i, i + 1)]
        if t == s[i] and i:
            cand.append((i - 1, i))
        opts = []
        for a, b in cand:
            w = float(t - s[a]) / float(s[b] - s[a])
            if not asc:
                a, b = len(v) - 1 - a, len(v) - 1 - b
            opts.append(((a, 1 - w), (b, w)))
        rest.append(opts)
    for wx, wy in itertools.product(windows(vals[0], pt[0], nx, circle, boundary), windows(vals[1], pt[1], ny, False, boundary)):
        if wx is None or wy is None:
            alt.append((np.nan, 0.))
            continue
        ix, cx, tx = wx
        iy, cy, ty = wy
        for combo in itertools.product(*rest):
            total, tol, used, other = 0., 0., False, False
            for corner in itertools.product(*combo):
                sl = z[np.ix_(ix, iy)] if not corner else z[(ix[:, None], iy[None, :]) + tuple(c[0] for c in corner)]
                w = float(np.prod([c[1] for c in corner])) if corner else 1.
                if np.isnan(sl).any():
                    used |= w != 0
                    other = True
                    continue
                if w == 0:
                    continue
                r = models1d.surface(kind, cx, cy, sl.astype('float64'), tx, ty)
                if r is None:
                    return None
                total += w * r[0]
                tol += r[1]
            if other:
                alt.append((np.nan, 0.))
            if not used:
                alt.append((total, tol))
    return alt


def build(ctx, rng, dims, kind, holes):
    need = (NEED[kind] + 1) // 2
    nx, ny = (need + int(rng.integers(0, 3)) for _ in range(2))
    ax, ay, circle = xy_axes(rng, max(nx, ny))
    if circle and 2 * nx > len(ax):
        nx = len(ax) // 2
    axes, dtype = [ax, ay], None
    vals = [np.array(ax[:]), np.array(ay[:])]
    if dims > 2:
        az, vz, dtype = c05.z_axis(rng, bool(rng.random() < .5))
        axes.append(az)
        vals.append(np.array(vz))
    if dims > 3:
        v, _ = gen.axis_values(rng, n=int(rng.choice([2, 3])))
        axes.append(grids.axis(v))
        vals.append(np.array(axes[-1][:]))
    z = data(rng, vals, holes).astype(str(rng.choice(['float64', 'float32'])))
    g = grids.grid_class(dims)(*axes, grids.layout(rng, z))
    ctx.count(f'{dims}-D {kind}{" circle" if circle else ""}')
    return g, vals, z, dtype, nx, ny, circle


def evaluate(g, q, dtype, **kw):
    q = list(q)
    if dtype is not None:
        q[2] = g.z.safe_cast(q[2].view(dtype))
    names = dict(zip(['z', 'u'], q[2:]))
    return pyinterp.bicubic(g, q[0], q[1], **names, num_threads=1, **kw)


def points(rng, vals, dtype, nx, ny, circle, edge=False):
    q = [draw(rng, vals[0], nx, circle, edge), draw(rng, vals[1], ny, False, edge)]
    if len(vals) > 2:
        q.append(c05.z_queries(rng, vals[2], 12, dtype is not None))
    if len(vals) > 3:
        q.append(grids.queries(rng, vals[3], 12))
    return gen.chain(rng, q)


def run(ctx, rng, dims, holes, edge=False):
    kind = str(rng.choice(MODELS))
    g, vals, z, dtype, nx, ny, circle = build(ctx, rng, dims, kind, holes)
    q = points(rng, vals, dtype, nx, ny, circle, edge)
    boundary = str(rng.choice(['undef', 'expand', 'wrap', 'sym']))
    ctx.case(z, *vals, *q, nx, ny, kind, dims=dims, model=kind, nx=nx, ny=ny, circle=circle, boundary=boundary,
             shape=list(z.shape))
    got = evaluate(g, q, dtype, nx=nx, ny=ny, fitting_model=kind, boundary=boundary)
    if not ctx.check(got.shape == q[0].shape, 'shape'):
        return
    bad = None
    for k in range(len(got)):
        alt = expected(kind, vals, z, [c[k] for c in q], nx, ny, circle, boundary)
        if alt is None:
            continue
        ctx.count('points judged')
        if np.isnan(got[k]):
            ctx.count('undefined')
            ok = any(a[0] != a[0] for a in alt)
        else:
            ok = any(abs(got[k] - v) <= tol + 1e-300 for v, tol in alt)
        if not ok:
            bad = ([c[k] for c in q], float(got[k]), alt[:4])
            break
    ctx.check(bad is None, f'{kind}:{dims}-D definition', bad=bad, nx=nx, ny=ny, circle=circle, boundary=boundary, x=vals[0],
              y=vals[1], z=z)


@section(1300, 60000)
def two(ctx, rng):
    run(ctx, rng, 2, rng.random() < .25)


@section(400, 20000)
def three(ctx, rng):
    run(ctx, rng, 3, rng.random() < .25)


@section(200, 8000)
def four(ctx, rng):
    run(ctx, rng, 4, rng.random() < .25)


@section(400, 10000)
def edges(ctx, rng):
    """Near the edges: NaN where the window does not fit (undef), otherwise its extension."""
    run(ctx, rng, int(rng.choice([2, 2, 3])), False, edge=True)


@section(500, 20000)
def reproduction(ctx, rng):
    """Constants, planes and nodes, without any model of the fit."""
    kind = str(rng.choice(MODELS))
    g, vals, z, dtype, nx, ny, circle = build(ctx, rng, 2, kind, False)
    q = points(rng, vals, dtype, nx, ny, circle)
    boundary = str(rng.choice(['undef', 'expand', 'wrap', 'sym']))
    c = rng.standard_normal(3)
    if circle:
        c[1] = 0
    if kind.endswith('periodic'):
        c[1:] = 0
    x, y = vals
    u, v = (x - x[0]) / (x[-1] - x[0]), (y - y[0]) / (y[-1] - y[0])
    flat = c[0] + c[1] * u[:, None] + c[2] * v[None, :]
    ctx.case(z, x, y, *q, kind, model=kind, nx=nx, ny=ny, circle=circle, boundary=boundary)
    g2 = pyinterp.Grid2D(g.x, g.y, flat)
    want = c[0] + c[1] * (q[0] - x[0]) / (x[-1] - x[0]) + c[2] * (q[1] - y[0]) / (y[-1] - y[0])
    fits = np.array([all(w is not None for w in windows(x, a, nx, circle) + windows(y, b, ny, False)) for a, b in zip(*q)])
    got = evaluate(g2, q, None, nx=nx, ny=ny, fitting_model=kind, boundary=boundary)
    ctx.close(got[fits], want[fits], f'{kind}:plane', atol=1e-6 * np.abs(c).sum(), nx=nx, ny=ny, boundary=boundary, circle=circle)
    # nodes whose windows fit
    i = rng.integers(0, len(x), 20) if circle else rng.integers(nx, max(nx + 1, len(x) - nx), 20)
    j = rng.integers(ny, max(ny + 1, len(y) - ny), 20)
    i, j = np.minimum(i, len(x) - 1), np.minimum(j, len(y) - 1)
    ok = np.array([all(w is not None for w in windows(x, a, nx, circle) + windows(y, b, ny, False)) for a, b in zip(x[i], y[j])])
    turn = 360.0 * rng.integers(-2, 3, 20) if circle else 0.
    got = evaluate(g, [x[i] + turn, y[j]], None, nx=nx, ny=ny, fitting_model=kind, boundary=boundary)
    ctx.close(got[ok], z[i, j][ok].astype('float64'), f'{kind}:nodes', atol=1e-6 * np.abs(z).max(), nx=nx, ny=ny, circle=circle)
    ctx.count('nodes', ok.sum())
    # all boundary options agree where the window fits
    ref = evaluate(g, q, None, nx=nx, ny=ny, fitting_model=kind, boundary='undef')
    got = evaluate(g, q, None, nx=nx, ny=ny, fitting_model=kind, boundary=boundary)
    ctx.equal(got[fits], ref[fits], f'{kind}:boundary away from the edges', boundary=boundary)


@section(300, 10000)
def local(ctx, rng):
    """Only the window matters; bounds_error is raised when it does not fit."""
    kind = str(rng.choice(MODELS))
    g, vals, z, dtype, nx, ny, circle = build(ctx, rng, 2, kind, False)
    q = points(rng, vals, dtype, nx, ny, circle)
    x, y = vals
    fits = [all(w is not None for w in windows(x, a, nx, circle) + windows(y, b, ny, False)) for a, b in zip(*q)]
    ks = [k for k, f in enumerate(fits) if f]
    ctx.case(z, x, y, *q, kind, model=kind, nx=nx, ny=ny, circle=circle)
    kw = dict(nx=nx, ny=ny, fitting_model=kind)
    if ks:
        k = ks[0]
        one = [c[k:k + 1] for c in q]
        want = evaluate(g, one, None, **kw)
        dirty = np.full(z.shape, rng.choice([np.nan, 1e30, np.inf]), dtype=z.dtype)
        for a in windows(x, one[0][0], nx, circle):
            for b in windows(y, one[1][0], ny, False):
                dirty[np.ix_(a[0], b[0])] = z[np.ix_(a[0], b[0])]
        got = evaluate(pyinterp.Grid2D(g.x, g.y, dirty), one, None, **kw)
        ctx.equal(got, want, f'{kind}:values outside the window', nx=nx, ny=ny)
        got = evaluate(g, [c[ks] for c in q], None, bounds_error=True, **kw)
        ctx.check(not np.isnan(got).any() or not np.isfinite(z).all(), f'{kind}:bounds_error with points inside')
    d = int(rng.integers(1 if circle else 0, 2))
    out = [c.copy() for c in q]
    beyond = str(rng.choice(['undef', 'expand', 'wrap', 'sym']))
    span = vals[d][-1] - vals[d][0]
    out[d][3] = rng.choice([vals[d][0] - span * .01, vals[d][-1] + .01 * span, vals[d][-1] + 5 * span, np.nan])
    ctx.raises(ValueError, lambda: evaluate(g, out, None, bounds_error=True, boundary=beyond, **kw), f'{kind}:bounds_error', point=out[d][3])
    got = evaluate(g, out, None, boundary=beyond, **kw)
    ctx.check(np.isnan(got[3]), f'{kind}:outside', axis=d, point=out[d][3], got=got[3], v=vals[d], circle=circle, isregular=g.x.is_regular())


@section(260, 6000)
def beyond(ctx, rng):
    """The elements the boundary option puts in the window, and no other: those whose absence makes the result undefined."""
    kind = str(rng.choice(MODELS + ['linear', 'linear', 'steffen', 'akima']))
    shape = rng.integers(4, 9, 2)
    shape[int(rng.integers(0, 2))] += int(rng.choice([0, 0, 0, 8]))
    circle = bool(rng.random() < .2)
    if circle:
        shape[0] = rng.choice([6, 8, 9])
        ax = core.Axis(np.arange(shape[0]) * (360 / shape[0]), 1e-6, True)
    else:
        ax = core.Axis(np.cumsum(rng.uniform(.6, 1.6, shape[0])), 1e-9, False)
    ay = core.Axis(np.cumsum(rng.uniform(.6, 1.6, shape[1])), 1e-9, False)
    vals = [np.array(ax[:]), np.array(ay[:])]
    z = rng.normal(size=shape)
    nx, ny = rng.integers((NEED[kind] + 1) // 2, 2 * shape.max() + 3, 2)
    if rng.random() < .5:
        nx, ny = np.minimum([nx, ny], 5)
    if circle:
        nx = min(nx, shape[0] // 2)
    boundary = str(rng.choice(['expand', 'wrap', 'sym']))
    m = 24
    ks = np.stack([rng.integers(0, shape[0] - 1 + circle, m), rng.integers(0, shape[1] - 1, m)])
    ext = np.append(vals[0], 360.) if circle else vals[0]
    f = rng.uniform(.05, .95, (2, m))
    q = [e[k] + t * (e[k + 1] - e[k]) for e, k, t in zip((ext, vals[1]), ks, f)]
    ctx.case(z, *vals, *q, nx, ny, kind, model=kind, nx=int(nx), ny=int(ny), boundary=boundary, shape=shape.tolist(), circle=circle)
    kw = dict(nx=int(nx), ny=int(ny), fitting_model=kind, boundary=boundary)
    base = evaluate(pyinterp.Grid2D(ax, ay, z), q, None, **kw)
    seen = np.zeros((m, *shape), dtype=bool)
    for c in np.ndindex(*shape):
        hole = z.copy()
        hole[c] = np.nan
        seen[(slice(None), ) + c] = np.isnan(evaluate(pyinterp.Grid2D(ax, ay, hole), q, None, **kw))
    want = np.zeros_like(seen)
    for p in range(m):
        want[p][np.ix_(frame(boundary, ks[0, p], nx, shape[0], circle), frame(boundary, ks[1, p], ny, shape[1], False))] = True
    judged = ~np.isnan(base)
    ctx.count(f'windows judged {boundary}', judged.sum())
    good = (seen == want).all(axis=(1, 2))
    bad = np.flatnonzero(judged & ~good)
    if ctx.check(not bad.size, f'{boundary}:elements of the window', **({} if not bad.size else dict(
            point=[float(c[bad[0]]) for c in q], seen=np.argwhere(seen[bad[0]]), expected=np.argwhere(want[bad[0]])[:20], nx=int(nx), ny=int(ny),
            model=kind, x=vals[0], y=vals[1], circle=circle))):
        # nothing but the values of the window matters, undefined or not
        undefined = base != base
        ctx.check(not undefined.any(), f'{boundary}:value of every point inside', model=kind, nx=int(nx), ny=int(ny), circle=circle, x=vals[0], y=vals[1])


@section(1500, 30000, native='interp')
def surface(ctx, rng):
    """The C++ interpolators of a whole table, one object for several tables."""
    import vtn_interp
    kind = str(rng.choice(['bilinear', 'bicubic']))
    f = vtn_interp.TwoFloat64(kind)
    least = 4 if kind == 'bicubic' else 2
    ctx.case(kind, rng.integers(1 << 60), kind=kind)
    for _ in range(2):
        nx, ny = (int(rng.choice([2, 3, 4, 5, 9, 16])) for _ in range(2))
        x, y = (np.cumsum(rng.uniform(.6, 1.6, m) if rng.random() < .7 else np.ones(m)) * float(10.0**rng.uniform(-2, 2)) +
                float(rng.choice([0, 0, 10, -300])) for m in (nx, ny))
        z = data(rng, [x, y], False)
        u, v = (np.concatenate([rng.uniform(a[0], a[-1], 6), rng.choice(a, 4), (a[:1] + a[1:2]) / 2, a[-1:]]) for a in (x, y))
        v = rng.permutation(v)
        if min(nx, ny) < least:
            ctx.raises(ValueError, lambda: f.all(x, y, z, u, v), 'C++: too few values')
            continue
        if rng.random() < .1:
            ctx.raises(ValueError, lambda: f.all(x[1:], y, z, u, v), 'C++: sizes')
            ctx.raises(ValueError, lambda: f.one(x, y[1:], z, u[0], v[0]), 'C++: sizes')
        got = f.all(x, y, z, u, v)
        ctx.equal([f.one(x, y, z, a, b) for a, b in zip(u, v)], got, f'C++ {kind}: one by one')
        for a, b, g in zip(u, v, got):
            if kind == 'bicubic':
                w = models1d.bicubic(x, y, z, a, b)
            else:
                i = int(np.clip(np.searchsorted(x, a, side='right') - 1, 0, nx - 2))
                j = int(np.clip(np.searchsorted(y, b, side='right') - 1, 0, ny - 2))
                p, q = (a - x[i]) / (x[i + 1] - x[i]), (b - y[j]) / (y[j + 1] - y[j])
                w = np.array([1 - p, p]) @ z[i:i + 2, j:j + 2] @ np.array([1 - q, q]), 1e-10 * np.abs(z).max()
            ctx.check(abs(g - w[0]) <= w[1] + 1e-300, f'C++ {kind}: value', x=x, y=y, z=z, u=a, v=b, value=g, expected=w)
        dx, dy = np.ptp(x), np.ptp(y)
        out = [(x[0] - dx, y[0]), (x[-1] + dx * .01, y[0]), (x[0], y[0] - dy * .01), (x[-1], y[-1] + dy), (np.nan, y[0]), (x[0], np.nan)]
        ctx.all(np.isnan(f.all(x, y, z, *np.array(out).T.copy())), f'C++ {kind}: outside', x=x, y=y)


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.interpolation(ctx, rng, 2 + ctx.index % 3, True)
