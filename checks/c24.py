"""C24: loess and Gauss-Seidel filling against their definitions."""
import itertools

import numpy as np
import pyinterp
from pyinterp import core, fill

import gen
import grids
import vt
from vt import section

PARTS = ['fill']
RULE = ('A case is one random grid with holes, filled by fill.loess or fill.gauss_seidel; each cell is compared with the definition of '
        'the filter (weighted mean of the window, or solution of the Laplace equation). Non-trivial: at least one cell was judged.')
ASSUMES = ['the distance of the LOESS weights is in units of the axes divided by the half windows, as the documentation of nx and ny '
           'and the code define it', 'outside of the grid, the window reads the symmetrical cells (or wraps on longitudes)',
           'cells all of whose weights are below 1e-30 are not judged']


def frame(i, n, size, wrap):
    """The indexes of the window around i."""
    w = np.arange(i - n, i + n + 1)
    if size == 1:
        return np.zeros_like(w)
    if wrap:
        return w % size
    period = 2 * (size - 1)
    w = w % period
    return np.where(w >= size, period - w, w)


def tricube(xv, yv, nx, ny, angle, i, j):
    fx, fy = frame(i, nx, len(xv), angle), frame(j, ny, len(yv), False)
    dx = xv[fx] - xv[i]
    if angle:
        dx = (dx + 180) % 360 - 180
    dy = yv[fy] - yv[j]
    d = np.hypot(dx[:, None] / nx, dy[None, :] / ny)
    w = np.where(d <= 1, (1 - np.minimum(d, 1)**3)**3, 0)
    return fx, fy, w, np.abs(w) * 1e-9 + 1e-14, d < 1 + 1e-9


def loess_plane(z, xv, yv, nx, ny, angle, value_type, eps):
    """Expected plane, tolerance."""
    want, tol = z.copy(), np.zeros(z.shape)
    for i, j in itertools.product(range(z.shape[0]), range(z.shape[1])):
        undef = np.isnan(z[i, j])
        if value_type != 'all' and undef != (value_type == 'undefined'):
            continue
        fx, fy, w, dw, inside = tricube(xv, yv, nx, ny, angle, i, j)
        v = z[np.ix_(fx, fy)]
        ok = ~np.isnan(v) & inside
        w, dw, v = w[ok], dw[ok], v[ok]
        if not len(v):
            continue
        if w.max() < 1e-8:
            tol[i, j] = np.inf
            continue
        want[i, j] = (w * v).sum() / w.sum()
        top = np.abs(v).max()
        tol[i, j] = top * (8 * eps * (len(v) + 4) + 2 * dw.sum() / w.sum())
    return want, tol


def holes(rng, shape):
    k = rng.integers(0, 7)
    m = np.zeros(shape, dtype=bool)
    if k == 0:
        m = rng.random(shape) < rng.choice([.05, .3, .7, .95])
    elif k == 1:
        i, j = (int(rng.integers(0, s)) for s in shape[:2])
        m[i:i + int(rng.integers(1, 6)), j:j + int(rng.integers(1, 6))] = True
    elif k == 2:
        m[0], m[-1], m[:, 0], m[:, -1] = rng.random(4)[:, None].reshape(4) < .6
    elif k == 3:
        m[:] = True
        i, j = (int(rng.integers(0, s)) for s in shape[:2])
        m[i, j] = False
    elif k == 4:
        m[int(rng.integers(0, shape[0]))] = True
        m[:, int(rng.integers(0, shape[1]))] = True
    elif k == 5:
        if rng.random() < .3:
            m[:] = True
    else:
        m[:] = rng.random(shape) < .2
    return m


def mesh(rng, ndim, step=None):
    """Axes (x, y, others), and whether x is an angle."""
    angle = rng.random() < .6
    nx = int(rng.integers(1, 14)) if rng.random() < .9 else 40
    ny = int(rng.integers(1, 12))
    if angle:
        if rng.random() < .6:
            nx = max(nx, 3)
            x = (np.arange(nx) * (360 / nx) + rng.uniform(-360, 360))
            if rng.random() < .5:
                x = rng.uniform(-180, 180) + np.sort(rng.choice(np.arange(0, 360, .5), nx, replace=False))
        else:
            x = rng.uniform(-180, 180) + np.cumsum(rng.uniform(.1, 4, nx))
    else:
        x = np.cumsum(rng.uniform(.1, 3, nx)) + rng.uniform(-200, 200)
        if rng.random() < .5:
            x = np.linspace(x[0], x[-1], nx)
    y = np.cumsum(rng.uniform(.1, 3, ny)) + rng.uniform(-60, 30)
    if rng.random() < .4:
        x = x[::-1].copy()
    if rng.random() < .4:
        y = y[::-1].copy()
    ax, ay = core.Axis(x, is_circle=angle), core.Axis(y)
    others = []
    for k in range(ndim - 2):
        n = int(rng.integers(1, 4))
        if k == 0 and rng.random() < .4:
            others.append(core.TemporalAxis(np.datetime64('2001-01-01') + np.cumsum(rng.integers(1, 9, n)).astype('m8[D]')))
        else:
            others.append(core.Axis(np.cumsum(rng.uniform(.1, 3, n))))
    return ax, ay, others, angle


def data(rng, shape, dtype):
    z = rng.normal(size=shape) * 10.0**rng.integers(-2, 4) + rng.choice([0, 0, 100, -1e4])
    if rng.random() < .2:
        z[:] = rng.uniform(-5, 5)
    z[holes(rng, shape)] = np.nan
    return z.astype(dtype)


@section(220)
def loess(ctx, rng):
    ndim = int(rng.choice([2, 2, 3, 3, 4]))
    ax, ay, others, angle = mesh(rng, ndim)
    dtype = ['float64', 'float32'][int(rng.random() < .35)]
    shape = (len(ax), len(ay)) + tuple(len(a) for a in others)
    z = data(rng, shape, dtype)
    keep = z.copy()
    cls = {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}[ndim]
    z = grids.layout(rng, z)
    g = cls(ax, ay, *others, z)
    xv, yv = ax[:], ay[:]
    # windows that overlap several nodes
    step = max(np.median(np.abs(np.diff(xv))) if len(xv) > 1 else 1, np.median(np.abs(np.diff(yv))) if len(yv) > 1 else 1)
    top = 6 if rng.random() < .8 else 25
    nx, ny = (int(np.clip(rng.integers(1, top) * (step if rng.random() < .4 else 1), 1, 60)) for _ in range(2))
    vtype = [None, 'undefined', 'defined', 'all'][int(rng.integers(0, 4))]
    nt = int(rng.choice([0, 1, 2, 3, 7]))
    ctx.case('loess', ndim, dtype, shape, angle, nx, ny, str(vtype), nt, float(np.nansum(keep)))
    got = fill.loess(g, nx, ny, value_type=vtype, num_threads=nt)
    w = dict(x=xv, y=yv, z=keep, nx=nx, ny=ny, angle=angle, value_type=vtype, threads=nt)
    if not ctx.check(got.shape == shape and got.dtype == keep.dtype, 'shape', 'shape or type of the result', got=str(got.shape), **w):
        return
    ctx.check(np.array_equal(np.asarray(g.array), keep, equal_nan=True), 'input', 'the grid was modified', **w)
    eps = float(np.finfo(dtype).eps)
    for idx in np.ndindex(*shape[2:]):
        s = (slice(None), slice(None)) + idx
        want, tol = loess_plane(keep[s].astype('f8'), xv, yv, nx, ny, angle, vtype or 'undefined', eps)
        judged = np.isfinite(tol)
        ctx.count('cells', int(judged.sum()))
        ctx.count('filled', int((judged & (tol > 0)).sum()))
        ctx.close(got[s][judged].astype('f8'), want[judged], 'loess', tol[judged], 0, 'loess cell', **w)
    if ndim == 2 and rng.random() < .3:
        # the same for every number of threads
        other = fill.loess(g, nx, ny, value_type=vtype, num_threads=int(rng.choice([0, 1, 2, 5, 16])))
        ctx.equal(other, got, 'threads', 'loess with another number of threads', **w)


def neighbours(shape, circle):
    """Index arrays of the four neighbours of the cells."""
    nx, ny = shape
    i, j = np.indices(shape)

    def edge(k, n):
        k = np.where(k < 0, min(1, n - 1), k)
        return np.where(k >= n, max(n - 2, 0), k)

    i0, i1 = ((i - 1) % nx, (i + 1) % nx) if circle else (edge(i - 1, nx), edge(i + 1, nx))
    return [(i0, j), (i1, j), (i, edge(j - 1, ny)), (i, edge(j + 1, ny))]


def laplace(z, circle):
    """The solution of the system, and the norm of the inverse of its matrix."""
    mask = np.isnan(z)
    ids = np.full(z.shape, -1)
    ids[mask] = np.arange(mask.sum())
    n = int(mask.sum())
    a, b = np.eye(n), np.zeros(n)
    for ni, nj in neighbours(z.shape, circle):
        k, v = ids[ni, nj][mask], z[ni, nj][mask]
        hole = k >= 0
        np.subtract.at(a, (np.arange(n)[hole], k[hole]), .25)
        b[~hole] += .25 * v[~hole]
    inv = np.linalg.inv(a)
    out = z.copy()
    out[mask] = inv @ b
    return out, np.abs(inv).sum(axis=1).max(), mask


def averages(z, circle):
    return sum(z[i, j] for i, j in neighbours(z.shape, circle)) / 4


@section(260)
def gauss_seidel(ctx, rng):
    ndim = int(rng.choice([2, 2, 2, 3]))
    ax, ay, others, angle = mesh(rng, ndim)
    dtype = ['float64', 'float32'][int(rng.random() < .35)]
    shape = (len(ax), len(ay)) + tuple(len(a) for a in others)
    z = data(rng, shape, dtype)
    if ndim == 3 and rng.random() < .6:
        # a plane that needs no iteration
        z[:, :, int(rng.choice([0, -1]))] = rng.normal(0, 1, shape[:2])
    keep = z.copy()
    z = grids.layout(rng, z)
    g = (pyinterp.Grid2D if ndim == 2 else pyinterp.Grid3D)(ax, ay, *others, z)
    circle = ax.is_circle
    guess = ['zero', 'zonal_average'][int(rng.integers(0, 2))]
    scale = max(float(np.nanmax(np.abs(keep), initial=0)), 1e-3)
    eps = float(np.finfo(dtype).eps)
    epsilon = scale * float(rng.choice([1e-4, 1e-6, 1e-10] if dtype == 'float64' else [1e-3, 1e-4]))
    relax = None if rng.random() < .3 and min(shape[:2]) > 1 else float(rng.choice([.5, .9, 1, 1.2, 1.5, 1.8]))
    iters = int(rng.choice([20, 20000, 20000, 20000] if ndim == 2 else [3, 20, 20000]))
    nt = int(rng.choice([0, 1, 2, 3, 5, 16]))
    ctx.case('gs', ndim, dtype, shape, circle, guess, epsilon, str(relax), nt, float(np.nansum(keep)))
    kw = dict(first_guess=guess, max_iteration=iters, epsilon=epsilon, relaxation=relax)
    ok, got = fill.gauss_seidel(g, num_threads=nt, **kw)
    w = dict(x=ax[:], y=ay[:], z=keep, circle=circle, threads=nt, **kw)
    if not ctx.check(got.shape == shape and got.dtype == keep.dtype, 'shape', 'shape or type of the result', shape=str(got.shape), **w):
        return
    ctx.check(np.array_equal(np.asarray(g.array), keep, equal_nan=True), 'input', 'the grid was modified', **w)
    known = ~np.isnan(keep)
    ctx.equal(got[known], keep[known], 'known', 'known cells', **w)
    ctx.all(np.isfinite(got), 'finite', 'undefined cell after filling', **w)
    if others and rng.random() < .7:
        # one plane at a time
        flags = []
        for k in range(shape[2]):
            flag, plane = fill.gauss_seidel(pyinterp.Grid2D(ax, ay, keep[:, :, k].copy()), num_threads=1, **kw)
            flags.append(bool(flag))
            ctx.equal(plane, got[:, :, k], 'planes', 'a plane alone', k=k, **w)
        ctx.check(bool(ok) == all(flags), 'planes-flag', 'convergence of the planes alone', flags=flags, **w)
    if rng.random() < .5:
        ok2, other = fill.gauss_seidel(g, num_threads=int(rng.choice([0, 1, 2, 4, 7, 30])), **kw)
        ctx.equal(other, got, 'threads', 'with another number of threads', **w)
        ctx.check(bool(ok2) == bool(ok), 'threads-flag', 'convergence with another number of threads', **w)
    n = shape[0] * shape[1]
    omega = relax
    if omega is None:
        m = shape[0] if shape[0] == shape[1] else n * np.sqrt(2 / (shape[0]**2 + shape[1]**2))
        omega = 2 / (1 + np.pi / m)
    for idx in np.ndindex(*shape[2:]):
        s = (slice(None), slice(None)) + idx
        plane, out = keep[s].astype('f8'), got[s].astype('f8')
        hole = np.isnan(plane)
        if not hole.any():
            continue
        if hole.all():
            ctx.equal(out, np.zeros_like(out), 'all-undefined', 'grid without values', **w)
            ctx.count('empty')
            continue
        top = float(np.nanmax(np.abs(plane)))
        round_ = 16 * eps * top
        if not ok:
            ctx.count('stopped')
            continue
        ctx.count('converged')
        # the residuals of the last sweep were below epsilon: afterwards a red
        # cell is off by (1 - omega) r plus the change of its black neighbours
        bound = (epsilon * (abs(1 - 1 / omega) + 1.0)) * (1 + 1e-6) + 2 * round_
        ctx.close(averages(out, circle)[hole], out[hole], 'average', bound, 0, 'average of the neighbours', **w)
        if hole.sum() <= 260:
            want, norm, _ = laplace(plane, circle)
            ctx.count('cells', int(hole.sum()))
            ctx.close(out[hole], want[hole], 'laplace', bound * norm, 0, 'solution of the equation', **w)
        ctx.all((out >= np.nanmin(plane) - bound * n * n) & (out <= np.nanmax(plane) + bound * n * n), 'range', 'range of the known values', **w)


@section(20)
def must_converge(ctx, rng):
    """With the default parameters of well sized grids, the flag tells the
    truth, and a generous number of iterations converges."""
    n = int(rng.integers(4, 12))
    m = int(rng.integers(4, 12))
    ax, ay = core.Axis(np.arange(n) * (360 / n), is_circle=rng.random() < .5), core.Axis(np.arange(m, dtype='f8'))
    z = rng.normal(size=(n, m))
    z[rng.random((n, m)) < .5] = np.nan
    if np.isnan(z).all():
        return
    ctx.case('converge', n, m, float(np.nansum(z)))
    g = pyinterp.Grid2D(ax, ay, z)
    guess = ['zero', 'zonal_average'][int(rng.integers(0, 2))]
    ok, got = fill.gauss_seidel(g, first_guess=guess, max_iteration=20000, epsilon=1e-9, relaxation=float(rng.choice([1, 1.2, 1.4])))
    w = dict(z=z, circle=ax.is_circle, guess=guess)
    ctx.check(bool(ok), 'converges', 'the relaxation does not converge', **w)
    want, norm, hole = laplace(z, ax.is_circle)
    ctx.close(got, want, 'laplace', 3e-9 * norm, 0, 'solution of the equation', **w)
    # one iteration: the flag cannot claim a tolerance that was not reached
    ok, got = fill.gauss_seidel(g, first_guess=guess, max_iteration=1, epsilon=1e-12, relaxation=1.0)
    ctx.equal(got[~hole], z[~hole], 'known', 'known cells', **w)
    if hole.any():
        gap = np.abs(averages(got, ax.is_circle) - got)[hole].max()
        ctx.check(not (ok and gap > 1e-9), 'flag', 'claims convergence', gap=gap, **w)


@section(30)
def refusals(ctx, rng):
    g = pyinterp.Grid2D(core.Axis(np.arange(4.)), core.Axis(np.arange(3.)), np.full((4, 3), np.nan))
    ctx.case('refusals', int(rng.integers(0, 1 << 30)))
    ctx.raises(ValueError, lambda: fill.loess(g, 0, 1), 'nx')
    ctx.raises(ValueError, lambda: fill.loess(g, 1, 0), 'ny')
    ctx.raises(ValueError, lambda: fill.loess(g, value_type='x'), 'value_type')
    ctx.raises(ValueError, lambda: fill.gauss_seidel(g, first_guess='x'), 'first_guess')
