"""C21: binning conserves samples and equals per-bin statistics."""
import copy
import pickle

import dask.array.core as da
import numpy as np
from pyinterp import Axis, Binning1D, Binning2D, geodetic

import vt
import large
from vt import section
from c23 import Moments, judge, sample, strided, weigh
from c22 import altered, bin_of, cast, plane, positions, samples_of

vt.SECTIONS.clear()
PARTS = ['binning', 'axis']
RULE = ('A case is one random pair of axes (or one axis) and several sets of samples pushed, merged, copied and cleared in a random '
        'order; the statistics of every bin are compared with those of the samples which belong to it, found by brute force. '
        'Non-trivial: at least one bin was judged.')
ASSUMES = ['samples out of the axes count in the bins at their edge (nearest) or are ignored (linear)',
           'samples within rounding of the border of two bins are not used',
           'weights of geographic linear binning are known within the difference between parallels and geodesics']
NAMES = {'var': 'variance'}
D2 = geodetic.Spheroid()


class View:
    """The statistics of every bin, in the form of DescriptiveStatistics."""

    def __init__(self, b, shape):
        self.b, self.shape = b, shape
        self.table = {}

    def __getattr__(self, name):
        return lambda: self.get(name)

    def get(self, name):
        v = self.b.variable(name)
        return v.reshape(self.shape) if v.size == np.prod(self.shape) else v

    def var(self, ddof=0):
        v = self.b._instance.variance(ddof)
        return v.reshape(self.shape) if v.size == np.prod(self.shape) else v

    def std(self, ddof=0):
        return np.sqrt(self.var(ddof))

    def array(self):
        t = {k: self.get(k) for k in ('count', 'sum_of_weights', 'sum', 'min', 'max', 'mean', 'skewness', 'kurtosis')}
        t['var'] = self.get('variance')
        return t


def same(ctx, a, b, key, **w):
    for k in ('count', 'sum_of_weights', 'sum', 'min', 'max', 'mean', 'skewness', 'kurtosis', 'variance'):
        if not ctx.equal(a.variable(k), b.variable(k), key, k, **w):
            return


def state(b):
    return pickle.dumps(b._instance)


def drive(ctx, rng, make, push, delayed, batches, linear=False):
    """A random history. Returns the binning, the batches it holds and the log."""
    b = make()
    held, log = [], []
    for batch in batches:
        before = state(b)
        r = rng.random()
        if r < .4:
            push(b, batch)
            log.append('push')
        else:
            other = make()
            if r < .75 or not len(batch[0]):
                push(other, batch)
            else:
                other = delayed(other, batch)
                log.append('delayed')
            after = state(other)
            if rng.random() < .2:
                c = pickle.loads(pickle.dumps(b)) if rng.random() < .5 else copy.deepcopy(b)
                same(ctx, c, b, 'copy', log=log)
                ctx.check(state(c) == before, 'copy', log=log)
                ctx.check(c.x == b.x and (not hasattr(b, 'y') or (c.y == b.y and c.wgs == b.wgs)), 'copy axes', log=log)
                b = c
            old = b
            b = b + other
            log.append('sum')
            ctx.check(b is not old, 'sum aliases')
            ctx.check(state(old) == before, 'sum changes the left operand', log=log)
            ctx.check(state(other) == after, 'sum changes the right operand', log=log)
        if rng.random() < .08:
            b.clear()
            held, log = [], log + ['clear']
        else:
            held.append(batch)
    if rng.random() < .1:
        c = b + b
        return c, held + held, log + ['twice']
    return b, held, log


def gather(held, i):
    return np.concatenate([h[i] for h in held]) if held else np.zeros(0)


@section(1500)
def nearest(ctx, rng):
    dtype = np.dtype(rng.choice(['float64', 'float64', 'float32']))
    kw = {'dtype': dtype} if dtype.char == 'f' or rng.random() < .5 else {}
    axes = plane(rng)
    (xa, xv), (ya, yv) = axes
    wgs = D2 if rng.random() < .3 else None
    batches = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        batches.append(samples_of(rng, axes, int(rng.choice([0, 3, 40, 300])), dtype, sample))

    def push(b, s):
        b.push(*cast(rng, *s[:3]), *([] if rng.random() < .5 else [True]))

    def delayed(b, s):
        n = int(rng.integers(1, len(s[0]) + 1))
        out = b.push_delayed(*(da.from_array(a, n) for a in s[:3])).compute()
        ctx.check(out.dtype == dtype and out.wgs == wgs, 'delayed properties')
        return out

    b, held, log = drive(ctx, rng, lambda: Binning2D(xa, ya, wgs, **kw), push, delayed, batches)
    z, ix, iy = (gather(held, i) for i in (2, 3, 4))
    ctx.case(xv, yv, z, ix, iy, dtype=str(dtype), shape=(len(xv), len(yv)), log=log)
    z = z.astype(dtype)
    one = np.ones(len(z), dtype)
    sets = [(z[(ix == i) & (iy == j)], one[(ix == i) & (iy == j)]) for i in range(len(xv)) for j in range(len(yv))]
    judge(ctx, View(b, (len(xv), len(yv))), sets, 'nearest', float(np.finfo(dtype).eps), merges=4 * len(held) + 1,
          shape=(len(xv), len(yv)), log=log, x=xv, y=yv, circle=xa.is_circle)
    ctx.equal(b.variable(), b.variable('mean'), 'default variable')
    ctx.check(int(b.variable('count').sum()) == int((ix >= 0).sum()), 'conservation')


@section(1500)
def vector(ctx, rng):
    """Binning1D: only the samples within its range."""
    dtype = np.dtype(rng.choice(['float64', 'float64', 'float32']))
    kw = {'dtype': dtype} if dtype.char == 'f' or rng.random() < .5 else {}
    (xa, xv), _ = plane(rng)
    lo, hi = xa.min_value(), xa.max_value()
    rg = None if rng.random() < .4 else tuple(np.sort(rng.uniform(lo - 2, hi + 2, 2)).tolist())
    if rg is not None:
        kw['range'] = rg
    a, z = rg or (lo, hi)
    weighted = rng.random() < .5
    batches = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        x = positions(rng, xa, xv, int(rng.choice([0, 3, 40, 200]))).astype(dtype)
        if rng.random() < .3 and rg is not None:
            x = np.concatenate([x, np.array(rg, dtype)])
        ix, ok = bin_of(xa, xv, x)
        ok &= (abs(x - a) > 1e-5 * (1 + abs(a))) | (x == a) & (dtype.char == 'd')
        ok &= (abs(x - z) > 1e-5 * (1 + abs(z))) | (x == z) & (dtype.char == 'd')
        x, ix = x[ok], ix[ok]
        ix = np.where((x >= a) & (x <= z), ix, -1)
        v = sample(rng, x.shape, dtype)
        w = weigh(rng, x.shape, dtype) if weighted else np.ones(x.shape, dtype)
        if len(x) and rng.random() < .2:
            bad = rng.random(len(x)) < .1
            x[bad] = np.nan
            ix[bad] = -1
        batches.append((x, v, w, np.where(np.isnan(v), -1, ix)))

    def push(b, s):
        x, v, w = cast(rng, *s[:3])
        b.push(x, v, *([w] if weighted else []))

    def delayed(b, s):
        n = int(rng.integers(1, len(s[0]) + 1))
        x, v, w = (da.from_array(k, n) for k in s[:3])
        out = b.push_delayed(x, v, *([w] if weighted else [])).compute()
        ctx.check(out.dtype == dtype and out.range() == b.range(), 'delayed properties', got_=out.range(), want_=b.range())
        return out

    b, held, log = drive(ctx, rng, lambda: Binning1D(xa, **kw), push, delayed, batches)
    v, w, ix = (gather(held, i) for i in (1, 2, 3))
    ctx.case(xv, v, w, ix, rg, dtype=str(dtype), shape=len(xv), range=rg, weighted=weighted, log=log)
    ctx.check(b.range() == (a, z), 'range', got_=b.range(), want_=(a, z))
    ctx.check(b.x == xa, 'axis')
    sets = [(v[ix == i].astype(dtype), w[ix == i].astype(dtype)) for i in range(len(xv))]
    judge(ctx, View(b, (len(xv), )), sets, 'vector', float(np.finfo(dtype).eps), merges=4 * len(held) + 1, shape=(len(xv), ), log=log,
          x=xv, range=rg, circle=xa.is_circle, weighted=weighted)


def bracket(axis, values, c):
    """The two nodes around each coordinate (-1: none) and its position between them."""
    order = np.argsort(values)
    s = values[order]
    if axis.is_circle:
        c = (c - s[0]) % 360 + s[0]
        s, order = np.append(s, s[0] + 360), np.append(order, order[0])
    k = np.clip(np.searchsorted(s, c, side='right') - 1, 0, len(s) - 2)
    t = (c - s[k]) / (s[k + 1] - s[k])
    ok = (c >= s[0]) & (c <= s[-1])
    return np.where(ok, order[k], -1), order[k + 1], t, s[k], s[k + 1]


def authalic(lat):
    """Proportional to the area between the equator and a parallel of WGS84."""
    e2 = D2.first_eccentricity_squared()
    e, s = np.sqrt(e2), np.sin(np.radians(lat))
    return (1 - e2) / 2 * (s / (1 - e2 * s * s) + np.arctanh(e * s) / e)


@section(1500)
def linear(ctx, rng):
    """Each sample gives to the four nodes around it the opposite fraction of the area of their cell."""
    dtype = np.dtype(rng.choice(['float64', 'float64', 'float32']))
    kw = {'dtype': dtype} if dtype.char == 'f' or rng.random() < .5 else {}
    geo = rng.random() < .5
    if not geo:
        (xa, xv), (ya, yv) = plane(rng)
    else:
        n = [int(rng.integers(2, 7)) for _ in range(2)]
        if rng.random() < .4:
            m = int(rng.choice([72, 120, 180]))
            xv = np.arange(m) * (360 / m) + float(rng.choice([0, -180, rng.uniform(-300, 300)]))
            xv = xv if rng.random() < .6 else xv[::-1].copy()
            xa = Axis(xv, is_circle=True)
        else:
            xv = float(rng.choice([rng.uniform(-180, 170), 179.])) + np.cumsum(rng.uniform(.2, 2, n[0]))
            xa = Axis(xv if rng.random() < .7 else xv[::-1].copy())
        yv = rng.uniform(-75, 50) + np.cumsum(rng.uniform(.5, 5, n[1]))
        ya = Axis(yv if rng.random() < .7 else yv[::-1].copy())
        yv = np.array([ya[i] for i in range(len(ya))])
    xv = np.array([xa[i] for i in range(len(xa))])
    wgs = D2 if geo else None
    f = dtype.char == 'f'
    batches = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        m = int(rng.choice([0, 3, 40, 150]))
        x, y = positions(rng, xa, xv, m).astype(dtype), positions(rng, ya, yv, m).astype(dtype)
        near = [None, None]
        for i, (a, v, c) in enumerate(((xa, xv, x), (ya, yv, y))):
            d = abs(c[:, None].astype('float64') - v[None, :])
            if a.is_circle:
                d = np.minimum(d % 360, 360 - d % 360)
            near[i] = (d.min(axis=1) > 1e-3 * (10 if f else .1)) | ((d.min(axis=1) == 0) & (not f) & (not a.is_circle))
        ok = near[0] & near[1]
        x, y = x[ok], y[ok]
        z = sample(rng, x.shape, dtype)
        if len(x) and rng.random() < .2:
            x[rng.random(len(x)) < .1] = np.nan
            y[rng.random(len(x)) < .1] = np.nan
        batches.append((x, y, z))

    def push(b, s):
        b.push(*cast(rng, *s[:3]), False)

    def delayed(b, s):
        n = int(rng.integers(1, len(s[0]) + 1))
        return b.push_delayed(*(da.from_array(a, n) for a in s[:3]), False).compute()

    b, held, log = drive(ctx, rng, lambda: Binning2D(xa, ya, wgs, **kw), push, delayed, batches, linear=True)
    x, y, z = (gather(held, i).astype('float64') for i in range(3))
    ctx.case(xv, yv, x, y, z, dtype=str(dtype), shape=(len(xv), len(yv)), geographic=geo, log=log)
    i0, i1, tx, xa0, xa1 = bracket(xa, xv, x)
    j0, j1, ty, ya0, ya1 = bracket(ya, yv, y)
    keep = (i0 >= 0) & (j0 >= 0) & ~np.isnan(x) & ~np.isnan(y) & ~np.isnan(z)
    i0, i1, tx, j0, j1, ty, y, z, xa0, xa1, ya0, ya1 = (k[keep] for k in (i0, i1, tx, j0, j1, ty, y, z, xa0, xa1, ya0, ya1))
    eps = float(np.finfo(dtype).eps)
    # the relative error of the positions in the cells
    err = (3e-14 if not f else 1e-6) * (1 + abs(x[keep]) / (xa1 - xa0) + abs(y) / (ya1 - ya0)) if len(z) else np.zeros(0)
    if geo:
        ty = (authalic(y) - authalic(ya0)) / (authalic(ya1) - authalic(ya0))
        dl, dp = np.radians(xa1 - xa0), np.radians(ya1 - ya0)
        err = err + dl**2 / (6 * dp) + 1e-6
    shape = len(xv), len(yv)
    W, S, N = (np.zeros(shape, np.longdouble) for _ in range(3))
    tW, tS = np.zeros(shape), np.zeros(shape)
    lo, hi = np.full(shape, np.inf), np.full(shape, -np.inf)
    sets = {}
    for i, wx in ((i0, 1 - tx), (i1, tx)):
        for j, wy in ((j0, 1 - ty), (j1, ty)):
            w = wx * wy
            use = w > 1e-11
            for k in np.nonzero(use)[0]:
                sets.setdefault((int(i[k]), int(j[k])), []).append((z[k], w[k]))
            np.add.at(W, (i[use], j[use]), w[use])
            np.add.at(S, (i[use], j[use]), (w * z)[use])
            np.add.at(N, (i[use], j[use]), 1)
            np.add.at(tW, (i[use], j[use]), err[use])
            np.add.at(tS, (i[use], j[use]), (err * abs(z))[use])
            np.minimum.at(lo, (i[use], j[use]), z[use])
            np.maximum.at(hi, (i[use], j[use]), z[use])
    ww = dict(log=log, x=xv, y=yv, circle=xa.is_circle, geographic=geo)
    v = View(b, shape)
    key = 'geographic' if geo else 'linear'
    # (a weight may round to zero)
    n = eps * 16 * (N.astype('float64') + 4 * len(held) + 4)
    big = float(abs(z).max(initial=0.))
    ctx.equal(v.get('count'), N.astype('float64'), key + ' count', **ww)
    ctx.close(v.get('sum_of_weights'), W, key + ' weights', atol=tW + n * W.astype('float64'), **ww)
    ctx.close(v.get('sum'), S, key + ' sum', atol=tS + n * (W.astype('float64') * big + 1e-300), **ww)
    total = float(v.get('sum_of_weights').astype(np.longdouble).sum())
    ctx.close(total, len(z), key + ' total weight', atol=float(err.sum()) + 32 * eps * (len(z) + 4) * (len(z) + 4), **ww)
    some = N > 0
    mean = v.get('mean')
    ctx.check(np.isnan(mean[~some]).all(), key + ' empty', **ww)
    r = (2 * tW + n) / np.where(some, W, 1).astype('float64') + n
    ctx.close(mean[some], (S[some] / W[some]), key + ' mean', atol=(r * np.maximum(abs(lo), abs(hi)))[some] + n[some] * big, **ww)
    if not geo and not f and err.max(initial=0.) < 1e-9:
        eps = max(eps, float(err.max(initial=0.)) * 100)
        empty = np.zeros(0), np.zeros(0)
        judge(ctx, v, [tuple(np.array(k) for k in zip(*sets[i, j])) if (i, j) in sets else empty
                       for i in range(shape[0]) for j in range(shape[1])], key, eps, merges=4 * len(held) + 1, shape=shape, **ww)


@section(300)
def refusals(ctx, rng):
    (xa, xv), (ya, yv) = plane(rng)
    bad = int(rng.integers(1, 40))
    ctx.case(xv, yv, bad)
    E = (ValueError, TypeError)
    n = int(rng.integers(1, 20))
    b, c = Binning2D(xa, ya), Binning1D(xa)
    v, w = np.full(n, xv[0]), np.full(n + bad, xv[0])
    for simple in (True, False):
        ctx.raises(E, lambda: b.push(v, v, w, simple), 'values of another size')
        ctx.raises(E, lambda: b.push(v, w, v, simple), 'ordinates of another size')
        ctx.raises(E, lambda: b.push(w, v, v, simple), 'abscissae of another size')
    ctx.raises(E, lambda: c.push(w, v), 'fewer values')
    ctx.raises(E, lambda: c.push(v, w), 'more values')
    ctx.raises(E, lambda: c.push(v, v, w), 'more weights')
    ctx.raises(E, lambda: c.push(w, w, v), 'fewer weights')
    ctx.equal(b.variable('count').sum() + c.variable('count').sum(), 0, 'refused samples')
    for k in ('count', 'sum', 'sum_of_weights'):
        ctx.equal(b.variable(k), np.zeros((len(xv), len(yv))), 'new ' + k)
    for k in ('mean', 'min', 'max', 'variance', 'skewness', 'kurtosis'):
        ctx.check(np.isnan(b.variable(k)).all(), 'new ' + k)
    ctx.raises(E, lambda: b + Binning2D(xa, Axis(np.arange(60.))), 'sum of two grids')
    ctx.raises(E, lambda: b + Binning2D(xa, ya, D2), 'sum of two systems')
    ctx.raises(E, lambda: Binning2D(xa, ya, geodetic.Spheroid((6378136.3, 1 / 290))) + Binning2D(xa, ya, D2), 'sum of two spheroids')
    ctx.raises(E, lambda: Binning2D(xa, ya, geodetic.Spheroid((6378137.0, 1 / 290))) + Binning2D(xa, ya, geodetic.Spheroid((6378137.0, 1 / 298))), 'sum of two flattenings')
    ctx.raises(E, lambda: b + Binning2D(xa, ya, dtype=np.dtype('float32')), 'sum of two types')
    ctx.raises(E, lambda: c + Binning1D(Axis(np.arange(60.))), 'sum of two axes')
    for i in range(2):
        for other in altered(rng, (xa, ya)[i]):
            grid = (other, ya) if i == 0 else (xa, other)
            ctx.raises(E, lambda: b + Binning2D(*grid), 'sum of two grids of the same size', axis=i, other=str(other), own=str((xa, ya)[i]))
            if i == 0:
                ctx.raises(E, lambda: c + Binning1D(other), 'sum of two axes of the same size', other=str(other), own=str(xa))
    ctx.raises(E, lambda: c + Binning1D(xa, dtype=np.dtype('float32')), 'sum of two types 1d')
    ctx.raises(E, lambda: Binning2D(xa, ya, dtype=np.dtype('int32')), 'dtype')
    ctx.raises(E, lambda: Binning1D(xa, dtype=np.dtype('int32')), 'dtype 1d')
    ctx.raises(E, lambda: b.variable('no such'), 'unknown variable')
    ctx.raises(E, lambda: c.variable('no such'), 'unknown variable 1d')
    ctx.check(b.wgs is None and Binning2D(xa, ya, D2).wgs == D2, 'wgs')
    ctx.check(b.x == xa and b.y == ya, 'axes')


@section(4, 24)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c21(ctx, rng)
