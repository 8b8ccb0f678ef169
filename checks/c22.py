"""C22: streaming histograms conserve weight, order and range."""
import copy
import pickle

import dask.array.core as da
import numpy as np
from pyinterp import Axis, Histogram2D, StreamingHistogram

import gen
import vt
import large
from vt import section
from c23 import cells, shape_of, strided

vt.SECTIONS.clear()
PARTS = ['statistics', 'axis']
RULE = ('A case is one random stream of values and weights (or several, merged) given to a StreamingHistogram or to the cells of a '
        'Histogram2D; the bins and the statistics are compared with the stream and with one another. Non-trivial: at least '
        'one quantity was judged.')
ASSUMES = ['weights are positive', 'samples out of the axes of Histogram2D count in the cells at their edge']
L = np.longdouble
KINDS = ('count', 'size', 'sum_of_weights', 'min', 'max', 'mean', 'var', 'skewness', 'kurtosis')


def stats_of(h):
    return {k: getattr(h, k)() for k in KINDS}


def moments(v, w):
    v, w = v.astype(L), w.astype(L)
    W = w.sum()
    m = (w * v).sum() / W
    return [m] + [(w * (v - m)**k).sum() / W for k in (2, 3, 4)]


def judge_bins(ctx, v, w, bins, got, limit, eps, key, quantile=None, merges=0, **ww):
    """One cell: v, w the stream (in order), bins what the histogram holds, got its statistics."""
    n = len(v)
    ww = dict(values=v, weights=w, limit=limit, **ww)
    ctx.check(got['count'] == n, key + ' count', got_=got['count'], want_=n, **ww)
    size = int(got['size'])
    ctx.check((min(len(np.unique(v)), limit) if not merges else min(1, n)) <= size <= min(n, limit), key + ' size', got_=size, n=n, **ww)
    ctx.check(np.isnan(bins['value'][size:]).all() and (bins['weight'][size:] == 0).all(), key + ' padding', **ww)
    if not n:
        for k in ('min', 'max', 'mean', 'var'):
            ctx.check(np.isnan(got[k]), key + ' empty ' + k, got_=got[k], **ww)
        ctx.equal(got['sum_of_weights'], 0, key + ' empty weight', **ww)
        return
    bv, bw = bins['value'][:size], bins['weight'][:size]
    top = float(abs(v).max())
    e = 4 * eps * (n + 4)
    ctx.equal(got['min'], v.min(), key + ' min', **ww)
    ctx.equal(got['max'], v.max(), key + ' max', **ww)
    ctx.check((np.diff(bv) >= -e * top).all(), key + ' order', bins=bv, **ww)
    ctx.check(bv[0] >= v.min() - e * top and bv[-1] <= v.max() + e * top, key + ' range', bins=bv, **ww)
    W, S = w.astype(L).sum(), (w.astype(L) * v).sum()
    ctx.close(got['sum_of_weights'], W, key + ' weight', rtol=e, **ww)
    ctx.close(bw.astype(L).sum(), W, key + ' bins weight', rtol=e, **ww)
    ctx.close((bw.astype(L) * bv).sum(), S, key + ' bins sum', atol=float(e * W * top), **ww)
    ctx.close(got['mean'], S / W, key + ' mean', atol=e * top, **ww)
    spread = float(v.max() - v.min())
    own = moments(bv, bw)
    full = moments(v, w)
    tol = e * (spread + 2 * e * top) * (spread + top) + (e * top)**2
    ctx.close(got['var'], own[1], key + ' var of bins', atol=tol, **ww)
    ctx.check(own[1] <= full[1] + tol, key + ' var', got_=float(own[1]), want_=float(full[1]), **ww)
    exact = len(np.unique(v)) <= limit and not merges or size == n
    if exact:
        ctx.count('exact')
        ctx.close(got['var'], full[1], key + ' exact var', atol=tol, **ww)
        if size == n:
            i = np.argsort(v, kind='stable')
            ctx.equal(bv, v[i], key + ' bins are the samples', **ww)
            ctx.close(np.sort(bw), np.sort(w), key + ' weights are those of the samples', rtol=0 if not merges else e, **ww)
    if own[1] > 1e4 * tol and spread > 1e-3 * top and top**4 * n < (1e35 if eps > 1e-10 else 1e300) and spread**4 > (1e-30 if eps > 1e-10 else 1e-280):
        skew, kurt = own[2] / own[1]**1.5, own[3] / own[1]**2 - 3
        c = 1e3 * e * (1 + top / spread)
        ctx.close(got['skewness'], skew, key + ' skewness', atol=float(c * (1 + (spread**2 / own[1])**1.5)), **ww)
        ctx.close(got['kurtosis'], kurt, key + ' kurtosis', atol=float(c * (1 + (spread**2 / own[1])**2)), **ww)
    if quantile is None:
        return
    # linear interpolation of the cumulated weights of the bins
    pos = np.concatenate([[0], np.cumsum(bw.astype(L)) - bw.astype(L) / 2, [bw.astype(L).sum()]]) / bw.astype(L).sum()
    val = np.concatenate([[v.min()], bv, [v.max()]]).astype(L)
    qs = sorted(quantile)
    g = np.array([quantile[q] for q in qs])
    # what rounding the cumulated weights does at both ends
    with np.errstate(all='ignore'):
        slope = np.nan_to_num(np.diff(val) / np.diff(pos), nan=0., posinf=0.)
    first, last = float(e * (top + slope[0])), float(e * (top + slope[-1]))
    ctx.check((np.diff(g) >= -max(first, last)).all(), key + ' quantile order', quantiles=g, q=qs, **ww)
    ctx.check((g >= v.min() - first).all() and (g <= v.max() + last).all(), key + ' quantile range', quantiles=g, q=qs, **ww)
    for q, x in zip(qs, g):
        # the rounding of q moves the result along a segment (or two)
        near = np.interp(np.array([q - e, q, q + e]).astype('float64'), pos.astype('float64'), val.astype('float64'))
        ctx.check(near.min() - first * (q <= e) - e * top <= x <= near.max() + last * (q >= 1 - e) + e * top, key + ' quantile', got_=x, want_=near[1], q=q, bins=bv, bw=bw, **ww)
    if 0. in quantile:
        ctx.close(quantile[0.], v.min(), key + ' first quantile', atol=first, **ww)
    if 1. in quantile:
        ctx.close(quantile[1.], v.max(), key + ' last quantile', atol=last, **ww)


QS = [0., 1., .5, .25, .9]


def judge(ctx, rng, h, sets, limit, eps, key, shape=(1, ), **w):
    got = stats_of(h)
    for k, x in got.items():
        if not ctx.check(x.shape == shape, key + ' shape', k, got_=x.shape, want_=shape, **w):
            return
    bins = h.bins()
    if not ctx.check(bins.shape[:-1] == shape and bins.shape[-1] == got['size'].max(initial=0), key + ' bins shape', got_=bins.shape, **w):
        return
    with np.errstate(all='ignore'):
        ctx.close(h.std(), np.sqrt(got['var']), key + ' std', rtol=1e-6, **w)
    qs = QS + [float(q) for q in rng.random(3).astype('float32')]
    quant = {q: h.quantile(q).ravel() for q in qs}
    ctx.equal(h.quantile(), h.quantile(.5), key + ' median', **w)
    bins = bins.reshape(len(sets), bins.shape[-1])
    for i, (v, wt) in enumerate(sets):
        ok = ~np.isnan(v)
        judge_bins(ctx, v[ok], wt[ok], bins[i], {k: x.ravel()[i] for k, x in got.items()}, limit, eps, key,
                   {q: x[i] for q, x in quant.items()}, cell=i, **w)


def stream(rng, shape, dtype):
    kind = int(rng.integers(0, 9))
    s = 10**rng.uniform(-3, 4)
    x = rng.normal(0, s, shape)
    if kind == 1:
        x = x + s * 10**rng.uniform(0, 4)
    elif kind == 2:
        x = np.full(shape, float(rng.choice([0., 1., -3.5, s])))
    elif kind == 3:
        x = rng.integers(-4, 5, shape).astype('float64')
    elif kind == 4:
        x = np.sort(abs(x).ravel()).reshape(shape) + s
    elif kind == 5:
        x = -np.sort(abs(x).ravel()).reshape(shape) - s
    elif kind == 6:
        x = rng.exponential(s, shape)**2
    elif kind == 7:
        x = np.where(rng.random(shape) < .5, x, np.round(x / s) * s)
    x = np.asarray(x, dtype='float64')
    if rng.random() < .25:
        x[rng.random(shape) < rng.choice([.1, .5, 1.])] = np.nan
    return x.astype(dtype)


def weigh(rng, shape, dtype):
    kind = int(rng.integers(0, 4))
    w = rng.uniform(.1, 3, shape)
    if kind == 1:
        w = rng.integers(1, 5, shape).astype('float64')
    elif kind == 2:
        w = np.full(shape, float(rng.choice([1., 2., .5])))
    elif kind == 3:
        w = w * 10**rng.uniform(-2, 2, shape)
    return np.asarray(w).astype(dtype)


def setting(rng):
    dtype = np.dtype(rng.choice(['float64', 'float64', 'float32']))
    return dtype, {'dtype': dtype} if dtype.char == 'f' or rng.random() < .5 else {}, float(np.finfo(dtype).eps)


def limit_of(rng, n):
    r = rng.random()
    if r < .25:
        return None, 100
    k = int(rng.choice([1, 2, 3, 5, 10, max(1, n - 1), max(1, n), n + 1, 40]))
    return k, k


@section(3500)
def single(ctx, rng):
    dtype, kw, eps = setting(rng)
    shape = shape_of(rng) if rng.random() < .7 else (int(rng.integers(90, 260)), )
    x = stream(rng, shape, dtype)
    w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
    arg, limit = limit_of(rng, x.size)
    ctx.case(x, w, arg, dtype=str(dtype), shape=x.shape, bin_count=arg)
    h = StreamingHistogram(strided(rng, x), None if w is None else strided(rng, w), bin_count=arg, **kw)
    wt = np.ones(x.shape, dtype) if w is None else w
    judge(ctx, rng, h, [(x.ravel(), wt.ravel())], limit, eps, 'single', bin_count=arg)


@section(1500)
def reduced(ctx, rng):
    dtype, kw, eps = setting(rng)
    x = stream(rng, shape_of(rng), dtype)
    n = int(rng.integers(1, x.ndim + 1))
    axis = [int(i) for i in rng.permutation(x.ndim)[:n]]
    w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
    arg, limit = limit_of(rng, int(np.prod([x.shape[i] for i in axis])))
    ctx.case(x, w, tuple(axis), arg, dtype=str(dtype), shape=x.shape, axis=axis, bin_count=arg)
    h = StreamingHistogram(strided(rng, x), None if w is None else strided(rng, w),
                           axis=axis[0] if n == 1 and rng.random() < .5 else tuple(axis), bin_count=arg, **kw)
    shape, sets = cells(x, np.ones(x.shape, dtype) if w is None else w, axis)
    judge(ctx, rng, h, sets, limit, eps, 'axis', shape=shape, axis=axis, bin_count=arg)


@section(1200)
def resized(ctx, rng):
    """The maximum number of bins changed between the samples."""
    dtype, kw, eps = setting(rng)
    ndim = int(rng.choice([1, 2]))
    shape = tuple(int(n) for n in rng.integers(1, 5, ndim))
    axis = [0]
    arg, limit = limit_of(rng, 20)
    h = sets = None
    log = []
    for _ in range(int(rng.choice([1, 2, 3]))):
        size = (int(rng.integers(0, 60)), ) + shape[1:]
        x = stream(rng, size, dtype)
        w = weigh(rng, x.shape, dtype)
        t = StreamingHistogram(x, w, axis=axis, bin_count=arg, **kw)
        sh, more = cells(x, w, axis)
        if h is None:
            h, sets = t, more
        else:
            h += t
            sets = [(np.concatenate([a[0], b[0]]), np.concatenate([a[1], b[1]])) for a, b in zip(sets, more)]
        k = int(rng.choice([1, 2, 3, 5, 10, 50, 1000]))
        before = stats_of(h)
        top = before['size'].max(initial=0)
        h._instance.resize(k)
        limit = k
        log.append(k)
        after = stats_of(h)
        for name in ('count', 'min', 'max'):
            ctx.equal(after[name], before[name], 'resize changes ' + name, log=log)
        ctx.check((after['size'] == np.minimum(before['size'], k)).all(), 'resize: number of bins', log=log, sizes=after['size'], before=before['size'])
        if k >= top:
            for name in after:
                ctx.equal(after[name], before[name], 'resize to more bins changes ' + name, log=log)
        judge(ctx, rng, h, sets, limit, eps, 'resize', shape=sh, merges=9, log=log)
    ctx.case(*[np.concatenate(c) for c in sets], *log, dtype=str(dtype), shape=shape)
    h._instance.resize(0)
    for name, a in stats_of(h).items():
        if name in ('size', 'sum_of_weights'):
            ctx.check((a == 0).all(), 'no bins: ' + name, log=log)
    ctx.check(h.bins().shape[-1] == 0, 'no bins: bins', log=log)


@section(2500)
def history(ctx, rng):
    """Histograms of several parts merged, through copies and pickles."""
    dtype, kw, eps = setting(rng)
    ndim = int(rng.choice([1, 2]))
    shape = tuple(int(n) for n in rng.integers(1, 5, ndim))
    axis = None if rng.random() < .5 else [int(rng.integers(0, ndim))]
    parts = []
    arg, limit = limit_of(rng, 20)
    for _ in range(int(rng.choice([1, 2, 3, 6]))):
        size = list(shape)
        for i in (range(ndim) if axis is None else axis):
            size[i] = int(rng.integers(0, 12))
        x = stream(rng, tuple(size), dtype)
        w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
        a, b = (arg, limit) if rng.random() < .8 or not parts else limit_of(rng, 20)
        h = StreamingHistogram(x, w, axis=axis, bin_count=a, **kw)
        w = np.ones(x.shape, dtype) if w is None else w
        sh, sets = ((1, ), [(x.ravel(), w.ravel())]) if axis is None else cells(x, w, axis)
        parts.append((h, sets))
    ctx.case(*[np.concatenate([np.concatenate(c) for c in sets]) if sets else 0 for _, sets in parts], arg,
             dtype=str(dtype), shape=shape, axis=axis, parts=len(parts))
    h, sets = parts[0]
    log = []
    for t, more in parts[1:]:
        before, right = pickle.dumps(h._instance), t.bins().tobytes()
        r = rng.random()
        if r < .3:
            c = pickle.loads(pickle.dumps(h))
        elif r < .5:
            c = copy.deepcopy(h)
        else:
            c = h
        log.append('copy' if c is not h else '+=')
        if c is not h:
            ctx.check(c.bins().tobytes() == h.bins().tobytes() and all(
                np.array_equal(a, b, equal_nan=True) for a, b in zip(stats_of(c).values(), stats_of(h).values())), 'copy', log=log)
        k = c
        c += t
        ctx.check(c is k, 'iadd returns itself')
        ctx.check(t.bins().tobytes() == right, 'iadd changes the right operand', log=log)
        if k is not h:
            ctx.check(pickle.dumps(h._instance) == before, 'copy aliases', log=log)
        h = c
        sets = [(np.concatenate([a[0], b[0]]), np.concatenate([a[1], b[1]])) for a, b in zip(sets, more)]
    judge(ctx, rng, h, sets, limit, eps, 'merge', shape=sh, merges=len(parts), log=log, axis=axis, bin_count=arg)
    if rng.random() < .2:
        h += h
        judge(ctx, rng, h, [(np.concatenate([a, a]), np.concatenate([b, b])) for a, b in sets], limit, eps, 'self merge', shape=sh, merges=9)


@section(1500)
def step(ctx, rng):
    """A sample added to a full histogram merges two of the closest bins."""
    dtype, kw, eps = setting(rng)
    k = int(rng.integers(1, 25))
    x = stream(rng, (k + int(rng.integers(0, 30)), ), dtype)
    x = x[~np.isnan(x)]
    w = weigh(rng, x.shape, dtype)
    h = StreamingHistogram(x, w, bin_count=k, **kw)
    old = h.bins()[0]
    y = stream(rng, (1, ), dtype)
    v = weigh(rng, (1, ), dtype)
    ctx.case(x, w, y, v, k, dtype=str(dtype), bin_count=k, values=x)
    if np.isnan(y[0]) or len(old) < k:
        ctx.check(len(old) == min(k, len(x)), 'step size')
        return
    h += StreamingHistogram(y, v, **kw)
    new = h.bins()[0]
    if not ctx.check(len(new) == k, 'step size', got_=len(new), want_=k):
        return
    bv, bw = np.append(old['value'], y), np.append(old['weight'], v)
    i = np.argsort(bv, kind='stable')
    bv, bw = bv[i].astype(L), bw[i].astype(L)
    d = np.diff(bv)
    top = float(abs(bv).max())
    tol = 16 * eps * top
    ok, tried = False, 0
    for j in np.nonzero(d <= d.min() + tol)[0]:
        s = bw[j] + bw[j + 1]
        ev = np.concatenate([bv[:j], [(bv[j] * bw[j] + bv[j + 1] * bw[j + 1]) / s], bv[j + 2:]])
        ew = np.concatenate([bw[:j], [s], bw[j + 2:]])
        tried += 1
        ok |= bool((abs(new['value'] - ev) <= tol).all())
        # (samples of the same value may be stored in any order)
        if ok and len(np.unique(bv)) == len(bv):
            ok = bool((abs(new['weight'] - ew) <= 8 * eps * ew).all())
        if ok:
            break
    ctx.check(ok, 'step', old=old['value'], new=new['value'], sample=y[0], candidates=tried)
    ctx.count('steps')


@section(300)
def delayed(ctx, rng):
    dtype, kw, eps = setting(rng)
    x = stream(rng, tuple(int(n) + 1 for n in rng.integers(0, 7, int(rng.integers(1, 4)))), dtype)
    axis = None if rng.random() < .4 else [int(i) for i in rng.permutation(x.ndim)[:int(rng.integers(1, x.ndim + 1))]]
    w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
    arg, limit = limit_of(rng, x.size)
    chunks = tuple(int(rng.integers(1, n + 1)) for n in x.shape)
    others = chunks if rng.random() < .6 else tuple(int(rng.integers(1, n + 1)) for n in x.shape)
    ctx.case(x, w, chunks, others, arg, dtype=str(dtype), axis=axis, shape=x.shape, chunks=chunks)
    h = StreamingHistogram(da.from_array(x, chunks), None if w is None else da.from_array(w, others) if rng.random() < .8 else w,
                           axis=axis, bin_count=arg, **kw)
    wt = np.ones(x.shape, dtype) if w is None else w
    sh, sets = ((1, ), [(x.ravel(), wt.ravel())]) if axis is None else cells(x, wt, axis)
    judge(ctx, rng, h, sets, limit, eps, 'delayed', shape=sh, merges=9, axis=axis, chunks=chunks, others=others, bin_count=arg)


def altered(rng, a):
    """Axes of the same size with other values."""
    v = np.array([a[i] for i in range(len(a))])
    step = abs(v[1] - v[0])
    out = [Axis(v + step * float(rng.choice([.37, -.25, 7])), is_circle=a.is_circle)]
    if not a.is_circle:
        out.append(Axis(v[::-1].copy()))
        w = v.copy()
        w[-1] += (v[-1] - v[-2]) * float(rng.choice([.25, 1, -.5]))
        out.append(Axis(w))
        w = v.copy()
        w[0] -= (v[1] - v[0]) * .5
        out.append(Axis(w))
    return out


def plane(rng):
    """Two axes, and the function giving the nearest nodes of a coordinate."""
    n = [int(rng.integers(2, 7)) for _ in range(2)]
    if rng.random() < .35:
        xv = gen.circle_values(rng, int(rng.integers(3, 14)))[0]
        x = Axis(xv, is_circle=True)
        xv = np.array([x[i] for i in range(len(x))])
    else:
        x, xv = None, None
    out = []
    for i in range(2):
        if i == 0 and x is not None:
            out.append((x, xv))
            continue
        v = np.cumsum(rng.uniform(.2, 2, n[i])) + rng.uniform(-5, 5)
        if rng.random() < .5:
            v = v[0] + np.arange(n[i]) * round(float(rng.uniform(.2, 2)), 2)
        if rng.random() < .3:
            v = v[::-1].copy()
    
        a = Axis(v)
        out.append((a, np.array([a[i] for i in range(len(a))])))
    return out


def bin_of(axis, values, c):
    """The indexes of the nearest nodes, and whether the second one is clearly further."""
    d = abs(c[:, None] - values[None, :])
    if axis.is_circle:
        d = d % 360
        d = np.minimum(d, 360 - d)
    i = np.argmin(d, axis=1)
    s = np.partition(d, 1, axis=1)
    return i, s[:, 1] - s[:, 0] > 1e-6 * (1 + abs(c)) * (60 if c.dtype == np.float32 else 1)


def positions(rng, axis, values, n):
    lo, hi = values.min(), values.max()
    m = .3 * (hi - lo)
    c = rng.uniform(lo - m, hi + m, n)
    k = rng.random(n)
    c = np.where(k < .3, rng.choice(values, n), c)
    if axis.is_circle:
        c = c + 360. * rng.integers(-2, 3, n)
    return c


def samples_of(rng, axes, n, dtype, draw=stream):
    """Coordinates whose nearest cell is not ambiguous, and their cells (-1: none)."""
    (xa, xv), (ya, yv) = axes
    x, y = positions(rng, xa, xv, n).astype(dtype), positions(rng, ya, yv, n).astype(dtype)
    ix, okx = bin_of(xa, xv, x.astype('float64') if dtype.char == 'd' else x)
    iy, oky = bin_of(ya, yv, y.astype('float64') if dtype.char == 'd' else y)
    keep = okx & oky
    x, y, ix, iy = x[keep], y[keep], ix[keep], iy[keep]
    z = draw(rng, (len(x), ), dtype)
    if rng.random() < .2 and len(x):
        x[rng.random(len(x)) < .1] = np.nan
        y[rng.random(len(x)) < .1] = np.nan
    bad = np.isnan(x) | np.isnan(y) | np.isnan(z)
    return x, y, z, np.where(bad, -1, ix), np.where(bad, -1, iy)


def cast(rng, *arrays):
    """The same samples in another shape."""
    n = len(arrays[0])
    if n % 2 == 0 and n and rng.random() < .3:
        return [a.reshape(2, -1) for a in arrays]
    return [strided(rng, a) for a in arrays]


@section(1200)
def cells2d(ctx, rng):
    """Each cell of a Histogram2D is the histogram of the samples nearest to its node."""
    dtype, kw, eps = setting(rng)
    axes = plane(rng)
    (xa, xv), (ya, yv) = axes
    arg = [None, 1, 2, 3, 10, 150][int(rng.integers(0, 6))]
    limit = 100 if arg is None else arg
    h = Histogram2D(xa, ya, arg, **kw)
    pushed = []
    merged = False
    log = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        x, y, z, ix, iy = samples_of(rng, axes, int(rng.choice([0, 3, 40, 300])), dtype)
        r = rng.random()
        before = pickle.dumps(h._instance)
        if r < .5:
            h.push(*cast(rng, x, y, z))
            log.append('push')
        else:
            size = arg if rng.random() < .6 else 7
            other = Histogram2D(xa, ya, size, **kw)
            if r < .8:
                other.push(*cast(rng, x, y, z))
            elif len(x):
                n = int(rng.integers(1, len(x) + 1))
                other = other.push_delayed(*(da.from_array(a, n) if rng.random() < .8 or n < len(x) else a for a in (x, y, z))).compute()
                ctx.check(other.dtype == dtype and other.bin_counts == size, 'delayed properties', got_=(other.dtype, other.bin_counts))
                used = (~np.isnan(other._instance.histograms()['value'])).sum(axis=-1)
                ctx.check(used.max() <= (size or 100), 'delayed number of bins', used=int(used.max()), size=size)
            after = pickle.dumps(other._instance)
            if rng.random() < .3:
                h = pickle.loads(pickle.dumps(h))
            old = h
            h = h + other
            merged = True
            ctx.check(h is not old and pickle.dumps(old._instance) == before, 'sum changes the left operand')
            ctx.check(pickle.dumps(other._instance) == after, 'sum changes the right operand')
            log.append('sum')
        if rng.random() < .1:
            h.clear()
            pushed = []
            log.append('clear')
        else:
            pushed.append((z, ix, iy))
    z, ix, iy = (np.concatenate([p[i] for p in pushed]) if pushed else np.zeros(0, dtype) for i in range(3))
    ctx.case(xv, yv, z, ix, iy, dtype=str(dtype), shape=(len(xv), len(yv)), bin_counts=arg, log=log)
    got = {k: h.variable({'var': 'variance'}.get(k, k)) for k in KINDS if k != 'size'}
    got['mean2'] = h.variable()
    for k, v in got.items():
        if not ctx.check(v.shape == (len(xv), len(yv)), 'cells shape', k, got_=v.shape):
            return
    ctx.equal(got['mean'], got.pop('mean2'), 'default variable')
    bins = h._instance.histograms()
    quant = {q: h.variable('quantile', q) for q in QS}
    got['size'] = (~np.isnan(bins['value'])).sum(axis=-1)
    for i in range(len(xv)):
        for j in range(len(yv)):
            v = z[(ix == i) & (iy == j)]
            judge_bins(ctx, v, np.ones(len(v), dtype), bins[i, j], {k: x[i, j] for k, x in got.items()}, limit, eps, 'cells',
                       {q: x[i, j] for q, x in quant.items()}, cell=(i, j), merges=int(merged), log=log, x=xv, y=yv, circle=xa.is_circle)
            if not merged and len(v) and log == ['push']:
                s = StreamingHistogram(v, bin_count=limit, **kw)
                b = bins[i, j]
                ctx.check(s.bins()[0].tobytes() == b[:len(s.bins()[0])].tobytes(), 'cell and stream', cell=(i, j))


@section(200)
def refusals(ctx, rng):
    x = rng.normal(0, 1, (3, 4))
    bad = int(rng.integers(1, 50))
    ctx.case(bad)
    E = (ValueError, TypeError, IndexError)
    h = StreamingHistogram(x)
    ctx.raises(E, lambda: StreamingHistogram(x, axis=1 + bad), 'axis too large')
    ctx.raises(E, lambda: StreamingHistogram(x, np.ones((4, 3))), 'weights of another shape')
    ctx.raises(E, lambda: StreamingHistogram(x, dtype=np.dtype('int32')), 'dtype')
    ctx.raises(E, lambda: h.quantile(1 + bad), 'quantile above one')
    ctx.raises(E, lambda: h.quantile(-.01 * bad), 'negative quantile')
    before = h.bins().tobytes()
    ctx.raises(E, lambda: h.__iadd__(StreamingHistogram(x, dtype=np.dtype('float32'))), 'merge of two types')
    ctx.raises(E, lambda: h.__iadd__(StreamingHistogram(x, axis=0)), 'merge of two shapes')
    ctx.raises(E, lambda: h.__iadd__(1), 'sum with a number')
    n, m = int(rng.integers(1, 5)), int(rng.integers(5, 9))
    data = rng.normal(size=(n, m, 6))
    for one, two in ((data, data.transpose(1, 0, 2)), (data, data.reshape(n * m, 6)), (data[:1], data[0])):
        g = StreamingHistogram(one, axis=one.ndim - 1)
        kept = [g.bins().tobytes(), g.count().tobytes()]
        ctx.raises(E, lambda: g.__iadd__(StreamingHistogram(two, axis=two.ndim - 1)), 'merge of two shapes of the same size', shapes=str((one.shape, two.shape)))
        ctx.check([g.bins().tobytes(), g.count().tobytes()] == kept, 'failed merge changes the histogram')
    ctx.check(h.bins().tobytes() == before, 'failed merge changes the histogram')
    (xa, _), (ya, _) = plane(rng)
    g = Histogram2D(xa, ya)
    v = np.zeros(5)
    ctx.raises(E, lambda: g.push(v, v, np.zeros(5 + bad)), 'samples of another size')
    ctx.raises(E, lambda: g.push(v, np.zeros(4), v), 'coordinates of another size')
    ctx.raises(E, lambda: Histogram2D(xa, ya, dtype=np.dtype('int32')), 'dtype 2d')
    ctx.raises(E, lambda: g + Histogram2D(xa, ya, dtype=np.dtype('float32')), 'sum of two types')
    ctx.raises(E, lambda: g.variable('no such'), 'unknown variable')
    ctx.raises(E, lambda: g + Histogram2D(xa, Axis(np.arange(50.))), 'sum of two grids')
    for i in range(2):
        for other in altered(rng, (xa, ya)[i]):
            grid = (other, ya) if i == 0 else (xa, other)
            ctx.raises(E, lambda: g + Histogram2D(*grid), 'sum of two grids of the same size', axis=i, other=str(other), own=str((xa, ya)[i]))


@section(4, 24)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c22(ctx, rng)
