"""C23: descriptive statistics equal the batch definition."""
import copy
import pickle

import dask.array as da
import numpy as np
from pyinterp import DescriptiveStatistics

import vt
import large
from vt import section

PARTS = ['statistics']
RULE = ('A case is one random array (or a set of arrays accumulated in several pieces) reduced by DescriptiveStatistics, whose nine '
        'quantities are compared with their definition computed in extended precision on the whole set. Non-trivial: at '
        'least one quantity was judged.')
ASSUMES = ['the minimum and maximum of weighted samples are those of weight * value, as the tests of the library require',
           'weights are not negative', 'skewness and kurtosis of samples whose spread is below the rounding errors are not judged']
L = np.longdouble


class Moments:
    """The definition: of the values v with weights w, along the last axis of a list of sets."""

    def __init__(self, v, w, eps, merges=1):
        ok = ~np.isnan(v)
        v, w = v[ok].astype(L), w[ok].astype(L)
        self.count = len(v)
        self.sum_of_weights = w.sum()
        self.sum = (w * v).sum()
        nan = L('nan')
        pos = w > 0
        self.whole = bool(np.all(w == np.round(w))) and self.sum_of_weights < 1e6
        self.min = (w * v).min() if len(v) else nan
        self.max = (w * v).max() if len(v) else nan
        W = self.sum_of_weights
        self.mean = self.sum / W if W > 0 else nan
        d = v[pos] - self.mean
        self.m = [(w[pos] * d**k).sum() for k in (2, 3, 4)]
        n = len(v) + 4 * merges
        s = abs(v[pos]).max() if pos.any() else L(0)
        r = abs(d).max() if pos.any() else L(0)
        e = 8 * eps * n
        self.flat = pos.any() and r == 0
        r = max(r, eps * s)
        self.tmean = e * s
        self.tsum = e * max(abs(w * v).sum(), L(1e-300))
        self.tW = e * W
        # the moments of the deviations, each known within eps * s, and the sums
        self.t = [e * W * (r**k + k * s * r**(k - 1)) for k in (2, 3, 4)]

    def var(self, ddof):
        return self.m[0] / (self.sum_of_weights - ddof) if self.sum_of_weights - ddof > 0 else L('nan')

    def shape(self, k):
        """The skewness or the kurtosis, and their tolerance."""
        m2, mk, W = self.m[0], self.m[k - 2], self.sum_of_weights
        t2, tk = self.t[0], self.t[k - 2]
        f = W**(L(k) / 2 - 1)
        v = f * mk / m2**(L(k) / 2) - (3 if k == 4 else 0)
        return v, f * (tk / m2**(L(k) / 2) + L(k) / 2 * abs(mk) * t2 / m2**(L(k) / 2 + 1)) + 1e-13 * (abs(v) + 3)


def judge(ctx, stats, sets, key, eps, merges=1, shape=None, **w):
    """sets: the list of (values, weights) of every cell."""
    got = {k: getattr(stats, k)() for k in ('count', 'sum_of_weights', 'sum', 'min', 'max', 'mean', 'skewness', 'kurtosis')}
    shape = shape if shape is not None else (1, )
    for k, v in got.items():
        if not ctx.check(v.shape == shape, key + ' shape', k, got_=v.shape, want_=shape, **w):
            return
    var = {d: stats.var(d) for d in (0, 1, 2, 3)}
    std = stats.std(1)
    table = stats.array()
    for k in got:
        ctx.equal(table[k], got[k], key + ' array', k, **w)
    ctx.equal(table['var'], var[0], key + ' array', 'var', **w)
    with np.errstate(all='ignore'):
        ctx.close(std, np.sqrt(var[1]), key + ' std', rtol=1e-6, **w)
    for i, (v, wt) in enumerate(sets):
        m = Moments(v, wt, eps, merges)
        g = {k: x.ravel()[i] for k, x in got.items()}
        ww = dict(cell=i, values=v, weights=wt, **w)
        ctx.equal(g['count'], m.count, key + ' count', **ww)
        ctx.close(g['sum_of_weights'], m.sum_of_weights, key + ' sum_of_weights', atol=float(m.tW), **ww)
        ctx.close(g['sum'], m.sum, key + ' sum', atol=float(m.tsum), **ww)
        for k in ('min', 'max'):
            ctx.close(g[k], getattr(m, k), key + ' ' + k, rtol=4 * eps, **ww)
        if m.sum_of_weights == 0:
            if m.count == 0:
                for k in ('mean', 'skewness', 'kurtosis'):
                    ctx.check(np.isnan(g[k]), key + ' empty', k, got_=g[k], **ww)
            continue
        ctx.close(g['mean'], m.mean, key + ' mean', atol=float(m.tmean), **ww)
        for d, x in var.items():
            want = m.var(d)
            if m.sum_of_weights == d and m.whole:
                ctx.check(np.isnan(x.ravel()[i]), key + ' var', f'ddof {d}, the sum of the weights', got_=x.ravel()[i], **ww)
            if abs(m.sum_of_weights - d) <= 4 * m.tW:
                continue
            ctx.close(x.ravel()[i], want, key + ' var', what=f'ddof {d}',
                      atol=float((m.t[0] + abs(want) * m.tW) / (m.sum_of_weights - d)) if np.isfinite(want) else 0., **ww)
        ctx.check(not var[0].ravel()[i] < 0, key + ' var sign', got_=var[0].ravel()[i], **ww)
        s4 = m.sum_of_weights**3 * np.nanmax(abs(v), initial=0.).astype(L)**4  # must not overflow
        for name, k in (('skewness', 3), ('kurtosis', 4)):
            if m.flat:
                ctx.check(np.isnan(g[name]) or merges > 1, key + ' ' + name + ' of equal values', got_=g[name], **ww)
            elif s4 < (1e36 if eps > 1e-10 else 1e300) and m.m[0] > 20 * m.t[0] and m.m[0] > 1e-25 * (1e10 if eps > 1e-10 else 1):
                want, tol = m.shape(k)
                ctx.close(g[name], want, key + ' ' + name, atol=float(tol) * 4, **ww)


def sample(rng, shape, dtype):
    kind = int(rng.integers(0, 8))
    s = 10**rng.uniform(-3, 4)
    x = rng.normal(0, s, shape)
    if kind == 1:
        x = x + s * 10**rng.uniform(0, 6)
    elif kind == 2:
        x = np.full(shape, rng.choice([0., 1., -3.5, 1e6, s]))
    elif kind == 3:
        x = rng.integers(-3, 4, shape).astype('float64')
    elif kind == 4:
        x = abs(x) + s
    elif kind == 5:
        x = -abs(x) - s
    elif kind == 6:
        x = rng.exponential(s, shape)**2
    x = np.asarray(x, dtype='float64')
    if rng.random() < .3:
        x[rng.random(shape) < rng.choice([.1, .5, 1.])] = np.nan
    return x.astype(dtype)


def weigh(rng, shape, dtype):
    kind = int(rng.integers(0, 5))
    w = rng.uniform(.1, 3, shape)
    if kind == 1:
        w = rng.integers(1, 5, shape).astype('float64')
    elif kind == 2:
        w = np.full(shape, float(rng.choice([1., 2., .5])))
    elif kind == 3:
        w = np.where(rng.random(shape) < .3, 0., w)
    elif kind == 4:
        w = w * 10**rng.uniform(-3, 3, shape)
    return np.asarray(w).astype(dtype)


def setting(rng):
    dtype = np.dtype(rng.choice(['float64', 'float64', 'float32']))
    return dtype, {'dtype': dtype} if dtype.char == 'f' or rng.random() < .5 else {}, float(np.finfo(dtype).eps)


def shape_of(rng, ndim=None):
    ndim = int(rng.choice([1, 2, 3, 4])) if ndim is None else ndim
    top = [0, 60, 14, 7, 5][ndim] if ndim else 0
    return tuple(int(rng.integers(0, top + 1)) if rng.random() < .04 else int(rng.choice([1, 2, rng.integers(1, top + 1)])) for _ in range(ndim))


def strided(rng, x):
    """The same values with another layout in memory."""
    r = rng.random()
    if r < .5 or not x.ndim:
        return x
    if r < .65:
        return np.asfortranarray(x)
    if r < .8:
        big = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        big[tuple(slice(0, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(0, None, 2) for _ in x.shape)]
    if r < .9:
        return np.ascontiguousarray(x.T).T
    return x[::-1].copy()[::-1]


def cells(x, w, axis):
    """The sets reduced in every cell, in C order."""
    keep = [i for i in range(x.ndim) if i not in axis]
    order = keep + sorted(axis)
    shape = tuple(x.shape[i] for i in keep)
    n = int(np.prod(shape))
    return shape, list(zip(x.transpose(order).reshape(n, -1) if n else [], w.transpose(order).reshape(n, -1) if n else []))


@section(2500)
def whole(ctx, rng):
    dtype, kw, eps = setting(rng)
    x = sample(rng, shape_of(rng), dtype)
    w = weigh(rng, x.shape, dtype) if rng.random() < .6 else None
    ctx.case(x, w, dtype=str(dtype), shape=x.shape, weights=w is not None)
    s = DescriptiveStatistics(strided(rng, x), None if w is None else strided(rng, w), **kw)
    judge(ctx, s, [(x.ravel(), (np.ones(x.shape, dtype) if w is None else w).ravel())], 'whole', eps, weighted=w is not None)
    if w is None and not np.isnan(x).any() and x.size > 1 and eps < 1e-10:
        ctx.close(s.var()[0], np.var(x), 'numpy var', rtol=1e-8, atol=1e-12 * float(abs(x).max())**2)


@section(2500)
def reduced(ctx, rng):
    dtype, kw, eps = setting(rng)
    x = sample(rng, shape_of(rng), dtype)
    n = int(rng.integers(1, x.ndim + 1))
    axis = [int(i) for i in rng.permutation(x.ndim)[:n]]
    w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
    arg = axis[0] if n == 1 and rng.random() < .5 else tuple(axis)
    if rng.random() < .03:
        axis, arg = [], ()
    ctx.case(x, w, tuple(axis), dtype=str(dtype), shape=x.shape, axis=axis, weights=w is not None)
    s = DescriptiveStatistics(strided(rng, x), None if w is None else strided(rng, w), axis=arg, **kw)
    shape, sets = cells(x, np.ones(x.shape, dtype) if w is None else w, axis)
    judge(ctx, s, sets, 'axis', eps, shape=shape, axis=arg, weighted=w is not None)
    # memory layouts which numpy considers contiguous
    if x.ndim > 1 and rng.random() < .3:
        y = sample(rng, (7, ), dtype)
        for v in (y[:, None].T, np.broadcast_to(y, (1, 7)), y[None, :, None].transpose(2, 1, 0)):
            a = int(rng.integers(0, v.ndim))
            s = DescriptiveStatistics(v, axis=a, **kw)
            shape, sets = cells(v, np.ones(v.shape, dtype), [a])
            judge(ctx, s, sets, 'layout', eps, shape=shape, axis=a, strides=v.strides, shape_in=v.shape)


@section(2500)
def history(ctx, rng):
    """Statistics accumulated in pieces, through merges, copies and pickles."""
    dtype, kw, eps = setting(rng)
    ndim = int(rng.choice([1, 2, 3]))
    shape = shape_of(rng, ndim)
    axis = None if rng.random() < .4 else [int(i) for i in rng.permutation(ndim)[:int(rng.integers(1, ndim + 1))]]
    pieces = int(rng.choice([1, 2, 3, 6]))
    stats = []
    log = []
    for _ in range(pieces):
        size = list(shape)
        for i in (range(ndim) if axis is None else axis):
            size[i] = int(rng.integers(0, 6)) if rng.random() < .9 else 0
        x = sample(rng, tuple(size), dtype)
        if rng.random() < .2:
            x[...] = np.nan
        w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
        s = DescriptiveStatistics(x, w, axis=axis, **kw)
        w = np.ones(x.shape, dtype) if w is None else w
        sh, sets = ((1, ), [(x.ravel(), w.ravel())]) if axis is None else cells(x, w, axis)
        stats.append((s, sets))
    ctx.case(*[np.concatenate([np.concatenate(c) for c in sets]) if sets else 0 for _, sets in stats],
             dtype=str(dtype), shape=shape, axis=axis, pieces=pieces)
    s, sets = stats[0]
    for t, more in stats[1:]:
        before = s.array(), t.array()
        r = rng.random()
        old, other = s, t
        if r < .4:
            s += t
            log.append('+=')
            ctx.check(s is old, 'iadd returns itself')
            ctx.check(t.array().tobytes() == before[1].tobytes(), 'iadd changes the right operand', log=log)
        elif r < .7:
            s = s + t
            log.append('+')
            ctx.check(s is not old and s is not t, 'add aliases')
            ctx.check(old.array().tobytes() == before[0].tobytes(), 'add changes the left operand', log=log)
            ctx.check(t.array().tobytes() == before[1].tobytes(), 'add changes the right operand', log=log)
        else:
            c = s.copy() if r < .8 else copy.deepcopy(s) if r < .9 else pickle.loads(pickle.dumps(s))
            ctx.check(c.array().tobytes() == before[0].tobytes(), 'copy', log=log)
            c += t
            log.append('copy')
            ctx.check(old.array().tobytes() == before[0].tobytes(), 'copy aliases', log=log)
            s = c
        sets = [(np.concatenate([a[0], b[0]]), np.concatenate([a[1], b[1]])) for a, b in zip(sets, more)]
    judge(ctx, s, sets, 'merge', eps, merges=2 * len(stats), shape=sh, log=log, axis=axis)
    if rng.random() < .3:
        s += s
        judge(ctx, s, [(np.concatenate([a, a]), np.concatenate([b, b])) for a, b in sets], 'self merge', eps,
              merges=4 * len(stats), shape=sh, axis=axis)


def chunk(rng, n):
    k = int(rng.integers(1, max(n, 1) + 1))
    return k


@section(700)
def delayed(ctx, rng):
    """The same statistics from a chunked array."""
    dtype, kw, eps = setting(rng)
    x = sample(rng, tuple(int(n) + 1 for n in rng.integers(0, 7, int(rng.integers(1, 4)))), dtype)
    axis = None if rng.random() < .4 else [int(i) for i in rng.permutation(x.ndim)[:int(rng.integers(1, x.ndim + 1))]]
    w = weigh(rng, x.shape, dtype) if rng.random() < .5 else None
    chunks = tuple(chunk(rng, n) for n in x.shape)
    others = chunks if rng.random() < .6 else tuple(chunk(rng, n) for n in x.shape)
    ctx.case(x, w, chunks, others, dtype=str(dtype), axis=axis, shape=x.shape, chunks=chunks)
    dx = da.from_array(x, chunks)
    dw = None if w is None else da.from_array(w, others) if rng.random() < .8 else w
    s = DescriptiveStatistics(dx, dw, axis=axis, **kw)
    wt = np.ones(x.shape, dtype) if w is None else w
    sh, sets = ((1, ), [(x.ravel(), wt.ravel())]) if axis is None else cells(x, wt, axis)
    judge(ctx, s, sets, 'delayed', eps, merges=40, shape=sh, axis=axis, chunks=chunks, others=others)


@section(150)
def refusals(ctx, rng):
    x = rng.normal(0, 1, (3, 4))
    bad = int(rng.integers(1, 50))
    ctx.case(bad)
    E = (ValueError, TypeError, IndexError)
    ctx.raises(E, lambda: DescriptiveStatistics(x, axis=1 + bad), 'axis too large')
    ctx.raises(E, lambda: DescriptiveStatistics(x, axis=(0, -bad)), 'negative axis')
    ctx.raises(E, lambda: DescriptiveStatistics(x, np.ones((4, 3))), 'weights of another shape')
    ctx.raises(E, lambda: DescriptiveStatistics(x, np.ones(12)), 'weights of another rank')
    ctx.raises(E, lambda: DescriptiveStatistics(x, dtype=np.dtype('int32')), 'dtype')
    a = DescriptiveStatistics(x)
    before = a.array().tobytes()
    ctx.raises(E, lambda: a.__iadd__(DescriptiveStatistics(x, dtype=np.dtype('float32'))), 'merge of two types')
    ctx.raises(E, lambda: a.__iadd__(DescriptiveStatistics(x, axis=0)), 'merge of two shapes')
    ctx.raises(E, lambda: a + 1, 'sum with a number')
    n, m = int(rng.integers(1, 5)), int(rng.integers(5, 9))
    data = rng.normal(size=(n, m, 6))
    for one, two in ((data, data.transpose(1, 0, 2)), (data, data.reshape(n * m, 6)), (data[:1], data[0])):
        g, o = DescriptiveStatistics(one, axis=one.ndim - 1), DescriptiveStatistics(two, axis=two.ndim - 1)
        kept = [g.mean().tobytes(), g.count().tobytes()]
        ctx.raises(E, lambda: g.__iadd__(o), 'merge of two shapes of the same size', shapes=str((one.shape, two.shape)))
        ctx.raises(E, lambda: g + o, 'merge of two shapes of the same size', shapes=str((one.shape, two.shape)))
        ctx.check([g.mean().tobytes(), g.count().tobytes()] == kept, 'failed merge changes the statistics')
    ctx.check(a.array().tobytes() == before, 'failed merge changes the statistics')


@section(4, 24)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c23(ctx, rng)
