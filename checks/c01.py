"""C01: axis lookup is an exact nearest / bracketing search."""
import copy
import pickle

import numpy as np
import pyinterp
from pyinterp import core

import gen
import large
from vt import section

PARTS = ['axis']
NATIVE = ['axis']
RULE = ('A case is one axis (2 to 200 values, regular or irregular, both orders, many scales) with a batch of query '
        'coordinates (on nodes, one ulp beside them, mid-cell, inside, just outside, far outside, non-finite); every '
        'returned index is judged by a brute-force search over the axis values. Non-trivial: the axis was built and '
        'at least one lookup was judged.')
ASSUMES = ['two values whose distances to the coordinate differ by less than 1e-9 of the local step are both accepted as nearest']


def judge_find_index(ctx, ax, x, q, kind):
    d = np.abs(np.diff(x))
    step = float(d.mean())
    # rounding slack: the values themselves are only known up to ulps of the
    # largest magnitude
    slack = 1e-9 * d.min() + 16 * np.spacing(max(np.abs(x).max(), np.abs(q[np.isfinite(q)]).max(initial=0) * 1e-6))
    lo, hi = x.min(), x.max()
    dist = np.abs(q[:, None] - x[None, :])
    best = dist.min(axis=1)
    got = ax.find_index(q, False)
    ctx.check(got.shape == q.shape, 'find_index:shape')
    inside = (q >= lo) & (q <= hi)
    half = 0.5 * d.max() if kind == 'regular' else 0.0
    outside = (q < lo - half - slack) | (q > hi + half + slack)
    ctx.all((got >= -1) & (got < len(x)), 'find_index:range', q=q, got=got, x=x)
    gi = np.clip(got, 0, len(x) - 1)
    near = dist[np.arange(len(q)), gi] <= best + slack
    ctx.all(np.where(inside, (got >= 0) & near, True), 'find_index:nearest', q=q, got=got, x=x)
    ctx.all(np.where(outside, got == -1, True), 'find_index:outside', q=q, got=got, x=x)
    ctx.all(np.where(got >= 0, near, True), 'find_index:located-not-nearest', q=q, got=got, x=x)
    b = ax.find_index(q, True)
    ctx.all((b >= 0) & (b < len(x)), 'find_index:bounded-range', q=q, got=b, x=x)
    bi = np.clip(b, 0, len(x) - 1)
    ctx.all(dist[np.arange(len(q)), bi] <= best + np.maximum(slack, 1e-12 * best), 'find_index:bounded', q=q, got=b, x=x)
    ctx.all(np.where(got >= 0, got == b, True), 'find_index:bounded-differs-inside', q=q, got=b, x=x)
    ctx.count('in', inside.sum())
    ctx.count('out', outside.sum())
    del step


def judge_find_indexes(ctx, ax, x, q):
    n = len(x)
    got = ax.find_indexes(q)
    ctx.check(got.shape == (q.size, 2), 'find_indexes:shape')
    i0, i1 = got[:, 0], got[:, 1]
    lo, hi = x.min(), x.max()
    ulp = 16 * np.spacing(np.abs(x).max()) + 4 * n * np.spacing(np.abs(np.diff(x)).max()) + 1e-12 * np.abs(np.diff(x)).min()
    inside = (q >= lo + ulp) & (q <= hi - ulp) 
    own = ax[:]  # the end values as the axis itself states them are on it
    inside |= (q == own[0]) | (q == own[-1])
    outside = (q < lo - ulp) | (q > hi + ulp)
    none = (i0 == -1) & (i1 == -1)
    some = (i0 >= 0) & (i0 < n) & (i1 >= 0) & (i1 < n)
    ctx.all(none | some, 'find_indexes:range', q=q, i0=i0, i1=i1, x=x)
    ctx.all(np.where(outside, none, True), 'find_indexes:outside', q=q, i0=i0, i1=i1, x=x)
    ctx.all(np.where(inside, some, True), 'find_indexes:inside', q=q, i0=i0, i1=i1, x=x)
    a, b = np.where(some, i0, 0), np.where(some, i1, 1)
    ctx.all(np.abs(a - b) == 1, 'find_indexes:consecutive', q=q, i0=i0, i1=i1, x=x)
    vlo, vhi = np.minimum(x[a], x[b]), np.maximum(x[a], x[b])
    ctx.all(np.where(some, (vlo <= q + ulp) & (q <= vhi + ulp), True), 'find_indexes:bracket', q=q, i0=i0, i1=i1, x=x)
    # self[i0] <= coordinate <= self[i1] off the nodes
    off = some & (np.abs(q - vlo) > ulp) & (np.abs(q - vhi) > ulp)
    ctx.all(np.where(off, (x[a] <= q) & (q <= x[b]), True), 'find_indexes:order', q=q, i0=i0, i1=i1, x=x)
    if x[0] < x[-1]:
        ctx.all(np.where(some, b == a + 1, True), 'find_indexes:ascending-order', q=q, i0=i0, i1=i1, x=x)


def build(ctx, rng):
    x, info = gen.axis_values(rng)
    if rng.random() < .2:  # far from zero compared with the step
        shift = float(rng.choice([-1, 1])) * 10.0**rng.uniform(2, 5) * np.abs(np.diff(x)).min()
        # (the sum may cancel: the values must be as regular as they say)
        x = x + shift if info['kind'] != 'regular' else (x[0] + shift) + np.arange(len(x)) * (x[1] - x[0])
    eps = 1e-6
    if np.abs(np.diff(x)).min() < 1e-2:
        eps = float(np.abs(np.diff(x)).min() * 1e-4)
    elif rng.random() < .3:
        eps = float(rng.choice([1e-9, 1e-8, 1e-7, 1e-5, 1e-4]))
    eps = min(1e-4, max(eps, 64 * np.spacing(np.abs(x).max())))
    ax = core.Axis(x, eps, False)
    how = rng.random()
    if how < .15:  # built from its limits and its size when it is regular
        ax = pickle.loads(pickle.dumps(ax))
        ctx.count('unpickled')
    elif how < .25:
        ax = copy.copy(ax)
    elif how < .4:
        ax = core.Axis(x[::-1].copy(), eps, False).flip(bool(rng.integers(0, 2)))
        ctx.count('flipped')
    return x, info, eps, ax


@section(20000, 1000000)
def lookup(ctx, rng):
    x, info, eps, ax = build(ctx, rng)
    q = gen.chain(rng, [np.concatenate([gen.axis_queries(rng, x), ax[:][[0, -1]]])])[0]
    ctx.case(x=x, q=q, **info)
    ctx.count(f'{info["kind"]} {info["order"]}')
    judge_find_index(ctx, ax, x, q, info['kind'])
    judge_find_indexes(ctx, ax, x, q)
    # the same after turning the axis over
    f = ax.flip(False)
    judge_find_index(ctx, f, x[::-1], q, info['kind'])
    judge_find_indexes(ctx, f, x[::-1], q)
    if rng.random() < .5:  # non-contiguous queries
        w = np.repeat(q, 2)
        w[1::2] = np.nan
        ctx.equal(ax.find_index(w[::2], False), ax.find_index(q, False), 'find_index:strided')
        ctx.equal(ax.find_indexes(w[::2]), ax.find_indexes(q), 'find_indexes:strided')


@section(2000, 40000)
def huge(ctx, rng):
    """Axes of extreme magnitude, far and non-finite coordinates."""
    n = int(rng.integers(2, 20))
    scale = 10.0**rng.uniform(-200, 200)
    kind = str(rng.choice(['regular', 'irregular']))
    x, info = gen.axis_values(rng, n=n, kind=kind, scale=1.0, origin=float(rng.integers(-5, 5)))
    x = x * scale
    ax = core.Axis(x, 1e-9 * min(scale, 1.0), False)
    q = np.concatenate([rng.uniform(x.min(), x.max(), 16), x, [x.max() * 1e30 + 1e280, -1e300, 1e300]])
    ctx.case(x=x, q=q, **info)
    judge_find_index(ctx, ax, x, q, info['kind'])
    judge_find_indexes(ctx, ax, x, q)
    bad = np.array([np.nan, np.inf, -np.inf])
    ctx.equal(ax.find_index(bad, False), [-1, -1, -1], 'find_index:non-finite', x=x)
    ctx.equal(ax.find_indexes(bad), np.full((3, 2), -1), 'find_indexes:non-finite', x=x)
    up = x[0] < x[-1]
    ctx.equal(ax.find_index(bad[1:], True), [n - 1, 0] if up else [0, n - 1], 'find_index:infinite-bounded', x=x)


@section(6000, 200000)
def shape_of_axis(ctx, rng):
    """Values, bounds, slices, flip, equality, regularity, repr, copy."""
    x, info, eps, ax = build(ctx, rng)
    n = len(x)
    tol = 16 * np.spacing(np.abs(x).max()) + 4 * n * np.spacing(np.abs(np.diff(x)).max())
    ctx.case(x=x, **info)
    ctx.check(len(ax) == n, 'len')
    ctx.close(ax[:], x, 'values', atol=tol)
    ctx.close([ax[i] for i in range(n)], x, 'getitem', atol=tol)
    for _ in range(3):
        a, b, c = sorted(rng.integers(-n - 1, n + 2, 2).tolist()) + [int(rng.choice([1, 2, 3, -1, -2]))]
        s = slice(a if rng.random() < .8 else None, b if rng.random() < .8 else None, c)
        if c < 0:
            s = slice(s.stop, s.start, c)
        ctx.close(ax[s], x[s], 'slice', atol=tol, s=repr(s))
    ctx.raises(IndexError, lambda: ax[n], 'getitem:range')
    ctx.close([ax.front(), ax.back(), ax.min_value(), ax.max_value()], [x[0], x[-1], x.min(), x.max()], 'bounds', atol=tol)
    ctx.check(ax.is_ascending() == (x[0] < x[1]), 'is_ascending')
    ctx.check(ax.is_regular() == (info['kind'] == 'regular'), 'is_regular', x=x, eps=eps)
    ctx.check(not ax.is_circle, 'is_circle')
    if ax.is_regular():
        ctx.close(ax.increment(), (x[-1] - x[0]) / (n - 1), 'increment', atol=tol)
    else:
        ctx.raises(RuntimeError, ax.increment, 'increment:irregular')
    f = ax.flip(False)
    ctx.close(f[:], x[::-1], 'flip', atol=tol)
    ctx.close(ax[:], x, 'flip:source', atol=tol)
    ctx.check(f.is_ascending() != ax.is_ascending() and f != ax, 'flip:order')
    ctx.close([f.front(), f.back(), f.min_value(), f.max_value()], [x[-1], x[0], x.min(), x.max()], 'flip:bounds', atol=tol)
    same = core.Axis(x.copy(), eps, False)
    other = core.Axis(x.copy(), eps, False)
    ctx.check(same == other and not same != other, 'eq')
    y = x.copy()
    y[int(rng.integers(0, n))] += np.abs(np.diff(x)).min() * 0.25
    ctx.check(core.Axis(y, eps, False) != ax, 'ne')
    y = x.copy()  # a difference of some units in the last place
    k = 0 if ax.is_regular() else int(rng.integers(0, n))
    y[k] += rng.choice([-1, 1]) * min(10.0**rng.uniform(0, 8) * np.spacing(max(abs(y[k]), 1e-300)), np.abs(np.diff(x)).min() * .25)
    if y[k] != x[k]:
        ctx.check(core.Axis(y, eps, False) != core.Axis(x.copy(), eps, False), 'ne: small difference', x=x, y=y)
    if n > 2:
        ctx.check(core.Axis(x[:-1].copy(), eps, False) != ax, 'ne:size')
    g = core.Axis(x, eps, False)
    h = g.flip(True)
    ctx.close(g[:], x[::-1], 'flip:inplace', atol=tol)
    h.flip(True)
    ctx.close(h[:], x, 'flip:twice', atol=tol)
    ctx.check('Axis' in repr(ax), 'repr')


@section(2000, 20000)
def rejected(ctx, rng):
    """Values that are not strictly monotonic are refused, and so is nothing else."""
    n = int(rng.integers(3, 30))
    x, info = gen.axis_values(rng, n=n, kind='irregular')
    bad = x.copy()
    i, j = sorted(rng.choice(n, 2, replace=False))
    how = int(rng.integers(0, 2))
    if how == 0:
        bad[j] = bad[i]
    else:
        bad[[i, j]] = bad[[j, i]]
        if n == 3 and (i, j) == (0, 2):
            bad = x.copy()
            bad[1] = bad[0]
    ctx.case(x=bad, how=how)
    ctx.raises(ValueError, lambda: core.Axis(bad, 1e-9, False), 'not-monotonic accepted', x=bad)
    ctx.raises(ValueError, lambda: core.Axis(np.array([]), 1e-9, False), 'empty accepted')
    ctx.raises(ValueError, lambda: core.Axis(np.zeros((2, 2)), 1e-9, False), '2-d accepted')
    ctx.raises(ValueError, lambda: core.Axis(x, 1e-9, False).find_index(np.zeros((2, 2)), False), '2-d queries accepted')
    ctx.check(len(pyinterp.Axis(x, 1e-9)) == n, 'monotonic refused')


@section(60, 600)
def single(ctx, rng):
    """An axis of one value: only that value is on it."""
    v = float(rng.normal() * 10.0**rng.integers(-3, 4))
    ax = core.Axis(np.array([v]))
    ctx.case(v=v)
    q = np.array([v, np.nextafter(v, np.inf), v + 1, v - 1])
    ctx.equal(ax.find_index(q, False), [0, -1, -1, -1], 'single')
    ctx.equal(ax.find_index(q, True), [0, 0, 0, 0], 'single:bounded')
    ctx.check(len(ax) == 1 and ax[0] == v and ax.front() == ax.back() == v, 'single:values')


class Raw:
    """The C++ axis, seen as the Python one."""

    def __init__(self, ax, method='find_nearest_index'):
        self.ax, self.method = ax, method

    def find_index(self, q, bounded):
        return np.array(getattr(self.ax, self.method)(q, bounded))

    def find_indexes(self, q):
        return np.array(self.ax.find_indexes(q)).reshape(-1, 2)

    def __getitem__(self, s):
        return np.array(self.ax.values()[0])[s]


def window(i, n, size, boundary):
    """Indices framing the cell (i, i + 1), size on each side."""
    out = []
    for k in range(i - size + 1, i + size + 1):
        if not 0 <= k < n:
            if boundary == 'undef':
                return []
            if boundary == 'expand':
                k = min(max(k, 0), n - 1)
            elif boundary == 'wrap':
                k %= n
            else:
                k %= 2 * (n - 1)
                k = min(k, 2 * (n - 1) - k)
        out.append(k)
    return out


@section(2500, 50000, native='axis')
def raw(ctx, rng):
    """The C++ axis: double, built from values or from its limits."""
    import vtn_axis
    x, info = gen.axis_values(rng)
    n = len(x)
    eps = float(min(1e-4, max(np.abs(np.diff(x)).min() * 1e-4, 64 * np.spacing(np.abs(x).max()))))
    limits = info['kind'] == 'regular' and rng.random() < .5
    ax = vtn_axis.Float64(x[0], x[-1], float(n), eps, False) if limits else vtn_axis.Float64(x, eps, False)
    how = int(rng.integers(0, 5))
    if how == 0:
        ax = ax.copy()
    elif how == 1:
        other = vtn_axis.Float64(np.array([0., 1.]), 1e-6, False)
        other.assign(ax)
        ax = other
    elif how == 2:
        ax.flip()
        x = x[::-1].copy()
    ctx.case(x=x, limits=limits, how=how, **info)
    ctx.count(f'{info["kind"]} {info["order"]}')
    tol = 16 * np.spacing(np.abs(x).max()) + 4 * n * np.spacing(np.abs(np.diff(x)).max())
    for values in ax.values():
        ctx.close(values, x, 'C++: values', atol=tol)
    ctx.check(ax.size() == n and not ax.is_circle() and not ax.is_angle(), 'C++: size')
    ctx.close([ax.front(), ax.back(), ax.min_value(), ax.max_value()], [x[0], x[-1], x.min(), x.max()], 'C++: bounds', atol=tol)
    ctx.check(ax.is_ascending() == (x[0] < x[1]), 'C++: is_ascending')
    ctx.check(ax.is_regular() == (info['kind'] == 'regular'), 'C++: is_regular', x=x, eps=eps)
    if ax.is_regular():
        ctx.close(ax.increment(), (x[-1] - x[0]) / (n - 1), 'C++: increment', atol=tol)
    else:
        ctx.raises(RuntimeError, ax.increment, 'C++: increment')
    a = int(rng.integers(0, n))
    b = int(rng.integers(0, n - a + 1))
    ctx.close(ax.slice(a, b), x[a:a + b], 'C++: slice', atol=tol, a=a, b=b)
    q = np.concatenate([gen.axis_queries(rng, x), np.array(ax.values()[0])[[0, -1]]])
    for method in ('find_index', 'find_nearest_index'):
        judge_find_index(ctx, Raw(ax, method), x, q, info['kind'])
    judge_find_indexes(ctx, Raw(ax), x, q)
    twin = vtn_axis.Float64(x, eps, False)
    ctx.check(ax.same(ax) == (True, False) and twin.same(twin.copy()) == (True, False), 'C++: equality')
    y = x.copy()
    y[int(rng.integers(0, n))] += np.abs(np.diff(x)).min() * 0.25
    ctx.check(vtn_axis.Float64(y, eps, False).same(twin) == (False, True), 'C++: difference')
    if x[0] < x[1]:
        pairs = Raw(ax).find_indexes(q)
        for j in rng.choice(len(q), min(12, len(q)), replace=False):
            size = int(rng.choice([1, 2, 3, 6, n, n + 2]))
            for name, code in vtn_axis.boundaries.items():
                w = window(int(pairs[j, 0]), n, size, name) if pairs[j, 0] >= 0 else []
                ctx.equal(ax.window(q[j], size, code), w, 'C++: window', x=x, q=q[j], size=size, boundary=name)


@section(2500, 50000, native='axis')
def raw_exact(ctx, rng):
    """The C++ axis of integers or single precision numbers."""
    import vtn_axis
    n = int(rng.integers(2, 60))
    integer = rng.random() < .6
    regular = rng.random() < .5
    step = int(rng.choice([1, 2, 3, 7, 100, 86400]))
    x = np.arange(n) * step if regular else np.cumsum(rng.integers(1, 50, n)) * step
    if not integer:
        x = x % 100000 * .25 if regular and n * step < 100000 else np.cumsum(rng.integers(1, 9, n)) * .25
    x = x + (int(rng.integers(-2**40, 2**40)) if integer else float(rng.integers(-1000, 1000)))
    if rng.random() < .4:
        x = x[::-1].copy()
    d = np.abs(np.diff(x))
    q = np.concatenate([x, (x[:-1] + x[1:]) / 2 if not integer else (x[:-1] + x[1:]) // 2, x[:5] + 1, x[-5:] - 1,
                        [x.min() - step, x.max() + step, x.min() - d.max() * 3, x.max() + d.max() * 3], rng.choice(x, 8) + rng.integers(-3, 4, 8)])
    if integer:
        x, q = x.astype('int64'), q.astype('int64')
        ax = vtn_axis.Int64(x, 0, False)
    else:
        x, q = x.astype('float32'), q.astype('float32')
        ax = vtn_axis.Float32(x, 1e-6, False)
    ctx.case(x=x, q=q)
    ctx.count('integers' if integer else 'single precision')
    ctx.equal(ax.values()[0], x, 'C++ values')
    xs, qs = [v.item() for v in x], [v.item() for v in q]
    lo, hi = min(xs), max(xs)
    got = ax.find_index(q, False)
    ctx.equal(got, ax.find_nearest_index(q, False), 'C++: find_index and find_nearest_index')
    bounded = ax.find_index(q, True)
    pairs = ax.find_indexes(q)
    half = max(abs(b - a) for a, b in zip(xs, xs[1:])) / 2
    for v, g, b, p in zip(qs, got, bounded, pairs):
        best = min(abs(v - y) for y in xs)
        if lo <= v <= hi:
            ctx.check(0 <= g < n and abs(xs[g] - v) == best, 'C++ exact: find_index', x=x, q=v, index=g)
            ctx.check(min(p) >= 0 and abs(p[0] - p[1]) == 1 and min(xs[p[0]], xs[p[1]]) <= v <= max(xs[p[0]], xs[p[1]]),
                      'C++ exact: find_indexes', x=x, q=v, pair=p)
        else:
            ctx.check(g == -1 or abs(xs[g] - v) == best <= half, 'C++ exact: outside', x=x, q=v, index=g)
            ctx.check(p == (-1, -1), 'C++ exact: pair outside', x=x, q=v, pair=p)
        ctx.check(0 <= b < n and abs(xs[b] - v) == best, 'C++ exact: bounded', x=x, q=v, index=b)


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c01(ctx, rng)
