"""C25: filling of vectors and matrices."""
from fractions import Fraction

import numpy as np
from pyinterp import fill

import grids
import vt
import large
from vt import section

PARTS = ['fill']
RULE = ('A case is one random vector or matrix with gaps, filled by fill.vector or fill.matrix; each element is compared with the straight '
        'lines between the defined neighbours, computed exactly. Non-trivial: at least one element was judged.')
ASSUMES = ['outside of the defined elements, the line has the mean slope of the defined elements (as the code does)',
           'lines with less than two defined elements are left as they are',
           'matrices are filled row by row (skipping the undefined rows), then column by column with the values of the filled rows',
           'lines of integers are exact within one unit']


def line(v, hole):
    """v: list of Fractions, hole: list of bool. Returns (values, filled)."""
    known = [i for i, h in enumerate(hole) if not h]
    if len(known) < 2:
        return list(v), list(hole)
    out = list(v)
    first, last = known[0], known[-1]
    slope = (v[last] - v[first]) / (last - first)
    for a, b in zip(known, known[1:]):
        for k in range(a + 1, b):
            out[k] = v[a] + (v[b] - v[a]) * Fraction(k - a, b - a)
    for k in range(first):
        out[k] = v[first] - slope * (first - k)
    for k in range(last + 1, len(v)):
        out[k] = v[last] + slope * (k - last)
    return out, [False] * len(v)


def gaps(rng, n):
    k = int(rng.integers(0, 7))
    m = np.zeros(n, dtype=bool)
    if k <= 2:
        m = rng.random(n) < rng.choice([.1, .5, .9])
    elif k == 3:
        a, b = sorted(rng.integers(0, n + 1, 2))
        m[a:b] = True
    elif k == 4:
        m[:int(rng.integers(0, n + 1))] = True
    elif k == 5:
        m[int(rng.integers(0, n)):] = True
    elif rng.random() < .5:
        m[:] = True
        if rng.random() < .7:
            m[int(rng.integers(0, n))] = False
    return m


def strided(rng, a):
    """Contiguous, most of the time."""
    if rng.random() < .3:
        big = np.empty(3 * len(a), dtype=a.dtype)
        big[:] = a[0] if len(a) else 0
        view = big[::3]
        view[:] = a
        return view
    return a


@section(6000)
def vector(ctx, rng):
    n = int(rng.integers(1, 30)) if rng.random() < .95 else 500
    kind = ['float64', 'float32', 'int64', 'M8', 'm8'][int(rng.integers(0, 5))]
    hole = gaps(rng, n)
    fill_kw = {}
    if kind.startswith('float'):
        v = (rng.normal(size=n) * 10.0**rng.integers(-3, 6) + rng.choice([0, 1e3])).astype(kind)
        if rng.random() < .5:
            v = np.sort(v)
        how = rng.integers(0, 3)
        if how == 0:
            v[hole] = np.nan
        else:
            mark = np.array(v.max() + 10.5 if how == 1 else -9999e6, dtype=kind)[()]
            v[hole] = mark
            fill_kw['fill_value'] = mark if rng.random() < .5 else float(mark)
        if how == 0 and rng.random() < .5:
            fill_kw['fill_value'] = np.nan
        whole = v.astype('f8')
    elif kind == 'int64':
        scale = int(10.0**rng.uniform(0, 17))
        v = rng.integers(-scale, scale + 1, n)
        mark = [np.iinfo('i8').min, np.iinfo('i8').max, 10**18, -10**18][int(rng.integers(0, 4))]
        v[hole] = mark
        fill_kw['fill_value'] = mark
        whole = v
    else:
        unit = ['D', 'h', 's', 'ms', 'us', 'ns'][int(rng.integers(0, 6))]
        t = np.cumsum(rng.integers(0, 10**int(rng.integers(1, 6)), n)) * int(rng.choice([1, -1]))
        v = t.astype(f'm8[{unit}]')
        if kind == 'M8':
            v = np.datetime64('2003-04-05', unit) + v
        how = rng.integers(0, 4)
        if how < 3:
            v[hole] = 'NaT'
            nat = np.datetime64('NaT') if kind == 'M8' else np.timedelta64('NaT')
            if how == 1:
                fill_kw['fill_value'] = nat
            elif how == 2:
                fill_kw['fill_value'] = v.dtype.type('NaT', unit)
        else:
            mark = v.dtype.type('1970-01-02', 'D') if kind == 'M8' else v.dtype.type(-3, 'D')
            # (another unit than that of the vector)
            v[hole] = mark
            fill_kw['fill_value'] = mark
            hole = hole | (v == mark)
        whole = v.view('i8')
    ctx.case('vector', kind, n, hole.tobytes(), np.nan_to_num(whole.astype('f8')).tobytes())
    keep = v.copy()
    v = strided(rng, v)
    inplace = rng.random() < .5
    kw = dict(fill_kw)
    if not inplace or rng.random() < .5:
        kw['in_place'] = inplace
    inplace = kw.get('in_place', True)
    w = dict(x=keep, hole=hole, strided=v.strides, **{k: str(x) for k, x in kw.items()})
    try:
        got = fill.vector(v, **kw)
    except TypeError:
        if v.flags.c_contiguous or not inplace:
            raise
        ctx.count('refused')
        ctx.check(np.array_equal(v.view(), keep, equal_nan=kind[0] == 'f') if kind[0] in 'fi' else np.array_equal(v.copy().view('i8'), keep.view('i8')), 'refused', 'refused but modified', **w)
        return
    if not ctx.check(got.shape == keep.shape and got.dtype == keep.dtype, 'shape', 'shape or type', **w):
        return
    if inplace:
        ctx.check(got is v, 'in-place', 'did not return the given array', **w)
    else:
        ctx.check(v.copy().tobytes() == keep.tobytes(), 'input', 'the given array was modified', **w)
    got = np.array(got)
    if kind[0] != 'f':
        got, keep = got.view('i8'), keep.view('i8')
    want, left = line([Fraction(0) if h else Fraction(x) for x, h in zip(whole.tolist(), hole)], hole.tolist())
    ctx.equal(got[~hole], keep[~hole], 'defined', 'defined elements', **w)
    if left == hole.tolist() and hole.any():
        ctx.count('left')
        ctx.equal(got, keep, 'left', 'line with less than two values', **w)
        return
    ctx.count('filled', int(hole.sum()))
    top = max([abs(float(x)) for x in want] + [0])
    if kind[0] == 'f':
        ctx.close(got.astype('f8'), np.array([float(x) for x in want]), 'line', top * 8 * float(np.finfo(kind).eps) + 1e-300 + top * n * float(np.finfo(kind).eps), 0, 'line', **w)
    else:
        if max(abs(x) for x in want) >= 2**62:
            return
        ctx.all(np.array([abs(int(g) - x) < 1 + Fraction(1, 10**9) for g, x in zip(got.tolist(), want)]), 'line', 'line of integers', **w,
                want=np.array([float(x) for x in want]), result=got)


@section(2500)
def matrix(ctx, rng):
    nr, nc = int(rng.integers(1, 11)), int(rng.integers(1, 11))
    kind = ['float64', 'float32'][int(rng.random() < .4)]
    eps = float(np.finfo(kind).eps)
    v = (rng.normal(size=(nr, nc)) * 10.0**rng.integers(-3, 6) + rng.choice([0, 1e3])).astype(kind)
    hole = np.stack([gaps(rng, nc) for _ in range(nr)])
    if rng.random() < .5:
        hole = np.stack([gaps(rng, nr) for _ in range(nc)]).T
    if rng.random() < .3:
        hole[int(rng.integers(0, nr))] = True
    kw = {}
    how = rng.integers(0, 3)
    if how:
        mark = np.array(v.max() + 10.5 if how == 1 else -9999e6, dtype=kind)[()]
        kw['fill_value'] = mark
    else:
        mark = np.nan
    v[hole] = mark
    keep = v.copy()
    ctx.case('matrix', kind, hole.tobytes(), keep.tobytes())
    v = grids.layout(rng, v)
    inplace = rng.random() < .5
    w = dict(x=keep, hole=hole, mark=mark, in_place=inplace)
    try:
        got = fill.matrix(v, in_place=inplace, **kw)
    except TypeError:
        if min(v.strides) > 0 or not inplace:
            raise
        ctx.count('refused')
        return
    if not ctx.check(got.shape == keep.shape and got.dtype == keep.dtype, 'shape', 'shape or type', **w):
        return
    if inplace:
        ctx.check(got is v, 'in-place', 'did not return the given array', **w)
    else:
        ctx.check(np.array_equal(v, keep, equal_nan=True), 'input', 'the given array was modified', **w)
    got = np.array(got)
    cur = [[Fraction(0) if h else Fraction(float(x)) for x, h in zip(r, m)] for r, m in zip(keep, hole)]
    mask = hole.tolist()
    for i in range(nr):
        cur[i], mask[i] = line(cur[i], mask[i])
    top1 = max(abs(float(x)) for r in cur for x in r)
    for j in range(nc):
        col, m = line([r[j] for r in cur], [r[j] for r in mask])
        for i in range(nr):
            cur[i][j], mask[i][j] = col[i], m[i]
    want = np.array([[float(x) for x in r] for r in cur])
    mask = np.array(mask)
    ctx.equal(got[~hole], keep[~hole], 'defined', 'defined elements', **w)
    ctx.equal(got[mask], keep[mask], 'left', 'elements that no line crosses', **w)
    done = hole & ~mask
    ctx.count('filled', int(done.sum()))
    tol = (top1 * (nc + 8) * (nr + 8) + np.abs(want).max() * (nr + 8)) * eps
    ctx.close(got[done].astype('f8'), want[done], 'line', tol, 0, 'line', **w)


@section(20)
def refusals(ctx, rng):
    ctx.case('refusals', int(rng.integers(0, 1 << 30)))
    ctx.raises(ValueError, lambda: fill.matrix(np.zeros(3)), 'ndim')
    ctx.raises(ValueError, lambda: fill.vector(np.zeros((3, 2))), 'ndim')
    ctx.raises(ValueError, lambda: fill.vector([1., 2.]), 'list')
    ctx.raises((ValueError, TypeError), lambda: fill.vector(np.zeros(3, 'i2'), fill_value=1), 'dtype')
    ctx.raises((ValueError, TypeError), lambda: fill.matrix(np.zeros((3, 2), 'i4'), fill_value=1), 'dtype')
    ctx.equal(fill.vector(np.zeros(0)), np.zeros(0), 'empty')
    ctx.equal(fill.matrix(np.zeros((0, 3))), np.zeros((0, 3)), 'empty')


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c25(ctx, rng)
