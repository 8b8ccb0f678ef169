"""C03: integer and temporal axes are exact on 64-bit coordinates."""
import copy
import pickle
import warnings

import numpy as np
from pyinterp import core

import large
from vt import section

PARTS = ['axis']
RULE = ('A case is one integer or temporal axis (2 to 300 values, regular or irregular, both orders, any unit, magnitudes '
        'from 1 to 2^61) with a batch of 64-bit coordinates (on nodes, one tick beside them, at the middles, around the '
        'ends, far away, NaT); every index is judged by a brute-force search with unbounded Python integers. '
        'Non-trivial: the axis was built and at least one lookup was judged.')
ASSUMES = ['the last value minus the first one fits in 62 bits', 'conversion to a coarser unit truncates the way numpy does']
UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']
NAT = np.iinfo('int64').min


def int_values(rng):
    """Python integers, strictly monotonic."""
    n = int(rng.choice([2, 3, 4, 5, 8, 17, 50, 300], p=[.15, .15, .15, .15, .15, .1, .1, .05]))
    bits = int(rng.integers(1, 62 - int(np.ceil(np.log2(n)))))
    top = 1 << bits
    kind = str(rng.choice(['regular', 'irregular']))
    if kind == 'regular':
        gaps = [int(rng.integers(1, top + 1))] * (n - 1)
    elif rng.random() < .4:
        gaps = [int(rng.integers(1, top + 1))] * (n - 1)
        gaps[int(rng.integers(0, n - 1))] += int(rng.choice([1, 2, 1000]))
    else:
        gaps = [int(g) for g in rng.integers(1, top + 1, n - 1)]
    span = sum(gaps)
    room = (1 << 62) - span - 1
    start = int(rng.choice([0, 1, -1])) * int(rng.integers(0, max(1, min(room, 1 << int(rng.integers(1, 63))))))
    if start < 0 and rng.random() < .3:
        start = -span // 2
    x = [start]
    for g in gaps:
        x.append(x[-1] + g)
    if rng.random() < .4:
        x.reverse()
    regular = len(set(gaps)) == 1
    return x, {'n': n, 'bits': bits, 'regular': regular, 'asc': x[0] < x[-1]}


def int_queries(rng, x, n=30):
    lo, hi = min(x), max(x)
    q = [lo, hi, lo - 1, hi + 1, 0, 1, -1]
    for _ in range(n):
        i = int(rng.integers(0, len(x) - 1))
        a, b = sorted((x[i], x[i + 1]))
        mid = (a + b) // 2
        q += [x[i], x[i] + 1, x[i] - 1, mid, mid + 1, mid - 1, a + int(rng.integers(0, b - a + 1))]
    d0, d1 = abs(x[1] - x[0]), abs(x[-1] - x[-2])
    for d in (d0, d1):
        for s in (d // 2 - 1, d // 2, d // 2 + 1, d // 3, d, 10 * d):
            q += [lo - s, hi + s]
    q += [(1 << 63) - 1, NAT + 1, 1 << 62, -(1 << 62), int(rng.integers(-(1 << 62), 1 << 62))]
    return [v for v in q if -(1 << 63) < v < (1 << 63)]


def judge(ctx, x, q, idx, bnd, pair, info, **w):
    """Python integers against the answers of the axis."""
    n = len(x)
    lo, hi = min(x), max(x)
    asc = info['asc']
    bad = []
    for k, c in enumerate(q):
        if c == NAT:
            if idx[k] != -1 or tuple(pair[k]) != (-1, -1):
                bad.append(('NaT located', c, int(idx[k]), pair[k].tolist()))
            continue
        d = [abs(c - v) for v in x]
        best = min(d)
        i = int(idx[k])
        if lo <= c <= hi:
            if not 0 <= i < n or d[i] != best:
                bad.append(('find_index:nearest', c, i, best))
        elif i != -1:
            # a regular axis accepts half a step around its ends
            if not (info['regular'] and 0 <= i < n and d[i] == best and 2 * best <= abs(x[1] - x[0])):
                bad.append(('find_index:outside', c, i, best))
        b = int(bnd[k])
        if not 0 <= b < n or d[b] != best:
            bad.append(('find_index:bounded', c, b, best))
        i0, i1 = int(pair[k][0]), int(pair[k][1])
        if lo <= c <= hi:
            if not (0 <= i0 < n and 0 <= i1 < n and abs(i0 - i1) == 1):
                bad.append(('find_indexes:range', c, i0, i1))
            elif not min(x[i0], x[i1]) <= c <= max(x[i0], x[i1]):
                bad.append(('find_indexes:bracket', c, i0, i1))
            elif c not in (x[i0], x[i1]) and not x[i0] < c < x[i1]:
                bad.append(('find_indexes:order', c, i0, i1))
            elif asc and i0 > i1:
                bad.append(('find_indexes:order', c, i0, i1))
        elif (i0, i1) != (-1, -1):
            bad.append(('find_indexes:outside', c, i0, i1))
    ctx.judgements += 3 * len(q)
    ctx.count('lookups', 3 * len(q))
    for key, c, a, b in bad[:2]:
        ctx.fail(key, coordinate=str(c), got=a, ref=str(b), x=[str(v) for v in x[:40]], **info, **w)


def values_of(ctx, ax, x, raw, info):
    """size, values, ends, slices, step, order."""
    n = len(x)
    ctx.check(len(ax) == n, 'size', x=x[:40])
    ctx.equal(raw(ax[:]), np.array(x), 'values', **info)
    ctx.check(int(raw(np.asarray(ax.front()))) == x[0] and int(raw(np.asarray(ax.back()))) == x[-1], 'front/back', **info)
    ctx.check(int(raw(np.asarray(ax.min_value()))) == min(x) and int(raw(np.asarray(ax.max_value()))) == max(x), 'min/max', **info)
    ctx.check(ax.is_ascending() == info['asc'], 'is_ascending', **info)
    ctx.check(ax.is_regular() == info['regular'], 'is_regular', x=x[:40], **info)
    if info['regular']:
        ctx.check(int(raw(np.asarray(ax.increment()))) == x[1] - x[0], 'increment', **info)
    for k in (0, n - 1, n // 2):
        ctx.check(int(raw(np.asarray(ax[k]))) == x[k], 'getitem', k=k, **info)


def variant(ctx, rng, ax, x, info):
    """The same axis reached another way."""
    how = int(rng.integers(0, 5))
    if how == 0:
        ax2 = pickle.loads(pickle.dumps(ax))
        ctx.check(ax2 == ax, 'pickle: not equal', x=x[:40], **info)
        return ax2, x, info
    if how == 1:
        return copy.copy(ax), x, info
    if how == 2:
        ax2 = ax.flip(False)
        ctx.equal(np.asarray(ax[:]).view('int64'), np.array(x), 'flip(inplace=False) changed the axis', **info)
        return ax2, x[::-1], dict(info, asc=not info['asc'])
    return ax, x, info


@section(12000, 400000)
def integers(ctx, rng):
    x, info = int_values(rng)
    v = np.array(x, dtype='int64')
    ax = core.AxisInt64(v)
    q = int_queries(rng, x)
    ctx.case(x=v, **info)
    ctx.count('integer axes')
    ax, x, info = variant(ctx, rng, ax, x, info)
    values_of(ctx, ax, x, lambda a: a, info)
    qa = np.array(q, dtype='int64')
    judge(ctx, x, q, ax.find_index(qa, False), ax.find_index(qa, True), ax.find_indexes(qa), info)
    ctx.check(core.AxisInt64(np.array(x, dtype='int64')) == ax, 'equality', **info)
    other = np.array(x, dtype='int64')
    other[int(rng.integers(0, len(x)))] += 1 if x[-1] > x[0] else -1
    if len(set(other.tolist())) == len(x) and (np.sign(np.diff(other)) == np.sign(other[-1] - other[0])).all():
        ctx.check(core.AxisInt64(other) != ax, 'inequality', other=other, x=x[:40], **info)


def temporal(rng, unit=None, kind=None):
    x, info = int_values(rng)
    unit = str(rng.choice(UNITS)) if unit is None else unit
    kind = str(rng.choice(['datetime64', 'timedelta64'])) if kind is None else kind
    return x, dict(info, unit=unit, type=kind), np.array(x, dtype='int64').view(f'{kind}[{unit}]')


@section(10000, 300000)
def dates(ctx, rng):
    x, info, v = temporal(rng)
    ax = core.TemporalAxis(v)
    ctx.case(x=v.view('int64'), **info)
    ctx.count(info['type'])
    ctx.count('unit ' + info['unit'])
    ctx.check(ax.dtype() == v.dtype, 'dtype', **info)
    ax, x, info = variant(ctx, rng, ax, x, info)
    ctx.check(ax.dtype() == v.dtype and ax[:].dtype == v.dtype, 'dtype kept', **info)
    values_of(ctx, ax, x, lambda a: a.view('int64'), info)
    if info['regular']:
        ctx.check(np.asarray(ax.increment()).dtype == np.dtype(f'timedelta64[{info["unit"]}]'), 'increment:dtype', **info)
    q = int_queries(rng, x) + [NAT]
    qa = np.array(q, dtype='int64').view(v.dtype)
    judge(ctx, x, q, ax.find_index(qa, False), ax.find_index(qa, True), ax.find_indexes(qa), info)
    ctx.check(isinstance(repr(ax), str), 'repr')


#: smaller unit -> ticks of it in one of the bigger (fixed ratios only)
SECONDS = {'W': 604800, 'D': 86400, 'h': 3600, 'm': 60, 's': 1}
SUB = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9, 'ps': 10**12, 'fs': 10**15, 'as': 10**18}


def ticks(unit):
    """Attoseconds in a tick."""
    return SECONDS[unit] * 10**18 if unit in SECONDS else 10**18 // SUB[unit]


@section(8000, 200000)
def other_units(ctx, rng):
    """Coordinates of another unit are moved to the unit of the axis."""
    fixed = list(SECONDS) + list(SUB)[1:]
    unit = str(rng.choice(fixed))
    kind = str(rng.choice(['datetime64', 'timedelta64']))
    n = int(rng.integers(2, 40))
    gap = int(rng.integers(1, 100000))
    gaps = [gap] * (n - 1) if rng.random() < .5 else [int(g) for g in rng.integers(1, gap + 1, n - 1)]
    start = int(rng.integers(-2 * 10**5, 2 * 10**5)) * int(rng.choice([0, 1, 1000]))
    x = [start]
    for g in gaps:
        x.append(x[-1] + g)
    if rng.random() < .3:
        x.reverse()
    info = {'unit': unit, 'type': kind, 'regular': len(set(gaps)) == 1, 'asc': x[0] < x[-1], 'n': n}
    ax = core.TemporalAxis(np.array(x, dtype='int64').view(f'{kind}[{unit}]'))
    other = str(rng.choice(fixed))
    ta, tb = ticks(unit), ticks(other)
    # coordinates spread over the axis, expressed in the other unit
    lo, hi = min(x), max(x)
    at = [lo + (hi - lo) * int(rng.integers(-200, 1200)) // 1000 for _ in range(25)] + x[:10]
    q = [a * ta // tb + int(rng.choice([0, 0, 1, -1])) for a in at]
    q = [c for c in q if abs(c) < 1 << 62 and abs(c * tb // ta) < 1 << 62]
    try:
        np.array([0], dtype=f'm8[{other}]').astype(f'm8[{unit}]')
    except OverflowError:  # numpy can't convert
        return
    if not q:
        return
    ctx.case(x=x, q=q, other=other, **info)
    ctx.count('coarser' if tb > ta else 'finer' if tb < ta else 'same')
    qa = np.array(q, dtype='int64').view(f'{kind}[{other}]')
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('always')
        cast = ax.safe_cast(qa)
        idx, bnd, pair = ax.find_index(qa, False), ax.find_index(qa, True), ax.find_indexes(qa)
    ctx.check((len(said) > 0) == (tb < ta), 'safe_cast:warning', other=other, said=[str(s.message) for s in said], **info)
    ctx.check(cast.dtype == ax.dtype(), 'safe_cast:dtype', **info)
    c = cast.view('int64').tolist()
    exact = [v * tb for v in q]
    if tb >= ta:
        ctx.check([v * ta for v in c] == exact, 'safe_cast:shifted', q=q, other=other, **info)
    else:
        ctx.check(all(abs(v * ta - e) < ta for v, e in zip(c, exact)), 'safe_cast:shifted', q=q, other=other, **info)
    ctx.check(np.array_equal(qa.view('int64'), np.array(q)), 'safe_cast: input changed')
    judge(ctx, x, c, idx, bnd, pair, info, other=other)


@section(1500, 30000)
def refused(ctx, rng):
    """Values of another kind, shape or order are refused."""
    x, info, v = temporal(rng)
    ax = core.TemporalAxis(v)
    ctx.case(x=v.view('int64'), **info)
    other = 'timedelta64' if info['type'] == 'datetime64' else 'datetime64'
    wrong = v.view('int64').view(f'{other}[{rng.choice(UNITS)}]')
    bad = (Exception, )
    for f in (ax.find_indexes, lambda a: ax.find_index(a, False), lambda a: ax.find_index(a, True), ax.safe_cast):
        ctx.raises(bad, lambda: f(wrong), 'other kind of date accepted', **info)
        ctx.raises(bad, lambda: f(v.view('int64').astype('float64')), 'numbers accepted as dates', **info)
        ctx.raises(bad, lambda: f(v.view('int64')), 'integers accepted as dates', **info)
        ctx.raises(bad, lambda: f(v.reshape(1, -1)), '2-D coordinates accepted', **info)
    ctx.raises(bad, lambda: core.TemporalAxis(v.view('int64')), 'integers accepted as dates', **info)
    ctx.raises(bad, lambda: core.TemporalAxis(v[:0]), 'empty axis', **info)
    # an array stored with gaps, or backwards, is refused or understood
    for store in range(2):
        if store == 0:
            gaps = np.full(2 * len(x), -7, 'int64').view(v.dtype)[::2]
            gaps[...] = v
        else:
            gaps = v[::-1].copy()[::-1]
        try:
            same = core.TemporalAxis(gaps)
        except (TypeError, ValueError):
            ctx.count('strided axis refused')
        else:
            ctx.check(np.array_equal(same[:], ax[:]) and same.dtype() == ax.dtype(), 'axis of a strided array', **info)
        for f in (ax.find_indexes, lambda a: ax.find_index(a, True), ax.safe_cast):
            try:
                part = f(gaps)
            except (TypeError, ValueError):
                ctx.count('strided coordinates refused')
            else:
                ctx.equal(part, f(v.copy()), 'strided coordinates')
    ctx.raises(bad, lambda: core.TemporalAxis(v.reshape(-1, 1)), '2-D axis', **info)
    if len(x) > 2:
        k = int(rng.integers(1, len(x) - 1))
        for other in (x[:k] + [x[k - 1]] + x[k + 1:], x[:k] + [x[0] + (x[0] - x[1])] + x[k + 1:]):
            arr = np.array(other, dtype='int64')
            ctx.raises(bad, lambda: core.TemporalAxis(arr.view(v.dtype)), 'unordered dates accepted', x=arr, **info)
            ctx.raises(bad, lambda: core.AxisInt64(arr), 'unordered integers accepted', x=arr, **info)
    for k in (len(x), len(x) + 5, -1, -len(x) - 1):
        ctx.raises((IndexError, ValueError, TypeError), lambda: ax[k], 'index out of range', k=k)


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c03(ctx, rng)
