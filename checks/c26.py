"""C26: periods as sets of instants."""
import copy
import pickle

import numpy as np
from pyinterp import core
from pyinterp.period import Period, PeriodList

import vt
import large
from vt import section

PARTS = ['period', 'dates']
RULE = ('A case is one random set of periods or list of periods, submitted to the operations of the two classes, whose results are '
        'compared with operations on sets of integer instants. Non-trivial: at least one result was judged.')
ASSUMES = ['an operand in another unit is converted by numpy to the unit of the left operand, its last instant being a date',
           'the operands of intersects, intersection and merge are not null; lists of periods merged, joined or searched are sorted, and '
           'dates are in chronological order, as documented', 'PeriodList.duration is the difference between the last and the first date',
           'the epsilon of join_adjacent_periods is the largest difference between the last date of a period and the begin of the next']
UNITS = ['D', 'h', 'm', 's', 'ms', 'us', 'ns']


def origin(rng, unit):
    o = int(rng.choice([0, 0, -400, 10**6 if unit not in 'Dh' else 12000, -1]))
    return o


class Model:
    """Closed interval of integers (null if last < begin)."""

    def __init__(self, b, l):
        self.b, self.l = int(b), int(l)

    def has(self, t):
        return self.b <= t <= self.l

    null = property(lambda self: self.l < self.b)

    def inter(self, o):
        return Model(max(self.b, o.b), min(self.l, o.l))

    def key(self):
        return (self.b, self.l)


def make(rng, unit, m, how=None):
    """A period of the library for a model."""
    b, l = np.datetime64(m.b, unit), np.datetime64(m.l, unit)
    if rng.random() < .5:
        return Period(b, l, within=True)
    e = np.datetime64(m.l + 1, unit)
    return Period(b, e, within=False)


def ints(p):
    """The state of a period."""
    return int(p.begin.astype('i8')), int(p.last.astype('i8'))


def draw(rng, lo, hi):
    a, b = sorted(int(x) for x in rng.integers(lo, hi, 2))
    return Model(a, b)


def duration(rng, unit, choices):
    """A number of units, and the same duration, sometimes in a coarser unit."""
    k = UNITS.index(unit)
    if k and rng.random() < .3:
        n = int(rng.integers(0, 4))
        return int(np.timedelta64(n, UNITS[k - 1]).astype(f'm8[{unit}]').astype('i8')), np.timedelta64(n, UNITS[k - 1])
    n = int(rng.choice(choices))
    return n, np.timedelta64(n, unit)


@section(4000)
def algebra(ctx, rng):
    unit = UNITS[int(rng.integers(0, len(UNITS)))]
    o = origin(rng, unit)
    span = int(rng.choice([3, 6, 30, 1000]))
    a, b = draw(rng, o, o + span), draw(rng, o, o + span)
    k = rng.integers(0, 6)
    if k == 0:
        b = Model(a.l + 1, a.l + 1 + int(rng.integers(0, span)))
    elif k == 1:
        b = Model(a.b - 1 - int(rng.integers(0, span)), a.b - 1)
    elif k == 2:
        b = Model(a.b, a.l)
    p, q = make(rng, unit, a), make(rng, unit, b)
    ctx.case('algebra', unit, a.key(), b.key())
    w = dict(unit=unit, a=a.key(), b=b.key())
    ctx.check(ints(p) == a.key() and ints(q) == b.key() and p.resolution == unit, 'ctor', 'begin and last', **w)
    ctx.check(p.begin.dtype == f'M8[{unit}]' and p.end() == np.datetime64(a.l + 1, unit), 'end', 'end', **w)
    ctx.check(len(p) == a.l - a.b + 1 and p.duration() == np.timedelta64(a.l - a.b + 1, unit), 'length', 'length', **w)
    ctx.check(not p.is_null(), 'null', 'null', **w)
    none = Period(p.begin, p.begin, within=False)
    ctx.check(none.is_null() and not none.contains(p.begin), 'null-ctor', 'a period that ends where it begins', **w)
    for t in {a.b, a.b - 1, a.l, a.l + 1, int(rng.integers(o - 2, o + span + 2))}:
        d = np.datetime64(t, unit)
        ctx.check(bool(p.contains(d)) == a.has(t), 'contains-date', 'contains', t=t, **w)
        ctx.check(bool(p.is_before(d)) == (a.l < t), 'before', 'is_before', t=t, **w)
        ctx.check(bool(p.is_after(d)) == (t < a.b), 'after', 'is_after', t=t, **w)
    ctx.check(bool(p.contains(q)) == (a.b <= b.b and b.l <= a.l), 'contains', 'contains a period', **w)
    i = a.inter(b)
    ctx.check(bool(p.intersects(q)) == (not i.null), 'intersects', 'intersects', **w)
    ctx.check(bool(p.is_adjacent(q)) == (b.b == a.l + 1 or a.b == b.l + 1), 'adjacent', 'is_adjacent', **w)
    r = p.intersection(q)
    ctx.check(isinstance(r, Period) and r.is_null() == i.null and (i.null or ints(r) == i.key()) and r.resolution == unit, 'intersection', 'intersection', r=str(r), **w)
    u = p.merge(q)
    want = (min(a.b, b.b), max(a.l, b.l))
    ctx.check(isinstance(u, Period) and u.is_null() == i.null and (i.null or ints(u) == want) and u.resolution == unit, 'merge', 'merge', r=str(u), **w)
    ctx.check((p == q) == (a.key() == b.key()) and (p != q) == (a.key() != b.key()), 'eq', 'equality', **w)
    ctx.check((p < q) == (a.b < b.b) if a.b != b.b else not p < q, 'lt', 'order', **w)
    if i.null:
        ctx.count('null results')
        for z in (r, u):
            t = np.datetime64(int(rng.integers(o - 2, o + span + 2)), unit)
            ctx.check(not z.contains(t) and not z.is_before(t) and not z.is_after(t), 'null-result', 'a null period holds nothing', z=str(z), **w)
    for c in (pickle.loads(pickle.dumps(p)), copy.copy(p), copy.deepcopy(p)):
        ctx.check(c == p and ints(c) == a.key() and c.resolution == unit and type(c) is Period, 'pickle', 'pickle', **w)
    base = p.as_base_class()
    ctx.check((base.begin, base.last) == a.key(), 'base', 'base class', **w)
    ctx.check(str(p) == f'[{p.begin}, {p.end()})', 'str', 'text', **w)
    # and the class of the core, on integers
    x, y = core.Period(a.b, a.l), core.Period(b.b, b.l + 1, False)
    ctx.check(x.intersects(y) == (not i.null) and x.contains(y) == (a.b <= b.b and b.l <= a.l) and x.is_adjacent(y) == bool(p.is_adjacent(q)), 'core', 'core.Period', **w)
    z = x.merge(y)
    ctx.check(z.is_null() == i.null and (i.null or (z.begin, z.last) == want), 'core', 'core.Period.merge', **w)


def cast(t, unit, to):
    return int(np.datetime64(int(t), unit).astype(f'M8[{to}]').astype('i8'))


@section(1500)
def units(ctx, rng):
    """Operands of different resolutions."""
    i, j = (int(x) for x in rng.integers(0, len(UNITS), 2))
    i, j = (i, j) if abs(i - j) < 4 else (i, i)
    ua, ub = UNITS[i], UNITS[j]
    o = np.datetime64('2011-03-04') + int(rng.integers(-20000, 9000))
    span = int(rng.integers(1, 200000))

    def day(n):
        return o + np.sort(rng.integers(0, span, n)).astype('m8[m]')

    (a0, a1), (b0, b1) = day(2), day(2)
    p = Period(a0.astype(f'M8[{ua}]'), a1.astype(f'M8[{ua}]'))
    q = Period(b0.astype(f'M8[{ub}]'), b1.astype(f'M8[{ub}]'))
    b = Model(cast(q.begin.astype('i8'), ub, ua), cast(q.last.astype('i8'), ub, ua))
    a = Model(*ints(p))
    ctx.case('units', ua, ub, a.key(), b.key())
    w = dict(p=str(p), q=str(q), ua=ua, ub=ub)
    n = a.inter(b)
    ctx.check(p.as_resolution(ub).resolution == ub and ints(q.as_resolution(ua)) == b.key(), 'as_resolution', 'conversion', **w)
    ctx.check(bool(p.intersects(q)) == (not n.null), 'units-intersects', 'intersects', **w)
    ctx.check(bool(p.contains(q)) == (a.b <= b.b and b.l <= a.l), 'units-contains', 'contains', **w)
    ctx.check(bool(p.is_adjacent(q)) == (b.b == a.l + 1 or a.b == b.l + 1), 'units-adjacent', 'is_adjacent', **w)
    r, u = p.intersection(q), p.merge(q)
    ctx.check(r.resolution == ua and r.is_null() == n.null and (n.null or ints(r) == n.key()), 'units-intersection', 'intersection', r=str(r), **w)
    ctx.check(u.resolution == ua and u.is_null() == n.null and (n.null or ints(u) == (min(a.b, b.b), max(a.l, b.l))), 'units-merge', 'merge', u=str(u), **w)
    ctx.check(not (ua != ub and p == q), 'units-eq', 'equality', **w)
    d = day(1)[0].astype(f'M8[{ub}]')
    t = cast(d.astype('i8'), ub, ua)
    ctx.check(bool(p.contains(d)) == a.has(t) and bool(p.is_before(d)) == (a.l < t) and bool(p.is_after(d)) == (t < a.b), 'units-date', 'dates', d=str(d), **w)
    m = Period(a0.astype(f'M8[{ua}]'), max(a1, b1).astype(f'M8[{ub}]'))
    fine = UNITS[max(UNITS.index(ua), UNITS.index(ub))]
    ctx.check(m.resolution == fine and m.begin == a0.astype(f'M8[{ua}]') and m.last == max(a1, b1).astype(f'M8[{ub}]'), 'units-ctor', 'finest resolution', m=str(m), **w)


def disjoint(rng, o, n, touch=False):
    """Sorted periods."""
    gaps = rng.integers(0 if touch else 1, int(rng.choice([3, 20, 400])), 2 * n)
    t = o + np.cumsum(gaps)
    out = t.reshape(n, 2)
    if touch:
        return out
    return out


def nested(rng, o, n):
    b = np.sort(o + rng.integers(0, 60, n))
    return np.stack([b, b + rng.integers(0, 40, n)], axis=1)


def to_list(rng, arr, unit):
    d = arr.T.astype('i8').astype(f'M8[{unit}]')
    if rng.random() < .3:
        d = np.asfortranarray(d)
    return PeriodList(d)


def state(pl):
    s = pl.periods
    return np.stack([s['begin'].astype('i8'), s['last'].astype('i8')], axis=1).reshape(-1, 2)


def covered(arr, t):
    return ((arr[:, 0] <= t[:, None]) & (t[:, None] <= arr[:, 1])).any(axis=1)


def draw_list(rng, unit, maxi=12):
    o = origin(rng, unit)
    n = int(rng.integers(0, maxi))
    arr = nested(rng, o, n) if rng.random() < .3 else disjoint(rng, o, n, rng.random() < .3)
    return o, arr


@section(2500)
def lists(ctx, rng):
    unit = UNITS[int(rng.integers(0, len(UNITS)))]
    o, arr = draw_list(rng, unit)
    n = len(arr)
    pl = to_list(rng, arr, unit) if n or rng.random() < .5 else PeriodList.empty()
    if not n and pl._datetime64 != np.dtype(f'M8[{unit}]'):
        unit = 'ns'
    ctx.case('lists', unit, arr.tobytes(), n)
    w = dict(unit=unit, periods=arr)
    ctx.check(len(pl) == n and np.array_equal(state(pl), arr), 'list', 'the periods', **w)
    ctx.check(pl.periods.dtype == [('begin', f'M8[{unit}]'), ('last', f'M8[{unit}]')], 'list-dtype', 'type of the periods', **w)
    lo, hi = (arr.min(), arr.max()) if n else (o, o + 9)
    ctx.equal(pl.duration().astype('i8'), arr[:, 1] - arr[:, 0], 'list-duration', 'duration', **w)
    # sorted and disjointed
    good = bool(np.all(arr[1:, 0] > arr[:-1, 1]))
    ctx.check(pl.are_periods_sorted_and_disjointed() == good, 'sorted', 'sorted and disjointed', **w)
    if n > 1:
        p = arr[rng.permutation(n)]
        other = to_list(rng, p, unit)
        ctx.check(other.are_periods_sorted_and_disjointed() == bool(np.all(p[1:, 0] > p[:-1, 1])), 'sorted', 'sorted and disjointed', order=p, **w)
        other.sort()
        s = state(other)
        ctx.check(bool(np.all(np.diff(s[:, 0]) >= 0)) and sorted(map(tuple, s)) == sorted(map(tuple, arr)), 'sort', 'sorted list', s=s, **w)
    # dates
    t = np.sort(np.concatenate([rng.integers(lo - 3, hi + 4, int(rng.integers(0, 30))), rng.choice(arr.ravel(), int(rng.integers(0, 6))) + rng.integers(-1, 2) if n else []]).astype('i8'))
    if rng.random() < .2:
        t = t[:0]
    d = t.astype(f'M8[{unit}]')
    if rng.random() < .3:
        d = np.repeat(d, 3)[::3]
    finer = rng.random() < .2 and unit != 'ns'
    dq = d.astype(f'M8[{UNITS[UNITS.index(unit) + 1]}]') if finer else d
    ctx.equal(pl.belong_to_a_period(dq), covered(arr, t), 'belong', 'belong_to_a_period', dates=t, **w)
    ctx.count('dates', len(t))
    if len(t):
        want = ((arr[:, 1] >= t[:, None]) & (arr[:, 0] <= t[-1])).any(axis=1)
    else:
        want = np.zeros(0, bool)
    ctx.equal(pl.cross_a_period(dq), want, 'cross', 'cross_a_period', dates=t, **w)
    # close
    for _ in range(3):
        x, (e, d) = int(rng.integers(lo - 9, hi + 10)), duration(rng, unit, range(7))
        near = bool(((arr[:, 0] - e <= x) & (x <= arr[:, 1] + e)).any())
        kw = {} if e == 0 and rng.random() < .5 else dict(epsilon=d)
        ctx.check(bool(pl.is_it_close(np.datetime64(x, unit), **kw)) == near, 'close', 'is_it_close', x=x, e=e, **w)
    # join
    e, d = duration(rng, unit, [0, 1, 2, 5, 30])
    joined = []
    for b, l in arr.tolist():
        if joined and b - joined[-1][1] <= e:
            joined[-1][1] = max(joined[-1][1], l)
        else:
            joined.append([b, l])
    joined = np.array(joined, dtype='i8').reshape(-1, 2)
    kw = {} if e == 0 and rng.random() < .5 else dict(epsilon=d)
    keep = state(pl)
    got = pl.join_adjacent_periods(**kw)
    ctx.equal(state(got), joined, 'join', 'join_adjacent_periods', e=e, **w)
    ctx.equal(state(pl), keep, 'join-input', 'the list was modified', **w)
    dup = copy.deepcopy(pl)
    ctx.check(dup.join_adjacent_periods(inplace=True, **kw) is dup and np.array_equal(state(dup), joined), 'join-inplace', 'in place', e=e, **w)
    ctx.equal(state(pl), keep, 'copy', 'the source of a copy was modified', **w)
    # filter
    e, d = duration(rng, unit, range(30))
    ctx.equal(state(pl.filter(d)), arr[arr[:, 1] - arr[:, 0] + 1 >= e], 'filter', 'filter', e=e, **w)
    # within, intersection
    a = draw(rng, lo - 3, hi + 4)
    p = make(rng, unit, a)
    coarse = rng.random() < .3 and unit != 'D'
    if coarse:
        p = p.as_resolution(UNITS[UNITS.index(unit) - 1])
        a = Model(cast(p.begin.astype('i8'), p.resolution, unit), cast(p.last.astype('i8'), p.resolution, unit))
    ctx.equal(state(pl.within(p)), arr[(arr[:, 0] >= a.b) & (arr[:, 1] <= a.l)], 'within', 'within', p=str(p), **w)
    cut = np.stack([np.maximum(arr[:, 0], a.b), np.minimum(arr[:, 1], a.l)], axis=1)
    ctx.equal(state(pl.intersection(p)), cut[cut[:, 0] <= cut[:, 1]], 'list-intersection', 'intersection', p=str(p), **w)
    ctx.equal(state(pl), keep, 'list-input', 'the list was modified', **w)
    o2 = pickle.loads(pickle.dumps(pl))
    ctx.check(np.array_equal(state(o2), arr) and o2.periods.dtype == pl.periods.dtype, 'list-pickle', 'pickle', **w)


@section(1200)
def merging(ctx, rng):
    """Sequences of merges and joins: the union of the instants."""
    unit = UNITS[int(rng.integers(0, len(UNITS)))]
    o, arr = draw_list(rng, unit)
    pl = to_list(rng, arr, unit)
    ctx.case('merging', unit, arr.tobytes())
    hist = [arr]
    for _ in range(int(rng.integers(1, 4))):
        m = int(rng.integers(0, 10))
        add = nested(rng, o, m) if rng.random() < .3 else disjoint(rng, o + int(rng.integers(-5, 30)), m, rng.random() < .3)
        if rng.random() < .1:
            add, other = state(pl), pl
        else:
            other = to_list(rng, add, unit)
        if rng.random() < .3 and unit != 'ns':
            fine = UNITS[UNITS.index(unit) + 1]
            other = PeriodList(np.array([other.periods['begin'], other.periods['last']]).astype(f'M8[{fine}]'))
        keep = state(other)
        r = pl.merge(other)
        hist.append(add)
        w = dict(unit=unit, history=[h.tolist() for h in hist])
        ctx.check(r is pl, 'merge-self', 'returns the list', **w)
        if other is not pl:
            ctx.equal(state(other), keep, 'merge-input', 'the operand was modified', **w)
        every = np.concatenate(hist)
        union = []
        for b, l in sorted(every.tolist()):
            if union and b <= union[-1][1]:
                union[-1][1] = max(union[-1][1], l)
            else:
                union.append([b, l])
        s = state(pl)
        if rng.random() < 2:
            ctx.check(pl.periods['begin'].dtype == f'M8[{unit}]', 'merge-unit', 'unit of the list', **w)
            if len(hist) == 2 and not np.all(np.diff(arr[:, 0]) >= 0):
                continue
            t = np.arange(every.min() - 2, every.max() + 3) if len(every) else np.arange(3)
            t = t if len(t) < 3000 else np.unique(np.concatenate([every.ravel() + k for k in (-1, 0, 1)]))
            ctx.equal(covered(s, t), covered(every, t), 'merge-set', 'instants of the merged list', s=s, **w)
            ctx.check(bool(np.all(np.diff(s[:, 0]) >= 0)), 'merge-sorted', 'sorted', s=s, **w)
            # two lists of disjointed periods
            if all(np.all(h[1:, 0] > h[:-1, 1]) for h in hist):
                ctx.equal(s, np.array(union, dtype='i8').reshape(-1, 2), 'merge-list', 'merged list', **w)
                ctx.check(pl.are_periods_sorted_and_disjointed(), 'merge-disjointed', 'disjointed', **w)


@section(30)
def refusals(ctx, rng):
    ctx.case('refusals', int(rng.integers(0, 1 << 30)))
    ctx.raises(TypeError, lambda: PeriodList(np.zeros((2, 3))), 'dtype')
    ctx.raises(ValueError, lambda: PeriodList(np.zeros(4, 'M8[s]')), 'shape')
    ctx.raises(ValueError, lambda: PeriodList(core.PeriodList(np.rec.fromarrays(np.zeros((2, 0), 'i8'), PeriodList.DTYPE))), 'no dtype')
    ctx.raises(ValueError, lambda: len(Period(np.datetime64(9, 's'), np.datetime64(2, 's'))), 'invalid')


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c26(ctx, rng)
