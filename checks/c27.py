"""C27: calendar of the dates, against numpy, datetime and the Gregorian rules."""
import datetime
import gc
import sys

import numpy as np
from pyinterp import core

import vt
import large
from vt import section

PARTS = ['dates']
RULE = ('A case is one random array of dates in one unit; every field of every date is compared with the calendar rules (numpy, '
        'datetime, or the count of days of the Gregorian calendar). Non-trivial: at least one date was judged.')
ASSUMES = ['NaT is not a date', 'the years of the dates fit in 32 bits', 'datetime truncates below the microsecond',
           'the time elapsed since January 1 is judged where it fits in 64 bits of the unit']
ORDER = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9, 'ps': 10**12, 'fs': 10**15, 'as': 10**18}
SPECIAL = ['1970-01-01', '1969-12-31', '2000-02-29', '1900-02-28', '1900-03-01', '2004-12-31', '2005-01-01', '1600-02-29', '0001-01-01', '9999-12-31',
           '2020-12-31', '2021-01-03', '2021-01-04', '2015-12-31', '2016-01-03', '1969-12-28', '1968-12-31', '1972-01-02']


def to_ints(dates, unit):
    return dates.astype(f'M8[{unit}]').astype('i8')


def draw(rng, unit, n):
    """Integers of the unit."""
    o = ORDER[unit]
    # the range of years allowed by 64 bits, and by 32 bits for the year
    top = min((2**63 - 1) // o, 60000 * 366 * 86400)
    how = rng.integers(0, 6)
    if how == 0:
        v = rng.integers(-top, top, n)
    elif how == 1:
        lim = min(top, 2208988800 * 2)
        v = rng.integers(-lim, lim, n)
    elif how == 2:
        v = np.array([int(np.datetime64(s, 's').astype('i8')) for s in rng.choice(SPECIAL, n)]) + rng.integers(-2, 3, n)
    elif how == 3:
        y = rng.integers(1900, 2101, n)
        v = (y.astype(str).astype('M8[Y]')).astype('M8[s]').astype('i8') + rng.integers(-4, 5, n) * 86400 + rng.choice([0, 86399, 1, 43200], n)
    elif how == 4:
        v = rng.integers(-3 * 86400, 3 * 86400, n)
    else:
        v = rng.integers(-5, 6, n)
    v = [int(x) for x in v]
    top_i = (2**63 - 1) // o
    v = [x if abs(x) < top_i else int(np.sign(x)) * (abs(x) % top_i) for x in v]
    frac = rng.choice([0, 1, o - 1, 0], n) if rng.random() < .5 else rng.integers(0, o, n)
    out = [x * o + int(f) for x, f in zip(v, frac)]
    return np.array([min(max(x, -2**63 + 1), 2**63 - 1) for x in out], dtype='i8')


def civil(days):
    """Year, month, day of a number of days, exact."""
    y = 1970 + days * 400 // 146097
    while first(y) > days:
        y -= 1
    while first(y + 1) <= days:
        y += 1
    d = days - first(y)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    for m, n in enumerate([31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], 1):
        if d < n:
            return y, m, d + 1
        d -= n


def first(y):
    """Days between 1970-01-01 and the first of January of a year."""
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400 - 719162


def layout(rng, a):
    how = int(rng.integers(0, 4))
    if how == 0:
        big = np.zeros(3 * len(a), a.dtype)
        big[::3] = a
        return big[::3]
    if how == 1:
        return a[::-1].copy()[::-1]
    if how == 2:
        rec = np.zeros(len(a), dtype=[('k', 'i4'), ('t', a.dtype)])
        rec['t'] = a
        return rec['t']
    return a


@section(700)
def fields(ctx, rng):
    unit = list(ORDER)[int(rng.integers(0, 7))]
    n = int(rng.integers(0, 60))
    v = draw(rng, unit, n)
    o = ORDER[unit]
    a = layout(rng, v.view(f'M8[{unit}]'))
    ctx.case('fields', unit, v.tobytes())
    ctx.count(f'dates.{unit}', n)
    ctx.count('before 1970', int((v < 0).sum()))
    sec = np.array([int(x) // o for x in v], dtype=object)
    frac = [int(x) % o for x in v]
    days = [int(s) // 86400 for s in sec]
    sod = [int(s) % 86400 for s in sec]
    ymd = [civil(d) for d in days]
    w = dict(unit=unit, v=v)
    got = core.dateutils.date(a)
    for k, f in enumerate(['year', 'month', 'day']):
        ctx.equal(got[f].astype('i8'), np.array([x[k] for x in ymd], dtype='i8'), f'date-{f}', 'date', **w)
    got = core.dateutils.time(a)
    for f, x in zip(['hour', 'minute', 'second'], [[s // 3600 for s in sod], [s // 60 % 60 for s in sod], [s % 60 for s in sod]]):
        ctx.equal(got[f].astype('i8'), np.array(x, dtype='i8'), f'time-{f}', 'time', **w)
    wd = [(d + 4) % 7 for d in days]
    ctx.equal(core.dateutils.weekday(a).astype('i8'), np.array(wd, dtype='i8'), 'weekday', 'weekday', **w)
    iso = []
    for d, (y, _, _) in zip(days, ymd):
        th = d - (d + 3) % 7 + 3  # the thursday of the week
        iy = civil(th)[0]
        iso.append((iy, (th - first(iy)) // 7 + 1, (d + 3) % 7 + 1))
    got = core.dateutils.isocalendar(a)
    for k, f in enumerate(['year', 'week', 'weekday']):
        ctx.equal(got[f].astype('i8'), np.array([x[k] for x in iso], dtype='i8'), f'iso-{f}', 'isocalendar', **w)
    since = [((d - first(y)) * 86400 + s) * o + f for d, (y, _, _), s, f in zip(days, ymd, sod, frac)]
    fit = np.array([abs(x) < 2**62 for x in since], dtype=bool)
    got = core.dateutils.timedelta_since_january(a if fit.all() else layout(rng, v.view(f'M8[{unit}]')[fit]))
    ctx.check(got.dtype == f'm8[{unit}]' and got.shape == (fit.sum(), ), 'since-dtype', 'type of timedelta_since_january', **w)
    ctx.equal(got.astype('i8'), np.array([x for x in since if abs(x) < 2**62], dtype='i8'), 'since', 'timedelta_since_january', **w)
    # the native objects
    inside = np.array([1 <= y <= 9999 for y, _, _ in ymd], dtype=bool)
    b = layout(rng, v.view(f'M8[{unit}]')[inside])
    got = core.dateutils.datetime(b)
    ctx.check(got.dtype == object and got.shape == (int(inside.sum()), ), 'native-shape', 'array of datetime', **w)
    # (owned by the array alone)
    refs = [sys.getrefcount(x) for x in got[:3]]
    ctx.check(all(r <= 3 for r in refs), 'native-refs', 'references of the objects', refs=refs, **w)
    for x, i in zip(got, np.flatnonzero(inside)):
        y, m, d = ymd[i]
        s, f = sod[i], frac[i]
        us = f * 10**6 // o
        ctx.check(x == datetime.datetime(y, m, d, s // 3600, s // 60 % 60, s % 60, us), 'native', 'datetime', x=str(x), i=int(v[i]), unit=unit)
    if not inside.all() and n:
        ctx.count('out of datetime')
        ctx.raises((ValueError, OverflowError), lambda: core.dateutils.datetime(a), 'native-range', 'year out of datetime', **w)
    # text
    for i in rng.integers(0, n, min(n, 12)):
        if -9999 <= ymd[i][0] <= 9999:
            y, m, d = ymd[i]
            s = sod[i]
            t = f'{y:04d}-{m:02d}-{d:02d}T{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}'
            if o > 1:
                t += f'.{frac[i]:0{len(str(o)) - 1}d}'
            got = core.dateutils.datetime64_to_str(int(v[i]), f'datetime64[{unit}]')
            ctx.check(got == t, 'text', 'textual form', text=got, expected=t, v=int(v[i]), unit=unit)


@section(400)
def text(ctx, rng):
    """Every unit, against numpy."""
    unit = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as'][int(rng.integers(0, 13))]
    if unit in ORDER:
        v = draw(rng, unit, 12)
    else:
        per = {'Y': 1, 'M': 12, 'W': 53, 'D': 366, 'h': 366 * 24, 'm': 366 * 1440}[unit]
        v = rng.integers(-1970 * per if rng.random() < .3 else -100 * per, 8000 * per if rng.random() < .3 else 100 * per, 12)
    ctx.case('text', unit, v.tobytes())
    for x in v:
        d = np.datetime64(int(x), unit)
        y = civil(int(x) // ORDER[unit] // 86400)[0] if unit in ORDER else int(d.astype('M8[Y]').astype('i8')) + 1970
        if not 0 < y <= 9999:
            continue
        got = core.dateutils.datetime64_to_str(int(x), f'datetime64[{unit}]')
        ctx.check(got == str(d), 'text', 'textual form', text=got, expected=str(d), unit=unit, v=int(x))


@section(60)
def repr_axis(ctx, rng):
    """The axes print their dates."""
    unit = ['D', 'h', 's', 'ms', 'us', 'ns'][int(rng.integers(0, 6))]
    per = {'D': 1, 'h': 24, 's': 86400, 'ms': 86400 * 10**3, 'us': 86400 * 10**6, 'ns': 86400 * 10**9}[unit]
    v = np.cumsum(rng.integers(1, 100 * per, 4)) + int(rng.integers(-20000, 20000)) * per
    d = v.astype('i8').astype(f'M8[{unit}]')
    ctx.case('repr', unit, v.tobytes())
    ax = core.TemporalAxis(d)
    t = repr(ax)
    ctx.check(all(str(x) in t for x in d) or ax.is_regular(), 'repr', 'text of the axis', t=t, d=[str(x) for x in d])


@section(30)
def refusals(ctx, rng):
    ctx.case('refusals', int(rng.integers(0, 1 << 30)))
    u = core.dateutils
    for f in (u.date, u.time, u.weekday, u.isocalendar, u.timedelta_since_january, u.datetime):
        for unit in ('Y', 'M', 'W', 'D', 'h', 'm'):
            ctx.raises(ValueError, lambda: f(np.zeros(3, f'M8[{unit}]')), 'unit')
        ctx.raises(ValueError, lambda: f(np.zeros((3, 2), 'M8[s]')), 'ndim')
        ctx.raises(ValueError, lambda: f(np.zeros(3, 'm8[s]')), 'timedelta')
        ctx.raises(ValueError, lambda: f(np.zeros(3)), 'float')
    ctx.raises(ValueError, lambda: u.datetime64_to_str(3, 'datetime64[x]'), 'unit')


@section(3)
def leaks(ctx, rng):
    """The objects live as long as the array."""
    d = np.arange(2000).astype('M8[s]') + np.timedelta64(int(rng.integers(0, 10**9)), 's')
    ctx.case('leaks', str(d[0]))
    r = core.dateutils.datetime(d)
    keep = r[5]
    del r
    gc.collect()
    ctx.check(sys.getrefcount(keep) == 2, 'leak', 'the object is still referenced by a deleted array', refs=sys.getrefcount(keep))
    import resource
    a = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    for _ in range(300):
        core.dateutils.datetime(d)
    b = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    ctx.check(b - a < 15000, 'leak', 'memory grows', kb=b - a)


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c27(ctx, rng)
