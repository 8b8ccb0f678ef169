"""C10: no data race (ThreadSanitizer build of the extension)."""
import threading

import numpy as np
import pyinterp
from pyinterp import core, geodetic, geohash

import grids
import threads
import vt
vt.SECTIONS.clear()
from vt import section

FLAVOURS = ['tsan']
RULE = ('A case is one threaded function called with several numbers of threads on one random input (inside, outside, refused), or several Python threads '
        'calling functions at the same time on shared objects, in the ThreadSanitizer build. Non-trivial: at least one call was made with several threads.')
ASSUMES = ['only accesses made by the extension and its templates are watched (numpy and CPython are not instrumented)',
           'objects shared by the callers are only read']


@section(660, 8000)
def functions(ctx, rng):
    name = list(threads.FUNCTIONS)[ctx.index % len(threads.FUNCTIONS)]
    n = int(rng.choice([2, 7, 16, 40, 64, 200]))
    f = threads.FUNCTIONS[name](rng, n)
    ctx.case(name, n, ctx.index)
    kinds = set()
    for t in (2, 4, int(rng.integers(3, 12))):
        r = threads.call(f, t)
        kinds.add(r[0])
        ctx.count(f'calls with {"refused" if r[0] == "error" else "accepted"} items')
    ctx.count(name)
    ctx.check(len(kinds) == 1, 'outcome', 'the outcome depends on the number of threads', name=name, n=n)


def together(ctx, calls, times):
    """Runs the calls from as many Python threads at once."""
    barrier = threading.Barrier(len(calls))
    errors = []
    out = [None] * len(calls)

    def run(k):
        barrier.wait()
        try:
            for _ in range(times):
                out[k] = calls[k]()
        except (ValueError, RuntimeError, IndexError) as e:
            out[k] = (type(e).__name__, )
        except BaseException as e:  # noqa: B036
            errors.append(f'{type(e).__name__}: {e}')

    pool = [threading.Thread(target=run, args=(k, )) for k in range(len(calls))]
    for p in pool:
        p.start()
    for p in pool:
        p.join()
    ctx.count('concurrent callers', len(calls))
    ctx.check(not errors, 'concurrent callers', str(errors)[:400])
    return out


@section(330, 4000)
def callers(ctx, rng):
    """Several Python threads on the same object."""
    name = list(threads.FUNCTIONS)[ctx.index % len(threads.FUNCTIONS)]
    n = int(rng.choice([16, 64, 200]))
    f = threads.FUNCTIONS[name](rng, n)
    ctx.case(name, n, ctx.index)
    ref = threads.call(f, 1)
    got = together(ctx, [lambda t=t: threads.call(f, t) for t in (1, 1, 2, 3)], 3)
    ctx.count(name)
    for g in got:
        ctx.check(g[0] == ref[0] and (g[0] == 'error' or all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(ref[1], g[1]))),
                  'concurrent results', name=name)


@section(180, 2000)
def objects(ctx, rng):
    """Functions without num_threads on shared objects."""
    x, y = np.sort(rng.uniform(-170, 170, 30)), rng.normal(size=30)
    ax = core.Axis(x)
    circle = core.Axis(np.arange(0, 360, 5.), is_circle=True)
    t = core.TemporalAxis((np.arange(20) * 3600).astype('M8[s]'))
    poly, px, py = threads.shape(rng)
    other = threads.shape(rng)[0]
    lon, lat = rng.uniform(px - 20, px + 20, 200), rng.uniform(max(py - 20, -85), min(py + 20, 85), 200)
    line = geodetic.LineString(lon[:10], lat[:10])
    line2 = geodetic.LineString(lon[10:20], lat[10:20])
    codes = geohash.encode(lon, lat, precision=5)
    values = rng.normal(size=200)
    stats = pyinterp.DescriptiveStatistics(values)
    hist = pyinterp.StreamingHistogram(values, bin_count=20)
    binning = pyinterp.Binning2D(core.Axis(np.arange(-180, 180, 10.), is_circle=True), core.Axis(np.arange(-90, 91, 10.)))
    binning.push(lon, lat, values)
    sph = geodetic.Spheroid()
    q = rng.uniform(x[0], x[-1], 100)
    dates = (rng.integers(0, 10**9, 100)).astype('M8[s]')
    fmod = pyinterp.core.interpolate1d
    calls = {
        'find_index': lambda: ax.find_index(q), 'find_index bounded': lambda: circle.find_index(q, True), 'temporal': lambda: t.find_index(dates % np.timedelta64(70000, 's') if False else t[:5]),
        'find_indexes': lambda: ax.find_indexes(q), 'interpolate1d': lambda: fmod(ax, y, q, half_window_size=5),
        'contains': lambda: poly.covered_by(lon, lat), 'distance': lambda: poly.distance(geodetic.Point(0, 0)), 'intersection': lambda: poly.intersection(other),
        'union': lambda: poly.union(other), 'area': lambda: poly.area(wgs=sph), 'crossing': lambda: line.intersection(line2), 'length': lambda: line.curvilinear_distance('vincenty', sph),
        'closest': lambda: line.closest_point(geodetic.Point(1, 2)), 'curvilinear': lambda: line.curvilinear_distance(),
        'encode': lambda: geohash.encode(lon, lat, precision=7), 'decode': lambda: geohash.decode(codes), 'area_': lambda: geohash.area(codes), 'where': lambda: geohash.where(codes.reshape(20, 10)),
        'mean': lambda: stats.mean(), 'quantile': lambda: hist.quantile(.3), 'variable': lambda: binning.variable('mean'), 'histogram': lambda: hist.bins(),
        'filled': lambda: pyinterp.fill.vector(np.where(np.arange(50) % 3, np.arange(50.), np.nan)), 'dates': lambda: pyinterp.dateutils.isocalendar(dates),
        'statistics': lambda: pyinterp.DescriptiveStatistics(values).var(),
        'normalize': lambda: geodetic.normalize_longitudes(lon.copy()),
        'simplify': lambda: poly.simplify(100.), 'wkt': lambda: poly.wkt(), 'crossover': lambda: geodetic.Crossover(line, line2).exists(),
    }
    names = list(calls)
    picked = [names[int(k)] for k in rng.choice(len(names), 4, replace=False)]
    if ctx.index < len(names):
        picked[:2] = [names[ctx.index]] * 2
    picked.append(picked[0])
    ctx.case(*picked, ctx.index)
    together(ctx, [calls[k] for k in picked], 5)
    for k in picked:
        ctx.count(k)
