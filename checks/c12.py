"""C12: geodesy, geohash, trees, statistics and dates under AddressSanitizer and
UndefinedBehaviorSanitizer."""
import numpy as np

import hostile
import vt

BORROWED = hostile.borrow(['c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c26', 'c27', 'c29', 'c09'])
vt.SECTIONS.clear()
from vt import section

FLAVOURS = ['asan']
NATIVE = ['geohash']
RULE = ('A case is a series of calls of everything the extension exposes on geodesy, geohash, trees, statistics, periods and dates, with random arguments of every accepted '
        'type (sizes 0 to 400, any layout, extreme values, objects made by previous calls), or objects restored from damaged states, or cases of the '
        'behavioural checks, executed in the AddressSanitizer + UndefinedBehaviorSanitizer build. Non-trivial: at least one call was accepted.')
ASSUMES = ['intra-object overflows and reads of uninitialised memory are not seen by the sanitizers']


@section(700, 30000)
def calls(ctx, rng):
    hostile.run_fuzz(ctx, rng, 12, 60)


@section(600, 20000)
def states(ctx, rng):
    hostile.run_states(ctx, rng, 12, 12)


@section(400, 8000)
def workloads(ctx, rng):
    hostile.run_borrowed(ctx, rng, BORROWED, 1, 4)


@section(400, 8000, native='geohash')
def portable(ctx, rng):
    """The codec for the processors that have not the instructions the other needs."""
    import vtn_geohash
    n = int(rng.integers(0, 40))
    odd = np.array([np.nan, np.inf, -np.inf, 180, -180, 90, -90, 0, -0.0, 1e300, -1e300, 5e-324, 270, 89.99999999999999, -90.00000000000001])
    lon, lat = rng.uniform(-400, 400, n), rng.uniform(-100, 100, n)
    lon = np.where(rng.random(n) < .3, rng.choice(odd, n), lon)
    lat = np.where(rng.random(n) < .3, rng.choice(odd, n), lat)
    p = int(rng.integers(1, 65))
    code = rng.integers(0, 1 << 64, n + 1, dtype='uint64', endpoint=False) >> np.uint64(64 - p)
    if rng.random() < .3:
        code[0] = [0, (1 << p) - 1][int(rng.integers(0, 2))]
    ctx.case(lon, lat, code, p, precision=p)
    got = vtn_geohash.encode(lon, lat, p)
    ctx.check(got.shape == lon.shape and (p == 64 or not (got >> np.uint64(p)).any()), 'portable codes', lon=lon, lat=lat, precision=p)
    vtn_geohash.decode(code, p, bool(rng.random() < .5))
    for c in code[:4]:
        vtn_geohash.bounding_box(int(c), p)
        vtn_geohash.neighbors(int(c), p)
    ctx.count('codes', n)
