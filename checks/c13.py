"""C13: geohash encoding and decoding are inverse and nested."""
from fractions import Fraction

import numpy as np
import pyinterp
from pyinterp import GeoHash, geohash
from pyinterp.geohash import int64

import geo
import large
from vt import section

PARTS = ['geohash']
NATIVE = ['geohash']
RULE = ('A case is a batch of positions (anywhere, on and beside cell edges of every level, poles, antimeridian, several turns) '
        'or of random codes with one precision, judged against exact rational arithmetic on the cells. Non-trivial: at least one '
        'position or code was judged.')
ASSUMES = ['a position within 1e-12 degree of an edge may be given to either cell', 'latitudes are within [-90, 90]']


def batch(rng, lo=1):
    return int(rng.choice([0, 1, 2, 5, 12], p=[.02, .2, .2, .28, .3]))


@section(3000)
def encode(ctx, rng):
    p = int(rng.integers(1, 65))
    lon, lat = geo.positions(rng, batch(rng), p)
    ctx.case(lon, lat, p, precision=p, n=lon.size)
    got = int64.encode(lon, lat, p)
    ctx.check(got.dtype == np.uint64 and got.shape == lon.shape, 'dtype')
    for x, y, c in zip(lon, lat, got):
        exact, ok = geo.codes(x, y, p)
        ctx.check(int(c) in ok, 'int64.encode', lon=x, lat=y, precision=p, got_=int(c), want=exact)
        ctx.count('on or near an edge' if len(ok) > 1 else 'within a cell')
    # nesting
    if p > 1:
        q = int(rng.integers(1, p))
        low = int64.encode(lon, lat, q)
        ctx.equal(low, got >> np.uint64(p - q), 'prefix', lon=lon, lat=lat, precision=(q, p))
    # text form
    n = int(rng.integers(1, 13))
    words = geohash.encode(lon, lat, n)
    ctx.check(words.dtype == np.dtype(f'S{n}') and words.shape == lon.shape, 'text dtype')
    ints = int64.encode(lon, lat, 5 * n)
    for x, y, w, c in zip(lon, lat, words, ints):
        w = w.decode()
        ctx.check(w == geo.text(int(c), n), 'text of the integer', lon=x, lat=y, got_=w, want=geo.text(int(c), n))
        g = GeoHash(x, y, n)
        ctx.check(str(g) == w and g.precision() == n and g.number_of_bits() == 5 * n, 'GeoHash', lon=x, lat=y, got_=str(g), want=w)
    if not lon.size:
        ctx.judgements += 1


@section(3000)
def decode(ctx, rng):
    p = int(rng.integers(1, 65))
    m = max(batch(rng), 1)
    code = rng.integers(0, 1 << 64, m, dtype='uint64', endpoint=False) >> np.uint64(64 - p)
    for k in range(m):
        if rng.random() < .5:
            i = geo.rank(rng, 1 << geo.bits(p)[0])
            j = geo.rank(rng, 1 << geo.bits(p)[1])
            code[k] = geo.interleave(i, j, p)
    for k in range(1, m):
        if rng.random() < .4:  # the code before, but for the last bits
            code[k] = int(code[k - 1]) ^ int(rng.integers(0, 1 << int(rng.integers(0, p + 1)), dtype='uint64', endpoint=False) if rng.random() < .8 else 0)
    ctx.case(code, p, precision=p, n=m)
    lon, lat = int64.decode(code, p)
    for c, x, y in zip(code, lon, lat):
        x0, y0, x1, y1 = geo.cell(int(c), p)
        ctx.check(
            abs(Fraction(x) - (x0 + x1) / 2) <= geo.EDGE / 10 and abs(Fraction(y) - (y0 + y1) / 2) <= geo.EDGE / 10, 'centre',
            code=int(c), precision=p, lon=x, lat=y, cell=[float(v) for v in (x0, y0, x1, y1)])
    ctx.equal(int64.encode(lon, lat, p), code, 'encode(decode)', precision=p)
    lon, lat = int64.decode(code, p, round=True)
    for c, x, y in zip(code, lon, lat):
        x0, y0, x1, y1 = geo.cell(int(c), p)
        e = Fraction(1, 10**13)
        ctx.check(x0 - e <= Fraction(x) <= x1 + e and y0 - e <= Fraction(y) <= y1 + e, 'rounded position', code=int(c), precision=p,
                  lon=x, lat=y, cell=[float(v) for v in (x0, y0, x1, y1)])
        # no more digits than the size of the cell needs
        for v, d in ((x, x1 - x0), (y, y1 - y0)):
            unit = 10.0**np.floor(np.log10(float(d)))
            ctx.check(abs(v / unit - np.round(v / unit)) <= 1e-9 + 1e-15 * abs(v / unit), 'rounded digits', value=v, size=float(d))
    ctx.count('codes', m)


@section(3000)
def text(ctx, rng):
    n = int(rng.integers(1, 13))
    m = max(batch(rng), 1)
    words = [''.join(rng.choice(list(geo.ALPHABET), n)) for _ in range(m)]
    if rng.random() < .3:
        words[0] = str(rng.choice(['z', '0', 'p', 'b'])) * n
    for k in range(1, m):
        if rng.random() < .5:  # the code before, but for some characters
            keep = np.ones(n, bool)
            if rng.random() < .7:
                keep[int(rng.integers(0, n + 1)):] = False
            else:
                keep[int(rng.integers(0, n))] = False
            words[k] = ''.join(a if s else b for a, b, s in zip(words[k - 1], words[k], keep))
    arr = np.array(words, dtype=f'S{n}')
    how = str(rng.choice(['plain', 'one of several', 'list']))
    if how == 'one of several':
        other = np.array([''.join(rng.choice(list(geo.ALPHABET), n)) for _ in range(2 * m)], dtype=f'S{n}')
        other[::2] = arr
        arr = other[::2]
        if m > 1:
            ctx.raises((RuntimeError, ValueError), lambda: geohash.decode(arr), 'not contiguous')
            arr = arr.copy()
    ctx.case(words, how, words=words, how=how)
    lon, lat = geohash.decode(arr)
    ints = np.array([geo.integer(w) for w in words], dtype='uint64')
    want = int64.decode(ints, 5 * n)
    ctx.equal(lon, want[0], 'decode', how=how)
    ctx.equal(lat, want[1], 'decode', how=how)
    rl, rt = geohash.decode(arr, round=True)
    want = int64.decode(ints, 5 * n, round=True)
    ctx.equal(rl, want[0], 'decode round')
    ctx.equal(rt, want[1], 'decode round')
    ctx.equal(geohash.encode(lon, lat, n), np.array(words, dtype=f'S{n}'), 'encode(decode)')
    for w, x, y in zip(words, lon, lat):
        g = GeoHash.from_string(w)
        c = g.center()
        ctx.check(str(g) == w and (c.lon, c.lat) == (x, y) and g.precision() == n, 'from_string', word=w, got_=str(g))
        ctx.check(str(GeoHash.from_string(w, round=True)) == w, 'from_string round', word=w,
                  got_=str(GeoHash.from_string(w, round=True)))
        ctx.check(eval(repr(g)).__str__() == w, 'repr', word=w, got_=repr(g))
        box = g.bounding_box()
        cell = [float(v) for v in geo.cell(geo.integer(w), 5 * n)]
        ctx.close([box.min_corner.lon, box.min_corner.lat, box.max_corner.lon, box.max_corner.lat], cell, 'box', atol=1e-13)
    e = GeoHash.error_with_precision(n)
    ctx.equal(e, [float(v) for v in geo.size(5 * n)], 'error_with_precision')
    ctx.count('words', m)


@section(600)
def transform(ctx, rng):
    n = int(rng.integers(1, 13))
    t = int(rng.choice([n, max(n - 1, 1), max(n - 3, 1), 1, min(n + 1, 12), min(n + 2, 12)]))
    m = int(rng.integers(1, 5))
    words = [''.join(rng.choice(list(geo.ALPHABET), n)) for _ in range(m)]
    words += words[:1]
    arr = np.array(words, dtype=f'S{n}')
    short = t > n and n > 1 and rng.random() < .3 and t - n < 2
    if short:  # a shorter code in a wider array
        words[0] = words[0][:-1]
        words[-1] = words[0]
        arr = np.array(words, dtype=f'S{n}')
    ctx.case(arr, t, words=words, to=t)
    got = geohash.transform(arr, t)
    ctx.check(got.dtype == np.dtype(f'S{t}'), 'dtype', got_=str(got.dtype))
    got = [w.decode() for w in got]
    if t == n:
        ctx.check(got == words, 'same precision', got_=got, want=words)
    elif t < n:
        ctx.check(got == sorted({w[:t] for w in words}), 'zoom out', got_=got, words=words)
    else:
        want = []
        for w in words:
            tails = ['']
            for _ in range(t - len(w)):
                tails = [a + b for a in tails for b in geo.ALPHABET]
            want += [w + s for s in tails]
        ctx.check(sorted(got) == sorted(want), 'zoom in', words=words, to=t, n=len(got), want=len(want), got_=got[:40])
        ctx.count('zoomed in', len(got))
    ctx.count('short' if short else 'full')


@section(200)
def rejected(ctx, rng):
    ctx.case(int(rng.integers(1 << 40)))
    err = (ValueError, TypeError, RuntimeError)
    lon, lat = geo.positions(rng, 3)
    good = geohash.encode(lon, lat, 5)
    bad = int(rng.choice([0, -1, 13, 14, 20, 65, 1 << 32]))
    ctx.raises(err, lambda: geohash.encode(lon, lat, bad), f'encode {bad}')
    ctx.raises(err, lambda: GeoHash(lon[0], lat[0], bad), f'GeoHash {bad}')
    ctx.raises(err, lambda: geohash.transform(good, bad), f'transform {bad}')
    ctx.raises(err, lambda: GeoHash.error_with_precision(bad), f'error {bad}')
    ctx.raises(err, lambda: GeoHash.grid_properties(pyinterp.geodetic.Box.whole_earth(), bad), f'grid_properties {bad}')
    bad = int(rng.choice([0, -1, 65, 100]))
    ctx.raises(err, lambda: int64.encode(lon, lat, bad), f'int encode {bad}')
    ctx.raises(err, lambda: int64.decode(np.array([1], dtype='uint64'), bad), f'int decode {bad}')
    ctx.raises(err, lambda: int64.neighbors(1, bad), f'int neighbors {bad}')
    n = int(rng.integers(1, 13))
    w = list(''.join(rng.choice(list(geo.ALPHABET), n)))
    w[int(rng.integers(0, n))] = str(rng.choice(list('ailoAEZ -_!~\x7f')))
    w = ''.join(w)
    ctx.raises(err, lambda: GeoHash.from_string(w), 'from_string', word=w)
    ctx.raises(err, lambda: geohash.decode(np.array([w], dtype=f'S{n}')), 'decode', word=w)
    ctx.raises(err, lambda: geohash.area(np.array([w], dtype=f'S{n}')), 'area', word=w)
    ctx.raises(err, lambda: GeoHash.from_string('e' * int(rng.integers(13, 30))), 'too long')
    ctx.raises(err, lambda: GeoHash.from_string(''), 'empty')
    ctx.raises(err, lambda: geohash.decode(np.array(['e' * 13], dtype='S13')), 'too long')
    ctx.raises(err, lambda: geohash.decode(np.array(['e'])), 'str array')
    ctx.raises(err, lambda: geohash.decode(np.array([[b'e']])), 'two dimensions')
    ctx.raises(err, lambda: geohash.encode(lon, lat[:2], 5), 'sizes')
    ctx.raises(err, lambda: int64.encode(lon[:1], lat, 5), 'sizes')


@section(2000, 60000, native='geohash')
def portable(ctx, rng):
    """The codec for the processors that have not the instructions the other needs."""
    import vtn_geohash
    p = int(rng.integers(1, 65))
    lon, lat = geo.positions(rng, max(batch(rng), 1), p)
    ctx.case(lon, lat, p, precision=p, n=lon.size)
    got = vtn_geohash.encode(lon, lat, p)
    for x, y, c in zip(lon, lat, got):
        exact, ok = geo.codes(x, y, p)
        ctx.check(int(c) in ok, 'portable encode', lon=x, lat=y, precision=p, got_=int(c), want=exact)
        ctx.count('on or near an edge' if len(ok) > 1 else 'within a cell')
    if p > 1:
        q = int(rng.integers(1, p))
        ctx.equal(vtn_geohash.encode(lon, lat, q), got >> np.uint64(p - q), 'portable prefix', lon=lon, lat=lat, precision=(q, p))
    code = np.append(got, rng.integers(0, 1 << 64, 4, dtype='uint64', endpoint=False) >> np.uint64(64 - p))
    lon, lat = vtn_geohash.decode(code, p, False)
    for c, x, y in zip(code, lon, lat):
        cell = x0, y0, x1, y1 = geo.cell(int(c), p)
        ctx.check(
            abs(Fraction(x) - (x0 + x1) / 2) <= geo.EDGE / 10 and abs(Fraction(y) - (y0 + y1) / 2) <= geo.EDGE / 10, 'portable centre',
            code=int(c), precision=p, lon=x, lat=y, cell=[float(v) for v in cell])
        ctx.close(vtn_geohash.bounding_box(int(c), p), [float(v) for v in cell], 'portable box', atol=1e-13, code=int(c), precision=p)
    ctx.equal(vtn_geohash.encode(lon, lat, p), code, 'portable encode(decode)', precision=p)


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c13(ctx, rng)
