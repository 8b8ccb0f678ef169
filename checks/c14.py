"""C14: geohash areas tile, neighbour and cover the sphere."""
import math
from fractions import Fraction

import numpy as np
import pyinterp
from pyinterp import GeoHash, geodetic, geohash
from pyinterp.geohash import int64

import pyinterp.backends.xarray

import geo
import sphere
import large
from vt import section

PARTS = ['geohash', 'geodetic', 'axis', 'grid']
NATIVE = ['geohash']
RULE = ('A case is one cell with its box, neighbours and area, one region (box aligned or not with the cells, degenerate, at '
        'the antimeridian or the poles; polygon with or without holes; multipolygon) with the list of its cells, or one table of '
        'codes, judged against exact cells. Non-trivial: at least one cell was judged.')
ASSUMES = ['neighbours are not claimed for the cells touching a pole', 'polygons are at most 30 degrees wide, do not contain a '
           'pole; cells within 0.05 degree of their boundary are not judged']

UNITS = {'lon': 'degrees_east', 'lat': 'degrees_north'}


def word(rng, n):
    return ''.join(rng.choice(list(geo.ALPHABET), n))


@section(4000)
def neighbours(ctx, rng):
    p = int(rng.integers(4, 65))
    nx, ny = geo.bits(p)
    m = int(rng.choice([1, 3, 6]))
    for _ in range(m):
        i = geo.rank(rng, 1 << nx)
        if rng.random() < .3:
            i = int(rng.choice([0, (1 << nx) - 1, (1 << nx - 1) - 1, 1 << nx - 1]))
        j = min(max(geo.rank(rng, 1 << ny), 1), (1 << ny) - 2)
        code = geo.interleave(i, j, p)
        want = [geo.interleave((i + a) % (1 << nx), j + b, p)
                for a, b in ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1))]
        ctx.case(code, p, precision=p, cell=(i, j))
        got = [int(v) for v in int64.neighbors(code, p)]
        ctx.check(got == want, 'int64.neighbors', code=code, precision=p, cell=(i, j), got_=got, want=want)
        if p % 5 == 0 and p <= 60:
            n = p // 5
            g = GeoHash.from_string(geo.text(code, n))
            got = [str(v) for v in g.neighbors()]
            ctx.check(got == [geo.text(w, n) for w in want], 'GeoHash.neighbors', code=str(g), got_=got)
            ctx.count('texts')
        ctx.count('at the antimeridian' if i in (0, (1 << nx) - 1) else 'elsewhere')


@section(1500, 40000, native='geohash')
def portable(ctx, rng):
    """The codec for the processors that have not the instructions the other needs."""
    import vtn_geohash
    p = int(rng.integers(4, 65))
    nx, ny = geo.bits(p)
    i = geo.rank(rng, 1 << nx)
    j = min(max(geo.rank(rng, 1 << ny), 1), (1 << ny) - 2)
    code = geo.interleave(i, j, p)
    want = [geo.interleave((i + a) % (1 << nx), j + b, p)
            for a, b in ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1))]
    ctx.case(code, p, precision=p, cell=(i, j))
    got = [int(v) for v in vtn_geohash.neighbors(code, p)]
    ctx.check(got == want, 'portable neighbors', code=code, precision=p, cell=(i, j), got_=got, want=want)
    # a box within a table of cells, away from their edges
    dx, dy = geo.size(p)
    w, h = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    i, j = min(i, (1 << nx) - w), min(j, (1 << ny) - h)
    if i < 0 or j < 0:
        return
    x0, x1 = float((i + Fraction(3, 10)) * dx - 180), float((i + w - Fraction(3, 10)) * dx - 180)
    y0, y1 = float((j + Fraction(3, 10)) * dy - 90), float((j + h - Fraction(3, 10)) * dy - 90)
    if dx < 1e-9 or dy < 1e-9:
        return
    got = [int(v) for v in vtn_geohash.bounding_boxes(x0, y0, x1, y1, p)]
    want = [geo.interleave(i + a, j + b, p) for b in range(h) for a in range(w)]
    ctx.check(sorted(got) == sorted(want), 'portable bounding_boxes', box=(x0, y0, x1, y1), precision=p, got_=got, want=want)
    ctx.count('boxes')


@section(800)
def cells(ctx, rng):
    n = int(rng.integers(1, 13))
    w = word(rng, n)
    code = geo.integer(w)
    ctx.case(w, word=w)
    g = GeoHash.from_string(w)
    box = g.bounding_box()
    x0, y0, x1, y1 = geo.cell(code, 5 * n)
    ctx.check([Fraction(v) for v in (box.min_corner.lon, box.min_corner.lat, box.max_corner.lon, box.max_corner.lat)] ==
              [x0, y0, x1, y1], 'bounding_box', word=w, got_=str(box))
    c = g.center()
    ctx.check((Fraction(c.lon), Fraction(c.lat)) == ((x0 + x1) / 2, (y0 + y1) / 2), 'center')
    # the positions of the cell and those around
    q = []
    for x in (x0, (x0 + x1) / 2, x0 + (x1 - x0) * Fraction(float(rng.random())), x1 - (x1 - x0) / 1024):
        for y in (y0, y0 + (y1 - y0) * Fraction(float(rng.random())), y1 - (y1 - y0) / 1024):
            q.append((float(x), float(y)))
    lon, lat = np.array(q).T
    ctx.all(geohash.encode(lon, lat, n) == w.encode(), 'positions of the box', word=w, lon=lon, lat=lat)
    q = [(float(x0 - (x1 - x0) / 64), c.lat), (float(x1), c.lat), (float(x1 + (x1 - x0) / 64), c.lat)]
    if y1 < 90:
        q += [(c.lon, float(y1)), (c.lon, float(y1 + (y1 - y0) / 64))]
    if y0 > -90:
        q += [(c.lon, float(y0 - (y1 - y0) / 64))]
    lon, lat = np.array(q).T
    ctx.all(geohash.encode(lon, lat, n) != w.encode(), 'positions out of the box', word=w, lon=lon, lat=lat)
    # area
    wgs = geodetic.Spheroid((6.4e6, 1 / 300)) if rng.random() < .4 else None
    a = g.area(wgs)
    ctx.close(geohash.area(np.array([w], dtype=f'S{n}'), wgs), [a], 'area of a vector', rtol=1e-12)
    ctx.close(box.area(wgs), a, 'area of the box', rtol=1e-12)
    if 4 <= n <= 7:
        s = wgs or geodetic.Spheroid()
        b, f = s.semi_major_axis * (1 - s.flattening), s.flattening
        e = math.sqrt(f * (2 - f))

        def zone(deg):
            t = math.sin(math.radians(deg))
            return b * b / 2 * (t / (1 - e * e * t * t) + math.atanh(e * t) / e)

        want = math.radians(float(x1 - x0)) * (zone(float(y1)) - zone(float(y0)))
        # the sides are geodesics: parallels bulge
        tol = 1e-6 + float(x1 - x0)**2 * 3e-4 * (1 + abs(float(y0)) / (90.001 - abs(float(y0))))
        ctx.close(a, want, 'area of the cell', rtol=max(tol, 2e-3 if n > 5 else 1e-3), word=w)
        ctx.count('areas')


@section(12, 40)
def tiling(ctx, rng):
    n = int(rng.integers(1, 4))
    words = geohash.bounding_boxes(precision=n)
    ctx.case(n, word(rng, 3), n=n)
    want = sorted(a + b + c for a in geo.ALPHABET for b in (geo.ALPHABET if n > 1 else ['']) for c in (geo.ALPHABET if n > 2 else ['']))
    got = [w.decode() for w in words]
    ctx.check(sorted(got) == want, 'the globe', n=n, len=len(got))
    nx, ny = geo.bits(5 * n)
    lon, lat = geohash.decode(words)
    ctx.close(lon.reshape(1 << ny, 1 << nx), np.broadcast_to(-180 + (np.arange(1 << nx) + .5) * 360 / (1 << nx), (1 << ny, 1 << nx)), 'columns')
    ctx.close(lat.reshape(1 << ny, 1 << nx), np.broadcast_to((-90 + (np.arange(1 << ny) + .5) * 180 / (1 << ny))[:, None], (1 << ny, 1 << nx)), 'rows')
    s = geodetic.Spheroid()
    f, a = s.flattening, s.semi_major_axis
    e = math.sqrt(f * (2 - f))
    total = 2 * math.pi * a * a * (1 + (1 - e * e) / e * math.atanh(e))
    ctx.close(geohash.area(words).sum(), total, 'sum of the areas', rtol=2e-3 if n > 1 else 1e-2)
    if n < 3:
        grid = GeoHash.grid(precision=n)
        ctx.check(grid.geohash.shape == (1 << ny, 1 << nx), 'grid shape') if hasattr(grid, 'geohash') else None
        g = grid['geohash']
        ctx.check([w.decode() for w in np.flip(g.values, 0).ravel()] == got, 'grid')
        la, lo = np.asarray(g.coords['lat']), np.asarray(g.coords['lon'])
        labels = {name: g.coords[name].attrs.get('units') for name in ('lon', 'lat')}
        ctx.check(labels == UNITS, 'grid units', labels=labels)
        ctx.all(geohash.encode(np.tile(lo, la.size), np.repeat(la, lo.size), n) == g.values.ravel(), 'grid coordinates')
        ctx.close(lo, -180 + (np.arange(1 << nx) + .5) * 360 / (1 << nx), 'grid longitudes', 1e-12)
        ctx.close(la, 90 - (np.arange(1 << ny) + .5) * 180 / (1 << ny), 'grid latitudes', 1e-12)
        data = rng.normal(size=len(got))
        order = rng.permutation(len(got))
        x = pyinterp.geohash.to_xarray(words[order], data[order])
        la, lo = np.asarray(x.coords['lat']), np.asarray(x.coords['lon'])
        at = geohash.encode(np.tile(lo, la.size), np.repeat(la, lo.size), n)
        ctx.equal(x.values.ravel(), np.array([dict(zip(words, data))[w] for w in at]), 'to_xarray')
        ctx.close(lo, -180 + (np.arange(1 << nx) + .5) * 360 / (1 << nx), 'to_xarray longitudes', 1e-12)
        ctx.close(np.sort(la), -90 + (np.arange(1 << ny) + .5) * 180 / (1 << ny), 'to_xarray latitudes', 1e-12)
        labels = {name: x.coords[name].attrs.get('units') for name in ('lon', 'lat')}
        if ctx.check(labels == UNITS, 'to_xarray units', labels=labels):
            back = pyinterp.backends.xarray.Grid2D(x, geodetic=True)
            ctx.equal(np.array(back.x[:]), lo, 'to_xarray: longitudes of the grid')
            ctx.equal(np.array(back.array), x.values.T, 'to_xarray: values of the grid')


def corner(rng, p):
    """A coordinate pair generator for boxes."""
    dx, dy = geo.size(p)
    nx, ny = geo.bits(p)
    i, j = int(rng.integers(0, 1 << nx)), int(rng.integers(0, 1 << ny))
    if rng.random() < .2:
        i = int(rng.choice([0, (1 << nx) - 1]))
    if rng.random() < .2:
        j = int(rng.choice([0, (1 << ny) - 1]))
    w, h = int(rng.choice([0, 0, 1, 2, 5, 9])), int(rng.choice([0, 0, 1, 2, 5, 9]))
    k, l = min(i + w, (1 << nx) - 1), min(j + h, (1 << ny) - 1)

    def pick(a):
        r = rng.random()
        return Fraction(a) if r < .3 else a + Fraction(1) if r < .45 else a + Fraction(float(rng.random())) if r < .9 else a + Fraction(1, 1 << 20)

    x0, x1, y0, y1 = pick(i), pick(k), pick(j), pick(l)
    x = sorted([float(x0 * dx - 180), float(x1 * dx - 180)])
    y = sorted([float(y0 * dy - 90), float(y1 * dy - 90)])
    if rng.random() < .05:
        x[1] = x[0]
    if rng.random() < .05:
        y[1] = y[0]
    return x, y


@section(2000)
def boxes(ctx, rng):
    n = int(rng.integers(1, 11))
    p = 5 * n
    x, y = corner(rng, p)
    if rng.random() < .1 and n < 3:
        x = [-180., 180.]
    ctx.case(x, y, n, x=x, y=y, precision=n)
    box = geodetic.Box(geodetic.Point(x[0], y[0]), geodetic.Point(x[1], y[1]))
    got = [w.decode() for w in geohash.bounding_boxes(box, precision=n)]
    sw, cols, rows = GeoHash.grid_properties(box, n)
    ctx.check(len(got) == cols * rows, 'grid_properties:size', n=len(got), cols=cols, rows=rows, x=x, y=y)
    ctx.check(len(set(got)) == len(got), 'duplicates', x=x, y=y, got_=got[:30])
    ctx.check(bool(got) and got[0] == str(sw) and len(str(sw)) == n, 'grid_properties:first', got_=got[:3], sw=str(sw))
    dx, dy = geo.size(p)
    nx, ny = geo.bits(p)

    def spans(a, b, lo, d, m):
        """Needed and allowed cells of a side."""
        a, b = (Fraction(a) - lo) / d, (Fraction(b) - lo) / d
        first = min(math.floor(a), m - 1)
        last = max(min(math.ceil(b) - 1, m - 1), first)
        return range(first, last + 1), range(max(math.ceil(a) - 1, 0), min(math.floor(b), m - 1) + 1)

    nc, ac = spans(*x, -180, dx, 1 << nx)
    nr, ar = spans(*y, -90, dy, 1 << ny)
    seen = {geo.deinterleave(geo.integer(w), p) for w in got}
    miss = [(i, j) for j in nr for i in nc if (i, j) not in seen]
    ctx.check(not miss, 'cells missing', x=x, y=y, precision=n, missing=miss[:5], n=len(miss), found=len(seen))
    more = [(i, j) for i, j in seen if i not in ac or j not in ar]
    ctx.check(not more, 'cells away', x=x, y=y, precision=n, more=more[:5])
    order = sorted(seen, key=lambda c: (c[1], c[0]))
    ctx.check([geo.deinterleave(geo.integer(w), p) for w in got] == order, 'order', x=x, y=y)
    ctx.count('cells', len(got))
    ctx.count('needed', len(nc) * len(nr))


def polygons(rng):
    """(geometry, function giving the signed position of points: +1 well
    inside, -1 well outside, 0 near the boundary)."""
    c = rng.uniform(-180, 180) if rng.random() < .6 else rng.uniform(175, 185), rng.uniform(-55, 55)
    proj = sphere.Gnomonic(*c)
    scale = 10**rng.uniform(-1, 1.1)
    wrap = rng.random() < .5
    parts = []
    multi = rng.random() < .35
    for k in range(int(rng.integers(1, 4)) if multi else 1):
        at = (0, 0) if not multi else (2.5 * scale * (k - 1), rng.uniform(-1, 1) * scale)
        outer = sphere.star(rng, int(rng.integers(3, 9)), .5 * scale, scale, at)
        holes = [sphere.star(rng, int(rng.integers(3, 6)), .1 * scale, .2 * scale, at)] if rng.random() < .4 and len(outer) > 5 else []
        parts.append((outer, holes))

    def points(ring, cw):
        lon, lat = proj.inverse(ring[::-1] if cw else ring)
        if wrap:
            lon = (lon + 180) % 360 - 180
        out = [geodetic.Point(a, b) for a, b in zip(lon, lat)]
        return out + out[:1]

    polys = [geodetic.Polygon(points(o, True), [points(h, False) for h in hs] or None) for o, hs in parts]
    margin = .02 * scale + 1e-3 * scale

    def side(lon, lat):
        q = proj(lon, lat)
        ins = np.zeros(len(q), dtype=bool)
        near = np.zeros(len(q), dtype=bool)
        for o, hs in parts:
            i = sphere.inside(o, q)
            near |= sphere.edge_distance(o, q) < margin
            for h in hs:
                i &= ~sphere.inside(h, q)
                near |= sphere.edge_distance(h, q) < margin
            ins |= i
        return np.where(near, 0, np.where(ins, 1, -1))

    return (geodetic.MultiPolygon(polys) if multi else polys[0]), side, parts, proj, scale


@section(300)
def regions(ctx, rng):
    geom, side, parts, proj, scale = polygons(rng)
    n = next(k for k in (6, 5, 4, 3, 2, 1) if (2 * scale / float(geo.size(5 * k)[0])) * (2 * scale / float(geo.size(5 * k)[1])) < 400)
    if rng.random() < .3 and n > 1:
        n -= 1
    threads = int(rng.choice([0, 1, 2, 7]))
    ctx.case(geom.wkt(), n, precision=n, wkt=geom.wkt()[:300])
    words = geohash.bounding_boxes(geom, precision=n, num_threads=threads)
    got = [w.decode() for w in words]
    ctx.check(len(set(got)) == len(got), 'duplicates')
    ctx.check(got == [w.decode() for w in geohash.bounding_boxes(geom, precision=n, num_threads=1)], 'threads')
    # points well inside have their cell listed
    ring = np.concatenate([o for o, _ in parts])
    q = rng.uniform(ring.min(0), ring.max(0), (400, 2))
    lon, lat = proj.inverse(q)
    s = side(lon, lat)
    lon = (lon + 180) % 360 - 180
    need = set(w.decode() for w in geohash.encode(lon[s > 0], lat[s > 0], n))
    crossing = bool(len(lon) and np.ptp(lon) > 180)
    ctx.count('crossing the antimeridian', crossing)
    miss = need - set(got)
    ctx.check(not miss, 'cells missing', wkt=geom.wkt(), precision=n, missing=sorted(miss)[:5], found=len(got))
    ctx.judgements += len(need)
    # every cell listed meets the region
    dx, dy = (float(v) for v in geo.size(5 * n))
    t = np.linspace(0, 1, 15)
    for w in got[:150]:
        x0, y0, x1, y1 = (float(v) for v in geo.cell(geo.integer(w), 5 * n))
        gx, gy = np.meshgrid(x0 + t * dx, y0 + t * dy)
        if (side(gx.ravel(), gy.ravel()) >= 0).any():
            ctx.judgements += 1
            continue
        # a vertex of the region in the cell, or a region thinner than the sampling
        v = np.concatenate([o for o, _ in parts] + [h for _, hs in parts for h in hs])
        lo, la = proj.inverse(v)
        lo = (lo - x0 + 180) % 360 - 180 + x0
        near = ((lo >= x0 - dx / 14) & (lo <= x1 + dx / 14) & (la >= y0 - dy / 14) & (la <= y1 + dy / 14)).any()
        edge = min(sphere.edge_distance(o, proj(gx.ravel(), gy.ravel())).min() for o, _ in parts) < .12 * max(dx, dy)
        if not crossing:
            ctx.check(near or edge, 'cell away', wkt=geom.wkt(), word=w)
        elif not (near or edge):
            # see the known finding; not beyond the envelope in any case
            ctx.count('cells away beside the antimeridian')
            d = (.5 * (x0 + x1) - lo - 180) % 360 - 180
            ok = -d.max() <= dx and d.min() >= -dx or (d.min() <= dx and d.max() >= -dx)
            ctx.check(ok and la.min() - dy - .2 <= y1 and la.max() + dy + .2 >= y0, 'cell out of the envelope', wkt=geom.wkt(), word=w)
    ctx.count('cells', len(got))
    ctx.count('needed', len(need))


@section(600)
def where(ctx, rng):
    rows, cols = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    n = int(rng.integers(1, 13))
    # rectangles of identical codes
    table = np.zeros((rows, cols), dtype='int64')
    k = 0
    want = {}
    names = []

    def split(r0, r1, c0, c1):
        nonlocal k
        if (r1 - r0 > 1 or c1 - c0 > 1) and rng.random() < .75:
            if r1 - r0 > 1 and (c1 - c0 == 1 or rng.random() < .5):
                m = int(rng.integers(r0 + 1, r1))
                split(r0, m, c0, c1)
                split(m, r1, c0, c1)
            else:
                m = int(rng.integers(c0 + 1, c1))
                split(r0, r1, c0, m)
                split(r0, r1, m, c1)
            return
        w = word(rng, n)
        while w in names:
            w = word(rng, n) if len(names) < 20 or n > 1 else next(a for a in geo.ALPHABET if a not in names)
        names.append(w)
        want[w.encode()] = ((r0, r1 - 1), (c0, c1 - 1))
        table[r0:r1, c0:c1] = k
        k += 1

    split(0, rows, 0, cols) if n > 1 or rows * cols <= 32 else split(0, min(rows, 4), 0, min(cols, 8))
    if not (n > 1 or rows * cols <= 32):
        table = table[:min(rows, 4), :min(cols, 8)]
    arr = np.array(names, dtype=f'S{n}')[table]
    ctx.case(arr, shape=arr.shape, codes=len(names))
    got = geohash.where(arr)
    ctx.check(got == want, 'where', got_={k: got.get(k) for k in got if got.get(k) != want.get(k)},
              want={k: want[k] for k in want if got.get(k) != want[k]}, shape=arr.shape)
    ctx.count('codes', len(names))
    err = (ValueError, RuntimeError, TypeError)
    ctx.raises(err, lambda: geohash.where(arr[0]), 'one dimension')
    if arr.shape[1] > 1 and arr.shape[0] > 1:
        ctx.raises(err, lambda: geohash.where(arr.T), 'layout')


@section(1, 1)
def finding(ctx, rng):
    """Known finding: cells that do not meet a polygon across the antimeridian."""
    cases = [(((-179.937, -23.1361), (177.294, -21.8291), (-179.257, -19.9624)), b'runj'),
             (((-163.405, -27.5133), (175.751, -37.0514), (179.914, -21.4112), (-177.655, -21.5644)), b'rcu')]
    bad = []
    for k, (pts, w) in enumerate(cases):
        poly = geodetic.Polygon([geodetic.Point(*p) for p in pts + pts[:1]])
        if w in geohash.bounding_boxes(poly, precision=len(w)):
            bad.append(k)
    ctx.case('antimeridian', len(cases))
    ctx.check(not bad, 'cells beside polygons across the antimeridian', f'{len(bad)} of {len(cases)} cells listed are away from the polygon')


@section(2, 12)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c14(ctx, rng)
