"""C16: boxes and polygons answer containment and set queries correctly."""
import copy
import math
import pickle

import numpy as np
from pyinterp import geodetic

import grids
import sphere
import large
from vt import section

PARTS = ['geodetic', 'axis']
RULE = ('A case is one box, one pair of polygons or of multipolygons (stars of 3 to 9 vertices, 0.1 to 12 degrees wide, with or '
        'without holes, overlapping, nested or apart) with some hundreds of positions, judged against planar geometry in the '
        'gnomonic map centred on the pair. Non-trivial: at least one position was judged.')
ASSUMES = ['polygons do not contain a pole; positions within 2% of the width of a polygon of its border are not judged, except '
           'its vertices and the borders of a box',
           'the sides of polygons, and those of boxes in areas and distances, are geodesics; distances between two geometries next '
           'to the antimeridian are those of Boost, not judged; flattenings at most 1/280 (Boost computes areas of flatter spheroids '
           'with 1% of error)']

Point = geodetic.Point


class Shape:
    """A polygon or a multipolygon and its planar model."""

    def __init__(self, proj, parts, scale, multi=None, base=True):
        self.proj, self.parts, self.scale = proj, parts, scale
        self.polys = [geodetic.Polygon(self.points(o, True), [self.points(h, False) for h in hs] or None) for o, hs in parts]
        multi = len(parts) > 1 if multi is None else multi
        self.geom = geodetic.MultiPolygon(self.polys) if multi else self.polys[0]
        self.multi = multi
        self.rings = [o for o, _ in parts] + [h for _, hs in parts for h in hs]

    def points(self, ring, cw):
        lon, lat = self.proj.inverse(ring[::-1] if cw else ring)
        out = [Point(a, b) for a, b in zip(lon, lat)]
        return out + out[:1]

    def side(self, q):
        """+1 well inside, -1 well outside, 0 next to a border."""
        ins = np.zeros(len(q), dtype=bool)
        near = np.zeros(len(q), dtype=bool)
        for o, hs in self.parts:
            i = sphere.inside(o, q)
            for h in hs:
                i &= ~sphere.inside(h, q)
            ins |= i
        for r in self.rings:
            near |= sphere.edge_distance(r, q) < .02 * self.scale
        return np.where(near, 0, np.where(ins, 1, -1))

    def planar(self):
        """Area in the plane."""
        def ring(r):
            x, y = r.T
            return abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2
        return sum(ring(o) - sum(ring(h) for h in hs) for o, hs in self.parts)

    def vertices(self):
        return [self.proj.inverse(r) for r in self.rings]


def star(rng, at, scale, hole=.4):
    outer = sphere.star(rng, int(rng.integers(3, 10)), .5 * scale, scale, at)
    holes = []
    if rng.random() < hole and len(outer) > 5:
        where = [(0, 0)] if rng.random() < .5 else [(r * np.cos(a), r * np.sin(a)) for r, a in zip(rng.uniform(.3, .6, 5), rng.uniform(0, 7, 5))] + [(0, 0)]
        for x, y in where:
            h = sphere.star(rng, int(rng.integers(3, 6)), .08 * scale, .15 * scale, (at[0] + x * scale, at[1] + y * scale))
            apart = min(min(sphere.edge_distance(r, h).min(), sphere.edge_distance(h, r).min()) for r in [outer, *holes])
            if apart > .05 * scale and sphere.inside(outer, h).all() and not any(sphere.inside(r, h).any() for r in holes):
                holes.append(h)
    return outer, holes


def projection(rng):
    lat = float(rng.uniform(-60, 60))
    lon = float(rng.uniform(-180, 180)) if rng.random() < .75 else float(rng.choice([180, -179.5, 179.9, 0]))
    return sphere.Gnomonic(lon, lat), 10**rng.uniform(-1, 1)


def shape(rng, proj, scale, at=(0, 0), multi=None):
    multi = rng.random() < .3 if multi is None else multi
    if not multi:
        return Shape(proj, [star(rng, at, scale)], scale, multi=False)
    n = int(rng.integers(1, 4))
    s = scale / 2.2
    cells = rng.permutation(4)[:n]
    return Shape(proj, [star(rng, (at[0] + (2 * (c % 2) - 1) * 1.1 * s, at[1] + (2 * (c // 2) - 1) * 1.1 * s), s) for c in cells],
                 s, multi=True)


def sample(rng, shapes, n):
    ring = np.concatenate([r for s in shapes for r in s.rings])
    lo, hi = ring.min(0), ring.max(0)
    return rng.uniform(lo - .1 * (hi - lo), hi + .1 * (hi - lo), (n, 2))


def cover(ctx, rng, geom, lon, lat):
    """covered_by of positions, in all its forms."""
    threads = int(rng.choice([0, 1, 2, 3, 9]))
    a = np.asarray(geom.covered_by(grids.layout(rng, lon), grids.layout(rng, lat), num_threads=1))
    ctx.check(a.shape == lon.shape, 'covered_by:shape')
    b = np.asarray(geom.covered_by(lon, lat, num_threads=threads))
    ctx.all(a == b, 'covered_by:threads', num_threads=threads)
    idx = rng.integers(0, lon.size, min(lon.size, 40))
    c = np.array([geom.covered_by(Point(lon[i], lat[i])) for i in idx], dtype=bool)
    ctx.all(a[idx].astype(bool) == c, 'covered_by:scalar', lon=lon[idx], lat=lat[idx])
    return a.astype(bool)


def turns(rng, lon):
    """The same longitudes given in another range."""
    k = rng.choice([0, 0, 360, -360])
    return lon + k if rng.random() < .5 else np.where(rng.random(lon.shape) < .5, lon, lon + k)


@section(700)
def containment(ctx, rng):
    proj, scale = projection(rng)
    s = shape(rng, proj, scale)
    q = sample(rng, [s], int(rng.choice([1, 5, 300])))
    lon, lat = proj.inverse(q)
    ctx.case(s.geom.wkt(), lon, wkt=s.geom.wkt()[:200], polygons=len(s.parts), holes=sum(len(h) for _, h in s.parts))
    got = cover(ctx, rng, s.geom, turns(rng, lon), lat)
    side = s.side(q)
    ctx.all((got == (side > 0))[side != 0], 'covered_by', wkt=s.geom.wkt(), lon=lon, lat=lat, side=side, got_=got)
    ctx.count('inside', int((side > 0).sum()))
    ctx.count('outside', int((side < 0).sum()))
    ctx.count(f'polygons of {max(len(h) for _, h in s.parts)} holes')
    # the border belongs to the region
    for lo, la in s.vertices():
        ctx.all(np.asarray(s.geom.covered_by(lo, la)).astype(bool), 'vertices', wkt=s.geom.wkt(), lon=lo, lat=la)
    # structure
    if s.multi:
        ctx.check(len(s.geom) == len(s.polys), 'len')
        ctx.check(s.geom.num_interior_rings() == sum(len(h) for _, h in s.parts), 'num_interior_rings')
        ctx.check([p.wkt() for p in s.geom] == [p.wkt() for p in s.polys], 'iter')
        for i, p in enumerate(s.polys):
            ctx.check(s.geom[i].wkt() == p.wkt(), 'getitem')
            ctx.check(p in s.geom, 'contains')
        far = Shape(proj, [star(rng, (3 * scale, 0), scale)], scale)
        ctx.check(far.geom not in s.geom, 'contains: another polygon')
        ctx.raises((IndexError, ), lambda: s.geom[len(s.polys)], 'index out of range')
        m = geodetic.MultiPolygon()
        for p in s.polys:
            m.append(p)
        ctx.check(m.wkt() == s.geom.wkt() and m == s.geom, 'append')
        before = s.geom.wkt()
        m = s.geom + geodetic.MultiPolygon([far.geom])
        ctx.check(len(m) == len(s.polys) + 1 and m[len(s.polys)].wkt() == far.geom.wkt() and s.geom.wkt() == before, 'add')
        n = copy.copy(s.geom)
        n += geodetic.MultiPolygon([far.geom])
        ctx.check(n.wkt() == m.wkt() and s.geom.wkt() == before, 'iadd')
        ctx.close(s.geom.area(), sum(p.area() for p in s.polys), 'area of the parts', rtol=1e-12)
        # union of the answers of the parts
        each = np.array([np.asarray(p.covered_by(lon, lat)).astype(bool) for p in s.polys]).any(0)
        ctx.all(got == each, 'covered_by the parts')
    else:
        ctx.check(s.geom.num_interior_rings() == len(s.parts[0][1]) == len(s.geom.inners), 'num_interior_rings')
        ctx.check(s.geom.is_valid, 'is_valid', wkt=s.geom.wkt())
        o, hs = s.parts[0]
        lo, la = proj.inverse(o[::-1])
        ring = np.array([[p.lon, p.lat] for p in s.geom.outer])
        ctx.close(ring, np.array([np.append(lo, lo[0]), np.append(la, la[0])]).T, 'outer', atol=1e-12)
        # wrong orientations or open rings are repaired by correct
        bad = geodetic.Polygon(s.points(o, rng.random() < .5)[:-1 if rng.random() < .5 else None],
                               [s.points(h, rng.random() < .5) for h in hs] or None)
        good = bad.correct()
        ctx.check(good.is_valid, 'correct', wkt=bad.wkt())
        ctx.close(good.area(), s.geom.area(), 'correct:area', rtol=1e-9)
        g = np.asarray(good.covered_by(lon, lat)).astype(bool)
        ctx.all((g == got)[side != 0], 'correct:covered_by', wkt=bad.wkt())


@section(400)
def measures(ctx, rng):
    proj, scale = projection(rng)
    s = shape(rng, proj, scale)
    ctx.case(s.geom.wkt(), wkt=s.geom.wkt()[:200])
    # envelope
    box = s.geom.envelope()
    lon = np.concatenate([proj.inverse(o)[0] for o, _ in s.parts])
    lat = np.concatenate([proj.inverse(o)[1] for o, _ in s.parts])
    centre = np.degrees(math.atan2(proj.c[1], proj.c[0]))
    rel = (lon - centre + 180) % 360 - 180
    x0 = (box.min_corner.lon - centre + 180) % 360 - 180
    ctx.close(x0, rel.min(), 'envelope:west', atol=1e-9, wkt=s.geom.wkt(), box=str(box))
    ctx.close(box.max_corner.lon - box.min_corner.lon, rel.max() - rel.min(), 'envelope:width', atol=1e-9, wkt=s.geom.wkt(), box=str(box))
    bulge = (rel.max() - rel.min())**2 * .005 + 1e-9
    ctx.check(-1e-9 <= box.max_corner.lat - lat.max() <= bulge, 'envelope:north', box=str(box), lat=lat.max(), wkt=s.geom.wkt())
    ctx.check(-1e-9 <= lat.min() - box.min_corner.lat <= bulge, 'envelope:south', box=str(box), lat=lat.min(), wkt=s.geom.wkt())
    # area and perimeter
    wgs = geodetic.Spheroid((float(rng.uniform(1e6, 7e6)), 1 / float(rng.uniform(280, 600)))) if rng.random() < .5 else None
    ref = wgs or geodetic.Spheroid()

    def zone(deg):
        b, f = ref.semi_major_axis * (1 - ref.flattening), ref.flattening
        e = math.sqrt(f * (2 - f))
        t = np.sin(np.radians(deg))
        return b * b / 2 * (t / (1 - e * e * t * t) + np.arctanh(e * t) / e)

    def ring(r):
        t = np.linspace(0, 1, 400, endpoint=False)[:, None]
        pts = np.concatenate([a + t * (b - a) for a, b in zip(r, np.roll(r, -1, axis=0))])
        lo, la = proj.inverse(pts)
        lo = np.radians((lo - centre + 180) % 360 - 180)
        return abs(np.sum((np.roll(lo, -1) - lo) * (zone(la) + zone(np.roll(la, -1))) / 2))

    want = sum(ring(o) - sum(ring(h) for h in hs) for o, hs in s.parts)
    ctx.close(s.geom.area(wgs), want, 'area', rtol=1e-3, wkt=s.geom.wkt())
    for p, (o, hs) in zip(s.polys, s.parts):
        want = 0
        for r in [o] + hs:
            lo, la = proj.inverse(r)
            v = [Point(a, b) for a, b in zip(lo, la)]
            want += sum(a.distance(b, 'vincenty', wgs) for a, b in zip(v, v[1:] + v[:1]))
        ctx.close(p.perimeter(wgs), want, 'perimeter', rtol=1e-4)
    k = float(rng.uniform(.1, 3))
    big = geodetic.Spheroid((ref.semi_major_axis * k, ref.flattening))
    ctx.close(s.geom.area(big), k * k * s.geom.area(wgs), 'area of a larger spheroid', rtol=1e-9)
    # distance
    q = sample(rng, [s], 30)
    side = s.side(q)
    lo, la = proj.inverse(q)
    for i in np.flatnonzero(side)[:12]:
        d = s.geom.distance(Point(lo[i], la[i]))
        if side[i] > 0:
            ctx.check(d == 0, 'distance inside', d=d, wkt=s.geom.wkt(), pos=(lo[i], la[i]))
            continue
        near = np.inf
        for r in s.rings:
            t = np.linspace(0, 1, 1500)[:, None]
            pts = np.concatenate([a + t * (b - a) for a, b in zip(r, np.roll(r, -1, axis=0))])
            x = sphere.xyz(*proj.inverse(pts))
            y = sphere.xyz(lo[i], la[i])
            near = min(near, np.arccos(np.clip(x @ y, -1, 1)).min() * 6371008.8)
        ctx.close(d, near, 'distance', rtol=.012, atol=1 + 100 * scale, wkt=s.geom.wkt(), pos=(lo[i], la[i]))
        ctx.count('distances')
    # simplify
    if not s.multi:
        tol = float(10**rng.uniform(1, 6))
        t = s.geom.simplify(tol)
        mine = {(p.lon, p.lat) for r in [s.geom.outer, *s.geom.inners] for p in r}
        ctx.check({(p.lon, p.lat) for r in [t.outer, *t.inners] for p in r} <= mine, 'simplify', wkt=s.geom.wkt())
        if len(t.outer) > 3:
            far = max((min_distance(t.outer, v) for v in s.geom.outer), default=0)
            ctx.check(far <= tol * 1.01 + 1, 'simplify:tolerance', far=far, tolerance=tol, wkt=s.geom.wkt(), after=t.wkt())
        ctx.check(s.geom.simplify(0).wkt() == s.geom.wkt() or s.geom.simplify(0) == s.geom, 'simplify:0')


def min_distance(line, v):
    """Distance of a position to a ring."""
    pts = np.array([[p.lon, p.lat] for p in line])
    proj = sphere.Gnomonic(v.lon, v.lat)
    r = proj(pts[:-1, 0], pts[:-1, 1])
    if not np.isfinite(r).all():
        return 0
    return math.radians(float(sphere.edge_distance(r, np.zeros((1, 2)))[0])) * 6371008.8 * .985


def place(rng, scale):
    """Where the second shape lies with respect to the first."""
    r = rng.random()
    if r < .6:
        d = rng.uniform(.2, 1.5) * scale
    elif r < .8:
        d = rng.uniform(2.3, 4) * scale
    else:
        d = 0
    a = rng.uniform(0, 2 * np.pi)
    return (d * np.cos(a), d * np.sin(a)), (scale if d else scale * float(rng.choice([.3, .5, 1.])))


@section(800)
def pairs(ctx, rng):
    proj, scale = projection(rng)
    a = shape(rng, proj, scale)
    at, size = place(rng, scale)
    b = shape(rng, proj, size, at, multi=rng.random() < .6 if a.multi else False)
    ctx.case(a.geom.wkt(), b.geom.wkt(), a=a.geom.wkt()[:150], b=b.geom.wkt()[:150])
    q = sample(rng, [a, b], 300)
    lon, lat = proj.inverse(q)
    sa, sb = a.side(q), b.side(q)
    ok = (sa != 0) & (sb != 0)
    wit = {'a': a.geom.wkt(), 'b': b.geom.wkt()}

    # the geometries as they are, from their answers on a fine sample
    fine = sample(rng, [a, b], 4000)
    fa, fb = a.side(fine), b.side(fine)
    common = bool(((fa > 0) & (fb > 0)).any())
    got = a.geom.intersects(b.geom)
    if common:
        ctx.check(got is True, 'intersects', **wit)
    # apart: planar distance between the borders is positive and no vertex inside
    apart = not common and not any(sphere.inside(o, r[:1]).any() for o, _ in a.parts for r in b.rings) and \
        not any(sphere.inside(o, r[:1]).any() for o, _ in b.parts for r in a.rings) and \
        not crossing(a.rings, b.rings)
    gap = min((sphere.edge_distance(r, s).min() for r in a.rings for s in b.rings), default=0) if apart else 0
    gap = min([gap] + [sphere.edge_distance(s, r).min() for r in a.rings for s in b.rings]) if apart else 0
    if apart and gap > .02 * scale:
        ctx.check(got is False, 'intersects: apart', **wit)
        ctx.count('apart')
    if (common or (apart and gap > .02 * scale)):
        ctx.check(a.geom.touches(b.geom) is False, 'touches', **wit)
        d = a.geom.distance(b.geom) if not (not a.multi and b.multi) else None
        seam = any((abs(s.proj.inverse(r)[0]) > 170).any() for s in (a, b) for r in s.rings)
        if d is not None and not seam:
            if common:
                ctx.check(d == 0, 'distance of intersecting', d=d, **wit)
            else:
                ctx.check(d > 0, 'distance apart', d=d, **wit)
                near = separation(proj, a.rings, b.rings)
                ctx.close(d, near, 'distance', rtol=.012, atol=1 + 500 * scale, **wit)

    def members(geom):
        return np.asarray(geom.covered_by(lon, lat)).astype(bool)

    ops = {'intersection': (sa > 0) & (sb > 0)}
    if not (not a.multi and b.multi):
        ops['union'] = (sa > 0) | (sb > 0)
    if not a.multi and not b.multi:
        ops['difference'] = (sa > 0) & ~(sb > 0)
    if not a.multi and b.multi:
        return
    area = {}
    for name, want in ops.items():
        r = getattr(a.geom, name)(b.geom)
        ctx.all((members(r) == want)[ok], name, lon=lon, lat=lat, result=r.wkt(), **wit)
        area[name] = r.area()
        ctx.judgements += int(ok.sum())
    ta = a.geom.area()
    tb = b.geom.area()
    tol = 1e-3 * (ta + tb)
    if 'union' in area:
        ctx.close(area['union'] + area['intersection'], ta + tb, 'area: union and intersection', atol=tol, **wit)
    if 'difference' in area:
        ctx.close(area['difference'], ta - area['intersection'], 'area: difference', atol=tol, **wit)
        ctx.close(b.geom.union(a.geom).area(), area['union'], 'union commutes', atol=tol, **wit)
        ctx.close(b.geom.intersection(a.geom).area(), area['intersection'], 'intersection commutes', atol=tol, **wit)
        ctx.close(b.geom.intersects(a.geom), got, 'intersects commutes', **wit)
    ctx.count('common' if common else 'disjoint')


def crossing(ra, rb):
    for r in ra:
        for s in rb:
            for p, q in zip(r, np.roll(r, -1, axis=0)):
                for u, v in zip(s, np.roll(s, -1, axis=0)):
                    def c(o, a, b):
                        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
                    if c(p, q, u) * c(p, q, v) <= 0 and c(u, v, p) * c(u, v, q) <= 0:
                        return True
    return False


def separation(proj, ra, rb):
    best = np.inf

    def pts(r):
        t = np.linspace(0, 1, 120)[:, None]
        return np.concatenate([a + t * (b - a) for a, b in zip(r, np.roll(r, -1, axis=0))])

    for r in ra:
        x = sphere.xyz(*proj.inverse(pts(r)))
        for s in rb:
            y = sphere.xyz(*proj.inverse(pts(s)))
            best = min(best, np.arccos(np.clip((x @ y.T).max(), -1, 1)) * 6371008.8)
    return best


@section(300)
def touching(ctx, rng):
    """Polygons that share a border or a vertex, and no interior."""
    proj, scale = projection(rng)
    outer = sphere.star(rng, int(rng.integers(4, 9)), .5 * scale, scale)
    n = len(outer)
    i = int(rng.integers(0, n))
    p, q = outer[i], outer[(i + 1) % n]
    kind = rng.choice(['edge', 'vertex', 'cut'])
    if kind == 'vertex':
        # a triangle with its tip at a vertex, away from the star
        u = p / np.linalg.norm(p)
        v = np.array([-u[1], u[0]])
        other = np.stack([p, p + .6 * scale * u - .02 * scale * v, p + .6 * scale * u + .02 * scale * v])
    elif kind == 'edge':
        mid = (p + q) / 2
        out = np.array([q[1] - p[1], p[0] - q[0]])
        out = out / np.linalg.norm(out) * .15 * scale
        other = np.stack([p, mid + out, q])
    else:
        j = (i + 2) % n
        other = None
    if kind == 'cut':
        # cut a convex polygon in two along a diagonal
        t = np.sort(rng.uniform(0, 2 * np.pi, 6))
        while np.diff(np.append(t, t[0] + 2 * np.pi)).max() > 2 or np.diff(t).min() < .2:
            t = np.sort(rng.uniform(0, 2 * np.pi, 6))
        ring = scale * np.stack([np.cos(t), np.sin(t)], -1)
        outer, other = ring[:4], ring[[3, 4, 5, 0]]
    a, b = Shape(proj, [(outer, [])], scale), Shape(proj, [(other, [])], scale)
    ctx.case(a.geom.wkt(), b.geom.wkt(), kind=kind)
    if kind != 'cut':
        q_ = sample(rng, [b], 3000)
        rest = outer[[k for k in range(n) if k != i and (kind == 'vertex' or k != (i + 1) % n)]]
        tips = other[1:] if kind == 'vertex' else other[1:2]
        if (sphere.inside(outer, q_) & sphere.inside(other, q_)).any() or sphere.inside(other, rest).any() or \
                sphere.inside(outer, tips).any() or sphere.edge_distance(other, rest).min() < .01 * scale or \
                sphere.edge_distance(outer, tips).min() < .01 * scale:
            return
    wit = {'a': a.geom.wkt(), 'b': b.geom.wkt()}
    ctx.check(a.geom.intersects(b.geom), f'{kind}:intersects', **wit)
    ctx.check(a.geom.touches(b.geom), f'{kind}:touches', **wit)
    m = geodetic.MultiPolygon([a.geom])
    ctx.check(m.intersects(b.geom) and m.touches(b.geom), f'{kind}:multipolygon', **wit)
    m2 = geodetic.MultiPolygon([b.geom])
    ctx.check(m.intersects(m2) and m.touches(m2), f'{kind}:multipolygons', **wit)
    ctx.check(a.geom.distance(b.geom) == 0 and m.distance(b.geom) == 0 and m.distance(m2) == 0, f'{kind}:distance', **wit)
    ctx.close(a.geom.intersection(b.geom).area(), 0, f'{kind}:intersection', atol=1e-6 * a.geom.area(), **wit)
    ctx.close(a.geom.union(b.geom).area(), a.geom.area() + b.geom.area(), f'{kind}:union', rtol=1e-6, **wit)
    ctx.close(a.geom.difference(b.geom).area(), a.geom.area(), f'{kind}:difference', rtol=1e-6, **wit)
    ctx.count(kind)


@section(1200)
def boxes(ctx, rng):
    x = np.sort(rng.uniform(-180, 180, 2))
    y = np.sort(rng.uniform(-90, 90, 2))
    if rng.random() < .3:
        x, y = np.round(x), np.round(y)
    if rng.random() < .1:
        x = np.array([-180., 180.])
    if rng.random() < .1:
        y = np.array([-90., 90.])
    if x[0] == x[1] or y[0] == y[1]:
        x, y = x + [0, 1e-3], y + [-1e-3, 0]
        x, y = np.clip(x, -180, 180), np.clip(y, -90, 90)
    lo, hi = Point(x[0], y[0]), Point(x[1], y[1])
    box = geodetic.Box(lo, hi)
    ctx.case(x, y, x=x, y=y)
    lon = rng.uniform(-180, 180, 60)
    lat = rng.uniform(-90, 90, 60)
    lon[:20] = rng.uniform(*x, 20)
    lat[10:40] = rng.uniform(*y, 30)
    lon[40:45] = x[rng.integers(0, 2, 5)]
    lat[42:50] = y[rng.integers(0, 2, 8)]
    lon[50:54] = np.nextafter(x[[0, 0, 1, 1]], x[[0, 1, 1, 0]] + [-1, 0, 1, 0])
    lat[50:54] = rng.uniform(*y, 4)
    want = (lon >= x[0]) & (lon <= x[1]) & (lat >= y[0]) & (lat <= y[1])
    # boost compares coordinates with the tolerance of its math::equals
    near = (np.minimum(abs(lon - x[0]), abs(lon - x[1])) < 1e-9) | (np.minimum(abs(lat - y[0]), abs(lat - y[1])) < 1e-9)
    exact = np.isin(lon, x) & (lat >= y[0]) & (lat <= y[1]) | np.isin(lat, y) & (lon >= x[0]) & (lon <= x[1])
    got = cover(ctx, rng, box, turns(rng, lon) if rng.random() < .5 else lon, lat)
    whole = x[1] - x[0] == 360
    far = ~near & ~((abs(abs(lon) - 180) < 1e-9))
    ctx.all((got == want)[far], 'covered_by', x=x, y=y, lon=lon, lat=lat, got_=got)
    got = np.asarray(box.covered_by(lon, lat)).astype(bool)
    ctx.all(got[exact], 'border', x=x, y=y, lon=lon, lat=lat, got_=got)
    c = box.centroid()
    ctx.close([c.lon, c.lat], [x.mean(), y.mean()], 'centroid', atol=1e-12)
    w = geodetic.Box.whole_earth()
    ctx.all(np.asarray(w.covered_by(lon, lat)).astype(bool), 'whole earth')
    # corners
    ctx.check((box.min_corner.lon, box.min_corner.lat, box.max_corner.lon, box.max_corner.lat) == (x[0], y[0], x[1], y[1]), 'corners')
    b = geodetic.Box()
    b.min_corner, b.max_corner = lo, hi
    ctx.check(b == box and not b != box, 'set the corners')
    b.max_corner = Point(x[1] - (x[1] - x[0]) / 2, y[1])
    ctx.check(b != box and not b == box, 'other corners')
    # the surface between two meridians and two parallels
    wgs = geodetic.Spheroid((float(rng.uniform(1e6, 7e6)), 1 / float(rng.uniform(280, 600)))) if rng.random() < .5 else None
    ref = wgs or geodetic.Spheroid()
    bb, f = ref.semi_major_axis * (1 - ref.flattening), ref.flattening
    e = math.sqrt(f * (2 - f))
    t = np.sin(np.radians(y))
    z = bb * bb / 2 * (t / (1 - e * e * t * t) + np.arctanh(e * t) / e)
    if x[1] - x[0] < 20 and max(abs(y)) < 75:
        # boost closes a box with geodesics
        bulge = np.radians(x[1] - x[0])**2 / 12 * np.cos(np.radians(y)) * np.sin(np.radians(abs(y))) * np.cos(np.radians(y))
        want = np.radians(x[1] - x[0]) * (z[1] - z[0])
        tol = np.radians(x[1] - x[0]) * bulge.sum() * ref.semi_major_axis**2 * 3 + 1e-6 * want + 1
        ctx.close(box.area(wgs), want, 'area', atol=tol, x=x, y=y)
        ctx.count('areas')
    if x[1] - x[0] < 20 and y[1] - y[0] < 20 and max(abs(y)) < 75:
        p = box.as_polygon()
        ctx.check({(v.lon, v.lat) for v in p.outer} == {(a, b) for a in x for b in y}, 'as_polygon', x=x, y=y, polygon=p.wkt())
        ctx.check(p.is_valid, 'as_polygon:is_valid', x=x, y=y)
        ctx.close(p.area(wgs), box.area(wgs), 'as_polygon:area', rtol=1e-9)
    # distances
    i = int(rng.integers(0, lon.size))
    d = box.distance(Point(lon[i], lat[i]))
    # the sides of the box are geodesics there: parallels bulge
    bulge = math.radians(x[1] - x[0])**2 / 8 * .5 * 6.4e6
    if .01 < x[1] - x[0] < 40 and .01 < y[1] - y[0] < 100 and max(abs(y)) < 80:
        u = np.linspace(0, 1, 2000)
        edge = np.concatenate([sphere.xyz(x[0] + u * (x[1] - x[0]), v + 0 * u) for v in y] +
                              [sphere.xyz(v + 0 * u, y[0] + u * (y[1] - y[0])) for v in x])
        near_ = np.arccos(np.clip((edge @ sphere.xyz(lon[i], lat[i])).max(), -1, 1)) * 6371008.8
        if near_ > bulge * 1.2 + 1000:
            if got[i]:
                ctx.check(d == 0, 'distance inside', d=d, x=x, y=y, pos=(lon[i], lat[i]))
            elif near_ < 3e6:
                ctx.close(d, near_, 'distance', rtol=.015, atol=200 + bulge * 1.2 + 60 * (y[1] - y[0]), x=x, y=y, pos=(lon[i], lat[i]))
            ctx.count('distances')
    k = int(rng.integers(0, 3))
    o = geodetic.Box(Point(x[0] - .5 * k if x[0] > -178 else x[0], y[0]), Point(x[1], y[1]))
    if .01 < x[1] - x[0] < 40 and .01 < y[1] - y[0] < 100 and max(abs(y)) < 80:
        ctx.check(o.distance(box) == 0 == box.distance(o), 'distance of boxes', x=x, y=y, k=k)


@section(700)
def exchange(ctx, rng):
    """WKT, GeoJSON, pickle and copies."""
    proj, scale = projection(rng)
    s = shape(rng, proj, scale)
    g = s.geom
    ctx.case(g.wkt(), wkt=g.wkt()[:200])

    def coords(geom):
        if isinstance(geom, Point.__mro__[1]):
            return [(geom.lon, geom.lat)]
        if isinstance(geom, geodetic.Box.__mro__[1]):
            return [coords(geom.min_corner), coords(geom.max_corner)]
        if isinstance(geom, geodetic.LineString):
            return [(p.lon, p.lat) for p in geom]
        if isinstance(geom, geodetic.Polygon.__mro__[1]):
            return [coords(geom.outer)] + [coords(r) for r in geom.inners]
        return [coords(p) for p in geom]

    def flat(c):
        return np.array([v for v in walk(c)])

    def walk(c):
        if isinstance(c, (float, int)):
            yield float(c)
        else:
            for v in c:
                yield from walk(v)

    def shapes(c):
        return [shapes(v) for v in c] if isinstance(c, (list, tuple)) else None

    x = np.sort(rng.uniform(-180, 180, 2))
    y = np.sort(rng.uniform(-90, 90, 2))
    line = geodetic.LineString(rng.uniform(-180, 180, 5), rng.uniform(-90, 90, 5))
    for geom, kind in ((g, 'MultiPolygon' if s.multi else 'Polygon'), (Point(x[0], y[0]), 'Point'),
                       (geodetic.Box(Point(x[0], y[0]), Point(x[1], y[1])), 'Box'), (line, 'LineString')):
        cls = getattr(geodetic, kind)
        c = coords(geom)
        for name, other in (('pickle', pickle.loads(pickle.dumps(geom))), ('copy', copy.copy(geom))):
            ctx.check(coords(other) == c, f'{name}:{kind}')
            ctx.check(other == geom and not other != geom, f'{name}:{kind}:==')
        w = cls.read_wkt(geom.wkt())
        ctx.check(shapes(coords(w)) == shapes(c), f'wkt:{kind}', wkt=geom.wkt())
        ctx.close(flat(coords(w)), flat(c), f'wkt:{kind}', rtol=1e-5)
        ctx.check(cls.read_wkt(w.wkt()).wkt() == w.wkt(), f'wkt:{kind}:again')
        j = geom.to_geojson()
        ctx.check(j['type'] == ('Polygon' if kind == 'Box' else kind), f'geojson:type:{kind}', got_=j)
        arr = j['coordinates']
        if kind == 'Point':
            ctx.check(tuple(arr) == (geom.lon, geom.lat), 'geojson:Point', got_=arr)
            continue
        if kind == 'Box':
            n = np.array(arr, dtype='float64').reshape(-1, 2)
            ctx.check({tuple(v) for v in n} == {(a, b) for a in x for b in y}, 'geojson:Box', got_=arr)
            ctx.check(coords(geodetic.Box.from_geojson([x[0], y[0], x[1], y[1]])) == c, 'from_geojson:Box')
            continue
        ctx.check((flat(arr) == flat(c)).all() and flat(arr).size == flat(c).size, f'geojson:{kind}', got_=arr)
        other = cls.from_geojson(arr)
        ctx.check(coords(other) == c, f'from_geojson:{kind}')


@section(200)
def refused(ctx, rng):
    err = (TypeError, ValueError, RuntimeError, IndexError)
    x = rng.uniform(-170, 170, 5)
    y = rng.uniform(-80, 80, 5)
    ctx.case(x, y)
    proj, scale = projection(rng)
    s = shape(rng, proj, scale)
    for geom in (geodetic.Box(Point(x[0], y[0]), Point(x[0] + 1, y[0] + 1)), s.geom):
        ctx.raises(err, lambda: geom.covered_by(x, y[:4]), 'sizes')
        ctx.check(np.asarray(geom.covered_by(x[:0], y[:0], num_threads=int(rng.choice([0, 1, 3])))).shape == (0, ), 'nothing')
    ctx.raises(err, lambda: geodetic.Polygon([1, 2, 3]), 'outer')
    ctx.raises(err, lambda: geodetic.Polygon([Point(0, 0), Point(1, 0), Point(1, 1)], [[1]]), 'inners')
    ctx.raises(err, lambda: geodetic.Polygon([Point(0, 0), Point(1, 0), Point(1, 1)], [Point(0, 0)]), 'inners of points')
    ctx.raises(err, lambda: geodetic.MultiPolygon([Point(0, 0)]), 'polygons')
    ctx.raises(err, lambda: geodetic.Polygon.read_wkt('POINT(1 2)'), 'wkt')


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c16(ctx, rng)
