"""C30: objects are values."""
import copy
import dataclasses
import pickle
import warnings

import gen
import geo
import numpy as np
import threads
import vt

vt.SECTIONS.clear()
import pyinterp
import pyinterp.backends.xarray as xb
import pyinterp.orbit
import pyinterp.period
import c28
import c29
from pyinterp import core, geodetic
import large
from vt import section

vt.SECTIONS.clear()
warnings.simplefilter('ignore')
PARTS = ['axis', 'grid', 'bivariate', 'trivariate', 'quadrivariate', 'bicubic', 'spline', 'fill', 'rtree', 'geodetic', 'binning', 'statistics', 'period', 'dates', 'interpolate1d']
RULE = ('A case is one object of one class (51 kinds) in the state left by a random history (also empty), duplicated by pickle (protocols 2 to 5, twice), '
        'copy, deepcopy or the copy method, or combined by + and +=. Its type, equality and the answers to random queries are compared before and after, and '
        'again when one of the twins, then both, go through the same further history. Non-trivial: at least one answer was compared.')
ASSUMES = ['copy.copy is judged on the classes that define __copy__, except the two R-trees (documented as shallow: they share their content)',
           'answers of R-trees are compared within rounding (the arrangement of the tree may change)']

KINDS = {}


class Kind:
    tol = 0.0
    copies = ('pickle', 'deepcopy')
    equal = False
    add = False
    mutate = None

    def __init__(self, name, make, observe, **kw):
        self.name, self.make, self.observe = name, make, observe
        for k, v in kw.items():
            setattr(self, k, v)
        KINDS[name] = self


def kind(name, **kw):
    def deco(cls):
        Kind(name, cls.make, cls.observe, **({'mutate': cls.mutate} if hasattr(cls, 'mutate') else {}), **kw)
        return cls
    return deco


CORE = ('pickle', 'copy', 'deepcopy')


# -- axes --------------------------------------------------------------
def see_axis(a, rng):
    v = np.asarray(a[:])
    out = {
        'values': v, 'len': len(a), 'order': a.is_ascending(), 'regular': a.is_regular(), 'front': np.asarray(a.front()), 'back': np.asarray(a.back()),
        'min': np.asarray(a.min_value()), 'max': np.asarray(a.max_value()), 'repr': repr(a)
    }
    if a.is_regular():
        out['increment'] = np.asarray(a.increment())
    if v.dtype.kind in 'mM':
        out['dtype'] = str(a.dtype())
        i = v.astype('i8')
        q = np.concatenate([rng.integers(i.min() - 5, i.max() + 6, 20), rng.choice(i, 5)]).astype(v.dtype)
    elif v.dtype.kind == 'i':
        q = np.concatenate([rng.integers(v.min() - 5, v.max() + 6, 20), rng.choice(v, 5)])
    else:
        out['circle'] = a.is_circle
        span = np.ptp(v) + 1
        q = np.concatenate([rng.uniform(v.min() - span, v.max() + span, 20), rng.choice(v, 5), rng.choice(v, 5) + 360, rng.choice(v, 5) - 720])
    out['nearest'] = a.find_index(q)
    out['nearest bounded'] = a.find_index(q, True)
    out['indexes'] = a.find_indexes(q)
    return out


def make_axis(rng):
    how = int(rng.integers(0, 5))
    if how == 0:
        v, _ = gen.circle_values(rng)
        return core.Axis(v, 1e-6, True)
    if how == 1:  # angles that do not cover the circle
        v = np.cumsum(rng.uniform(1, 20, int(rng.integers(2, 12)))) + rng.uniform(-200, 100)
        if rng.random() < .5:
            v = np.linspace(v[0], v[-1], len(v))
        return core.Axis(v if rng.random() < .6 else v[::-1].copy(), 1e-6, True)
    if how == 2 and rng.random() < .3:
        return core.Axis(rng.normal(size=1), 1e-6, False)
    v, _ = gen.axis_values(rng)
    return core.Axis(v, float(rng.choice([0, 1e-9, 1e-6])), False)


def flip(a, rng):
    a.flip(inplace=True)


Kind('Axis', make_axis, see_axis, mutate=flip, copies=CORE, equal=True)
Kind('TemporalAxis', lambda rng: core.TemporalAxis(c28.instants(rng, int(rng.integers(1, 12)), str(rng.choice(['M', 'm'])))), see_axis, mutate=flip, copies=CORE, equal=True)


@kind('AxisInt64', mutate=flip, copies=CORE, equal=True)
class _AxisInt64:
    # the axis of integers is what the base class of the temporal axis builds from integers
    @staticmethod
    def make(rng):
        v = np.sort(rng.choice(np.arange(-500, 500), int(rng.integers(2, 12)), replace=False)).astype('i8')
        if rng.random() < .4:
            v = np.arange(len(v)) * int(rng.integers(1, 9)) + v[0]
        return core.AxisInt64(v if rng.random() < .6 else v[::-1].copy())

    observe = staticmethod(see_axis)


# -- grids -------------------------------------------------------------
def grid_axes(g):
    return [getattr(g, n) for n in 'xyzu' if hasattr(g, n)]


def see_grid(g, rng):
    out = {'array': np.array(g.array), 'repr': repr(g)} if isinstance(g, pyinterp.Grid2D) else {'array': np.array(g.array)}
    axes = grid_axes(g)
    cols = []
    for n, a in zip('xyzu', axes):
        out[n + ' type'] = type(a).__name__
        for k, v in see_axis(a, rng).items():
            out[f'{n} {k}'] = v
        v = np.asarray(a[:])
        if v.dtype.kind in 'mM':
            i = v.astype('i8')
            cols.append(rng.integers(i.min(), i.max() + 1, 12).astype(v.dtype))
        else:
            cols.append(rng.uniform(v.min(), v.max(), 12))
    if isinstance(g, pyinterp.Grid2D) and (len(axes) == 2 or g.array.dtype.itemsize > 1):
        for m in ('bilinear', 'nearest', 'inverse_distance_weighting'):
            out[m] = c28.interpolate(g, len(axes), cols, interpolator=m, num_threads=1)
        if hasattr(g, '_dims'):
            out['dims'] = str(g._dims)
            f = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[len(axes)]
            out['by name'] = getattr(g, f)(dict(zip(g._dims, cols)), num_threads=1)
            out['time'] = str(getattr(g, '_datetime64', None))[:40].split('object')[0]
    return out


def make_grid(rng):
    values, array, dtype, temporal = c28.make(rng, int(rng.integers(2, 5)))
    axes = [c28.build_axis(v) for v in values]
    if rng.random() < .4:
        n = len(axes[0])
        axes[0] = core.Axis(np.arange(n) * (360.0 / n if rng.random() < .5 else 10.0) - 50, 1e-6, True)
    import grids
    return c28.cls(len(axes))(*axes, grids.layout(rng, array))


def write(g, rng):
    a = np.asarray(g.array)
    if a.flags.writeable:
        a[tuple(int(rng.integers(0, s)) for s in a.shape)] += 1


def make_labelled(rng):
    nd = int(rng.integers(2, 5))
    names, values, array, coords, extra, temporal, dtype = c28.labelled(rng, nd, True)
    return c28.backend(nd)(c28.arrange(rng, names, array, coords, extra), increasing_axes=bool(rng.random() < .5))


Kind('Grid', make_grid, see_grid, mutate=write)
Kind('core Grid', lambda rng: make_grid(rng)._instance, see_grid, mutate=write)
Kind('xarray Grid', make_labelled, see_grid, mutate=write)


@kind('RegularGridInterpolator')
class _Interpolator:

    @staticmethod
    def make(rng):
        nd = int(rng.integers(2, 5))
        names, values, array, coords, extra, temporal, dtype = c28.labelled(rng, nd, True)
        if dtype in ('i1', 'u1'):
            array = array.astype('f4')
        return xb.RegularGridInterpolator(c28.arrange(rng, names, array, coords, extra), increasing_axes=bool(rng.random() < .5))

    @staticmethod
    def observe(r, rng):
        return {'ndim': r.ndim, **see_grid(r.grid, rng)}


for _prefix, _nd in (('', 2), ('', 3), ('Temporal', 3)):
    for _name in ('Bilinear', 'Nearest', 'InverseDistanceWeighting'):

        def _make(rng, cls=getattr(core, f'{_prefix}{_name}{_nd}D'), weighted=_name.startswith('I')):
            return cls(int(rng.integers(1, 7))) if weighted and rng.random() < .7 else cls()

        def _see(f, rng, nd=_nd, prefix=_prefix):
            x, y = core.Axis(np.arange(5.0)), core.Axis(np.arange(4.0))
            q = rng.uniform(0, 3, 9), rng.uniform(0, 3, 9)
            if nd == 2:
                g = core.Grid2DFloat64(x, y, rng.normal(size=(5, 4)))
                return {'value': core.bivariate_float64(g, *q, f, False, 1)}
            if prefix:
                g = core.TemporalGrid3DFloat64(x, y, core.TemporalAxis(np.arange(3).astype('M8[s]')), rng.normal(size=(5, 4, 3)))
                return {'value': core.trivariate_float64(g, *q, rng.integers(0, 3, 9), f, num_threads=1)}
            g = core.Grid3DFloat64(x, y, core.Axis(np.arange(3.0)), rng.normal(size=(5, 4, 3)))
            return {'value': core.trivariate_float64(g, *q, rng.uniform(0, 2, 9), f, num_threads=1)}

        Kind(f'{_prefix}{_name}{_nd}D', _make, _see)


# -- trees -------------------------------------------------------------
def tree_step(t, rng):
    """One more step of the history of a tree."""
    f32 = t.dtype == np.float32 if isinstance(t, pyinterp.RTree) else 'Float32' in type(t).__name__
    dtype = np.float32 if f32 else np.float64
    how = rng.random()
    n = int(rng.choice([1, 3, 30, 100]))
    c = np.column_stack([*threads.points(rng, n), rng.uniform(0, 100, n)]).astype(dtype)
    v = rng.normal(size=n).astype(dtype)
    if how < .15:
        t.clear()
    elif how < .5:
        t.packing(c, v)
    else:
        t.insert(c, v)


def see_tree(t, rng):
    f32 = t.dtype == np.float32 if isinstance(t, pyinterp.RTree) else 'Float32' in type(t).__name__
    dtype = np.float32 if f32 else np.float64
    q = np.column_stack([*threads.points(rng, 8), rng.uniform(0, 100, 8)]).astype(dtype)
    out = {'len': len(t), 'bool': bool(t)}
    b = t.bounds()
    out['bounds'] = np.array(b, float).ravel() if b is not None and len(b) else np.zeros(0)
    d, v = t.query(q, k=5, within=False, num_threads=1)
    out['distances'] = d
    out['neighbours'] = v
    f = t if isinstance(t, pyinterp.RTree) else None
    if f is not None:
        out['dtype'] = str(t.dtype)
        for p in (False, True):
            r, n = f.inverse_distance_weighting(q, None, 6, 2, p, num_threads=1)
            out[f'idw {p}'] = r
            out[f'idw number {p}'] = n
    return out


def make_tree(rng):
    how = int(rng.integers(0, 3))
    t = pyinterp.RTree(None if how else geodetic.Spheroid((float(rng.uniform(6e6, 7e6)), 1 / 298.0)), np.dtype(str(rng.choice(['float32', 'float64']))), how == 1)
    for _ in range(int(rng.integers(0, 4))):
        tree_step(t, rng)
    return t


Kind('RTree', make_tree, see_tree, mutate=tree_step, tol=1e-9)
Kind('core RTree', lambda rng: make_tree(rng)._instance, see_tree, mutate=tree_step, tol=1e-9)


def gtree_step(t, rng):
    how = rng.random()
    n = int(rng.choice([1, 3, 30]))
    lon, lat = rng.uniform(-20, 20, n), rng.uniform(-20, 20, n)  # (farther, the nearest neighbours of Boost are not exact: C20)
    if how < .15:
        t.clear()
    elif how < .5:
        t.packing(lon, lat, rng.normal(size=n))
    else:
        t.insert(lon, lat, rng.normal(size=n))


def see_gtree(t, rng):
    lon, lat = rng.uniform(-20, 20, 8), rng.uniform(-20, 20, 8)
    d, v = t.query(lon, lat, k=1, within=False, num_threads=1)
    return {'distances': d, 'neighbours': v}


def make_gtree(rng):
    t = geodetic.RTree(None if rng.random() < .5 else geodetic.Spheroid((float(rng.uniform(6e6, 7e6)), 1 / 298.0)))
    for _ in range(int(rng.integers(0, 4))):
        gtree_step(t, rng)
    return t


Kind('geodetic RTree', make_gtree, see_gtree, mutate=gtree_step, tol=1e-9)


# -- geodetic ----------------------------------------------------------
def spheroid(rng):
    return geodetic.Spheroid((float(rng.uniform(1e6, 7e6)), float(rng.uniform(0, .01)))) if rng.random() < .8 else geodetic.Spheroid()


def see_spheroid(s, rng):
    names = ('semi_major_axis', 'flattening', 'semi_minor_axis', 'first_eccentricity_squared', 'authalic_radius', 'mean_radius', 'volumetric_radius')
    out = {n: getattr(s, n) for n in names}
    out = {k: float(v() if callable(v) else v) for k, v in out.items()}
    out['radius'] = s.geocentric_radius(float(rng.uniform(-90, 90)))
    return out


Kind('Spheroid', spheroid, see_spheroid, equal=True)


@kind('Coordinates')
class _Coordinates:

    @staticmethod
    def make(rng):
        return geodetic.Coordinates(spheroid(rng) if rng.random() < .8 else None)

    @staticmethod
    def observe(c, rng):
        q = [*threads.points(rng, 6), rng.uniform(0, 100, 6)]
        e = c.lla_to_ecef(*q, num_threads=1)
        return {**see_spheroid(c.spheroid, rng), 'ecef': np.array(e), 'lla': np.array(c.ecef_to_lla(*e, num_threads=1))}


def position(rng):
    return float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))


@kind('Point', copies=CORE, equal=True)
class _Point:

    @staticmethod
    def make(rng):
        return geodetic.Point(*position(rng)) if rng.random() < .9 else geodetic.Point()

    @staticmethod
    def observe(p, rng):
        return {'lon': p.lon, 'lat': p.lat, 'wkt': p.wkt(), 'distance': p.distance(geodetic.Point(*position(rng)))}

    @staticmethod
    def mutate(p, rng):
        p.lon, p.lat = position(rng)


def make_box(rng):
    a, b = position(rng), position(rng)
    return geodetic.Box(geodetic.Point(min(a[0], b[0]), min(a[1], b[1])), geodetic.Point(max(a[0], b[0]), max(a[1], b[1])))


@kind('Box', copies=CORE, equal=True)
class _Box:
    make = staticmethod(make_box)

    @staticmethod
    def observe(b, rng):
        p = np.array(position(rng))[:, None]
        return {
            'corners': [b.min_corner.lon, b.min_corner.lat, b.max_corner.lon, b.max_corner.lat], 'wkt': b.wkt(), 'area': b.area(),
            'covered': b.covered_by(np.repeat(p[0], 3), np.repeat(p[1], 3), num_threads=1)
        }

    @staticmethod
    def mutate(b, rng):
        c = make_box(rng)
        b.min_corner, b.max_corner = c.min_corner, c.max_corner


def ring(rng, radius=8.0, centre=None):
    n = int(rng.integers(3, 9))
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if n > 5 else np.arange(n) * 2 * np.pi / n
    c = centre if centre is not None else (rng.uniform(-160, 160), rng.uniform(-70, 70))
    r = radius * rng.uniform(.5, 1)
    pts = [geodetic.Point(c[0] + r * np.cos(a), c[1] + r * np.sin(a)) for a in t[::-1]]
    return pts + [pts[0]], c


def make_polygon(rng):
    if rng.random() < .05:
        return geodetic.Polygon([])
    outer, c = ring(rng)
    inners = None
    if len(outer) < 8 and rng.random() < .4:
        inners = [ring(rng, .5, (c[0] + k * .6, c[1]))[0][::-1] for k in range(int(rng.integers(1, 3)))]
    return geodetic.Polygon(outer, inners)


def see_polygon(p, rng):
    lon, lat = threads.points(rng, 20)
    return {
        'points': [[q.lon, q.lat] for q in p.outer], 'holes': [[[q.lon, q.lat] for q in r] for r in p.inners], 'number': p.num_interior_rings(), 'wkt': p.wkt(),
        'geojson': str(p.to_geojson()), 'area': p.area(), 'perimeter': p.perimeter(), 'covered': p.covered_by(lon, lat, num_threads=1)
    }


Kind('Polygon', make_polygon, see_polygon, copies=CORE, equal=True)


@kind('MultiPolygon', copies=CORE, equal=True, add=True)
class _MultiPolygon:

    @staticmethod
    def make(rng):
        return geodetic.MultiPolygon([make_polygon(rng) for _ in range(int(rng.integers(0, 4)))])

    @staticmethod
    def observe(m, rng):
        lon, lat = threads.points(rng, 20)
        return {
            'len': len(m), 'items': [str(see_polygon(m[k], np.random.default_rng(5))) for k in range(len(m))], 'wkt': m.wkt(), 'geojson': str(m.to_geojson()), 'area': m.area(),
            'covered': m.covered_by(lon, lat, num_threads=1), 'rings': m.num_interior_rings()
        }

    @staticmethod
    def mutate(m, rng):
        if rng.random() < .6:
            m.append(make_polygon(rng))
        else:
            m += geodetic.MultiPolygon([make_polygon(rng)])


def make_line(rng, n=None):
    n = int(rng.integers(2, 12)) if n is None else n
    return geodetic.LineString(*threads.points(rng, n)) if rng.random() < .5 else geodetic.LineString(np.linspace(*rng.uniform(-100, 100, 2), n), np.linspace(-50, 50, n))


@kind('LineString', copies=CORE, equal=True)
class _LineString:
    make = staticmethod(make_line)

    @staticmethod
    def observe(s, rng):
        return {
            'len': len(s), 'points': [[p.lon, p.lat] for p in s], 'wkt': s.wkt(), 'geojson': str(s.to_geojson()), 'distance': s.curvilinear_distance(),
        }

    @staticmethod
    def mutate(s, rng):
        s.append(geodetic.Point(*position(rng)))


@kind('Crossover')
class _Crossover:

    @staticmethod
    def make(rng):
        a = np.linspace(-40, 40, 30)
        return geodetic.Crossover(geodetic.LineString(a + 5, a + rng.uniform(-1, 1)), geodetic.LineString(-a + rng.uniform(-5, 5), a))

    @staticmethod
    def observe(c, rng):
        p = c.search()
        return {
            'lines': [_LineString.observe(s, rng)['points'] for s in (c.half_orbit_1, c.half_orbit_2)], 'exists': c.exists(), 'point': None if p is None else [p.lon, p.lat],
            'nearest': None if p is None else c.nearest(p, 1e6)
        }


# -- statistics ----------------------------------------------------------
FLOATS = ['float64', 'float32']


def raw(f):
    """The core object behind an object of Python."""
    return lambda rng: f(rng)._instance


def see_stats(s, rng):
    names = ['count', 'min', 'max', 'mean', 'skewness', 'kurtosis', 'sum_of_weights'] + [n for n in ('sum', 'size', 'variance', 'var', 'std') if hasattr(s, n)]
    out = {n: np.array(getattr(s, n)()) for n in names}
    if hasattr(s, 'quantile'):
        for q in (0.0, .25, .5, float(rng.random())):
            try:
                out[f'quantile {q}'] = np.array(s.quantile(q))
            except (ValueError, RuntimeError) as e:
                out[f'quantile {q}'] = type(e).__name__
        out['bins'] = np.array(s.bins())
    return out


def sample(rng, shape):
    v = rng.normal(size=shape) * 10.0**rng.uniform(-2, 3) + rng.normal() * 10
    if rng.random() < .3:
        v[rng.random(shape) < rng.choice([.1, 1.0], p=[.8, .2])] = np.nan
    return v


def fixed_shape(rng):
    """The shapes of the twins and of their operands agree: they derive from a state kept apart."""
    nd = int(rng.integers(1, 4))
    shape = tuple(int(k) for k in rng.integers(1, 6, nd))
    axis = None if rng.random() < .4 else tuple(sorted(int(k) for k in rng.choice(nd, int(rng.integers(1, nd + 1)), replace=False)))
    return shape, axis, str(rng.choice(FLOATS)), int(rng.choice([2, 3, 10, 100]))


def make_stats(rng, setup=None):
    shape, axis, dtype, _ = setup or fixed_shape(rng)
    w = rng.uniform(.1, 3, shape).astype(dtype) if rng.random() < .5 else None
    return pyinterp.DescriptiveStatistics(sample(rng, shape).astype(dtype), weights=w, axis=axis, dtype=np.dtype(dtype))


def make_stream(rng, setup=None):
    shape, axis, dtype, bins = setup or fixed_shape(rng)
    w = rng.uniform(.1, 3, shape).astype(dtype) if rng.random() < .5 else None
    return pyinterp.StreamingHistogram(sample(rng, shape).astype(dtype), weights=w, axis=axis, bin_count=bins, dtype=np.dtype(dtype))


for _name, _make in (('DescriptiveStatistics', make_stats), ('StreamingHistogram', make_stream)):

    def _step(s, rng, make=_make):
        inner = getattr(s, '_instance', s)
        dtype = 'float32' if 'Float32' in type(inner).__name__ else 'float64'
        # samples in the same arrangement of cells as s
        def arrangement(i):
            return tuple(next(e for e in i.__getstate__() if isinstance(e, list)))

        cells = arrangement(inner)
        for setup in ((cells + (3, ), (len(cells), )), ((4, ), None), ((4, ), (0, ))):
            o = make(rng, (*setup, dtype, 10))
            o = o._instance if s is inner else o
            if arrangement(getattr(o, '_instance', o)) == cells:
                s += o
                return
        raise AssertionError(f'no arrangement like {cells}')

    Kind(_name, _make, see_stats, mutate=_step, copies=('pickle', 'deepcopy', 'method') if _name[0] == 'D' else ('pickle', 'deepcopy'), add=True)
    Kind('core ' + _name, raw(_make), see_stats, mutate=_step, copies=CORE, add=True)


# -- binnings --------------------------------------------------------------
def bin_axes(rng):
    if rng.random() < .5:
        return core.Axis(np.arange(0, 360, 45.0), is_circle=True), core.Axis(np.arange(-60, 61, 30.0))
    return core.Axis(np.cumsum(rng.uniform(1, 9, 5))), core.Axis(np.cumsum(rng.uniform(1, 9, int(rng.choice([4, 5])))) * int(rng.choice([1, -1])))


def bin_step(b, rng):
    if rng.random() < .1:
        b.clear()
        return
    n = int(rng.choice([0, 1, 40]))
    x, y = b.x, getattr(b, 'y', b.x)
    qx = rng.uniform(x.min_value(), x.max_value() + 10, n)
    qy = rng.uniform(y.min_value(), y.max_value(), n)
    z = rng.normal(size=n)
    f = 'float32' if 'Float32' in type(getattr(b, '_instance', b)).__name__ else 'float64'
    if 'Binning1D' in type(b).__name__:
        b.push(qx.astype(f), z.astype(f), rng.uniform(.1, 2, n).astype(f) if rng.random() < .5 else None)
    elif 'Binning2D' in type(b).__name__:
        b.push(qx.astype(f), qy.astype(f), z.astype(f), bool(rng.random() < .5))
    else:
        b.push(qx.astype(f), qy.astype(f), z.astype(f))


def see_bins(b, rng):
    out = {}
    if hasattr(b, 'variable'):
        names = ['count', 'min', 'max', 'mean', 'variance', 'skewness', 'kurtosis', 'sum_of_weights']
        if 'Histogram' not in type(b).__name__:
            names.append('sum')
        for n in names:
            out[n] = np.array(b.variable(n))
        out['dtype'] = str(b.dtype)
        inner = b._instance
    else:
        inner = b
        for n in ['count', 'min', 'max', 'mean', 'skewness', 'kurtosis', 'sum_of_weights'] + (['sum'] if hasattr(b, 'sum') else []):
            out[n] = np.array(getattr(b, n)())
        out['variance'] = np.array(b.variance())
    for n in ('x', 'y'):
        if hasattr(b, n):
            for k, v in see_axis(getattr(b, n), rng).items():
                out[f'{n} {k}'] = v
    if hasattr(b, 'range'):
        out['range'] = np.array(b.range())
    if hasattr(inner, 'wgs'):
        out['wgs'] = str(None if inner.wgs is None else see_spheroid(inner.wgs, rng))
    if hasattr(inner, 'quantile'):
        for q in (.1, float(rng.random())):
            out[f'quantile {q}'] = np.array(inner.quantile(q))
        out['histograms'] = np.array(inner.histograms())
    return out


def with_history(build):
    def make(rng):
        b = build(rng)
        for _ in range(int(rng.integers(0, 4))):
            bin_step(b, rng)
        return b
    return make


def build_2d(rng):
    x, y = bin_axes(rng)
    return pyinterp.Binning2D(x, y, spheroid(rng) if x.is_circle and rng.random() < .6 else None, np.dtype(str(rng.choice(FLOATS))))


def build_1d(rng):
    x, _ = bin_axes(rng)
    return pyinterp.Binning1D(x, (float(x.min_value() + 1), float(x.max_value() + 2)) if rng.random() < .4 else None, np.dtype(str(rng.choice(FLOATS))))


def build_h(rng):
    x, y = bin_axes(rng)
    return pyinterp.Histogram2D(x, y, int(rng.choice([2, 5, 40])), np.dtype(str(rng.choice(FLOATS))))


for _name, _build in (('Binning2D', build_2d), ('Binning1D', build_1d), ('Histogram2D', build_h)):
    Kind(_name, with_history(_build), see_bins, mutate=bin_step, add=True)
    Kind('core ' + _name, raw(with_history(_build)), see_bins, mutate=bin_step, copies=CORE, add=True)


# -- periods ---------------------------------------------------------------
def make_period(rng):
    b = np.datetime64(int(rng.integers(-10**6, 10**6)), str(rng.choice(['D', 's', 'ms', 'us', 'ns'])))
    return pyinterp.period.Period(b, b + int(rng.integers(-3, 1000)), bool(rng.random() < .6))


@kind('Period', equal=True)
class _Period:
    make = staticmethod(make_period)

    @staticmethod
    def observe(p, rng):
        q = p.begin + int(rng.integers(-500, 1500))
        return {
            'begin': p.begin, 'last': p.last, 'end': p.end(), 'resolution': p.resolution, 'duration': p.duration(), 'null': p.is_null(), 'contains': p.contains(q),
            'before': p.is_before(q), 'after': p.is_after(q), 'repr': repr(p)
        }


@kind('PeriodList')
class _PeriodList:

    @staticmethod
    def make(rng):
        n = int(rng.integers(0, 8))
        if n == 0 and rng.random() < .5:
            return pyinterp.period.PeriodList.empty()
        unit = str(rng.choice(['D', 's', 'ms', 'us', 'ns']))
        e = np.cumsum(rng.integers(1, 100, 2 * n)).reshape(n, 2)
        if rng.random() < .3:
            rng.shuffle(e)
        return pyinterp.period.PeriodList(np.ascontiguousarray(e.T).astype(f'M8[{unit}]'))

    @staticmethod
    def observe(p, rng):
        u = p.periods.dtype['begin']
        q = rng.integers(0, 500, 12).astype('i8').astype(u)
        out = {'len': len(p), 'begin': p.periods['begin'], 'last': p.periods['last'], 'repr': repr(p), 'sorted': p.are_periods_sorted_and_disjointed()}
        if out['sorted']:
            out['belong'] = p.belong_to_a_period(q)
        out['type'] = str(p.periods.dtype)
        return out


# -- geohash -----------------------------------------------------------------
@kind('GeoHash')
class _GeoHash:

    @staticmethod
    def make(rng):
        lon, lat = geo.positions(rng, 1)
        return pyinterp.GeoHash(float(lon[0]), float(lat[0]), int(rng.integers(1, 13)))

    @staticmethod
    def observe(g, rng):
        b = g.bounding_box()
        c = g.center()
        return {
            'str': str(g), 'repr': repr(g) if str(g) else '', 'precision': g.precision(), 'bits': g.number_of_bits(),
            'box': [b.min_corner.lon, b.min_corner.lat, b.max_corner.lon, b.max_corner.lat], 'center': [c.lon, c.lat], 'neighbours': [str(n) for n in g.neighbors()]
        }


# -- orbits ---------------------------------------------------------------
def fields(o):
    out = {}
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        if isinstance(v, core.geodetic.Spheroid):
            v = str(see_spheroid(v, np.random.default_rng(3)))
        elif dataclasses.is_dataclass(v):
            v = str(fields(v))
        out[f.name] = v if v is not None else 'none'
    return out


def make_orbit(rng):
    sat = c29.Sat(rng, 'south')
    t = np.arange(0, 3.3 * sat.T, 60.0)
    lon, lat = sat(t)
    return pyinterp.orbit.calculate_orbit(float(rng.uniform(5e5, 1.3e6)), lon, lat, (t * 1e9).astype('m8[ns]'), spheroid=geodetic.Spheroid() if rng.random() < .5 else None)


@kind('Orbit')
class _Orbit:
    make = staticmethod(make_orbit)

    @staticmethod
    def observe(o, rng):
        return {
            **fields(o), 'passes': o.passes_per_cycle(), 'duration': o.orbit_duration(), 'distance': o.curvilinear_distance(), 'delta': o.delta_t(),
            'absolute': o.encode_absolute_pass_number(int(rng.integers(1, 50)), 2)
        }


def make_pass(rng):
    p = pyinterp.orbit.calculate_pass(int(rng.integers(2, 5)), make_orbit(rng))
    assert p is not None
    return p


Kind('Pass', make_pass, lambda p, rng: {**fields(p), 'len': len(p)})


def make_swath(rng):
    return pyinterp.orbit.calculate_swath(make_pass(rng), across_track_resolution=10000.0, along_track_resolution=10000.0, half_swath=60000.0, half_gap=10000.0)


Kind('Swath', make_swath, lambda s, rng: {**fields(s), 'mask': s.mask((15000.0, 45000.0))})
HEAVY = {'Orbit', 'Pass', 'Swath'}


# ---------------------------------------------------------------------------
def same(ctx, a, b, key, k, **w):
    """Two observations."""
    if not ctx.check(list(a) == list(b), f'{k.name}: {key}: answers', f'{list(a)} {list(b)}', **w):
        return False
    for name, x in a.items():
        y = b[name]
        label = f'{k.name}: {key}'
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fiubmM' or isinstance(x, (float, np.floating)):
            x, y = np.asarray(x), np.asarray(y)
            ok = x.dtype == y.dtype and x.shape == y.shape
            if ok and x.dtype.kind == 'f' and k.tol:
                ok = bool(np.allclose(x, y, rtol=k.tol if x.dtype.itemsize > 4 else 1e-4, atol=1e-6 if 'dist' in name else k.tol, equal_nan=True))
            elif ok:
                ok = x.tobytes() == y.tobytes() or bool(((x == y) | ((x != x) & (y != y))).all())
        else:
            ok = type(x) is type(y) and (str(x) == str(y) if isinstance(x, np.ndarray) else x == y)
        if not ctx.check(ok, label, f'{name}: {str(x)[:200]} became {str(y)[:200]}', **w):
            return False
    return True


def duplicate(obj, how, rng):
    if how == 'pickle':
        return pickle.loads(pickle.dumps(obj, protocol=int(rng.integers(2, 6))))
    if how == 'copy':
        return copy.copy(obj)
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    return obj.copy()


def look(k, obj, seed):
    return k.observe(obj, np.random.default_rng(seed))


ORDER = [k for k in KINDS if k not in HEAVY]


def duplicated(ctx, rng, k):
    obj = k.make(rng)
    how = str(rng.choice(k.copies))
    seeds = [int(s) for s in rng.integers(0, 1 << 31, 8)]
    w = dict(kind=k.name, how=how)
    ctx.count(f'{k.name}')
    ctx.count(how)
    before = look(k, obj, seeds[0])
    ctx.case(k.name, how, str(before), kind=k.name, how=how)
    twin = duplicate(obj, how, rng)
    if how == 'pickle' and rng.random() < .4:
        twin = duplicate(twin, how, rng)
    # (the copy of an object of a class of Python that extends a class of C++ is an object of the latter)
    ok = type(twin) is type(obj) or (how == 'copy' and isinstance(obj, type(twin)))
    if not ctx.check(ok, f'{k.name}: type after {how}', f'{type(obj)} became {type(twin)}', **w):
        return
    if k.equal:
        # (shapes that are not valid are not equal to themselves)
        ctx.check((twin == obj) == (obj == obj) == (obj == twin), f'{k.name}: equality after {how}', **w)
    same(ctx, before, look(k, twin, seeds[0]), f'after {how}', k, **w)
    same(ctx, before, look(k, obj, seeds[0]), f'source after {how}', k, **w)
    if k.mutate is None:
        return
    # one goes on alone
    first, second = (obj, twin) if rng.random() < .5 else (twin, obj)
    for s in seeds[1:1 + int(rng.integers(1, 3))]:
        k.mutate(first, np.random.default_rng(s))
        used = s
    same(ctx, before, look(k, second, seeds[0]), f'altered through its {how}', k, **w)
    # then the other, through the same history
    for s in seeds[1:1 + seeds.index(used)]:
        k.mutate(second, np.random.default_rng(s))
    same(ctx, look(k, first, seeds[5]), look(k, second, seeds[5]), f'same history after {how}', k, **w)


@section(5000, 60000)
def duplicates(ctx, rng):
    duplicated(ctx, rng, KINDS[ORDER[ctx.index % len(ORDER)]])


@section(48, 600)
def orbits(ctx, rng):
    duplicated(ctx, rng, KINDS[sorted(HEAVY)[ctx.index % 3]])


SUMS = [k for k in KINDS if KINDS[k].add]


@section(1500, 30000)
def sums(ctx, rng):
    """a + b leaves a and b, and is independent of them; a += b leaves b."""
    k = KINDS[SUMS[ctx.index % len(SUMS)]]
    a = k.make(rng)
    # b: the same shape, another history
    b = duplicate(a, 'pickle', rng)
    seeds = [int(s) for s in rng.integers(0, 1 << 31, 8)]
    for s in seeds[:int(rng.integers(0, 3))]:
        k.mutate(b, np.random.default_rng(s))
    for s in seeds[:int(rng.integers(0, 2))]:
        k.mutate(a, np.random.default_rng(s + 1))
    wa, wb = look(k, a, 1), look(k, b, 1)
    w = dict(kind=k.name)
    ctx.case(k.name, str(wa), str(wb), kind=k.name)
    ctx.count(f'sum of {k.name}')
    inplace = duplicate(a, 'pickle', rng)
    other = duplicate(b, 'pickle', rng)
    own = inplace
    try:
        inplace += other
    except TypeError:
        inplace = None
    if inplace is not None:
        ctx.check(type(inplace) is type(a), f'{k.name}: type of +=', **w)
        same(ctx, wb, look(k, other, 1), 'right operand of +=', k, **w)
        ctx.check(inplace is own or not hasattr(type(a), '__iadd__'), f'{k.name}: += made another object', **w)
    if hasattr(type(a), '__add__'):
        c = a + b
        same(ctx, wa, look(k, a, 1), 'left operand of +', k, **w)
        same(ctx, wb, look(k, b, 1), 'right operand of +', k, **w)
        if inplace is not None:
            same(ctx, look(k, inplace, 2), look(k, c, 2), '+ / +=', k, **w)
        ctx.check(isinstance(a, type(c)), f'{k.name}: type of +', f'{type(c)}', **w)
        k.mutate(c, np.random.default_rng(seeds[4]))
        same(ctx, wa, look(k, a, 1), 'left operand altered through the sum', k, **w)
        same(ctx, wb, look(k, b, 1), 'right operand altered through the sum', k, **w)
        wc = look(k, c, 1)
        k.mutate(a, np.random.default_rng(seeds[5]))
        k.mutate(b, np.random.default_rng(seeds[6]))
        same(ctx, wc, look(k, c, 1), 'sum altered through its operands', k, **w)


@section(600, 9000)
def flips(ctx, rng):
    """flip returns another axis, or turns this one."""
    a = make_axis(rng) if ctx.index % 2 else KINDS['TemporalAxis'].make(rng)
    k = KINDS['Axis' if ctx.index % 2 else 'TemporalAxis']
    before = look(k, a, 1)
    ctx.case(str(before))
    b = a.flip()
    same(ctx, before, look(k, a, 1), 'source of flip', k)
    ctx.check(type(b) is type(a), 'flip: type', str(type(b)))
    ctx.equal(np.asarray(b[:]), np.asarray(a[:])[::-1], 'flip: values') if not a.is_regular() or before['values'].dtype.kind in 'mM' else ctx.close(
        b[:], a[:][::-1], 'flip: values', atol=1e-9 * (1 + abs(before['values']).max()))
    c = b.flip()
    if not a.is_regular() or before['values'].dtype.kind in 'mM':
        same(ctx, before, look(k, c, 1), 'flipped twice', k)
    e = duplicate(a, 'pickle', rng)
    f = e.flip(inplace=True)
    same(ctx, look(k, b, 2), look(k, e, 2), 'flip in place', k)
    same(ctx, look(k, b, 2), look(k, f, 2), 'value of flip in place', k)


# what the objects of Python keep must follow
@section(300, 3000)
def mismatched(ctx, rng):
    """Sums of different types are refused and leave their operands."""
    name = ['DescriptiveStatistics', 'StreamingHistogram', 'Binning2D', 'Binning1D', 'Histogram2D'][ctx.index % 5]
    k = KINDS[name]
    for _ in range(20):
        a, b = k.make(rng), k.make(rng)
        if type(a._instance) is not type(b._instance):
            break
    else:
        return
    wa, wb = look(k, a, 1), look(k, b, 1)
    ctx.case(name, str(wa), str(wb), kind=name)

    def add():
        nonlocal a
        if hasattr(type(a), '__iadd__') and (rng.random() < .5 or not hasattr(type(a), '__add__')):
            a += b
        else:
            a + b

    ctx.raises((TypeError, ValueError), add, f'{name}: sum of different types')
    same(ctx, wa, look(k, a, 1), 'refused sum: left operand', k)
    same(ctx, wb, look(k, b, 1), 'refused sum: right operand', k)


@section(18, 100)
def large_arrays(ctx, rng):
    """Objects of many items."""
    large.c30(ctx, rng)
