"""C28: grids keep their values and their axes aligned."""
import itertools
import pickle
import warnings

import gen
import grids
import numpy as np
import vt

vt.SECTIONS.clear()
import pyinterp
import pyinterp.backends.xarray as xb
import xarray
from pyinterp import core
from vt import section

warnings.simplefilter('ignore')
PARTS = ['grid', 'axis', 'bivariate', 'trivariate', 'quadrivariate', 'bicubic', 'spline']
RULE = ('A case is one grid (2 to 4 dimensions, every dtype, axes increasing or not, numeric or temporal Z, several memory layouts) built by the '
        'constructors, by increasing_axes or from a labelled array, every (coordinates, value) pair of which is compared with the pairs of the input, '
        'in the exposed array and through the interpolation at the nodes. Non-trivial: at least one pair was compared, or a refusal was observed.')
ASSUMES = ['xarray.DataArray is a stand-in with the same attributes (lib/stubs/xarray)', 'values of integer grids are those of the floating point type that stores them']

SUFFIX = {'f8': 'f8', 'f4': 'f4', 'i8': 'f8', 'u8': 'f8', 'i4': 'f4', 'u4': 'f4', 'i2': 'f4', 'u2': 'f4', 'i1': 'i1', 'u1': 'u1'}
UNITS = ['D', 'h', 'm', 's', 'ms', 'us', 'ns']


def numbers(rng, shape, dtype):
    if dtype in ('f8', 'f4'):
        a = rng.normal(size=shape) * 10.0**rng.uniform(-2, 3)
        if rng.random() < .3:
            a[rng.random(shape) < .2] = np.nan
        return a.astype(dtype)
    info = np.iinfo(dtype)
    top = min(info.max, 1 << 20)
    return rng.integers(max(info.min, -top), top + 1, shape).astype(dtype)


def sizes(rng, nd):
    return [int(rng.integers(2, {2: 9, 3: 6, 4: 5}[nd])) for _ in range(nd)]


def coordinate(rng, n, order=None):
    return gen.axis_values(rng, n=n, order=order)[0]


def instants(rng, n, kind, order=None):
    unit = str(rng.choice(UNITS))
    gaps = np.cumsum(rng.integers(1, 50, n)) if rng.random() < .5 else np.arange(n) * int(rng.integers(1, 50))
    v = gaps + int(rng.integers(-1000, 20000))
    if (order or str(rng.choice(['asc', 'desc']))) == 'desc':
        v = v[::-1].copy()
    return v.astype(f'{kind}8[{unit}]')


def build_axis(v, **kw):
    return core.TemporalAxis(v) if v.dtype.kind in 'mM' else core.Axis(np.ascontiguousarray(v), 1e-9, kw.get('circle', False))


def axis_values(a):
    return a[:]


def pairs(values, array):
    """{coordinates: value} of a grid."""
    out = {}
    lists = [np.asarray(v).tolist() if v.dtype.kind not in 'mM' else v.astype('i8').tolist() for v in values]
    flat = np.asarray(array)
    for idx in itertools.product(*(range(len(x)) for x in lists)):
        out[tuple(x[i] for x, i in zip(lists, idx))] = flat[idx]
    return out


def same_pairs(ctx, got, want, key, **w):
    """Same keys (but for rounding of the regular axes), same values."""
    if not ctx.check(len(got) == len(want), key + ': number of pairs', f'{len(got)} / {len(want)}', **w):
        return
    a = sorted(got.items(), key=lambda p: p[0])
    b = sorted(want.items(), key=lambda p: p[0])
    ka, kb = np.array([p[0] for p in a], 'f8'), np.array([p[0] for p in b], 'f8')
    span = np.abs(kb).max(axis=0) + np.ptp(kb, axis=0)
    ctx.close(ka, kb, key + ': coordinates', atol=span * 1e-9, **w)
    ctx.equal(np.array([p[1] for p in a]), np.array([p[1] for p in b]), key + ': values', **w)


def accessors(g, nd):
    return [g.x, g.y] + ([g.z] if nd > 2 else []) + ([g.u] if nd > 3 else [])


def interpolate(g, nd, cols, **kw):
    if nd == 2:
        return pyinterp.bivariate(g, *cols, **kw)
    if nd == 3:
        return pyinterp.trivariate(g, *cols, **kw)
    return pyinterp.quadrivariate(g, *cols, **kw)


def nodes(rng, values, array, k=24):
    """k nodes: columns of coordinates, and their values."""
    idx = [rng.integers(0, len(v), k) for v in values]
    cols = []
    for v, i in zip(values, idx):
        c = v[i]
        cols.append(c if c.dtype.kind in 'mM' else c.astype('f8'))
    return cols, np.asarray(array)[tuple(idx)].astype('f8')


def at_nodes(ctx, rng, g, nd, values, array, key, **w):
    """Interpolating at a node gives its value."""
    axes = accessors(g, nd)
    if nd > 2 and g.array.dtype.itemsize == 1:  # can be built, has no interpolation
        ctx.raises(TypeError, lambda: interpolate(g, nd, [v[:1] for v in values]), key + ': 8 bits', **w)
        return
    own = [axis_values(a) for a in axes]
    # a node of the axis (the values of regular axes are computed)
    order = [np.argsort(np.argsort(v)) for v in values]
    mine = [np.argsort(o) for o in own]
    exact = [m[r] for m, r in zip(mine, order)]  # index on the axis of each value
    use = [o[e] for o, e in zip(own, exact)]
    cols, want = nodes(rng, use, array)
    method = str(rng.choice(['bilinear', 'nearest'])) if nd == 2 else 'bilinear'
    if method == 'nearest' and not (abs(own[0]).max() <= 180 and abs(own[1]).max() <= 85):
        method = 'bilinear'
    got = interpolate(g, nd, cols, interpolator=method, num_threads=1)
    # a defined value beside undefined ones may not be usable: judged only where the answer is a number
    scale = np.nanmax(np.abs(np.asarray(array, 'f8')), initial=1e-30)
    ok = np.isnan(want) | np.isnan(got) | (np.abs(got - want) <= 1e-6 * scale)
    ctx.all(ok, key, got=got, want=want, method=method, **w)
    if not np.isnan(np.asarray(array, 'f8')).any():
        ctx.all(~np.isnan(got), key + ': defined', want=want, method=method, **w)
    ctx.count('nodes interpolated', len(got))


def make(rng, nd, temporal=None, order=None):
    n = sizes(rng, nd)
    temporal = (nd > 2 and rng.random() < .5) if temporal is None else temporal
    values = [coordinate(rng, k, order) for k in n]
    if temporal:
        values[2] = instants(rng, n[2], str(rng.choice(['M', 'm'])), order)
    dtype = str(rng.choice(list(SUFFIX)))
    return values, numbers(rng, n, dtype), dtype, temporal


def cls(nd):
    return {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}[nd]


@section(4500, 90000)
def constructor(ctx, rng):
    nd = 2 + ctx.index % 3
    values, array, dtype, temporal = make(rng, nd)
    array = grids.layout(rng, array)
    axes = [build_axis(v) for v in values]
    g = cls(nd)(*axes, array)
    ctx.case(*values, array, dims=nd, dtype=dtype, temporal=temporal, shape=array.shape)
    ctx.count(f'{nd}D {dtype}{" temporal" if temporal else ""}')
    w = dict(dims=nd, dtype=dtype, temporal=temporal, shape=array.shape, strides=array.strides)
    ctx.check(g.array.dtype == np.dtype(SUFFIX[dtype]), 'type of the array', f'{g.array.dtype} for {dtype}', **w)
    ctx.equal(g.array, array.astype(SUFFIX[dtype]), 'exposed array', **w)
    for a, b, v in zip(accessors(g, nd), axes, values):
        ctx.check(a == b, 'exposed axis', **w)
        ctx.check((a.is_ascending()) == bool(v[0] < v[-1]), 'order of the exposed axis', **w)
    if nd > 2:
        ctx.check(isinstance(g.z, core.TemporalAxis) == temporal, 'type of the Z axis', str(type(g.z)), **w)
    at_nodes(ctx, rng, g, nd, values, array.astype(SUFFIX[dtype]), 'value at a node', **w)
    with np.errstate(all='ignore'):
        same_pairs(ctx, pairs([axis_values(a) for a in accessors(g, nd)], g.array), pairs(values, array.astype(SUFFIX[dtype])), 'pairs', **w)


@section(2700, 54000)
def refused(ctx, rng):
    """Wrong shapes, wrong number of dimensions, circles."""
    nd = 2 + ctx.index % 3
    values, array, dtype, temporal = make(rng, nd)
    axes = [build_axis(v) for v in values]
    how = str(rng.choice(['size', 'swap', 'less', 'more', 'circle', 'broadcast']))
    bad = None
    k = int(rng.integers(0, nd))
    if how == 'size':
        shape = list(array.shape)
        shape[k] += int(rng.choice([-1, 1, 3]))
        bad = numbers(rng, shape, dtype)
    elif how == 'swap':
        i, j = rng.choice(nd, 2, replace=False)
        bad = np.swapaxes(array, i, j)
        if bad.shape == array.shape:
            bad = numbers(rng, [s + 1 for s in array.shape], dtype)
    elif how == 'less':
        bad = array[(slice(None), ) * k + (0, )]
    elif how == 'more':
        bad = np.expand_dims(array, int(rng.integers(0, nd + 1)))
    elif how == 'broadcast':
        bad = array[(slice(None), ) * k + (slice(0, 1), )]
    else:
        k = int(rng.integers(1, nd))
        if temporal and k == 2:
            k = 1
        n = int(rng.integers(3, 8))
        axes[k] = core.Axis(np.arange(n) * 360.0 / n, 1e-6, True)
        shape = [len(a) for a in axes]
        bad = numbers(rng, shape, dtype)
    increasing = rng.choice(np.array([None, 'copy'], object))
    ctx.case(*values, array, how=how, dim=k, dims=nd, dtype=dtype, shape=bad.shape, increasing=increasing)
    ctx.count(f'refused: {how}')
    ctx.raises((ValueError, IndexError), lambda: cls(nd)(*axes, bad, increasing_axes=increasing), f'{how} accepted', dims=nd, shape=bad.shape,
               sizes=[len(a) for a in axes], dim=k)


@section(5400, 108000)
def increasing(ctx, rng):
    """increasing_axes turns axes and data together."""
    nd = 2 + ctx.index % 3
    values, array, dtype, temporal = make(rng, nd)
    down = rng.random(nd) < .6
    values = [(np.sort(v)[::-1] if d else np.sort(v)).copy() for v, d in zip(values, down)]
    mode = str(rng.choice(['copy', 'inplace']))
    axes = [build_axis(v) for v in values]
    shared = nd == 2 and rng.random() < .2
    if shared:  # the same axis twice
        values[1] = values[0]
        axes[1] = axes[0]
        array = numbers(rng, [len(values[0])] * 2, dtype)
        down[1] = down[0]
    array = grids.layout(rng, array)
    if mode == 'copy' and rng.random() < .5:
        array.flags.writeable = False
    before = array.copy()
    keep = [pickle.loads(pickle.dumps(a)) for a in axes]
    ctx.case(*values, array, dims=nd, mode=mode, down=down.tolist(), dtype=dtype, shared=shared)
    w = dict(dims=nd, mode=mode, down=down.tolist(), dtype=dtype, temporal=temporal, shared=shared, shape=array.shape)
    g = cls(nd)(*axes, array, increasing_axes=mode)
    ctx.count(f'{mode}: {int(down.sum())} decreasing')
    own = accessors(g, nd)
    for a in own:
        ctx.check(a.is_ascending(), 'axis not increasing', **w)
    stored = before.astype(SUFFIX[dtype])
    want = pairs(values, stored)
    same_pairs(ctx, pairs([axis_values(a) for a in own], g.array), want, f'pairs after {mode}', **w)
    expect = stored[tuple(slice(None, None, -1) if d else slice(None) for d in down)]
    ctx.equal(g.array, expect, f'array after {mode}', **w)
    at_nodes(ctx, rng, g, nd, values, stored, f'value at a node after {mode}', **w)
    if mode == 'copy':
        ctx.equal(array, before, 'copy altered the array of the caller', **w)
        for a, b in zip(axes, keep):
            ctx.check(a == b and a.is_ascending() == b.is_ascending(), 'copy altered an axis of the caller', **w)
    else:
        ctx.check(all(a.is_ascending() for a in axes), 'inplace left an axis of the caller', **w)
        same_pairs(ctx, pairs([axis_values(a) for a in axes], array), pairs(values, before), 'pairs of the caller after inplace', **w)
    # the function interpolated is the same
    if not down.any() or nd > 2 and g.array.dtype.itemsize == 1:
        return
    plain = cls(nd)(*[build_axis(v) for v in values], before)
    cols = []
    for v in values:
        lo, hi = v.min(), v.max()
        if v.dtype.kind in 'mM':
            cols.append(rng.integers(lo.astype('i8'), hi.astype('i8') + 1, 20).astype(v.dtype))
        else:
            cols.append(rng.uniform(lo, hi, 20))
    a = interpolate(g, nd, cols, num_threads=1)
    b = interpolate(plain, nd, cols, num_threads=1)
    scale = np.nanmax(np.abs(stored.astype('f8')), initial=1e-30)
    rough = max(np.abs(v).max() / np.abs(np.diff(v)).min() for v in values if v.dtype.kind == 'f')
    if temporal:  # on a node, the slices used depend on the order of the axis
        off = ~np.isin(cols[2], values[2])
        a, b = a[off], b[off]
    ctx.close(a, b, f'interpolation after {mode}', atol=scale * (1e-6 + rough * 1e-12), **w)


@section(450, 4500)
def undefined_mode(ctx, rng):
    nd = 2 + ctx.index % 3
    values, array, dtype, _ = make(rng, nd)
    axes = [build_axis(v) for v in values]
    before, keep = array.copy(), [pickle.loads(pickle.dumps(a)) for a in axes]
    mode = str(rng.choice(['', 'in-place', 'COPY', 'x', 'true']))
    ctx.case(*values, mode=mode)
    ctx.raises(ValueError, lambda: cls(nd)(*axes, array, increasing_axes=mode), 'undefined mode accepted', mode=mode)
    ctx.equal(array, before, 'refused mode altered the array')
    ctx.check(all(a == b for a, b in zip(axes, keep)), 'refused mode altered an axis')


# -- labelled arrays -------------------------------------------------------
LON = ['degrees_east', 'degree_east', 'degree_E', 'degrees_E', 'degreeE', 'degreesE']
LAT = ['degrees_north', 'degree_north', 'degree_N', 'degrees_N', 'degreeN', 'degreesN']


def labelled(rng, nd, geodetic, order=None):
    """A labelled array, its dimensions in any order."""
    n = sizes(rng, nd)
    if geodetic:
        full = rng.random() < .4
        if full:
            n[0] = int(rng.choice([4, 6, 8]))
            x = np.arange(n[0]) * 360.0 / n[0] + float(rng.choice([0, -180, 10.5]))
        else:
            x = np.cumsum(rng.uniform(1, 20, n[0])) + rng.uniform(-180, 100)
        y = np.cumsum(rng.uniform(1, 20, n[1])) + rng.uniform(-80, 0)
    else:
        x, y = coordinate(rng, n[0], 'asc'), coordinate(rng, n[1], 'asc')
    values = [x, y] + [coordinate(rng, k, 'asc') for k in n[2:]]
    names = [str(s) for s in rng.permutation(['lon', 'lat', 'a', 'b', 'time', 'level', 'x', 'y', 'z', 'u', 'longitude', 'latitude'])[:nd]]
    temporal = None
    if nd > 2 and rng.random() < .6:
        temporal = int(rng.integers(2, nd))
        values[temporal] = instants(rng, n[temporal], str(rng.choice(['M', 'm'])), 'asc')
    for k in range(nd):
        if rng.random() < .4:
            values[k] = values[k][::-1].copy()
    dtype = str(rng.choice(['f8', 'f4', 'i2', 'i1', 'u1', 'i4', 'i8']))
    array = numbers(rng, n, dtype)
    coords = {}
    for k in range(nd):
        attrs = {}
        if k < 2 and geodetic:
            attrs['units'] = str(rng.choice([LON, LAT][k]))
        elif rng.random() < .5:
            attrs['units'] = str(rng.choice(['m', '1', 'degrees', 'hours since 1900-01-01', 'degree']))
        coords[names[k]] = xarray.DataArray(values[k], dims=(names[k], ), attrs=attrs)
    # coordinates that are not dimensions
    extra = {}
    if rng.random() < .4:
        extra['station'] = xarray.DataArray(np.float64(3.5), dims=(), attrs={'units': str(rng.choice(LON + LAT + ['m']))})
    if rng.random() < .2:
        extra['surface'] = xarray.DataArray(rng.normal(size=(n[0], n[1])), dims=(names[0], names[1]), attrs={'units': str(rng.choice(LON + LAT))})
    return names, values, array, coords, extra, temporal, dtype


def arrange(rng, names, array, coords, extra):
    """The same labelled array, its dimensions and coordinates in any order."""
    perm = rng.permutation(len(names))
    dims = tuple(names[k] for k in perm)
    everything = {**coords, **extra}
    keys = [str(k) for k in rng.permutation(list(everything))]
    return xarray.DataArray(grids.layout(rng, np.ascontiguousarray(array.transpose(perm))), {k: everything[k] for k in keys}, dims)


def cartesian_time(da, names, temporal):
    """Time among the axes used as X and Y (the first two)."""
    return temporal is not None and names[temporal] in [c for c in da.coords if c in names][:2]


def backend(nd):
    return {2: xb.Grid2D, 3: xb.Grid3D, 4: xb.Grid4D}[nd]


def evaluate(g, nd, coords, **kw):
    return {2: lambda: g.bivariate, 3: lambda: g.trivariate, 4: lambda: g.quadrivariate}[nd]()(coords, **kw)


@section(5400, 108000)
def from_labels(ctx, rng):
    nd = 2 + ctx.index % 3
    geodetic = bool(rng.random() < .6)
    names, values, array, coords, extra, temporal, dtype = labelled(rng, nd, geodetic)
    up = bool(rng.random() < .6)
    stored = array.astype(SUFFIX[dtype])
    sized = sorted(names[2:])
    ctx.case(*values, array, dims=nd, geodetic=geodetic, increasing=up, temporal=temporal, names=names, extra=list(extra))
    w = dict(dims=nd, geodetic=geodetic, increasing=up, temporal=temporal, names=names, extra=list(extra), dtype=dtype)
    results = []
    cols = {}
    for name, v in zip(names, values):
        lo, hi = v.min(), v.max()
        if v.dtype.kind in 'mM':
            cols[name] = np.concatenate([rng.integers(lo.astype('i8'), hi.astype('i8') + 1, 15).astype(v.dtype), rng.choice(v, 5)])
        else:
            cols[name] = np.concatenate([rng.uniform(lo, hi, 15), rng.choice(v, 5)])
    for turn in range(2):
        da = arrange(rng, names, array, coords, extra)
        if not geodetic and cartesian_time(da, names, temporal):
            ctx.count('time used as a cartesian axis')
            return
        raw = da.values.copy()
        marks = {k: v.values.copy() for k, v in da.coords.items()}
        g = backend(nd)(da, increasing_axes=up, geodetic=geodetic)
        w['order'] = list(da.dims)
        w['coords'] = list(da.coords)
        ctx.equal(da.values, raw, 'labelled array altered', **w)
        for k, v in marks.items():
            ctx.equal(da.coords[k].values, v, 'coordinates of the labelled array altered', **w)
        dims = g._dims
        ctx.check(sorted(dims) == sorted(names), 'dimensions of the grid', str(dims), **w)
        if sorted(dims) != sorted(names):
            return
        if geodetic:
            ctx.check(tuple(dims[:2]) == tuple(names[:2]), 'longitude and latitude', str(dims), **w)
        if temporal is not None and geodetic:
            ctx.check(dims[2] == names[temporal] and isinstance(g.z, core.TemporalAxis), 'temporal axis', f'{dims} {type(g.z)}', **w)
        if nd == 4 and temporal is None:
            rest = [d for d in da.dims if d not in dims[:2]]
            ctx.check(list(dims[2:]) == rest, 'Z and U axes do not follow the order of the dimensions', f'{dims} {da.dims}', **w)
        # every pair (by name) is kept
        own = accessors(g, nd)
        where = [names.index(d) for d in dims]
        got = pairs([axis_values(a) for a in own], g.array)
        want = pairs([values[k] for k in where], stored.transpose(where))
        if not own[0].is_circle:
            same_pairs(ctx, got, want, 'pairs of the labelled array', **w)
        else:
            ctx.equal(np.sort(g.array, axis=None), np.sort(stored, axis=None), 'values of the labelled array', **w)
        if up:
            ctx.check(all(a.is_ascending() for a in own), 'axes of the backend not increasing', **w)
        ctx.check(own[0].is_circle == (geodetic and core.Axis(values[0], is_circle=True).is_circle), 'circle', **w)
        if nd > 2 and g.array.dtype.itemsize == 1:
            continue
        keys = [str(k) for k in rng.permutation(names)]
        r = evaluate(g, nd, {k: cols[k] for k in keys}, num_threads=1)
        results.append(r)
        # the value at a node, by name
        idx = [rng.integers(0, len(v), 20) for v in values]
        node = {k: values[j][i] for j, (k, i) in enumerate(zip(names, idx))}
        truth = stored[tuple(idx)].astype('f8')
        r = evaluate(g, nd, node, num_threads=1)
        scale = np.nanmax(np.abs(stored.astype('f8')), initial=1e-30)
        rough = max(np.abs(v).max() / np.abs(np.diff(v)).min() for v in values if v.dtype.kind == 'f')
        tol = scale * (1e-6 + rough * 1e-11)
        if dtype[0] != 'f' or not np.isnan(stored).any():
            # (a node at an end of a regular axis may fall outside by a rounding error)
            miss = np.isnan(r)
            edge = np.zeros(20, bool)
            for j, i in enumerate(idx):
                edge |= (i == 0) | (i == len(values[j]) - 1)
            ctx.all(~miss | edge, 'node of the labelled array undefined', **w)
        ok = np.isnan(r) | np.isnan(truth) | (np.abs(r - truth) <= tol)
        ctx.all(ok, 'node of the labelled array', got=r, want=truth, **w)
        if turn == 0 and nd == 3 or nd == 2:
            method = str(rng.choice(['bilinear', 'nearest', 'inverse_distance_weighting']))
            direct = cls(nd)(*own, g.array)
            args = [cols[d] for d in dims]
            if nd == 3 and isinstance(g.z, core.TemporalAxis):
                args[2] = g.z.safe_cast(args[2])
            ctx.equal(evaluate(g, nd, {k: cols[k] for k in keys}, interpolator=method, num_threads=1),
                      interpolate(direct, nd, args, interpolator=method, num_threads=1), 'labelled / direct', **w)
    if not results:
        return
    a, b = results
    ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol)
    # on the edges, rounding may decide
    ctx.all(ok[:15], 'order of the dimensions changes the interpolation', got=a[:15], want=b[:15], **w)
    ctx.count(f'labelled {nd}D{" geodetic" if geodetic else ""}{" temporal" if temporal else ""}')


@section(2100, 27000)
def labels_refused(ctx, rng):
    nd = 2 + ctx.index % 3
    names, values, array, coords, extra, temporal, dtype = labelled(rng, nd, True)
    da = arrange(rng, names, array, coords, {})
    how = ['missing', 'unknown', 'too many', 'not a dict', 'ndim', 'no longitude', 'no latitude', 'too many dimensions', 'two times'][int(rng.integers(0, 9))]
    good = {k: np.repeat(v[:1], 3) for k, v in zip(names, values)}
    ctx.case(*values, how=how, dims=nd, names=names)
    w = dict(dims=nd, how=how, names=names)
    ctx.count(how)
    if how == 'ndim':
        other = 2 + (nd - 1) % 3
        ctx.raises(ValueError, lambda: backend(other)(da), 'number of dimensions accepted', **w)
        return
    if how == 'too many dimensions':
        wide = xarray.DataArray(np.zeros((2, ) * 5), {c: xarray.DataArray(np.arange(2.0), dims=(c, )) for c in 'abcde'}, tuple('abcde'))
        ctx.raises(NotImplementedError, lambda: xb.RegularGridInterpolator(wide), '5 dimensions accepted', **w)
        return
    if how == 'two times':
        if nd < 4:
            return
        for k in (2, 3):
            coords[names[k]] = xarray.DataArray(instants(rng, len(values[k]), str(rng.choice(['M', 'm'])), 'asc'), dims=(names[k], ))
        da = arrange(rng, names, array, coords, {})
        ctx.raises(ValueError, lambda: backend(nd)(da), 'two time axes accepted', **w)
        return
    if how in ('no longitude', 'no latitude'):
        coords[names[how == 'no latitude']].attrs.pop('units')
        da = arrange(rng, names, array, coords, {})
        ctx.raises(ValueError, lambda: backend(nd)(da), f'{how} accepted', **w)
        return
    g = backend(nd)(da)
    f = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[nd]
    f = getattr(g, f) if rng.random() < .6 else g.bicubic if rng.random() < .5 else xb.RegularGridInterpolator(da)
    if how == 'missing':
        good.pop(str(rng.choice(names)))
        exc = IndexError
    elif how == 'unknown':
        good['unknown name'] = good.pop(str(rng.choice(names)))
        exc = IndexError
    elif how == 'too many':
        good['unknown name'] = np.zeros(3)
        exc = IndexError
    else:
        good = list(good.values())
        exc = TypeError
    ctx.raises(exc, lambda: f(good), f'{how} accepted', **w)


@section(2100, 36000)
def interpolator(ctx, rng):
    """RegularGridInterpolator: same answers as the functions it wraps."""
    nd = 2 + ctx.index % 3
    geodetic = bool(rng.random() < .6)
    names, values, array, coords, extra, temporal, dtype = labelled(rng, nd, geodetic)
    if not geodetic and temporal is not None:
        temporal = None
        values[2:] = [coordinate(rng, len(v), 'asc') for v in values[2:]]
        coords = {k: xarray.DataArray(v, dims=(k, )) for k, v in zip(names, values)}
    if dtype in ('i1', 'u1'):
        array, dtype = array.astype('f4'), 'f4'
    da = arrange(rng, names, array, coords, extra)
    r = xb.RegularGridInterpolator(da, geodetic=geodetic)
    ctx.case(*values, array, dims=nd, geodetic=geodetic, names=names)
    w = dict(dims=nd, geodetic=geodetic, temporal=temporal, names=names, order=list(da.dims))
    ctx.check(r.ndim == nd, 'ndim', **w)
    g = r.grid
    ctx.check(all(a.is_ascending() for a in accessors(g, nd)), 'axes of the interpolator not increasing', **w)
    cols = {}
    for name, v in zip(names, values):
        lo, hi = v.min(), v.max()
        if v.dtype.kind in 'mM':
            cols[name] = rng.integers(lo.astype('i8'), hi.astype('i8') + 1, 15).astype(v.dtype)
        else:
            cols[name] = rng.uniform(lo, hi, 15)
    args = [cols[d] for d in g._dims]
    if isinstance(accessors(g, nd)[-1 if nd == 3 else 2] if nd > 2 else None, core.TemporalAxis):
        t = args[2]
        if rng.random() < .6:
            # the same instants, in another unit
            name = g._dims[2]
            unit = str(rng.choice(['D', 'h', 'm', 's', 'ms', 'us']))
            coarse = t.astype(f'{t.dtype.kind}8[{unit}]')
            back = coarse.astype(t.dtype)
            lo, hi = values[names.index(name)].min(), values[names.index(name)].max()
            if ((back >= lo) & (back <= hi)).all() and (back.astype(coarse.dtype) == coarse).all() and abs(coarse.astype('i8')).max() < 1 << 40:
                cols[name], args[2] = coarse, back
                ctx.count('instants in another unit')
    direct = cls(nd)(*accessors(g, nd), g.array)
    for method in ('bilinear', 'nearest', 'inverse_distance_weighting'):
        ctx.equal(r(cols, method=method, num_threads=1), interpolate(direct, nd, args, interpolator=method, num_threads=1), f'interpolator {method}', **w)
    kw = dict(nx=2, ny=2, boundary=str(rng.choice(['undef', 'sym', 'expand', 'wrap'])), fitting_model=str(rng.choice(['linear', 'bicubic'])))
    try:
        want = pyinterp.bicubic(direct, *args, num_threads=1, **kw)
    except (ValueError, RuntimeError) as e:
        ctx.raises(type(e), lambda: r(cols, method='bicubic', bicubic_kwargs=kw, num_threads=1), 'bicubic refused', **w)
    else:
        ctx.equal(r(cols, method='bicubic', bicubic_kwargs=kw, num_threads=1), want, 'interpolator bicubic', **w)
    p = pickle.loads(pickle.dumps(r, protocol=int(rng.integers(0, 6))))
    ctx.equal(p(cols, num_threads=1), r(cols, num_threads=1), 'pickled interpolator', **w)
    ctx.check(p.grid._dims == g._dims and p.ndim == nd, 'pickled interpolator: dimensions', **w)
    for a, b in zip(accessors(g, nd), accessors(p.grid, nd)):
        ctx.check(type(a) is type(b) and a == b, 'pickled interpolator: axis', **w)
    # outside: undefined, or refused
    far = dict(cols)
    k = names[int(rng.integers(1, 2))]
    far[k] = np.full(15, values[names.index(k)].max() + 1.0 * np.ptp(values[names.index(k)]) + 1)
    ctx.all(np.isnan(r(far, num_threads=1)), 'outside of the grid', **w)
    ctx.raises(ValueError, lambda: r(far, bounds_error=True, num_threads=1), 'outside of the grid accepted', **w)
    if rng.random() < .5:
        method = str(rng.choice(['bicubic', 'nearest', 'inverse_distance_weighting']))
        ctx.raises(ValueError, lambda: r(far, method=method, bounds_error=True, num_threads=1), f'outside of the grid accepted ({method})', **w)
