"""Grids of every kind, and the definition of the surface and axis methods."""
import itertools

import numpy as np
import pyinterp
from pyinterp import core

import gen

METHODS = ['bilinear', 'nearest', 'inverse_distance_weighting']
DTYPES = ['float64', 'float32', 'int8', 'uint8']


def layout(rng, a):
    """The same values, stored differently."""
    how = int(rng.integers(0, 5))
    if how == 0:
        return np.asfortranarray(a)
    if how == 1:
        big = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big.view('u1' if a.dtype.itemsize == 1 else f'u{a.dtype.itemsize}')[...] = 77
        view = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        view[...] = a
        return view
    if how == 2:
        rev = (slice(None, None, -1), ) * a.ndim
        return np.ascontiguousarray(a[rev])[rev]
    return a


def lonlat_axes(rng):
    """Values for x (degrees, no circle) and y."""
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    if rng.random() < .05:
        nx = 60
    x = np.cumsum(rng.uniform(0.05, 5, nx)) + rng.uniform(-180, 150)
    y = np.cumsum(rng.uniform(0.05, 5, ny)) + rng.uniform(-80, 40)
    if rng.random() < .5:
        x = np.linspace(x[0], x[-1], nx)
    if rng.random() < .5:
        y = np.linspace(y[0], y[-1], ny)
    if rng.random() < .35:
        x = x[::-1].copy()
    if rng.random() < .35:
        y = y[::-1].copy()
    return x, y


def any_axes(rng):
    """Any values (the methods that measure distances do not apply)."""
    x, _ = gen.axis_values(rng, n=int(rng.integers(2, 10)), scale=float(10.0**rng.uniform(-3, 6)))
    y, _ = gen.axis_values(rng, n=int(rng.integers(2, 10)))
    return x, y


def values(rng, shape, dtype, holes=True):
    if dtype in ('int8', 'uint8'):
        info = np.iinfo(dtype)
        return rng.integers(info.min, info.max + 1, shape).astype(dtype)
    scale = float(10.0**rng.uniform(-3, 4)) * int(rng.choice([1, -1]))
    z = rng.normal(size=shape) * scale
    if rng.random() < .3:
        z += scale * 100
    if holes and rng.random() < .5:
        z[rng.random(shape) < rng.choice([0.02, 0.1, 0.4])] = np.nan
    return z.astype(dtype)


def queries(rng, v, n):
    """Inside, on nodes, at the ends, at the middles."""
    lo, hi = v.min(), v.max()
    q = rng.uniform(lo, hi, n)
    on = rng.random(n)
    nodes = rng.choice(v, n)
    q = np.where(on < .2, nodes, q)
    k = rng.integers(0, len(v) - 1, n)
    q = np.where((on > .2) & (on < .3), 0.5 * (v[k] + v[k + 1]), q)
    q = np.where((on > .3) & (on < .35), np.clip(np.nextafter(nodes, rng.choice([-1e9, 1e9])), lo, hi), q)
    return q


def cells(v, q):
    """The candidate cells of each coordinate: list of (i0, i1) in value
    order (two when it is on a node)."""
    o = np.argsort(v)
    s = v[o]
    n = len(v)
    left = np.clip(np.searchsorted(s, q, side='left') - 1, 0, n - 2)
    right = np.clip(np.searchsorted(s, q, side='right') - 1, 0, n - 2)
    return [(o[left], o[left + 1]), (o[right], o[right + 1])]


def haversine(x0, y0, x1, y1):
    r = np.pi / 180
    a = np.sin((y1 - y0) * r / 2)**2 + np.cos(y0 * r) * np.cos(y1 * r) * np.sin((x1 - x0) * r / 2)**2
    return 2 * np.arcsin(np.sqrt(np.minimum(a, 1)))


class Surface:
    """One cell per query. value() is the expected one (with an error bound),
    `same` are alternatives that are equally right (ties)."""

    def __init__(self, method, x, y, vx, vy, cx, cy, p=2):
        self.method, self.p = method, p
        (i0, i1), (j0, j1) = cx, cy
        self.corner = [(i0, j0), (i0, j1), (i1, j0), (i1, j1)]
        self.t = (x - vx[i0]) / (vx[i1] - vx[i0])
        self.u = (y - vy[j0]) / (vy[j1] - vy[j0])
        self.dist = np.stack([haversine(x, y, vx[i], vy[j]) for i, j in self.corner])
        self.near = np.minimum.reduce(self.dist)

    def options(self, q):
        """q: the values at the four corners [4, n]. Returns a list of
        (value, tolerance)."""
        with np.errstate(all='ignore'):
            top = np.nanmax(np.abs(q), axis=0, initial=0.0)
            if self.method == 'bilinear':
                t, u = self.t, self.u
                val = (1 - t) * (1 - u) * q[0] + (1 - t) * u * q[1] + t * (1 - u) * q[2] + t * u * q[3]
                return [(val, 1e-9 * top)]
            if self.method == 'nearest':
                return [(np.where(self.dist[k] <= self.near * (1 + 1e-9) + 1e-12, q[k], np.inf), 0 * top) for k in range(4)]
            d = self.dist
            w = 1 / d**self.p
            val = (w * q).sum(axis=0) / w.sum(axis=0)
            tol = 1e-9 * top + top * np.minimum(1, 4 * abs(self.p) * 1e-15 / np.maximum(self.near, 1e-300))
            out = []
            tiny = self.near <= 4e-15
            out.append((np.where(self.near == 0, np.inf, val), tol))
            for k in range(4):
                out.append((np.where(tiny & (d[k] == self.near), q[k], np.inf), 0 * top))
            return out


def axis_options(method, q, v, cell, as_float=float):
    """Weights of the two slices: list of (w0, w1, slack) alternatives."""
    i0, i1 = cell
    lo = np.array([as_float(a) for a in (q - v[i0])])
    hi = np.array([as_float(a) for a in (v[i1] - q)])
    if method == 'linear':
        s = lo + hi
        return [(hi / s, lo / s)]
    slack = 1e-12 * (lo + hi)
    first = np.where(lo <= hi + slack, 1.0, np.nan)
    second = np.where(hi <= lo + slack, 1.0, np.nan)
    return [(first, None), (None, second)]


def compose(lo, hi, w0, w1):
    """Combines the options of the two slices."""
    out = []
    with np.errstate(all='ignore'):
        if w1 is None:
            return [(np.where(w0 == 1, a, np.inf), t) for a, t in lo]
        if w0 is None:
            return [(np.where(w1 == 1, b, np.inf), t) for b, t in hi]
        for (a, ta), (b, tb) in itertools.product(lo, hi):
            bad = np.isinf(a) | np.isinf(b)
            out.append((np.where(bad, np.inf, w0 * a + w1 * b), ta + tb + 1e-9 * (np.abs(np.nan_to_num(a)) + np.abs(np.nan_to_num(b)))))
    return out


def judge(ctx, got, options, key, **w):
    """got must be one of the options (inf marks an option that does not
    apply to the element)."""
    ok = np.zeros(got.shape, dtype=bool)
    with np.errstate(all='ignore'):
        for val, tol in options:
            ok |= (np.abs(got - val) <= tol) | (np.isnan(got) & np.isnan(val))
    best = np.array(options[0][0])
    for val, _ in options:
        with np.errstate(all='ignore'):
            best = np.where(np.isinf(best), val, best)
    return ctx.all(ok, key, got=got, want=best, **w)


def axis(v, **kw):
    return core.Axis(np.ascontiguousarray(v), kw.get('epsilon', 1e-9), False)


def grid_class(dims):
    return {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}[dims]
