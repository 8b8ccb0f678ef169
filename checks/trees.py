"""Random spatial indexes (core R-tree) with their model, for c18, c19, ..."""
import copy
import pickle

import numpy as np
import pyinterp
from pyinterp import geodetic

import gen
import scattered


def lla_to_ecef(lon, lat, alt, a, f):
    lon, lat = np.radians(np.asarray(lon, 'float64')), np.radians(np.asarray(lat, 'float64'))
    e2 = f * (2 - f)
    n = a / np.sqrt(1 - e2 * np.sin(lat)**2)
    return np.stack([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (1 - e2) + alt) * np.sin(lat)], -1)


def geographic(rng, n, around=None):
    """Positions (lon, lat): global, clusters, lattices, lines, poles, seam."""
    kind = rng.choice(['global', 'cluster', 'lattice', 'line', 'polar', 'seam'], p=[.25, .25, .15, .1, .1, .15])
    if around is not None and len(around) and rng.random() < .6:
        c = around[rng.integers(0, len(around), n)]
        s = 10**rng.uniform(-6, 1)
        lon, lat = c[:, 0] + rng.normal(0, s, n), c[:, 1] + rng.normal(0, s, n)
        if rng.random() < .3:
            lon, lat = c[:, 0].copy(), c[:, 1].copy()
    elif kind == 'global':
        lon, lat = rng.uniform(-180, 180, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    elif kind == 'cluster':
        s = 10**rng.uniform(-3, 1)
        lon, lat = rng.uniform(-180, 180) + rng.normal(0, s, n), rng.uniform(-80, 80) + rng.normal(0, s, n)
    elif kind == 'lattice':
        m = max(int(np.ceil(np.sqrt(n))), 1)
        step = rng.choice([.25, 1, 5])
        k = rng.permutation(m * m)[:n]
        lon, lat = rng.integers(-180, 180) + step * (k % m), rng.integers(-60, 40) + step * (k // m)
    elif kind == 'line':
        t = rng.uniform(0, 1, n)
        lon, lat = rng.uniform(-180, 180) + t * rng.uniform(-50, 50), rng.uniform(-60, 60) + t * rng.uniform(-25, 25)
    elif kind == 'polar':
        lon, lat = rng.uniform(-180, 180, n), rng.choice([-1, 1]) * (90 - abs(rng.normal(0, 3, n)))
    else:
        lon, lat = 180 + rng.normal(0, 3, n), rng.uniform(-70, 70, n)
    lat = np.clip(lat, -90, 90)
    if rng.random() < .3:
        lon = lon + 360 * rng.integers(-2, 3, n)
    elif rng.random() < .5:
        lon = (lon + 180) % 360 - 180
    lon, lat = gen.chain(rng, [lon, lat], .15)
    return np.stack([lon, lat], -1)


class Native:
    """The C++ R-tree of plain points, through the interface of RTree."""

    def __init__(self, dims, tree=None):
        import vtn_rtree
        self.dims = dims
        self.raw = tree or (vtn_rtree.Plane if dims == 2 else vtn_rtree.Space)()

    def __len__(self):
        return self.raw.size()

    def _points(self, c):
        c = np.asarray(c, 'float64')
        c = c if c.shape[1] == 3 else np.column_stack([c, np.zeros(len(c))])
        return c[:, :self.dims].tolist()

    def packing(self, c, v):
        self.raw.packing(self._points(c), v.tolist())

    def insert(self, c, v):
        for p, x in zip(self._points(c), v.tolist()):
            self.raw.insert(p, x)

    def clear(self):
        self.raw.clear()

    def __copy__(self):
        return Native(self.dims, self.raw.copy())

    def _each(self, q, func):
        rows = [func(p) for p in self._points(q)]
        return np.array([r[0] for r in rows], 'float64'), np.array([r[1] for r in rows], 'uint32')

    @staticmethod
    def _radius(radius):
        return np.finfo('float64').max if radius is None else radius

    def inverse_distance_weighting(self, q, radius=None, k=9, p=2, within=True, num_threads=0):
        return self._each(q, lambda x: self.raw.idw(x, self._radius(radius), k, p, within))

    def window_function(self, q, wf, arg=None, radius=None, k=9, within=True, num_threads=0):
        kind = scattered.WINDOWS.index(wf)
        arg = arg if arg is not None else 1 if wf == 'lanczos' else 0
        return self._each(q, lambda x: self.raw.window_function(x, kind, arg, self._radius(radius), k, within))

    def radial_basis_function(self, q, rbf=None, epsilon=None, smooth=0, radius=None, k=9, within=True, num_threads=0):
        kind = list(scattered.RBF).index(rbf or 'multiquadric')
        epsilon = np.nan if epsilon is None else epsilon
        return self._each(q, lambda x: self.raw.rbf(x, epsilon, smooth, kind, self._radius(radius), k, within))

    def universal_kriging(self, q, covariance=None, alpha=1, sigma=1, radius=None, k=9, within=True, num_threads=0):
        kind = list(scattered.COVARIANCE).index(covariance or 'matern_32')
        return self._each(q, lambda x: self.raw.kriging(x, sigma, alpha, kind, self._radius(radius), k, within))


class Tree:
    """An R-tree and what it must contain."""

    def __init__(self, rng, dtype=None, ecef=None, native=0):
        """native: the number of dimensions of a C++ tree of plain points"""
        if native:
            dtype, ecef = 'float64', True
        self.ecef = rng.random() < .35 if ecef is None else ecef
        self.dtype = np.dtype(dtype or ('float32' if rng.random() < .25 else 'float64'))
        self.f32 = self.dtype == 'float32'
        self.a, self.f = 6378137., 1 / 298.257223563
        system = None
        if not self.ecef and rng.random() < .4:
            self.a, self.f = float(rng.choice([6378137., 6371000.])), float(rng.choice([0, 1 / 298.257222101]))
            system = geodetic.Spheroid((self.a, self.f))
        # each of these is the default
        self.scale = float(10**rng.uniform(-2, 7)) if self.ecef else self.a
        self.shift = float(rng.choice([0, 0, 1])) * self.scale * rng.normal(0, 3, 3)
        if native == 2:
            self.shift[2] = 0
        self.tree = Native(native) if native else pyinterp.RTree(system, self.dtype, self.ecef)
        self.tol = (3e-6 if self.f32 else 2e-15 if self.ecef else 1e-14) * (self.scale + np.abs(self.shift).max() * self.ecef) * 4
        self.clear(False)
        self.planar = rng.random() < .3 and self.ecef or native == 2
        self.native = native

    def clear(self, call=True):
        if call:
            self.tree.clear()
        self.user = np.empty((0, 3))
        self.xyz = np.empty((0, 3))
        self.values = np.empty(0)

    def convert(self, c):
        """What the coordinates given by the user are in space."""
        c = c.astype(self.dtype).astype('float64')
        if c.shape[1] == 2:
            c = np.column_stack([c, np.zeros(len(c))])
        if self.ecef:
            return c
        return lla_to_ecef(c[:, 0], c[:, 1], c[:, 2], self.a, self.f)

    def convert_exact(self, c):
        return c if self.ecef else lla_to_ecef(c[:, 0], c[:, 1], c[:, 2], self.a, self.f)

    def positions(self, rng, n, queries=False):
        """Coordinates as a user gives them: (n, 2) or (n, 3)."""
        if self.ecef:
            if self.planar or rng.random() < .2:
                z = 0
            else:
                z = 1
            if queries and len(self.user) and rng.random() < .6:
                c = self.user[rng.integers(0, len(self.user), n)]
                c = c + rng.normal(0, 1, (n, 3)) * self.scale * 10**rng.uniform(-5, 0) * (rng.random() < .7)
            elif rng.random() < .3:
                c = rng.integers(-3, 4, (n, 3)) * self.scale + self.shift
            elif rng.random() < .15:
                c = rng.uniform(-1, 1, (n, 1)) * self.scale * rng.normal(0, 1, 3) + self.shift
            else:
                c = rng.normal(0, 1, (n, 3)) * self.scale + self.shift
            if not z:
                c[:, 2] = 0
                if rng.random() < .6:
                    c = c[:, :2]
        else:
            ll = geographic(rng, n, self.user if queries else None)
            c = ll
            if rng.random() < .4:
                alt = rng.choice([0, 1, 1000., 1e5, 1e6]) * rng.normal(0, 1, n)
                c = np.column_stack([ll, alt])
        c = np.asarray(c, 'float64')
        if self.f32 and rng.random() < .5:
            c = c.astype('float32')
        return c

    def add(self, rng, n, pack, values=None):
        c = self.positions(rng, n)
        if n > 1 and rng.random() < .3:  # duplicates
            i = rng.integers(0, n, n // 3 + 1)
            c[rng.integers(0, n, len(i))] = c[i]
        if pack:
            self.clear(False)
        v = len(self.values) + np.arange(n, dtype='float64') + 7 if values is None else values(n)
        given = c
        if rng.random() < .3:
            given = np.asfortranarray(c)
        elif rng.random() < .2:
            given = np.repeat(c, 2, axis=0)[::2]
        (self.tree.packing if pack else self.tree.insert)(given, v.astype(self.dtype))
        full = c if c.shape[1] == 3 else np.column_stack([c, np.zeros(n)])
        self.user = np.concatenate([self.user, full.astype(self.dtype).astype('float64')])
        self.xyz = np.concatenate([self.xyz, self.convert(c)])
        self.values = np.concatenate([self.values, v.astype(self.dtype).astype('float64')])

    def history(self, rng, most=300):
        """Fills the tree through a random history."""
        steps = []
        for _ in range(int(rng.choice([1, 1, 2, 3, 4]))):
            n = int(rng.choice([0, 1, 2, 5, 16, 17, 40, most], p=[.03, .07, .1, .2, .15, .15, .2, .1]))
            r = rng.random()
            if r < .5:
                self.add(rng, n, True)
                steps.append(f'packing {n}')
            elif r < .93:
                self.add(rng, n, False)
                steps.append(f'insert {n}')
            elif r < .96:
                self.clear()
                steps.append('clear')
            else:
                pickled = rng.random() < .5 and not self.native
                self.tree = pickle.loads(pickle.dumps(self.tree)) if pickled else copy.copy(self.tree)
                steps.append('copy')
        return steps

    def distances(self, xyz):
        return np.sqrt(((xyz[:, None] - self.xyz[None])**2).sum(-1))

    def nearest(self, xyz, k):
        """Sorted distances and indexes of the k nearest of every row."""
        d = self.distances(xyz)
        order = np.argsort(d, axis=1, kind='stable')[:, :k]
        return np.take_along_axis(d, order, 1), order

    def surrounded(self, xyz, members, eps):
        """1 inside the box of the members, 0 outside, -1 too close to tell."""
        if not len(members):
            return 0
        lo, hi = self.xyz[members].min(0), self.xyz[members].max(0)
        # as the tree holds them, a plane stays a plane
        flat = (hi == lo) & (xyz == lo) & self.ecef
        g = np.where(flat, np.inf, np.minimum(xyz - lo, hi - xyz))
        if (g > eps).all():
            return 1
        if (g < -eps).any():
            return 0
        return -1


def inside(t, x, members):
    """Whole coordinates: the point is in the box of these points."""
    if not len(members):
        return False
    x = np.append(x, np.zeros(3 - len(x)))
    m = t.xyz[members]
    return bool(((m.min(0) <= x) & (x <= m.max(0))).all())


def limits(ctx, rng):
    """A tree of whole Cartesian coordinates, all of its points being used, and
    a radius which is the distance of some of them. Yields with every
    position the indexes of the points to be found: those within the radius if
    they surround it."""
    t = Tree(rng, ecef=True)
    n = int(rng.integers(1, 14))
    dims = int(rng.choice([2, 3]))
    c = rng.integers(-4, 5, (n, dims)).astype('float64')
    c = np.unique(c, axis=0)[rng.permutation(len(np.unique(c, axis=0)))]
    n = len(c)
    v = np.arange(n, dtype='float64') + 7
    (t.tree.packing if rng.random() < .5 else t.tree.insert)(c, v.astype(t.dtype))
    t.xyz = np.column_stack([c, np.zeros((n, 3 - dims))])
    t.values = v
    m = int(rng.integers(1, 6))
    q = rng.integers(-5, 6, (m, dims)).astype('float64')
    if rng.random() < .4:
        q[0] = c[0]
    d2 = ((q[:, None] - c[None])**2).sum(-1)
    r2 = float(rng.choice(d2.ravel()))
    radius = float(np.round(np.sqrt(r2)))
    if radius**2 != r2 or not radius:
        radius = float(rng.integers(1, 6))
    within = bool(rng.random() < .5)
    k = n + int(rng.integers(0, 3))
    sample = dict(points=c, radius=radius, k=k, within=within, dtype=str(t.dtype))
    ctx.case(c, q, radius, k, within, n=n, radius=radius, within=within, dims=dims)
    rows = []
    for i in range(m):
        near = np.flatnonzero(d2[i] <= radius**2)
        ctx.count('at the limit of the radius, judged', int((d2[i] == radius**2).sum()))
        if within and not inside(t, q[i], near):
            near = near[:0]
        rows.append((i, near, dict(sample, query=q[i])))
    return t, q, d2, k, radius, within, rows
