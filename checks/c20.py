"""C20: the geodetic R-tree measures geodesics and agrees with brute force."""
import copy
import pickle

import numpy as np
from pyinterp import geodetic

import c17
import scattered
import trees
import vt
import large
from vt import section

vt.SECTIONS.clear()

PARTS = ['geodetic']
RULE = ('A case is one geodetic.RTree filled through a random history of packing, insert, clear and copies, then queried or '
        'interpolated; every answer is judged against a brute-force search over the model of its content. Non-trivial: at '
        'least one answer was judged.')
ASSUMES = ['more than 16 points whose longitudes, with those of the queries, span more than 180 degrees or cross the antimeridian, '
           'and neighbours further than 17 degrees among more than 16 points, are a known finding (wrong neighbours): there, only '
           'the truth of the distances and the size of the answers are judged',
           'neighbours whose distances are closer than 1e-4 (1e-2 if the spheroid is not WGS84) may be permuted',
           'positions nearly antipodal (more than 150 degrees apart) of a neighbour are not judged']
PLACES = 16  # points held by one node
KNOWN = [{172, 179, 258, 358}, {16, 179, 216, 330}]  # the queries of the known findings


def values(rng):
    kind = int(rng.integers(0, 3))
    c, s = rng.normal(0, 10), 10**rng.uniform(-1, 2)
    return lambda n: np.full(n, c) if kind == 0 else rng.normal(c, s, n) if kind == 1 else rng.integers(-5, 6, n) * s


class Setting:

    def __init__(self, rng, ids=False, f=None):
        self.wgs = rng.random() < .6
        self.a, self.f = 6378137., 1 / 298.257223563
        if not self.wgs:
            self.a, self.f = float(rng.uniform(3e6, 7e6)), float(rng.choice([0, 1 / rng.uniform(280, 400)]))
        s = None if self.wgs and rng.random() < .6 else geodetic.Spheroid((self.a, self.f))
        self.spheroid = s
        self.tree = geodetic.RTree(s)
        self.steps = []
        self.anywhere = rng.random() < .45
        self.lon0 = rng.uniform(-180, 180)
        self.window = None if self.anywhere else np.sort(rng.uniform(-179.9, 179.9, 2))
        if self.window is not None and self.window[1] - self.window[0] > 170:
            self.window = np.array([-85., 85.])
        self.clear()
        make = values(rng)
        for _ in range(int(rng.choice([1, 1, 2, 3]))):
            n = int(rng.choice([0, 1, 2, 5, 10, 16, 17, 40, 150], p=[.02, .06, .07, .15, .2, .15, .1, .15, .1]))
            r = rng.random()
            if r < .92:
                c = self.place(rng, n)
                if n > 1 and rng.random() < .2:
                    i = rng.integers(0, n, n // 3 + 1)
                    c[rng.integers(0, n, len(i))] = c[i]
                pack = r < .55
                if pack:
                    self.clear()
                v = len(self.values) + np.arange(n) + 7. if ids else make(n)
                (self.tree.packing if pack else self.tree.insert)(self.given(rng, c[:, 0]), self.given(rng, c[:, 1]), self.given(rng, v))
                self.c = np.concatenate([self.c, c])
                self.values = np.concatenate([self.values, v])
                self.steps.append(f'{"packing" if pack else "insert"} {n}')
            elif r < .95:
                self.tree.clear()
                self.clear()
                self.steps.append('clear')
            else:
                self.tree = pickle.loads(pickle.dumps(self.tree))
                self.steps.append('pickle')
        self.n = int(rng.choice([0, 1, 4, 10], p=[.03, .17, .4, .4]))
        self.q = self.place(rng, self.n, True)
        self.k = int(rng.choice([1, 2, 3, 4, 6, 9, 12]))
        n = len(self.values)
        every = np.concatenate([self.c, self.q])
        lon = (every[:, 0] + 180) % 360 - 180
        self.single = n <= PLACES
        self.exact = self.single or (np.ptp(lon) < 175 and np.ptp(every[:, 0]) < 175)
        self.d = self.measure(self.q, self.c)
        self.order = np.argsort(self.d, axis=1, kind='stable')
        self.sorted = np.take_along_axis(self.d, self.order, 1)
        self.rel = 1e-4 if self.wgs else 1e-2
        self.tol = lambda d: 1e-4 * d + 1.  # of the distances
        self.ltol = lambda d: self.rel * d + 1.  # of the ranks
        self.threads = int(rng.choice([0, 1, 2]))
        self.within = bool(rng.random() < .4)
        self.spread = max(abs(self.values).max(initial=0), 1e-300)
        self.sample = dict(steps=self.steps, n=self.n, k=self.k, a=self.a, f=self.f, within=self.within)

    def clear(self):
        self.c, self.values = np.empty((0, 2)), np.empty(0)

    def given(self, rng, v):
        if rng.random() < .2 and len(v) > 1:
            return np.ascontiguousarray(np.repeat(v, 2))[::2].copy() if rng.random() < .5 else np.repeat(v, 2)[::2]
        return np.ascontiguousarray(v)

    def place(self, rng, n, queries=False):
        c = trees.geographic(rng, n, self.c if queries else None)
        if self.window is not None:
            lo, hi = self.window
            if queries and len(self.c) and rng.random() < .5:
                c[:, 0] = np.clip(c[:, 0], lo, hi)
            else:
                lon = c[:, 0] % 360 / 360
                c[:, 0] = lo + (hi - lo) * lon
        return c

    def measure(self, q, c):
        shape = (len(q), len(c))
        x = [np.repeat(q[:, j], len(c)) for j in (0, 1)] + [np.tile(c[:, j], len(q)) for j in (0, 1)]
        same = ((x[2] - x[0]) % 360 == 0) & (x[1] == x[3])
        d = np.where(same, 0, c17.vincenty(*x, self.a, self.f)[0]) if len(same) else np.empty(0)
        # antipodal
        return np.where(np.isnan(d), np.pi * self.a, d).reshape(shape)

    def trusted(self, d):
        """True if the k smallest distances are not part of the known finding."""
        return self.exact and (self.single or not len(d) or d[min(self.k, len(d) - 1)] < .3 * self.a)

    def surrounded(self, q, members):
        """1, 0, or -1 if it cannot be told."""
        c = self.c[members]
        if abs(c[:, 1]).max() > 89.9999:
            return -1
        lon = (c[:, 0] - q[0] + 180) % 360 - 180
        if np.ptp(lon) > 170 or abs(lon).max() > 175:
            return -1
        g = [-lon.min(), lon.max(), q[1] - c[:, 1].min(), c[:, 1].max() - q[1]]
        if min(g) > 1e-7:
            return 1
        return 0 if min(g) < -1e-7 else -1

    def rows(self, ctx, radius, radius_first, key, got, count):
        k = self.k
        ctx.check(got.shape == (self.n,) and count.shape == (self.n,), key + ' shape', got_=(got.shape, count.shape))
        for i in range(self.n):
            w = dict(query=self.q[i], radius=radius, **self.sample)
            d, o = self.sorted[i], self.order[i]
            ctx.check(count[i] <= k and (count[i] > 0) == (not np.isnan(got[i])), key + ' count range', got_=(got[i], count[i]), **w)
            if not self.trusted(d):
                continue
            if len(d) > k and d[k] - d[k - 1] <= 2 * self.ltol(d[k]):
                ctx.count('tied')
                continue
            d, o = d[:k], o[:k]
            if len(d) and (d[-1] > .8 * np.pi * self.a or radius is not None and (abs(d - radius) <= self.tol(d)).any()):
                ctx.count('too far, or at the limit of the radius')
                continue
            near = d <= (np.inf if radius is None else radius)
            if self.within and near.any():
                inside = self.surrounded(self.q[i], o[near] if radius_first else o)
                if inside == -1:
                    ctx.count('at the limit of the box')
                    continue
                if not inside:
                    near[:] = False
            if not near.any():
                ctx.count('nothing qualifies')
                ctx.check(np.isnan(got[i]) and count[i] == 0, key + ' nothing qualifies', got_=(got[i], count[i]), **w)
                continue
            yield i, d[near], o[near], w

    def pick_radius(self, rng):
        if rng.random() < .4:
            return None
        d = self.sorted[:, :self.k + 1]
        return float(np.quantile(d, rng.random()) * rng.uniform(.7, 1.5) + 10) if d.size else 1e6


@section(2500)
def query(ctx, rng):
    s = Setting(rng, True)
    k, n = s.k, s.n
    ctx.case(s.c, s.q, **s.sample)
    ctx.check(len(s.tree) == len(s.values) and bool(s.tree) == bool(len(s.values)), 'len', got_=len(s.tree), want=len(s.values), steps=s.steps)
    dist, vals = s.tree.query(s.q[:, 0].copy(), s.q[:, 1].copy(), k, s.within, s.threads)
    ctx.check(dist.shape == (n, k) and vals.shape == (n, k), 'shape', got_=dist.shape)
    for i in range(n):
        exact = s.trusted(s.sorted[i])
        ctx.count('exact' if exact else 'only the truth of the distances')
        w = dict(query=s.q[i], got_=(dist[i], vals[i]), **s.sample)
        found = int((vals[i] != -1).sum())
        ctx.check((vals[i][found:] == -1).all() and (dist[i][found:] == -1).all() and (dist[i][:found] >= 0).all(), 'padding', **w)
        ids = (vals[i][:found] - 7).astype(int)
        if not ctx.check(((ids >= 0) & (ids < len(s.values))).all() and len(set(ids.tolist())) == found, 'identity', **w):
            continue
        expected = min(k, len(s.values))
        if s.within:
            d = s.sorted[i]
            tie = len(d) > k and d[k] - d[k - 1] <= 2 * s.ltol(d[k])
            inside = -1 if tie or not exact else s.surrounded(s.q[i], s.order[i][:k]) if expected else 0
            ctx.count({1: 'surrounded', 0: 'not surrounded', -1: 'too close to tell'}[inside])
            if inside == 0:
                ctx.check(found == 0, 'within', 'point not surrounded', **w)
            if inside == 0 or (inside == -1 and not found):
                continue
        ctx.check(found == expected, 'count', want=expected, **w)
        true = s.d[i][ids]
        close = true < .8 * np.pi * s.a
        ctx.all(abs(dist[i][:found] - true)[close] <= s.tol(true[close]), 'distance', want=true, **w)
        if exact and close.all():
            ctx.all(abs(dist[i][:found] - s.sorted[i][:found]) <= s.ltol(s.sorted[i][:found]), 'nearest', want=s.sorted[i][:found], **w)
            ctx.check((np.diff(dist[i][:found]) >= -s.ltol(dist[i][1:found])).all(), 'order', **w)


@section(1500)
def idw(ctx, rng):
    s = Setting(rng)
    p, radius = int(rng.choice([0, 1, 2, 3])), s.pick_radius(rng)
    ctx.case(s.c, s.q, p, radius, **s.sample)
    got, count = s.tree.inverse_distance_weighting(s.given(rng, s.q[:, 0]), s.given(rng, s.q[:, 1]), radius, s.k, p, s.within, s.threads)
    for i, d, o, w in s.rows(ctx, radius, False, 'idw', got, count):
        v = s.values[o]
        if d[0] < 1.:
            if (s.c[o[0]] == s.q[i]).all():
                ctx.count('on a data point')
                ctx.check(np.isclose(v[d == 0], got[i], rtol=1e-12).any() and count[i] == s.k, 'idw data point', got_=(got[i], count[i]),
                          want=v[d == 0], **w)
            continue
        a = 1 / (d / d[0])**p
        want = (a * v).sum() / a.sum()
        rel = 2 * p * s.tol(d[0]) / d[0] + 1e-11
        ctx.check(count[i] == len(d), 'idw count', got_=count[i], want=len(d), **w)
        ctx.check(abs(got[i] - want) <= min(rel, 1) * s.spread * 2, 'idw', got_=got[i], want=want, p=p, **w)
        ctx.check(v.min() - 1e-11 * s.spread <= got[i] <= v.max() + 1e-11 * s.spread, 'idw range', got_=got[i], values=v, **w)


@section(1500)
def window_function(ctx, rng):
    s = Setting(rng)
    radius = s.pick_radius(rng) or 1e6
    wf = str(rng.choice(scattered.WINDOWS))
    arg = scattered.window_argument(rng, wf, radius)
    ctx.case(s.c, s.q, radius, wf, arg, **s.sample)
    got, count = s.tree.window_function(s.given(rng, s.q[:, 0]), s.given(rng, s.q[:, 1]), radius, s.k, wf, arg, s.within, s.threads)
    for i in range(s.n):
        # all the weights may vanish
        if np.isnan(got[i]):
            count[i] = 0
    for i, d, o, w in s.rows(ctx, radius, False, 'window', got, count):
        v = s.values[o]
        if wf in scattered.BREAKS and (abs(d - scattered.BREAKS[wf](radius, arg)) <= s.tol(d)).any():
            continue
        a = scattered.window(wf, d, radius, arg)
        rel = 1e-11 + 20 * s.tol(d[-1]) / min(radius, arg or radius)
        if abs(a.sum()) < 50 * rel * len(d) or rel > .05:
            ctx.count('weights cancel out')
            continue
        rel *= max(1, abs(a).sum() / abs(a.sum())) / min(abs(a.sum()), 1)
        want = (a * v).sum() / a.sum()
        ctx.check(count[i] == len(d), 'window count', got_=count[i], want=len(d), wf=wf, **w)
        ctx.check(abs(got[i] - want) <= rel * s.spread * 4, 'window ' + wf, got_=got[i], want=want, arg=arg, weights=a, **w)


@section(800)
def rbf(ctx, rng):
    s = Setting(rng)
    s.k = min(s.k, 9)
    radius = s.pick_radius(rng)
    name = str(rng.choice(list(scattered.RBF)))
    near = s.sorted[:, :s.k]
    typical = float(np.median(near[near > 0])) if (near > 0).any() else 1e5
    eps = float(typical * 10**rng.uniform(-1, 1)) if name in scattered.ADJUSTABLE and rng.random() < .6 else None
    smooth = 0. if rng.random() < .7 else float(rng.uniform(.1, 2) * (typical**3 if name == 'cubic' else typical if name == 'linear' else 1))
    ctx.case(s.c, s.q, radius, name, eps, smooth, **s.sample)
    got, count = s.tree.radial_basis_function(s.given(rng, s.q[:, 0]), s.given(rng, s.q[:, 1]), radius, s.k, name, eps, smooth, s.within,
                                              s.threads)

    def measure(p, q):
        x = [np.repeat(p[:, j], len(q)) for j in (0, 1)] + [np.tile(q[:, j], len(p)) for j in (0, 1)]
        for j in (0, 2):
            x[j] = (x[j] + 180) % 360 - 180
        return geodetic.coordinate_distances(*x, strategy='andoyer', wgs=s.spheroid or geodetic.Spheroid()).reshape(len(p), len(q))

    for i, d, o, w in s.rows(ctx, radius, True, 'rbf', np.where(np.isnan(got) & (count > 0), 0, got), count):
        ctx.check(count[i] == len(d), 'rbf count', got_=count[i], want=len(d), **w)
        r = measure(s.c[o], s.c[o])
        e = eps
        if name in scattered.ADJUSTABLE and e is None:
            if len(o) < 2 or r.max() == 0:
                continue
            e = r[np.triu_indices(len(o), 1)].mean()
        b = measure(s.q[i:i + 1], s.c[o])[0]
        least = np.append(r[r > 0], b[b > 0]).min(initial=np.inf)
        sol = scattered.solve(scattered.RBF[name](r, e) - smooth * np.eye(len(o)), scattered.RBF[name](b, e), s.values[o],
                              max(1e-14, 1e-7 / least))
        if sol is None or sol[1] > .02 * sol[2]:
            ctx.count('ill-conditioned')
            continue
        ctx.check(abs(got[i] - sol[0]) <= sol[1] + 1e-9 * sol[2], 'rbf ' + name, got_=got[i], want=sol[0], error=sol[1], **w)


@section(100)
def arguments(ctx, rng):
    s = Setting(rng)
    t = s.tree
    ctx.case(s.c, **s.sample)
    a, b = np.zeros(3), np.zeros(4)
    before = len(t)
    for f in (t.packing, t.insert):
        ctx.raises((ValueError,), lambda: f(a, b, a), 'arguments', 'sizes')
        ctx.raises((ValueError,), lambda: f(a, a, b), 'arguments', 'sizes')
    ctx.check(len(t) == before, 'arguments', 'an error changed the tree')
    for f in (t.query, t.inverse_distance_weighting, t.radial_basis_function, lambda x, y: t.window_function(x, y, 1e5)):
        ctx.raises((ValueError,), lambda: f(a, b), 'arguments', 'sizes')
    ctx.raises((ValueError,), lambda: t.window_function(a, a, 1e5, wf='gaussian'), 'arguments', 'gaussian without argument')
    ctx.raises((ValueError,), lambda: t.window_function(a, a, 1e5, wf='nope'), 'arguments', 'unknown window')
    ctx.raises((ValueError,), lambda: t.radial_basis_function(a, a, rbf='linear', epsilon=1.), 'arguments', 'useless epsilon')


@section(2, 2)
def finding(ctx, rng):
    """Known findings: wrong neighbours across the antimeridian, and far away."""
    i = np.arange(400)
    if ctx.index == 0:
        key = 'nearest neighbours across the antimeridian'
        lon, lat = 170 + 20 * (i * .618034 % 1), 60 * (i * .754878 % 1) - 30
        x, y = 170 + 20 * (i * .569840 % 1), 60 * (i * .324718 % 1) - 30
        size = 400
    else:
        key = 'distant nearest neighbours'
        size = 17
        i = np.arange(size)
        lon, lat = -85 + 170 * (i * .618034 % 1), -80 + 160 * ((i * .754878 + .7) % 1)
        i = np.arange(400)
        x, y = -85 + 170 * (i * .56984 % 1), -85 + 170 * (i * .324718 % 1)
    t = geodetic.RTree()
    t.packing(lon, lat, np.arange(size) + 0.)
    ctx.case(lon, lat, x, y, key)
    dist, _ = t.query(x, y, 4)
    d = np.stack([c17.vincenty(np.full(size, x[j]), np.full(size, y[j]), lon, lat, 6378137., 1 / 298.257223563)[0] for j in range(len(x))])
    d.sort(axis=1)
    d = d[:, :4]
    ok = (abs(dist - d) <= 1e-4 * d + 1).all(1)
    ctx.count('wrong answers', (~ok).sum())
    if set(np.flatnonzero(~ok).tolist()) - KNOWN[ctx.index]:
        key = 'wrong neighbours beyond the known finding'
    ctx.all(ok, key, f'{int((~ok).sum())} of {len(x)} queries', lon=x, lat=y, bad=np.flatnonzero(~ok))


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c20(ctx, rng)
