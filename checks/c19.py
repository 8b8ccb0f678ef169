"""C19: scattered-data interpolators equal their definition."""
import numpy as np

import scattered
import trees
import large
from vt import section

PARTS = ['rtree', 'geodetic']
NATIVE = ['rtree', 'math']
RULE = ('A case is one R-tree filled through a random history (Cartesian or geographic, float32 or float64) and a batch of positions '
        'interpolated with one method and random options; every value and count is judged against the definition applied to '
        'the brute-force neighbours. Non-trivial: at least one position was judged.')
ASSUMES = ['positions with neighbours tied for the k-th rank, at the limit of the radius, or at the limit of the surrounding box are not judged',
           'linear systems of condition number above 1e12 (or too large for the precision of the tree) are not judged',
           'the linear covariance, which is not positive definite, is not judged',
           'windows whose weights cancel out are not judged']


def values(rng):
    kind = int(rng.integers(0, 3))
    c, s = rng.normal(0, 10), 10**rng.uniform(-1, 2)

    def make(n):
        if kind == 0:
            return np.full(n, c)
        if kind == 1:
            return rng.integers(-5, 6, n).astype('float64') * s
        return rng.normal(c, s, n)

    return make


class Setting:
    """A filled tree, positions, and the neighbours each of them may use."""

    def __init__(self, rng, ctx, f32=True, few=False, native=0):
        self.t = t = trees.Tree(rng, None if f32 and rng.random() < .6 else 'float64', native=native)
        make = values(rng)
        steps = []
        for j in range(int(rng.choice([1, 1, 2]))):
            n = int(rng.choice([0, 1, 2, 5, 12, 30, 100], p=[.02, .05, .08, .15, .25, .25, .2]))
            pack = rng.random() < .6
            t.add(rng, n, pack, make)
            steps.append(f'{"packing" if pack else "insert"} {n}')
        self.n = int(rng.choice([0, 1, 4, 10], p=[.03, .17, .4, .4]))
        self.q = t.positions(rng, self.n, True)
        self.k = int(rng.choice([1, 2, 3, 4, 6, 9, 11, 16, 25]))
        if few:
            self.k = min(self.k, 11 if rng.random() < .7 else 25)
        self.xyz = t.convert(self.q)
        self.d, self.order = t.nearest(self.xyz, self.k + 1)
        self.within = bool(rng.random() < .5)
        self.radius = None
        if rng.random() < .55:
            self.radius = t.scale
            if self.d.size and (self.d > 0).any():
                self.radius = float(np.quantile(self.d[self.d > 0], rng.random()) * rng.uniform(.7, 1.5))
        self.threads = int(rng.choice([0, 1, 2]))
        self.spread = max(abs(t.values).max(initial=0), 1e-300)
        self.sample = dict(ecef=t.ecef, dtype=str(t.dtype), steps=steps, n=self.n, k=self.k, within=self.within, radius=self.radius)

    def options(self):
        return dict(radius=self.radius, k=self.k, within=self.within, num_threads=self.threads)

    def rows(self, ctx, radius_first, key, got, count):
        """Yields the rows that can be judged and their neighbours. With
        radius_first the box is the one of the neighbours in the radius."""
        t, k = self.t, self.k
        ctx.check(got.shape == (self.n,) and count.shape == (self.n,), key + ' shape', got_=(got.shape, count.shape))
        for i in range(self.n):
            d, o = self.d[i], self.order[i]
            if len(d) > k and d[k] - d[k - 1] <= 3 * t.tol:
                ctx.count('tied')
                continue
            d, o = d[:k], o[:k]
            if self.radius is not None and (abs(d - self.radius) <= 3 * t.tol).any():
                ctx.count('at the limit of the radius')
                continue
            if key == 'idw' and len(d) and (0 < d[0] <= 1e-6 + 100 * t.tol or self.radius is not None and self.radius < 1e-5):
                continue
            near = d <= (np.inf if self.radius is None else self.radius)
            if self.within:
                members = o[near] if radius_first else o
                inside = t.surrounded(self.xyz[i], members, 3 * t.tol)
                if inside == -1:
                    ctx.count('at the limit of the box')
                    continue
                if not inside:
                    near[:] = False
            w = dict(query=self.q[i], **self.sample)
            if not near.any():
                ctx.count('nothing qualifies')
                ctx.check(np.isnan(got[i]) and count[i] == 0, key + ' nothing qualifies', got_=(got[i], count[i]), **w)
                continue
            yield i, d[near], o[near], w


@section(2000)
def idw(ctx, rng, native=0):
    s = Setting(rng, ctx, native=native)
    t = s.t
    p = int(rng.choice([0, 1, 2, 3, 4], p=[.05, .2, .45, .2, .1]))
    ctx.case(t.xyz, s.q, p, **s.sample, p=p)
    if rng.random() < .1:
        got, count = t.tree.inverse_distance_weighting(s.q)
        s.k, s.radius, s.within, p = 9, None, True, 2
        s.d, s.order = t.nearest(s.xyz, 10)
    else:
        got, count = t.tree.inverse_distance_weighting(s.q, p=p, **s.options())
    for i, d, o, w in s.rows(ctx, False, 'idw', got, count):
        v = t.values[o]
        if d[0] < 1e-6 - 3 * t.tol and d[0] == 0 or (d[0] == 0 and not t.f32):
            same = d <= 1e-6 + t.tol
            ctx.count('on a data point')
            ctx.check(np.isclose(v[same], got[i], rtol=1e-12).any() and count[i] == s.k, 'idw data point', got_=(got[i], count[i]), want=v[same], **w)
            continue
        if d[0] <= 1e-6 + 100 * t.tol or (p and (t.scale / d[0])**p > 1e30):
            continue
        a = 1 / (d / d[0])**p
        want = (a * v).sum() / a.sum()
        ctx.check(count[i] == len(d), 'idw count', got_=count[i], want=len(d), **w)
        rel = 2 * p * t.tol / d[0] + (1e-5 if t.f32 else 1e-12)
        ctx.check(abs(got[i] - want) <= rel * s.spread * 4, 'idw', got_=got[i], want=want, p=p, **w)
        ctx.check(v.min() - rel * s.spread <= got[i] <= v.max() + rel * s.spread, 'idw range', got_=got[i], values=v, **w)


@section(5000)
def window_function(ctx, rng, native=0):
    s = Setting(rng, ctx, native=native)
    t = s.t
    wf = str(rng.choice(scattered.WINDOWS if rng.random() < .6 else ['parzen', 'lanczos', 'gaussian']))
    base = s.radius or (float(np.median(s.d[s.d > 0])) if (s.d > 0).any() else t.scale)
    arg = scattered.window_argument(rng, wf, base)
    ctx.case(t.xyz, s.q, wf, arg, **s.sample, wf=wf, arg=arg)
    got, count = t.tree.window_function(s.q, wf=wf, arg=arg, **s.options())
    for i, d, o, w in s.rows(ctx, False, 'window', got, count):
        v = t.values[o]
        r = s.radius or d[-1]
        if r <= 100 * t.tol:
            continue
        if wf in scattered.BREAKS and (abs(d - scattered.BREAKS[wf](r, arg)) <= 3 * t.tol).any():
            continue
        if wf == 'lanczos' and s.radius is None and (arg is None or arg == 1) and len(d) == 1:
            continue
        a = scattered.window(wf, d, r, arg)
        if s.radius is None and wf in ('parzen', 'parzen_swot', 'lanczos') and (a == 0).all():
            ctx.check(np.isnan(got[i]) and count[i] == 0, 'window without weight', got_=(got[i], count[i]), wf=wf, **w)
            continue
        rel = (2e-5 if t.f32 else 1e-11) + 40 * t.tol / min(r, arg or r)
        if abs(a.sum()) < 50 * rel * len(d) or rel > .05:
            ctx.count('weights cancel out')
            continue
        rel *= max(1, abs(a).sum() / abs(a.sum())) / min(abs(a.sum()), 1)
        want = (a * v).sum() / a.sum()
        ctx.check(count[i] == len(d), 'window count', got_=count[i], want=len(d), wf=wf, **w)
        ctx.check(abs(got[i] - want) <= rel * s.spread * 4, 'window ' + wf, got_=got[i], want=want, arg=arg, weights=a, **w)
        if (a >= 0).all():
            ctx.check(v.min() - rel * s.spread <= got[i] <= v.max() + rel * s.spread, 'window range', got_=got[i], values=v, **w)


def solved(ctx, s, least, A, b, v, got, count, key, w, exact):
    t = s.t
    # rounding of the computations, of the coordinates
    eps = max(1e-6 if t.f32 else 1e-15, t.tol / least)
    sol = scattered.solve(A, b, v, eps)
    if sol is None or sol[1] > .02 * sol[2]:
        ctx.count('ill-conditioned')
        return
    want, err, scale = sol
    ctx.check(abs(got - want) <= err + 1e-10 * scale, key, got_=got, want=want, error=err, **w)
    if exact is not None:
        ctx.count('on a data point')
        ctx.check(abs(got - exact) <= 2 * err + 1e-9 * scale, key + ' data point', got_=got, want=exact, **w)


@section(1200)
def rbf(ctx, rng, native=0):
    s = Setting(rng, ctx, few=True, native=native)
    t = s.t
    name = str(rng.choice(list(scattered.RBF)))
    typical = float(np.median(s.d[s.d > 0])) if (s.d > 0).any() else t.scale
    eps = float(typical * 10**rng.uniform(-1, 1)) if name in scattered.ADJUSTABLE and rng.random() < .6 else None
    smooth = 0. if rng.random() < .7 else float(10**rng.uniform(-5, .3) * (typical**3 if name == 'cubic' else typical if name == 'linear' else 1))
    ctx.case(t.xyz, s.q, name, eps, smooth, **s.sample, rbf=name, epsilon=eps, smooth=smooth)
    got, count = t.tree.radial_basis_function(s.q, rbf=name if name != 'multiquadric' or rng.random() < .5 else None, epsilon=eps,
                                              smooth=smooth, **s.options())
    for i, d, o, w in s.rows(ctx, True, 'rbf', got, count):
        ctx.check(count[i] == len(d), 'rbf count', got_=count[i], want=len(d), **w)
        r = np.sqrt(((t.xyz[o][:, None] - t.xyz[o][None])**2).sum(-1))
        e = eps
        if name in scattered.ADJUSTABLE and e is None:
            if len(o) < 2 or r.max() == 0:
                continue
            e = r[np.triu_indices(len(o), 1)].mean()
        least = min(np.append(r[r > 0], d[d > 0]).min(initial=np.inf), e or np.inf)
        A = scattered.RBF[name](r, e) - smooth * np.eye(len(o))
        b = scattered.RBF[name](d, e)
        solved(ctx, s, least, A, b, t.values[o], got[i], count[i], 'rbf ' + name, w, t.values[o[0]] if d[0] == 0 and not smooth else None)


@section(1200)
def kriging(ctx, rng, native=0):
    s = Setting(rng, ctx, few=True, native=native)
    t = s.t
    name = str(rng.choice(list(scattered.COVARIANCE)))
    typical = float(np.median(s.d[s.d > 0])) if (s.d > 0).any() else t.scale
    alpha, sigma = float(typical * 10**rng.uniform(-1, .7)), float(10**rng.uniform(-1, 1))
    ctx.case(t.xyz, s.q, name, alpha, sigma, **s.sample, covariance=name, alpha=alpha, sigma=sigma)
    given = None if name == 'matern_32' and rng.random() < .5 else name
    got, count = t.tree.universal_kriging(s.q, covariance=given, alpha=alpha, sigma=sigma, **s.options())
    for i, d, o, w in s.rows(ctx, True, 'kriging', got, count):
        ctx.check(count[i] == len(d), 'kriging count', got_=count[i], want=len(d), **w)
        r = np.sqrt(((t.xyz[o][:, None] - t.xyz[o][None])**2).sum(-1))
        if name == 'spherical' and (abs(r - alpha) <= 3 * t.tol).any():
            continue
        A = scattered.COVARIANCE[name](r, sigma, alpha)
        b = scattered.COVARIANCE[name](d, sigma, alpha)
        solved(ctx, s, min(alpha, np.append(r[r > 0], d[d > 0]).min(initial=np.inf)), A, b, t.values[o], got[i], count[i], 'kriging ' + name, w, t.values[o[0]] if d[0] == 0 else None)


@section(1500, native='rtree')
def raw(ctx, rng):
    """The same, on the C++ trees of plain points of 2 and 3 dimensions."""
    native = int(rng.choice([2, 3]))
    method = [idw, window_function, rbf, kriging][int(rng.integers(0, 3 + (native == 3)))]
    ctx.count(f'C++ {native}-D {method.__name__}')
    method(ctx, rng, native)


@section(1500)
def limits(ctx, rng):
    """Whole coordinates: what is at the limit of the radius or on the border of the box is known exactly."""
    t, q, d2, k, radius, within, rows = trees.limits(ctx, rng)
    kw = dict(radius=radius, k=k, within=within, num_threads=1)
    p = int(rng.integers(0, 4))
    idw, n_idw = t.tree.inverse_distance_weighting(q, p=p, **kw)
    win, n_win = t.tree.window_function(q, wf='boxcar', **kw)
    n_rbf = t.tree.radial_basis_function(q, rbf='linear', **kw)[1]
    n_krg = t.tree.universal_kriging(q, covariance='exponential', alpha=float(rng.uniform(.5, 3)), **kw)[1]
    tol = 1e-4 if t.f32 else 1e-11
    for i, near, w in rows:
        ctx.check(n_rbf[i] == len(near) and n_krg[i] == len(near), 'limits count', rbf=n_rbf[i], kriging=n_krg[i], want_=len(near), **w)
        # the box of all the neighbours
        use = np.flatnonzero(d2[i] <= radius**2) if not within or trees.inside(t, q[i], np.arange(len(t.values))) else []
        ctx.check(n_win[i] == len(use), 'limits count', window=n_win[i], want_=len(use), **w)
        if len(use):
            ctx.check(abs(win[i] - t.values[use].mean()) <= tol * 100, 'limits boxcar', got_=win[i], want_=t.values[use].mean(), **w)
        if (d2[i] == 0).any():
            continue
        ctx.check(n_idw[i] == len(use), 'limits count', idw=n_idw[i], want_=len(use), **w)
        if len(use):
            a = d2[i][use]**(-p / 2)
            ctx.check(abs(idw[i] - (a * t.values[use]).sum() / a.sum()) <= tol * 100, 'limits idw', got_=idw[i], want_=(a * t.values[use]).sum() / a.sum(), p=p, **w)


@section(600, native='math')
def windows(ctx, rng):
    """The window functions themselves, beyond the radius too."""
    import vtn_math
    name = str(rng.choice(scattered.WINDOWS))
    r = float(10**rng.uniform(-3, 7))
    arg = scattered.window_argument(rng, name, r)
    d = np.concatenate([r * rng.uniform(0, 1, 20), r * rng.uniform(1, 5, 10), [0, r / 2, r, r * .999, r * 1.001, np.nextafter(r, np.inf)]])
    ctx.case(d, name, r, arg, window=name, radius=r, arg=arg)
    got = np.array(vtn_math.window(scattered.WINDOWS.index(name), d.tolist(), r, 1. if name == 'lanczos' and arg is None else arg or 0.))
    want = scattered.window(name, d, r, arg)
    ok = np.ones(len(d), bool)
    if name in scattered.BREAKS:
        ok &= abs(d - scattered.BREAKS[name](r, arg)) > 1e-12 * r
    if name == 'parzen' and arg:
        # its length is 2 r + arg
        ok &= (d <= r) | (d > r + arg / 2)
    if name == 'lanczos':
        ok &= abs(d - (arg or 1) * r) > 1e-12 * r
    ctx.all(abs(got - want)[ok] <= 1e-13, 'window values', window=name, d=d[ok], r=r, arg=arg, got_=got[ok], want_=want[ok])
    ctx.check(want[20 + 10] == got[30] or abs(got[30] - want[30]) < 1e-9, 'window at 0', got_=got[30], window=name)


@section(150)
def arguments(ctx, rng):
    t = trees.Tree(rng)
    t.add(rng, int(rng.integers(0, 12)), True)
    q = t.positions(rng, 3, True)
    ctx.case(t.xyz, q, ecef=t.ecef)
    tree = t.tree
    for f in (tree.inverse_distance_weighting, tree.window_function, tree.radial_basis_function, tree.universal_kriging):
        ctx.raises((ValueError,), lambda: f(np.zeros((2, 4))), 'arguments', 'too many coordinates')
        ctx.raises((ValueError,), lambda: f(np.zeros(2)), 'arguments', '1 dimension')
    ctx.raises((ValueError,), lambda: tree.window_function(q, wf='gaussian'), 'arguments', 'gaussian without argument')
    ctx.raises((ValueError,), lambda: tree.window_function(q, wf='lanczos', arg=.5), 'arguments', 'less than one lobe')
    ctx.raises((ValueError,), lambda: tree.window_function(q, wf='boxcar', arg=1.), 'arguments', 'useless argument')
    ctx.raises((ValueError,), lambda: tree.window_function(q, wf='nope'), 'arguments', 'unknown window')
    ctx.raises((ValueError,), lambda: tree.radial_basis_function(q, rbf='linear', epsilon=1.), 'arguments', 'useless epsilon')
    ctx.raises((ValueError,), lambda: tree.radial_basis_function(q, rbf='nope'), 'arguments', 'unknown function')
    ctx.raises((ValueError,), lambda: tree.universal_kriging(q, covariance='nope'), 'arguments', 'unknown covariance')
    ctx.raises((ValueError,), lambda: tree.universal_kriging(q, sigma=0.), 'arguments', 'sigma')
    ctx.raises((ValueError,), lambda: tree.universal_kriging(q, alpha=-1.), 'arguments', 'alpha')


@section(8, 48)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c19(ctx, rng)
