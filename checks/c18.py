"""C18: R-tree queries return the exact nearest neighbours."""
import copy
import pickle

import numpy as np
import pyinterp

import trees
import large
from vt import section

PARTS = ['rtree', 'geodetic']
NATIVE = ['rtree']
RULE = ('A case is one R-tree (Cartesian or geographic, float32 or float64) filled through a random history of packing, insert, clear '
        'and copies, then queried; every answer is judged against a brute-force search over the model of its content. Non-trivial: '
        'at least one answer was judged.')
ASSUMES = ['neighbours whose distances differ by less than the rounding of the coordinates may be permuted',
           'a point closer to the box of its neighbours than the rounding of the coordinates may be inside or outside']


def neighbours(ctx, t, xyz, dist, ids, order, d, k, key, w):
    """One row of an answer: k' found neighbours, sorted, distinct, true."""
    n = len(ids)
    ctx.check(n == min(k, len(t.values)), key + ' count', got_=n, want=min(k, len(t.values)), **w)
    idx = (ids - 7).astype(int)
    ok = (idx >= 0) & (idx < len(t.values))
    if not ctx.check(ok.all() and len(set(idx.tolist())) == n, key + ' identity', got_=ids, **w):
        return
    ctx.all(abs(np.sqrt(((t.xyz[idx] - xyz)**2).sum(-1)) - d[:n]) <= t.tol, key + ' nearest', got_=ids, want=order + 7, distances=d, **w)
    if dist is not None:
        ctx.all(abs(dist - d[:n]) <= t.tol, key + ' distance', got=np.asarray(dist, 'float64'), want=d[:n], **w)
        ctx.check((np.diff(dist) >= -t.tol).all(), key + ' order', got_=dist, **w)


@section(2500)
def query(ctx, rng):
    t = trees.Tree(rng)
    steps = t.history(rng)
    n = int(rng.choice([0, 1, 2, 5, 12], p=[.04, .16, .2, .3, .3]))
    q = t.positions(rng, n, True)
    k = int(rng.choice([1, 2, 3, 4, 8, 9, 20, len(t.values) + 3], p=[.15, .1, .1, .2, .1, .1, .1, .15]))
    k = max(min(k, 60), 1)
    threads = int(rng.choice([0, 1, 2]))
    within = rng.random() < .5
    ctx.case(t.xyz, q, k, within, ecef=t.ecef, dtype=str(t.dtype), steps=steps, k=k, within=within, n=n)
    ctx.check(len(t.tree) == len(t.values) and bool(t.tree) == bool(len(t.values)), 'len', got_=len(t.tree), want=len(t.values), steps=steps)
    dist, vals = t.tree.query(q, k=k, within=within, num_threads=threads)
    ctx.check(dist.shape == (n, k) and vals.shape == (n, k), 'shape', got_=(dist.shape, vals.shape))
    xyz = t.convert(q)
    d, order = t.nearest(xyz, k + 1)
    for i in range(n):
        w = dict(query=q[i], ecef=t.ecef, steps=steps)
        found = int((vals[i] != -1).sum())
        ctx.check((vals[i][found:] == -1).all() and (dist[i][found:] == -1).all() and (dist[i][:found] >= 0).all(), 'padding',
                  got_=(dist[i], vals[i]), **w)
        if within:
            tie = len(d[i]) > k and d[i][k] - d[i][k - 1] <= 3 * t.tol
            inside = -1 if tie else t.surrounded(xyz[i], order[i][:k], 3 * t.tol)
            ctx.count({1: 'surrounded', 0: 'not surrounded', -1: 'too close to tell'}[inside])
            if inside == 0:
                ctx.check(found == 0, 'within', 'point not surrounded', got_=vals[i], **w)
            if inside == 0 or (inside == -1 and not found):
                continue
        neighbours(ctx, t, xyz[i], dist[i][:found], vals[i][:found], order[i], d[i], k, 'query', w)


@section(1800)
def value(ctx, rng):
    t = trees.Tree(rng)
    steps = t.history(rng)
    n = int(rng.choice([0, 1, 2, 5, 12], p=[.04, .16, .2, .3, .3]))
    q = t.positions(rng, n, True)
    k = int(rng.choice([1, 2, 3, 4, 8, 20]))
    xyz = t.convert(q)
    d, order = t.nearest(xyz, k + 1)
    radius = None
    if rng.random() < .6:
        radius = float(np.quantile(d, rng.random()) * rng.uniform(.8, 1.2)) if d.size else t.scale
        if radius == 0:
            radius = t.scale
    within = rng.random() < .4
    ctx.case(t.xyz, q, k, radius, within, ecef=t.ecef, dtype=str(t.dtype), steps=steps, k=k, radius=radius, within=within, n=n)
    coords, vals = t.tree.value(q, radius, k, within, int(rng.choice([0, 1, 2])))
    m = q.shape[1]
    ctx.check(coords.shape == (n, k, m) and vals.shape == (n, k), 'value shape', got_=(coords.shape, vals.shape))
    for i in range(n):
        w = dict(query=q[i], ecef=t.ecef, steps=steps, radius=radius)
        found = int((~np.isnan(vals[i])).sum())
        ctx.check(np.isnan(vals[i][found:]).all() and np.isnan(coords[i][found:]).all() and np.isfinite(coords[i][:found]).all(),
                  'value padding', got_=vals[i], **w)
        near = d[i][:k]
        if radius is not None:
            if (abs(near - radius) <= 3 * t.tol).any():
                continue
            near = near[near <= radius]
        if within:
            tie = len(d[i]) > k and d[i][k] - d[i][k - 1] <= 3 * t.tol
            inside = -1 if tie else t.surrounded(xyz[i], order[i][:len(near)], 3 * t.tol)
            if inside == 0:
                ctx.check(found == 0, 'value within', 'point not surrounded', got_=vals[i], **w)
            if inside == 0 or (inside == -1 and not found):
                continue
        neighbours(ctx, t, xyz[i], None, vals[i][:found], order[i], np.concatenate([near, np.full(k, np.inf)]),
                   min(k, len(near)), 'value', w)
        idx = (vals[i][:found] - 7).astype(int)
        idx = idx[(idx >= 0) & (idx < len(t.values))]
        if len(idx) != found:
            continue
        c = coords[i][:found].astype('float64')
        if m == 2:
            # the third coordinate is not returned: only judge points which are in the plane
            flat = t.user[idx][:, 2] == 0
            c, idx = np.column_stack([c, np.zeros(found)])[flat], idx[flat]
        ctx.all(np.sqrt(((t.convert_exact(c) - t.xyz[idx])**2).sum(-1)) <= t.tol * 3, 'value coordinates', got_=c, want_=t.user[idx], **w)


@section(1200)
def bounds(ctx, rng):
    t = trees.Tree(rng)
    steps = t.history(rng)
    ctx.case(t.xyz, ecef=t.ecef, dtype=str(t.dtype), steps=steps)
    b = t.tree.bounds()
    if not len(t.values):
        ctx.check(b == (), 'empty bounds', got_=b, steps=steps)
        return
    lo, hi = np.array(b[0], 'float64'), np.array(b[1], 'float64')
    ctx.check(lo.shape == (3,) and hi.shape == (3,), 'bounds shape', got_=b)
    if t.ecef:
        ctx.close(lo, t.xyz.min(0), 'bounds', atol=t.tol)
        ctx.close(hi, t.xyz.max(0), 'bounds', atol=t.tol)
        return
    u = t.user
    deg = np.degrees(t.tol / 6e6)
    ctx.check(abs(lo[1] - u[:, 1].min()) <= 2 * deg and abs(hi[1] - u[:, 1].max()) <= 2 * deg, 'bounds latitude', got_=b, steps=steps)
    tol = 10 * t.tol if t.f32 else 1e-7
    ctx.check(abs(lo[2] - u[:, 2].min()) <= tol and abs(hi[2] - u[:, 2].max()) <= tol, 'bounds altitude', got_=b, want=(u[:, 2].min(),
              u[:, 2].max()), steps=steps)
    lon = (u[:, 0] + 180) % 360 - 180
    far = 3 * deg / np.cos(np.radians(np.minimum(abs(u[:, 1]), 89.999))).min()
    if abs(u[:, 1]).max() < 89.9 and (180 - abs(lon)).min() > far:
        ctx.check(abs(lo[0] - lon.min()) <= far and abs(hi[0] - lon.max()) <= far, 'bounds longitude', got_=b, want=(lon.min(), lon.max()))
    else:
        ctx.check(-180 <= lo[0] <= hi[0] <= 180, 'bounds longitude range', got_=b)


@section(1500, native='rtree')
def raw(ctx, rng):
    """The C++ trees of plain points of 2 and 3 dimensions."""
    native = int(rng.choice([2, 3]))
    t = trees.Tree(rng, native=native)
    steps = t.history(rng)
    raw, size = t.tree.raw, len(t.values)
    n = int(rng.choice([1, 2, 5, 12]))
    q = t.positions(rng, n, True)
    xyz = t.convert(q)
    k = max(min(int(rng.choice([1, 2, 3, 4, 8, 9, 20, size + 3])), 60), 1)
    d, order = t.nearest(xyz, size)
    radius = float(np.quantile(d, rng.random()) * rng.uniform(.8, 1.2)) if d.size else t.scale
    ctx.case(t.xyz, q, k, radius, native, steps=steps, k=k, radius=radius, dims=native, n=n)
    ctx.check(raw.size() == size and raw.empty() == (not size), 'C++ size', got_=raw.size(), want_=size, steps=steps)
    box = raw.bounds()
    if size:
        ctx.close(np.array(box[0]), t.xyz.min(0)[:native], 'C++ bounds', atol=0)
        ctx.close(np.array(box[1]), t.xyz.max(0)[:native], 'C++ bounds', atol=0)
    else:
        ctx.check(box == [], 'C++ bounds', 'of nothing', got_=box)
    copy_ = raw.copy()
    for i, x in enumerate(t.tree._points(q)):
        w = dict(query=x, steps=steps, dims=native)
        tie = size > k and d[i][k] - d[i][k - 1] <= 3 * t.tol

        def judge(answer, key, most, within=0, dist=True):
            """within: 0 no, 1 the box of the k neighbours, 2 of those in the radius"""
            a = np.array([r[1] for r in answer], 'float64')
            e = np.array([r[0] for r in answer], 'float64') if dist else None
            near = d[i][:k] if most is None else d[i][:k][d[i][:k] <= most]
            if most is not None and (abs(d[i][:k] - most) <= 3 * t.tol).any():
                ctx.count('at the limit of the radius')
                return
            if within:
                inside = -1 if tie else t.surrounded(xyz[i], order[i][:len(near)], 3 * t.tol)
                if inside == 0:
                    ctx.check(not len(a), key + ' within', 'point not surrounded', got_=a, **w)
                if inside == 0 or (inside == -1 and not len(a)):
                    return
            neighbours(ctx, t, xyz[i], e, a, order[i], np.concatenate([near, np.full(k, np.inf)]), min(k, len(near)), key, w)

        judge(raw.query(x, k), 'C++ query', None)
        judge(raw.query_within(x, k), 'C++ query_within', None, 1)
        for r in (None, radius):
            for within in (False, True):
                rows = raw.value(x, r, k, within)
                judge([(0, v) for _, v in rows], 'C++ value', r, 2 * within, False)
                for c, v in rows:
                    ctx.check(c == t.xyz[int(v) - 7][:native].tolist(), 'C++ value coordinates', got_=c, value=v, **w)
        for within in (False, True):
            c, v = raw.nearest(x, radius, k, within)
            v = np.ravel(v)
            judge([(0, u) for u in v], 'C++ nearest', radius, 2 * within, False)
            ctx.check(np.shape(c) == (native, len(v)), 'C++ nearest shape', got_=np.shape(c), **w)
            ctx.all(np.asarray(c).T == t.xyz[v.astype(int) - 7][:, :native], 'C++ nearest coordinates', got_=c, values=v, **w)
        # no limit of number, and no order
        if not (abs(d[i] - radius) <= 3 * t.tol).any():
            ball = raw.query_ball(x, radius)
            ids = np.array([r[1] for r in ball], 'float64')
            want = np.sort(order[i][d[i] <= radius]) + 7
            ctx.equal(np.sort(ids), want.astype('float64'), 'C++ query_ball', **w)
            if len(ids) == len(want):
                ctx.all(abs(np.array([r[0] for r in ball]) - t.distances(xyz[i:i + 1])[0][ids.astype(int) - 7]) <= t.tol,
                        'C++ query_ball distance', got_=ball, **w)
        ctx.check(copy_.query(x, k) == raw.query(x, k), 'C++ copy', **w)


@section(800)
def limits(ctx, rng):
    """Whole coordinates: what is at the limit of the radius or on the border of the box is known exactly."""
    t, q, d2, k, radius, within, rows = trees.limits(ctx, rng)
    got = t.tree.value(q, radius, k, within, 1)[1]
    for i, near, w in rows:
        ctx.equal(np.sort(got[i][~np.isnan(got[i])].astype('float64')), np.sort(t.values[near]), 'value limits', **w)
    if rng.random() < .5:
        got = t.tree.query(q, k=k, within=within)[1]
        for i, near, w in rows:
            if within and not trees.inside(t, q[i], np.arange(len(t.values))):
                ctx.check((got[i] == -1).all(), 'query limits', got_=got[i], **w)
            else:
                ctx.equal(np.sort(got[i][got[i] != -1].astype('float64')), np.sort(t.values), 'query limits', **w)


@section(500)
def history(ctx, rng):
    """The same points give the same answers whatever the history."""
    seed = int(rng.integers(1 << 30))
    a = trees.Tree(np.random.default_rng(seed))
    n = int(rng.choice([3, 20, 60, 400]))
    a.add(np.random.default_rng(seed), n, True)
    b = trees.Tree(np.random.default_rng(seed))
    c = a.user
    p = rng.permutation(n)
    if rng.random() < .5:  # rubbish first, replaced by a packing
        b.tree.insert(np.ones((5, 3)), np.ones(5))
        b.tree.packing(c[p[:n // 2]], a.values[p[:n // 2]])
    else:
        b.tree.insert(np.ones((5, 3)), np.ones(5))
        b.tree.clear()
        b.tree.insert(c[p[:n // 2]], a.values[p[:n // 2]])
    if rng.random() < .3:
        b.tree = pickle.loads(pickle.dumps(b.tree))
    for part in np.array_split(p[n // 2:], int(rng.integers(1, 4))):
        b.tree.insert(c[part], a.values[part])
    q = a.positions(rng, 8, True)
    k = int(rng.choice([1, 4, 9]))
    ctx.case(c, q, p, k, n=n, k=k)
    ctx.check(len(a.tree) == len(b.tree) == n, 'history len', got_=(len(a.tree), len(b.tree)))
    da, va = a.tree.query(q, k=k, within=False)
    db, vb = b.tree.query(q, k=k, within=False)
    ctx.close(db, da.astype('float64'), 'history distances', atol=0, rtol=1e-12 if not a.f32 else 1e-6)
    for i in range(len(q)):
        if (np.diff(da[i]) > a.tol).all():
            ctx.equal(vb[i][:-1], va[i][:-1], 'history values', query=q[i])


@section(100)
def arguments(ctx, rng):
    t = trees.Tree(rng)
    t.add(rng, int(rng.integers(0, 20)), True)
    before = len(t.tree)
    n = int(rng.integers(1, 6))
    ctx.case(t.xyz, n, ecef=t.ecef)
    for f in (t.tree.packing, t.tree.insert):
        ctx.raises((ValueError,), lambda: f(np.zeros((n, 4)), np.zeros(n)), 'arguments', 'too many coordinates')
        ctx.raises((ValueError,), lambda: f(np.zeros((n, 1)), np.zeros(n)), 'arguments', 'too few coordinates')
        ctx.raises((ValueError,), lambda: f(np.zeros((n, 2)), np.zeros(n + 1)), 'arguments', 'sizes')
        ctx.raises((ValueError,), lambda: f(np.zeros((n, 3)), np.zeros((n, 1))), 'arguments', 'values of 2 dimensions')
        ctx.raises((ValueError,), lambda: f(np.zeros(3), np.zeros(1)), 'arguments', 'coordinates of 1 dimension')
    ctx.check(len(t.tree) == before, 'arguments', 'an error changed the tree')
    for f in (t.tree.query, t.tree.value):
        ctx.raises((ValueError,), lambda: f(np.zeros((n, 4))), 'arguments', 'too many coordinates')
        ctx.raises((ValueError,), lambda: f(np.zeros(3)), 'arguments', '1 dimension')
    ctx.raises((ValueError,), lambda: pyinterp.RTree(pyinterp.geodetic.Spheroid(), ecef=True), 'arguments', 'system and ecef')
    ctx.raises((ValueError,), lambda: pyinterp.RTree(dtype=np.dtype('int32')), 'arguments', 'dtype')


@section(6, 36)
def large_arrays(ctx, rng):
    """Long arrays and objects of many items."""
    large.c18(ctx, rng)
