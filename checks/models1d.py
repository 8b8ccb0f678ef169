"""Textbook 1-D interpolation models (dense, scalar)."""
import numpy as np

KINDS = ['linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'akima', 'akima_periodic', 'steffen']
MIN = dict(zip(KINDS, [2, 3, 4, 2, 5, 5, 3]))


def hermite(x, y, s, k, t):
    h = x[k + 1] - x[k]
    u = (t - x[k]) / h
    return (y[k] * (1 + 2 * u) * (1 - u)**2 + h * s[k] * u * (1 - u)**2 + y[k + 1] * u * u * (3 - 2 * u) - h * s[k + 1] *
            u * u * (1 - u))


def moments(x, y, periodic):
    """Second derivatives of the cubic spline (dense solve)."""
    n = len(x)
    h, d = np.diff(x), np.diff(y) / np.diff(x)
    if periodic:
        m = n - 1
        a = np.zeros((m, m))
        b = np.zeros(m)
        for i in range(m):
            p = (i - 1) % m
            a[i, p] += h[p]
            a[i, i] += 2 * (h[p] + h[i])
            a[i, (i + 1) % m] += h[i]
            b[i] = 6 * (d[i] - d[p])
        if m == 1:
            return np.zeros(2)
        s = np.linalg.solve(a, b)
        return np.append(s, s[0])
    a = np.eye(n)
    b = np.zeros(n)
    for i in range(1, n - 1):
        a[i, i - 1:i + 2] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        b[i] = 6 * (d[i] - d[i - 1])
    return np.linalg.solve(a, b)


def model(kind, x, y, t):
    """(value, tolerance) of the textbook interpolant of (x, y) at t, x[0] <= t <= x[-1]; None: not judged."""
    n = len(x)
    k = int(np.clip(np.searchsorted(x, t, side='right') - 1, 0, n - 2))
    top = float(np.abs(y).max())
    if kind == 'linear':
        u = (t - x[k]) / (x[k + 1] - x[k])
        return y[k] * (1 - u) + y[k + 1] * u, 1e-11 * top
    if kind == 'polynomial':
        xl = x.astype(np.longdouble)
        total, cond = np.longdouble(0), 0.0
        for i in range(n):
            o = np.delete(xl, i)
            li = np.prod((np.longdouble(t) - o) / (xl[i] - o))
            total += li * y[i]
            cond += abs(float(li)) * top
        # Newton's form: the error grows with its largest term
        c = y.astype(np.longdouble)
        terms, w = 0.0, np.longdouble(1)
        for i in range(n):
            terms = max(terms, abs(float(c[0] * w)))
            w *= (t - xl[i])
            c = np.diff(c)
            if i + 1 < n:
                c = c / (xl[i + 1:] - xl[:n - i - 1])
        gap = float(np.diff(x).max() / np.diff(x).min())
        return float(total), 1e-12 * max(cond, terms, top) * gap**min(n - 2, 3) * 2**n
    if kind.startswith('c_spline'):
        m = moments(x, y, kind.endswith('periodic'))
        h = x[k + 1] - x[k]
        a, b = (x[k + 1] - t) / h, (t - x[k]) / h
        v = a * y[k] + b * y[k + 1] + ((a**3 - a) * m[k] + (b**3 - b) * m[k + 1]) * h * h / 6
        return v, 1e-9 * (top + np.abs(m).max() * h * h)
    d = np.diff(y) / np.diff(x)
    if kind == 'steffen':
        s = np.empty(n)
        s[0], s[-1] = d[0], d[-1]
        h = np.diff(x)
        for i in range(1, n - 1):
            p = (d[i - 1] * h[i] + d[i] * h[i - 1]) / (h[i - 1] + h[i])
            if d[i - 1] * d[i] <= 0:
                s[i] = 0
            else:
                s[i] = np.sign(d[i]) * min(2 * abs(d[i - 1]), 2 * abs(d[i]), abs(p))
        return hermite(x, y, s, k, t), 1e-10 * (top + (np.abs(d) * np.diff(x)).max() * np.diff(x).max() / np.diff(x).min())
    if kind == 'akima':
        e = np.concatenate([[3 * d[0] - 2 * d[1], 2 * d[0] - d[1]], d, [2 * d[-1] - d[-2], 3 * d[-1] - 2 * d[-2]]])
    else:
        e = np.concatenate([d[-2:], d, d[:2]])
    s = np.empty(n)
    scale = np.abs(e).max()
    for i in (k, k + 1):
        m2, m1, p0, p1 = e[i:i + 4]
        w1, w2 = abs(p1 - p0), abs(m1 - m2)
        if w1 + w2 == 0:
            s[i] = (m1 + p0) / 2
        else:
            if w1 + w2 < 1e-4 * scale and abs(m1 - p0) > 1e-9 * scale:
                return None
            s[i] = (w1 * m1 + w2 * p0) / (w1 + w2)
    h = x[k + 1] - x[k]
    # exactly zero weights may be tiny in another evaluation order
    for i in (k, k + 1):
        m2, m1, p0, p1 = e[i:i + 4]
        if abs(p1 - p0) + abs(m1 - m2) == 0 and abs(m1 - p0) > 1e-9 * scale and scale * h > 0:
            return None
    return hermite(x, y, s, k, t), 1e-8 * (top + scale * h)


def spline_slopes(x, y):
    """First derivatives at the knots of the natural cubic spline."""
    m = moments(x, y, False)
    h, d = np.diff(x), np.diff(y) / np.diff(x)
    s = np.empty(len(x))
    s[:-1] = d - h * (2 * m[:-1] + m[1:]) / 6
    s[-1] = d[-1] + h[-1] * (m[-2] + 2 * m[-1]) / 6
    return s


def bicubic(x, y, z, tx, ty):
    """Bicubic patch whose derivatives are those of natural splines."""
    zx = np.stack([spline_slopes(x, z[:, j]) for j in range(len(y))], axis=1)
    zy = np.stack([spline_slopes(y, z[i]) for i in range(len(x))])
    zxy = np.stack([spline_slopes(x, zy[:, j]) for j in range(len(y))], axis=1)
    i = int(np.clip(np.searchsorted(x, tx, side='right') - 1, 0, len(x) - 2))
    j = int(np.clip(np.searchsorted(y, ty, side='right') - 1, 0, len(y) - 2))

    def basis(a, b, t):
        h = b - a
        u = (t - a) / h
        return np.array([(1 + 2 * u) * (1 - u)**2, u * u * (3 - 2 * u), h * u * (1 - u)**2, -h * u * u * (1 - u)])

    m = np.block([[z[i:i + 2, j:j + 2], zy[i:i + 2, j:j + 2]], [zx[i:i + 2, j:j + 2], zxy[i:i + 2, j:j + 2]]])
    v = basis(x[i], x[i + 1], tx) @ m @ basis(y[j], y[j + 1], ty)
    hx, hy = x[i + 1] - x[i], y[j + 1] - y[j]
    top = np.abs(z).max() + np.abs(zx).max() * hx + np.abs(zy).max() * hy + np.abs(zxy).max() * hx * hy
    return float(v), 1e-9 * float(top)


def surface(kind, x, y, z, tx, ty):
    """(value, tolerance) of the 2-D windowed interpolation; None: not judged."""
    if kind == 'bicubic':
        return bicubic(x, y, z, tx, ty)
    col = [model(kind, x, z[:, j], tx) for j in range(len(y))]
    if any(c is None for c in col):
        return None
    v = model(kind, y, np.array([c[0] for c in col]), ty)
    if v is None:
        return None
    ratio = float(np.diff(y).max() / np.diff(y).min())
    amp = 10.0
    if kind == 'polynomial':
        amp = ratio**3 * 2**len(y)
    elif kind.startswith('akima') or kind == 'steffen':
        # the slopes jump when a weight changes sign: tiny errors of the
        # columns are amplified by the inverse of the weights
        amp = 1e3 * ratio
    return v[0], v[1] + amp * max(c[1] for c in col)
