"""Shared generators."""
import numpy as np


def axis_values(rng, n=None, kind=None, order=None, scale=None, origin=None):
    """Strictly monotonic vector, clearly regular or clearly irregular.
    Returns (values, info)."""
    n = int(rng.choice([2, 3, 4, 5, 7, 10, 17, 33, 64, 200, 1000], p=[.1, .1, .1, .1, .15, .15, .1, .08, .06, .05, .01])) if n is None else n
    kind = str(rng.choice(['regular', 'irregular'])) if kind is None else kind
    order = str(rng.choice(['asc', 'desc'])) if order is None else order
    scale = float(10.0**rng.uniform(-2, 4)) if scale is None else scale
    origin = float(
        rng.choice([0.0, 1.0, -1.0]) * 10.0**rng.uniform(-1, 4) *
        (1 if rng.random() < .8 else 0)) if origin is None else origin
    if rng.random() < .3:
        scale = float(rng.choice([1.0, 0.5, 0.25, 2.0, 10.0, 0.1]))
        origin = float(np.round(origin))
    if kind == 'regular':
        x = origin + np.arange(n) * scale
    else:
        how = int(rng.integers(0, 4))
        if how == 0 and n > 2:  # regular but for one value
            gaps = np.full(n - 1, scale)
            k = int(rng.integers(0, n - 1))
            gaps[k] *= rng.choice([0.5, 1.5, 3.0, 0.9])
            if k and rng.random() < .5:
                gaps[k - 1] += scale - gaps[k]
                if gaps[k - 1] <= 0:
                    gaps[k - 1] = scale * 0.2
        elif how == 1:  # geometric
            gaps = scale * np.exp(np.linspace(0, rng.uniform(-8, 8), n - 1))
        else:
            gaps = scale * np.exp(rng.uniform(-1.5, 1.5, n - 1))
        if n > 2 and how > 0:
            gaps[0] = gaps[1] * 1.7
        x = origin + np.concatenate([[0.0], np.cumsum(gaps)])
        if n == 2:
            kind = 'regular'
    if order == 'desc':
        x = x[::-1].copy()
    return x, {'n': n, 'kind': kind, 'order': order}


def axis_queries(rng, x, n=64):
    """Points inside, on, between and outside of an axis."""
    lo, hi = x.min(), x.max()
    span = hi - lo
    s = np.sort(x)
    mid = 0.5 * (s[1:] + s[:-1])
    d = np.diff(s)
    parts = [
        rng.uniform(lo - 0.1 * span, hi + 0.1 * span, n),
        rng.choice(x, min(n, 16)),
        np.nextafter(rng.choice(x, 8), np.inf),
        np.nextafter(rng.choice(x, 8), -np.inf),
        rng.choice(mid, min(n, 8)),
        [lo, hi, np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf)],
        [lo - d[0] * 0.4, hi + d[-1] * 0.4, lo - d[0] * 0.6, hi + d[-1] * 0.6],
        [lo - 3 * span, hi + 3 * span, lo - 1e6 * span, hi + 1e6 * span],
    ]
    return np.concatenate([np.asarray(p, dtype='float64') for p in parts])


def circle_values(rng, n=None, kind=None, order=None, cover=True):
    """Longitudes covering 360 degrees."""
    if n is None:
        n = int(rng.choice([4, 5, 8, 12, 36, 60, 90, 180, 360]))
    kind = str(rng.choice(['regular', 'irregular'
                           ])) if kind is None else kind
    order = str(rng.choice(['asc', 'desc'], p=[.6, .4
                                               ])) if order is None else order
    origin = float(rng.choice([0, -180, rng.uniform(-360, 360), 0.5, 180, 100]))
    step = 360.0 / n
    x = origin + np.arange(n) * step
    if kind == 'irregular':
        x = x + rng.uniform(-0.3, 0.3, n) * step
        x[0], x[-1] = origin, origin + 360 - step * rng.uniform(0.8, 1.0)
        if n > 3:
            x[1] = x[0] + step * 0.6
    if order == 'desc':
        x = x[::-1].copy()
    return x, {'n': n, 'kind': kind, 'order': order, 'origin': origin}


def chain(rng, columns, p=.4, clip=True):
    """The same columns of coordinates, where (with probability p) many items
    repeat the one before, or lie at a small distance of it: what is kept from
    one item to the next is then right for the first and wrong for the second.
    The values stay between the ends of those that were given."""
    columns = [np.array(c) for c in columns]
    n = len(columns[0]) if columns else 0
    if n < 2 or rng.random() > p:
        return columns
    repeat = rng.random(n) < rng.choice([.2, .5, .9])
    repeat[0] = False
    source = np.maximum.accumulate(np.where(repeat, 0, np.arange(n)))
    for k, c in enumerate(columns):
        move = repeat & (rng.random(n) < rng.choice([0, .5, 1]))
        if c.dtype.kind == 'f':
            with np.errstate(all='ignore'):
                lo, hi = np.nanmin(c), np.nanmax(c)
                d = rng.normal(size=n) * 10.0**rng.uniform(-14, 0, n) * rng.choice([1, min(max(hi - lo, 1e-300), 1e300) if np.isfinite(hi - lo) else 1])
                v = c[source] + np.where(move, d, 0)
                out = np.where(repeat & np.isfinite(v), np.clip(v, lo, hi) if clip else v, c[source]).astype(c.dtype)
        elif c.dtype.kind in 'iu':
            lo, hi = int(c.min()), int(c.max())
            out = c[source]
            for i in np.flatnonzero(move):
                w = int(out[i]) + int(rng.integers(-1, 2)) * (1 << int(rng.integers(0, max((hi - lo).bit_length(), 1))))
                out[i] = min(max(w, lo), hi)
        else:
            out = c[source]
        columns[k] = out
    return columns
