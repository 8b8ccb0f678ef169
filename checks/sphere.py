"""Small spherical geometry for oracles: gnomonic maps and polygons."""
import numpy as np


def xyz(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


class Gnomonic:
    """Map of a hemisphere around (lon0, lat0) where great circles are straight
    lines; unit: degrees next to the centre."""

    def __init__(self, lon0, lat0):
        lo, la = np.radians(lon0), np.radians(lat0)
        self.c = xyz(lon0, lat0)
        self.e = np.array([-np.sin(lo), np.cos(lo), 0])
        self.n = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])

    def __call__(self, lon, lat):
        v = xyz(np.asarray(lon, dtype='float64'), np.asarray(lat, dtype='float64'))
        w = v @ self.c
        with np.errstate(all='ignore'):
            out = np.degrees(np.stack([v @ self.e, v @ self.n], -1) / w[..., None])
        out[w < .1] = np.inf
        return out

    def inverse(self, p):
        p = np.radians(np.asarray(p, dtype='float64'))
        v = self.c + p[..., :1] * self.e + p[..., 1:] * self.n
        v /= np.linalg.norm(v, axis=-1, keepdims=True)
        return np.degrees(np.arctan2(v[..., 1], v[..., 0])), np.degrees(np.arcsin(v[..., 2]))


def inside(ring, p):
    """Even-odd rule, planar: ring (n, 2) closed or not, p (m, 2)."""
    a, b = ring, np.roll(ring, -1, axis=0)
    x, y = p[:, 0, None], p[:, 1, None]
    with np.errstate(all='ignore'):
        cross = (a[:, 1] > y) != (b[:, 1] > y)
        at = a[:, 0] + (y - a[:, 1]) / (b[:, 1] - a[:, 1]) * (b[:, 0] - a[:, 0])
        return (np.sum(cross & (x < at), axis=1) % 2).astype(bool)


def edge_distance(ring, p):
    """Planar distance of points to the edges of a ring."""
    a, b = ring, np.roll(ring, -1, axis=0)
    d = b - a
    l2 = np.maximum((d * d).sum(-1), 1e-300)
    t = np.clip(((p[:, None] - a) * d).sum(-1) / l2, 0, 1)
    q = a + t[..., None] * d
    return np.sqrt(((p[:, None] - q)**2).sum(-1)).min(axis=1)


def star(rng, n, r0, r1, centre=(0, 0), phase=0):
    """Star-shaped ring (counter-clockwise), planar."""
    t = np.sort(rng.uniform(0, 2 * np.pi, n))
    while np.max(np.diff(np.append(t, t[0] + 2 * np.pi))) > 2.6:
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
    r = rng.uniform(r0, r1, n)
    return np.stack([centre[0] + r * np.cos(t), centre[1] + r * np.sin(t)], -1)
