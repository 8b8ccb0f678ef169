"""Exact model of the geohash grid."""
from fractions import Fraction

import numpy as np

import gen

ALPHABET = '0123456789bcdefghjkmnpqrstuvwxyz'
EDGE = Fraction(1, 10**12)


def bits(precision):
    """(longitude bits, latitude bits)"""
    return precision - precision // 2, precision // 2


def wrap(lon):
    """Exact longitude in [-180, 180)."""
    return (Fraction(float(lon)) + 180) % 360 - 180


def interleave(i, j, precision):
    """Code of the cell (i, j): the first bit is one of longitude."""
    nx, ny = bits(precision)
    code = 0
    for k in range(precision):
        code <<= 1
        if k % 2 == 0:
            nx -= 1
            code |= (i >> nx) & 1
        else:
            ny -= 1
            code |= (j >> ny) & 1
    return code


def deinterleave(code, precision):
    i = j = 0
    for k in range(precision):
        bit = (code >> (precision - 1 - k)) & 1
        if k % 2 == 0:
            i = i << 1 | bit
        else:
            j = j << 1 | bit
    return i, j


def size(precision):
    nx, ny = bits(precision)
    return Fraction(360, 1 << nx), Fraction(180, 1 << ny)


def cell(code, precision):
    """Exact (x0, y0, x1, y1)."""
    i, j = deinterleave(code, precision)
    dx, dy = size(precision)
    return i * dx - 180, j * dy - 90, (i + 1) * dx - 180, (j + 1) * dy - 90


def codes(lon, lat, precision, edge=EDGE):
    """Set of the codes of the cells that contain the position (several if it
    is within rounding of an edge), the first is the exact one."""
    nx, ny = bits(precision)
    dx, dy = size(precision)
    x, y = wrap(lon) + 180, Fraction(float(lat)) + 90
    xs = [int((x + e) // dx) % (1 << nx) for e in (0, -edge, edge)]
    ys = [min(max(int((y + e) // dy), 0), (1 << ny) - 1) for e in (0, -edge, edge)]
    exact = interleave(xs[0], ys[0], precision)
    out = {interleave(a, b, precision) for a in xs for b in ys}
    return exact, out


def text(code, n):
    return ''.join(ALPHABET[(code >> (5 * (n - 1 - k))) & 31] for k in range(n))


def integer(word):
    out = 0
    for c in word:
        out = out << 5 | ALPHABET.index(c)
    return out


def rank(rng, n):
    """Number of a row or column: anywhere, or at any distance of the ends and the middle."""
    r = rng.random()
    if r < .5:
        return int(rng.integers(0, n))
    d = int(float(n)**rng.uniform(0, .999)) - 1
    if r < .65:
        return d
    if r < .8:
        return n - 1 - d
    return min(max(n // 2 + int(rng.choice([-1, 1])) * (d // 2) - int(rng.integers(0, 2)), 0), n - 1)


def positions(rng, n, precision=64):
    """Positions over the globe: anywhere, on edges of cells, beside them, at
    the poles, the antimeridian, out of [-180, 180)."""
    lon = rng.uniform(-180, 180, n)
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    for k in range(n):
        r = rng.random()
        if r < .25:
            p = int(rng.integers(1, min(precision, 40) + 1))
            dx, dy = size(p)
            lon[k] = float(int(rng.integers(0, 1 << bits(p)[0])) * dx - 180)
            lat[k] = float(int(rng.integers(0, (1 << bits(p)[1]) + 1)) * dy - 90)
            if rng.random() < .5:
                lon[k] += rng.choice([-1, 1]) * 10**rng.uniform(-15, -3)
                lat[k] += rng.choice([-1, 1]) * 10**rng.uniform(-15, -3)
        elif r < .35:
            lon[k] = rng.choice([-180, 180, 0, -90, 90, np.nextafter(180, 0), np.nextafter(-180, 0), 180 - 1e-9, -1e-18])
            if rng.random() < .5:
                lon[k] += rng.choice([-1, 1]) * 10**rng.uniform(-15, 0)
        elif r < .45:
            lat[k] = rng.choice([-90, 90, 0, np.nextafter(90, 0), np.nextafter(-90, 0), 90 - 1e-9, -90 + 1e-9, -0.0])
            if rng.random() < .5:
                lat[k] += rng.choice([-1, 1]) * 10**rng.uniform(-15, 0)
        if rng.random() < .2:
            lon[k] += 360 * rng.integers(-3, 4)
    lon, lat = gen.chain(rng, [lon, lat], .3, clip=False)
    return lon, np.clip(lat, -90, 90)
