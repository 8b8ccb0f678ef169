"""Definitions of the interpolators of scattered data (c19, c20)."""
import numpy as np


def window(name, d, r, arg):
    d = np.asarray(d, 'float64')
    with np.errstate(all='ignore'):
        x = (d + r) / r
        t = d / r
        c = [np.cos(np.pi * j * x) for j in range(5)]
        if name == 'boxcar':
            w = np.ones_like(d)
        elif name == 'hamming':
            w = 0.53836 - 0.46164 * c[1]
        elif name == 'blackman':
            w = 7938 / 18608 - 9240 / 18608 * c[1] + 1430 / 18608 * c[2]
        elif name == 'blackman_harris':
            w = 0.35875 - 0.48829 * c[1] + 0.14128 * c[2] - 0.01168 * c[3]
        elif name == 'flat_top':
            w = 0.21557895 - 0.41663158 * c[1] + 0.277263158 * c[2] - 0.083578947 * c[3] + 0.006947368 * c[4]
        elif name == 'nuttall':
            w = 0.3635819 - 0.4891775 * c[1] + 0.1365995 * c[2]
        elif name == 'gaussian':
            w = np.exp(-.5 * (d / arg)**2)
        elif name == 'lanczos':
            n = 1 if arg is None else arg
            return np.where(d <= n * r, np.sinc(t) * np.sinc(t / n), 0)
        elif name == 'parzen':
            s = 0 if arg is None else arg
            w = np.where(d <= (2 * r + s) / 4, 1 - 6 * t**2 * (1 - t), 2 * (1 - t)**3)
        elif name == 'parzen_swot':
            w = np.where(d <= r / 2, 1 - 6 * t**2 + 6 * t**3, 2 * (1 - t)**3)
        return np.where(d <= r, w, 0)


WINDOWS = ('blackman', 'blackman_harris', 'boxcar', 'flat_top', 'gaussian', 'hamming', 'lanczos', 'nuttall', 'parzen', 'parzen_swot')
BREAKS = {'parzen': lambda r, a: (2 * r + (a or 0)) / 4, 'parzen_swot': lambda r, a: r / 2}


def window_argument(rng, name, r):
    if name == 'gaussian':
        return float(r * rng.uniform(.3, 2))
    if name == 'lanczos':
        return None if rng.random() < .4 else float(rng.uniform(1, 4))
    if name == 'parzen':
        return None if rng.random() < .5 else float(r * rng.uniform(0, .3))
    return None


RBF = {
    'cubic': lambda r, e: r**3,
    'gaussian': lambda r, e: np.exp(-(r / e)**2),
    'inverse_multiquadric': lambda r, e: 1 / np.sqrt(1 + (r / e)**2),
    'linear': lambda r, e: r,
    'multiquadric': lambda r, e: np.sqrt(1 + (r / e)**2),
    'thin_plate': lambda r, e: np.where(r > 0, r**2 * np.log(np.where(r > 0, r, 1)), 0),
}
ADJUSTABLE = ('gaussian', 'inverse_multiquadric', 'multiquadric')

COVARIANCE = {
    'matern_12': lambda d, s, a: s * s * np.exp(-d / a),
    'matern_32': lambda d, s, a: s * s * (1 + np.sqrt(3) * d / a) * np.exp(-np.sqrt(3) * d / a),
    'matern_52': lambda d, s, a: s * s * (1 + np.sqrt(5) * d / a + 5 / 3 * (d / a)**2) * np.exp(-np.sqrt(5) * d / a),
    'whittle_matern': lambda d, s, a: s * s * (1 + np.sqrt(3) * d / a) * np.exp(-np.sqrt(3) * d / a),
    'cauchy': lambda d, s, a: s * s / (1 + (d / a)**2),
    'exponential': lambda d, s, a: s * s * np.exp(-d / a),
    'spherical': lambda d, s, a: np.where(d <= a, s * s * (1 - 1.5 * d / a + .5 * (d / a)**3), 0),
    'gaussian': lambda d, s, a: s * s * np.exp(-(d / a)**2),
}


def solve(A, b, y, eps):
    """b . A^-1 y and a bound of its rounding error, None when meaningless."""
    with np.errstate(all='ignore'):
        if not np.isfinite(A).all() or not len(A):
            return None
        cond = np.linalg.cond(A)
        if not cond < 1e12:
            return None
        w = np.linalg.solve(A, y)
    scale = (abs(b) * abs(w)).sum() + abs(y).max()
    err = 30 * len(A) * cond * eps * scale
    return float(b @ w), err, scale
