"""Calls everything the extension exposes with anything it accepts (c11, c12).

The signatures are read from the docstrings pybind11 writes; arguments are
made from their types, objects come from a pool that the calls feed."""
import re

import numpy as np
from pyinterp import core

SIG = re.compile(r'^(?:\d+\. )?(\w+)\((.*)\) -> (.*)$', re.M)
MODULES = [core, core.dateutils, core.fill, core.geodetic, core.geohash, core.geohash.int64]
ENUMS = {'pyinterp.core.fill.ValueType', 'pyinterp.core.fill.FirstGuess', 'pyinterp.core.RadialBasisFunction', 'pyinterp.core.WindowFunction',
         'pyinterp.core.CovarianceFunction', 'pyinterp.core.AxisBoundary', 'pyinterp.core.AxisKind'}
SKIP = {'__init_subclass__', '__subclasshook__', '__dir__', '__class__', '__getattribute__', '__setattr__', '__delattr__', '__format__', '__sizeof__', '__reduce_ex__'}
WORDS = {
    'strategy': ['andoyer', 'thomas', 'vincenty', 'andoyer', 'x'], 'fitting_model': ['akima_periodic', 'akima', 'bicubic', 'c_spline_periodic', 'c_spline', 'linear', 'polynomial', 'steffen', 'x'],
    'boundary': ['expand', 'wrap', 'sym', 'undef', 'x'], 'boundary_type': ['expand', 'wrap', 'sym', 'undef'], 'method': ['linear', 'nearest', 'bilinear', 'x', 'linear'], 'z_method': ['linear', 'nearest', 'x'],
    'u_method': ['linear', 'nearest', 'x'], 'area_strategy': ['andoyer', 'thomas'], 'resolution': ['s', 'ns', 'D', 'us', 'Y', 'M', 'x', ''], 'dtype': ['datetime64[s]', 'datetime64[ns]', 'M8[D]', 'x'],
    'units': ['s', 'ns', 'D', 'x'],
}
TEXTS = ['', 'x', 'POLYGON((0 0,0 5,5 5,5 0,0 0))', 'POINT(1 2)', 'BOX(0 0,1 1)', 'LINESTRING(0 0,1 2,3 4)', 'MULTIPOLYGON(((0 0,0 5,5 5,5 0,0 0)))', 'POLYGON((', 'POLYGON EMPTY',
         '{"type": "Point"}', 'e6', 'u09tvw0', 'zzzzzzzzzzzz', 'zzzzzzzzzzzzz', 'ail', '2020-01-01', 's', 'ns', 'M8[ns]', '\x00\xff', 'é' * 5, '0' * 12]
SPECIAL = np.array([np.nan, np.inf, -np.inf, 0., -0., 1e300, -1e300, 5e-324, 180., -180., 360., 90., -90., 90.0000001, 1e18, 9.3e18, -9.3e18, 2.**31, 2.**53, 1e-9, 1., -1., .5])
# largest number of each unit: 60 years around the epoch, or 5000 for the long units
UNITS = {'s': 5000 * 31556952, 'ns': 60 * 31556952 * 10**9, 'us': 5000 * 31556952 * 10**6, 'ms': 5000 * 31556952 * 1000, 'm': 5000 * 525949, 'h': 5000 * 8766, 'D': 5000 * 365, 'M': 60000, 'Y': 5000, 'W': 260000}
INTS = np.array([0, 1, -1, 2, 2**39, -2**39, 2**31, 10**9, 10**11, 86400, 12345, -12345])


def split(s):
    out, depth, cur = [], 0, ''
    for c in s:
        depth += c in '[(<'
        depth -= c in '])>'
        if c == ',' and not depth:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def signatures(doc):
    out = []
    for name, args, ret in SIG.findall(doc or ''):
        if args == '*args, **kwargs':
            continue
        par = []
        for a in split(args):
            m = re.match(r'(\w+): (.*?)( = .*)?$', a)
            if not m:
                break
            par.append((m.group(1), m.group(2), bool(m.group(3))))
        else:
            out.append((name, par))
    return out


def harvest():
    """[(owner class name or '', name, callable, parameters)]."""
    out, classes = [], {}
    for m in MODULES:
        for n, o in sorted(vars(m).items()):
            if n.startswith('__'):
                continue
            if isinstance(o, type):
                full = f'{o.__module__}.{o.__qualname__}'
                classes[full] = o
                if full in ENUMS:
                    continue
                for k in sorted(dir(o)):
                    f = getattr(o, k, None)
                    if k in SKIP or not callable(f) or isinstance(f, type):
                        continue
                    for name, par in signatures(f.__doc__):
                        if k == '__init__':
                            out.append((full, 'new', o, par[1:]))
                        elif k == '__setstate__':
                            continue
                        else:
                            out.append((full, k, f, par))
            elif callable(o):
                for name, par in signatures(o.__doc__):
                    out.append((m.__name__, n, o, par))
    return out, classes


CALLS, CLASSES = harvest()


class Fuzzer:

    def __init__(self, rng, pool=None):
        self.rng = rng
        self.pool = {} if pool is None else pool
        self.tried = self.done = 0
        # instants beyond the range of their unit are not claimed
        self.tame = False

    # values ---------------------------------------------------------------
    def size(self):
        return int(self.rng.choice([0, 1, 2, 3, 4, 5, 8, 16, 33, 60], p=[.06, .12, .12, .12, .12, .14, .12, .1, .06, .04]))

    def floats(self, n, special=None):
        r = self.rng
        k = r.integers(0, 6)
        if k == 0:
            v = r.normal(size=n)
        elif k == 1:
            v = r.uniform(-180, 180, n)
        elif k == 2:
            v = r.uniform(-90, 90, n)
        elif k == 3:
            v = np.sort(r.uniform(-90, 90, n))
        elif k == 4:
            v = np.arange(n) * float(r.choice([1., .1, 360 / max(n, 1), -1, 10])) + float(r.choice([0, -180, 5]))
        else:
            v = r.uniform(-1, 1, n) * 10**r.uniform(-8, 12)
        p = r.choice([0, 0, .1, .5]) if special is None else special
        return np.where(r.random(n) < p, r.choice(SPECIAL, n), v)

    def ints(self, n):
        r = self.rng
        k = r.integers(0, 4)
        v = np.sort(r.integers(-1000, 10**6, n)) if k == 0 else np.arange(n) * int(r.integers(1, 5000)) if k == 1 else r.integers(-2**39, 2**39, n) if k == 2 else r.integers(0, 100, n)
        return np.where(r.random(n) < r.choice([0, 0, .2]), r.choice(INTS, n), v).astype('i8')

    def array(self, dtype, shape):
        r = self.rng
        n = int(np.prod(shape))
        if dtype in ('float64', 'float32'):
            with np.errstate(all='ignore'):
                a = self.floats(n).astype(dtype)
        elif dtype in ('int8', 'uint8'):
            a = r.integers(0, 256, n).astype('u1').astype(dtype)
        elif dtype == 'uint64':
            a = self.ints(n).astype('u8') if r.random() < .5 else r.integers(0, 2**64 - 1, n, dtype='u8', endpoint=True)
        elif dtype == 'bool':
            a = r.random(n) < .5
        else:
            a = self.ints(n)
        a = a.reshape(shape)
        k = r.integers(0, 12)
        if k == 0:
            a = np.asfortranarray(a)
        elif k == 1:
            a = np.repeat(a, 2, axis=-1)[..., ::2] if a.ndim else a
        elif k == 2 and a.ndim:
            a = a[::-1]
        elif k == 3 and a.ndim > 1:
            a = a.T
        elif k == 4:
            a = a.astype('float32' if a.dtype == 'float64' else a.dtype)
        elif k == 5 and a.dtype.itemsize > 1:
            a = a.astype(a.dtype.newbyteorder())
        return a

    def dates(self):
        unit = str(self.rng.choice(list(UNITS)))
        kind = str(self.rng.choice(['M8', 'M8', 'm8']))
        return self.instants(self.n, unit).astype(f'{kind}[{unit}]')

    def instants(self, n, unit):
        r = self.rng
        top = UNITS[unit]
        k = r.integers(0, 3)
        v = np.sort(r.integers(0, min(10**6, top), n)) if k == 0 else np.arange(n) * int(r.integers(1, 100)) % top if k == 1 else r.integers(-top, top, n)
        return np.where(r.random(n) < .1, r.choice([0, 1, -1], n), v).astype('i8')

    def periods(self):
        r = self.rng
        a = np.sort(r.integers(0, 10**6, (self.size(), 2)), axis=1) if r.random() < .7 else self.instants(2 * self.size(), 's').reshape(-1, 2)
        return np.rec.fromarrays([a[:, 0].astype('M8[s]'), a[:, 1].astype('M8[s]')], dtype=[('begin', 'M8[s]'), ('last', 'M8[s]')])

    def codes(self):
        r = self.rng
        m = int(r.integers(1, 13))
        chars = '0123456789bcdefghjkmnpqrstuvwxyz' + ('ailoAZ \xff' if r.random() < .1 else '')
        n = self.n
        shape = (n, ) if r.random() < .7 else (n, int(r.integers(1, 4)))
        return np.array([''.join(r.choice(list(chars), m)).encode('latin1') for _ in range(int(np.prod(shape)))], dtype=f'S{m}').reshape(shape)

    # arguments ------------------------------------------------------------
    def get(self, full):
        """An object of a class, from the pool or new."""
        objs = self.pool.get(full, [])
        if objs and (self.rng.random() < .8 or len(objs) > 30):
            return objs[int(self.rng.integers(0, len(objs)))]
        if full == 'pyinterp.core.geodetic.Spheroid' or full == 'pyinterp.core.geodetic._Spheroid':
            a, f = (6378137., 1 / 298.257223563) if self.rng.random() < .7 else (float(self.rng.choice([1., 6e6, 1e-3])), float(self.rng.choice([0, 1 / 400., .5, .99, 1])))
            from pyinterp import geodetic
            return geodetic.Spheroid((a, f))
        for _ in range(4):
            o = self.make(full)
            if o is not None:
                return o
        raise LookupError(full)

    def make(self, full):
        cands = [c for c in CALLS if c[0] == full and c[1] == 'new']
        special = self.construct(full)
        if special is not None:
            return special
        subs = [k for k, c in CLASSES.items() if full in CLASSES and issubclass(c, CLASSES[full]) and k != full]
        if subs and (not cands or self.rng.random() < .5):
            return self.get(subs[int(self.rng.integers(0, len(subs)))])
        if not cands:
            return None
        c = cands[int(self.rng.integers(0, len(cands)))]
        return self.call(c)

    def construct(self, full):
        """Well-formed objects that random arguments hardly ever give."""
        r = self.rng
        short = full.rsplit('.', 1)[1]
        o = None
        if short == 'Axis' and r.random() < .8:
            n = max(self.size(), 1) + int(r.random() < .7)
            v = np.cumsum(r.uniform(.1, 2, n)) if r.random() < .5 else np.arange(n) * float(r.choice([1., .25, 10, 360 / n])) + float(r.choice([0, -180, .5]))
            o = core.Axis(v if r.random() < .7 else v[::-1].copy(), 1e-6, bool(r.random() < .4))
        elif short == 'AxisInt64' and r.random() < .8:
            n = max(self.size(), 1)
            o = core.AxisInt64((np.cumsum(r.integers(1, 20, n)) if r.random() < .5 else np.arange(n) * 3).astype('i8'))
        elif short == 'TemporalAxis' and r.random() < .8:
            n = max(self.size(), 1)
            o = core.TemporalAxis((np.cumsum(r.integers(1, 20, n)) if r.random() < .5 else np.arange(n) * 3).astype(f'M8[{r.choice(["s", "ns", "D"])}]'))
        elif 'Grid' in short and r.random() < .95:
            m = re.match(r'(Temporal)?Grid(\d)D(\w+)', short)
            if m:
                ax = [self.get('pyinterp.core.Axis') for _ in range(int(m.group(2)))]
                if m.group(1):
                    ax[2] = self.get('pyinterp.core.TemporalAxis')
                shape = [len(a) for a in ax]
                if np.prod(shape) > 40000:
                    return None
                z = self.array(m.group(3).lower(), shape)
                if z.shape == tuple(shape) and z.dtype == m.group(3).lower():
                    try:
                        o = CLASSES[full](*ax, z)
                    except (ValueError, TypeError):
                        o = None
        elif short in ('Polygon', 'LineString') and r.random() < .8:
            n = int(r.integers(3, 12))
            g = core.geodetic
            if short == 'LineString':
                o = g.LineString(self.floats(n), self.floats(n) % 90)
            else:
                a = np.sort(r.uniform(0, 6.28, n))
                ring = [g.Point(float(20 * np.cos(x)), float(20 * np.sin(x))) for x in a]
                o = g.Polygon(ring + ring[:1])
        elif short.startswith('RTree3D') and r.random() < .8:
            o = CLASSES[full](*([None, True] if r.random() < .3 else []))
            n = self.size()
            with np.errstate(all='ignore'):
                o.packing(self.floats(n * 3).reshape(n, 3).astype(short[7:].lower()), self.floats(n).astype(short[7:].lower()))
        elif short == 'RTree' and r.random() < .8:
            o = CLASSES[full]()
            n = self.size()
            o.packing(self.floats(n), np.clip(self.floats(n), -90, 90), self.floats(n))
        elif short == 'Period' and r.random() < .7:
            a, b = self.ints(2)
            o = core.Period(int(a), int(b), bool(r.random() < .5))
        elif short == 'PeriodList' and r.random() < .7:
            try:
                o = core.PeriodList(self.periods())
            except (TypeError, ValueError):
                o = None
        if o is not None:
            self.keep(o)
        return o

    def argument(self, fn, name, typ, owner):
        r = self.rng
        if typ.startswith('Optional['):
            return None if r.random() < .4 else self.argument(fn, name, typ[9:-1], owner)
        m = re.match(r'numpy\.ndarray\[numpy\.(\w+)(\[m, (1|n)\])?(, flags.*)?\]', typ)
        if m:
            dtype = m.group(1)
            n = self.n if r.random() < .93 else self.size()
            if m.group(3) == 'n':
                shape = (n, self.size())
            elif m.group(2):
                shape = (n, )
            elif 'Grid' in owner or name == 'array':
                d = re.search(r'Grid(\d)D', owner)
                d = int(d.group(1)) if d and r.random() < .8 else int(r.integers(0, 5))
                shape = tuple(self.size() for _ in range(d))
                if np.prod(shape) > 20000:
                    shape = tuple(min(k, 8) for k in shape)
            elif name in ('coordinates', ) and 'Axis' not in owner:
                shape = (n, int(r.choice([2, 3, 3, 3, 1, 4, 0])))
            else:
                shape = (n, ) if r.random() < .75 else tuple([n] + [int(r.integers(0, 4)) for _ in range(int(r.integers(0, 3)))]) if r.random() < .9 else ()
            if int(np.prod(shape)) > 20000:
                shape = shape[:1]
            a = self.array(dtype, shape)
            if 'writeable' in typ:
                a = np.array(a, dtype=dtype, order='C' if r.random() < .7 else 'F')
            return a
        if typ.startswith('numpy.ndarray[pyinterp.core.Period'):
            return self.periods()
        if typ == 'numpy.ndarray':
            return self.dates() if r.random() < .5 else self.codes()
        if typ == 'int':
            if name == 'num_threads':
                return int(r.choice([0, 1, 2, 3, 7]))
            if name == 'precision' and fn == 'bounding_boxes':
                return int(r.choice([0, 1, 2, 3, 13, 64, -1]))
            if r.random() < .06 and not self.tame:
                return int(r.choice([-1, 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**64 - 1, -2**31, -2**63])) if name not in LIMITED else int(r.choice([-1, 300]))
            return int(r.integers(0, 14)) if r.random() < .8 else int(r.integers(-20, 70))
        if typ == 'float':
            return float(self.floats(1)[0]) if r.random() < .6 else float(r.choice([1., .5, 2., 100., 1e6, 1e-6, 0.]))
        if typ == 'bool':
            return bool(r.random() < .5)
        if typ == 'str':
            if r.random() < .1 or name not in WORDS:
                return TEXTS[int(r.integers(0, len(TEXTS)))] if r.random() < .5 or name in ('wkt', 'json', 'array') else str(r.choice(sum(WORDS.values(), [])))
            return str(r.choice(WORDS[name]))
        if typ == 'bytes':
            return bytes(self.codes().ravel()[:1].tobytes())
        if typ == 'slice':
            k = [None if r.random() < .3 else int(r.integers(-20, 20)) for _ in range(3)]
            return slice(*k)
        if typ == 'List[int]':
            return [int(k) for k in r.integers(-2, 4, int(r.integers(0, 4)))]
        if typ in ('tuple', 'list', 'object', 'handle', 'dict'):
            return self.anything(typ)
        if typ == 'Tuple[float, float]':
            return (self.argument(fn, name, 'float', owner), self.argument(fn, name, 'float', owner))
        if typ in ENUMS:
            e = CLASSES[typ]
            v = list(e.__members__.values())
            return v[int(r.integers(0, len(v)))]
        if typ in CLASSES or 'Spheroid' in typ:
            return self.get(typ)
        return None

    def anything(self, typ):
        r = self.rng
        k = int(r.integers(0, 9))
        if typ == 'list':
            if k < 5:
                c = str(r.choice(['pyinterp.core.geodetic.Point', 'pyinterp.core.geodetic.Polygon']))
                return [self.get(c) for _ in range(int(r.integers(0, 6)))]
            return [None, 1, 'x'][:int(r.integers(0, 4))]
        if typ == 'tuple':
            return tuple(float(x) for x in self.floats(int(r.integers(0, 4))))
        if k == 0:
            return None
        if k == 1:
            return self.dates()
        if k == 2:
            u = str(r.choice(['s', 'ns', 'D']))
            return np.datetime64(int(self.instants(1, u)[0]), u)
        if k == 3:
            u = str(r.choice(['s', 'ns', 'D']))
            return np.timedelta64(int(self.instants(1, u)[0]), u)
        if k == 4 and self.pool:
            c = list(self.pool)[int(r.integers(0, len(self.pool)))]
            return self.get(c)
        if k == 5:
            return self.codes()
        if k == 6:
            return int(r.integers(-5, 20))
        if k == 7:
            return self.floats(self.n)
        return TEXTS[int(r.integers(0, len(TEXTS)))]

    # calls ----------------------------------------------------------------
    def keep(self, o):
        full = f'{type(o).__module__}.{type(o).__qualname__}'
        if full in CLASSES and full not in ENUMS:
            lst = self.pool.setdefault(full, [])
            lst.append(o)
            if len(lst) > 40:
                lst.pop(int(self.rng.integers(0, len(lst))))

    def call(self, c):
        owner, name, fn, par = c
        r = self.rng
        self.tried += 1
        if r.random() < .9:
            self.n = self.size()
        else:
            self.n = int(r.integers(100, 400))
        if name in ('loess_float32', 'loess_float64', 'universal_kriging'):
            self.n = min(self.n, 30)
        args, kw = [], {}
        tame, self.tame = self.tame, 'Period' in owner or 'dateutils' in owner
        try:
            for k, (p, typ, default) in enumerate(par):
                if default and r.random() < .45:
                    args = args if kw or k == len(args) else args
                    kw['__stop__'] = 1
                    continue
                v = self.argument(name, p, typ, owner)
                if '__stop__' in kw:
                    if not p.startswith('arg') and p != 'self':
                        kw[p] = v
                else:
                    args.append(v)
        except LookupError:
            return None
        finally:
            self.tame = tame
        kw.pop('__stop__', None)
        self.last = (f'{owner}.{name}', args, kw)
        try:
            res = fn(*args, **kw)
        except (Exception, ) as e:  # noqa: B902
            self.error = e
            return None
        self.done += 1
        self.keep(res)
        if isinstance(res, (list, tuple)):
            for x in res[:5]:
                self.keep(x)
        if hasattr(res, '__next__') or type(res).__name__ == 'iterator':
            for k, x in enumerate(res):
                if k > 50:
                    break
        return res


LIMITED = {'k', 'bins', 'nbins', 'nx', 'ny', 'half_window_size', 'half_window_size_x', 'half_window_size_y', 'bin_count', 'bin_counts', 'max_iterations', 'window_size', 'points', 'num_quads', 'half_swath', 'nz', 'nu', 'size',
           'x_size', 'count', 'max_iteration', 'precision', 'arg0', 'arg1'}


def mutate(rng, state):
    """A state next to a valid one."""
    r = rng
    if isinstance(state, tuple):
        s = list(state)
        k = int(r.integers(0, 6))
        if not s or k == 0:
            return tuple(s + [None])
        i = int(r.integers(0, len(s)))
        if k == 1:
            del s[i]
        elif k == 2:
            j = int(r.integers(0, len(s)))
            if not isinstance(s[j], int) or abs(s[j]) < 1000:
                s[i] = s[j]
        else:
            s[i] = mutate(r, s[i])
        return tuple(s)
    if isinstance(state, list):
        return list(mutate(r, tuple(state)))
    if isinstance(state, bool):
        return not state
    if isinstance(state, int):
        return int(r.choice([0, -1, 1, 2, 3, 7, state // 2])) if r.random() < .7 else None
    if isinstance(state, float):
        return float(r.choice([0., -1, 1., 2., .5, 100., -7.]))
    if isinstance(state, bytes):
        b = bytearray(state)
        k = int(r.integers(0, 4))
        if k == 0:
            b = b[:int(r.integers(0, len(b) + 1))]
        elif k == 1:
            b += bytes(int(r.integers(1, 20)))
        elif len(b):
            for _ in range(int(r.integers(1, 9))):
                # booleans are read as they are
                i = int(r.integers(0, len(b)))
                b[i] = int(r.choice([0, 1, 255, 127, 128, int(r.integers(0, 256))])) if 0 < i < 16 else int(r.integers(0, 2))
        return bytes(b)
    if isinstance(state, str):
        return TEXTS[int(r.integers(0, len(TEXTS)))]
    if isinstance(state, np.ndarray):
        k = int(r.integers(0, 6))
        a = state
        if k == 0:
            return a[:0] if a.ndim else a
        if k == 1:
            return a[:1] if a.ndim else a
        if k == 2:
            return a.ravel()[:int(r.integers(0, a.size + 1))]
        if k == 3:
            return np.concatenate([a, a]) if a.ndim else a
        if k == 4 and a.dtype.kind == 'f':
            return np.where(r.random(a.shape) < .3, r.choice(SPECIAL[:14], a.shape), a)
        return a.astype(str(r.choice(['f8', 'f4', 'i8', 'u1'])), casting='unsafe') if a.dtype.kind in 'fiu' else a.T
    return None
