"""C31: calls change only what they are documented to change, answer the same
question with the same answer, and have no effect when they are refused."""
import types
import warnings

import c30
import fuzz
import numpy as np
import threads
import vt

vt.SECTIONS.clear()
from vt import section

RULE = ('A case is a series of calls of everything the extension exposes, or of the Python functions built on it, with random arguments of every accepted type: the bytes '
        'of every array and the state of every object given are compared before and after, and the call is made twice. Non-trivial: at least one call was accepted.')
ASSUMES = ['objects without a state to pickle (interpolation methods, crossovers) are compared through their answers only']

# what changes its own object (argument 0), or its first array, by definition
OWN = {'push', 'packing', 'insert', 'clear', 'resize', 'append', 'flip', '__iadd__', 'merge', '__setstate__', 'join_adjacent_periods', 'sort'}
# numbers of the arguments that a function works on in place
INPLACE = {'geodetic.normalize_longitudes': {0}}
for _name in ('gauss_seidel', 'matrix', 'vector'):
    for _type in ('float32', 'float64', 'int64'):
        INPLACE[f'fill.{_name}_{_type}'] = {0}


def snap(o, d=0):
    """What an argument holds."""
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.tobytes() if o.dtype.kind != 'O' else repr(o.tolist()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x, d + 1) for x in o)) if d < 6 else None
    if isinstance(o, dict):
        return tuple((k, snap(v, d + 1)) for k, v in o.items())
    if isinstance(o, (int, float, str, bytes, slice, np.generic)) or o is None:
        return repr(o)
    full = f'{type(o).__module__}.{type(o).__qualname__}'
    if full in fuzz.CLASSES:
        if '__getstate__' in dir(fuzz.CLASSES[full]) and type(o).__getstate__ is not object.__getstate__:
            try:
                return full, snap(o.__getstate__(), d + 1)
            except Exception as e:  # noqa: B902
                return full, type(e).__name__
        return full
    if isinstance(o, types.FunctionType):
        return ('closure', tuple(snap(c.cell_contents, d + 1) for c in o.__closure__ or ())) if d < 6 else None
    if full.startswith('pyinterp.') and hasattr(o, '__dict__') and d < 6:
        return full, snap(vars(o), d + 1)
    return full


class Watched(fuzz.Fuzzer):

    def __init__(self, ctx, rng):
        super().__init__(rng)
        self.ctx = ctx

    def call(self, c):
        owner, name, fn, par = c
        ctx = self.ctx
        key = f'{owner}.{name}'.replace('pyinterp.core.', '')

        def watched(*args, **kw):
            given = list(args) + list(kw.values())
            before = [snap(x) for x in given]
            error = None
            try:
                result = fn(*args, **kw)
            except Exception as e:  # noqa: B902
                result, error = None, e
            after = [snap(x) for x in given]
            own = name in OWN and owner in fuzz.CLASSES
            free = set() if error is not None else INPLACE.get(key, {0} if own else set())
            # (an object given twice)
            free = {i for i in range(len(given)) if any(given[i] is given[j] for j in free if j < len(given))}
            for i, (x, y) in enumerate(zip(before, after)):
                if i not in free:
                    ctx.check(x == y, f'{key}: argument altered' + (' by a refused call' if error is not None else ''),
                              str(i), args=[repr(x)[:200] for x in args], kw=str(kw)[:300], before=str(x)[:500], after=str(y)[:500], error=repr(error))
            ctx.count('refused' if error is not None else 'accepted')
            if error is not None:
                raise error
            if before == after and name not in ('__next__', ):
                try:
                    again = fn(*args, **kw)
                except Exception as e:  # noqa: B902
                    again = e
                ctx.check(snap(result) == snap(again), f'{key}: another answer to the same call', args=[repr(x)[:200] for x in args], kw=str(kw)[:300],
                          first=str(result)[:500], second=str(again)[:500])
                ctx.count('repeated')
            return result

        return super().call((owner, name, watched, par))


CALLS = [c for c in fuzz.CALLS if c[0] not in ('pyinterp.core._Meta', 'pyinterp.core.fill._Meta')]


@section(1200, 40000)
def calls(ctx, rng):
    warnings.simplefilter('ignore')
    f = Watched(ctx, rng)
    focus = None
    with np.errstate(all='ignore'):
        for k in range(80):
            c = None
            if focus is not None and rng.random() < .8:
                same = [x for x in CALLS if x[0] == focus]
                c = same[int(rng.integers(0, len(same)))] if same else None
            if c is None:
                c = CALLS[(ctx.index * 7919 + k) % len(CALLS)]
            focus = c[0] if rng.random() < .85 else None
            f.call(c)
    ctx.case(ctx.index, f.tried, f.done)



@section(1500, 20000)
def functions(ctx, rng):
    """The Python functions that take num_threads, on what they were given."""
    warnings.simplefilter('ignore')
    name = NAMES[ctx.index % len(NAMES)]
    n = int(rng.choice(threads.SIZES[:16]))
    f = threads.FUNCTIONS[name](rng, n)
    ctx.case(name, n, ctx.index, function=name, items=n)
    ctx.count(name)
    before = snap(f)
    first = threads.call(f, int(rng.integers(0, 3)))
    ctx.check(before == snap(f), f'{name}: argument altered', items=n, result=first[0])
    second = threads.call(f, 1)
    ctx.check(first[0] == second[0] and (snap(list(first[1])) == snap(list(second[1])) if first[0] == 'ok' else first[1] == second[1]), f'{name}: another answer to the same call',
              items=n, first=str(first)[:300], second=str(second)[:300])
    ctx.check(before == snap(f), f'{name}: argument altered', items=n)


NAMES = sorted(threads.FUNCTIONS)
METHODS = ['push', 'push_delayed', 'insert', 'packing', 'append', 'merge', '__iadd__', 'query', 'value', 'mean', 'covered_by', 'find_index', 'quantile', 'inverse_distance_weighting', 'safe_cast', 'resize',
           '__getitem__', 'variable', 'intersection', 'union', '__setstate__', 'bins']
KINDS = [k for k in c30.KINDS if k not in c30.HEAVY]


def oddity(rng, shapes):
    """What a call may be given by mistake."""
    k = int(rng.integers(0, 12))
    n = int(rng.choice(shapes))
    if k < 6:
        return rng.uniform(-5, 5, n)
    if k == 6:
        return rng.uniform(-5, 5, (n, int(rng.integers(1, 5))))
    if k == 7:
        return rng.integers(0, 100, n).astype('M8[s]')
    if k == 8:
        return ['x', None, (), ('x', ), {}, -1, 10**30, float('nan')][int(rng.integers(0, 8))]
    if k == 9:
        return np.array(['a', 'b'][:int(rng.integers(1, 3))])
    if k == 10:
        return np.array([None, 1., 'x'][:int(rng.integers(1, 4))], dtype=object)
    return rng.uniform(-5, 5, (2, 2, 2))


@section(2500, 40000)
def refused(ctx, rng):
    """A refused call leaves its object as it was, and usable."""
    warnings.simplefilter('ignore')
    k = c30.KINDS[KINDS[ctx.index % len(KINDS)]]
    obj = k.make(rng)
    twin = c30.duplicate(obj, 'pickle', rng)
    seeds = [int(s) for s in rng.integers(0, 1 << 31, 4)]
    own = [m for m in METHODS if callable(getattr(obj, m, None)) and (m != '__setstate__' or type(obj).__module__.startswith('pyinterp.core'))]
    shapes = [0, 1, 2, 3, 5, 8]
    log = []
    refusals = 0
    if k.mutate is not None and rng.random() < .5:
        for o in (obj, twin):
            k.mutate(o, np.random.default_rng(seeds[0]))
    for _ in range(int(rng.integers(2, 7))):
        if not own:
            break
        m = str(rng.choice(own))
        if m == '__setstate__':
            # an object keeps its state when another one is refused
            try:
                args = [fuzz.mutate(rng, obj.__getstate__())]
            except Exception:  # noqa: B902
                continue
        elif m == '__iadd__' and rng.random() < .7:
            args = [c30.KINDS[k.name if rng.random() < .7 else KINDS[int(rng.integers(0, len(KINDS)))]].make(rng)]
        else:
            args = [oddity(rng, shapes) for _ in range(int(rng.integers(1, 5)))]
        given = snap(args)
        before = c30.look(k, obj, seeds[1])
        try:
            with np.errstate(all='ignore'):
                getattr(obj, m)(*args)
        except Exception as e:  # noqa: B902
            log.append(f'{m}: {type(e).__name__}')
            refusals += 1
            ctx.count(f'{k.name}.{m} refused')
            ctx.check(snap(args) == given, f'{k.name}.{m}: argument altered by a refused call', log=log)
            if not c30.same(ctx, before, c30.look(k, obj, seeds[1]), f'altered by a refused {m}', k, log=log, error=str(e)[:200], args=str(args)[:300]):
                return
        else:
            ctx.check(snap(args) == given, f'{k.name}.{m}: argument altered', log=log)
            log.append(m)
            if m == '__setstate__':
                break
            try:
                with np.errstate(all='ignore'):
                    getattr(twin, m)(*args)
            except Exception as e:  # noqa: B902
                ctx.check(False, f'{k.name}.{m}: accepted by an object, refused by its copy', log=log, error=str(e)[:200])
                return
    ctx.case(k.name, *log, ctx.index, kind=k.name, calls=log)
    ctx.count('refusals', refusals)
    if log and log[-1] == '__setstate__':
        return
    w = dict(log=log)
    c30.same(ctx, c30.look(k, obj, seeds[2]), c30.look(k, twin, seeds[2]), 'unlike its copy after refused calls', k, **w)
    if k.mutate is not None:
        for o in (obj, twin):
            k.mutate(o, np.random.default_rng(seeds[3]))
        c30.same(ctx, c30.look(k, obj, seeds[2]), c30.look(k, twin, seeds[2]), 'unlike its copy after refused calls and others', k, **w)
