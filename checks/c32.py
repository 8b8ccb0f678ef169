"""C32: what a call acquires (memory, references, threads) is released once its
results are."""
import ctypes
import gc
import os
import sys
import warnings

import c30
import c31
import fuzz
import numpy as np
import threads
from pyinterp import core
import vt

vt.SECTIONS.clear()
from vt import section

RULE = ('A case is one call (accepted or refused), or one life of an object (made, altered, questioned, duplicated, destroyed), repeated with the same arguments: the references to the '
        'arguments, the blocks of the interpreter, the bytes of malloc and the threads of the process are counted before and after each series. Non-trivial: every case.')
ASSUMES = ['a release that occurs one time out of many, or that is deferred for ever by the garbage collector of Python on purpose, is not told from a leak below one block, or 20 bytes, per call']


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


LIBC = ctypes.CDLL('libc.so.6')
LIBC.mallinfo2.restype = Mallinfo


def heap():
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd


def tasks():
    return len(os.listdir('/proc/self/task'))


def growth(once, number):
    """What a series of calls leaves: blocks of the interpreter, bytes."""
    gc.collect()
    blocks, bytes_ = sys.getallocatedblocks(), heap()
    for _ in range(number):
        once()
    gc.collect()
    return sys.getallocatedblocks() - blocks, heap() - bytes_


def judge(ctx, once, key, number=12, **w):
    """No series of calls leaves as much as one block per call, whatever their number."""
    gc.disable()
    try:
        for _ in range(3):
            once()
        n = number
        for turn in range(7):
            blocks, size = growth(once, n)
            if blocks < .9 * n and size < 20 * n:
                break
            # (caches fill up, a leak goes on)
            if turn < 6:
                n *= 2
        ctx.check(blocks < .9 * n, f'{key}: objects left', f'{blocks} blocks after {n} calls', **w)
        ctx.check(size < 20 * n, f'{key}: memory left', f'{size} bytes after {n} calls', **w)
    finally:
        gc.enable()
    for _ in range(200):
        if tasks() == ctx.threads0:
            break
        os.sched_yield()
    ctx.check(tasks() == ctx.threads0, f'{key}: threads left', f'{tasks()} instead of {ctx.threads0}', **w)


def start(ctx):
    if not hasattr(ctx, 'threads0'):
        ctx.threads0 = tasks()


NAMES = sorted(threads.FUNCTIONS)


@section(300, 6000)
def functions(ctx, rng):
    warnings.simplefilter('ignore')
    start(ctx)
    name = NAMES[ctx.index % len(NAMES)]
    n = int(rng.choice(threads.SIZES[:13]))
    t = int(rng.choice([1, 1, 2, 4]))
    f = threads.FUNCTIONS[name](rng, n)
    state = threads.call(f, t)[0]
    ctx.case(name, n, t, ctx.index, function=name, items=n, num_threads=t)
    ctx.count(f'{name} {state}')

    def once():
        threads.call(f, t)

    judge(ctx, once, name, 8, items=n, num_threads=t, result=state)


ORDER = [k for k in c30.KINDS if k not in c30.HEAVY]


@section(300, 6000)
def lives(ctx, rng):
    """Objects made, altered, questioned, duplicated and destroyed."""
    warnings.simplefilter('ignore')
    start(ctx)
    k = c30.KINDS[ORDER[ctx.index % len(ORDER)]]
    seed = int(rng.integers(0, 1 << 31))
    hows = [str(h) for h in k.copies]
    ctx.case(k.name, seed, kind=k.name)
    ctx.count(k.name)

    def once():
        r = np.random.default_rng(seed)
        obj = k.make(r)
        if k.mutate is not None:
            k.mutate(obj, r)
        k.observe(obj, r)
        for h in hows:
            c30.duplicate(obj, h, np.random.default_rng(seed))
        if k.add:
            other = c30.duplicate(obj, 'pickle', r)
            try:
                obj + other
            except TypeError:
                pass
            try:
                obj += other
            except TypeError:
                pass

    judge(ctx, once, k.name, 6)


class Counted(fuzz.Fuzzer):

    def __init__(self, ctx, rng):
        super().__init__(rng)
        self.ctx = ctx

    def call(self, c):
        owner, name, fn, par = c
        if name in ('__next__', ):
            return None
        ctx = self.ctx
        key = f'{owner}.{name}'.replace('pyinterp.core.', '')

        def counted(*args, **kw):
            state = [c31.snap(x) for x in args] if name in c31.OWN else None
            given = [x for x in list(args) + list(kw.values()) if not isinstance(x, (int, float, str, bytes, bool)) and x is not None]
            result = fn(*args, **kw)
            if state is not None and state != [c31.snap(x) for x in args]:
                return result

            def once():
                try:
                    fn(*args, **kw)
                except Exception:  # noqa: B902
                    pass

            once()
            counts = [sys.getrefcount(x) for x in given]
            for _ in range(3):
                once()
            after = [sys.getrefcount(x) for x in given]
            ctx.check(after == counts, f'{key}: references kept', f'{counts} became {after}', args=[repr(x)[:100] for x in args], kw=str(kw)[:200])
            if self.rng.random() < .4:
                judge(ctx, once, key, 8, args=[repr(x)[:100] for x in args], kw=str(kw)[:200])
                ctx.count('measured')
            return result

        def wrapped(*args, **kw):
            try:
                return counted(*args, **kw)
            except Exception as e:
                error = type(e)
                e.__traceback__ = None
            given = [x for x in list(args) + list(kw.values()) if not isinstance(x, (int, float, str, bytes, bool)) and x is not None]

            def once():
                try:
                    fn(*args, **kw)
                except Exception:  # noqa: B902
                    pass

            once()
            counts = [sys.getrefcount(x) for x in given]
            for _ in range(3):
                once()
            after = [sys.getrefcount(x) for x in given]
            ctx.check(after == counts, f'{key}: references kept by a refused call', f'{counts} became {after}', args=[repr(x)[:100] for x in args], kw=str(kw)[:200])
            if self.rng.random() < .2:
                judge(ctx, once, key + ' refused', 8, args=[repr(x)[:100] for x in args], kw=str(kw)[:200])
                ctx.count('measured refusals')
            raise error('refused')

        return super().call((owner, name, wrapped, par))


@section(300, 10000)
def calls(ctx, rng):
    warnings.simplefilter('ignore')
    start(ctx)
    f = Counted(ctx, rng)
    focus = None
    with np.errstate(all='ignore'):
        for k in range(30):
            c = None
            if focus is not None and rng.random() < .8:
                same = [x for x in c31.CALLS if x[0] == focus]
                c = same[int(rng.integers(0, len(same)))] if same else None
            if c is None:
                c = c31.CALLS[(ctx.index * 7919 + k) % len(c31.CALLS)]
            focus = c[0] if rng.random() < .8 else None
            f.call(c)
    ctx.case(ctx.index, f.tried, f.done)


DATES = ['date', 'datetime', 'isocalendar', 'timedelta_since_january', 'weekday']


@section(60, 1200)
def dates(ctx, rng):
    """Calendars of arrays of instants."""
    start(ctx)
    name = DATES[ctx.index % len(DATES)]
    n = int(rng.choice([0, 1, 2, 9, 60]))
    unit = ['s', 'ms', 'us', 'ns'][int(rng.integers(0, 4))]
    x = rng.integers(-5 * 10**9, 5 * 10**9, n).astype('M8[s]').astype(f'M8[{unit}]')
    if rng.random() < .2 and n and unit == 's':
        x[-1] = np.datetime64(10**12, 's')  # not a date of Python
    f = getattr(core.dateutils, name)
    ctx.case(name, x)
    ctx.count(name)

    def once():
        try:
            f(x)
        except Exception:  # noqa: B902
            pass

    judge(ctx, once, name, 8, x=x)
    # what the array holds goes with it
    try:
        y = f(x)
    except Exception:  # noqa: B902
        return
    if y.dtype == object and n:
        ctx.check(sys.getrefcount(y[0]) <= 3, f'{name}: references kept', sys.getrefcount(y[0]))


@section(120, 2400)
def instants(ctx, rng):
    """Temporal axes given arrays of dates they accept, convert or refuse."""
    start(ctx)
    warnings.simplefilter('ignore')
    n = int(rng.integers(2, 12))
    kind = str(rng.choice(['M8', 'm8']))
    unit = str(rng.choice(['s', 'ms', 'us', 'ns']))
    v = np.cumsum(rng.integers(1, 50, n)).astype('i8')
    ax = core.TemporalAxis(v.view(f'{kind}[{unit}]'))
    q = rng.integers(-20, v[-1] + 20, int(rng.choice([1, 3, 30]))).astype('i8')
    how = ['same', 'gaps', 'backwards', 'other unit', 'other kind', 'numbers', 'matrix', 'empty', 'disordered'][ctx.index % 9]
    name = ['TemporalAxis', 'find_index', 'find_indexes', 'safe_cast', 'index'][ctx.index // 9 % 5]
    if name == 'TemporalAxis':
        q = v
    x = q.view(f'{kind}[{unit}]')
    if how == 'gaps':
        x = np.repeat(x, 2)[::2]
    elif how == 'backwards':
        x = x[::-1].copy()[::-1]
    elif how == 'other unit':
        x = x.astype(f"{kind}[{rng.choice(['m', 's', 'us', 'ns'])}]")
    elif how == 'other kind':
        x = q.view(f"{'m8' if kind == 'M8' else 'M8'}[{unit}]")
    elif how == 'numbers':
        x = q.astype(str(rng.choice(['i8', 'f8', 'O'])))
    elif how == 'matrix':
        x = x.reshape(1, -1)
    elif how == 'empty':
        x = x[:0]
    elif how == 'disordered':
        x = rng.permutation(x)
    f = {
        'TemporalAxis': core.TemporalAxis,
        'find_index': lambda a: ax.find_index(a, True),
        'find_indexes': ax.find_indexes,
        'safe_cast': ax.safe_cast,
        'index': lambda a: ax[int(q[0])]
    }[name]
    ctx.case(how, name, v, q, how=how, call=name)
    ctx.count(how)

    def once():
        try:
            f(x)
        except Exception:  # noqa: B902
            ctx.count('refused dates')

    once()
    counts = [sys.getrefcount(x), sys.getrefcount(ax)]
    for _ in range(3):
        once()
    after = [sys.getrefcount(x), sys.getrefcount(ax)]
    ctx.check(after == counts, f'{name}: references kept by a call with dates', f'{counts} became {after}', how=how)
    judge(ctx, once, f'{name} of dates', 8, how=how)
