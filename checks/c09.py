"""C09: results do not depend on the number of threads."""
import numpy as np

import threads
import vt
vt.SECTIONS.clear()
from vt import section

RULE = ('A case is one function that takes num_threads, on one random input, called with one thread (the reference, without any thread) and with '
        'several other numbers of threads, including 0 and more than the number of items. Non-trivial: the reference gave a value or an error.')
ASSUMES = ['when several items of a batch are refused, any of them may be named by the error: its type is judged, its text only if one item is refused']


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
    return bool((a == b).all())


def judge(ctx, name, f, n, counts):
    ref = threads.call(f, 1)
    ctx.count(name)
    ctx.count(f'{name}: error {ref[1]}' if ref[0] == 'error' else 'value')
    for t in counts:
        got = threads.call(f, t)
        w = dict(function=name, n=n, threads=t)
        if not ctx.check(got[0] == ref[0], f'{name}: outcome', f'one thread: {str(ref)[:200]}; {t} threads: {str(got)[:200]}', **w):
            continue
        if ref[0] == 'error':
            ctx.check(got[1] == ref[1], f'{name}: error', f'{ref} / {got}', **w)
        else:
            ctx.check(len(got[1]) == len(ref[1]), f'{name}: values', **w)
            for a, b in zip(ref[1], got[1]):
                if not same(a, b):
                    bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))[:5] if a.shape == b.shape else None
                    ctx.check(False, f'{name}: values', f'one thread: {a[tuple(bad[0])] if bad is not None and len(bad) else a.shape}, {t} threads: {b[tuple(bad[0])] if bad is not None and len(bad) else b.shape}',
                              at_=str(bad), **w)
                    break
            else:
                ctx.check(True, f'{name}: values')


@section(2400, 40000)
def functions(ctx, rng):
    name = list(threads.FUNCTIONS)[ctx.index % len(threads.FUNCTIONS)]
    n = int(rng.choice(threads.SIZES))
    counts = {0, 2, 3, int(rng.integers(2, 20)), int(rng.choice([5, 7, 8, 16, 40, 150]))}
    if n and n < 70:
        counts |= {c for c in (n - 1, n, n + 1) if c > 1}
    seed = int(rng.integers(0, 1 << 31))
    f = threads.FUNCTIONS[name](np.random.default_rng(seed), n)
    ctx.case(name, n, seed, sorted(counts))
    ctx.count(f'size {n}')
    judge(ctx, name, f, n, sorted(counts))


@section(297, 990)
def tiny(ctx, rng):
    """No item and one item, with many threads."""
    name = threads.SIZED[ctx.index % len(threads.SIZED)]
    n = ctx.index // len(threads.SIZED) % 3
    f = threads.FUNCTIONS[name](rng, n)
    ctx.case(name, n, ctx.index)
    judge(ctx, name, f, n, [0, 2, 3, 9])
