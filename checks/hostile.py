"""Sections shared by c11 and c12: hostile calls in a sanitizer build."""
import importlib
import io
import pickle
import re
import sys
import time
import warnings

import numpy as np

import fuzz
import large
import vt

GRID = re.compile(r'Axis|Grid|Bivariate|Bilinear|Nearest|Weighting[23]D|^pyinterp\.core\.fill|variate|spline|bicubic|interpolate1d|fill|AxisBoundary')


def part(c):
    """11: axes, grids, interpolators, filling; 12: the others."""
    return 11 if GRID.search(c[0].replace('pyinterp.core.', '', 1) if 'core.fill' not in c[0] else 'fill') or c[0] in ('pyinterp.core', ) and GRID.search(c[1]) else 12


def run_fuzz(ctx, rng, mine, number):
    warnings.simplefilter('ignore')
    calls = [c for c in fuzz.CALLS if part(c) == mine]
    f = fuzz.Fuzzer(rng)
    seen = []
    focus = None
    with np.errstate(all='ignore'):
        for k in range(number):
            if focus is None or rng.random() < .2:
                # every function at least from time to time
                c = calls[(ctx.index * 7919 + k) % len(calls)] if k % 2 else calls[int(rng.integers(0, len(calls)))]
            else:
                same = [x for x in calls if x[0] == focus] or calls
                c = same[int(rng.integers(0, len(same)))]
            focus = c[0] if rng.random() < .8 else None
            before = f.done
            f.call(c)
            name = f'{c[0]}.{c[1]}'.replace('pyinterp.core.', '')
            seen.append(name)
            ctx.count(name + ('' if f.done > before else ' (refused)'))
    ctx.case(ctx.index, f.tried, f.done)
    ctx.count('calls', f.tried)
    ctx.count('accepted calls', f.done)
    ctx.check(f.done > 0, 'calls', 'no call was accepted')
    return f


def run_states(ctx, rng, mine, number):
    """Objects unpickled from states next to valid ones, then used."""
    warnings.simplefilter('ignore')
    names = sorted({c[0] for c in fuzz.CALLS if part(c) == mine and c[0] in fuzz.CLASSES and hasattr(fuzz.CLASSES[c[0]], '__setstate__') or part(c) == mine and c[0] in fuzz.CLASSES
                    and '__getstate__' in vars(fuzz.CLASSES[c[0]])})
    full = names[ctx.index % len(names)]
    cls = fuzz.CLASSES[full]
    f = fuzz.Fuzzer(rng)
    used = [c for c in fuzz.CALLS if c[0] == full and c[1] != 'new']
    ctx.case(full, ctx.index)
    ok = 0
    with np.errstate(all='ignore'):
        for _ in range(number):
            try:
                state = f.get(full).__getstate__()
            except Exception:  # noqa: B902
                continue
            for _ in range(int(rng.integers(0, 3))):
                state = fuzz.mutate(rng, state)
            try:
                o = cls.__new__(cls)
                o.__setstate__(state)
            except Exception:  # noqa: B902
                ctx.count('refused states')
                continue
            ok += 1
            ctx.count('accepted states')
            f.pool[full] = [o]
            for _ in range(6):
                if used:
                    f.call(used[int(rng.integers(0, len(used)))])
    ctx.count(full.replace('pyinterp.core.', ''), ok)
    ctx.check(True, 'states')


class Quiet(vt.Ctx):
    """The verdicts of the behavioural checks are theirs."""

    def __init__(self, ctx):
        super().__init__(ctx.pid, ctx.tier, ctx.flavour, ctx.seed)

    def fail(self, key, what='', **witness):
        pass


def borrow(modules):
    """The sections of behavioural checks."""
    out = []
    for m in modules:
        vt.SECTIONS.clear()
        if m in sys.modules:
            del sys.modules[m]
        importlib.import_module(m)
        out += [(m, s) for s in vt.SECTIONS.values() if not s.name.startswith('finding')]
    vt.SECTIONS.clear()
    return out


def run_borrowed(ctx, rng, sections, per, repeat):
    m, s = sections[ctx.index % len(sections)]
    q = Quiet(ctx)
    n = 0
    ctx.case(m, s.name, ctx.index)
    start = time.monotonic()
    if ctx.tier == 'quick':
        large.N = 9001  # the sanitizers make these calls 10 to 30 times slower
    for _ in range(repeat):
        if time.monotonic() - start > 10:
            break
        index = int(rng.integers(0, s.quick))
        q.begin(s.name, index)
        try:
            s.func(q, vt.rng_of(ctx.seed + 1000 + ctx.index, s.name, index))
        except Exception:  # noqa: B902
            ctx.count('errors')
        n += 1
    ctx.count(f'{m}.{s.name}', n)
    ctx.check(True, 'borrowed')
