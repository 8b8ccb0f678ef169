"""Executes cases of one check and judges them (see run.py)."""
import hashlib
import importlib
import importlib.util
import json
import os
import sys
import traceback
import zlib

import numpy as np


class Section:
    """A family of cases: func(ctx, rng) is one case."""

    def __init__(self, name, func, quick, thorough=None, flavours=None):
        self.name, self.func = name, func
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.flavours = flavours


SECTIONS = {}


def section(quick, thorough=None, flavours=None, native=None):
    """`native`: the module of native/ without which there are no cases."""

    def deco(func):
        if native is not None and not importlib.util.find_spec(
                'vtn_' + native):
            return func
        SECTIONS[func.__name__] = Section(func.__name__, func, quick,
                                          thorough, flavours)
        return func

    return deco


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        flat = x.ravel()[:60]
        return {
            'shape': list(x.shape),
            'dtype': str(x.dtype),
            'data': [jsonable(v) for v in flat.tolist()]
        }
    if isinstance(x, np.generic):
        return jsonable(x.item()) if not isinstance(
            x, (np.datetime64, np.timedelta64)) else repr(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x if not isinstance(x, str) else x[:600]
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if depth < 4:
        if isinstance(x, dict):
            return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Ctx:
    """What a case observed, and the verdicts of its oracle."""

    def __init__(self, pid, tier, flavour, seed):
        self.pid, self.tier, self.flavour = pid, tier, flavour
        self.seed = seed
        self.cases = self.judgements = self.n_violations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.section, self.index = None, None
        self.found = None

    # one case -----------------------------------------------------------
    def begin(self, name, index):
        self.section, self.index = name, index
        self.cases += 1
        self._hash = None
        self._before = self.judgements

    def end(self):
        if self._hash is not None and self.judgements > self._before:
            self.distinct.add(self._hash)

    def case(self, *what, **sample):
        """Identifies the input of the case (a case that never calls it, or
        judges nothing, is trivial)."""
        h = hashlib.blake2b(digest_size=8)
        h.update(self.section.encode())
        for w in list(what) + list(sample.values()):
            if isinstance(w, np.ndarray):
                h.update(str(w.dtype).encode() + str(w.shape).encode())
                h.update(np.ascontiguousarray(w).tobytes())
            else:
                h.update(repr(w).encode())
        self._hash = h.hexdigest()
        if sum(s['section'] == self.section for s in self.samples) < 1:
            self.samples.append({
                'section': self.section,
                'index': self.index,
                **jsonable(sample)
            })

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    # verdicts -----------------------------------------------------------
    def fail(self, key, what='', **witness):
        self.n_violations += 1
        if sum(v['key'] == key for v in self.violations) < 3:
            self.violations.append({
                'key': key,
                'section': self.section,
                'index': self.index,
                'what': str(what)[:600],
                'witness': jsonable(witness)
            })
            if self.found:
                # should this process not reach its end
                with open(self.found, 'a') as f:
                    f.write(json.dumps(self.violations[-1]) + '\n')

    def check(self, ok, key, what='', **witness):
        self.judgements += 1
        if not bool(ok):
            self.fail(key, what, **witness)
            return False
        return True

    def all(self, ok, key, what='', **witness):
        """Elementwise; the witness shows the first offending element of every
        array that has the shape of `ok`."""
        ok = np.asarray(ok)
        self.judgements += ok.size
        if ok.all():
            return True
        at = np.unravel_index(int(np.argmin(ok)), ok.shape)
        wit = {}
        for k, v in witness.items():
            if isinstance(v, np.ndarray) and v.shape == ok.shape:
                wit[k] = v[at]
            else:
                wit[k] = v
        self.fail(key, what or f'{int((~ok).sum())} of {ok.size}',
                  at=[int(a) for a in at], **wit)
        return False

    def close(self, got, want, key, atol=0.0, rtol=0.0, what='', **witness):
        """Same shape, same NaNs, same infinities, |got-want| within the
        tolerance (atol may be an array)."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.judgements += 1
            self.fail(key + ':shape', f'{got.shape} instead of {want.shape}',
                      **witness)
            return False
        g = got.astype('float64')
        w = want.astype('float64')
        with np.errstate(all='ignore'):
            ok = np.where(
                np.isfinite(w),
                np.abs(g - w) <= atol + rtol * np.abs(w),
                (np.isnan(g) & np.isnan(w)) | (g == w))
        return self.all(ok, key, what, got=g, want=w, **witness)

    def equal(self, got, want, key, what='', **witness):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.judgements += 1
            self.fail(key + ':shape', f'{got.shape} instead of {want.shape}',
                      **witness)
            return False
        ok = got == want
        if got.dtype.kind in 'fc' and want.dtype.kind in 'fc':
            ok |= np.isnan(got) & np.isnan(want)
        elif got.dtype.kind in 'mM' and want.dtype.kind in 'mM':
            ok |= np.isnat(got) & np.isnat(want)
        return self.all(ok, key, what, got=got, want=want, **witness)

    def raises(self, exc, func, key, what='', **witness):
        """func must raise one of exc."""
        self.judgements += 1
        try:
            res = func()
        except exc as e:
            return e
        except BaseException as e:  # noqa: B036
            self.fail(key, f'{what}: raised {type(e).__name__}: {e}',
                      **witness)
            return None
        self.fail(key, f'{what}: no exception, returned {str(res)[:200]}',
                  **witness)
        return None


def rng_of(seed, name, index):
    return np.random.default_rng(
        [seed & 0xffffffff, zlib.crc32(name.encode()), index])


def load(pid):
    sys.modules.setdefault('vt', sys.modules[__name__])
    if 'vt' in sys.modules and sys.modules['vt'] is not sys.modules[__name__]:
        sys.modules['vt'] = sys.modules[__name__]
    return importlib.import_module(pid.lower())


def main():
    if sys.argv[1] == '--plan':
        mod = load(sys.argv[2])
        default = getattr(mod, 'FLAVOURS', ['mon'])
        print(
            json.dumps([{
                'name': s.name,
                'n': s.quick if sys.argv[3] == 'quick' else s.thorough,
                'flavours': s.flavours or default
            } for s in SECTIONS.values()]))
        return 0
    with open(sys.argv[1]) as f:
        task = json.load(f)
    load(task['property'])
    ctx = Ctx(task['property'], task['tier'], task['flavour'], task['seed'])
    ctx.found = task['found']
    fd = os.open(task['journal'], os.O_WRONLY | os.O_APPEND)
    for name, index in task['cases']:
        os.write(fd, f'{name}\t{index}\n'.encode())
        sec = SECTIONS[name]
        ctx.begin(name, index)
        try:
            sec.func(ctx, rng_of(task['seed'], name, index))
        except KeyboardInterrupt:
            raise
        except Exception as e:  # noqa: B902
            tb = traceback.extract_tb(e.__traceback__)
            inner = tb[-1]
            ctx.judgements += 1
            ctx.fail(
                f'exception:{type(e).__name__}:{os.path.basename(inner.filename)}:{inner.name}',
                f'{type(e).__name__}: {e}',
                trace=''.join(traceback.format_tb(e.__traceback__))[-1500:])
        ctx.end()
    out = {
        'cases': ctx.cases,
        'judgements': ctx.judgements,
        'distinct': sorted(ctx.distinct),
        'counters': ctx.counters,
        'samples': ctx.samples,
        'violations': ctx.violations,
        'n_violations': ctx.n_violations
    }
    with open(task['out'] + '.tmp', 'w') as f:
        json.dump(out, f)
    os.replace(task['out'] + '.tmp', task['out'])
    return 0


if __name__ == '__main__':
    sys.exit(main())
