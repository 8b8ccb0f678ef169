"""Chunked eager arrays: just enough for the push_delayed and _delayed code
paths of pyinterp to be driven block by block."""
import functools
import itertools

import numpy


def _chunks(spec, size):
    if spec is None or spec == -1:
        return (size, )
    if isinstance(spec, tuple):
        assert sum(spec) == size
        return spec
    full, rest = divmod(size, spec)
    return (spec, ) * full + ((rest, ) if rest or not full else ())


class Array:

    def __init__(self, data, chunks=None):
        self.data = numpy.asarray(data)
        if not isinstance(chunks, tuple):
            chunks = (chunks, ) * self.data.ndim
        chunks += (None, ) * (self.data.ndim - len(chunks))
        self.chunks = tuple(_chunks(c, n) for c, n in zip(chunks, self.data.shape))

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)
    size = property(lambda self: self.data.size)

    def ravel(self):
        inner = max([1, *(c for chunks in self.chunks for c in chunks)])
        return Array(self.data.ravel(), inner)

    def rechunk(self, chunks):
        if isinstance(chunks, dict):
            chunks = tuple(chunks.get(i, c) for i, c in enumerate(self.chunks))
        return Array(self.data, chunks)

    def astype(self, dtype):
        return Array(self.data.astype(dtype), self.chunks)

    def blocks(self):
        slices = []
        for chunks in self.chunks:
            stops = list(itertools.accumulate(chunks))
            slices.append([slice(b - n, b) for b, n in zip(stops, chunks)])
        return {
            index: self.data[tuple(s[i] for s, i in zip(slices, index))]
            for index in itertools.product(*(range(len(s)) for s in slices))
        }

    def compute(self):
        return self.data


class _Blocks:

    def __init__(self, items):
        self.items = items

    def sum(self):
        return _Delayed(functools.reduce(lambda a, b: a + b, [x for blk in self.items for x in blk]))

    def compute(self):
        return numpy.concatenate(self.items)


class _Delayed:

    def __init__(self, value):
        self.value = value

    def compute(self):
        return self.value


def asarray(x):
    return x if isinstance(x, Array) else Array(x)


def from_array(x, chunks=None):
    return Array(x, chunks)


def map_blocks(func, *args, dtype=None, drop_axis=None):
    # As dask does, the blocks of the dropped axes are concatenated.
    args = [a.rechunk({i: -1 for i in drop_axis or ()}) if isinstance(a, Array) else a for a in args]
    blocks = [a.blocks() if isinstance(a, Array) else None for a in args]
    keys = {tuple(b) for b in blocks if b is not None}
    if len(keys) != 1:
        raise ValueError('blocks do not match')
    return _Blocks([func(*[a if b is None else b[key] for a, b in zip(args, blocks)]) for key in keys.pop()])
