"""Minimal stand-in for xarray (not installed offline)."""
import numpy


class DataArray:
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        self.values = numpy.asarray(data)
        self.attrs = dict(attrs or {})
        self.name = name
        self.coords = {}
        if isinstance(coords, (list, tuple)):
            coords = dict(zip(dims, coords))
        for key, value in (coords or {}).items():
            if not isinstance(value, DataArray):
                value = DataArray(value, dims=(key, ))
            self.coords[key] = value
        self.dims = tuple(dims) if dims is not None else tuple(
            list(self.coords)[:self.values.ndim])

    def __getattr__(self, name):
        attrs = self.__dict__.get('attrs', {})
        if name in attrs:
            return attrs[name]
        raise AttributeError(name)

    shape = property(lambda self: self.values.shape)
    dtype = property(lambda self: self.values.dtype)
    data = property(lambda self: self.values)
    ndim = property(lambda self: self.values.ndim)

    def __array__(self, dtype=None, copy=None):
        return numpy.asarray(self.values, dtype=dtype)

    def transpose(self, *dims):
        order = [self.dims.index(d) for d in dims]
        return DataArray(self.values.transpose(order), self.coords, dims,
                         self.name, self.attrs)

    def __getitem__(self, key):
        return self.coords[key]


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars = dict(data_vars or {})
        self.coords = dict(coords or {})
        self.attrs = dict(attrs or {})
        self.variables = {**self.coords, **self.data_vars}

    def __getitem__(self, key):
        return self.variables[key]

    def __setitem__(self, key, value):
        if key in self.coords:
            self.coords[key] = value
            for v in self.data_vars.values():
                if key in v.coords:
                    v.coords[key] = value
        else:
            self.data_vars[key] = value
        self.variables = {**self.coords, **self.data_vars}

    def assign_coords(self, mapping):
        for key, value in mapping.items():
            self[key] = value
        return self

    @classmethod
    def from_dict(cls, d):
        coords = {
            k: DataArray(v['data'], dims=v['dims'], attrs=v.get('attrs'))
            for k, v in d.get('coords', {}).items()
        }
        data = {
            k: DataArray(v['data'], {c: coords[c] for c in coords
                                     if c in v['dims']}, v['dims'], k,
                         v.get('attrs'))
            for k, v in d.get('data_vars', {}).items()
        }
        return cls(data, coords, d.get('attrs'))
