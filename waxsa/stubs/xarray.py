"""Model of the part of xarray (and of the pandas containers converted from and to it) used by the analysed code
(interpreted abstractly, never imported)."""

import numpy as onp


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, Frame):
            if data.index.nlevels > 1 or data.columns.nlevels > 1:
                onp.unmodelled_multi_index(data)
            coords, dims = data.coords, data.dims
            data = data.values
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        if len(dims) != onp.ndim(data):
            raise ValueError("different number of dimensions on data and dims")
        self.values = data
        self.data = data
        self.dims = dims
        self.coords = {}
        for d, c in (coords if coords is not None else {}).items():
            self.coords[d] = c if isinstance(c, DataArray) else DataArray(c, dims=(d,))
        for d, c in self.coords.items():
            if d not in dims:
                raise ValueError("coordinate not among the dimensions")
            if len(c.values) != len_along(data, dims.index(d)):
                raise ValueError("conflicting sizes for dimension")
        self.name = name

    @property
    def dtype(self):
        return self.values.dtype

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return onp.shape(self.values)

    def __len__(self):
        return len(self.values)

    def to_dataset(self, name=None):
        return Dataset({name: self})

    def to_series(self):
        return Frame(self.values, self.dims, self.coords, "series")

    def to_pandas(self):
        return Frame(self.values, self.dims, self.coords, "series" if len(self.dims) == 1 else "frame")


def len_along(data, axis):
    for _ in range(axis):
        data = data[0]
    return len(data)


class Index:
    def __init__(self, nlevels=1):
        self.nlevels = nlevels


class Frame:
    """pandas DataFrame or Series"""

    def __init__(self, values, dims, coords, kind, rows=1):
        self.values = values
        self.dims = dims
        self.coords = coords
        self.kind = kind
        self.index = Index(len(dims) if kind == "series" else rows)
        self.columns = Index(len(dims) - rows if kind == "frame" else 0)
        self.levels = None

    def unstack(self, levels=-1):
        out = Frame(self.values, self.dims, self.coords, "frame")
        out.levels = levels
        return out

    def stack(self, level=-1):
        n = len(level) if isinstance(level, (list, tuple)) else 1
        rows = self.index.nlevels + n
        if rows == len(self.dims):
            return Frame(self.values, self.dims, self.coords, "series")
        return Frame(self.values, self.dims, self.coords, "frame", rows)

    def to_xarray(self):
        if self.kind == "frame":
            return Dataset()
        return DataArray(self.values, dims=self.dims, coords=self.coords)


class Dataset:
    def __init__(self, data_vars=None, coords=None):
        self.data_vars = {}
        self.coords = {}
        if isinstance(data_vars, DataArray):
            raise TypeError("not a mapping")
        if isinstance(data_vars, (tuple, list)):
            raise TypeError("not a mapping")
        for name, v in (coords or {}).items():
            self.coords[name] = v if isinstance(v, DataArray) else DataArray(v, dims=(name,))
        for name, v in (data_vars or {}).items():
            self[name] = v

    def __setitem__(self, name, v):
        if isinstance(v, tuple):
            v = DataArray(v[1], dims=v[0])
        for d, c in v.coords.items():
            self.coords[d] = c
        if name in v.dims:
            self.coords[name] = v
        else:
            self.data_vars[name] = v

    def __getitem__(self, name):
        if name in self.data_vars:
            return self.data_vars[name]
        return self.coords[name]

    def to_dataset(self, name=None):
        raise AttributeError("'Dataset' object has no attribute 'to_dataset'")

    def __iter__(self):
        return list(self.data_vars.keys())

    def __len__(self):
        return len(self.data_vars)

    def items(self):
        return self.data_vars.items()

    def keys(self):
        return self.data_vars.keys()

    @property
    def dims(self):
        names = []
        for v in self.data_vars.values():
            for d in v.dims:
                if d not in names:
                    names.append(d)
        return tuple(names)


    def values(self):
        return self.data_vars.values()

    def isel(self, indexers):
        out = Dataset()
        for name, v in self.coords.items():
            out.coords[name] = pick(v, indexers)
        for name, v in self.data_vars.items():
            out.data_vars[name] = pick(v, indexers)
        return out


def pick(v, indexers):
    values = v.values
    for d, i in indexers.items():
        if d in v.dims:
            if v.dims.index(d) == 0:
                values = values[i]
            else:
                values = onp.stack([x[i] for x in values])
    return DataArray(values, dims=v.dims)
