"""
In-memory stand-in for h5py, such that the content of the files can be symbolic.
Only what the real code uses. The concrete runs (replay, path validation) use the real h5py.

A file on disk only contains the name of its content, so files can be copied and moved.
"""

from __future__ import annotations

import copy
import os
import sys
import types

import numpy

from .harness import is_sym

_store = {}


class SymSlice(numpy.ndarray):
    """part of a dataset, with symbolic start or end (the array itself is a dummy)"""

    def __new__(cls, ds, start, stop):
        """new"""
        self = numpy.zeros((0,) + ds.a.shape[1:], dtype=ds.a.dtype).view(cls)
        self.ds, self.start, self.stop = ds, start, stop
        return self


class _Attrs(dict):
    def __setitem__(self, key, value):
        if isinstance(value, (list, tuple)):
            value = numpy.array(value)
        super().__setitem__(key, value)


class Dataset:
    """dataset"""

    def __init__(self, name, shape, dtype, maxshape=None):
        self.name = name
        shape = (shape,) if isinstance(shape, (int, numpy.integer)) else tuple(int(d) for d in shape)
        self.maxshape = tuple(maxshape) if maxshape is not None else shape
        dtype = numpy.dtype(dtype)
        self.vlen = dtype == object
        self.a = numpy.empty(shape, dtype=object) if self.vlen else numpy.zeros(shape, dtype=dtype)
        if self.vlen:
            self.a.fill(b"")
        self.attrs = _Attrs()

    @property
    def shape(self):
        """shape"""
        return self.a.shape

    @property
    def ndim(self):
        """ndim"""
        return self.a.ndim

    @property
    def dtype(self):
        """dtype"""
        return self.a.dtype

    def length(self):
        """length, maybe symbolic (then the content has more)"""
        return self.attrs.get("_sym_len", len(self.a))

    def __len__(self):
        return len(self.a)

    def __bool__(self):
        return True

    def __iter__(self):
        return iter([self[i] for i in range(len(self.a))])

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and idx and all(i is Ellipsis or (isinstance(i, slice) and i == slice(None)) for i in idx[1:]):
            if idx[0] is not Ellipsis:
                idx = idx[0]
        if isinstance(idx, slice) and (is_sym(idx.start) or is_sym(idx.stop)):
            return SymSlice(self, 0 if idx.start is None else idx.start, self.length() if idx.stop is None else idx.stop)
        if isinstance(idx, slice):
            # like in h5py: never negative
            for x in (idx.start, idx.stop):
                if x is not None and x < 0:
                    raise ValueError("Negative slice index")
        if isinstance(idx, (int, numpy.integer)) and not 0 <= idx < len(self.a):
            raise IndexError("Index (%i) out of range" % idx)
        res = self.a[idx]
        return res.copy() if isinstance(res, numpy.ndarray) else res

    def __setitem__(self, idx, value):
        if self.vlen:
            if isinstance(value, numpy.ndarray) and value.ndim == 0:
                value = value.item()
            if isinstance(value, str):
                value = value.encode("utf8")
            if isinstance(value, (list, numpy.ndarray)):
                value = numpy.array([v.encode("utf8") if isinstance(v, str) else v for v in value], dtype=object)
        elif self.a.dtype.kind == "S" and isinstance(value, list):
            if any(isinstance(v, str) and not v.isascii() for v in value):
                raise TypeError("no conversion path")
        tgt = self.a[idx]
        if isinstance(tgt, numpy.ndarray) and isinstance(value, numpy.ndarray) and tgt.shape != value.shape:
            raise TypeError("Can't broadcast %s -> %s" % (value.shape, tgt.shape))
        self.a[idx] = value

    def resize(self, size, axis=None):
        """resize"""
        if axis is not None:
            shape = list(self.a.shape)
            shape[axis] = int(size)
        else:
            shape = [int(d) for d in size]
        for d, m in zip(shape, self.maxshape):
            if m is not None and d > m:
                raise ValueError("cannot resize")
        new = numpy.zeros(shape, dtype=self.a.dtype)
        if self.vlen:
            new.fill(b"")
        common = tuple(slice(0, min(a, b)) for a, b in zip(shape, self.a.shape))
        new[common] = self.a[common]
        self.a = new


class Group:
    """group"""

    def __init__(self, name=""):
        self.name = name
        self.items_ = {}
        self.attrs = _Attrs()

    def _walk(self, path, create=False):
        cur = self
        for p in [p for p in path.split("/") if p]:
            if not isinstance(cur, Group):
                raise KeyError(path)
            if p not in cur.items_:
                if not create:
                    raise KeyError("Unable to open object (object %r doesn't exist)" % path)
                cur.items_[p] = Group(cur.name + "/" + p)
            cur = cur.items_[p]
        return cur

    def __getitem__(self, path):
        return self._walk(path)

    def __contains__(self, path):
        try:
            self._walk(path)
        except KeyError:
            return False
        return True

    def __delitem__(self, path):
        parent, _, name = path.rpartition("/")
        del self._walk(parent).items_[name]

    def keys(self):
        """keys"""
        return sorted(self.items_.keys())

    def items(self):
        """items"""
        return [(k, self.items_[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)

    def create_group(self, path):
        """create group"""
        if path in self:
            raise ValueError("Unable to create group (name already exists)")
        return self._walk(path, create=True)

    def create_dataset(self, path, shape=None, dtype=None, data=None, maxshape=None):
        """create dataset"""
        parent, _, name = path.rpartition("/")
        g = self._walk(parent, create=True)
        if name in g.items_:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is not None:
            data = numpy.asarray(data)
            shape = data.shape if shape is None else shape
            dtype = data.dtype if dtype is None else dtype
        ds = Dataset(g.name + "/" + name, shape, dtype, maxshape)
        if data is not None:
            if data.dtype == object:
                ds.a, ds.vlen = data, False
            else:
                ds[...] = data
        g.items_[name] = ds
        return ds


def _copy(x):
    if isinstance(x, Group):
        res = Group(x.name)
        res.items_ = {k: _copy(v) for k, v in x.items_.items()}
    else:
        res = copy.copy(x)
        res.a = x.a.copy()
    res.attrs = _Attrs(x.attrs)
    return res


class File(Group):
    """file"""

    def __init__(self, filename, mode="r", libver=None):
        super().__init__()
        self.filename, self.mode = filename, mode
        self.open = True
        if mode in ("r", "r+"):
            with open(filename) as f:
                src = _store[int(f.read())]
            src = _copy(src)
            self.items_, self.attrs = src.items_, src.attrs
        else:
            assert mode == "w"
            with open(filename, "w"):
                pass

    def close(self):
        """close"""
        if not self.open:
            return
        self.open = False
        if self.mode != "r":
            i = len(_store)
            _store[i] = _copy_file(self)
            with open(self.filename, "w") as f:
                f.write(str(i))

    def __bool__(self):
        return self.open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _copy_file(f):
    res = Group("")
    res.items_ = {k: _copy(v) for k, v in f.items_.items()}
    res.attrs = _Attrs(f.attrs)
    return res


def module():
    """replacement for the module h5py"""
    m = types.ModuleType("h5py")
    m.File, m.Group, m.Dataset = File, Group, Dataset
    m.special_dtype = lambda vlen=None, **_kw: numpy.dtype("O")
    m.string_dtype = lambda *a, **_kw: numpy.dtype("O")
    m.__version__ = "3.0.0"
    return m


class installed:
    """context: import h5py gives the stand-in"""

    def __enter__(self):
        self.old = sys.modules.get("h5py")
        _store.clear()
        sys.modules["h5py"] = module()

    def __exit__(self, *args):
        if self.old is None:
            sys.modules.pop("h5py", None)
        else:
            sys.modules["h5py"] = self.old
