"""Data frames and series with symbolic values: pandas objects of dtype object whose arithmetic goes through the symbolic arrays."""
import operator

import numpy as np
import pandas as pd

from .sarr import SymArr, Sym, SymBool, Unsupported, array_ufunc, is_sym, plain, sarr, wrap


def arr(x):
    return sarr(x.to_numpy()) if hasattr(x, 'to_numpy') else x


def like(x, v):
    """v with the labels of x when the shapes agree"""
    if not isinstance(v, np.ndarray) or np.ndim(v) == 0:
        return v
    p = plain(v) if isinstance(v, SymArr) else np.asarray(v)
    p = p.astype(object)
    if isinstance(x, pd.DataFrame) and p.shape == x.shape:
        return SymFrame(p, index=x.index, columns=x.columns)
    if isinstance(x, pd.Series) and p.shape == x.shape:
        return SymSeries(p, index=x.index, name=x.name)
    return v


def aligned(x, o):
    if isinstance(o, (pd.Series, pd.DataFrame)):
        same = type(o) is type(x) and o.index.equals(x.index) and (
            not isinstance(x, pd.DataFrame) or o.columns.equals(x.columns))
        if not same:
            raise Unsupported('alignment of labelled data')
    return arr(o)


def _bin(op, swap=False):
    def f(self, o):
        if isinstance(o, str) or o is None:
            return NotImplemented
        a, b = arr(self), aligned(self, o)
        r = op(b, a) if swap else op(a, b)
        if isinstance(o, np.ndarray) and np.shape(r) != self.shape:
            raise ValueError(f'Unable to coerce to the labelled data, shape must be {self.shape}: given {np.shape(o)}')
        return like(self, r)

    return f


def _red(name):
    def f(self, axis=0, *a, **k):
        for drop in ('skipna', 'numeric_only', 'out', 'bool_only'):
            k.pop(drop, None)
        v = arr(self)
        if isinstance(self, pd.Series) or axis is None and name not in ('sum', 'prod'):
            return getattr(v, name)(**k)
        axis = 0 if axis is None else {'index': 0, 'columns': 1}.get(axis, axis)
        r = getattr(v, name)(axis=axis, **k)
        return SymSeries(plain(sarr(r)).astype(object), index=self.columns if axis == 0 else self.index)

    return f


def mask_of(k):
    """a concrete mask when k is one made of symbolic truth values"""
    if isinstance(k, (pd.Series, pd.DataFrame)) and all(isinstance(v, (bool, np.bool_, SymBool)) for v in k.to_numpy().ravel()) \
            and k.size:
        k = k.to_numpy()
    if isinstance(k, np.ndarray) and np.ndarray.dtype.__get__(k) == object and k.size and all(
            isinstance(v, (bool, np.bool_, SymBool)) for v in (plain(k) if isinstance(k, SymArr) else k).ravel()):
        p = plain(k) if isinstance(k, SymArr) else k
        return np.array([bool(v) for v in p.ravel()], bool).reshape(p.shape)
    if isinstance(k, SymArr):
        raise Unsupported('symbolic index into labelled data')
    return k


class _Mix:
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        first = next(x for x in inputs if isinstance(x, _Mix))
        if kw.get('out') is not None:
            raise Unsupported('ufunc result written into labelled data')
        return like(first, array_ufunc(ufunc, method, tuple(arr(x) if isinstance(x, _Mix) else x for x in inputs), kw))

    def __neg__(self):
        return like(self, -arr(self))

    def __abs__(self):
        return like(self, abs(arr(self)))

    def __invert__(self):
        return like(self, ~arr(self))

    def abs(self):
        return abs(self)

    def __getitem__(self, k):
        return super().__getitem__(mask_of(k))

    def __setitem__(self, k, v):
        k = mask_of(k)
        if isinstance(v, SymArr):
            v = plain(v)
        elif isinstance(v, float):
            v = wrap(v)
        if isinstance(k, np.ndarray) and k.dtype == bool and isinstance(self, pd.Series):
            vals = self._values
            if np.ndarray.dtype.__get__(vals) != object:
                raise Unsupported('assignment into labelled data')
            vals[k] = v
            return
        super().__setitem__(k, v)

    def astype(self, dt, **k):
        return like(self, arr(self).astype(dt))


for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'floordiv', 'mod'):
    _op = getattr(operator, _n)
    setattr(_Mix, f'__{_n}__', _bin(_op))
    setattr(_Mix, f'__r{_n}__', _bin(_op, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(_Mix, f'__{_n}__', _bin(getattr(operator, _n)))
for _n in ('and', 'or', 'xor'):
    setattr(_Mix, f'__{_n}__', _bin(getattr(operator, f'__{_n}__')))
    setattr(_Mix, f'__r{_n}__', _bin(getattr(operator, f'__{_n}__'), True))
for _n in ('sum', 'prod', 'mean', 'max', 'min', 'any', 'all'):
    setattr(_Mix, _n, _red(_n))
_Mix.__hash__ = None


class SymSeries(_Mix, pd.Series):
    @property
    def _constructor(self):
        return SymSeries

    @property
    def _constructor_expanddim(self):
        return SymFrame

    def item(self):
        return arr(self).item()


class SymFrame(_Mix, pd.DataFrame):
    @property
    def _constructor(self):
        return SymFrame

    @property
    def _constructor_sliced(self):
        return SymSeries


def make(real, data, a, k):
    """frame or series: symbolic content makes it a symbolic one"""
    cls = SymFrame if issubclass(real, pd.DataFrame) else SymSeries
    return cls(data, *a, **k)
