"""The `numpy` the code under symbolic execution sees."""
import types
from fractions import Fraction

import numpy as np

from . import path as pth
from . import terms as tm
from .sarr import (Sym, SymArr, SymBool, Unsupported, a_argsort, a_clip, a_cum, a_matmul, a_mean, a_sort, a_sum, a_var, f_atan2,
                   a_argext, array_ufunc, astype, bterm, concrete_mask, coerce, ew, is_sym, kind, kind_of_dtype, land,
                   lor, mk, mkbool, plain, reduce_, rnd, s_add, s_gt, s_isclose, s_lt, s_mul, s_where, sarr, smax, smin,
                   term, wrap)


def any_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArr)):
        return True
    if isinstance(x, np.ndarray):
        return np.ndarray.dtype.__get__(x) == object and any(is_sym(e) for e in x.ravel())
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(any_sym(e, depth + 1) for e in x)
    if depth < 4 and isinstance(x, dict):
        return any(any_sym(e, depth + 1) for e in x.values())
    if type(x).__name__ in ('DataFrame', 'Series', 'SymFrame', 'SymSeries'):
        return any_sym(x.to_numpy())
    return False


def lift(r):
    """floating results of plain numpy calls become exact symbolic values"""
    if isinstance(r, np.ndarray) and not isinstance(r, SymArr):
        if r.dtype.kind == 'f':
            return sarr(r)
        if r.dtype == object and any_sym(r):
            return sarr(r)
        return r
    if isinstance(r, (np.floating, float)):
        return wrap(float(r))
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(lift(e) for e in r)
    if isinstance(r, list):
        return [lift(e) for e in r]
    return r


FUNCS = {}
LINALG = {}


def fn(*names):
    def deco(f):
        for n in names or (f.__name__,):
            FUNCS[n] = f
        return f

    return deco


def np_dtype(dt):
    if isinstance(dt, type) and hasattr(dt, 'dtype') and isinstance(dt.dtype, np.dtype):
        return dt.dtype
    return dt


# --- creation ------------------------------------------------------------------------------------------------------

def _fix(a, dtype, copy):
    """array-like -> array with the wanted dtype"""
    if hasattr(a, 'to_numpy') and not isinstance(a, np.ndarray):
        a = a.to_numpy()
    k = kind_of_dtype(np_dtype(dtype)) if dtype is not None else None
    if isinstance(a, SymArr):
        if k in (None, a.kind, 'o'):
            return a.copy() if copy else a
        return astype(a, np_dtype(dtype))
    if isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) != object:
        if k is None:
            k2 = a.dtype.kind
            if k2 == 'f':
                return sarr(a)
            return a.copy() if copy else a
        if k == 'f':
            return astype(sarr(a), float)
        return np.array(a, np_dtype(dtype), copy=copy)
    if isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == object and not any_sym(a) and k is None:
        try:
            r = sarr(a)
        except TypeError:
            return a.copy() if copy else a
        return r
    if isinstance(a, str) or callable(a) and not is_sym(a):
        return np.array(a, dtype=np_dtype(dtype))
    try:
        r = sarr(a)
    except TypeError:
        return np.array(a, dtype=np_dtype(dtype)) if dtype is not None else np.array(a)
    if r is a:
        r = r.copy()
    # plain integer / boolean content stays a real array
    if k in (None, 'i', 'b') and isinstance(r, SymArr) and r.kind in 'ib' and k in (None, r.kind):
        els = plain(r).ravel()
        if r.kind == 'b' and not any(isinstance(e, SymBool) for e in els) and r.size:
            return np.array([bool(e) for e in els], bool).reshape(r.shape)
        if r.kind == 'i' and all(e.t.op == 'const' for e in els) and r.size:
            try:
                return np.array([int(e.t.val) for e in els], np.int64).reshape(r.shape)
            except OverflowError:
                return r
    if k and k != 'o' and k != getattr(r, 'kind', k):
        r = astype(r, np_dtype(dtype))
        if k == 'i' and all(isinstance(e, Sym) and e.t.op == 'const' for e in plain(r).ravel()):
            return np.array([int(e.t.val) for e in plain(r).ravel()], np.int64).reshape(r.shape)
    return r


@fn()
def array(a, dtype=None, copy=True, ndmin=0, **k):
    r = _fix(a, dtype, True)
    while r.ndim < ndmin:
        r = r[None]
    return r


@fn('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
def asarray(a, dtype=None, *args, **k):
    return _fix(a, dtype, False)


@fn()
def copy(a, *args, **k):
    return _fix(a, None, True)


def _full(shape, v, dtype):
    shape = _shape(shape)
    k = kind_of_dtype(np_dtype(dtype)) if dtype is not None else None
    if k in ('i', 'b') and not is_sym(v):
        return np.full(shape, v, np_dtype(dtype))
    if k == 'o':
        return np.full(shape, v, object)
    if k is None and isinstance(v, (bool, np.bool_, int, np.integer)):
        return np.full(shape, v)
    v = wrap(v)
    o = np.empty(shape, object)
    o.fill(coerce(v, k) if k else v)
    return SymArr(o, k or kind(v))


def _shape(s):
    if is_sym(s):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(e.__index__() for e in s)
    if isinstance(s, np.ndarray):
        return tuple(int(e) for e in s)
    return s


@fn()
def zeros(shape, dtype=float, *a, **k): return _full(shape, 0, dtype)


@fn()
def ones(shape, dtype=float, *a, **k): return _full(shape, 1, dtype)


@fn()
def empty(shape, dtype=float, *a, **k): return _uninit(_shape(shape), kind_of_dtype(np_dtype(dtype)))


def _uninit(shape, k):
    if k == 'o':
        return np.empty(shape, object)
    if k != 'f':
        return SymArr(_fill_uninit(shape, k), k)
    return SymArr(_fill_uninit(shape, k), k)


_un = [0]


def _fill_uninit(shape, k):
    o = np.empty(shape, object)
    f = o.reshape(-1)
    for i in range(f.shape[0]):
        _un[0] += 1
        f[i] = SymBool(tm.var(f'uninit_{_un[0]}', 'B')) if k == 'b' else Sym(tm.var(f'uninit_{_un[0]}'), k)
    return o


@fn()
def full(shape, v, dtype=None, *a, **k): return _full(shape, v, dtype)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    a = a if isinstance(a, np.ndarray) else sarr(a)
    k = a.kind if isinstance(a, SymArr) else a.dtype.kind
    return {'f': float, 'i': int, 'b': bool}.get(k, float)


@fn()
def zeros_like(a, dtype=None, *x, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), 0, _like_dtype(a, dtype))


@fn()
def ones_like(a, dtype=None, *x, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), 1, _like_dtype(a, dtype))


@fn()
def empty_like(a, dtype=None, *x, shape=None, **k):
    return _uninit(shape if shape is not None else np.shape(a), kind_of_dtype(np_dtype(_like_dtype(a, dtype))))


@fn()
def full_like(a, v, dtype=None, *x, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), v, _like_dtype(a, dtype))


@fn()
def eye(n, m=None, k=0, dtype=float, **kw):
    if kind_of_dtype(np_dtype(dtype)) != 'f':
        return np.eye(n, m, k, np_dtype(dtype))
    return sarr(np.eye(int(n), None if m is None else int(m), k))


@fn()
def identity(n, dtype=None, **k): return eye(n)


@fn()
def arange(*a, dtype=None, **kw):
    if len(a) == 4:
        dtype, a = a[3], a[:3]
    if all(isinstance(x, (int, np.integer)) or (isinstance(x, Sym) and x.k == 'i') for x in a):
        r = np.arange(*[int(x) for x in a])
        if dtype is not None and kind_of_dtype(np_dtype(dtype)) == 'f':
            return sarr(r.astype(float))
        return r
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    n = wrap((wrap(stop) - start) / step).__ceil__()
    n = int(n)
    return sarr([wrap(start) + wrap(step) * i for i in range(n)])


@fn()
def linspace(a, b, n=50, endpoint=True, **k):
    n = int(n)
    d = n - 1 if endpoint else n
    if np.ndim(a) or np.ndim(b):
        a, b = np.broadcast_arrays(plain(sarr(a)), plain(sarr(b)))
        out = np.empty((n,) + a.shape, object)
        for ix in np.ndindex(a.shape):
            out[(slice(None),) + ix] = list(plain(linspace(a[ix], b[ix], n, endpoint)))
        return mk(out, 'f')
    a, b = wrap(a), wrap(b)
    return sarr([a + (b - a) * Fraction(i, d) if d else a + 0.0 for i in range(n)])


@fn()
def repeat(a, n, axis=None):
    if not any_sym(a) and not isinstance(a, (float, np.floating)) and not any_sym(n):
        return lift(np.repeat(a, n, axis))
    a = sarr(a)
    if isinstance(n, (SymArr,)):
        n = np.array([int(x) for x in n])
    r = np.repeat(plain(a), n if not is_sym(n) else int(n), axis)
    return SymArr(r, a.kind)


@fn()
def tile(a, reps):
    a2 = a if isinstance(a, np.ndarray) and not isinstance(a, SymArr) and a.dtype.kind in 'ib' else sarr(a)
    reps = tuple(int(r) for r in reps) if isinstance(reps, (tuple, list)) else int(reps)
    if not isinstance(a2, SymArr):
        return np.tile(a2, reps)
    return SymArr(np.tile(plain(a2), reps), a2.kind)


def _multi(name):
    def f(arrs, *args, **kw):
        arrs = list(arrs) if not isinstance(arrs, np.ndarray) else list(arrs)
        if not any(any_sym(a) or isinstance(a, float) for a in arrs) and all(
                not isinstance(a, np.ndarray) or a.dtype.kind in 'ib' for a in arrs):
            return lift(getattr(np, name)(arrs, *args, **kw))
        ss = [sarr(a) for a in arrs]
        k = 'b'
        from .sarr import join
        for s in ss:
            k = join(k, s.kind)
        ss = [plain(astype(s, {'f': float, 'i': int, 'b': bool}[k])) if k != 'b' else plain(s).astype(object) for s in ss]
        ss = [np.asarray(s, object) for s in ss]
        return mk(getattr(np, name)(ss, *args, **kw), k)

    FUNCS[name] = f
    return f


for _n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack'):
    _multi(_n)


class _RC:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, ix):
        return FUNCS['column_stack'](ix if isinstance(ix, tuple) else (ix,)) if self.name == 'c_' else \
            FUNCS['concatenate'](ix if isinstance(ix, tuple) else (ix,))


def _structural(name, nret=1):
    """functions that only move elements around"""
    real = getattr(np, name)

    def f(a, *args, **kw):
        if not isinstance(a, SymArr):
            if not any_sym(a) and not isinstance(a, float):
                try:
                    return lift(real(a, *args, **kw))
                except TypeError:
                    pass
            a = sarr(a)
        args = [x.__index__() if is_sym(x) else x for x in args]
        r = real(plain(a), *args, **kw)
        return SymArr(r, a.kind) if isinstance(r, np.ndarray) else r

    FUNCS[name] = f


for _n in ('ravel', 'reshape', 'transpose', 'squeeze', 'expand_dims', 'moveaxis', 'swapaxes', 'flip', 'fliplr',
           'flipud', 'roll', 'diagonal', 'broadcast_to', 'rot90', 'delete', 'take', 'atleast_1d', 'atleast_2d'):
    _structural(_n)


@fn()
def ravel(a, *args, **k):
    a = asarray(a)
    return a.ravel(*args, **k) if isinstance(a, np.ndarray) else sarr([a])


@fn()
def diag(a, k=0):
    if not any_sym(a):
        a = np.asarray(a)
        if a.dtype.kind in 'ib':
            return np.diag(a, k)
    a = sarr(a)
    p = plain(a)
    if p.ndim == 2:
        return SymArr(np.diagonal(p, k).copy(), a.kind)
    n = len(p) + abs(k)
    o = plain(_full((n, n), 0.0, float)).copy()
    for i in range(len(p)):
        o[i + max(-k, 0), i + max(k, 0)] = coerce(p[i], 'f')
    return SymArr(o, 'f')


def _tri(low):
    def f(a, k=0):
        a = sarr(a)
        o = plain(a).copy()
        for i in range(o.shape[0]):
            for j in range(o.shape[1]):
                if (j - i > k) if low else (j - i < k):
                    o[i, j] = Sym(tm.ZERO, a.kind)
        return SymArr(o, a.kind)

    return f


FUNCS['tril'] = _tri(True)
FUNCS['triu'] = _tri(False)


@fn()
def fill_diagonal(a, v, wrap_=False):
    for i in range(min(a.shape)):
        a[i, i] = v[i] if isinstance(v, np.ndarray) and v.ndim else v


@fn()
def where(c, *ab):
    if not ab:
        return np.nonzero(concrete_mask(sarr(c)) if any_sym(c) else np.asarray(c))
    a, b = ab
    return ew(s_where, c, a, b)


@fn('nonzero')
def nonzero(a): return where(a)


@fn('flatnonzero')
def flatnonzero(a): return where(ravel(a))[0]


@fn('argwhere')
def argwhere(a): return np.transpose(where(a))


@fn()
def isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


@fn('sum')
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not any_sym(a):
        return lift(np.sum(a, axis=axis, keepdims=keepdims))
    return a_sum(a, axis=axis, keepdims=keepdims)


@fn('nansum')
def nansum(a, axis=None, **k):
    return a_sum(ew(lambda x: Sym(tm.ZERO) if term(x) is tm.NAN else x, a), axis=axis)


def _nanred(f):
    def g(a, axis=None, **k):
        a = sarr(a)
        if axis is None:
            return f(sarr([x for x in plain(a).ravel() if term(x) is not tm.NAN]))
        return sarr([g(x) for x in (a if axis in (1, -1) else a.T)])

    return g


FUNCS['nanmean'] = _nanred(lambda a: a_mean(a))
FUNCS['nanmax'] = _nanred(lambda a: a.max())
FUNCS['nanmin'] = _nanred(lambda a: a.min())
FUNCS['nanstd'] = _nanred(lambda a: a.std())


@fn('prod', 'product')
def prod(a, axis=None, **k):
    if not any_sym(a):
        return lift(np.prod(a, axis=axis))
    return sarr(a).prod(axis)


@fn('max', 'amax')
def max_(a, axis=None, **k):
    if not any_sym(a):
        return lift(np.max(a, axis=axis))
    return sarr(a).max(axis)


@fn('min', 'amin')
def min_(a, axis=None, **k):
    if not any_sym(a):
        return lift(np.min(a, axis=axis))
    return sarr(a).min(axis)


@fn('mean', 'average')
def mean(a, axis=None, **k):
    if k.get('weights') is not None:
        w = sarr(k['weights'])
        a = sarr(a)
        if axis is not None and w.ndim == 1 and a.ndim > 1:
            shp = [1] * a.ndim
            shp[axis] = len(w)
            w2 = w.reshape(shp)
        else:
            w2 = w
        return a_sum(a * w2, axis=axis) / a_sum(w)
    return a_mean(a, axis=axis)


@fn('var')
def var(a, axis=None, ddof=0, **k): return a_var(a, axis, ddof)


@fn('std')
def std(a, axis=None, ddof=0, **k): return array_ufunc(np.sqrt, '__call__', (a_var(a, axis, ddof),), {})


@fn('any')
def any_(a, axis=None, **k):
    if not any_sym(a):
        return np.any(a, axis=axis)
    return reduce_(lor, a, axis, False, False, 'b')


@fn('all')
def all_(a, axis=None, **k):
    if not any_sym(a):
        return np.all(a, axis=axis)
    return reduce_(land, a, axis, False, True, 'b')


@fn()
def cumsum(a, axis=None, **k): return a_cum(s_add, a, axis) if any_sym(a) else lift(np.cumsum(a, axis))


@fn()
def cumprod(a, axis=None, **k): return a_cum(s_mul, a, axis) if any_sym(a) else lift(np.cumprod(a, axis))


@fn()
def argmax(a, axis=None, **k): return a_argext(a, axis, s_gt) if any_sym(a) else np.argmax(a, axis)


@fn()
def argmin(a, axis=None, **k): return a_argext(a, axis, s_lt) if any_sym(a) else np.argmin(a, axis)


@fn()
def argsort(a, axis=-1, **k): return a_argsort(a, axis) if any_sym(a) else np.argsort(a, axis, **k)


@fn()
def sort(a, axis=-1, **k): return a_sort(a, axis) if any_sym(a) else lift(np.sort(a, axis))


@fn()
def clip(a, lo=None, hi=None, **k): return a_clip(a, lo, hi)


@fn()
def take_along_axis(a, ix, axis):
    ix = _ints(ix)
    a = sarr(a)
    return SymArr(np.take_along_axis(plain(a), ix, axis), a.kind)


def _ints(ix):
    if isinstance(ix, SymArr):
        return np.array([x.__index__() for x in plain(ix).ravel()], int).reshape(ix.shape)
    return ix


@fn()
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not any_sym(a):
        return lift(np.unique(a, return_index, return_inverse, return_counts, axis))
    if axis is not None:
        raise Unsupported('np.unique with axis')
    xs = list(plain(sarr(a)).ravel())
    from .sarr import _order, s_eq
    o = _order(xs)
    vals, counts, inv, first = [], [], [0] * len(xs), []
    for j in o:
        if vals and bool(s_eq(vals[-1], xs[j])):
            counts[-1] += 1
        else:
            vals.append(xs[j])
            counts.append(1)
            first.append(j)
        inv[j] = len(vals) - 1
    out = [sarr(vals)]
    if return_index:
        out.append(np.array(first))
    if return_inverse:
        out.append(np.array(inv))
    if return_counts:
        out.append(np.array(counts))
    return out[0] if len(out) == 1 else tuple(out)


@fn()
def diff(a, n=1, axis=-1, **k):
    n = int(n)
    if not any_sym(a) and np.asarray(a).dtype.kind in 'ib':
        return np.diff(a, n, axis)
    a = sarr(a)
    for _ in range(n):
        p = np.moveaxis(plain(a), axis, 0)
        r = np.empty((p.shape[0] - 1,) + p.shape[1:], object)
        for i in range(r.shape[0]):
            for j in np.ndindex(p.shape[1:]):
                r[(i,) + j] = p[(i + 1,) + j] - p[(i,) + j]
        a = SymArr(np.moveaxis(r, 0, axis), a.kind)
    return a


@fn()
def outer(a, b):
    a, b = ravel(a), ravel(b)
    return sarr(a)[:, None] * sarr(b)[None, :]


@fn('dot')
def dot(a, b, **k):
    return a_matmul(a, b)


@fn('matmul')
def matmul(a, b, **k): return a_matmul(a, b)


@fn()
def inner(a, b):
    return a_matmul(a, sarr(b).T)


@fn()
def einsum(spec, *ops, **k):
    ops = [plain(sarr(o)) for o in ops]
    ins, _, outp = spec.replace(' ', '').partition('->')
    ins = ins.split(',')
    letters = sorted(set(''.join(ins)))
    if '->' not in spec:
        outp = ''.join(sorted(l for l in letters if ''.join(ins).count(l) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for l, n in zip(s, o.shape):
            dims[l] = max(dims.get(l, 1), n)
    rest = [l for l in letters if l not in outp]
    out = np.empty([dims[l] for l in outp], object)
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outp, oi))
        acc = []
        for ri in np.ndindex(*[dims[l] for l in rest]):
            env.update(zip(rest, ri))
            acc.append(tm.mul(*[term(o[tuple(env[l] if o.shape[j] > 1 else 0 for j, l in enumerate(s))])
                                for s, o in zip(ins, ops)]))
        out[oi] = Sym(tm.add(tm.ZERO, *acc))
    return out[()] if out.ndim == 0 else SymArr(out, 'f')


@fn()
def trace(a, *x, **k): return a_sum(diag(a))


@fn()
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ew(lambda x, y: s_isclose(x, y, rtol, atol), a, b)


@fn()
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


@fn()
def array_equal(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return all_(a == b)


@fn()
def isreal(a): return ew(lambda x: True, a)


@fn()
def iscomplex(a): return ew(lambda x: False, a)


@fn()
def iscomplexobj(a): return False


@fn()
def isrealobj(a): return True


@fn()
def isposinf(a): return ew(lambda x: term(x) is tm.INF, a)


@fn()
def isneginf(a): return ew(lambda x: term(x) is tm.NINF, a)


@fn('round', 'around', 'round_')
def round_(a, decimals=0, **k):
    return ew(lambda x: rnd(x, decimals), a)


@fn()
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        t = term(x)
        if t is tm.NAN:
            return wrap(nan)
        if t is tm.INF:
            return wrap(1.7976931348623157e308 if posinf is None else posinf)
        if t is tm.NINF:
            return wrap(-1.7976931348623157e308 if neginf is None else neginf)
        return x

    return ew(f, a)


@fn()
def corrcoef(x, y=None, rowvar=True, **k):
    c = cov(x, y, rowvar)
    d = array_ufunc(np.sqrt, '__call__', (diag(c),), {})
    return c / outer(d, d)


@fn()
def cov(x, y=None, rowvar=True, bias=False, ddof=None, **k):
    x = sarr(x)
    if x.ndim == 1:
        x = x[None, :]
        if y is not None:
            x = FUNCS['vstack']([x, sarr(y)[None, :]])
    elif not rowvar:
        x = x.T
    n = x.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    xc = x - a_mean(x, axis=1, keepdims=True)
    r = a_matmul(xc, xc.T) / (n - dd)
    return r if r.shape != (1, 1) else r[0, 0]


@fn()
def size(a, axis=None):
    if is_sym(a):
        return 1
    if isinstance(a, np.ndarray):
        return a.size if axis is None else a.shape[axis]
    return sarr(a).size


@fn()
def ndim(a):
    if is_sym(a):
        return 0
    return a.ndim if hasattr(a, 'ndim') else sarr(a).ndim


@fn()
def shape(a):
    if is_sym(a):
        return ()
    return a.shape if hasattr(a, 'shape') else sarr(a).shape


@fn()
def vectorize(f, *a, **k):
    def g(x, *rest):
        return ew(f, x, *rest)

    return g


@fn('apply_along_axis')
def apply_along_axis(f, axis, a, *args, **kw):
    a = sarr(a)
    q = np.moveaxis(plain(a), axis, -1)
    outs = [f(SymArr(q[i], a.kind), *args, **kw) for i in np.ndindex(q.shape[:-1])]
    r = sarr([o for o in outs])
    if isinstance(outs[0], np.ndarray) and outs[0].ndim:
        r = r.reshape(q.shape[:-1] + outs[0].shape)
        return SymArr(np.moveaxis(plain(r), -1, axis), r.kind)
    return r.reshape(q.shape[:-1])


@fn()
def heaviside(a, h):
    return ew(lambda x: s_where(s_lt(x, 0), 0.0, s_where(s_gt(x, 0), 1.0, h)), a)


@fn()
def searchsorted(a, v, side='left', **k):
    a = sarr(a)

    def f(x):
        tot = [term(s_lt(e, x)) if side == 'left' else term(mkbool(tm.le(term(e), term(x)))) for e in plain(a)]
        return Sym(tm.add(tm.ZERO, *tot), 'i')

    return ew(f, v)


@fn()
def median(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('np.median axis')
    s = a_sort(ravel(a))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@fn()
def ptp(a, axis=None): return sarr(a).max(axis) - sarr(a).min(axis)


@fn()
def angle(z, deg=False):
    if deg:
        raise Unsupported('degrees')
    if type(z).__name__ == 'CX':
        return np.arctan2(z.imag, z.real)
    return ew(lambda x: f_atan2(Sym(tm.ZERO), x), z, kind='f' if np.ndim(z) else None)


@fn('ma_array')
def ma_array(*a, **k): raise Unsupported('masked arrays')


@fn()
def matrix(*a, **k): raise Unsupported('np.matrix')


@fn()
def isin(a, b, **k):
    b = list(plain(sarr(b)).ravel())
    from .sarr import s_eq
    return ew(lambda x: mkbool(tm.or_(*[bterm(s_eq(x, y)) for y in b])), a)


@fn()
def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


@fn()
def count_nonzero(a, axis=None, **k):
    return a_sum(sarr(ew(lambda x: mkbool(bterm(x)), a)), axis=axis)


@fn()
def append(a, v, axis=None):
    if axis is None:
        return FUNCS['concatenate']([ravel(a), ravel(v)])
    return FUNCS['concatenate']([a, v], axis=axis)


# --- linear algebra ------------------------------------------------------------------------------------------------

def la(*names):
    def deco(f):
        for n in names or (f.__name__,):
            LINALG[n] = f
        return f

    return deco


def _mat(a):
    a = sarr(a)
    return [[term(a[i, j]) for j in range(a.shape[1])] for i in range(a.shape[0])]


_tdet = tm.det


@la('det')
def det(a):
    a = sarr(a)
    if a.ndim == 3:
        return sarr([det(x) for x in a])
    if a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return Sym(_tdet(_mat(a)))


@la('inv', 'pinv', 'pinvh')
def inv(a, *x, **k):
    m = _mat(a)
    n = len(m)
    d = _tdet(m)
    if pth.decide_cond(tm.eq(d, tm.ZERO)):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for q, r in enumerate(m) if q != i]
            c = _tdet(minor)
            if (i + j) % 2:
                c = tm.neg(c)
            out[j, i] = Sym(tm.div(c, d))
    return SymArr(out, 'f')


@la('slogdet')
def slogdet(a):
    from .sarr import f_abs, f_log, f_sign
    d = det(a)
    return f_sign(d), f_log(f_abs(d))


@la('solve')
def solve(a, b): return a_matmul(inv(a), b)


@la('cholesky')
def cholesky(a, lower=True, **k):
    m = _mat(a)
    n = len(m)
    L = [[tm.ZERO] * n for _ in range(n)]
    from .sarr import f_sqrt
    for i in range(n):
        for j in range(i + 1):
            s = tm.sub(m[i][j], tm.add(tm.ZERO, *[tm.mul(L[i][q], L[j][q]) for q in range(j)]))
            if i == j:
                if not pth.decide_cond(tm.lt(tm.ZERO, s)):
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i][j] = f_sqrt(Sym(s)).t
            else:
                L[i][j] = tm.div(s, L[j][j])
    return SymArr(np.array([[Sym(x) for x in r] for r in L], object), 'f')


@la('eigvalsh', 'eigvals')
def eigvalsh(a, *x, **k):
    """the roots of the characteristic polynomial in ascending order (symmetric matrices, dimension <= 6)"""
    m = _mat(a)
    n = len(m)
    if n == 1:
        return sarr([Sym(m[0][0])])
    if n > 6:
        raise Unsupported('eigenvalues of a matrix larger than 6 x 6')
    tri = [m[i][j] for i in range(n) for j in range(i + 1)]
    ev = [tm.uf(f'eig{n}_{k}', tri) for k in range(n)]
    p = pth.current()
    cs = [tm.mk('le', (a, b), sort='B') for a, b in zip(ev, ev[1:])]
    for c in cs + [tm.eq(tm.add(*ev), tm.add(*[m[i][i] for i in range(n)]))]:
        p.pc.append(c)
        p._learn(c)
    return sarr([Sym(e) for e in ev])


@la('norm')
def norm(a, ord=None, axis=None, **k):
    a = sarr(a)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('matrix norm')
    s = a_sum(a * a, axis=axis)
    return array_ufunc(np.sqrt, '__call__', (s,), {})


@la('multi_dot')
def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = a_matmul(r, x)
    return r


@la('matrix_rank')
def matrix_rank(a, *x, **k):
    d = det(a)
    if bool(d != 0):
        return sarr(a).shape[0]
    raise Unsupported('rank of a singular matrix')


class Errstate:
    def __init__(self, **k): pass

    def __enter__(self): return self

    def __exit__(self, *a): return False

    def __call__(self, f): return f


PASS = {'errstate', 'seterr', 'finfo', 'iinfo', 'ix_', 'triu_indices', 'tril_indices', 'diag_indices', 'ndindex',
        'ndenumerate', 'broadcast_shapes', 'issubdtype', 'triu_indices_from', 'tril_indices_from', 'printoptions',
        'set_printoptions', 'dtype', 'result_type', 'geterr', 'broadcast', 'can_cast', 'indices'}


class UfuncProxy:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin

    def __call__(self, *a, **k):
        ins = a[:self.uf.nin]
        for x in ins:
            if type(x).__name__ in ('SymFrame', 'SymSeries'):
                return x.__array_ufunc__(self.uf, '__call__', *ins, **k)
        if len(a) > self.uf.nin:
            k['out'] = a[self.uf.nin]
        k.pop('dtype', None)
        # integer-only arithmetic stays native
        if not any_sym(ins) and not any_sym(k.get('out')) and not any_sym(k.get('where')) and all(
                _intlike(x) for x in ins) and self.__name__ in NATIVE_INT:
            return self.uf(*a, **k)
        for x in ins:
            if type(x).__name__ == 'CX' and self.__name__ == 'absolute':
                return abs(x)
            if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x).kind == 'c' or isinstance(x, complex):
                return self.uf(*a, **k)
        return array_ufunc(self.uf, '__call__', ins, k)

    def reduce(self, a, axis=0, **k):
        return array_ufunc(self.uf, 'reduce', (a,), dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return array_ufunc(self.uf, 'accumulate', (a,), dict(axis=axis, **k))

    def outer(self, a, b, **k):
        return array_ufunc(self.uf, 'outer', (a, b), k)


def _intlike(x):
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return True
    if isinstance(x, np.ndarray):
        return np.ndarray.dtype.__get__(x).kind in 'iub'
    if isinstance(x, (list, tuple)):
        return all(_intlike(e) for e in x)
    return False


NATIVE_INT = {'add', 'subtract', 'multiply', 'absolute', 'negative', 'floor_divide', 'remainder', 'maximum', 'minimum',
              'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
              'logical_not', 'bitwise_and', 'bitwise_or', 'invert', 'sign', 'isnan', 'isfinite', 'isinf', 'square',
              'power', 'logical_xor', 'bitwise_xor'}


def generic(real):
    def g(*a, **k):
        if any_sym(a) or any_sym(k):
            raise Unsupported(f'numpy function {real.__name__} on symbolic values')
        return lift(real(*a, **k))

    g.__name__ = real.__name__
    return g


class LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name in LINALG:
            return LINALG[name]
        real = getattr(np.linalg, name)
        return generic(real) if callable(real) else real


class NumpyProxy(types.ModuleType):
    def __init__(self, rng):
        super().__init__('numpy')
        self.random = rng
        self.linalg = LinalgProxy()
        self.errstate = Errstate
        self._cache = {}

    pi = Sym(tm.PI)
    e = Sym(tm.exp(tm.ONE))
    nan = NaN = NAN = float('nan')
    inf = Inf = infty = float('inf')
    newaxis = None
    c_ = _RC('c_')
    r_ = _RC('r_')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = self._cache.get(name)
        if c is None:
            c = self._cache[name] = self._make(name)
        return c

    def _make(self, name):
        if name in FUNCS:
            return FUNCS[name]
        real = getattr(np, name)
        if name in PASS or isinstance(real, type):
            return real
        if isinstance(real, np.ufunc):
            return UfuncProxy(real)
        if isinstance(real, types.ModuleType):
            return real
        if callable(real):
            return generic(real)
        return real
