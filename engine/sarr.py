"""Symbolic scalars and arrays that flow through the real code in place of floats and numpy arrays."""
import numbers
from fractions import Fraction
import math

import numpy as np

from . import path as pth
from . import terms as tm
from .terms import T


class Unsupported(Exception):
    """the code did something the symbolic execution has no model for"""


# --- scalars -------------------------------------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def wrap(x):
    """anything scalar -> Sym | SymBool | bool"""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return Sym(tm.const(int(x)), 'i')
    if isinstance(x, (float, np.floating)):
        return Sym(tm.const(float(x)), 'f')
    if isinstance(x, Fraction):
        return Sym(tm.const(x), 'f')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return wrap(x.item())
    if x is None:
        return Sym(tm.NAN, 'f')
    raise TypeError(f'no symbolic value for {type(x).__name__}')


def term(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return tm.ite(x.b, tm.ONE, tm.ZERO)
    if isinstance(x, bool):
        return tm.ONE if x else tm.ZERO
    return term(wrap(x))


def bterm(x):
    """truth value as a boolean term"""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, Sym):
        if x.t is tm.NAN:
            return tm.TRUE
        return tm.not_(tm.eq(x.t, tm.ZERO))
    return bterm(wrap(x))


def mkbool(b):
    if b is tm.TRUE:
        return np.True_
    if b is tm.FALSE:
        return np.False_
    return SymBool(b)


def kind(x):
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


def join(a, b):
    if 'f' in (a, b):
        return 'f'
    if 'i' in (a, b):
        return 'i'
    return 'b'


def _arr_like(x):
    return isinstance(x, np.ndarray)


class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return pth.decide_cond(self.b)

    def __repr__(self):
        return f'SymBool({self.b!r})'

    def _bin(self, o, f, ufn):
        if _arr_like(o):
            return ufn(self, o)
        return mkbool(f(self.b, bterm(o)))

    def __and__(self, o):
        return self._bin(o, tm.and_, np.logical_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, tm.or_, np.logical_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: tm.not_(tm.iff(a, b)), np.logical_xor)

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(tm.not_(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return mkbool(tm.iff(self.b, bterm(o)))
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return mkbool(tm.not_(tm.iff(self.b, bterm(o))))
        return self._num() != o

    __hash__ = object.__hash__

    def _num(self):
        return Sym(term(self), 'i')

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def astype(self, dt):
        return astype(self, dt)

    dtype = np.dtype(bool)
    ndim = 0
    size = 1
    shape = ()

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self, *a):
        return self


def _bnum(name):
    def f(self, *a):
        return getattr(self._num(), name)(*a)

    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'rpow', 'lt', 'le', 'gt', 'ge',
           'neg', 'abs', 'floordiv', 'mod', 'rfloordiv', 'rmod'):
    setattr(SymBool, f'__{_n}__', _bnum(f'__{_n}__'))


class Sym(numbers.Real):
    __slots__ = ('t', 'k')
    __array_priority__ = 1000

    def __init__(self, t, k='f'):
        self.t, self.k = t, k

    def __repr__(self):
        return f'Sym({self.t!r})'

    # numpy-scalar look
    ndim = 0
    size = 1
    shape = ()
    T = property(lambda self: self)
    imag = property(lambda self: Sym(tm.ZERO, self.k))
    real = property(lambda self: self)

    @property
    def dtype(self):
        return np.dtype('float64' if self.k == 'f' else 'int64')

    def item(self, *a):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        return astype(self, dt)

    def sum(self, *a, **k):
        return self

    max = min = mean = prod = squeeze = sum

    def any(self, *a, **k):
        return mkbool(bterm(self))

    all = any

    def ravel(self):
        return sarr([self])

    flatten = ravel

    def reshape(self, *s):
        return sarr(self).reshape(*s)

    def tolist(self):
        return self

    def is_integer(self):
        return mkbool(tm.eq(self.t, tm.floor(self.t)))

    def __getitem__(self, ix):
        return sarr(self)[ix]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __array__(self, dtype=None):
        a = np.empty((), object)
        a[()] = self
        return a

    def __hash__(self):
        if self.t.op == 'const':
            return hash(self.t.val)
        return hash(self.t.id)

    def __bool__(self):
        return pth.decide_cond(bterm(self))

    # conversions
    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.val)
        if self.t in tm.SPECIAL:
            return {tm.NAN: math.nan, tm.INF: math.inf, tm.NINF: -math.inf}[self.t]
        if not any(s.op in ('var', 'uf') and s is not tm.PI for s in tm.subterms([self.t])):
            return float(tm.evaluate([self.t], {})[0])
        raise Unsupported(f'float() of a symbolic value outside the encoded code: {self!r}')

    def __int__(self):
        return trunc(self).__index__()

    def __index__(self):
        t = self.t
        if t.op == 'const':
            if t.val.denominator != 1:
                raise TypeError('float cannot be interpreted as an integer')
            return int(t.val)
        return concretise(t)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return Sym(tm.floor(self.t), 'i')

    def __ceil__(self):
        return Sym(tm.neg(tm.floor(tm.neg(self.t))), 'i')

    def __round__(self, n=None):
        return rnd(self, n)

    # arithmetic
    def __neg__(self):
        return Sym(tm.neg(self.t), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    def __complex__(self):
        raise Unsupported('complex numbers')

    # float-style methods numpy's object loops call
    def log(self): return f_log(self)

    def exp(self): return f_exp(self)

    def sqrt(self): return f_sqrt(self)

    def log1p(self): return f_log1p(self)

    def expm1(self): return f_expm1(self)

    def sin(self): return f_sin(self)

    def cos(self): return f_cos(self)

    def tan(self): return f_tan(self)

    def floor(self): return f_floor(self)

    def ceil(self): return f_ceil(self)

    def conjugate(self): return self


def _binop(name, fn, ufn):
    def f(self, o):
        if _arr_like(o):
            return ufn(self, o)
        try:
            o = wrap(o)
        except TypeError:
            return NotImplemented
        return fn(self, o)

    def r(self, o):
        if _arr_like(o):
            return ufn(o, self)
        try:
            o = wrap(o)
        except TypeError:
            return NotImplemented
        return fn(o, self)

    setattr(Sym, f'__{name}__', f)
    setattr(Sym, f'__r{name}__', r)


def _absorbs(x, y):
    """machine range only: x + y rounds to x for a constant x and a y of less than 2^-54 times its size"""
    if x.op != 'const' or y.op == 'const' or x is tm.ZERO or y in tm.SPECIAL:
        return False
    r = tm.const(abs(x.val) / 2 ** 54)
    return pth.decide_cond(tm.and_(tm.lt(y, r), tm.lt(tm.neg(r), y)))


def s_add(a, b):
    if MACHINE[0]:
        x, y = term(a), term(b)
        if _absorbs(x, y):
            return Sym(x)
        if _absorbs(y, x):
            return Sym(y)
    return Sym(tm.add(term(a), term(b)), join(kind(a), kind(b)) if 'b' not in (kind(a), kind(b)) or kind(a) != kind(b) else 'i')


def s_sub(a, b):
    k = join(kind(a), kind(b))
    x, y = term(a), term(b)
    if MACHINE[0]:
        if _absorbs(x, y):
            return Sym(x)
        if _absorbs(y, x):
            return Sym(tm.neg(y))
    if x.op == 'const' and y.op == 'add' and len(y.args) == 2 and any(v.op == 'const' and v.val == x.val for v in y.args):
        v = y.args[0] if y.args[1].op == 'const' else y.args[1]     # 1 - (1 - v)
        return Sym(tm.neg(v), 'i' if k == 'b' else k)
    return Sym(tm.sub(x, y), 'i' if k == 'b' else k)


def s_mul(a, b):
    k = join(kind(a), kind(b))
    if k == 'b':
        return mkbool(tm.and_(bterm(a), bterm(b)))
    return Sym(tm.mul(term(a), term(b)), k)


def s_div(a, b):
    tb = term(b)
    ta = term(a)
    if tb.op == 'ite' and not tb.args[1] in tm.SPECIAL and (tb.args[1] is tm.ZERO or tb.args[2] is tm.ZERO):
        tb = tb.args[1] if pth.decide_cond(tb.args[0]) else tb.args[2]
    tb, ta = _split_special(tb), _split_special(ta)
    if tb.op != 'const' and tb not in tm.SPECIAL and tm.sign(tb) not in (1, -1):
        if pth.decide_cond(tm.eq(tb, tm.ZERO)):
            tb = tm.ZERO
    return Sym(tm.div(ta, tb), 'f')


def s_floordiv(a, b):
    k = join(kind(a), kind(b))
    return Sym(tm.floor(tm.div(term(a), term(b))), 'i' if k == 'b' else k)


def s_mod(a, b):
    k = join(kind(a), kind(b))
    ta, tb = term(a), term(b)
    if ta in tm.SPECIAL or tb in tm.SPECIAL:
        return Sym(tm.NAN)
    return Sym(tm.sub(ta, tm.mul(tb, tm.floor(tm.div(ta, tb)))), 'i' if k == 'b' else k)


def s_pow(a, b):
    k = join(kind(a), kind(b))
    ta, tb = term(a), term(b)
    if k != 'f':
        if tb.op == 'const' and tb.val < 0:
            if isinstance(a, Sym) and ta.op == 'const' and ta.val in (1, -1):
                return Sym(tm.const(ta.val ** int(tb.val)), 'i')
            k = 'f'
    if tb.op != 'const' and tb.sort == 'I' or (k == 'i' and tb.op != 'const'):
        if ta is tm.NEG1:
            par = tm.sub(tb, tm.mul(tm.const(2), tm.floor(tm.mul(tm.HALF, tb))))
            return Sym(tm.ite(tm.eq(par, tm.ZERO), tm.ONE, tm.NEG1), k)
    if ta.op == 'const' and ta.val == -1 and tb.op != 'const':
        par = tm.sub(tb, tm.mul(tm.const(2), tm.floor(tm.mul(tm.HALF, tb))))
        c_even = tm.eq(par, tm.ZERO)
        return Sym(tm.ite(c_even, tm.ONE, tm.NEG1), k)
    # zero / infinite special values inside ite: split
    if ta.op == 'ite':
        leafs = (ta.args[1], ta.args[2])
        if any(l in tm.SPECIAL or l is tm.ZERO for l in leafs):
            ta = leafs[0] if pth.decide_cond(ta.args[0]) else leafs[1]
    if tb.op == 'const' and tb.val.denominator == 1 and tb.val < 0 and tm.sign(ta) not in (1, -1):
        # 0 ** negative is infinite
        if pth.decide_cond(tm.eq(ta, tm.ZERO)):
            return Sym(tm.INF)
    elif tb.op != 'const' or tb.val.denominator != 1:
        g = tm.sign(ta) if ta not in tm.SPECIAL else 1
        if g is None or g == '<=0':
            if pth.decide_cond(tm.lt(ta, tm.ZERO)):
                g = -1
            else:
                g = '>=0'
        if g == '>=0' and pth.decide_cond(tm.eq(ta, tm.ZERO)):
            ta = tm.ZERO
        elif g == 0:
            ta = tm.ZERO
        if g == -1:
            return Sym(tm.NAN)
    return Sym(tm.power(ta, tb), k)


_binop('add', s_add, np.add)
_binop('sub', s_sub, np.subtract)
_binop('mul', s_mul, np.multiply)
_binop('truediv', s_div, np.true_divide)
_binop('floordiv', s_floordiv, np.floor_divide)
_binop('mod', s_mod, np.remainder)
_binop('pow', s_pow, np.power)
Sym.__divmod__ = lambda a, b: (a // b, a % b)
Sym.__rdivmod__ = lambda a, b: (b // a, b % a)


def s_lt(a, b): return mkbool(tm.lt(term(a), term(b)))


def s_le(a, b): return mkbool(tm.le(term(a), term(b)))


def s_gt(a, b): return mkbool(tm.lt(term(b), term(a)))


def s_ge(a, b): return mkbool(tm.le(term(b), term(a)))


def s_eq(a, b):
    if kind(a) == 'b' and kind(b) == 'b':
        return mkbool(tm.iff(bterm(a), bterm(b)))
    ta, tb = term(a), term(b)
    if ta is tb and ta in (tm.INF, tm.NINF):
        return True
    return mkbool(tm.eq(ta, tb))


def s_ne(a, b):
    r = s_eq(a, b)
    return (not r) if isinstance(r, bool) else ~r


def _cmpop(name, fn, ufn):
    def f(self, o):
        if _arr_like(o):
            return ufn(self, o)
        try:
            o = wrap(o)
        except TypeError:
            return NotImplemented
        return fn(self, o)

    setattr(Sym, f'__{name}__', f)


for _n, _f, _u in (('lt', s_lt, np.less), ('le', s_le, np.less_equal), ('gt', s_gt, np.greater),
                   ('ge', s_ge, np.greater_equal), ('eq', s_eq, np.equal), ('ne', s_ne, np.not_equal)):
    _cmpop(_n, _f, _u)
Sym.__abstractmethods__ = frozenset()


def concretise(t):
    """fork over the feasible integer values of t"""
    lo, hi, _, _ = tm.bounds(t)
    if t.op == 'ite' or any(s.op == 'ite' for s in tm.subterms([t])):
        # decide the conditions instead
        cur = t
        for _ in range(200):
            c = next((s.args[0] for s in tm.subterms([cur]) if s.op == 'ite'), None)
            if c is None:
                break
            from .decide import assume
            cur = assume(cur, c, pth.decide_cond(c))
        if cur.op == 'const':
            return int(cur.val)
        t = cur
    if lo is None or hi is None or hi - lo > 64:
        raise Unsupported(f'an unbounded symbolic integer is used as a size or index: {t!r}')
    if t.op == 'floor':
        # the same cases, as bounds on the argument
        for k in range(int(lo), int(hi)):
            if pth.decide_cond(tm.lt(t.args[0], tm.const(k + 1))):
                return k
        return int(hi)
    for k in range(math.ceil(lo), math.floor(hi) + 1):
        if pth.decide_cond(tm.eq(t, tm.const(k))):
            return k
    raise pth.PathAbort('no value')


def trunc(x):
    t = x.t
    if t.op == 'const':
        return Sym(tm.const(int(t.val)), 'i')
    if t in tm.SPECIAL:
        raise ValueError('cannot convert float NaN or infinity to integer')
    if x.k == 'i':
        return x
    s = tm.sign(t)
    if s in (1, 0, '>=0'):
        return Sym(tm.floor(t), 'i')
    if s in (-1, '<=0'):
        return Sym(tm.neg(tm.floor(tm.neg(t))), 'i')
    return Sym(tm.ite(tm.le(tm.ZERO, t), tm.floor(t), tm.neg(tm.floor(tm.neg(t)))), 'i')


def rnd(x, n=None):
    """round half to even"""
    t = term(x)
    if t in tm.SPECIAL:
        return Sym(t)
    if n:
        f = tm.const(10 ** int(n)) if n >= 0 else tm.div(tm.ONE, tm.const(10 ** -int(n)))
        return Sym(tm.div(rnd(Sym(tm.mul(t, f)), 0).t, f), 'f')
    if t.op == 'const':
        return Sym(tm.const(round(t.val)), 'i' if n is None else 'f')
    if kind(x) == 'i':
        return x
    fl = tm.floor(tm.add(t, tm.HALF))
    # exactly half: choose the even neighbour
    odd = tm.eq(tm.sub(fl, tm.mul(tm.const(2), tm.floor(tm.mul(tm.HALF, fl)))), tm.ONE)
    half = tm.eq(tm.sub(tm.add(t, tm.HALF), fl), tm.ZERO)
    return Sym(tm.ite(tm.and_(half, odd), tm.sub(fl, tm.ONE), fl), 'i' if n is None else 'f')


# --- unary functions -----------------------------------------------------------------------------------------------

def _split_special(t):
    """resolve an ite with special leaves by forking"""
    while t.op == 'ite' and (t.args[1] in tm.SPECIAL or t.args[2] in tm.SPECIAL):
        t = t.args[1] if pth.decide_cond(t.args[0]) else t.args[2]
    return t


def f_log(x):
    t = _split_special(term(x))
    if t.op == 'mul' and len(t.args) == 2 and t.args[0] is tm.const(-1) and t.args[1].op == 'add':
        t = tm.add(*(tm.mul(t.args[0], v) for v in t.args[1].args))
    s = tm.sign(t) if t not in tm.SPECIAL else 1
    if s == '>=0':
        # log 0 = -inf is part of the computation
        if pth.decide_cond(tm.eq(t, tm.ZERO)):
            return Sym(tm.NINF)
    elif s == -1:
        return Sym(tm.NAN)
    elif s is None:
        if not pth.decide_cond(tm.lt(tm.ZERO, t)):
            if pth.decide_cond(tm.eq(t, tm.ZERO)):
                return Sym(tm.NINF)
            return Sym(tm.NAN)
    return Sym(tm.log(t))


MACHINE = [False]
EXP_TOP, EXP_BOTTOM = tm.const(Fraction('709.782712893384')), tm.const(Fraction('-745.1332191019412'))


def f_exp(x):
    t = _split_special(term(x))
    if MACHINE[0] and t not in tm.SPECIAL:
        # the range of double precision: too large gives infinity, too small zero
        if pth.decide_cond(tm.lt(EXP_TOP, t)):
            return Sym(tm.INF)
        if pth.decide_cond(tm.lt(t, EXP_BOTTOM)):
            return Sym(tm.ZERO)
    return Sym(tm.exp(t))


def f_logaddexp(x, y):
    if not MACHINE[0]:
        return f_log(s_add(f_exp(x), f_exp(y)))
    x, y = Sym(_split_special(term(x))), Sym(_split_special(term(y)))
    if pth.decide_cond(tm.lt(term(x), term(y))):
        x, y = y, x
    return s_add(x, f_log1p(f_exp(s_sub(y, x))))


def f_sqrt(x):
    t = _split_special(term(x))
    if t not in tm.SPECIAL:
        s = tm.sign(t)
        if s is None:
            if pth.decide_cond(tm.lt(t, tm.ZERO)):
                return Sym(tm.NAN)
        elif s == -1:
            return Sym(tm.NAN)
        if t.op != 'const' and s != 1 and pth.decide_cond(tm.eq(t, tm.ZERO)):
            return Sym(tm.ZERO)
        # sqrt(x^2) = |x|
        if t.op == 'ipow' and t.val == 2:
            return f_abs(Sym(t.args[0]))
        r = _square(t)
        if r is not None:
            return f_abs(Sym(r))
    return Sym(tm.sqrt(t))


def _square(t):
    """q v^k with t = (q v^k)^2, for a rational q and a variable v; or None"""
    if t.op not in ('add', 'mul', 'ipow'):
        return None
    vs = set()
    for u in tm.subterms([t]):
        if u.op == 'var' and u is not tm.PI:
            vs.add(u)
        elif u.op not in ('add', 'mul', 'const', 'ipow'):
            return None
    if len(vs) != 1:
        return None
    from . import nf
    r = nf.rat(t)
    if len(r.num) != 1 or any(len(p) != 1 for p in r.den):
        return None
    (m, c), = r.num.items()
    k = sum(e for _, e in m)
    for p, e in r.den.items():
        (m, d), = p
        c = c / d ** e
        k -= e * sum(x for _, x in m)
    n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
    if k % 2 or c <= 0 or n * n != c.numerator or d * d != c.denominator:
        return None
    return tm.mul(tm.const(Fraction(n, d)), tm.ipow(vs.pop(), k // 2))


def f_log1p(x): return f_log(Sym(tm.add(tm.ONE, term(x))))


def f_expm1(x): return Sym(tm.sub(tm.exp(term(x)), tm.ONE))


def _polar(t):
    """(cos, sin) of a polar angle as f_atan2 gives it, or None"""
    if t.op == 'mul' and len(t.args) == 2 and t.args[0] is tm.const(-1):
        r = _polar(t.args[1])
        return r and (r[0], -r[1])
    if t.op == 'add':       # whole turns
        turns = [v for v in t.args if v.op == 'mul' and len(v.args) == 2 and v.args[1] is tm.PI
                 and v.args[0].op == 'const' and v.args[0].val.denominator == 1]
        if turns:
            k = turns[0].args[0].val
            return _polar(tm.sub(t, tm.mul(tm.const(k - k % 2), tm.PI)))
    if t.op in ('add', 'mul') and (u := [v for v in tm.subterms([t]) if v.op == 'uf' and v.val == 'atan2']) and len(u) == 1:
        for sign in (-1, 1):        # pi - a, pi + a
            if tm.add(tm.PI, tm.mul(tm.const(sign), u[0])) is t:
                r = _polar(u[0])
                return -r[0], r[1] if sign < 0 else -r[1]
    if t.op != 'uf' or t.val != 'atan2':
        return None
    y, x = (Sym(a) for a in t.args)
    h = f_sqrt(x * x + y * y)
    if h.t is tm.ZERO:
        return Sym(tm.ONE), Sym(tm.ZERO)
    return x / h, y / h


def f_sin(x):
    r = _polar(term(x))
    return r[1] if r else Sym(tm.sin(term(x)))


def f_cos(x):
    r = _polar(term(x))
    return r[0] if r else Sym(tm.cos(term(x)))


def _angle_of(y, x):
    """a when (x, y) = c (cos a, sin a) with c > 0"""
    def split(t, op):
        args = t.args if t.op == 'mul' else (t,)
        return {u.args[0].id: (u.args[0], [v for v in args if v is not u]) for u in args if u.op == op}

    p, q = split(y, 'sin'), split(x, 'cos')
    for i, (a, rest) in p.items():
        if i in q and len(rest) == len(q[i][1]) and all(u is v for u, v in zip(rest, q[i][1])):
            c = tm.ONE
            for u in rest:
                c = tm.mul(c, u)
            if not pth.decide_cond(tm.lt(tm.ZERO, c)):
                return None
            for k in (0, 1, -1, 2, -2):
                b = tm.sub(a, tm.mul(tm.const(2 * k), tm.PI))
                if pth.entailed(tm.and_(tm.lt(tm.neg(tm.PI), b), tm.le(b, tm.PI))):
                    return Sym(b)
    return None


def f_atan2(y, x):
    """the angle of (x, y) in (-pi, pi], reduced to the first quadrant"""
    y, x = wrap(y), wrap(x)
    if term(y) in tm.SPECIAL or term(x) in tm.SPECIAL:
        raise Unsupported('atan2 at infinity')
    if pth.decide_cond(tm.eq(y.t, tm.ZERO)):
        return Sym(tm.PI) if pth.decide_cond(tm.lt(x.t, tm.ZERO)) else Sym(tm.ZERO)
    a = _angle_of(y.t, x.t)
    if a is not None:
        return a
    if pth.decide_cond(tm.lt(y.t, tm.ZERO)):
        return -f_atan2(-y, x)
    if pth.decide_cond(tm.lt(x.t, tm.ZERO)):
        return Sym(tm.PI) - f_atan2(y, -x)
    from . import nf
    r = nf.cancel(nf.rat(tm.mul(y.t, tm.ipow(x.t, -1)))) if nf.rat(x.t).num else None
    if r is None:
        return Sym(tm.mul(tm.HALF, tm.PI))
    if set(r.num) == {()} and not r.den:        # the same ray everywhere
        return Sym(tm.uf('atan2', [tm.const(r.num[()]), tm.ONE]))
    return Sym(tm.uf('atan2', [y.t, x.t]))


def f_tan(x): return Sym(tm.tan(term(x)))


def f_floor(x): return Sym(tm.floor(term(x)), 'f')


def f_ceil(x): return Sym(tm.neg(tm.floor(tm.neg(term(x)))), 'f')


def f_trunc(x): return Sym(trunc(Sym(term(x), 'f')).t, 'f')


def f_abs(x):
    t = _split_special(term(x))
    if t is tm.NINF:
        return Sym(tm.INF, 'f')
    if t in tm.SPECIAL:
        return Sym(t, kind(x))
    s = tm.sign(t)
    k = 'i' if kind(x) == 'b' else kind(x)
    if s in (1, 0, '>=0'):
        return Sym(t, k)
    if s in (-1, '<=0'):
        return Sym(tm.neg(t), k)
    c = tm.le(tm.ZERO, t)
    e = pth.entailed(c)
    if e is None:
        return Sym(tm.ite(c, t, tm.neg(t)), k)
    return Sym(t if e else tm.neg(t), k)


def f_sign(x):
    t = _split_special(term(x))
    k = kind(x)
    if t is tm.NAN:
        return Sym(t)
    if t in tm.SPECIAL:
        return Sym(tm.ONE if t is tm.INF else tm.NEG1, k)
    s = tm.sign(t)
    if s in (1, 0, -1):
        return Sym(tm.const(s), k)
    p = pth.entailed(tm.lt(tm.ZERO, t))
    if p:
        return Sym(tm.ONE, k)
    n = pth.entailed(tm.lt(t, tm.ZERO))
    if n:
        return Sym(tm.NEG1, k)
    return Sym(tm.ite(tm.lt(tm.ZERO, t), tm.ONE, tm.ite(tm.eq(t, tm.ZERO), tm.ZERO, tm.NEG1)), k)


def f_isnan(x):
    t = term(x)
    if t.op == 'ite' and any(s is tm.NAN for s in tm.subterms([t])):
        return mkbool(tm.or_(tm.and_(t.args[0], bterm(f_isnan(Sym(t.args[1])))),
                             tm.and_(tm.not_(t.args[0]), bterm(f_isnan(Sym(t.args[2]))))))
    return t is tm.NAN


def f_isinf(x):
    t = _split_special(term(x))
    return t in (tm.INF, tm.NINF)


def f_isfinite(x):
    t = _split_special(term(x))
    return t not in tm.SPECIAL


def f_arcsin(x):
    t = term(x)
    if t.op == 'sin' and False:
        return Sym(t.args[0])
    if t.op == 'const' and t.val in (0, 1, -1):
        return Sym(tm.mul(tm.const(t.val / 2), tm.PI))
    return Sym(tm.uf('arcsin', [t]))


def f_arctan(x):
    t = term(x)
    if t is tm.ZERO:
        return Sym(tm.ZERO)
    if t.op == 'const' and abs(t.val) == 1:
        return Sym(tm.mul(tm.const(t.val / 4), tm.PI))
    # arctan(+-tan(a)) for an angle in the right half plane
    args = t.args if t.op == 'mul' else ()
    c = 1
    if len(args) == 3 and args[0].op == 'const' and abs(args[0].val) == 1:
        c, args = args[0].val, args[1:]
    if len(args) == 2:
        for x, y in (args, args[::-1]):
            if x.op == 'sin' and y.op == 'ipow' and y.val == -1 and y.args[0].op == 'cos' and y.args[0].args[0] is x.args[0]:
                a, h = x.args[0], tm.mul(tm.HALF, tm.PI)
                if pth.entailed(tm.and_(tm.lt(a, h), tm.lt(tm.neg(h), a))):
                    return Sym(tm.mul(tm.const(c), a))
    return Sym(tm.uf('arctan', [t]))


def _num1(mpf):
    return mpf


def _install_numeric():
    import mpmath as mp
    tm.UF_NUM.update(arcsin=lambda x: mp.asin(x) if abs(x) <= 1 else mp.nan, arctan=mp.atan, gammaln=mp.loggamma,
                     gamma=mp.gamma)
    tm.uf_deriv['arcsin'] = lambda args, i: tm.power(tm.sub(tm.ONE, tm.ipow(args[0], 2)), tm.const(Fraction(-1, 2)))
    tm.uf_deriv['arctan'] = lambda args, i: tm.ipow(tm.add(tm.ONE, tm.ipow(args[0], 2)), -1)


_install_numeric()


def smax(a, b):
    ta, tb = _split_special(term(a)), _split_special(term(b))
    k = join(kind(a), kind(b))
    if ta is tm.NAN or tb is tm.NAN:
        return Sym(tm.NAN)
    c = tm.le(tb, ta)
    e = pth.entailed(c)
    if e is not None:
        return Sym(ta if e else tb, k)
    return Sym(tm.ite(c, ta, tb), k)


def smin(a, b):
    ta, tb = _split_special(term(a)), _split_special(term(b))
    k = join(kind(a), kind(b))
    if ta is tm.NAN or tb is tm.NAN:
        return Sym(tm.NAN)
    c = tm.le(ta, tb)
    e = pth.entailed(c)
    if e is not None:
        return Sym(ta if e else tb, k)
    return Sym(tm.ite(c, ta, tb), k)


def f_fmax(a, b):
    if term(a) is tm.NAN:
        return wrap(b)
    if term(b) is tm.NAN:
        return wrap(a)
    return smax(a, b)


def f_fmin(a, b):
    if term(a) is tm.NAN:
        return wrap(b)
    if term(b) is tm.NAN:
        return wrap(a)
    return smin(a, b)


def s_where(c, a, b):
    cb = bterm(c)
    if cb is tm.TRUE:
        return wrap(a)
    if cb is tm.FALSE:
        return wrap(b)
    a, b = wrap(a), wrap(b)
    if kind(a) == 'b' and kind(b) == 'b':
        return mkbool(tm.ite(cb, bterm(a), bterm(b)))
    ta, tb = term(a), term(b)
    if ta in tm.SPECIAL or tb in tm.SPECIAL:
        return a if pth.decide_cond(cb) else b
    return Sym(tm.ite(cb, ta, tb), join(kind(a), kind(b)))


def land(a, b): return mkbool(tm.and_(bterm(a), bterm(b)))


def lor(a, b): return mkbool(tm.or_(bterm(a), bterm(b)))


def lxor(a, b): return mkbool(tm.not_(tm.iff(bterm(a), bterm(b))))


def lnot(a): return mkbool(tm.not_(bterm(a)))


def s_isclose(a, b, rtol=1e-05, atol=1e-08):
    ta, tb = term(a), term(b)
    if ta is tm.NAN or tb is tm.NAN:
        return False
    if ta in tm.SPECIAL or tb in tm.SPECIAL:
        return ta is tb
    d = f_abs(Sym(tm.sub(ta, tb)))
    tol = [term(wrap(c)) for c in (rtol, atol)]
    if d.t is tm.ZERO and all(c.op == 'const' and c.val >= 0 for c in tol):
        return True
    return s_le(d, Sym(tm.add(term(wrap(atol)), tm.mul(term(wrap(rtol)), f_abs(Sym(tb)).t))))


UFUNC1 = {
    'log': (f_log, 'f'), 'exp': (f_exp, 'f'), 'sqrt': (f_sqrt, 'f'), 'log1p': (f_log1p, 'f'), 'expm1': (f_expm1, 'f'),
    'sin': (f_sin, 'f'), 'cos': (f_cos, 'f'), 'tan': (f_tan, 'f'), 'floor': (f_floor, 'f'), 'ceil': (f_ceil, 'f'),
    'trunc': (f_trunc, 'f'), 'absolute': (f_abs, None), 'fabs': (f_abs, 'f'), 'sign': (f_sign, None),
    'negative': (lambda x: -wrap(x), None), 'positive': (wrap, None),
    'isnan': (f_isnan, 'b'), 'isinf': (f_isinf, 'b'), 'isfinite': (f_isfinite, 'b'),
    'logical_not': (lnot, 'b'), 'invert': (lnot, 'b'), 'rint': (lambda x: Sym(rnd(x, 0).t), 'f'),
    'square': (lambda x: s_mul(x, x), None), 'reciprocal': (lambda x: s_div(1, x), 'f'),
    'arcsin': (f_arcsin, 'f'), 'arctan': (f_arctan, 'f'),
    'conjugate': (wrap, None),
    'log2': (lambda x: Sym(tm.div(f_log(x).t, tm.log(tm.const(2)))), 'f'),
    'log10': (lambda x: Sym(tm.div(f_log(x).t, tm.log(tm.const(10)))), 'f'),
    'arccos': (lambda x: Sym(tm.sub(tm.mul(tm.HALF, tm.PI), f_arcsin(x).t)), 'f'),
    'deg2rad': (lambda x: Sym(tm.mul(term(x), tm.PI, tm.const(Fraction(1, 180)))), 'f'),
}
UFUNC2 = {
    'add': (s_add, None), 'subtract': (s_sub, None), 'multiply': (s_mul, None), 'divide': (s_div, 'f'),
    'true_divide': (s_div, 'f'), 'floor_divide': (s_floordiv, None), 'remainder': (s_mod, None), 'mod': (s_mod, None),
    'power': (s_pow, None), 'float_power': (s_pow, 'f'), 'maximum': (smax, None), 'minimum': (smin, None),
    'fmax': (f_fmax, None), 'fmin': (f_fmin, None),
    'less': (s_lt, 'b'), 'less_equal': (s_le, 'b'), 'greater': (s_gt, 'b'), 'greater_equal': (s_ge, 'b'),
    'equal': (s_eq, 'b'), 'not_equal': (s_ne, 'b'),
    'logical_and': (land, 'b'), 'logical_or': (lor, 'b'), 'logical_xor': (lxor, 'b'),
    'bitwise_and': (land, 'b'), 'bitwise_or': (lor, 'b'), 'bitwise_xor': (lxor, 'b'),
    'logaddexp': (f_logaddexp, 'f'),
    'copysign': (lambda a, b: s_where(s_lt(b, 0), -f_abs(a), f_abs(a)), 'f'),
    'arctan2': (f_atan2, 'f'),
    'hypot': (lambda a, b: f_sqrt(s_add(s_mul(a, a), s_mul(b, b))), 'f'),
}


# --- arrays --------------------------------------------------------------------------------------------------------

class SymArr(np.ndarray):
    """object array of Sym / SymBool / bool; `kind` is the dtype it stands for"""

    def __new__(cls, a, kind='f'):
        o = np.asarray(a, object).view(cls)
        o.kind = kind
        return o

    def __array_finalize__(self, o):
        if o is not None:
            self.kind = getattr(o, 'kind', 'f')

    @property
    def dtype(self):
        return np.dtype({'f': 'float64', 'i': 'int64', 'b': 'bool'}[self.kind])

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __getitem__(self, ix):
        r = super().__getitem__(_index(ix))
        return np.bool_(r) if isinstance(r, bool) else r

    def __setitem__(self, ix, v):
        ix = _index(ix)
        if isinstance(v, np.ndarray) and v.size == 1 and v.ndim and isinstance(ix, (int, np.integer)) and self.ndim == 1:
            v = plain(sarr(v)).ravel()[0]
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            v = plain(sarr(v))
            c = np.empty(v.shape, object)
            for i in np.ndindex(v.shape):
                c[i] = coerce(v[i], self.kind)
            v = c
        else:
            v = coerce(wrap(v), self.kind)
        super().__setitem__(ix, v)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().view(np.ndarray)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.view(np.ndarray).ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        if self.size != 1:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self.view(np.ndarray).ravel()[0].__index__()

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def copy(self, *a, **k):
        return mk(plain(self).copy(), self.kind)

    def astype(self, dt, *a, **k):
        return astype(self, dt)

    def item(self, *a):
        return plain(self).item(*a)

    def tolist(self):
        return plain(self).tolist()

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(lor, self, axis, keepdims, False, 'b')

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(land, self, axis, keepdims, True, 'b')

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return a_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(s_mul, self, axis, keepdims, Sym(tm.ONE, 'i'), self.kind)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(smax, self, axis, keepdims, None, self.kind)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(smin, self, axis, keepdims, None, self.kind)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return a_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return a_var(self, axis, ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(a_var(self, axis, ddof=ddof))

    def cumsum(self, axis=None, **k):
        return a_cum(s_add, self, axis)

    def cumprod(self, axis=None, **k):
        return a_cum(s_mul, self, axis)

    def argmax(self, axis=None, **k):
        return a_argext(self, axis, s_gt)

    def argmin(self, axis=None, **k):
        return a_argext(self, axis, s_lt)

    def argsort(self, axis=-1, kind=None, **k):
        return a_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = a_sort(self, axis)

    def dot(self, o):
        return a_matmul(self, o)

    def clip(self, lo=None, hi=None, **k):
        return a_clip(self, lo, hi)

    def round(self, n=0, **k):
        return ew(lambda x: rnd(x, n), self, kind=self.kind)

    def fill(self, v):
        self[...] = v

    def nonzero(self):
        return np.nonzero(concrete_mask(self))

    def trace(self, *a, **k):
        return a_sum(sarr(np.diagonal(plain(self))))

    def tobytes(self, *a, **k):
        raise Unsupported('bytes of a symbolic array')


def plain(a):
    return a.view(np.ndarray)


def mk(a, kind='f'):
    """object ndarray -> SymArr (or a real bool array when nothing is symbolic)"""
    if kind == 'b' and not any(isinstance(x, SymBool) for x in a.ravel()):
        return np.array([bool(x) for x in a.ravel()], bool).reshape(a.shape)
    return SymArr(a, kind)


def sarr(x, kind_=None):
    """to SymArr, values wrapped; real bool arrays stay plain bool content of kind b"""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, Sym) or isinstance(x, SymBool):
        o = np.empty((), object)
        o[()] = x
        return SymArr(o, kind_ or kind(x))
    if hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) != object:
        o = np.empty(x.shape, object)
        f, g = o.reshape(-1), x.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = wrap(g[i])
        k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind)
        if k is None:
            raise TypeError(f'no symbolic array for dtype {x.dtype}')
        return SymArr(f.reshape(x.shape), kind_ or k)
    if not isinstance(x, np.ndarray):
        x = _nest(x)
    o = np.empty(x.shape, object)
    k = 'b'
    for i in np.ndindex(x.shape):
        o[i] = wrap(x[i])
        k = join(k, kind(o[i]))
    if x.size == 0:
        k = 'f'
    if k != 'b':
        for i in np.ndindex(o.shape):
            if isinstance(o[i], (bool, SymBool)):
                o[i] = Sym(term(o[i]), k)
            elif o[i].k != k:
                o[i] = Sym(o[i].t, k)
    return SymArr(o, kind_ or k)


def _nest(x):
    """nested lists / tuples / arrays -> object ndarray"""
    if isinstance(x, np.ndarray):
        return plain(x) if isinstance(x, SymArr) else x.astype(object)
    if hasattr(x, 'to_numpy'):
        return x.to_numpy().astype(object)
    if isinstance(x, (list, tuple, range, map, zip)) or (hasattr(x, '__iter__') and not isinstance(x, (str, dict))
                                                         and not is_sym(x)):
        parts = [_nest(e) for e in x]
        if not parts:
            return np.empty((0,), object)
        shp = {p.shape for p in parts}
        if len(shp) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous '
                             'shape')
        out = np.empty((len(parts),) + parts[0].shape, object)
        for i, p in enumerate(parts):
            if p.ndim == 0:
                out[i] = p[()]
            else:
                out[i, ...] = p
        return out
    o = np.empty((), object)
    o[()] = x
    return o


def coerce(v, k):
    if k == 'b':
        return mkbool(bterm(v)) if not isinstance(v, bool) else v
    if isinstance(v, (bool, SymBool)):
        return Sym(term(v), k)
    if k == 'i' and v.k == 'f':
        return trunc(v)
    if k == 'f' and v.k == 'i':
        return Sym(v.t, 'f')
    return v


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and hasattr(dt, 'dtype') and isinstance(dt.dtype, np.dtype):
        dt = dt.dtype
    if dt is object:
        return 'o'
    d = np.dtype(dt)
    k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o'}.get(d.kind)
    if k is None:
        raise Unsupported(f'dtype {d}')
    return k


def astype(x, dt):
    k = kind_of_dtype(dt)
    if isinstance(x, np.ndarray):
        if k == 'o':
            return x.copy()
        x = sarr(x)
        o = np.empty(x.shape, object)
        px = plain(x)
        for i in np.ndindex(x.shape):
            o[i] = coerce(wrap(px[i]), k)
        return mk(o, k)
    return coerce(wrap(x), k)


def _has_symbool(a):
    return any(isinstance(x, SymBool) for x in plain(a).ravel())


def concrete_mask(a):
    """force every element of a boolean array (forking)"""
    o = plain(a)
    return np.array([bool(x) for x in o.ravel()], bool).reshape(o.shape)


def _index(ix):
    if isinstance(ix, tuple):
        return tuple(_index1(i) for i in ix)
    return _index1(ix)


def _index1(i):
    if type(i).__name__ in ('SymSeries', 'SymFrame'):
        i = sarr(i.to_numpy())
    if isinstance(i, SymArr):
        if i.kind == 'b':
            return concrete_mask(i)
        if i.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        o = plain(i)
        return np.array([x.__index__() for x in o.ravel()], int).reshape(o.shape)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        if i.k == 'f':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        return i.__index__()
    if isinstance(i, slice):
        return slice(*[x.__index__() if is_sym(x) else x for x in (i.start, i.stop, i.step)])
    if isinstance(i, list) and any(is_sym(x) for x in i):
        return _index1(sarr(i))
    if isinstance(i, np.ndarray) and np.ndarray.dtype.__get__(i) == object and i.size and is_sym(i.ravel()[0]):
        return _index1(sarr(i))
    return i


def ew(fn, *arrs, kind=None):
    """elementwise application with broadcasting"""
    arrs = [plain(sarr(a)) for a in arrs]
    if all(a.ndim == 0 for a in arrs):
        r = fn(*[a[()] for a in arrs])
        return np.bool_(r) if isinstance(r, bool) else r
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, object)
    k = 'b'
    for i in np.ndindex(out.shape):
        r = fn(*[b[i] for b in bs])
        out[i] = r
        k = join(k, globals()['kind'](r))
    if kind:
        k = kind
    if out.size == 0 and not kind:
        k = 'f'
    if k != 'b':
        for i in np.ndindex(out.shape):
            out[i] = coerce(wrap(out[i]), k)
    return mk(out, k)


def reduce_(fn, a, axis, keepdims, init, k):
    a = sarr(a)
    p = plain(a)
    if axis is None:
        axes = tuple(range(p.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % p.ndim for x in axis)
    else:
        axes = (int(axis) % p.ndim if p.ndim else 0,)
        if p.ndim and not -p.ndim <= int(axis) < p.ndim:
            raise np.AxisError(f'axis {axis} is out of bounds for array of dimension {p.ndim}')
    if p.ndim == 0:
        axes = ()
    rest = [i for i in range(p.ndim) if i not in axes]
    q = p.transpose(rest + list(axes)).reshape([p.shape[i] for i in rest] + [-1]) if p.size or axes else p
    n = 1
    for i in axes:
        n *= p.shape[i]
    q = p.transpose(rest + list(axes)).reshape([p.shape[i] for i in rest] + [n])
    out = np.empty(q.shape[:-1], object)
    for i in np.ndindex(out.shape):
        xs = list(q[i])
        if init is None:
            if not xs:
                raise ValueError('zero-size array to reduction operation which has no identity')
            acc = wrap(xs[0])
            xs = xs[1:]
        else:
            acc = init
        for x in xs:
            acc = fn(acc, x)
        out[i] = acc
    if out.ndim == 0 and not keepdims:
        r = out[()]
        return r
    if keepdims:
        out = out.reshape([1 if i in axes else p.shape[i] for i in range(p.ndim)])
    return mk(out, k)


def a_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = sarr(a)
    k = 'i' if a.kind == 'b' else a.kind
    init = Sym(tm.ZERO, k)
    if axis is None and not keepdims:
        return Sym(tm.add(tm.ZERO, *[term(x) for x in plain(a).ravel()]), k)
    return reduce_(s_add, a, axis, keepdims, init, k)


def a_mean(a, axis=None, keepdims=False, **kw):
    a = sarr(a)
    s = a_sum(a, axis=axis, keepdims=keepdims)
    cnt = a.size if not (isinstance(s, np.ndarray)) else (a.size // max(s.size, 1))
    return s / cnt


def a_var(a, axis=None, ddof=0, **kw):
    a = sarr(a)
    m = a_mean(a, axis=axis, keepdims=axis is not None)
    d = a - m
    s = a_sum(d * d, axis=axis)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - ddof)


def a_cum(fn, a, axis=None):
    a = sarr(a)
    p = plain(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    out = p.copy()
    q = np.moveaxis(out, axis, 0)
    for i in range(1, q.shape[0]):
        for j in np.ndindex(q.shape[1:]):
            q[(i,) + j] = fn(q[(i - 1,) + j], q[(i,) + j])
    return mk(out, a.kind)


def a_argext(a, axis, better):
    a = sarr(a)
    p = plain(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    q = np.moveaxis(p, axis, -1)
    out = np.empty(q.shape[:-1], int)
    for i in np.ndindex(out.shape):
        b = 0
        for j in range(1, q.shape[-1]):
            if better(q[i][j], q[i][b]):
                b = j
        out[i] = b
    return out if out.ndim else int(out)


def _order(xs):
    """stable order by forking comparisons (binary insertion)"""
    idx = []
    for j, x in enumerate(xs):
        lo, hi = 0, len(idx)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(s_lt(x, xs[idx[mid]])) if term(x) is not tm.NAN else False:
                hi = mid
            else:
                lo = mid + 1
        idx.insert(lo, j)
    return idx


def a_argsort(a, axis=-1):
    a = sarr(a)
    p = plain(a)
    if axis is None:
        p, axis = p.ravel(), 0
    q = np.moveaxis(p, axis, -1)
    out = np.empty(q.shape, int)
    for i in np.ndindex(q.shape[:-1]):
        out[i] = _order(list(q[i]))
    return sarr(np.ascontiguousarray(np.moveaxis(out, -1, axis)))


def a_sort(a, axis=-1):
    a = sarr(a)
    p = plain(a)
    if axis is None:
        p, axis = p.ravel(), 0
    q = np.moveaxis(p, axis, -1)
    out = np.empty(q.shape, object)
    for i in np.ndindex(q.shape[:-1]):
        xs = list(q[i])
        o = _order(xs)
        for j, jj in enumerate(o):
            out[i + (j,)] = xs[jj]
    return mk(np.ascontiguousarray(np.moveaxis(out, -1, axis)), a.kind)


def a_clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = np.maximum(sarr(r), lo) if isinstance(r, np.ndarray) else smax(r, lo)
    if hi is not None:
        r = np.minimum(sarr(r), hi) if isinstance(r, np.ndarray) else smin(r, hi)
    return r


def a_matmul(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    k = join(a.kind, b.kind)
    pa, pb = plain(a), plain(b)
    sa, sb = pa.ndim == 1, pb.ndim == 1
    if sa:
        pa = pa[None, :]
    if sb:
        pb = pb[:, None]
    if pa.shape[-1] != pb.shape[-2]:
        raise ValueError(f'matmul: mismatch in core dimension {pa.shape} {pb.shape}')
    lead = np.broadcast_shapes(pa.shape[:-2], pb.shape[:-2])
    pa = np.broadcast_to(pa, lead + pa.shape[-2:])
    pb = np.broadcast_to(pb, lead + pb.shape[-2:])
    out = np.empty(lead + (pa.shape[-2], pb.shape[-1]), object)
    for i in np.ndindex(lead):
        for r in range(pa.shape[-2]):
            for c in range(pb.shape[-1]):
                out[i + (r, c)] = Sym(tm.add(tm.ZERO, *[tm.mul(term(pa[i + (r, j)]), term(pb[i + (j, c)]))
                                                        for j in range(pa.shape[-1])]), k)
    if sa:
        out = out[..., 0, :]
    if sb:
        out = out[..., 0]
    if out.ndim == 0:
        return out[()]
    return mk(out, k)


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.get('out')
    where = kw.get('where', True)
    if method == '__call__':
        if name == 'matmul':
            r = a_matmul(*inputs)
        elif name in UFUNC1 and len(inputs) == 1:
            fn, k = UFUNC1[name]
            r = ew(fn, inputs[0], kind=k if isinstance(inputs[0], np.ndarray) and inputs[0].ndim else None)
        elif name in UFUNC2 and len(inputs) == 2:
            fn, k = UFUNC2[name]
            r = ew(fn, *inputs, kind=k if any(isinstance(x, np.ndarray) and x.ndim for x in inputs) else None)
        elif name in SPECIAL_UFUNCS:
            r = SPECIAL_UFUNCS[name](*inputs)
        else:
            raise Unsupported(f'numpy ufunc {name}')
        if where is not True:
            w = sarr(where)
            if out is not None:
                r = ew(s_where, w, r, out[0] if isinstance(out, tuple) else out)
            else:
                # elements outside `where` are uninitialised memory: an arbitrary value
                def pick(c, x):
                    cb = bterm(c)
                    if cb is tm.TRUE:
                        return x
                    return s_where(c, x, arbitrary(x))

                r = ew(pick, w, r)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not isinstance(o, SymArr):
                if isinstance(o, np.ndarray) and np.ndarray.dtype.__get__(o) == object:
                    o[...] = plain(sarr(r)) if isinstance(r, np.ndarray) else r
                    return o
                raise Unsupported('symbolic result written into a concrete array')
            if o.kind == 'i' and kind_arr(r) == 'f':
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', np.dtype(float), np.dtype(int), 0) \
                    if False else TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with "
                                            "casting rule 'same_kind'")
            o[...] = r
            return o
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        if name == 'add':
            return a_sum(a, axis=axis, keepdims=keep)
        if name == 'multiply':
            return reduce_(s_mul, a, axis, keep, Sym(tm.ONE, 'i'), sarr(a).kind)
        if name == 'logical_and':
            return reduce_(land, a, axis, keep, True, 'b')
        if name == 'logical_or':
            return reduce_(lor, a, axis, keep, False, 'b')
        if name in ('maximum', 'minimum', 'fmax', 'fmin'):
            return reduce_(UFUNC2[name][0], a, axis, keep, None, sarr(a).kind)
    if method == 'accumulate':
        return a_cum(UFUNC2[name][0], inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return array_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    raise Unsupported(f'numpy ufunc {name}.{method}')


SPECIAL_UFUNCS = {}


def kind_arr(x):
    return x.kind if isinstance(x, SymArr) else ({'f': 'f', 'i': 'i', 'b': 'b'}.get(x.dtype.kind, 'f')
                                                 if isinstance(x, np.ndarray) else kind(x))


_arb = [0]


def arbitrary(like):
    _arb[0] += 1
    if kind(like) == 'b':
        return SymBool(tm.var(f'uninit{_arb[0]}', 'B'))
    return Sym(tm.var(f'uninit{_arb[0]}'))


def array_function(func, types, args, kwargs):
    from . import npshim
    f = npshim.FUNCS.get(func.__name__)
    mod = getattr(func, '__module__', '')
    if f is not None and mod in ('numpy', None) or f is not None and not mod.startswith('numpy.linalg'):
        return f(*args, **kwargs)
    if mod.startswith('numpy.linalg'):
        f = npshim.LINALG.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        raise Unsupported(f'numpy.linalg.{func.__name__}')
    # generic implementation on object arrays
    impl = getattr(func, '__wrapped__', None) or getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported(f'numpy.{func.__name__}')
    return impl(*args, **kwargs)
