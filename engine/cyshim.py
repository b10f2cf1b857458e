"""Executes Cython sources symbolically: the .pyx file is parsed with Cython's own parser and each function becomes a
Python function with C semantics for typed values (double / int coercions, structs by value, C division)."""
import io
import math

import numpy as np

from . import path as pth
from . import terms as tm
from .sarr import (Sym, SymArr, SymBool, Unsupported, coerce, f_abs, f_atan2, f_ceil, f_exp, f_expm1, f_floor, f_log, f_log1p,
                   f_sqrt, f_sin, f_cos, f_tan, is_sym, kind, mkbool, s_add, s_div, s_floordiv, s_mod, s_mul, s_pow,
                   s_sub, s_where, sarr, smax, smin, term, trunc, wrap, bterm)


def parse(src, name='m'):
    from Cython.Compiler.TreeFragment import StringParseContext
    from Cython.Compiler import Parsing, Errors
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    ctx = StringParseContext(name)
    ctx.set_language_level(3)
    sd = StringSourceDescriptor(name, src)
    scope = ctx.find_module(name, pos=(sd, 1, 0), need_pxd=False)
    Errors.init_thread()
    sc = PyrexScanner(io.StringIO(src), sd, source_encoding='UTF-8', scope=scope, context=ctx, initial_pos=(sd, 1, 0))
    return Parsing.p_module(sc, 0, name, ctx=Parsing.Ctx())


# --- run-time support ----------------------------------------------------------------------------------------------

def c_double(x):
    if isinstance(x, Sym):
        return x if x.k == 'f' else Sym(x.t, 'f')
    if isinstance(x, (bool, SymBool)):
        return Sym(term(x), 'f')
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return c_double(x.reshape(-1)[0])
    w = wrap(x)
    return Sym(term(w), 'f')


def c_int(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, SymBool):
        return Sym(term(x), 'i')
    if isinstance(x, Sym):
        if x.t.op == 'const' and x.t.val.denominator == 1:
            return int(x.t.val)
        return trunc(x)
    if isinstance(x, float):
        return int(x)
    return int(x)


def c_bint(x):
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, Sym):
        return mkbool(bterm(x))
    return bool(x)


def c_uint(x):
    return c_int(x)


def c_ident(x):
    return x


def c_cint(x):
    """a C cast of a double to an integer type (truncation)"""
    return c_int(x)


class Struct:
    def __init__(self, name, fields):
        self.__dict__['_n'] = name
        self.__dict__['_f'] = fields
        for f, cv in fields.items():
            self.__dict__[f] = uninit(cv)

    def __setattr__(self, k, v):
        if k not in self._f:
            raise AttributeError(k)
        self.__dict__[k] = self._f[k](v)

    def copy(self):
        s = Struct(self._n, self._f)
        for f in self._f:
            s.__dict__[f] = self.__dict__[f]
        return s


def uninit(cv):
    from .sarr import arbitrary
    if cv in (c_double,):
        return arbitrary(Sym(tm.ZERO))
    if cv in (c_int, c_uint):
        return Sym(arbitrary(Sym(tm.ZERO)).t, 'i')
    return None


def c_struct(name, fields):
    def conv(x):
        if isinstance(x, Struct):
            return x.copy()
        if isinstance(x, dict):
            s = Struct(name, fields)
            for k, v in x.items():
                setattr(s, k, v)
            return s
        raise TypeError(f'cannot convert to {name}')

    conv.make = lambda: Struct(name, fields)
    return conv


def c_view(k, nd, contiguous=None):
    def conv(x):
        if x is None:
            return None
        if isinstance(x, Sym):
            raise TypeError("a bytes-like object is required, not 'float'")
        if isinstance(x, list):  # C array initialiser
            x = sarr(x)
        if not isinstance(x, np.ndarray):
            raise TypeError(f'a bytes-like object is required, not {type(x).__name__!r}')
        if np.ndarray.dtype.__get__(x) != object or not isinstance(x, SymArr):
            dk = np.ndarray.dtype.__get__(x).kind
            if dk in 'iu' and k == 'i':
                pass
            else:
                x = sarr(x)
        xk = x.kind if isinstance(x, SymArr) else 'i'
        if nd is not None and x.ndim != nd:
            raise ValueError(f'Buffer has wrong number of dimensions (expected {nd}, got {x.ndim})')
        if k and xk != k:
            raise ValueError(f"Buffer dtype mismatch, expected {k!r} but got {xk!r}")
        if contiguous == 'C' and not x.flags.c_contiguous:
            raise ValueError('ndarray is not C-contiguous')
        return x

    return conv


def c_array(k):
    def conv(x):
        a = sarr(list(x)) if isinstance(x, (list, tuple)) else x
        if isinstance(a, SymArr) and k == 'f' and a.kind != 'f':
            from .sarr import astype
            a = astype(a, float)
        return a

    return conv


def lit(s):
    """floating literal: exact decimal; the double nearest to pi is pi"""
    from fractions import Fraction
    v = float(s)
    if abs(v - math.pi) < 1e-15:
        return Sym(tm.PI)
    return Sym(tm.const(Fraction(s)))


def _num(x):
    return x if isinstance(x, np.ndarray) else wrap(x)


def div(a, b):
    if isinstance(a, (np.ndarray, CX)) or isinstance(b, (np.ndarray, CX)):
        return a / b
    return s_div(wrap(a), wrap(b))


def power(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b >= 0:
            return a ** b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a ** b
    return s_pow(wrap(a), wrap(b))


def floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    return a // b


def mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(math.fmod(a, b))
    return a % b


def cond(c, a, b):
    """conditional expression whose branches are plain values"""
    if isinstance(c, SymBool):
        e = pth.entailed(c.b)
        if e is None:
            if all(isinstance(x, (int, float, Sym)) for x in (a, b)):
                return s_where(c, wrap(a), wrap(b))
            return a if bool(c) else b
        return a if e else b
    return a if c else b


class CX:
    def __init__(self, re, im):
        self.real, self.imag = re, im

    def __mul__(self, o):
        if isinstance(o, CX):
            return CX(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
        return CX(self.real * o, self.imag * o)

    __rmul__ = __mul__
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __add__(self, o):
        if isinstance(o, CX):
            return CX(self.real + o.real, self.imag + o.imag)
        return CX(self.real + o, self.imag)

    __radd__ = __add__

    def reshape(self, *s):
        return CX(self.real.reshape(*s), self.imag.reshape(*s))

    @property
    def shape(self):
        return self.real.shape

    def __abs__(self):
        return np.hypot(self.real, self.imag)

    def __getitem__(self, i):
        return CX(self.real[i], self.imag[i])


def imag(v):
    return CX(wrap(0.0), wrap(float(v)))


def prange(*a, **k):
    """iterations of a parallel loop: any order is possible, one different from the sequential order is taken"""
    return reversed(range(*[int(x) for x in a]))


class CMath:
    NAN = Sym(tm.NAN)
    INFINITY = HUGE_VAL = Sym(tm.INF)
    M_PI = Sym(tm.PI)
    M_LN2 = Sym(tm.log(tm.const(2)))
    M_E = Sym(tm.exp(tm.ONE))

    floor = staticmethod(lambda x: f_floor(wrap(x)))
    ceil = staticmethod(lambda x: f_ceil(wrap(x)))
    fabs = staticmethod(lambda x: c_double(f_abs(wrap(x))))
    log = staticmethod(lambda x: f_log(wrap(x)))
    log1p = staticmethod(lambda x: f_log1p(wrap(x)))
    exp = staticmethod(lambda x: f_exp(wrap(x)))
    expm1 = staticmethod(lambda x: f_expm1(wrap(x)))
    sqrt = staticmethod(lambda x: f_sqrt(wrap(x)))
    sin = staticmethod(lambda x: f_sin(wrap(x)))
    cos = staticmethod(lambda x: f_cos(wrap(x)))
    tan = staticmethod(lambda x: f_tan(wrap(x)))
    pow = staticmethod(power)
    fmin = staticmethod(lambda a, b: c_double(smin(wrap(a), wrap(b))))
    fmax = staticmethod(lambda a, b: c_double(smax(wrap(a), wrap(b))))
    atan2 = staticmethod(f_atan2)
    atan = staticmethod(lambda a: Sym(tm.uf('arctan', [term(wrap(a))])))
    hypot = staticmethod(lambda a, b: f_sqrt(wrap(a) * wrap(a) + wrap(b) * wrap(b)))
    isnan = staticmethod(lambda x: np.isnan(wrap(x)))
    isinf = staticmethod(lambda x: np.isinf(wrap(x)))
    isfinite = staticmethod(lambda x: np.isfinite(wrap(x)))


class CLib:
    RAND_MAX = 2147483647

    @staticmethod
    def rand():
        from . import shims
        return shims.crand()


def btdtr(a, b, x):
    from . import shims
    return shims.betainc(wrap(a), wrap(b), wrap(x))


class CSpecial:
    btdtr = staticmethod(btdtr)
    betainc = staticmethod(btdtr)


def cimported(module, name=None):
    if module == 'libc':
        return {'math': CMath, 'stdlib': CLib}.get(name)
    if module == 'libc.math':
        return getattr(CMath, name) if name else CMath
    if module == 'libc.stdlib':
        return getattr(CLib, name) if name else CLib
    if module == 'libc.float':
        import sys
        return {'DBL_EPSILON': sys.float_info.epsilon, 'DBL_MIN': sys.float_info.min,
                'DBL_MAX': sys.float_info.max}[name]
    if module == 'scipy.special.cython_special':
        return getattr(CSpecial, name) if name else CSpecial
    if module in ('libc.stdint', 'numpy', 'cython', 'libcpp', 'cpython'):
        return None
    raise Unsupported(f'cimport of {module}')


RT = {k: v for k, v in globals().items() if k in (
    'c_double', 'c_int', 'c_bint', 'c_uint', 'c_ident', 'c_cint', 'c_struct', 'c_view', 'c_array', 'lit', 'div',
    'power', 'floordiv', 'mod', 'cond', 'imag', 'uninit', 'cimported')}

INT_TYPES = {'int', 'long', 'short', 'char', 'size_t', 'ssize_t', 'Py_ssize_t', 'int64_t', 'int32_t', 'uint64_t',
             'uint32_t', 'npy_int64', 'npy_intp', 'int8_t', 'uint8_t', 'npy_int32', 'int16_t', 'intp_t'}
DBL_TYPES = {'double', 'float', 'npy_float64', 'float64_t', 'npy_double', 'double_t'}


# --- code generation -----------------------------------------------------------------------------------------------

class Gen:
    def __init__(self, tree):
        self.tree = tree
        self.out = []
        self.ind = 0
        self.types = {}  # typedef name -> converter expression
        self.structs = set()
        self.scope = [{}]  # variable -> converter expression
        self.memo = 0

    def w(self, s, node=None):
        self.out.append('    ' * self.ind + s)

    def run(self):
        self.stat(self.tree.body)
        return '\n'.join(self.out) + '\n'

    # types
    def conv(self, base, decl=None):
        """the converter expression of a C type (None: plain Python object)"""
        n = type(base).__name__
        ptr = False
        while decl is not None and type(decl).__name__ in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode'):
            ptr = True
            decl = decl.base
        if n in ('CConstOrVolatileTypeNode', 'CConstTypeNode'):
            return self.conv(base.base_type, decl)
        if n == 'CSimpleBaseTypeNode':
            name = base.name
            if name is None:
                return None
            if ptr:
                return "__cy_c_array('f')" if name in DBL_TYPES else "__cy_c_array('i')"
            return self.named(name)
        if n == 'MemoryViewSliceTypeNode':
            k = self.kind(base.base_type_node)
            nd = len(base.axes)
            last = base.axes[-1]
            cont = 'None'
            if type(last.step).__name__ == 'IntNode' and last.step.value == '1':
                cont = "'C'"
            return f'__cy_c_view({k!r}, {nd}, {cont})'
        if n == 'TemplatedTypeNode':
            nm = getattr(base.base_type_node, 'name', '')
            if nm == 'ndarray':
                k = self.kind(base.positional_args[0])
                nd = 1
                for item in (base.keyword_args.key_value_pairs if base.keyword_args else []):
                    if item.key.value == 'ndim':
                        nd = int(item.value.value)
                return f'__cy_c_view({k!r}, {nd})'
            return None
        return None

    def kind(self, base):
        name = getattr(base, 'name', None)
        if name is None and hasattr(base, 'attribute'):
            name = base.attribute
        if type(base).__name__ in ('CConstOrVolatileTypeNode', 'CConstTypeNode'):
            return self.kind(base.base_type)
        return 'f' if name in DBL_TYPES else 'i' if name in INT_TYPES else None

    def named(self, name):
        if name in DBL_TYPES:
            return '__cy_c_double'
        if name in INT_TYPES:
            return '__cy_c_int'
        if name == 'bint':
            return '__cy_c_bint'
        if name in self.types:
            return self.types[name]
        return None

    @staticmethod
    def dname(d):
        while not hasattr(d, 'name'):
            d = d.base
        return d.name

    def declare(self, name, cv):
        if cv:
            self.scope[-1][name] = cv

    def ctype_of(self, name):
        return self.scope[-1].get(name) or (self.scope[0].get(name) if name in getattr(self, 'globals_', ()) else None)

    # statements
    def block(self, node):
        self.ind += 1
        n0 = len(self.out)
        self.stat(node)
        if len(self.out) == n0:
            self.w('pass')
        self.ind -= 1

    def stat(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'Cython statement {type(n).__name__}')
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CDefExternNode(self, n): raise Unsupported('cdef extern')

    def s_CTypeDefNode(self, n):
        d = n.declarator
        base = n.base_type
        fn = d
        while type(fn).__name__ == 'CPtrDeclaratorNode':
            fn = fn.base
        if type(fn).__name__ == 'CFuncDeclaratorNode':
            self.types[self.dname(fn)] = '__cy_c_ident'
        else:
            cv = self.conv(base, d)
            if cv:
                self.types[self.dname(d)] = cv

    def s_CStructOrUnionDefNode(self, n):
        fields = []
        for a in n.attributes:
            for d in a.declarators:
                fields.append(f'{self.dname(d)!r}: {self.conv(a.base_type, d) or "__cy_c_ident"}')
        self.w(f'__struct_{n.name} = __cy_c_struct({n.name!r}, {{{", ".join(fields)}}})')
        self.types[n.name] = f'__struct_{n.name}'

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            cv = self.conv(n.base_type, d)
            name = self.dname(d)
            dd = d
            while dd is not None and getattr(dd, 'default', None) is None and hasattr(dd, 'base'):
                dd = dd.base
            self.declare(name, cv)
            default = getattr(dd, 'default', None)
            if default is not None:
                self.w(f'{name} = {cv or ""}({self.e(default)})')
            elif cv and cv.startswith('__struct_'):
                self.w(f'{name} = {cv}.make()')
            elif cv in ('__cy_c_double', '__cy_c_int'):
                self.w(f'{name} = __cy_uninit({cv})')

    def assign(self, lhs, rhs):
        t = type(lhs).__name__
        if t == 'NameNode':
            cv = self.ctype_of(lhs.name)
            self.w(f'{lhs.name} = {cv}({rhs})' if cv else f'{lhs.name} = {rhs}')
        elif t in ('TupleNode', 'ListNode'):
            self.memo += 1
            tmp = f'__tmp{self.memo}'
            self.w(f'{tmp} = tuple({rhs})')
            for i, a in enumerate(lhs.args):
                self.assign(a, f'{tmp}[{i}]')
        else:
            self.w(f'{self.e(lhs)} = {rhs}')

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mod = n.rhs.module_name.value
            nm = n.lhs.name
            # 'import a.b as c' binds the leaf
            if '.' in mod and mod.split('.')[0] == nm:
                self.w(f'import {mod}')
            else:
                self.w(f'import {mod} as {nm}' if mod != nm else f'import {mod}')
            return
        self.assign(n.lhs, self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.memo += 1
        tmp = f'__tmp{self.memo}'
        self.w(f'{tmp} = {self.e(n.rhs)}')
        for l in n.lhs_list:
            self.assign(l, tmp)

    def s_InPlaceAssignmentNode(self, n):
        self.assign(n.lhs, self.binop(n.operator, self.e(n.lhs), self.e(n.rhs)))

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        if mod.startswith('cython'):
            for name, target in n.items:
                nm = name if isinstance(name, str) else name
                self.w(f'{target.name} = __cy_{nm}')
            return
        lvl = getattr(n.module, 'level', 0) or 0
        pre = '.' * max(lvl, 0)
        for name, target in n.items:
            self.w(f'from {pre}{mod} import {name} as {target.name}')

    def s_FromCImportStatNode(self, n):
        for it in n.imported_names:
            pos, name, as_name = it[:3]
            self.w(f'{as_name or name} = __cy_cimported({str(n.module_name)!r}, {str(name)!r})')

    def s_CImportStatNode(self, n):
        nm = n.as_name or str(n.module_name).split('.')[0]
        self.w(f'{nm} = __cy_cimported({str(n.module_name)!r})')

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w('return')
        else:
            v = self.e(n.value)
            self.w(f'return {self.ret}({v})' if self.ret else f'return {v}')

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.w(('if ' if i == 0 else 'elif ') + self.e(c.condition) + ':')
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        t = self.e(n.target) if type(n.target).__name__ != 'NameNode' else n.target.name
        self.w(f'for {t} in {self.e(seq)}:')
        self.block(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w(f'while {self.e(n.condition)}:')
        self.block(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_BreakStatNode(self, n): self.w('break')

    def s_ContinueStatNode(self, n): self.w('continue')

    def s_PassStatNode(self, n): self.w('pass')

    def s_GILStatNode(self, n): self.stat(n.body)

    def s_WithStatNode(self, n):
        self.w(f'with {self.e(n.manager)}:')
        self.block(n.body)

    def s_AssertStatNode(self, n):
        v = n.value if getattr(n, 'value', None) is not None else None
        exc = getattr(n, 'exception', None)
        msg = ''
        if v is not None:
            msg = ', ' + self.e(v)
        elif exc is not None:
            msg = ", 'assertion failed'"
        self.w(f'assert {self.e(n.condition)}{msg}')

    def s_RaiseStatNode(self, n):
        self.w('raise' + (' ' + self.e(n.exc_type) if n.exc_type is not None else ''))

    def s_GlobalNode(self, n): self.w('global ' + ', '.join(n.names))

    def s_CompilerDirectivesNode(self, n): self.stat(n.body)

    def func(self, name, args, body, ret, star=None, starstar=None, doc=None):
        ps = []
        casts = []
        loc = {}
        for a in args:
            d = a.declarator
            nm = self.dname(d)
            cv = self.conv(a.base_type, d)
            if not nm:  # untyped argument parsed as a bare type name
                nm, cv = a.base_type.name, None
            ps.append(nm + (f'={self.e(a.default)}' if a.default is not None else ''))
            if cv:
                loc[nm] = cv
                casts.append(f'{nm} = {cv}({nm})')
        if star is not None:
            ps.append('*' + star.name)
        if starstar is not None:
            ps.append('**' + starstar.name)
        self.w(f'def {name}({", ".join(ps)}):')
        self.scope.append(loc)
        old = getattr(self, 'ret', None)
        self.ret = ret
        self.ind += 1
        for c in casts:
            self.w(c)
        self.ind -= 1
        self.block(body)
        self.ret = old
        self.scope.pop()

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body, None, n.star_arg, n.starstar_arg)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d = d.base
        base = n.base_type
        ret = self.conv(base, None)
        if getattr(base, 'name', None) == 'void':
            ret = None
        self.func(self.dname(d.base), d.args, n.body, ret)

    # expressions
    def e(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1'):
                return self.binop(n.operator, self.e(n.operand1), self.e(n.operand2))
            raise Unsupported(f'Cython expression {type(n).__name__}')
        return m(n)

    def binop(self, op, a, b):
        f = {'/': '__cy_div', '**': '__cy_power', '//': '__cy_floordiv', '%': '__cy_mod'}.get(op)
        return f'{f}({a}, {b})' if f else f'({a} {op} {b})'

    def e_NameNode(self, n): return n.name

    def e_IntNode(self, n): return str(n.value).rstrip('LlUu')

    def e_FloatNode(self, n): return f'__cy_lit({str(n.value)!r})'

    def e_BoolNode(self, n): return str(bool(n.value))

    def e_NoneNode(self, n): return 'None'

    def e_UnicodeNode(self, n): return repr(str(n.value))

    def e_IdentifierStringNode(self, n): return repr(str(n.value))

    def e_StringNode(self, n): return repr(str(n.unicode_value or n.value))

    def e_ImagNode(self, n): return f'__cy_imag({n.value!r})'

    def e_SimpleCallNode(self, n): return f'{self.e(n.function)}({", ".join(self.e(a) for a in n.args)})'

    def e_GeneralCallNode(self, n):
        ps = [self.e(a) for a in (n.positional_args.args if hasattr(n.positional_args, 'args') else [])]
        kw = n.keyword_args
        for it in (kw.key_value_pairs if kw is not None else []):
            if self.e(n.function).endswith('prange'):
                continue
            ps.append(f'{it.key.value}={self.e(it.value)}')
        return f'{self.e(n.function)}({", ".join(ps)})'

    def e_AttributeNode(self, n): return f'{self.e(n.obj)}.{n.attribute}'

    def e_IndexNode(self, n): return f'{self.e(n.base)}[{self.idx(n.index)}]'

    def idx(self, n):
        if type(n).__name__ == 'TupleNode':
            return ', '.join(self.idx(a) for a in n.args) + (',' if len(n.args) == 1 else '')
        if type(n).__name__ == 'SliceNode':
            f = lambda x: '' if type(x).__name__ == 'NoneNode' else self.e(x)
            s = f'{f(n.start)}:{f(n.stop)}'
            return s + (f':{f(n.step)}' if f(n.step) else '')
        return self.e(n)

    def e_SliceIndexNode(self, n):
        f = lambda x: '' if x is None else self.e(x)
        return f'{self.e(n.base)}[{f(n.start)}:{f(n.stop)}]'

    def e_SliceNode(self, n): return f'slice({self.e(n.start)}, {self.e(n.stop)}, {self.e(n.step)})'

    def e_TupleNode(self, n): return '(' + ''.join(self.e(a) + ', ' for a in n.args) + ')'

    def e_ListNode(self, n): return '[' + ', '.join(self.e(a) for a in n.args) + ']'

    def e_DictNode(self, n):
        return '{' + ', '.join(f'{self.e(i.key)}: {self.e(i.value)}' for i in n.key_value_pairs) + '}'

    def e_UnaryMinusNode(self, n): return f'(-{self.e(n.operand)})'

    def e_UnaryPlusNode(self, n): return f'(+{self.e(n.operand)})'

    def e_TildeNode(self, n): return f'(~{self.e(n.operand)})'

    def e_NotNode(self, n): return f'(not {self.e(n.operand)})'

    def e_BoolBinopNode(self, n): return f'({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})'

    def e_PrimaryCmpNode(self, n):
        s = f'{self.e(n.operand1)} {n.operator.replace("_", " ")} {self.e(n.operand2)}'
        c = n.cascade
        while c is not None:
            s += f' {c.operator.replace("_", " ")} {self.e(c.operand2)}'
            c = c.cascade
        return f'({s})'

    def e_CondExprNode(self, n):
        simple = ('IntNode', 'FloatNode', 'NameNode', 'TupleNode', 'UnaryMinusNode')

        def ok(x):
            t = type(x).__name__
            if t == 'UnaryMinusNode':
                return ok(x.operand)
            return t in ('IntNode', 'FloatNode', 'NameNode')

        test = n.test if hasattr(n, 'test') else n.condition
        if ok(n.true_val) and ok(n.false_val):
            return f'__cy_cond({self.e(test)}, {self.e(n.true_val)}, {self.e(n.false_val)})'
        return f'({self.e(n.true_val)} if {self.e(test)} else {self.e(n.false_val)})'

    def e_TypecastNode(self, n):
        cv = self.conv(n.base_type, n.declarator)
        if cv == '__cy_c_int':
            cv = '__cy_c_cint'
        return f'{cv}({self.e(n.operand)})' if cv else self.e(n.operand)


def translate(src, name='m'):
    return Gen(parse(src, name)).run()


def runtime():
    d = {f'__cy_{k}': v for k, v in RT.items()}
    d['__cy_prange'] = prange
    return d
