"""Imports copulae from its current source for symbolic execution.

Every module is compiled from the file in the repository, with its imports of numpy, scipy, ... routed to the models in
this package and its builtins float / int / max / min / ... understanding symbolic values.  Nothing is copied: a change
to the source changes what is executed."""
import ast
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
from fractions import Fraction

import numpy as np

from . import cyshim
from . import path as pth
from . import terms as tm
from .npshim import NumpyProxy, any_sym
from .sarr import Sym, SymArr, _index1, SymBool, Unsupported, is_sym, kind, plain, rnd, sarr, smax, smin, trunc, wrap, bterm, term, \
    mkbool

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'copulae')


# --- builtins -------------------------------------------------------------------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym) and x.k == 'f'

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(x.t, 'f')
        if isinstance(x, SymBool):
            return Sym(term(x), 'f')
        if isinstance(x, np.ndarray) and (isinstance(x, SymArr) or any_sym(x)):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(wrap(plain(sarr(x)).ravel()[0]))
        if type(x).__name__ == 'SymSeries' and x.size == 1:
            return cls(x.to_numpy()[0])
        return wrap(float(x))

    def __hash__(cls):
        return hash(float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __getattr__(cls, n):
        return getattr(float, n)


class SFloat(metaclass=_FloatMeta):
    dtype = np.dtype(float)
    __name__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, Sym) and x.k == 'i'

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            r = trunc(x)
            return int(r.t.val) if r.t.op == 'const' else r
        if isinstance(x, SymBool):
            return Sym(term(x), 'i')
        if isinstance(x, np.ndarray) and (isinstance(x, SymArr) or any_sym(x)):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(wrap(plain(sarr(x)).ravel()[0]))
        return int(x, *a)

    def __hash__(cls):
        return hash(int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __getattr__(cls, n):
        return getattr(int, n)


class SInt(metaclass=_IntMeta):
    dtype = np.dtype(int)
    __name__ = 'int'


def _ext(native, pick):
    def f(*a, key=None, default=None, **k):
        if key is not None or default is not None:
            kw = dict(k)
            if key is not None:
                kw['key'] = key
            if default is not None:
                kw['default'] = default
            return native(*a, **kw)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in xs) and all(isinstance(x, (int, float, Sym, SymBool, np.integer, np.floating))
                                              for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # python keeps the first of equal elements, and any comparison with nan is false
                r = pick(r, x) if tm.NAN not in (term(r), term(x)) else r
            return r
        return native(xs)

    return f


def s_any(it):
    if isinstance(it, (list, tuple, np.ndarray)):
        xs = list(it)
        if any(is_sym(x) for x in xs):
            if all(is_sym(x) or isinstance(x, (bool, np.bool_, int, float)) for x in xs):
                return mkbool(tm.or_(*[bterm(x) for x in xs]))
        return any(xs)
    return any(it)


def s_all(it):
    if isinstance(it, (list, tuple, np.ndarray)):
        xs = list(it)
        if any(is_sym(x) for x in xs):
            if all(is_sym(x) or isinstance(x, (bool, np.bool_, int, float)) for x in xs):
                return mkbool(tm.and_(*[bterm(x) for x in xs]))
        return all(xs)
    return all(it)


def s_round(x, n=None):
    if is_sym(x):
        return rnd(x, n)
    return round(x, n) if n is not None else round(x)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


_types = {float: SFloat, int: SInt}


def s_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return SFloat if a[0].k == 'f' else SInt
        if isinstance(a[0], SymBool):
            return bool
        return _types.get(type(a[0]), type(a[0]))
    return type(*a)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        return s_type(*a, **k)

    def __getitem__(cls, i):
        return type[i]


class SType(metaclass=_TypeMeta):
    pass


SHIMS = {}


def build():
    from . import shims
    SHIMS['numpy'] = NumpyProxy(shims.RANDOM)
    SHIMS.update(shims.build())


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    top = name.split('.')[0]
    if level == 0 and top in SHIMS:
        m = SHIMS[top]
        if not fromlist:
            return m
        for part in name.split('.')[1:]:
            m = getattr(m, part)
        return m
    if level == 0 and top in ('sklearnex', 'matplotlib'):
        raise ImportError(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update(float=SFloat, int=SInt, max=_ext(max, smax), min=_ext(min, smin), any=s_any, all=s_all, round=s_round,
             sum=s_sum, print=lambda *a, **k: None, __import__=sym_import, type=SType)
    d['__sym_f__'] = literal
    d['__sym_ix__'] = index
    return d


def index(i):
    if type(i) is SymArr and i.kind in 'bi' and i.ndim:
        return _index1(i)
    return i


_lits = {}


def literal(v):
    r = _lits.get(v)
    if r is None:
        r = _lits[v] = Sym(tm.const(v))
    return r


class Floats(ast.NodeTransformer):
    """floating-point literals denote exact numbers"""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('__sym_f__', ast.Load()), [n], []), n)
        return n

    def visit_Subscript(self, n):
        """numpy arrays cannot be indexed by symbolic masks: those are decided first"""
        self.generic_visit(n)

        def wrap(e):
            if isinstance(e, (ast.Constant, ast.Slice, ast.Starred)):
                return e
            return ast.copy_location(ast.Call(ast.Name('__sym_ix__', ast.Load()), [e], []), e)

        if isinstance(n.slice, ast.Tuple):
            n.slice.elts = [wrap(e) for e in n.slice.elts]
        else:
            n.slice = wrap(n.slice)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n


class Loader(importlib.abc.Loader):
    def __init__(self, path, kind_):
        self.path, self.kind = path, kind_

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        g = module.__dict__
        g['__builtins__'] = BUILTINS
        if self.kind == 'pyx':
            src = cyshim.translate(src, module.__name__.split('.')[-1])
            g.update(cyshim.runtime())
            code = compile(src, self.path, 'exec')
        else:
            tree = ast.parse(src, self.path)
            tree = ast.fix_missing_locations(Floats().visit(tree))
            code = compile(tree, self.path, 'exec')
        exec(code, g)

    def get_source(self, name):
        return None


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'copulae' and not name.startswith('copulae.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(ROOT, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, 'py'),
                                                          submodule_search_locations=[base])
        for ext in ('py', 'pyx'):
            f = f'{base}.{ext}'
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=Loader(f, ext))
        return None


BUILTINS = None
_executed = set()
_files = {}


def install():
    global BUILTINS
    if BUILTINS is not None:
        return
    build()
    BUILTINS = make_builtins()
    sys.meta_path.insert(0, Finder())
    mon = sys.monitoring
    mon.use_tool_id(3, 'verif')

    def start(code, off):
        if code.co_filename.startswith(ROOT):
            _executed.add((os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def executed(clear=False):
    r = sorted(f'{f}:{q}' for f, q in _executed if not q.endswith('>') and '<lambda>' not in q)
    if clear:
        _executed.clear()
        sys.monitoring.restart_events()
    return r
