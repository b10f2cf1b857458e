"""Models of the libraries copulae stands on, for symbolic execution: numpy.random, scipy, pandas, statsmodels, sklearn.

Numerical library functions without a closed form are uninterpreted functions with the facts in UF_LEMMAS; everything
else is its mathematical definition.  These models are part of the trusted base and are stated as assumptions."""
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import decide
from . import path as pth
from . import terms as tm
from .npshim import any_sym, lift, LINALG
from .sarr import (Sym, SymArr, SymBool, Unsupported, a_argsort, a_matmul, a_sum, array_ufunc, astype, bterm, ew, f_abs, f_exp,
                   f_floor, f_log, f_sqrt, is_sym, kind, mk, mkbool, plain, s_where, sarr, smax, smin, term, wrap,
                   SPECIAL_UFUNCS, f_cos, f_sin, f_tan, f_arctan, f_arcsin)
import z3

C = tm.const
q = decide.q


# --- uninterpreted functions and the facts the solver is given about them -------------------------------------------

def _pair_monotone(strict=True, arg=-1):
    def lem(tr, zs, v, apps):
        out = []
        for zs2, v2 in apps[:25]:
            same = [x == y for i, (x, y) in enumerate(zip(zs, zs2)) if i != (arg % len(zs))]
            c = z3.And(same) if same else z3.BoolVal(True)
            a, b = zs[arg], zs2[arg]
            out.append(z3.Implies(c, (v < v2) == (a < b)) if strict else
                       z3.Implies(z3.And(c, a <= b), v <= v2))
            out.append(z3.Implies(c, (v == v2) == (a == b)) if strict else
                       z3.Implies(z3.And(c, b <= a), v2 <= v))
        return out

    return lem


def _cdf_lemma(sym):
    mono = _pair_monotone(True, 0)

    def lem(tr, zs, v, apps):
        out = mono(tr, zs, v, apps)
        if sym:
            out += [(v > q(Fraction(1, 2))) == (zs[0] > 0), (v == q(Fraction(1, 2))) == (zs[0] == 0)]
            for zs2, v2 in apps[:25]:
                same = [x == y for x, y in zip(zs[1:], zs2[1:])]
                out.append(z3.Implies(z3.And([zs[0] + zs2[0] == 0] + same), v + v2 == 1))
        return out

    return lem


def _ppf_lemma(sym):
    mono = _pair_monotone(True, 0)

    def lem(tr, zs, v, apps):
        out = mono(tr, zs, v, apps)
        if sym:
            out += [(v > 0) == (zs[0] > q(Fraction(1, 2))), (v == 0) == (zs[0] == q(Fraction(1, 2)))]
            for zs2, v2 in apps[:25]:
                same = [x == y for x, y in zip(zs[1:], zs2[1:])]
                out.append(z3.Implies(z3.And([zs[0] + zs2[0] == 1] + same), v + v2 == 0))
        return out

    return lem


def unit(lo_o=True, hi_o=True):
    return Fraction(0), Fraction(1), lo_o, hi_o


def inverse_pair(cdf, ppf):
    """facts relating applications of a cdf and its quantile function to each other"""

    def cross(name, other):
        old = decide.UF_LEMMAS.get(name)

        def lem(tr, zs, v, apps):
            out = old(tr, zs, v, apps) if old else []
            for zs2, v2 in tr.ufapps.get(other, [])[:25]:
                same = [x == y for x, y in zip(zs[1:], zs2[1:])]
                # v = f(a), v2 = g(b): b == v -> v2 == a ; a == v2 -> v == b
                out.append(z3.Implies(z3.And([zs2[0] == v] + same), v2 == zs[0]))
                out.append(z3.Implies(z3.And([zs[0] == v2] + same), v == zs2[0]))
            return out

        decide.UF_LEMMAS[name] = lem

    cross(cdf, ppf)
    cross(ppf, cdf)


def inner_inverse(t, name):
    """f(g(x)) = x"""
    return t.op == 'uf' and t.val == name


def install_ufs():
    import mpmath as mp
    L, R, N = decide.UF_LEMMAS, tm.uf_range, tm.UF_NUM
    for dist, symm in (('norm', True), ('t', True), ('cauchy', True), ('expon', False), ('gamma', False),
                       ('beta', False), ('lognorm', False), ('logistic', True), ('uniform', False), ('chi2', False),
                       ('*', False)):
        L[f'cdf|{dist}'] = _cdf_lemma(symm)
        L[f'ppf|{dist}'] = _ppf_lemma(symm)
        inverse_pair(f'cdf|{dist}', f'ppf|{dist}')
        R[f'cdf|{dist}'] = unit()
    L['btdtr'] = _pair_monotone(True, 2)
    R['btdtr'] = unit()
    R['pdf|*'] = (Fraction(0), None, False, True)

    def gamma_lem(tr, zs, v, apps):
        return [z3.Implies(zs[0] > 0, v > 0)]

    L['gamma'] = gamma_lem
    for d in range(2, 6):
        R[f'mvncdf{d}'] = unit(False, False)
    R['arctan'] = (Fraction(-8, 5), Fraction(8, 5), True, True)

    def arcsin_lem(tr, zs, v, apps):
        pi = tr.var(tm.PI)
        x = zs[0]
        out = [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(2 * v <= pi, 2 * v >= -pi)), (v > 0) == (x > 0),
               (v == 0) == (x == 0), z3.Implies(z3.And(2 * x >= -1, 2 * x <= 1), z3.And(6 * v <= pi, 6 * v >= -pi))]
        for zs2, v2 in apps[:20]:
            out.append((v < v2) == (x < zs2[0]))
            out.append(z3.Implies(x + zs2[0] == 0, v + v2 == 0))
        return out

    L['arcsin'] = arcsin_lem

    def arctan_lem(tr, zs, v, apps):
        pi = tr.var(tm.PI)
        x = zs[0]
        out = [2 * v < pi, 2 * v > -pi, (v > 0) == (x > 0), (v == 0) == (x == 0), (4 * v > pi) == (x > 1), (4 * v < -pi) == (x < -1)]
        for zs2, v2 in apps[:20]:
            out.append((v < v2) == (x < zs2[0]))
            out.append(z3.Implies(x + zs2[0] == 0, v + v2 == 0))
        return out

    L['arctan'] = arctan_lem

    def sts(name):
        import scipy.stats
        return getattr(scipy.stats, name)

    def num(name, meth):
        def f(x, *args):
            if any(mp.isnan(a) for a in (x,) + args):
                return mp.nan
            if name == 'norm' and not args:
                if meth == 'cdf':
                    return mp.ncdf(x)
                if meth == 'ppf':
                    return mp.mpf(mp.sqrt(2) * mp.erfinv(2 * x - 1)) if 0 < x < 1 else mp.nan
            if name == 't' and meth == 'cdf':
                df = args[0]
                z = mp.betainc(df / 2, mp.mpf(1) / 2, 0, df / (df + x * x), regularized=True) / 2
                return z if x <= 0 else 1 - z
            return mp.mpf(float(getattr(sts(name), meth)(float(x), *map(float, args))))

        return f

    for dist in ('norm', 't', 'cauchy', 'expon', 'gamma', 'beta', 'lognorm', 'logistic', 'uniform', 'chi2', 'pareto',
                 'weibull_min', 'laplace', 'f'):
        for meth in ('cdf', 'ppf', 'pdf', 'logpdf'):
            N[f'{meth}|{dist}'] = num(dist, meth)
    N['btdtr'] = lambda a, b, x: mp.betainc(a, b, 0, x, regularized=True)
    N['gamma'] = mp.gamma
    N['gammaln'] = lambda x: mp.log(abs(mp.gamma(x)))
    N['atan2'] = mp.atan2

    def mvncdf(d):
        def f(*a):
            import scipy.stats
            a = [float(x) for x in a]
            x, m, cov = a[:d], a[d:2 * d], np.array(a[2 * d:]).reshape(d, d)
            return mp.mpf(float(scipy.stats.multivariate_normal.cdf(x, m, cov)))

        return f

    for d in range(2, 6):
        N[f'mvncdf{d}'] = mvncdf(d)
    D = tm.uf_deriv
    D['cdf|norm'] = lambda a, i: npdf(a[0])
    D['ppf|norm'] = lambda a, i: tm.ipow(npdf(tm.uf('ppf|norm', a)), -1)
    D['cdf|t'] = lambda a, i: tpdf(a[0], a[1])
    D['ppf|t'] = lambda a, i: tm.ipow(tpdf(tm.uf('ppf|t', a), a[1]), -1)


SQ2PI = tm.power(tm.mul(C(2), tm.PI), C(Fraction(-1, 2)))


def npdf(x):
    return tm.mul(SQ2PI, tm.exp(tm.mul(C(Fraction(-1, 2)), tm.ipow(x, 2))))


def nlogpdf(x):
    return tm.add(tm.mul(C(Fraction(-1, 2)), tm.log(tm.mul(C(2), tm.PI))), tm.mul(C(Fraction(-1, 2)), tm.ipow(x, 2)))


def tpdf(x, df):
    return tm.exp(tlogpdf(x, df))


def tlogpdf(x, df):
    h = C(Fraction(1, 2))
    d1 = tm.mul(h, tm.add(df, tm.ONE))
    return tm.add(gammaln_t(d1), tm.neg(gammaln_t(tm.mul(h, df))), tm.neg(tm.mul(h, tm.log(tm.mul(df, tm.PI)))),
                  tm.neg(tm.mul(d1, tm.log(tm.add(tm.ONE, tm.div(tm.ipow(x, 2), df))))))


# --- gamma function -------------------------------------------------------------------------------------------------

def _linear(t, k, out):
    """the summands of k * t, with constant factors multiplied out"""
    if t.op == 'add':
        for a in t.args:
            _linear(a, k, out)
    elif t.op == 'mul' and len(t.args) == 2 and t.args[0].op == 'const':
        _linear(t.args[1], k * t.args[0].val, out)
    elif t.op == 'const':
        out[None] = out.get(None, Fraction(0)) + k * t.val
    else:
        out[t] = out.get(t, Fraction(0)) + k


def _shift(t):
    """t = base + n with the largest integer constant n split off"""
    out = {}
    _linear(t, Fraction(1), out)
    c = out.pop(None, Fraction(0))
    rest = [tm.mul(C(k), v) for v, k in out.items() if k]
    if not rest:
        return None, c
    n = math.floor(c)
    return tm.add(*rest, C(c - n)), n


def gamma_t(t):
    if t in tm.SPECIAL:
        return tm.INF if t is tm.INF else tm.NAN
    base, n = _shift(t)
    if base is None:
        x = n
        if x.denominator == 1:
            return C(math.factorial(int(x) - 1)) if x > 0 else tm.INF
        if x.denominator == 2:
            r = tm.power(tm.PI, tm.HALF)
            k = Fraction(1, 2)
            while k < x:
                r = tm.mul(r, C(k))
                k += 1
            while k > x:
                k -= 1
                r = tm.div(r, C(k))
            return r
        fl = math.floor(x)
        base, n = C(x - fl), fl
        if base.val == 0:
            base, n = tm.ONE, fl - 1
    r = tm.uf('gamma', [base])
    for i in range(n):
        r = tm.mul(r, tm.add(base, C(i)))
    for i in range(0, n, -1):
        r = tm.div(r, tm.add(base, C(i - 1)))
    return r


def gammaln_t(t):
    if t in tm.SPECIAL:
        return tm.INF if t is tm.INF else tm.NAN
    base, n = _shift(t)
    if base is None:
        x = n
        if x.denominator == 1:
            return tm.log(C(math.factorial(int(x) - 1))) if x > 0 else tm.INF
        if x.denominator == 2:
            r = gamma_t(t)
            return tm.log(r if tm.sign(r) == 1 else tm.neg(r))
        fl = math.floor(x)
        base, n = C(x - fl), fl
    r = tm.log(tm.uf('gamma', [base])) if tm.sign(base) == 1 else tm.uf('gammaln', [base])
    for i in range(n):
        r = tm.add(r, logabs(tm.add(base, C(i))))
    for i in range(0, n, -1):
        r = tm.sub(r, logabs(tm.add(base, C(i - 1))))
    return r


def logabs(t):
    s = tm.sign(t)
    if s == 1:
        return tm.log(t)
    if s == -1:
        return tm.log(tm.neg(t))
    if pth.current() is not None and pth.decide_cond(tm.eq(t, tm.ZERO)):
        return tm.NINF
    if pth.current() is not None:
        return tm.log(tm.neg(t) if pth.decide_cond(tm.lt(t, tm.ZERO)) else t)
    return tm.mul(tm.HALF, tm.log(tm.ipow(t, 2)))


def _int_case(x):
    """a symbolic integer argument within small bounds is split into its values"""
    t = term(x)
    if t.op != 'const' and t not in tm.SPECIAL and (kind(x) == 'i' or t.sort == 'I'):
        lo, hi, _, _ = tm.bounds(t)
        if lo is not None and hi is not None and hi - lo <= 32:
            return C(x.__index__())
    return t


def gamma(x):
    return vec(lambda a: Sym(gamma_t(_int_case(a))), x)


def gammaln(x):
    return vec(lambda a: Sym(gammaln_t(_int_case(a))), x)


def vec(f, *args):
    r = ew(f, *args)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


def special_comb(n, k, exact=False, **kw):
    if exact:
        return math.comb(int(n), int(k))
    return vec(lambda a, b: Sym(tm.div(gamma_t(tm.add(term(a), tm.ONE)),
                                       tm.mul(gamma_t(tm.add(tm.sub(term(a), term(b)), tm.ONE)),
                                              gamma_t(tm.add(term(b), tm.ONE))))), n, k)


def beta_fn(a, b):
    return vec(lambda x, y: Sym(tm.div(tm.mul(gamma_t(term(x)), gamma_t(term(y))), gamma_t(tm.add(term(x), term(y))))),
               a, b)


def settle(t):
    """t with every choice between cases decided, when what is left is a number"""
    def go(x):
        if x.op == 'ite':
            return go(x.args[1] if pth.decide_cond(x.args[0]) else x.args[2])
        if x.op == 'add':
            return tm.add(*[go(a) for a in x.args])
        return tm.mul(*[go(a) for a in x.args]) if x.op == 'mul' else x

    def plain_(x):
        return x.op == 'const' or x.op == 'ite' and all(plain_(a) for a in x.args[1:]) or \
            x.op in ('add', 'mul') and all(plain_(a) for a in x.args)

    return go(t) if t.op != 'const' and plain_(t) else t


def betainc1(a, b, x):
    a, b, t = settle(term(a)), settle(term(b)), term(x)
    if tm.NAN in (a, b, t):
        return Sym(tm.NAN)
    sa, sb = tm.sign(a), tm.sign(b)
    if sa != 1 and not pth.decide_cond(tm.lt(tm.ZERO, a)) or sb != 1 and not pth.decide_cond(tm.lt(tm.ZERO, b)):
        return Sym(tm.NAN)
    if pth.decide_cond(tm.lt(t, tm.ZERO)) or pth.decide_cond(tm.lt(tm.ONE, t)):
        return Sym(tm.NAN)
    if pth.decide_cond(tm.eq(t, tm.ZERO)):
        return Sym(tm.ZERO)
    if pth.decide_cond(tm.eq(t, tm.ONE)):
        return Sym(tm.ONE)
    if a.op == 'const' and b.op == 'const' and a.val.denominator == 1 and b.val.denominator == 1 and a.val + b.val < 12:
        # the finite binomial sum
        m, n = int(a.val), int(a.val + b.val - 1)
        return Sym(tm.add(*[tm.mul(C(math.comb(n, j)), tm.ipow(t, j), tm.ipow(tm.sub(tm.ONE, t), n - j))
                            for j in range(m, n + 1)]))
    return Sym(tm.uf('btdtr', [a, b, t]))


def betainc(a, b, x):
    return vec(betainc1, a, b, x)


# --- random numbers -------------------------------------------------------------------------------------------------

class RngState:
    """per-path state of every random stream"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.global_ = Stream(('entropy', 0))
        self.fresh = 0
        self.crand = 0
        self.log = []
        self.choices = []
        self.seeds = []


def seed_key(s):
    if isinstance(s, Sym):
        s = int(s.t.val) if s.t.op == 'const' and s.t.val.denominator == 1 else s
    if isinstance(s, Sym):
        return 'seed', f't{s.t.id}'
    if isinstance(s, (int, np.integer)):
        return 'seed', int(s)
    return 'seed', repr(s)


class Stream:
    def __init__(self, key):
        self.key, self.pos = key, 0

    def draw(self, dist, range_=None, sort='R', args=()):
        name = f'{dist}[{self.key[0]}:{self.key[1]}@{self.pos}]'
        RNG.log.append((self.key, self.pos, dist))
        self.pos += 1
        if args:
            return tm.uf(name, [term(a) for a in args])
        v = tm.var(name, sort)
        if range_ is not None and name not in tm.var_range:
            tm.var_range[name] = range_
            forget(v)
        return v

    def reseed(self, s):
        RNG.seeds.append(s)
        if s is None:
            RNG.fresh += 1
            self.key = ('entropy', RNG.fresh)
        else:
            self.key = seed_key(s)
        self.pos = 0


def forget(v):
    tm._bcache.pop(v.id, None)


RNG = RngState()


def crand():
    """libc rand(): an integer in [0, RAND_MAX]; never seeded by the code under test"""
    RNG.crand += 1
    name = f'crand[{RNG.crand}]'
    v = tm.var(name, 'I')
    tm.var_range[name] = (Fraction(0), Fraction(2147483647), False, False)
    forget(v)
    return Sym(v, 'i')


def as_shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer, Sym)):
        return (int(size.__index__()),)
    return tuple(int(s.__index__()) for s in size)


class Rng:
    """numpy.random module functions / RandomState / Generator on one stream"""

    def __init__(self, stream=None):
        self._s = stream

    @property
    def stream(self):
        return self._s if self._s is not None else RNG.global_

    def _gen(self, size, f, *args):
        sh = as_shape(size)
        arrs = [sarr(a) for a in args]
        if sh is None:
            bs = np.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
            if bs == ():
                return f(*[plain(a)[()] for a in arrs])
            sh = bs
        out = np.empty(sh, object)
        bs = [np.broadcast_to(plain(a), sh) for a in arrs]
        k = 'f'
        for i in np.ndindex(sh):
            out[i] = f(*[b[i] for b in bs])
            k = kind(out[i])
        return mk(out, k)

    def _unit(self):
        return self.stream.draw('U', unit())

    def seed(self, s=None):
        self.stream.reseed(s)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._gen(size, lambda a, b: Sym(tm.add(term(a), tm.mul(tm.sub(term(b), term(a)), self._unit()))),
                         low, high)

    def random_sample(self, size=None):
        return self._gen(size, lambda: Sym(self._unit()))

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self.random_sample(d or None)

    def randn(self, *d):
        return self.standard_normal(d or None)

    def standard_normal(self, size=None):
        return self._gen(size, lambda: Sym(self.stream.draw('Z')))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._gen(size, lambda m, s: Sym(tm.add(term(m), tm.mul(term(s), self.stream.draw('Z')))), loc, scale)

    def standard_exponential(self, size=None):
        return self._gen(size, lambda: Sym(self.stream.draw('E', (Fraction(0), None, True, True))))

    def exponential(self, scale=1.0, size=None):
        return self._gen(size, lambda s: Sym(tm.mul(term(s), self.stream.draw('E', (Fraction(0), None, True, True)))),
                         scale)

    def chisquare(self, df, size=None):
        def f(d):
            name = f'chi2[{self.stream.key[0]}:{self.stream.key[1]}@{self.stream.pos}]'
            tm.uf_range[name] = (Fraction(0), None, True, True)
            return Sym(self.stream.draw('chi2', args=(d,)))

        return self._gen(size, f, df)

    def gamma(self, shape, scale=1.0, size=None):
        def f(a, s):
            name = f'gam[{self.stream.key[0]}:{self.stream.key[1]}@{self.stream.pos}]'
            tm.uf_range[name] = (Fraction(0), None, True, True)
            return Sym(tm.mul(term(s), self.stream.draw('gam', args=(a,))))

        return self._gen(size, f, shape, scale)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low

        def f(a, b):
            lo, hi = term(a), term(b)
            if lo.op != 'const' or hi.op != 'const':
                raise Unsupported('random integer with symbolic limits')
            top = hi.val if endpoint else hi.val - 1
            if top < lo.val:
                raise ValueError('low >= high')
            v = self.stream.draw(f'I{lo.val}-{top}', (lo.val, top, False, False), 'I')
            return Sym(v, 'i')

        return self._gen(size, f, low, high)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        sh = as_shape(size)
        cnt = 1 if sh is None else int(np.prod(sh))
        picks = []
        for _ in range(cnt):
            v = self.stream.draw(f'I0-{n - 1}', (Fraction(0), Fraction(n - 1), False, False), 'I')
            picks.append(Sym(v, 'i'))
        RNG.choices.append(None if p is None else list(np.ravel(plain(sarr(p)))))
        if not replace:
            for i in range(cnt):
                for j in range(i):
                    pth.current().assume(tm.not_(tm.eq(picks[i].t, picks[j].t)))
        if isinstance(a, (int, np.integer)):
            if sh is None:
                return picks[0]
            out = np.empty((cnt,), object)
            out[:] = picks
            return mk(out.reshape(sh), 'i')
        ix = [x.__index__() for x in picks]
        aa = a if isinstance(a, np.ndarray) else np.array(a, object if any_sym(a) else None)
        if sh is None:
            return aa[ix[0]]
        return aa[np.array(ix).reshape(sh)]

    def permutation(self, n):
        if isinstance(n, (int, np.integer)):
            ix = [self.randint(0, n - i).__index__() for i in range(n)]
            rest = list(range(n))
            return np.array([rest.pop(i) for i in ix])
        ix = self.permutation(len(n))
        return n[ix]

    def shuffle(self, x):
        ix = self.permutation(len(x))
        x[...] = x[ix]

    def multivariate_normal(self, mean, cov, size=None, **k):
        return mvn_draw(self, mean, cov, size)

    def binomial(self, n, p, size=None):
        m = int(n)
        return self._gen(size, lambda q_: Sym(self.stream.draw(f'B{m}', (Fraction(0), Fraction(m), False, False), 'I'),
                                              'i'), p)

    def multinomial(self, n, pvals, size=None):
        raise Unsupported('multinomial')

    def get_state(self, *a, **k):
        s = self.stream
        return ('state', s.key, s.pos)

    def set_state(self, st):
        s = self.stream
        s.key, s.pos = st[1], st[2]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'numpy.random.{n}')


class RandomModule(types.ModuleType, Rng):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')
        self._s = None

    @staticmethod
    def RandomState(seed=None):
        return _new(seed, 'mt')

    @staticmethod
    def default_rng(seed=None):
        if isinstance(seed, Rng):
            return seed
        return _new(seed, 'pcg')

    @property
    def Generator(self):
        return Rng

    @property
    def mtrand(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'numpy.random.{n}')


def _new(seed, what):
    s = Stream(('entropy', 0))
    s.reseed(seed)
    if what == 'pcg':
        s.key = ('pcg' + s.key[0], s.key[1])
    return Rng(s)


RANDOM = RandomModule()


def random_state(rs):
    """scipy's check_random_state"""
    if rs is None or rs is RANDOM:
        return RANDOM
    if isinstance(rs, Rng):
        return rs
    return _new(rs, 'mt')


# --- distributions --------------------------------------------------------------------------------------------------

def _lim(t, at_minf, at_inf, f):
    if t is tm.NAN:
        return tm.NAN
    if t is tm.INF:
        return at_inf
    if t is tm.NINF:
        return at_minf
    return f(t)


class rv_generic:
    pass


class rv_continuous(rv_generic):
    def __init__(self, name='generic'):
        self.name = name

    shapes = ()
    symmetric = False
    support = (None, None)

    # standardised functions; `t` finite
    def _uf(self, meth, t, sh):
        return tm.uf(f'{meth}|{self.name}', [t] + list(sh))

    def _cdf_t(self, t, sh):
        lo, hi = self.support
        if lo is not None and not pth.decide_cond(tm.lt(C(lo), t)):
            return tm.ZERO
        if hi is not None and not pth.decide_cond(tm.lt(t, C(hi))):
            return tm.ONE
        if self.symmetric and t is tm.ZERO:
            return tm.HALF
        if t.op == 'uf' and t.val == f'ppf|{self.name}' and list(t.args[1:]) == list(sh):
            return t.args[0]
        return self._cdf_c(t, sh)

    def _cdf_c(self, t, sh):
        return self._uf('cdf', t, sh)

    def _ppf_t(self, u, sh):
        if u in tm.SPECIAL:
            return tm.NAN
        lo, hi = self.support
        s = tm.bounds(u)
        if not (s[0] is not None and (s[0] > 0 or s[0] == 0 and s[2])):
            if pth.decide_cond(tm.lt(u, tm.ZERO)):
                return tm.NAN
            if pth.decide_cond(tm.eq(u, tm.ZERO)):
                return tm.NINF if lo is None else C(lo)
        if not (s[1] is not None and (s[1] < 1 or s[1] == 1 and s[3])):
            if pth.decide_cond(tm.lt(tm.ONE, u)):
                return tm.NAN
            if pth.decide_cond(tm.eq(u, tm.ONE)):
                return tm.INF if hi is None else C(hi)
        if self.symmetric and u is tm.HALF:
            return tm.ZERO
        if u.op == 'uf' and u.val == f'cdf|{self.name}' and list(u.args[1:]) == list(sh):
            return u.args[0]
        return self._ppf_c(u, sh)

    def _ppf_c(self, u, sh):
        return self._uf('ppf', u, sh)

    def _logpdf_t(self, t, sh):
        return tm.log(self._pdf_t(t, sh))

    def _pdf_t(self, t, sh):
        return self._uf('pdf', t, sh)

    def _pdf_full(self, t, sh):
        lo, hi = self.support
        if lo is not None and pth.decide_cond(tm.lt(t, C(lo))):
            return tm.ZERO
        if hi is not None and pth.decide_cond(tm.lt(C(hi), t)):
            return tm.ZERO
        return self._pdf_t(t, sh)

    def _logpdf_full(self, t, sh):
        lo, hi = self.support
        if lo is not None and pth.decide_cond(tm.lt(t, C(lo))):
            return tm.NINF
        if hi is not None and pth.decide_cond(tm.lt(C(hi), t)):
            return tm.NINF
        return self._logpdf_t(t, sh)

    # public methods
    def _bind(self, args, kw):
        vals = dict(zip(self.shapes + ('loc', 'scale'), args))
        for k, v in kw.items():
            if k not in self.shapes + ('loc', 'scale') or k in vals:
                raise TypeError(f"_parse_args() got an unexpected keyword argument '{k}'")
            vals[k] = v
        if len(args) > len(self.shapes) + 2:
            raise TypeError('too many arguments')
        miss = [s for s in self.shapes if s not in vals]
        if miss:
            raise TypeError(f"_parse_args() missing {len(miss)} required positional argument: {miss[0]!r}")
        return [vals[s] for s in self.shapes], vals.get('loc', 0), vals.get('scale', 1)

    def _ok(self, sh, scale):
        """argument check: shapes and scale positive"""
        for s in list(sh) + [scale]:
            t = term(s)
            if t in (tm.NAN, tm.NINF):
                return False
            if t is not tm.INF and tm.sign(t) != 1 and not pth.decide_cond(tm.lt(tm.ZERO, t)):
                return False
        return True

    def _eval(self, f, x, args, kw):
        sh, loc, scale = self._bind(args, kw)

        def g(x_, loc_, scale_, *sh_):
            if not self._ok(sh_, scale_):
                return Sym(tm.NAN)
            return Sym(f(term(x_), term(loc_), term(scale_), [term(s) for s in sh_]))

        x = x if isinstance(x, (np.ndarray, Sym)) else (sarr(x) if isinstance(x, (list, tuple)) or hasattr(
            x, 'to_numpy') else wrap(x))
        return vec(g, x, loc, scale, *sh)

    def _std(self, x, loc, scale):
        return tm.div(tm.sub(x, loc), scale) if x not in tm.SPECIAL else x

    def cdf(self, x, *args, **kw):
        def f(x_, l, s, sh):
            return _lim(x_, tm.ZERO, tm.ONE, lambda t: self._cdf_t(self._std(t, l, s), sh))

        return self._eval(f, x, args, kw)

    def sf(self, x, *args, **kw): return 1 - self.cdf(x, *args, **kw)

    def logcdf(self, x, *args, **kw):
        r = self.cdf(x, *args, **kw)
        return vec(f_log, r)

    def logsf(self, x, *args, **kw): return vec(f_log, self.sf(x, *args, **kw))

    def ppf(self, u, *args, **kw):
        def f(x_, l, s, sh):
            z = self._ppf_t(x_, sh)
            return z if z in tm.SPECIAL else tm.add(l, tm.mul(s, z))

        return self._eval(f, u, args, kw)

    def isf(self, u, *args, **kw): return self.ppf(1 - u, *args, **kw)

    def pdf(self, x, *args, **kw):
        def f(x_, l, s, sh):
            return _lim(x_, tm.ZERO, tm.ZERO, lambda t: tm.div(self._pdf_full(self._std(t, l, s), sh), s))

        return self._eval(f, x, args, kw)

    def logpdf(self, x, *args, **kw):
        def f(x_, l, s, sh):
            return _lim(x_, tm.NINF, tm.NINF,
                        lambda t: tm.sub(self._logpdf_full(self._std(t, l, s), sh), tm.log(s)))

        return self._eval(f, x, args, kw)

    def rvs(self, *args, size=None, random_state=None, **kw):
        sh, loc, scale = self._bind(args, kw)
        rng = globals()['random_state'](random_state)
        r = rng._gen(size, lambda: Sym(rng._unit()))
        return self.ppf(r, *sh, loc=loc, scale=scale)

    def fit(self, data, *a, **k):
        # the families whose maximum likelihood estimate is closed form (scipy uses the same formulas)
        x = [wrap(v) for v in plain(sarr(data)).ravel()]
        if a or k or self.name not in ('norm', 'expon', 'uniform'):
            raise Unsupported('distribution fitting')
        mean = sum(x[1:], x[0]) / len(x)
        if self.name == 'norm':
            q = sum(((v - mean) ** 2 for v in x[1:]), (x[0] - mean) ** 2) / len(x)
            return mean, q ** .5
        lo = min(x[1:], default=x[0])
        lo = x[0] if x[0] <= lo else lo
        if self.name == 'expon':
            return lo, mean - lo
        hi = max(x[1:], default=x[0])
        hi = x[0] if x[0] >= hi else hi
        return lo, hi - lo

    def __call__(self, *args, **kw):
        return rv_frozen(self, *args, **kw)

    freeze = __call__


class rv_frozen:
    def __init__(self, dist, *args, **kw):
        self.dist, self.args, self.kwds = dist, args, kw
        dist._bind(args, kw)

    def __getattr__(self, n):
        if n in ('cdf', 'sf', 'ppf', 'pdf', 'logpdf', 'logcdf', 'isf', 'logsf'):
            f = getattr(self.dist, n)
            return lambda x: f(x, *self.args, **self.kwds)
        raise AttributeError(n)

    def rvs(self, size=None, random_state=None):
        kw = dict(self.kwds)
        kw.update(size=1 if size is None else size, random_state=random_state)
        return self.dist.rvs(*self.args, **kw)


def make_dist(name, shapes=(), symmetric=False, support=(None, None), **methods):
    ns = dict(shapes=tuple(shapes), symmetric=symmetric, support=support, **methods)
    src = f"def _parse_args(self{''.join(', ' + s for s in shapes)}, loc=0, scale=1): return ({''.join(s + ',' for s in shapes)}), loc, scale"
    d = {}
    exec(src, d)
    ns['_parse_args'] = d['_parse_args']
    cls = type(name + '_gen', (rv_continuous,), ns)
    tm.uf_range.setdefault(f'cdf|{name}', unit())
    tm.uf_range.setdefault(f'pdf|{name}', (Fraction(0), None, False, True))
    if f'cdf|{name}' not in decide.UF_LEMMAS:
        decide.UF_LEMMAS[f'cdf|{name}'] = _cdf_lemma(symmetric)
        decide.UF_LEMMAS[f'ppf|{name}'] = _ppf_lemma(symmetric)
        inverse_pair(f'cdf|{name}', f'ppf|{name}')
    return cls(name)


install_ufs()
one = tm.ONE
DISTS = {
    'norm': make_dist('norm', (), True, _pdf_t=lambda self, t, sh: npdf(t), _logpdf_t=lambda self, t, sh: nlogpdf(t)),
    't': make_dist('t', ('df',), True, _pdf_t=lambda self, t, sh: tpdf(t, sh[0]),
                   _logpdf_t=lambda self, t, sh: tlogpdf(t, sh[0])),
    'cauchy': make_dist('cauchy', (), True,
                        _pdf_t=lambda self, t, sh: tm.ipow(tm.mul(tm.PI, tm.add(one, tm.ipow(t, 2))), -1)),
    'expon': make_dist('expon', (), False, (0, None), _pdf_t=lambda self, t, sh: tm.exp(tm.neg(t)),
                       _logpdf_t=lambda self, t, sh: tm.neg(t),
                       _cdf_c=lambda self, t, sh: tm.sub(one, tm.exp(tm.neg(t))),
                       _ppf_c=lambda self, u, sh: tm.neg(tm.log(tm.sub(one, u)))),
    'uniform': make_dist('uniform', (), False, (0, 1), _pdf_t=lambda self, t, sh: one, _cdf_c=lambda self, t, sh: t,
                         _ppf_c=lambda self, u, sh: u),
    'logistic': make_dist('logistic', (), True, _cdf_c=lambda self, t, sh: tm.ipow(tm.add(one, tm.exp(tm.neg(t))), -1),
                          _ppf_c=lambda self, u, sh: tm.sub(tm.log(u), tm.log(tm.sub(one, u))),
                          _pdf_t=lambda self, t, sh: tm.div(tm.exp(tm.neg(t)),
                                                            tm.ipow(tm.add(one, tm.exp(tm.neg(t))), 2))),
    'beta': make_dist('beta', ('a', 'b'), False, (0, 1),
                      _cdf_c=lambda self, t, sh: betainc1(Sym(sh[0]), Sym(sh[1]), Sym(t)).t,
                      _pdf_t=lambda self, t, sh: _beta_pdf(t, sh), _logpdf_t=lambda self, t, sh: _beta_logpdf(t, sh)),
    'gamma': make_dist('gamma', ('a',), False, (0, None)),
    'chi2': make_dist('chi2', ('df',), False, (0, None)),
    'lognorm': make_dist('lognorm', ('s',), False, (0, None)),
    'weibull_min': make_dist('weibull_min', ('c',), False, (0, None)),
    'pareto': make_dist('pareto', ('b',), False, (1, None)),
    'laplace': make_dist('laplace', (), True),
}


def _beta_logpdf(t, sh):
    a, b = map(settle, sh)
    # at the edges of [0, 1] the power terms decide
    parts = [tm.neg(tm.add(gammaln_t(a), gammaln_t(b), tm.neg(gammaln_t(tm.add(a, b)))))]
    for e, z in ((tm.sub(a, one), t), (tm.sub(b, one), tm.sub(one, t))):
        if e is tm.ZERO or e.op != 'const' and pth.decide_cond(tm.eq(e, tm.ZERO)):
            continue
        if pth.decide_cond(tm.eq(z, tm.ZERO)):
            parts.append(tm.NINF if pth.decide_sign(e) > 0 else tm.INF)
        else:
            parts.append(tm.mul(e, tm.log(z)))
    return tm.add(*parts)


def _beta_pdf(t, sh):
    a, b = map(settle, sh)
    if all(x.op == 'const' and x.val.denominator == 1 for x in (a, b)):
        c = tm.div(gamma_t(tm.add(a, b)), tm.mul(gamma_t(a), gamma_t(b)))
        return tm.mul(c, tm.ipow(t, int(a.val) - 1), tm.ipow(tm.sub(one, t), int(b.val) - 1))
    return tm.exp(_beta_logpdf(t, sh))


class rv_discrete(rv_generic):
    def __init__(self, name):
        self.name = name


class Poisson(rv_discrete):
    """poisson: cdf(k, mu) = exp(-mu) sum_{i <= k} mu^i / i!"""

    def cdf(self, k, mu, loc=0):
        def f(k_, m_):
            t = tm.sub(term(k_), term(wrap(loc)))
            n = math.floor(t.val) if t.op == 'const' else Sym(t, 'i').__index__()
            m = term(m_)
            if n < 0:
                return Sym(tm.ZERO)
            return Sym(tm.mul(tm.exp(tm.neg(m)), tm.add(*[tm.div(tm.ipow(m, i), C(math.factorial(i)))
                                                          for i in range(n + 1)])))

        return vec(f, k, mu)

    def logcdf(self, k, mu, loc=0): return vec(f_log, self.cdf(k, mu, loc))

    def pmf(self, k, mu, loc=0):
        return self.cdf(k, mu, loc) - self.cdf(k - 1, mu, loc)


def _posdef(cov):
    """is the (symbolic) matrix positive definite?  forks on its leading minors"""
    p = plain(sarr(cov))
    d = p.shape[0]
    for k in range(1, d + 1):
        m = LINALG['det'](mk(p[:k, :k].copy(), 'f'))
        if not pth.decide_cond(tm.lt(tm.ZERO, term(m))):
            return False
    return True


def _mv_params(x, mean, cov):
    cov = sarr(cov if cov is not None else 1.0)
    if cov.ndim == 0:
        d = None
        if mean is not None and sarr(mean).ndim == 1:
            d = sarr(mean).shape[0]
        c = plain(cov)[()]
        d = d or 1
        o = np.empty((d, d), object)
        for i in range(d):
            for j in range(d):
                o[i, j] = Sym(term(c)) if i == j else Sym(tm.ZERO)
        cov = mk(o, 'f')
    elif cov.ndim == 1:
        v = plain(cov)
        d = len(v)
        o = np.empty((d, d), object)
        for i in range(d):
            for j in range(d):
                o[i, j] = v[i] if i == j else Sym(tm.ZERO)
        cov = mk(o, 'f')
    d = cov.shape[0]
    if cov.shape != (d, d):
        raise ValueError("Array 'cov' must be square if it is two dimensional")
    if mean is None:
        m = [Sym(tm.ZERO)] * d
    else:
        m = list(plain(sarr(mean)).ravel())
        if len(m) == 1 and d > 1 and False:
            m = m * d
    if len(m) != d:
        raise ValueError(f"Array 'mean' must be a vector of length {d}.")
    return d, m, plain(cov)


def _mv_points(x, d):
    x = sarr(x)
    if x.ndim == 0:
        x = x.reshape(1, 1)
        out = ()
    elif x.ndim == 1:
        if d == 1:
            out = x.shape
            x = x.reshape(-1, 1)
        else:
            x = x.reshape(1, -1)
            out = ()
    else:
        out = x.shape[:-1]
    if x.shape[-1] != d:
        raise ValueError('operands could not be broadcast together')
    return plain(x).reshape(-1, d), out


def _mv_out(vals, out):
    if out == () or (len(vals) == 1 and len(out) <= 1):
        return vals[0]
    o = np.empty(len(vals), object)
    o[:] = vals
    return mk(o.reshape(out), 'f')


class MVN:
    """multivariate normal with scipy's shape conventions"""
    name = 'multivariate_normal'

    def logpdf(self, x, mean=None, cov=1, allow_singular=False):
        d, m, c = _mv_params(x, mean, cov)
        pts, out = _mv_points(x, d)
        if not _posdef(mk(c, 'f')):
            raise np.linalg.LinAlgError('When `allow_singular is False`, the input matrix must be symmetric positive '
                                        'definite.')
        inv = plain(sarr(LINALG['inv'](mk(c, 'f'))))
        det = term(LINALG['det'](mk(c, 'f')))
        vals = []
        for p in pts:
            if any(term(v) is tm.NAN for v in p):
                vals.append(Sym(tm.NAN))
                continue
            if any(term(v) in tm.SPECIAL for v in p):
                vals.append(Sym(tm.NINF if sum(term(v) in tm.SPECIAL for v in p) == 1 else tm.NAN))
                continue
            y = [tm.sub(term(p[i]), term(m[i])) for i in range(d)]
            quad = tm.add(*[tm.mul(y[i], y[j], term(inv[i, j])) for i in range(d) for j in range(d)])
            vals.append(Sym(tm.mul(C(Fraction(-1, 2)), tm.add(tm.mul(C(d), tm.log(tm.mul(C(2), tm.PI))), tm.log(det),
                                                              quad))))
        return _mv_out(vals, out)

    def pdf(self, x, mean=None, cov=1, allow_singular=False):
        return vec(f_exp, self.logpdf(x, mean, cov, allow_singular))

    def cdf(self, x, mean=None, cov=1, *a, **k):
        d, m, c = _mv_params(x, mean, cov)
        pts, out = _mv_points(x, d)
        vals = []
        for p in pts:
            ts = [term(v) for v in p]
            if tm.NAN in ts:
                vals.append(Sym(tm.NAN))
                continue
            if tm.NINF in ts:
                vals.append(Sym(tm.ZERO))
                continue
            keep = [i for i in range(d) if ts[i] is not tm.INF]
            vals.append(Sym(mvncdf_t([ts[i] for i in keep], [term(m[i]) for i in keep],
                                     [[term(c[i, j]) for j in keep] for i in keep])))
        return _mv_out(vals, out)

    def logcdf(self, x, mean=None, cov=1, *a, **k):
        return vec(f_log, self.cdf(x, mean, cov))

    def rvs(self, mean=None, cov=1, size=1, random_state=None):
        return mvn_draw(globals()['random_state'](random_state), mean, cov, size, squeeze=True)

    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None, **k):
        return MVNFrozen(mean, cov, seed)


def mvncdf_t(x, m, c):
    d = len(x)
    if d == 0:
        return tm.ONE
    if d == 1:
        return DISTS['norm']._cdf_t(tm.div(tm.sub(x[0], m[0]), term(f_sqrt(Sym(c[0][0])))), [])
    if all(c[i][j] is tm.ZERO for i in range(d) for j in range(d) if i != j):
        return tm.mul(*[mvncdf_t([x[i]], [m[i]], [[c[i][i]]]) for i in range(d)])
    return tm.uf(f'mvncdf{d}', list(x) + list(m) + [c[i][j] for i in range(d) for j in range(d)])


class MVNFrozen:
    def __init__(self, mean, cov, seed):
        self.mean, self.cov, self.seed = mean, cov, seed

    def __getattr__(self, n):
        if n in ('pdf', 'logpdf', 'cdf', 'logcdf'):
            return lambda x: getattr(MVN(), n)(x, self.mean, self.cov)
        raise AttributeError(n)

    def rvs(self, size=1, random_state=None):
        return MVN().rvs(self.mean, self.cov, size, random_state if random_state is not None else self.seed)


def mvn_draw(rng, mean, cov, size, squeeze=False):
    """draws are functions of the stream position, mean and covariance"""
    d, m, c = _mv_params(None, mean, cov)
    sh = as_shape(size) or ()
    par = [term(x) for x in m] + [term(c[i, j]) for i in range(d) for j in range(d)]
    out = np.empty(sh + (d,), object)
    for i in np.ndindex(sh):
        for j in range(d):
            name = f'mvn{j}[{rng.stream.key[0]}:{rng.stream.key[1]}@{rng.stream.pos}]'
            out[i + (j,)] = Sym(tm.uf(name, par))
            RNG.log.append((rng.stream.key, rng.stream.pos, f'mvn{j}'))
            rng.stream.pos += 1
    r = mk(out, 'f')
    if squeeze:
        r = r.squeeze()
        if r.ndim == 0:
            return plain(r)[()]
    return r


def rankdata(a, method='average', *, axis=None, nan_policy='propagate'):
    a = sarr(a)
    if method not in ('average', 'min', 'max', 'dense', 'ordinal'):
        raise ValueError(f'unknown method "{method}"')
    if axis is not None and a.ndim > 1:
        out = np.empty(a.shape, object)
        qv = np.moveaxis(plain(a), axis, -1)
        ov = np.moveaxis(out, axis, -1)
        for i in np.ndindex(qv.shape[:-1]):
            ov[i] = plain(sarr(rankdata(mk(qv[i].copy(), a.kind), method)))
        return mk(out, 'f' if method == 'average' else 'i')
    xs = [term(x) for x in plain(a).ravel()]
    n = len(xs)
    if any(x is tm.NAN for x in xs):
        return mk(np.array([Sym(tm.NAN)] * n, object), 'f')
    out = np.empty(n, object)

    p = pth.current()

    def ind(c):
        k = p.known.get(c.id) if p is not None else None
        if k is not None:
            c = tm.TRUE if k else tm.FALSE
        return tm.ite(c, tm.ONE, tm.ZERO)

    for i in range(n):
        less = tm.add(*[ind(tm.lt(xs[j], xs[i])) for j in range(n) if j != i]) if n > 1 else tm.ZERO
        eqs = [ind(tm.eq(xs[j], xs[i])) for j in range(n) if j != i]
        eqn = tm.add(*eqs) if eqs else tm.ZERO
        if method == 'min':
            r = tm.add(less, tm.ONE)
        elif method == 'max':
            r = tm.add(less, eqn, tm.ONE)
        elif method == 'average':
            r = tm.add(less, tm.ONE, tm.mul(tm.HALF, eqn))
        elif method == 'ordinal':
            r = tm.add(tm.ONE, *[ind(tm.le(xs[j], xs[i]) if j < i else tm.lt(xs[j], xs[i])) for j in range(n) if j != i])
        else:  # dense: number of distinct smaller values
            parts = []
            for j in range(n):
                if j == i:
                    continue
                first = tm.and_(*[tm.not_(tm.eq(xs[k], xs[j])) for k in range(j)]) if j else tm.TRUE
                parts.append(ind(tm.and_(tm.lt(xs[j], xs[i]), first)))
            r = tm.add(tm.ONE, *parts)
        out[i] = Sym(r, 'f' if method == 'average' else 'i')
    return mk(out, 'f' if method == 'average' else 'i')


class CorrResult(tuple):
    statistic = property(lambda self: self[0])
    correlation = statistic
    pvalue = property(lambda self: self[1])


def _corr_const(name, x, y):
    n = len(x)
    if name == 'kendalltau':
        sg = [((a > b) - (a < b), (c > d) - (c < d)) for (a, c), (b, d) in itertools.combinations(list(zip(x, y)), 2)]
        num, p, q = sum(a * b for a, b in sg), sum(a * a for a, _ in sg), sum(b * b for _, b in sg)
    else:
        if name == 'spearmanr':
            x, y = ([Fraction(sum(b < a for b in v) * 2 + sum(b == a for b in v) + 1, 2) for a in v] for v in (x, y))
        mx, my = sum(x) / n, sum(y) / n
        num = sum((a - mx) * (b - my) for a, b in zip(x, y))
        p, q = sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y)
    if p == 0 or q == 0:
        return tm.NAN
    return tm.div(tm.const(num), tm.sqrt(tm.const(p * q)))


def _corr_fn(name):
    def f(x, y=None, *a, **k):
        x, y = sarr(x), sarr(y)
        if x.size != y.size:
            raise ValueError('All inputs must have the same length')
        ts = [term(v) for v in plain(x).ravel()] + [term(v) for v in plain(y).ravel()]
        if any(t in tm.SPECIAL for t in ts) or len(ts) < 4:
            if len(ts) < 4 and name == 'pearsonr':
                raise ValueError('x and y must have length at least 2.')
            return CorrResult((Sym(tm.NAN), Sym(tm.NAN)))
        n = len(ts) // 2
        if all(t.op == 'const' for t in ts):
            r = _corr_const(name, [t.val for t in ts[:n]], [t.val for t in ts[n:]])
            return CorrResult((Sym(r), Sym(tm.uf(f'{name}_p{n}', ts))))
        r = tm.uf(f'{name}{n}', ts)
        return CorrResult((Sym(r), Sym(tm.uf(f'{name}_p{n}', ts))))

    return f


def _install_corr():
    import scipy.stats as st

    def num(name, i):
        def f(*a):
            n = len(a) // 2
            return float(getattr(st, name)([float(x) for x in a[:n]], [float(x) for x in a[n:]])[i])

        return f

    for name in ('kendalltau', 'spearmanr', 'pearsonr'):
        for n in range(2, 9):
            tm.UF_NUM[f'{name}{n}'] = num(name, 0)
            tm.UF_NUM[f'{name}_p{n}'] = num(name, 1)
            tm.uf_range[f'{name}{n}'] = (Fraction(-1), Fraction(1), False, False)

            def lem(tr, zs, v, apps, n=n):
                # symmetric in the two samples
                out = []
                for zs2, v2 in apps[:12]:
                    sw = z3.And([a == b for a, b in zip(zs, zs2[n:] + zs2[:n])])
                    out.append(z3.Implies(sw, v == v2))
                return out

            decide.UF_LEMMAS[f'{name}{n}'] = lem


_install_corr()


# --- modules --------------------------------------------------------------------------------------------------------

class Mod(types.ModuleType):
    """a library module: modelled names only"""

    def __init__(self, name, d, real=None, passthrough=()):
        super().__init__(name)
        self.__dict__.update(d)
        self._real = real
        self._pass = passthrough

    def __getattr__(self, n):
        if n.startswith('__') and n != '__all__':
            raise AttributeError(n)
        real = self.__dict__['_real']
        if real is None or not hasattr(real, n):
            raise AttributeError(f'module {self.__name__!r} has no attribute {n!r}')
        v = getattr(real, n)
        if n == '__all__':
            return v
        if n in self._pass or isinstance(v, (type, str, int)):
            return v
        name = f'{self.__name__}.{n}'
        import scipy.stats as st
        if isinstance(v, st.rv_continuous):
            sh = tuple(s.strip() for s in v.shapes.split(',')) if v.shapes else ()
            d = make_dist(n, sh, False)
            setattr(self, n, d)
            return d

        return Stub(name)


class Stub:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported(f'{self._name} is not modelled')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub(f'{self._name}.{n}')


HOOKS = {}  # name -> callable set by a harness: minimize, brentq, quad, minimize_scalar, interp1d, KMeans, cov_nearest


def hooked(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            raise Unsupported(f'{name} is not modelled')
        return h(*a, **k)

    f.__name__ = name
    return f


class Interp1d:
    """piecewise linear interpolation with scipy's conventions"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan, assume_sorted=False):
        x, y = sarr(x), sarr(y)
        if kind != 'linear' or x.ndim != 1 or y.ndim != 1:
            raise Unsupported('interp1d of this kind')
        if x.shape != y.shape:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.extrapolate = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if isinstance(fill_value, str) and not self.extrapolate:
            fill_value, bounds_error = math.nan, True
        if bounds_error is None:
            bounds_error = not self.extrapolate and isinstance(fill_value, float) and math.isnan(fill_value)
        self.bounds_error = bounds_error
        self.fill = fill_value if isinstance(fill_value, tuple) else (fill_value, fill_value)
        self.x, self.y = [wrap(v) for v in plain(x)], [wrap(v) for v in plain(y)]
        if not assume_sorted:
            o = [int(i) for i in a_argsort(x)]
            self.x, self.y = [self.x[i] for i in o], [self.y[i] for i in o]

    def one(self, v):
        if term(v) is tm.NAN:
            return Sym(tm.NAN)
        x, y, n = self.x, self.y, len(self.x)
        if not self.extrapolate:
            for out, f, w in ((v < x[0], self.fill[0], 'below'), (v > x[-1], self.fill[1], 'above')):
                if bool(out):
                    if self.bounds_error:
                        raise ValueError(f'A value in x_new is {w} the interpolation range')
                    return wrap(f)
        i = 1
        while i < n - 1 and bool(x[i] < v):
            i += 1
        return y[i - 1] + (y[i] - y[i - 1]) / (x[i] - x[i - 1]) * (v - x[i - 1])

    def __call__(self, v):
        v = sarr(v)
        out = np.empty(v.shape, object)
        for i in np.ndindex(v.shape):
            out[i] = self.one(wrap(plain(v)[i]))
        return mk(out, 'f')


def cov_nearest(cov, method='clipped', threshold=1e-15, n_fact=100, return_all=False):
    if 'cov_nearest' in HOOKS:
        return HOOKS['cov_nearest'](cov, method, threshold, n_fact, return_all)
    """some positive semi-definite matrix with the same diagonal"""
    c = plain(sarr(cov))
    d = c.shape[0]
    NEAREST[0] += 1
    o = np.empty((d, d), object)
    p = pth.current()
    for i in range(d):
        for j in range(i, d):
            v = c[i, i] if i == j else Sym(tm.var(f'near{NEAREST[0]}_{i}_{j}'))
            o[i, j] = o[j, i] = Sym(term(v))
    for k in range(2, d + 1):
        import itertools
        for ix in itertools.combinations(range(d), k):
            m = LINALG['det'](mk(o[np.ix_(ix, ix)].copy(), 'f'))
            p.assume(tm.le(tm.ZERO, term(m)))
    return mk(o, 'f')


NEAREST = [0]


def lazy_real(name):
    import importlib
    return importlib.import_module(name)


def _sym_math():
    m = types.ModuleType('math')

    def one_(f, native=None):
        def g(x):
            return f(wrap(x)) if not (native and isinstance(x, int)) else native(x)

        return g

    m.__dict__.update(
        pi=Sym(tm.PI), e=Sym(tm.exp(tm.ONE)), inf=math.inf, nan=math.nan, sqrt=one_(f_sqrt), log=lambda x, b=None: (
            f_log(wrap(x)) if b is None else f_log(wrap(x)) / f_log(wrap(b))), exp=one_(f_exp),
        sin=one_(f_sin), cos=one_(f_cos), tan=one_(f_tan), atan=one_(f_arctan), asin=one_(f_arcsin),
        fabs=one_(f_abs), expm1=lambda x: f_exp(wrap(x)) - 1, log1p=lambda x: f_log(wrap(x) + 1),
        pow=lambda a, b: wrap(a) ** wrap(b),
        floor=lambda x: math.floor(x), ceil=lambda x: math.ceil(x), isnan=lambda x: np.isnan(wrap(x)),
        isinf=lambda x: np.isinf(wrap(x)), isfinite=lambda x: np.isfinite(wrap(x)), factorial=math.factorial,
        comb=math.comb, gcd=math.gcd, gamma=lambda x: gamma(wrap(x)), lgamma=lambda x: gammaln(wrap(x)),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: f_abs(wrap(a) - wrap(b)) <= smax(
            rel_tol * smax(f_abs(wrap(a)), f_abs(wrap(b))), wrap(abs_tol)), fsum=lambda xs: sum(xs, wrap(0.0)),
        prod=lambda xs, start=1: __import__('functools').reduce(lambda a, b: a * b, xs, start),
        hypot=lambda a, b: f_sqrt(wrap(a) ** 2 + wrap(b) ** 2), trunc=math.trunc, perm=math.perm)
    return m


def _norm_result(x):
    return x


def build():
    """shim modules by dotted name"""
    import pandas
    import scipy.optimize
    import scipy.special
    import scipy.stats
    mods = {}
    special = Mod('scipy.special', dict(
        gamma=gamma, gammaln=gammaln, loggamma=gammaln, comb=special_comb, beta=beta_fn,
        betaln=lambda a, b: vec(f_log, beta_fn(a, b)), betainc=betainc, btdtr=betainc,
        factorial=lambda n, exact=False: gamma(n + 1) if not exact else math.factorial(n),
        binom=special_comb, expit=lambda x: vec(lambda a: 1 / (1 + f_exp(-wrap(a))), x),
        logit=lambda x: vec(lambda a: f_log(a) - f_log(1 - wrap(a)), x),
        ndtr=lambda x: DISTS['norm'].cdf(x), ndtri=lambda x: DISTS['norm'].ppf(x),
        xlogy=lambda x, y: vec(lambda a, b: wrap(0.0) if term(a) is tm.ZERO else wrap(a) * f_log(b), x, y),
        xlog1py=lambda x, y: vec(lambda a, b: wrap(0.0) if term(a) is tm.ZERO else wrap(a) * f_log(1 + wrap(b)), x, y),
        log1p=lambda x: vec(lambda a: f_log(1 + wrap(a)), x), expm1=lambda x: vec(lambda a: f_exp(a) - 1, x),
        poch=lambda z, m: vec(lambda a, b: Sym(tm.div(gamma_t(tm.add(term(a), term(b))), gamma_t(term(a)))), z, m),
        logsumexp=logsumexp), scipy.special)
    SPECIAL_UFUNCS.update(gamma=gamma, gammaln=gammaln)
    stats_d = dict(DISTS)
    stats_d.update(multivariate_normal=MVN(), rankdata=rankdata, poisson=Poisson('poisson'),
                   rv_continuous=rv_continuous, rv_discrete=rv_discrete,
                   kendalltau=_corr_fn('kendalltau'), spearmanr=_corr_fn('spearmanr'), pearsonr=_corr_fn('pearsonr'))
    distributions = Mod('scipy.stats.distributions', dict(DISTS, rv_frozen=rv_frozen, rv_continuous=rv_continuous),
                        scipy.stats.distributions)
    dinfra = Mod('scipy.stats._distn_infrastructure', dict(rv_frozen=rv_frozen, rv_continuous=rv_continuous,
                                                           rv_continuous_frozen=rv_frozen))
    stats = Mod('scipy.stats', dict(stats_d, distributions=distributions, _distn_infrastructure=dinfra), scipy.stats)
    optimize = Mod('scipy.optimize', dict(
        minimize=hooked('minimize'), brentq=hooked('brentq'), minimize_scalar=hooked('minimize_scalar'),
        root_scalar=hooked('root_scalar')), scipy.optimize, ('OptimizeResult',))
    integrate = Mod('scipy.integrate', dict(quad=hooked('quad')), lazy_real('scipy.integrate'))
    interpolate = Mod('scipy.interpolate', dict(interp1d=Interp1d), lazy_real('scipy.interpolate'))
    linalg = Mod('scipy.linalg', dict(LINALG), lazy_real('scipy.linalg'), ('LinAlgError',))
    scipy_m = Mod('scipy', dict(special=special, stats=stats, optimize=optimize, integrate=integrate,
                                interpolate=interpolate, linalg=linalg))
    mods.update({'scipy': scipy_m})
    ct = Mod('statsmodels.stats.correlation_tools', dict(cov_nearest=cov_nearest, corr_nearest=hooked('corr_nearest')))
    mods['statsmodels'] = Mod('statsmodels', dict(stats=Mod('statsmodels.stats', dict(correlation_tools=ct))))
    mods['sklearn'] = Mod('sklearn', dict(cluster=Mod('sklearn.cluster', dict(KMeans=hooked('KMeans')))))
    mods['math'] = _sym_math()
    mods['pandas'] = PandasProxy()
    return mods


def logsumexp(a, axis=None, b=None, **k):
    a = sarr(a)
    e = array_ufunc(np.exp, '__call__', (a,), {})
    if b is not None:
        e = e * b
    s = a_sum(e, axis=axis)
    return vec(f_log, s)


class PandasProxy(types.ModuleType):
    def __init__(self):
        import pandas
        super().__init__('pandas')
        self.DataFrame = _Class(pandas.DataFrame)
        self.Series = _Class(pandas.Series)

    def __getattr__(self, n):
        import pandas
        return getattr(pandas, n)


class _ClassMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, data=None, *a, **k):
        def conv(d):
            if isinstance(d, SymArr):
                return plain(d).copy()
            if isinstance(d, dict):
                return {i: conv(v) for i, v in d.items()}
            return d

        sym = any_sym(data)
        if 'dtype' in k and sym:
            k.pop('dtype')
        if sym:
            from . import frames
            return frames.make(cls._real, conv(data), a, k)
        return cls._real(conv(data), *a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _Class(real):
    return _ClassMeta(real.__name__, (), {'_real': real})
