"""C24 Gumbel polynomials and Sibuya sums."""
import math
from fractions import Fraction

from engine.registry import case

COEF = ('sort', 'horner', 'direct', 'log', 'ds.direct', 'diff')
POLY = ('default', 'pois', 'direct', 'log', 'sort')


def gm(s):
    return s.mod('copulae.archimedean.gumbel')


def sib(s):
    return s.mod('copulae.archimedean.auxiliary').dsum_sibuya


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def coefficients(al, d):
    """coefficients of the polynomial P_d with (-1)^d psi^(d)(t) = psi(t) t^-d P_d(t^alpha), psi(t) = exp(-t^alpha): differentiating
    once more gives a[d+1, k] = alpha a[d, k-1] + (d - alpha k) a[d, k]"""
    a = [al]
    for m in range(1, d):
        a = [(al * a[k - 1] if k else 0) + ((m - al * (k + 1)) * a[k] if k < m else 0) for k in range(m + 1)]
    return a


def sibuya(al, n, top):
    """probabilities 0 .. top of the sum of n Sibuya variables, by convolution"""
    one = [0]
    v = al
    for x in range(1, top + 1):
        one.append(v)
        v = v * (x - al) / (x + 1)
    p = [1] + [0] * top
    for _ in range(n):
        p = [total(p[i] * one[x - i] for i in range(x)) if x else 0 for x in range(top + 1)]
    return p


def cells(d):
    """the integers among alpha, 2 alpha, ..., d alpha change at these points (the ones that are no doubles are left out)"""
    pts = sorted({Fraction(m, j) for j in range(1, d + 1) for m in range(1, j + 1)})
    out = []
    lo = Fraction(0)
    for p in pts:
        out += [(lo, p), (p, p)]
        lo = p
    return out


def alpha(s, d):
    """alpha in one cell"""
    cs = [(lo, hi) for lo, hi in cells(d) if lo < hi or Fraction(float(lo)) == lo]
    k = s.pick('cell', range(len(cs)))
    lo, hi = cs[k]
    if lo == hi:
        return float(lo)
    al = s.real(f'alpha{k}', float(lo), float(hi), True, True)
    w = float(hi - lo) / 8
    s.floats((al > float(lo) + w) & (al < float(hi) - w))
    return al


@case('C24', over={('+' if d > 4 or (d, m) in ((4, 'sort'), (4, 'pois')) else '') + f'{d}.{m}': dict(d=d, method=m) for d in (1, 2, 3, 4, 5, 6) for m in COEF})
def coefficient_vector(s, d, method):
    """d up to 4 (6 thorough), every alpha in (0, 1]: each method gives the coefficients of the generator derivatives, and their logarithms"""
    m = gm(s)
    al = alpha(s, d)
    want = coefficients(al, d)
    got = m.gumbel_coef(d, al, method)
    s.eq(len(got), d, 'length')
    for a, b in zip(got, want):
        s.eq(a, b, 'coefficient')
    got = m.gumbel_coef(d, al, method.upper(), log=True)
    s.eq(len(got), d, 'length')
    for a, b in zip(got, want):
        s.eq(s.np.exp(a), b, 'logarithm of the coefficient')


@case('C24', over={('+' if d > 4 or (d, m) in ((4, 'sort'), (4, 'pois')) else '') + f'{d}.{m}': dict(d=d, method=m) for d in (1, 2, 3, 4, 5) for m in POLY})
def polynomial(s, d, method):
    """d up to 4 (5 thorough), every alpha in (0, 1], every x: each method gives the polynomial of the generator derivatives and its logarithm, point by point"""
    m = gm(s)
    al = alpha(s, d)
    x = [s.real(f'x{i}') for i in range(2)]
    for v in x:
        s.floats((-2 < v) & (v < 2))
    a = coefficients(al, d)
    want = [total(c * s.np.exp((k + 1) * v) for k, c in enumerate(a)) for v in x]
    kw = {} if method == 'default' else dict(method=method)
    for log in (False, True):
        got = m.gumbel_poly(s.arr(x), al, d, log=log, **kw)
        s.eq(len(got), 2, 'one value per point')
        for g, w in zip(got, want):
            s.eq(s.np.exp(g) if log else g, w, 'logarithm' if log else 'value')


@case('C24', over={('+' if d > 5 else '') + str(d): dict(d=d) for d in (2, 3, 4, 5, 6)})
def coefficients_are_probabilities(s, d):
    """d up to 5 (6 thorough), every alpha in (0, 1]: the coefficients are non-negative and are d!/k! times the Sibuya sum probabilities"""
    m, f = gm(s), sib(s)
    al = alpha(s, d)
    a = m.gumbel_coef(d, al)
    p = f(d, s.np.arange(1, d + 1), al, 'direct')
    for k in range(1, d + 1):
        s.le(0, a[k - 1], 'non-negative')
        s.eq(a[k - 1], p[k - 1] * math.factorial(d) / math.factorial(k), 'Sibuya probabilities')


@case('C24', over={f'{m}.{n}': dict(method=m, n=n) for m in ('log', 'direct', 'diff') for n in (1, 2, 3)})
def sibuya_sum(s, method, n):
    """up to 3 summands, values up to 4, every alpha in (0, 1]: the probabilities of a sum of independent Sibuya variables, zero below the number of summands"""
    f = sib(s)
    al = alpha(s, n)
    want = sibuya(al, n, 4)
    for x in range(n, 5):
        s.eq(f(x, n, al, method)[0], want[x], 'probability')
        s.eq(s.np.exp(f(x, n, al, method, True)[0]), want[x], 'logarithm')
    for x in range(1, n):
        s.eq(f(x, n, al, method)[0], 0, 'below the number of summands')


@case('C24', over={m: dict(method=m) for m in ('log', 'direct', 'diff')})
def sibuya_vectors(s, method):
    """values up to 5 and summands up to 5 in vectors, every alpha in (0, 1): every element is answered as if it were alone"""
    f = sib(s)
    al = s.real('alpha', .55, .59, True, True)
    for xs, ns in (([1, 2, 3], [2]), ([3], [1, 2, 3]), ([1, 5], [1, 5]), ([4, 2, 5], [2, 2, 1]), ([2, 4], [3, 4])):
        k = max(len(xs), len(ns))
        pairs = [(xs[i % len(xs)], ns[i % len(ns)]) for i in range(k)]
        for log in (False, True):
            for wrap in (list, s.np.array):
                got = f(wrap(xs) if len(xs) > 1 else xs[0], wrap(ns) if len(ns) > 1 else ns[0], al, method, log)
                s.eq(len(got), k, 'length')
                for g, (x, n) in zip(got, pairs):
                    w = sibuya(al, n, x)[x]
                    if log and method == 'diff' and x < n:
                        continue  # the logarithm of a difference that is zero but for rounding
                    s.eq(s.np.exp(g) if log else g, w, 'element')


@case('C24')
def domain(s):
    """every alpha outside (0, 1], dimension below 1 or not whole, negative summands, unknown methods: refused"""
    m, f = gm(s), sib(s)
    al = s.real('alpha', -3, 4)
    if s.decide((al <= 0) | (al > 1)):
        s.raises(lambda: m.gumbel_coef(2, al), 'alpha')
        s.raises(lambda: m.gumbel_poly(s.arr([.2, .3]), al, 2), 'alpha')
        s.raises(lambda: f([2, 3], 1, al), 'alpha')
    else:
        for d in (0, -1, 2.5):
            s.raises(lambda: m.gumbel_coef(d, .5), 'dimension')
            s.raises(lambda: m.gumbel_poly(s.arr([.2, .3]), .5, d), 'dimension')
        s.raises(lambda: m.gumbel_coef(2, .5, 'pois'), 'method')
        s.raises(lambda: m.gumbel_poly(s.arr([.2, .3]), .5, 2, 'horner'), 'method')
        s.raises(lambda: f([2, 3], 1, .5, 'sort'), 'method')
        s.raises(lambda: f([2, 3], -1, .5), 'summands')


@case('C24', over={str(d): dict(d=d) for d in (2, 3, 4, 31, 45, 60, 80, 100, 130, 200, 250)}, pure=True)
def default_method(s, d):
    """dimensions over all ranges of the table, every alpha in (0, 1] and every x: the method chosen by default is one that exists"""
    m = gm(s)
    al = s.real('alpha', 0, 1, True)
    x = s.real('x', -10, 10)
    s.true(m._get_poly_method(x, al, d) in ('pois', 'direct', 'log', 'sort'), 'known method')
