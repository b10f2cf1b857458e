"""C17 Queries change neither their arguments nor any copula."""
from engine.registry import case

from . import fam
from .c13 import cov, diag, means, param, weights
from .c15 import DIST
from .c16 import DATA, NAMES, build, methods, point
from .ranks import *


def flat(s, v):
    """numbers of an answer (a number, an array, a frame, or a tuple of them)"""
    if isinstance(v, tuple):
        return [x for w in v for x in flat(s, w)]
    if isinstance(v, (str, bool)) or v is None:
        return [v]
    return list(s.arr(v).ravel())


def params(s, kind, c):
    """what a copula's parameters are now"""
    if kind == 'indep':
        return []
    if kind in ('beta', 'empirical', 'checkerboard'):
        return flat(s, c.data)
    p = c.params
    if kind == 'gmc':
        return flat(s, p.prob) + flat(s, p.means) + flat(s, p.covs)
    if kind == 'marginal':
        return flat(s, s.arr(p['copula'])) + [v for m in p['marginals'] for k, v in sorted(m['parameters'].items())]
    if kind == 'student':
        return [p.df] + flat(s, p.rho)
    return flat(s, s.arr(p))


def same(s, a, b, label):
    s.true(len(a) == len(b), f'{label}: as many numbers')
    for x, y in zip(a, b):
        if isinstance(x, (str, bool)) or x is None:
            s.true(x is y or x == y, label)
        else:
            s.same(x, y, label)


def pure(s, f, args, label, state=None):
    """two calls of f: same answers; arguments and state as before; the first answer keeps its value"""
    args = tuple(args)
    keep = [flat(s, a) if not isinstance(a, (str, bool, int, float)) else None for a in args]
    st = state() if state else None

    def check(when):
        for i, (a, k) in enumerate(zip(args, keep)):
            if k is not None:
                same(s, flat(s, a), k, f'{label}: argument {i} {when}')
        if state:
            same(s, state(), st, f'{label}: the copula {when}')

    r = f(*args)
    k = flat(s, r)
    check('after a query')
    r2 = f(*args)
    same(s, flat(s, r2), k, f'{label}: the same answer again')
    same(s, flat(s, r), k, f'{label}: the first answer stays')
    check('after two queries')
    return r


ALL = ['clayton', 'frank', 'gumbel', 'frank-', 'clayton-', 'indep', 'gauss', 'student', 'gmc', 'marginal', 'beta', 'empirical', 'checkerboard']
ONE = ('beta', 'empirical', 'checkerboard', 'frank', 'frank-')


@case('C17', over={k: dict(kind=k) for k in ALL} | {f'+{k}3': dict(kind=k, d=3) for k in ('clayton', 'gumbel', 'gauss', 'indep')}, max_paths=60)
def evaluate(s, kind, d=2):
    """any parameter; any two points of the open unit cube (empirical and Frank: one), and a row outside: densities and distribution functions, plain and logarithmic, of arrays, single points, lists and frames"""
    c = build(s, kind, d)
    n = 1 if kind in ONE else 2
    x = [point(s, kind, d, f'p{i}') for i in range(n)]
    st = lambda: params(s, kind, c)
    for name in methods(kind):
        f = getattr(c, name)
        a = s.arr(x)
        pure(s, f, [a], f'{name} of an array', st)
        pure(s, lambda v: f(v, log=True), [a], f'{name} of an array, logarithm', st)
        same(s, flat(s, a), flat(s, s.arr(x)), f'{name}: after all queries')
        b = s.arr(x[0])
        pure(s, f, [b], f'{name} of a point', st)
        pure(s, lambda v: f(v, log=True), [b], f'{name} of a point, logarithm', st)
        fr = s.frame(x, NAMES[:d])
        pure(s, f, [fr], f'{name} of a frame', st)
        s.true(list(fr.columns) == NAMES[:d] and len(fr) == n, f'{name} of a frame: columns and rows')
        l = [list(r) for r in x]
        pure(s, f, [l], f'{name} of a list', st)
        s.true(isinstance(l, list) and all(isinstance(r, list) for r in l), 'still a list')


@case('C17', over={k: dict(kind=k) for k in ('clayton', 'frank', 'gumbel', 'indep')})
def odd_rows(s, kind):
    """any parameter, any point inside next to rows outside the unit square and with a missing coordinate: densities and distribution functions of the whole matrix"""
    c = build(s, kind, 2)
    x = point(s, kind, 2, 'p')
    rows = [x, [2., .3], [float('nan'), .4], [1., .5], [0., .5]]
    for name in ('pdf', 'cdf'):
        if name == 'cdf' and kind == 'frank':
            rows = rows[:1]
        pure(s, getattr(c, name), [s.arr(rows)], f'{name} of odd rows', lambda: params(s, kind, c))


GEN = {'clayton': ('psi', 'ipsi', 'dipsi', 'itau', 'irho'), 'gumbel': ('psi', 'ipsi', 'dipsi', 'A', 'dAdu', 'itau', 'irho'),
       'frank': ('psi', 'ipsi', 'dipsi'), 'frank-': ('psi', 'ipsi', 'dipsi'), 'clayton-': ('psi', 'ipsi', 'dipsi', 'itau')}


@case('C17', over={k: dict(kind=k, ms=m) for k, m in GEN.items()}, max_paths=120)
def generators(s, kind, ms):
    """any parameter, any two arguments in the open unit interval, as vector and as matrix: generator functions, plain, logarithmic and by order of the derivative"""
    c = build(s, kind)
    st = lambda: params(s, kind, c)
    one = kind[:5] == 'frank'
    v = [s.real(f'u{i}', 0, 1) for i in range(1 if one else 2)]
    for w in v:
        s.floats((.05 < w) & (w < .95))
    if one:
        v.append(v[0])
    for m in ms:
        f = getattr(c, m)
        for shape, a in (('vector', s.arr(v)), ('matrix', s.arr([v]))):
            if m == 'dAdu' and shape == 'matrix' or m == 'irho' and s.attempt(lambda: f(s.arr(v)))[1] is not None:
                continue
            pure(s, f, [a], f'{m} of a {shape}', st)
            if m == 'ipsi':
                pure(s, lambda w: f(w, log=True), [a], f'{m} of a {shape}, logarithm', st)
            elif m == 'dipsi':
                pure(s, lambda w: f(w, degree=2), [a], f'{m} of a {shape}, second', st)
                pure(s, lambda w: f(w, 1, True), [a], f'{m} of a {shape}, logarithm', st)
                pure(s, lambda w: f(w, 2, True), [a], f'{m} of a {shape}, second, logarithm', st)


@case('C17', over={k: dict(kind=k) for k in ('clayton', 'gumbel', 'clayton-', 'gauss', 'student', 'indep', 'frank')})
def measures(s, kind):
    """any parameter: rank correlations, tail dependence, derivatives with and without argument, views of the correlation matrix, summaries; the arrays handed out are the caller's"""
    c = build(s, kind)
    st = lambda: params(s, kind, c)
    names = ['tau', 'rho', 'lambda_', 'params'] + (['sigma'] if kind in ('gauss', 'student') else [])
    if kind == 'frank':
        names = ['lambda_', 'params']
    for n in names:
        v, e = s.attempt(lambda: getattr(c, n))
        if e is not None or v is NotImplemented:
            continue

        def get():
            v = getattr(c, n)
            if n == 'lambda_':
                return tuple(v)
            if n == 'params':
                return tuple(params(s, kind, c))
            return v
        pure(s, get, [], n, st)
    v = s.reals('t', 2, -1, 1)
    for w in v:
        s.floats((.05 < w) & (w < .95))
    for n in ('dtau', 'drho', 'itau', 'irho'):
        if not hasattr(c, n):
            continue
        f = getattr(c, n)
        if kind in ('gauss', 'student'):
            if kind == 'student' and n == 'irho':
                continue
            for a in (s.arr(v), s.arr([v])):
                pure(s, f, [a], n, st)
            if n[0] == 'd':
                pure(s, f, [], f'{n} at the parameter', st)
        elif kind == 'clayton' and n in ('dtau',):
            a = s.arr([2., 3.])
            pure(s, f, [a], n, st)
            pure(s, f, [], f'{n} at the parameter', st)
    if kind in ('gauss', 'student'):
        for n, g in (('whole', lambda: c[:]), ('element', lambda: c[0, 1]), ('vector', lambda: c[0]), ('row', lambda: c[0, :]), ('block', lambda: c[:, :])):
            pure(s, g, [], f'reading the {n}', st)
        m = c[:]
        m[0, 1] = 5.
        same(s, flat(s, c[:]), [1., flat(s, c[0])[0], flat(s, c[0])[0], 1.], 'a matrix read from the copula is a copy')
        m = c.sigma
        m[1, 0] = 5.
        same(s, flat(s, c[:]), [1., flat(s, c[0])[0], flat(s, c[0])[0], 1.], 'sigma read from the copula is a copy')


@case('C17', over={k: dict(kind=k) for k in ('gauss', 'student')}, max_paths=120)
def shared_parameters(s, kind):
    """any correlations in dimension 3: copulas made from one array or from one another's parameters do not follow each other, nor later changes of the array; answers handed out earlier keep their values"""
    r = s.reals('r', 3, -1, 1)
    for x in r:
        s.assume((-.45 < x) & (x < .45))
    w = s.real('w', -.45, .45)

    def new():
        return s.cp.GaussianCopula(3) if kind == 'gauss' else s.cp.StudentCopula(3, 4)

    def vec(c):
        return flat(s, c.params if kind == 'gauss' else c.params.rho)

    a = s.arr(r if kind == 'gauss' else [4.] + r)
    keep = flat(s, a)
    c1, c2 = new(), new()
    c1.params = a
    c2.params = a
    same(s, flat(s, a), keep, 'assigning leaves the array alone')
    c1[0, 1] = w
    same(s, flat(s, a), keep, 'changing a copula leaves the array alone')
    same(s, vec(c2), r, 'changing a copula leaves the other alone')
    same(s, vec(c1), [w] + r[1:], 'the change itself')
    a[-1] = .4
    same(s, vec(c2), r, 'changing the array leaves the copula alone')
    c3 = new()
    c3.params = c2.params
    p = c2.params
    handed = p if kind == 'gauss' else p.rho
    for label, act in [('element', lambda: c3.__setitem__((0, 2), w)), ('vector', lambda: c3.__setitem__(1, w)),
                       ('row', lambda: c3.__setitem__((0, slice(None)), s.arr([1., w, w]))),
                       ('matrix', lambda: c3.__setitem__(slice(None), s.arr([[1., w, 0.], [w, 1., 0.], [0., 0., 1.]]))),
                       ('parameters', lambda: setattr(c3, 'params', s.arr([0., 0., w] if kind == 'gauss' else [3., 0., 0., w])))]:
        act()
        same(s, vec(c2), r, f'changing the copula made from its parameters, {label}')
        same(s, flat(s, handed), r, f'parameters handed out before, {label}')
    sg = c2.sigma
    k = flat(s, sg)
    c2[0, 1] = w
    same(s, flat(s, handed), r, 'parameters handed out before a change of the same copula')
    same(s, flat(s, sg), k, 'matrix handed out before a change of the same copula')


@case('C17', max_paths=120)
def assigned_matrix(s):
    """any correlations in dimension 3: the matrix, row or vector assigned to a copula is left alone, and later changes of it are not followed"""
    r = s.reals('r', 3, -1, 1)
    for x in r:
        s.assume((-.45 < x) & (x < .45))
    c = s.cp.GaussianCopula(3)
    m = s.arr([[1., r[0], r[1]], [r[0], 1., r[2]], [r[1], r[2], 1.]])
    keep = flat(s, m)
    c[:] = m
    same(s, flat(s, m), keep, 'the matrix assigned')
    m[0, 1] = m[1, 0] = .1
    same(s, flat(s, c.params), r, 'changing the matrix later')
    v = s.arr([1., r[2], r[0]])
    c[0, :] = v
    same(s, flat(s, v), [1., r[2], r[0]], 'the row assigned')
    v[1] = .1
    same(s, flat(s, c.params), [r[2], r[0], r[2]], 'changing the row later')


@case('C17', over={'object': dict(form='object'), 'dict': dict(form='dict'), 'vector': dict(form='vector')})
def mixture(s, form):
    """2 clusters in 2 dimensions, any weights, means and covariances: parameters given are copied, reading them back, converting them and evaluating changes nothing"""
    p, mu = weights(s, 2), means(s, 2, 2)
    cv = [cov(s, 2, 'c0'), diag(2, s.reals('w', 2, 0.01))]
    P = s.mod('copulae.mixtures.gmc.parameter').GMCParam
    G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
    ap, am, ac = s.arr(p), s.arr(mu), s.arr(cv)
    if form == 'vector':
        v = param(s, 2, 2, p, mu, cv).to_vector()
        keep = flat(s, v)
        c = G(2, 2, v)
        same(s, flat(s, v), keep, 'the vector given')
        v[2] = 9.
        v[-1] = 9.
        v[0] = 9.
    else:
        g = P(2, 2, ap, am, ac) if form == 'object' else dict(prob=ap, means=am, covs=ac)
        c = G(2, 2, g)
        same(s, flat(s, ap) + flat(s, am) + flat(s, ac), flat(s, s.arr(p)) + flat(s, s.arr(mu)) + flat(s, s.arr(cv)), 'the arrays given')
        ap[0] = 0.
        am[0, 1] = 9.
        ac[1, 0, 0] = 9.
    want = flat(s, s.arr(p)) + flat(s, s.arr(mu)) + flat(s, s.arr(cv))
    st = lambda: params(s, 'gmc', c)
    same(s, st(), want, 'changing the arrays later')
    pure(s, lambda: c.params.to_vector(), [], 'conversion to a vector', st)
    pure(s, lambda: tuple(x for k in c.params for x in k), [], 'iteration', st)


@case('C17', max_paths=200)
def elementary(s):
    """any arguments, vectors of two: binomials, permutations, log sums, log1mexp, log1pexp, sign, trigonometric helpers, polynomials and the polylogarithm"""
    m = s.mod('copulae.special.special_func')
    cb = s.mod('copulae.special.combinatorics')
    tr = s.mod('copulae.special.trig')
    x = s.reals('x', 2, 0, 1)
    for v in x:
        s.floats((.05 < v) & (v < .9))
    a = s.arr(x)
    n = s.arr([3., 4.])
    for label, f, args in [
        ('comb', cb.comb, [n, a]), ('log comb', lambda p, q: cb.comb(p, q, True), [n, a]), ('perm', cb.perm, [n, a]),
        ('log perm', lambda p, q: cb.perm(p, q, True), [n, a]),
        ('log_sum', m.log_sum, [a]), ('log_sum of a matrix', m.log_sum, [s.arr([x, x[::-1]])]), ('log_sum with offset', m.log_sum, [s.arr([x, x[::-1]]), s.arr(x)]),
        ('log_sum of three rows', m.log_sum, [s.arr([x, x[::-1], [.25, x[0]]])]), ('log_sum of four numbers', m.log_sum, [s.arr(x + [.75, .5])]),
        ('log1mexp', m.log1mexp, [a]), ('log1pexp', m.log1pexp, [a]),
        ('polyn_eval', m.polyn_eval, [s.arr([x[0], 2., x[1]]), a]), ('polyn_eval of a list', m.polyn_eval, [[x[0], 2., x[1]], a]),
        ('poly_log', lambda z: m.poly_log(z, -2), [a]), ('poly_log of order 1', lambda z: m.poly_log(z, 1), [a]),
        ('poly_log eulerian', lambda z: m.poly_log(z, -2, 'neg-eulerian'), [a]), ('poly_log logarithm', lambda z: m.poly_log(z, -2, log=True), [a]),
    ] + [(t, getattr(tr, t), [a]) for t in ('cospi', 'cospi2', 'sinpi', 'sinpi2', 'tanpi', 'tanpi2')]:
        pure(s, f, args, label)
    j, d = s.arr([1, 2]), s.arr([3, 3])
    pure(s, lambda p, q: m.sign_ff(.5, p, q), [s.np.array([1, 2, 0]), s.np.array([3, 3, 3])], 'sign_ff')


SPEC = {'clausen': (-8, 8), 'debye_1': (-2, 2), 'debye_2': (-2, 2), 'dilog': (1, 1.009)}


@case('C17', over={k: dict(name=k) for k in SPEC}, max_paths=400)
def special(s, name):
    """any argument between -8 and 8 (Debye: -2 and 2; dilogarithm: 1 and 1.009, where its expansion has a fixed length), as vector and matrix with given neighbours, serial and threaded: Clausen, Debye and dilogarithm"""
    lo, hi = SPEC[name]
    x = s.real('x', lo, hi)
    f = getattr(s.mod('copulae.special.' + {'c': 'clausen', 'd': 'debye' if 'debye' in name else 'dilog'}[name[0]]), name)
    for threaded in (False, True):
        for label, a in (('vector', s.arr([x, .5, -.25])), ('matrix', s.arr([[x, .5], [.25, 7.]]))):
            pure(s, lambda v: f(v, threaded), [a], f'{name} of a {label}')


@case('C17', over={'pearson': dict(m='pearson'), 'kendall': dict(m='kendall'), 'spearman': dict(m='spearman')}, max_paths=400)
def correlations(s, m):
    """any three rows of two columns with any order, or with a missing cell: correlation matrices, ranks and pseudo-observations"""
    C = s.mod('copulae.stats.correlation')
    x = [[s.real(f'x{i}{j}') for j in range(2)] for i in range(3)]
    for j in range(2):
        for i in range(2):
            s.assume(x[i][j] < x[i + 1][j] if (i + j) % 2 == 0 else x[i + 1][j] < x[i][j])
    nan = float('nan')
    for label, rows in (('full', x), ('with a gap', x + [[nan, 1.], [2., 3.]])):
        for use in ('everything', 'complete', 'pairwise.complete'):
            a, f = s.arr(rows), s.frame(rows, NAMES[:2])
            pure(s, lambda v: C.corr(v, method=m, use=use), [a], f'{m} of data {label}, {use}')
            pure(s, lambda v: s.np.asarray(C.corr(v, method=m, use=use)), [f], f'{m} of a frame {label}, {use}')
            pure(s, lambda v, w: C.corr(v, w, m, use), [a[:, 0], a[:, 1]], f'{m} of vectors {label}, {use}')
    for ties in TIES:
        a = s.arr(x)
        pure(s, lambda v: s.cp.pseudo_obs(v, ties), [a], f'pseudo-observations, {ties}')
        pure(s, lambda v: s.cp.pseudo_obs(v, ties), [a[:, 0]], f'pseudo-observations of a vector, {ties}')
        pure(s, lambda v: s.np.asarray(s.cp.pseudo_obs(v, ties)), [s.frame(x, NAMES[:2])], f'pseudo-observations of a frame, {ties}')


@case('C17', max_paths=300)
def matrices(s):
    """any symmetric matrix of size 2 with positive diagonal, positive definite or not: conversions, tests and repair"""
    L = s.mod('copulae.core.linalg')
    M = s.mod('copulae.core.misc')
    v, w, r = s.real('v', 0), s.real('w', 0), s.real('r', -1, 1)
    for x in (v, w):
        s.floats((.1 < x) & (x < 9))
    m = s.arr([[v, r], [r, w]])
    pure(s, L.cov2corr, [m], 'cov2corr')
    pure(s, lambda a: L.cov2corr(a, True), [m], 'cov2corr with deviations')
    pure(s, L.corr2cov, [s.arr([[1., r], [r, 1.]]), s.arr([v, w])], 'corr2cov')
    pure(s, L.is_symmetric, [m], 'is_symmetric')
    pure(s, L.is_psd, [m], 'is_psd')
    pure(s, M.create_cov_matrix, [s.arr([r])], 'create_cov_matrix')
    s.assume(v * w > r * r + .001)
    pure(s, L.near_psd, [m], 'near_psd of a valid matrix')


@case('C17', max_paths=300)
def joint_t(s):
    """any point, mean and correlation, 2 dimensions, given degrees of freedom: density of the multivariate t distribution; samples leave mean and covariance alone"""
    T = s.mod('copulae.stats._multivariate_t').multivariate_t
    x, mu = s.reals('x', 2, -3, 3), s.reals('m', 2, -3, 3)
    r = s.real('r', -1, 1)
    s.floats((-.9 < r) & (r < .9))
    a, m, c = s.arr([x, [.5, 1.]]), s.arr(mu), s.arr([[1., r], [r, 1.]])
    pure(s, lambda p, q, t: T.pdf(p, q, t, 5), [a, m, c], 'density')
    pure(s, lambda p, q, t: T.logpdf(p, q, t, 5), [a, m, c], 'logarithm of the density')
    pure(s, lambda p, q, t: T.pdf(p, q, t, 5), [a[0], m, c], 'density of a point')
    for size in (1, 3):
        for kind in ('shifted', 'kshirsagar'):
            T.rvs(m, c, 5, size, kind, 3)
            same(s, flat(s, m) + flat(s, c), flat(s, s.arr(mu)) + flat(s, s.arr([[1., r], [r, 1.]])), f'samples, {kind}')


@case('C17')
def tail(s):
    """any tail index, skewness and arguments of either sign: tail approximation of the stable density leaves the arguments alone"""
    f = s.mod('copulae.stats.stable.pdf').pareto
    a, b = s.real('a', 0, 2), s.real('b', -1, 1)
    s.floats((.3 < a) & (a < 1.9))
    s.floats((-.9 < b) & (b < .9))
    x = s.reals('x', 2)
    for v in x:
        s.assume(v != 0)
        s.floats((abs(v) > .1) & (abs(v) < 50))
    for log in (False, True):
        pure(s, lambda v: f(v, a, b, log), [s.arr(x)], 'tail')
        pure(s, lambda v: f(v, a, b, log), [s.arr(x[0])], 'tail of a number')


@case('C17', over={'beta': dict(kind='beta'), 'empirical': dict(kind=None), 'checkerboard': dict(kind='checkerboard')})
def empirical(s, kind):
    """three rows of any numbers in a given order: building and querying an empirical copula leaves the data alone, and changing the data afterwards does not change the copula's answers"""
    t = s.reals('t', 2)
    s.assume(t[0] < t[1])
    rows = [[t[0], 1.], [t[1], 3.], [t[0] - 1, 2.]]
    a = s.arr(rows)
    keep = flat(s, a)
    c = s.cp.EmpiricalCopula(a, kind)
    x = point(s, 'beta', 2, 'p')
    p = s.arr([x])
    r = pure(s, c.cdf, [p], 'distribution function', lambda: flat(s, c.data))
    k = flat(s, r)
    if kind == 'beta':
        pure(s, c.pdf, [p], 'density', lambda: flat(s, c.data))
    u = s.arr([[.25, .5], [.75, .25]])
    pure(s, lambda v, w: c.to_marginals(v, w), [u, a], 'margins', lambda: flat(s, c.data))
    c.random(2, 3)
    same(s, flat(s, a), keep, 'the data')
    f = s.frame(rows, NAMES[:2])
    d = s.cp.EmpiricalCopula(f, kind)
    pure(s, d.cdf, [p], 'distribution function, from a frame')
    same(s, flat(s, f), keep, 'the frame')
    s.true(list(f.columns) == NAMES[:2], 'the columns of the frame')


@case('C17', over={'exch': dict(test='exch'), 'rad': dict(test='rad')})
def tests(s, test):
    """four rows of two columns in a given order, any numbers: tests of exchangeability and radial symmetry leave the data alone and do not depend on earlier runs with the same seed"""
    x = s.reals('x', 4)
    for i in range(3):
        s.assume(x[i] < x[i + 1])
    rows = [[x[2], 1.], [x[0], 4.], [x[3], 3.], [x[1], 2.]]
    a = s.arr(rows)
    keep = flat(s, a)
    g = s.mod('copulae.gof.exchangeability' if test == 'exch' else 'copulae.gof.radial_symmetry')
    if test == 'exch':
        r = g.exch_test(a[:, 0], a[:, 1], N=1)
    else:
        r = g.rad_sym_test(a, N=1)
    same(s, flat(s, a), keep, 'the data')
