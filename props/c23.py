"""C23 Multivariate t distribution."""
from itertools import combinations

from engine.registry import case

SEED = ('seed', 7)


def mod(s):
    return s.mod('copulae.stats').multivariate_t


def cov(s, d, free=None, variances=True):
    """a covariance matrix whose principal minors are away from zero"""
    m = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(i + 1):
            if i == j:
                m[i][j] = s.real(f'c{i}{i}', .2, 4) if variances else 1 + i / 4
            else:
                m[i][j] = m[j][i] = s.real(f'c{i}{j}', -2, 2) if free is None or (j, i) in free else .25
    for k in range(2, d + 1):
        for ix in combinations(range(d), k):
            s.assume(det([[m[i][j] for j in ix] for i in ix]) > .05)
    return m


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = 0
    for j in range(len(m)):
        r = r + (-1) ** j * m[0][j] * det([x[:j] + x[j + 1:] for x in m[1:]])
    return r


def form(m, y):
    """y' m^-1 y by Cramer's rule"""
    d = len(m)
    t = 0
    for i in range(d):
        t = t + y[i] * det([r[:i] + [y[k]] + r[i + 1:] for k, r in enumerate(m)])
    return t / det(m)


def density(s, x, mu, m, df):
    """log of Gamma((df + d) / 2) / Gamma(df / 2) (df pi)^(-d/2) |m|^(-1/2) (1 + form / df)^(-(df + d) / 2)"""
    lg, log, d = s.mod('scipy.special').gammaln, s.np.log, len(m)
    q = form(m, [a - b for a, b in zip(x, mu)])
    return (lg((df + d) / 2) - lg(df / 2) - d / 2 * log(df * s.np.pi) - log(det(m)) / 2
            - (df + d) / 2 * log(1 + q / df))


def normal(s, x, mu, m):
    d = len(m)
    return -d / 2 * s.np.log(2 * s.np.pi) - s.np.log(det(m)) / 2 - form(m, [a - b for a, b in zip(x, mu)]) / 2


def freedom(s):
    df = s.real('df', 0)
    s.floats((.1 < df) & (df < 200))
    s.assume(df <= 10000)
    return df


def points(s, n, d):
    return [s.reals(f'x{i}', d, -5, 5) for i in range(n)]


@case('C23', over={'1,1': dict(d=1, n=1), '1,3': dict(d=1, n=3), '2,1': dict(d=2, n=1), '2,2': dict(d=2, n=2),
                   '3,1': dict(d=3, n=1), '+3,2': dict(d=3, n=2)}, rtol=1e-6, prove_ms=15000, timeout=120)
def textbook(s, d, n):
    """up to three points in up to three dimensions, any mean and positive definite covariance (3 dimensions: one free correlation), any degrees of freedom up to the limit: the textbook density, row by row, and its logarithm"""
    T = mod(s)
    m, mu, df = cov(s, d, {(0, 1)}, d < 3), s.reals('m', d, -3, 3), freedom(s)
    x = points(s, n, d)
    p = T.pdf(s.arr(x), s.arr(mu), s.arr(m), df)
    lp = T.logpdf(s.arr(x), s.arr(mu), s.arr(m), df)
    s.true(s.np.size(p) == n, 'one value per row')
    p, lp = s.np.reshape(p, (n,)), s.np.reshape(lp, (n,))
    for i in range(n):
        w = density(s, x[i], mu, m, df)
        if d < 3:
            s.eq(p[i], s.np.exp(w), 'density')
        else:
            s.eq(s.np.log(p[i]), w, 'density', atol=1e-7)
        s.eq(lp[i], w, 'log density', atol=1e-7)
        if n > 1:
            one = s.np.reshape(T.pdf(s.arr(x[i]), s.arr(mu), s.arr(m), df), ())
            s.eq(p[i], one if d > 1 else s.np.reshape(T.pdf(s.arr([x[i]]), s.arr(mu), s.arr(m), df), ()), 'a row by itself')


@case('C23', over={str(d): dict(d=d) for d in (1, 2, 3)})
def many_degrees(s, d):
    """two points in up to three dimensions, any degrees of freedom above 10000: the normal density; between 200 and 10000 still the t density"""
    T = mod(s)
    m, mu = cov(s, d, {(0, 1)}, d < 3), s.reals('m', d, -3, 3)
    x = points(s, 2, d)
    df = s.real('df', 10000, None, True, True)
    s.floats(df > 10001)
    p = T.pdf(s.arr(x), s.arr(mu), s.arr(m), df)
    lp = T.logpdf(s.arr(x), s.arr(mu), s.arr(m), df)
    for i in range(2):
        w = normal(s, x[i], mu, m)
        s.eq(p[i], s.np.exp(w), 'normal density')
        s.eq(lp[i], w, 'log of the normal density')
    if d == 1:
        t = s.real('t', 200, 10000)
        z = T.logpdf(s.arr([x[0]]), s.arr(mu), s.arr(m), t)
        s.eq(s.np.reshape(z, ()), density(s, x[0], mu, m, t), 'log density', atol=1e-5)


@case('C23', max_paths=300)
def defaults(s):
    """any point and numbers: mean 0, covariance 1, 4.6692 degrees of freedom; numbers stand for one dimension, or for equal means"""
    T = mod(s)
    x, y = s.real('x', -5, 5), s.real('y', -5, 5)
    v, a = s.real('v', .1, 4), s.real('a', -3, 3)
    df = freedom(s)
    one = lambda z: s.np.reshape(z, ())
    s.eq(one(T.pdf(s.scalar(x))), s.np.exp(density(s, [x], [0], [[1.]], 4.6692)), 'only a point')
    s.eq(one(T.logpdf(s.scalar(x))), density(s, [x], [0], [[1.]], 4.6692), 'only a point', atol=1e-7)
    s.eq(one(T.pdf([x])), one(T.pdf(s.scalar(x))), 'a vector of one point')
    s.eq(one(T.pdf([[x]])), one(T.pdf(s.scalar(x))), 'a matrix of one point')
    s.eq(one(T.pdf(s.scalar(x), s.scalar(a), s.scalar(v), df)), s.np.exp(density(s, [x], [a], [[v]], df)), 'numbers')
    s.eq(one(T.pdf(s.scalar(x), [a], [[v]], df)), s.np.exp(density(s, [x], [a], [[v]], df)), 'vector and matrix')
    s.eq(one(T.pdf(s.scalar(x), s.scalar(a), None, df)), s.np.exp(density(s, [x], [a], [[1.]], df)), 'no covariance')
    c = [[1.5, .5], [.5, 1.]]
    s.eq(one(T.pdf([x, y], s.scalar(a), c, df)), s.np.exp(density(s, [x, y], [a, a], c, df)), 'equal means')
    s.eq(one(T.pdf([x, y], None, c, df)), s.np.exp(density(s, [x, y], [0, 0], c, df)), 'no mean')
    p = T.pdf([x, y], s.scalar(a), s.scalar(v), df)
    s.true(s.np.shape(p) == (2,), 'a vector of points in one dimension')
    s.eq(p[1], s.np.exp(density(s, [y], [a], [[v]], df)), 'a vector of points in one dimension')


@case('C23', max_paths=300)
def refused(s):
    """any degrees of freedom up to 0, any covariance with a negative minor or asymmetric, means of other lengths: refused"""
    T = mod(s)
    x = s.reals('x', 2, -5, 5)
    I = [[1., .3], [.3, 1.]]
    df = s.real('df', None, 0, hi_open=False)
    r = s.real('r', -3, 3)
    s.assume(abs(r) > 1.01)
    b = s.real('b', None, 0)
    s.floats(b < -1e-6)
    s.assume(b < -1e-12)
    u = s.real('u', -3, 3)
    s.assume(abs(u - .3) > 1e-3)
    for f in (T.pdf, T.logpdf):
        s.raises(lambda: f(x, [0., 0.], I, df), 'degrees of freedom', ValueError)
        s.raises(lambda: f(x, [0., 0.], [[1., r], [r, 1.]], 5), 'covariance not positive semi-definite', ValueError)
        s.raises(lambda: f(x, [0., 0.], [[b, 0.], [0., 1.]], 5), 'negative variance', ValueError)
        s.raises(lambda: f(s.scalar(x[0]), 0, s.scalar(b), 5), 'negative variance', ValueError)
        s.raises(lambda: f(x, [0., 0.], [[1., u], [.3, 1.]], 5), 'asymmetric covariance', ValueError)
        s.raises(lambda: f(x, [0., 0., 0.], I, 5), 'length of the mean', ValueError)
        s.raises(lambda: f(x, [0.], I, 5), 'length of the mean', ValueError)
        s.raises(lambda: f(x, [[0., 0.]], I, 5), 'a matrix of means', ValueError)
        s.raises(lambda: f(x, [0., 0.], [[1., .3, .1], [.3, 1., .1]], 5), 'covariance not square', ValueError)
    for kind in ('shifted', 'kshirsagar'):
        s.raises(lambda: T.rvs([0., 0.], I, df, 2, kind), 'degrees of freedom', ValueError)
    s.raises(lambda: T.rvs([0., 0.], I, None, 2), 'no degrees of freedom', ValueError)
    s.raises(lambda: T.rvs([0., 0.], I, 5, 2, 'other'), 'unknown type', ValueError)
    s.raises(lambda: T.rvs([0., 0.], I, 5, 2.5), 'size', ValueError)


SIZES = {'1': 1, '3': 3, '(2,)': (2,), '(2,2)': (2, 2)}


@case('C23', over={f'{d},{kind},{n}': dict(d=d, kind=kind, size=z) for d in (1, 2, 3) for kind in ('shifted', 'Kshirsagar') for n, z in SIZES.items()},
      max_paths=60)
def samples(s, d, kind, size):
    """one to four draws in up to three dimensions, any mean, covariance and degrees of freedom, seeded or not: normal vectors divided by the root of the independent chi-square draw over its degrees of freedom, the mean added before (Kshirsagar) or after (shifted)"""
    s.rng()
    T = mod(s)
    m, mu, df = cov(s, d, {(0, 1)}), s.reals('m', d, -3, 3), freedom(s)
    s.floats(1 < df)
    n = 1
    for k in size if isinstance(size, tuple) else (size,):
        n *= k
    for seed, given in ((None, True), (7, True), (None, False), (7, False)):
        if not given and d == 1 and size == 3:
            c_arg, cm = s.scalar(m[0][0]), m
        else:
            c_arg, cm = s.arr(m), m
        before = len(s.draws())
        x = T.rvs(s.arr(mu) if given else None, c_arg, df, size, kind, seed)
        used = s.draws()[before:]
        s.true(len(used) == len(set(used)), 'no draw is used twice')
        if size == 1:
            s.true(s.np.size(x) == d, 'shape')
        else:
            s.true(s.np.shape(x) == (size if isinstance(size, tuple) else (size,)) + (d,), 'shape')
        x = s.np.reshape(x, (n, d))
        # only a seeded call is bound to a stream of its own
        stream, k = used[0] if seed is None else (SEED, 0)
        z = mu if given else [0.] * d
        for i in range(n):
            w = s.np.sqrt(s.chi2(k + i, df, stream) / df)
            for j in range(d):
                if kind == 'shifted':
                    e = s.gauss(j, k + n + i * d + j, [0.] * d, cm, stream) / w + z[j]
                else:
                    e = s.gauss(j, k + n + i * d + j, z, cm, stream) / w
                s.eq(x[i, j], e, 'value')


@case('C23', over={str(d): dict(d=d) for d in (1, 2)})
def normal_samples(s, d):
    """more than 10000 degrees of freedom: normal vectors with the given mean and covariance"""
    s.rng()
    T = mod(s)
    m, mu = cov(s, d, {(0, 1)}), s.reals('m', d, -3, 3)
    df = s.real('df', 10000, None, True, True)
    s.floats(df > 10001)
    for n in (1, 3):
        x = s.np.reshape(T.rvs(s.arr(mu), s.arr(m), df, n, 'shifted', 7), (n, d))
        for i in range(n):
            for j in range(d):
                s.eq(x[i, j], s.gauss(j, i * d + j, mu, m, SEED), 'normal draw')
