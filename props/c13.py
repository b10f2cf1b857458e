"""C13 Gaussian mixture parameters and the steps of the EM algorithm."""
from engine.registry import case

from .c06 import det, minors
from .ranks import *


def weights(s, m, name='p'):
    """any weights in the open unit interval"""
    p = s.reals(name, m - 1, 0, 1)
    last = 1 - sum(p, 0)
    s.assume(last > 0)
    s.floats(last > .01)
    for q in p:
        s.floats(q > .01)
    return p + [last]


def cov(s, d, name, free=None, ratio=.95):
    """any covariance matrix (free: that many free correlations, any standard deviations)"""
    v = s.reals(name + 'v', d, 0)
    for x in v:
        s.floats((.05 < x) & (x < 20))
    k = d * (d - 1) // 2
    f = k if free is None else free
    r = s.reals(name + 'r', f, -1, 1) + [.3, -.2, .1][:k - f]
    m = [[1] * d for _ in range(d)]
    i = 0
    for a in range(d):
        for b in range(a + 1, d):
            m[a][b] = m[b][a] = r[i]
            i += 1
    for x in minors(m):
        s.assume(x > 1 - ratio)
    return [[m[a][b] * v[a] * v[b] for b in range(d)] for a in range(d)]


def diag(d, vs):
    return [[vs[i] if i == j else 0.0 for j in range(d)] for i in range(d)]


def means(s, m, d, name='m'):
    x = sample(s, m, d, name)
    for r in x:
        for v in r:
            s.floats((-4 < v) & (v < 4))
    return x


def param(s, m, d, p, mu, cv):
    return s.mod('copulae.mixtures.gmc.parameter').GMCParam(m, d, s.arr(p), s.arr(mu), s.arr(cv))


def cls(s):
    return s.mod('copulae.mixtures.gmc.parameter').GMCParam


SIZES = {'1x2': dict(m=1, d=2), '2x2': dict(m=2, d=2), '3x2': dict(m=3, d=2), '2x3': dict(m=2, d=3), '+3x3': dict(m=3, d=3)}


@case('C13', over=SIZES)
def vector(s, m, d):
    """any interior weights, any means, any covariance matrices (dimension 3: one free correlation each); 1 to 3 clusters"""
    p, mu = weights(s, m), means(s, m, d)
    cv = [cov(s, d, f'c{k}', 1) for k in range(m)]
    g = param(s, m, d, p, mu, cv)
    v = g.to_vector()
    s.eq(len(v), m + m * d + m * d * (d + 1) // 2, 'length of the vector')
    h = cls(s).from_vector(v, m, d)
    s.same(h.prob, s.arr(p), 'weights')
    s.same(h.means, s.arr(mu), 'means')
    s.same(h.covs, s.arr(cv), 'covariances')
    s.same(g.prob, s.arr(p), 'the parameter is left alone: weights')
    s.same(g.means, s.arr(mu), 'the parameter is left alone: means')
    s.same(g.covs, s.arr(cv), 'the parameter is left alone: covariances')
    h = cls(s).from_vector(list(v), m, d)
    s.same(h.means, s.arr(mu), 'lists too')
    s.same(h.prob, s.arr(p), 'lists too')


@case('C13')
def extreme_weights(s):
    """weights of zero and one come back within 0.0001, and stay what they are in the parameter"""
    p = s.pick('weights', [[1., 0.], [0., 1.], [0., 0., 1.], [0., 1., 0.], [.5, 0., .5], [1.]])
    m, d = len(p), 2
    mu = means(s, m, d)
    cv = [diag(2, [1., 2.])] * m
    g = param(s, m, d, p, mu, cv)
    h = cls(s).from_vector(g.to_vector(), m, d)
    for a, b in zip(h.prob, p):
        s.le(abs(a - b), 1e-4, 'weights of zero and one')
    s.same(g.prob, s.arr(p), 'the parameter is left alone')
    s.same(h.means, s.arr(mu), 'means')


@case('C13')
def forms(s):
    """2 clusters in 2 dimensions: dictionary, vector and object give a copula the same parameters; iteration gives the components in order; nothing shared with the arrays given in a way a later read changes"""
    m, d = 2, 2
    p, mu = weights(s, m), means(s, m, d)
    cv = [cov(s, d, 'c0'), diag(2, s.reals('w', 2, 0.01))]
    g = param(s, m, d, p, mu, cv)
    G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
    as_dict = dict(prob=list(p), means=[list(r) for r in mu], covs=[[list(r) for r in c] for c in cv])
    for label, v in [('object', g), ('dictionary', as_dict), ('vector', g.to_vector()), ('list', list(g.to_vector()))]:
        c = G(m, d, v)
        s.same(c.params.prob, s.arr(p), f'weights from a {label}')
        s.same(c.params.means, s.arr(mu), f'means from a {label}')
        s.same(c.params.covs, s.arr(cv), f'covariances from a {label}')
        s.true(c.params.n_clusters == m and c.params.n_dim == d, 'sizes')
        c = G(m, d)
        s.true(c.params is None, 'no parameters')
        c.params = v
        s.same(c.params.means, s.arr(mu), f'means assigned from a {label}')
    items = list(g)
    s.eq(len(items), m, 'one item per cluster')
    for k, (a, b, c) in enumerate(items):
        s.eq(a, p[k], 'weight of the component')
        s.same(b, s.arr(mu[k]), 'mean of the component')
        s.same(c, s.arr(cv[k]), 'covariance of the component')


@case('C13', over={'2': dict(m=2), '3': dict(m=3)})
def weights_accepted(s, m):
    """any real weights whose sum is 1 or off by more than 0.001"""
    p = s.reals('p', m)
    t = sum(p[1:], p[0])
    s.assume((t == 1) | (abs(t - 1) > .001))
    s.floats((abs(t - 1) > .01) | (t == 1))
    mu, cv = [[0., 0.]] * m, [diag(2, [1., 1.])] * m
    ok = True
    for q in p:
        ok = ok & (q >= 0) & (q <= 1)
    if s.decide(ok) and s.decide(t == 1):
        s.same(param(s, m, 2, p, mu, cv).prob, s.arr(p), 'weights kept')
    else:
        s.raises(lambda: param(s, m, 2, p, mu, cv), 'not a probability vector')
        g = param(s, m, 2, [1.] + [0.] * (m - 1), mu, cv)

        def assign():
            g.prob = s.arr(p)
        s.raises(assign, 'not a probability vector')
        s.same(g.prob, s.arr([1.] + [0.] * (m - 1)), 'refused without effect')


@case('C13')
def refused(s):
    """wrong shapes, missing numbers, asymmetric covariances, sizes that do not match the copula"""
    a = s.reals('a', 6)
    p, mu, cv = [.4, .6], [a[:2], a[2:4]], [diag(2, [1., 2.])] * 2
    nan = float('nan')
    s.raises(lambda: param(s, 2, 2, [.4, .3, .3], mu, cv), 'three weights for two clusters')
    s.raises(lambda: param(s, 2, 2, [1.], mu, cv), 'one weight for two clusters')
    s.raises(lambda: param(s, 2, 2, [nan, 1.], mu, cv), 'missing weight')
    s.raises(lambda: param(s, 2, 2, p, mu[:1], cv), 'one mean for two clusters')
    s.raises(lambda: param(s, 2, 2, p, [a[:3], a[3:]], cv), 'means of three coordinates')
    s.raises(lambda: param(s, 2, 2, p, a[:4], cv), 'a flat vector of means')
    s.raises(lambda: param(s, 2, 2, p, mu, cv[:1]), 'one covariance for two clusters')
    s.raises(lambda: param(s, 2, 2, p, mu, cv[0]), 'a single covariance matrix')
    s.raises(lambda: param(s, 2, 2, p, mu, [diag(3, [1., 1., 1.])] * 2), 'covariances of the wrong size')
    b = s.real('b')
    s.assume(abs(a[0] - b) > .01 + abs(a[0]) * .001 + abs(b) * .001)
    s.raises(lambda: param(s, 2, 2, p, mu, [cv[0], [[1., a[0]], [b, 1.]]]), 'asymmetric covariance')
    G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
    g = param(s, 2, 2, p, mu, cv)
    for m, d in [(3, 2), (2, 3), (1, 2)]:
        s.raises(lambda: G(m, d, g), 'sizes that do not match the copula')
    v = list(g.to_vector())
    for w in (v[:-1], v[:-3], v + v[-1:], v + v[-3:], v[:4]):
        s.raises(lambda: cls(s).from_vector(s.arr(w), 2, 2), 'a vector of another length')
        s.raises(lambda: G(2, 2, s.arr(w)), 'a vector of another length')
    s.raises(lambda: G(2, 2).pdf(s.arr([.5, .5])), 'no parameters yet')
    s.raises(lambda: G(2, 2).cdf(s.arr([.5, .5])), 'no parameters yet')


def normal(s, x, mu, c):
    """textbook density in two dimensions"""
    np = s.np
    if len(x) == 1:
        return np.exp(-(x[0] - mu[0]) ** 2 / c[0][0] / 2) / np.sqrt(2 * np.pi * c[0][0])
    u, v = x[0] - mu[0], x[1] - mu[1]
    dt = c[0][0] * c[1][1] - c[0][1] * c[1][0]
    return np.exp(-(c[1][1] * u * u - 2 * c[0][1] * u * v + c[0][0] * v * v) / dt / 2) / (2 * np.pi * np.sqrt(dt))


@case('C13', over={'2': dict(m=2, n=2), '3': dict(m=3, n=1), 'cov': dict(m=2, n=1, free=True)})
def expectation(s, m, n, free=False):
    """2 clusters and 2 points, 3 clusters and a point, in 2 dimensions: any weights (two clusters), means and points for given covariances; any variances of one cluster for given means"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    p = weights(s, m) if m == 2 else [.2, .3, .5]
    if free:
        v = s.reals('v', 2, 0)
        for x in v:
            s.floats((.2 < x) & (x < 5))
        cv = [[[1., .5], [.5, 2.]], diag(2, v)]
        mu = [[.5, -1.], [0., 1.]]
    else:
        cv = [[[1., .5], [.5, 2.]], [[2., -1.], [-1., 1.]], [[1., 0.], [0., 1.]]][:m]
        mu = means(s, m, 2)
    q = means(s, n, 2, 'q')
    g = param(s, m, 2, p, mu, cv)
    k = E.e_step(s.arr(q), g)
    for i in range(n):
        w = [p[j] * normal(s, q[i], mu[j], cv[j]) for j in range(m)]
        t = sum(w[1:], w[0])
        s.floats(t > 1e-6)
        for j in range(m):
            s.eq(k[i, j], w[j] / t, 'posterior probability of the cluster')
            s.le(0, k[i, j], 'not negative')
        s.eq(sum(k[i, j] for j in range(m)), 1, 'the probabilities of a point add up to 1')


@case('C13')
def unreachable(s):
    """a point without density in any cluster gets zero probabilities, the other points keep theirs"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    p = weights(s, 2)
    mu = [[.5, -1.], [0., 1.]]
    cv = [diag(2, [1., 2.]), diag(2, [3., .5])]
    g = param(s, 2, 2, p, mu, cv)
    x = [s.real('x', -2, 2), s.real('y', -2, 2)]
    k = E.e_step(s.arr([[float('inf'), 0.], x, [0., float('-inf')]]), g)
    w = [p[j] * normal(s, x, mu[j], cv[j]) for j in range(2)]
    for j in range(2):
        s.eq(k[0, j], 0, 'no cluster')
        s.eq(k[2, j], 0, 'no cluster')
        s.eq(k[1, j], w[j] / (w[0] + w[1]), 'posterior probability of the cluster')


@case('C13', over={'2x2': dict(n=2, m=2), '3x2': dict(n=3, m=2), '2x3': dict(n=2, m=3), '3x2.lost': dict(n=3, m=2, lost=True)})
def maximization(s, n, m, lost=False):
    """2 and 3 points in 2 dimensions, 2 and 3 clusters: any points and any positive posterior probabilities (also with one point whose probabilities are all zero); keeping the covariances positive is left out (C22)"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    P = s.mod('copulae.mixtures.gmc.parameter')
    q = means(s, n, 2, 'q')
    k = []
    for i in range(n):
        k.append(weights(s, m, f'k{i}') if i or not lost else [0.0] * m)
    keep = getattr(P, 'near_psd', None)
    if s.mode == 'sym' and keep is not None:
        P.near_psd = lambda c, *a, **kw: c
    try:
        g = E.m_step(s.arr(q), s.arr(k))
    finally:
        if keep is not None:
            P.near_psd = keep
    s.true(g.n_clusters == m and g.n_dim == 2, 'sizes')
    for j in range(m):
        t = sum(k[i][j] for i in range(n))
        s.eq(g.prob[j], t / (n - lost), 'weight: the average posterior probability')
        mu = [sum(k[i][j] * q[i][a] for i in range(n)) / t for a in range(2)]
        for a in range(2):
            s.eq(g.means[j, a], mu[a], 'weighted mean')
            for b in range(2):
                s.eq(g.covs[j, a, b], sum(k[i][j] * (q[i][a] - mu[a]) * (q[i][b] - mu[b]) for i in range(n)) / t,
                     'weighted covariance', rtol=1e-5, atol=1e-7)


@case('C13', over={'22': dict(labels=(0, 1, 0, 1)), '31': dict(labels=(1, 0, 0, 1, 0)), '3': dict(labels=(2, 0, 1, 1, 2, 0))})
def k_means(s, labels):
    """any data with given cluster labels (the clustering itself is a stand-in): shares, cluster means and sample covariances"""
    K = s.mod('copulae.mixtures.gmc.estimators.kmeans')
    P = s.mod('copulae.mixtures.gmc.parameter')
    if not hasattr(K, 'KMeans'):
        return
    n, m = len(labels), max(labels) + 1
    x = means(s, n, 2, 'x')
    for j in range(2):
        split(s, [r[j] for r in x], False) if n < 3 else [s.assume(x[i][j] < x[i + 1][j]) for i in range(n - 1)]

    class Fixed:
        def __init__(self, n_clusters, **k):
            self.inertia_ = 0.0

        def fit(self, u):
            self.labels_ = s.arr(list(labels), int)
            return self

    keep, near = K.KMeans, getattr(P, 'near_psd', None)
    K.KMeans = Fixed
    if s.mode == 'sym' and near is not None:
        P.near_psd = lambda c, *a, **kw: c
    try:
        r = K.k_means(s.arr(x), m, 2).best_params
    finally:
        K.KMeans = keep
        if near is not None:
            P.near_psd = near
    for j in range(m):
        rows = [x[i] for i in range(n) if labels[i] == j]
        s.eq(r.prob[j], len(rows) / n, 'share of the cluster')
        mu = [sum(v[a] for v in rows) / len(rows) for a in range(2)]
        for a in range(2):
            s.eq(r.means[j, a], mu[a], 'mean of the cluster')
            for b in range(2):
                s.eq(r.covs[j, a, b], sum((v[a] - mu[a]) * (v[b] - mu[b]) for v in rows) / (len(rows) - 1),
                     'covariance of the cluster', rtol=1e-5, atol=1e-7)
