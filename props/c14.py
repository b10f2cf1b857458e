"""C14 Gaussian mixture densities, margins, likelihoods and the choice of the best iterate."""
from engine.registry import case

from .c13 import cov, diag, means, normal, param, weights
from .ranks import *

COVS = [[[1., .5], [.5, 2.]], [[2., -1.], [-1., 1.]], [[1., 0.], [0., 1.]]]


def setup(s, m, free=False):
    """weights and means are any (weights of three clusters given), covariances given; free: any standard deviations of the second cluster, means given"""
    p = weights(s, m) if m < 3 else [.2, .3, .5]
    if free:
        v = s.reals('v', 2, 0)
        for x in v:
            s.floats((.2 < x) & (x < 5))
        cv = [COVS[0], diag(2, [x * x for x in v])] + COVS[2:m]
        mu = [[.5, -1.], [0., 1.], [2., 0.]][:m]
    else:
        cv, mu = COVS[:m], means(s, m, 2)
    return p, mu, cv, param(s, m, 2, p, mu, cv)


def copula(s, m, g):
    return s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula(m, 2, g)


SETS = {'1': dict(m=1), '2': dict(m=2), '3': dict(m=3), 'cov': dict(m=2, free=True)}


@case('C14', over=SETS)
def density(s, m, free=False):
    """1 to 3 clusters in 2 dimensions, any weights and means (or any variances), two points; plain and logarithmic, rows and single points"""
    p, mu, cv, g = setup(s, m, free)
    x = means(s, 2, 2, 'x')
    ref = [sum((p[j] * normal(s, q, mu[j], cv[j]) for j in range(m)), 0.0) for q in x]
    for r in ref:
        s.floats(r > 1e-7)
    c = copula(s, m, g)
    s.eq(c.pdf(s.arr(x)), ref, 'weighted sum of the component densities')
    s.eq(c.pdf(s.arr(x[0])), ref[0], 'single point')
    s.eq(c.pdf(s.arr(x[1]), log=True), s.np.log(ref[1]), 'logarithm of the density', rtol=1e-5, atol=1e-6)
    s.same(g.prob, s.arr(p), 'the parameter is left alone')


@case('C14', over={'2': dict(m=2), '3': dict(m=3), 'cov': dict(m=2, free=True)}, rtol=1e-4)
def distribution(s, m, free=False):
    """2 and 3 clusters in 2 dimensions, any weights and means (or any variances), two points; the joint normal distribution function is a black box"""
    p, mu, cv, g = setup(s, m, free)
    x = means(s, 2, 2, 'x')
    mvn = s.stats.multivariate_normal
    ref = [sum((p[j] * s.scalar(mvn.cdf(s.arr(q), s.arr(mu[j]), s.arr(cv[j]))) for j in range(m)), 0.0) for q in x]
    for r in ref:
        s.floats(r > 1e-3)
    c = copula(s, m, g)
    s.eq(c.cdf(s.arr(x)), ref, 'weighted sum of the component distribution functions')
    s.eq(c.cdf(s.arr(x[0])), ref[0], 'single point')
    s.eq(c.cdf(s.arr(x[1]), log=True), s.np.log(ref[1]), 'logarithm of the distribution function')


def phi(s, z):
    """Abramowitz and Stegun 7.1.25 for z >= 0"""
    x = z / 1.4142136
    t = 1 / (1 + .47047 * x)
    return 1 - .5 * (.3480242 * t - .0958798 * t * t + .7478556 * t * t * t) * s.np.exp(-x * x)


def M(s):
    return s.mod('copulae.mixtures.gmc.marginals')


@case('C14', over={'1': dict(m=1), '2': dict(m=2)}, rtol=1e-5, atol=1e-6)
def margins(s, m):
    """1 and 2 clusters in 2 dimensions, any weights, means and standard deviations, any point: the documented approximation of the normal distribution function"""
    p, mu = weights(s, m), means(s, m, 2)
    sd = [s.reals(f'sd{k}', 2, 0) for k in range(m)]
    for r in sd:
        for x in r:
            s.floats((.3 < x) & (x < 5))
    g = param(s, m, 2, p, mu, [diag(2, [x * x for x in r]) for r in sd])
    x = means(s, 1, 2, 'x')[0]
    F = M(s).gmm_marginal_cdf(s.arr([x]), g)
    for a in range(2):
        t = 0
        for k in range(m):
            z = (x[a] - mu[k][a]) / sd[k][a]
            t = t + p[k] * (1 - phi(s, -z) if s.decide(z < 0) else phi(s, z))
        s.eq(F[0, a], t, 'weighted sum of the component distribution functions')


@case('C14', rtol=1e-5)
def margin_shape(s):
    """one cluster, any mean and standard deviation: symmetric about the mean, increasing (the derivative is positive), between 0 and 1"""
    mu, sd, z = s.real('mu'), s.real('sd', 0), s.real('z', 0)
    s.floats((.3 < sd) & (sd < 5) & (z < 4) & (z > .01))
    g = param(s, 1, 2, [1.], [[mu, 0.]], [diag(2, [sd * sd, 1.])])
    F = M(s).gmm_marginal_cdf

    def up(z, sg=1):
        return F(s.arr([[mu + sg * z * sd, 0.]]), g)[0, 0]
    s.eq(up(z) + up(z, -1), 1, 'symmetric')
    s.lt(0.5, up(z), 'above one half above the mean')
    s.le(up(z), 1, 'not above 1')
    s.le(0, up(z, -1), 'not below 0')
    s.lt(0, s.deriv(up, [z], [1]), 'increasing')


def ppf_param(s, m):
    if m == 1:
        return param(s, 1, 2, [1.], [[0., 0.]], [diag(2, [1., 1.])]), [1.], [0.], [1.]
    p, mu, sd = [.25, .75], [-1., 1.], [1., 2.]
    return param(s, 2, 2, p, [[v, v] for v in mu], [diag(2, [v * v] * 2) for v in sd]), p, mu, sd


class rational_cdf:
    """on the symbolic side the marginal distribution functions are replaced by a rational function with the same symmetry"""

    def __init__(self, s):
        self.s, self.m = s, M(s)

    def __enter__(self):
        if self.s.mode == 'sym':
            self.keep = self.m.gmm_marginal_cdf
            self.m.gmm_marginal_cdf = self.cdf

    def __exit__(self, *a):
        if self.s.mode == 'sym':
            self.m.gmm_marginal_cdf = self.keep

    def cdf(self, x, g):
        np = self.s.np
        out = []
        for row in x:
            out.append([])
            for a, v in enumerate(row):
                z = [(v - mu[a]) / np.sqrt(c[a, a]) for _, mu, c in g]
                out[-1].append(sum(p * (1 + w / (1 + abs(w))) / 2 for (p, _, _), w in zip(g, z)))
        return self.s.arr(out)


def standing_in(f):
    def g(s, *a, **k):
        with rational_cdf(s):
            f(s, *a, **k)
    g.__name__, g.__doc__ = f.__name__, f.__doc__.rstrip() + '; the marginal distribution function is a rational stand-in'
    return g


@case('C14', over={'1': dict(m=1), '2': dict(m=2)}, rtol=1e-5)
@standing_in
def quantiles(s, m):
    """one standard normal cluster and two given clusters, a grid of 8 points, any probability: the quantile function follows the straight lines between the grid points, minus infinity at 0 and infinity at 1"""
    g, p, mu, sd = ppf_param(s, m)
    u = s.real('u', 0, 1)
    Q = M(s).gmm_marginal_ppf
    n = [max(round(v * 8), 2) for v in p]
    grid = sorted(mu[k] + sd[k] * (-5 + 10 * i / (n[k] - 1)) for k in range(m) for i in range(n[k]))
    grid = list(s.arr(grid))
    F = [M(s).gmm_marginal_cdf(s.arr([[x, 0.]]), g)[0, 0] for x in grid]
    s.floats((F[0] * 1.01 < u) & (u < 1 - (1 - F[-1]) * 1.01))
    q = Q(s.arr([[u, .5]]), g, resolution=8)
    for i in range(len(grid) - 1):
        if s.decide((F[i] < u) & (u < F[i + 1])):
            s.floats((u - F[i] > 1e-6) & (F[i + 1] - u > 1e-6))
            s.eq(q[0, 0], grid[i] + (grid[i + 1] - grid[i]) / (F[i + 1] - F[i]) * (u - F[i]), 'straight between the grid points')
            return
    if s.decide(u < F[0]):
        s.true(q[0, 0] <= grid[0], 'below the grid')
    elif s.decide(F[-1] < u):
        s.true(q[0, 0] >= grid[-1], 'above the grid')


@case('C14')
@standing_in
def quantile_edges(s):
    """probabilities 0, 1 and one half"""
    g, *_ = ppf_param(s, 1)
    q = M(s).gmm_marginal_ppf(s.arr([[0., .5], [.5, 1.], [1., 0.]]), g, resolution=9)
    s.true(q[0, 0] == -s.np.inf, 'minus infinity at 0')
    s.true(q[1, 1] == s.np.inf, 'infinity at 1')
    s.true(q[2, 0] == s.np.inf, 'infinity at 1')
    s.eq(q[1, 0], 0, 'median at one half')
    s.eq(q[0, 1], 0, 'median at one half')
    q = M(s).gmm_marginal_ppf(s.arr([[0., 1.]]), g, resolution=9, validate=True)
    s.true((q[0, 0] == -s.np.inf) & (q[0, 1] == s.np.inf), 'the ends are valid probabilities')
    s.raises(lambda: M(s).gmm_marginal_ppf(s.arr([[1.5, .5]]), g, validate=True), 'probabilities above 1')
    s.raises(lambda: M(s).gmm_marginal_ppf(s.arr([[.5, -.5]]), g, validate=True), 'negative probabilities')


@case('C14', rtol=1e-5)
@standing_in
def quantile_scale(s):
    """one cluster with any mean and standard deviations, a grid of 5 points, given probabilities: mean plus standard deviation times the standard quantile, column by column"""
    mu, sd = s.reals('mu', 2), s.reals('sd', 2, 0)
    for a in range(2):
        s.floats((.3 < sd[a]) & (sd[a] < 5) & (abs(mu[a]) < 10))
    g = param(s, 1, 2, [1.], [mu], [diag(2, [v * v for v in sd])])
    g0, *_ = ppf_param(s, 1)
    u = s.pick('u', [[.5, .25], [.125, .75], [.9, .4]])
    Q = M(s).gmm_marginal_ppf
    q, q0 = Q(s.arr([u]), g, resolution=5), Q(s.arr([u]), g0, resolution=5)
    for a in range(2):
        s.eq(q[0, a], mu[a] + sd[a] * q0[0, a], 'location and scale of the margin')


@case('C14', over={'2': dict(m=2), 'cov': dict(m=2, free=True)}, rtol=1e-5, atol=1e-6)
def likelihoods(s, m, free=False):
    """2 clusters in 2 dimensions, any weights and means (or any variances), 2 points: sums of the logarithms; the copula likelihood subtracts the margins at any quantiles"""
    p, mu, cv, g = setup(s, m, free)
    x = means(s, 2, 2, 'x')
    L = s.mod('copulae.mixtures.gmc.loglik')
    log = s.np.log

    def joint(q):
        r = sum((p[j] * normal(s, q, mu[j], cv[j]) for j in range(m)), 0.0)
        s.floats(r > 1e-6)
        return log(r)

    def margin(q, a):
        r = sum((p[j] * normal(s, [q[a]], [mu[j][a]], [[cv[j][a][a]]]) for j in range(m)), 0.0)
        s.floats(r > 1e-6)
        return log(r)
    s.eq(L.gmm_log_likelihood(s.arr(x), g), joint(x[0]) + joint(x[1]), 'mixture likelihood')
    for a in range(2):
        s.eq(L.gmm_log_likelihood_marginals(s.arr(x), g)[a], margin(x[0], a) + margin(x[1], a), 'marginal likelihood')
    u = [[s.real(f'u{i}{a}', 0, 1) for a in range(2)] for i in range(2)]
    for v in u[0] + u[1]:
        s.floats((.05 < v) & (v < .95))
    keep = getattr(L, 'gmm_marginal_ppf', None)
    q = x
    if s.mode == 'sym':
        if keep is None:
            return
        L.gmm_marginal_ppf = lambda u, par, *a, **k: s.arr(x)
    else:
        q = M(s).gmm_marginal_ppf(s.arr(u), g)
    try:
        r = L.gmcm_log_likelihood(s.arr(u), g)
    finally:
        L.gmm_marginal_ppf = keep
    s.eq(r, sum(joint(v) - margin(v, 0) - margin(v, 1) for v in q), 'copula likelihood')


@case('C14', over={'3': dict(d=3), '1': dict(d=1)}, rtol=1e-5, atol=1e-6)
def likelihoods_size(s, d):
    """2 clusters in 1 and 3 dimensions (uncorrelated), any weights and means, 2 points: the copula likelihood subtracts every margin"""
    p, mu = weights(s, 2), means(s, 2, d)
    var = [[1., 2., .5][:d], [3., 1., 4.][:d]]
    g = param(s, 2, d, p, mu, [diag(d, v) for v in var])
    x = means(s, 2, d, 'x')
    L = s.mod('copulae.mixtures.gmc.loglik')
    log = s.np.log
    one = lambda k, q, a: normal(s, [q[a]], [mu[k][a]], [[var[k][a]]])

    def total(q, axes):
        r = 0.0
        for k in range(2):
            t = p[k]
            for a in axes:
                t = t * one(k, q, a)
            r = r + t
        s.floats(r > 1e-6)
        return log(r)

    for a in range(d):
        s.eq(L.gmm_log_likelihood_marginals(s.arr(x), g)[a], sum(total(q, [a]) for q in x), 'marginal likelihood')
    keep = getattr(L, 'gmm_marginal_ppf', None)
    q, u = x, s.arr([[.25 + .125 * a for a in range(d)], [.5] * d])
    if s.mode == 'sym':
        if keep is None:
            return
        L.gmm_marginal_ppf = lambda u, par, *a, **k: s.arr(x)
    else:
        q = M(s).gmm_marginal_ppf(u, g)
    try:
        r = L.gmcm_log_likelihood(u, g)
    finally:
        L.gmm_marginal_ppf = keep
    s.eq(r, sum(total(v, range(d)) - sum(total(v, [a]) for a in range(d)) for v in q), 'copula likelihood')


def history(s, n):
    return s.reals('a', n), s.reals('b', n), s.real('eps', 0)


@case('C14', over={f'{c}.{n}': dict(criteria=c, n=n) for c in ('GMCM', 'GMM', 'Li') for n in (2, 3, 4)})
def best(s, criteria, n):
    """histories of 2 to 4 recorded likelihoods"""
    a, b, eps = history(s, n)
    ll = s.mod('copulae.mixtures.gmc.estimators.em').LogLik(criteria, eps)
    ps = [object() for _ in range(n)]
    for k in range(n):
        ll.set(gmm=a[k], gmcm=b[k], param=ps[k])
    for i in range(n):
        for j in range(i):
            s.floats(abs(b[i] - b[j]) > 1e-6)
    s.floats((abs(abs(b[n - 1] - b[n - 2]) - eps) > 1e-6) & (abs(abs(a[n - 1] - a[n - 2]) - eps) > 1e-6) & (abs(abs(a[n - 1] - b[n - 2]) - eps) > 1e-6))
    i = next((i for i, p in enumerate(ps) if p is ll.best_param), None)
    s.true(i is not None, 'one of the recorded parameters')
    if criteria != 'GMM':
        for k in range(n):
            s.le(b[k], b[i], 'no recorded parameter has a larger copula likelihood')
    else:
        s.true(i == n - 1, 'the last parameter')
    s.eq(ll.best_log_lik, b[i], 'the likelihood reported is that of the best parameter')
    if criteria == 'GMCM':
        s.true(s.decide(abs(b[n - 1] - b[n - 2]) < eps) == bool(ll.has_converged), 'converged when the last two agree')
    if criteria == 'GMM':
        s.true(s.decide(abs(a[n - 1] - a[n - 2]) < eps) == bool(ll.has_converged), 'converged when the last two agree')
    if criteria.upper() == 'LI':
        s.true(s.decide(abs(a[n - 1] - b[n - 2]) < eps) == bool(ll.has_converged), 'converged when the newest mixture value agrees with the previous copula value')


@case('C14', over={'1': dict(n=1), '2': dict(n=2), '3': dict(n=3)})
def iterations(s, n):
    """1 to 3 iterations with any likelihoods (stand-ins for the steps and likelihoods): the best iterate is returned, and the iteration stops when the copula likelihood settles"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    names = ['gmm_marginal_ppf', 'gmm_log_likelihood', 'gmcm_log_likelihood', 'e_step', 'm_step']
    if any(not hasattr(E, k) for k in names):
        return
    a, b, eps = history(s, n + 1)
    for i in range(n + 1):
        for j in range(i):
            s.floats(abs(b[i] - b[j]) > 1e-6)
            s.floats(abs(abs(b[i] - b[j]) - eps) > 1e-6)
    g = [param(s, 2, 2, [.5, .5], [[float(k), 0.], [1., 1.]], COVS[:2]) for k in range(n + 2)]
    ran = [0]
    seen = []

    def which(p):
        return next(i for i, x in enumerate(g) if x is p)

    def quantile(u, p, *q, **k):
        return s.arr([[float(which(p)), .25]])

    def expect(q, p):
        seen.append((q[0, 0], float(which(p)), 'probabilities from the quantiles under the current parameter'))
        return s.arr([[.5 + which(p), .5]])

    def step(q, k):
        seen.append((q[0, 0], float(ran[0]), 'steps from the quantiles under the current parameter'))
        seen.append((k[0, 0], .5 + ran[0], 'steps from the probabilities of the current parameter'))
        ran[0] += 1
        return g[ran[0]]

    keep = {k: getattr(E, k) for k in names}
    E.gmm_marginal_ppf = quantile
    E.gmm_log_likelihood = lambda q, p: a[which(p)]
    E.gmcm_log_likelihood = lambda u, p: b[which(p)]
    E.e_step = expect
    E.m_step = step
    try:
        r = E.expectation_maximization(s.arr([[.5, .5]]), g[0], max_iter=n, criteria='GMCM', verbose=0, eps=eps)
    finally:
        for k, v in keep.items():
            setattr(E, k, v)
    if ran[0] == 0:
        return
    for v, w, label in seen:
        s.eq(v, w, label)
    stop = n
    for k in range(1, n + 1):
        if s.decide(abs(b[k] - b[k - 1]) < eps):
            stop = k
            break
    s.eq(ran[0], stop, 'stops when settled or at the largest number of iterations')
    s.true(bool(r.has_converged) == s.decide(abs(b[stop] - b[stop - 1]) < eps), 'says whether it has settled')
    i = which(r.best_params)
    s.le(i, stop, 'an iterate')
    for k in range(stop + 1):
        s.le(b[k], b[i], 'the iterate with the largest copula likelihood')
