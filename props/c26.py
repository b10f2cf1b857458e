"""C26 fitting of Gaussian mixtures."""
import inspect

from engine.registry import case

from .c13 import cls, diag, means, param, weights
from .c19 import Optimiser
from .ranks import *

PAIR = [[[1., .5], [.5, 2.]], [[2., -1.], [-1., 1.]], [[1., 0.], [0., 3.]]]
TRIPLE = [[[2., .5, 0.], [.5, 1., .25], [0., .25, 3.]], [[1., 0., 0.], [0., 2., 0.], [0., 0., .5]]]


def covs(m, d):
    return [diag(1, [float(k + 1)]) for k in range(m)] if d == 1 else (PAIR if d == 2 else TRIPLE)[:m]


class replaced:
    """names of a module replaced by stand-ins; arguments are recorded in the order of the original's parameters"""

    def __init__(self, module, **functions):
        self.module, self.functions, self.calls = module, functions, {k: [] for k in functions}

    def __enter__(self):
        self.keep = {k: getattr(self.module, k, None) for k in self.functions}
        self.there = all(self.keep.values())
        if self.there:
            for k, f in self.functions.items():
                setattr(self.module, k, self.stand_in(k, f, inspect.signature(self.keep[k])))
        return self

    def __exit__(self, *a):
        if self.there:
            for k, f in self.keep.items():
                setattr(self.module, k, f)

    def stand_in(self, name, f, sig):
        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls[name].append(list(b.arguments.values()))
            return f(*b.arguments.values())
        return g


def same_param(s, a, b, label):
    s.true(a.n_clusters == b.n_clusters and a.n_dim == b.n_dim, label + ': sizes')
    s.eq(a.prob, b.prob, label + ': weights')
    s.eq(a.means, b.means, label + ': means')
    s.eq(a.covs, b.covs, label + ': covariances')


@case('C26', over={'1x2': dict(m=1, d=2), '3x2': dict(m=3, d=2), '2x3': dict(m=2, d=3)})
def descent(s, m, d):
    """1 to 3 clusters in 2 and 3 dimensions, any weights and means of the start, of the optimum and of another point; the likelihood is a stand-in"""
    G = s.mod('copulae.mixtures.gmc.estimators.sgd')
    P = cls(s)
    lik = lambda x, param: 3 * param.prob[0] + sum(param.means[k, j] * (k + 2 * j + 1) for k in range(m) for j in range(d)) + param.covs[-1][0, 0]
    g = [param(s, m, d, weights(s, m, 'p' + n), means(s, m, d, n), covs(m, d)) for n in 'abc']
    v = [x.to_vector() for x in g]
    u = s.arr([[.25] * d, [.75] * d])
    opt = Optimiser(s, v[1], [v[2]], s.pick('success', [True, False]))
    with replaced(G, gmcm_log_likelihood=lik) as r:
        if not r.there:
            return
        res = G.gradient_descent(u, g[0], max_iter=17)
    if not opt.calls or not r.calls['gmcm_log_likelihood']:
        return
    s.true(len(opt.calls) == 1, 'one optimisation')
    c = opt.calls[0]
    s.eq(c['x0'], v[0], 'starts at the start')
    s.eq(c['fun'], -lik(u, P.from_vector(v[1], m, d)), 'the objective is the negative copula likelihood')
    s.eq(c['others'][0], -lik(u, P.from_vector(v[2], m, d)), 'the objective is the negative copula likelihood')
    for k in r.calls['gmcm_log_likelihood']:
        s.same(k[0], u, 'of the data')
    s.true(c['options'] is not None and c['options'].get('maxiter') == 17, 'at most the iterations asked for')
    same_param(s, res.best_params, P.from_vector(v[1], m, d), 'the optimum')
    same_param(s, res.best_params, g[1], 'the optimum')
    s.true(bool(res.has_converged) == opt.success, 'says whether the optimiser succeeded')
    s.eq(res.nsample, 2, 'number of observations')
    s.eq(res.setup['Fn. Value'], c['fun'], 'reports the value of the objective')


@case('C26')
def descent_options(s):
    """the optimiser gets the method and options of the caller"""
    G = s.mod('copulae.mixtures.gmc.estimators.sgd')
    g = param(s, 2, 2, weights(s, 2), means(s, 2, 2), covs(2, 2))
    u = s.arr([[.25] * 2, [.75] * 2])
    method = s.pick('method', ['nelder-mead', 'bfgs', 'SLSQP', 'cobyla', 'trust-constr', 'powell'])
    given = s.pick('given', [None, {'maxiter': 5, 'disp': True}])
    kw = {} if given is None else {'options': dict(given)}
    opt = Optimiser(s)
    with replaced(G, gmcm_log_likelihood=lambda x, param: param.prob[0] * 2) as r:
        if not r.there:
            return
        res = G.gradient_descent(u, g, method=method, max_iter=9, **kw)
    if not opt.calls or not r.calls['gmcm_log_likelihood']:
        return
    c = opt.calls[0]
    s.true(c['method'] == method, 'method')
    o = c['options'] or {}
    if given is None:
        s.true(method == 'powell' or o.get('maxiter') == 9, 'iterations')
    else:
        s.true(o == given, 'options')
        s.true(kw['options'] == given, 'options are not modified')
    s.true(res.setup['algorithm'] == method, 'reports the method')


class Result:
    def __init__(self, p):
        self.best_params = p


STARTS = ('none', 'object', 'vector', 'list')


@case('C26', over={f'{w}.{x}': dict(way=w, start=x) for w in ('pem', 'sgd', 'kmeans') for x in STARTS}, max_paths=200)
def dispatch(s, way, start):
    """three rows in opposite order, 2 clusters in 2 dimensions, any start; the estimators are stand-ins: they get the ranked data, the start and the options, and their best parameters become the copula's"""
    M = s.mod('copulae.mixtures.gmc.gmc')
    x = sample(s, 3, 2)
    for p, q in zip(x, x[1:]):
        s.assume((p[0] < q[0]) & (p[1] > q[1]))
    g = [param(s, 2, 2, weights(s, 2, 'p' + n), means(s, 2, 2, n), covs(2, 2)) for n in 'abc']
    ties = s.pick('ties', TIES)
    res = {k: Result(g[1]) for k in ('pem', 'sgd', 'kmeans')}
    if way != 'kmeans' or start != 'none':
        res['kmeans'] = Result(g[2] if start == 'none' else g[1])
    c = M.GaussianMixtureCopula(2, 2)
    v = g[0].to_vector()
    x0 = {'none': None, 'object': g[0], 'vector': v, 'list': list(v)}[start]
    opt = {'method': 'bfgs', 'tol': .5}
    with replaced(M, k_means=lambda *k: res['kmeans'], gradient_descent=lambda *k: res['sgd'],
                  expectation_maximization=lambda *k: res['pem']) as r:
        if not r.there:
            return
        out = c.fit(s.arr(x), x0, way.upper() if start == 'object' else way, optim_options=opt, ties=ties, verbose=0,
                    max_iter=7, criteria='GMM', eps=.125)
    if not any(r.calls.values()):
        return
    s.true(out is c, 'returns the copula')
    s.true(opt == {'method': 'bfgs', 'tol': .5}, 'options are not modified')
    s.true(c.params is g[1], 'the best parameters become those of the copula')
    s.true(c.summary('fit') is res[way], 'the summary is the one of the method')
    name = {'pem': 'expectation_maximization', 'sgd': 'gradient_descent', 'kmeans': 'k_means'}[way]
    s.true(len(r.calls[name]) == 1, 'the method runs once')
    for k in r.calls:
        if k not in (name, 'k_means'):
            s.true(not r.calls[k], 'no other method runs')
    s.true(len(r.calls['k_means']) == (start == 'none' or way == 'kmeans'), 'clusters only without a start')
    for k in r.calls['k_means']:
        s.same(k[0], s.arr(x), 'clusters of the data')
        s.true(list(k[1:3]) == [2, 2], 'sizes')
    if way == 'kmeans':
        return
    k = r.calls[name][0]
    s.eq(k[0], cols([[t / 4 for t in rank(s, q, ties)] for q in cols(x)]), 'the ranked data')
    same_param(s, k[1], g[2] if start == 'none' else g[0], 'the start')
    if way == 'pem':
        s.true(list(k[2:6]) == [7, 'GMM', 0, .125], 'the options')
    else:
        kw = k[2]
        s.true(kw.get('max_iter') == 7 and kw.get('method') == 'bfgs' and kw.get('tol') == .5, 'the options')


@case('C26', over={t: dict(t=t) for t in TIES}, max_paths=200)
def ties(s, t):
    """three rows in two columns, every tie pattern of the first: the estimator gets the ranks the tie method gives"""
    M = s.mod('copulae.mixtures.gmc.gmc')
    x = sample(s, 3, 2)
    split(s, cols(x)[0])
    split(s, cols(x)[1], ties=False)
    g = param(s, 2, 2, [.25, .75], [[0., 0.], [1., 1.]], covs(2, 2))
    way = s.pick('way', ['pem', 'sgd'])
    with replaced(M, gradient_descent=lambda *k: Result(g), expectation_maximization=lambda *k: Result(g)) as r:
        if not r.there:
            return
        M.GaussianMixtureCopula(2, 2).fit(s.arr(x), g, way, ties=t, verbose=0)
    for k in sum(r.calls.values(), []):
        s.eq(k[0], cols([[v / 4 for v in rank(s, q, t)] for q in cols(x)]), 'the ranked data')


@case('C26')
def refused(s):
    """unknown methods and criteria, starts of other sizes, starts that are no parameters"""
    M = s.mod('copulae.mixtures.gmc.gmc')
    x = s.arr(sample(s, 3, 2))
    g = param(s, 2, 2, weights(s, 2), means(s, 2, 2), covs(2, 2))
    h = param(s, 1, 2, [1.], means(s, 1, 2, 'n'), covs(1, 2))
    t = param(s, 2, 1, [.5, .5], means(s, 2, 1, 'o'), covs(2, 1))
    c = M.GaussianMixtureCopula(2, 2)
    s.raises(lambda: c.fit(x, g, 'newton'), 'an unknown method is refused')
    s.raises(lambda: c.fit(x, h, 'pem'), 'a start of another number of clusters is refused')
    s.raises(lambda: c.fit(x, t, 'pem'), 'a start of another dimension is refused')
    for k, j in ((4, 1), (1, 4)):
        e = param(s, k, j, [1 / k] * k, [[0.] * j] * k, [diag(j, [1.] * j)] * k)
        s.raises(lambda: c.fit(x, e, 'pem'), 'a start of another shape is refused')
        s.raises(lambda: M.GaussianMixtureCopula(2, 2, e), 'parameters of another shape are refused')
    s.raises(lambda: c.pdf([.5, .5]) if c.params is None else M.GaussianMixtureCopula(2, 2).pdf([.5, .5]), 'no parameters, no density')
    s.raises(lambda: M.GaussianMixtureCopula(2, 2).cdf([.5, .5]), 'no parameters, no distribution function')
    s.raises(lambda: s.mod('copulae.mixtures.gmc.estimators.em').LogLik('AIC'), 'an unknown criterion is refused')
    d = M.GaussianMixtureCopula(2, 2, g)
    s.true(d.clusters == 2 and d.dim == 2, 'sizes')
    s.true(d.params is g, 'the parameters given')


@case('C26', over={'1': dict(n=1), '2': dict(n=2)})
def lost(s, n):
    """one or two iterations with any probabilities of the first cluster, none for the second: an error instead of a fit"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    g = param(s, 2, 2, [.5, .5], [[0., 0.], [1., 1.]], covs(2, 2))
    k = s.reals('k', 2, 0, 1)
    full = s.arr([[k[0], 1 - k[0]], [k[1], 1 - k[1]]])
    seen = []

    def expect(q, param):
        seen.append(1)
        return full if len(seen) < n else s.arr([[k[0], 0.], [k[1], 0.]])

    with replaced(E, gmm_marginal_ppf=lambda *a: s.arr([[0., 1.], [1., 0.]]), gmm_log_likelihood=lambda *a: float(len(seen)),
                  gmcm_log_likelihood=lambda *a: float(len(seen)), e_step=expect, m_step=lambda *a: g) as r:
        if not r.there:
            return
        f = lambda: E.expectation_maximization(s.arr([[.25, .5], [.5, .25]]), g, max_iter=3, verbose=0)
        s.raises(f, 'a cluster without observations')


@case('C26', over={c: dict(criteria=c) for c in ('GMCM', 'GMM', 'Li')})
def exhausted(s, criteria):
    """two iterations with any likelihoods: the best iterate's likelihood and whether it settled are reported, for every criterion"""
    E = s.mod('copulae.mixtures.gmc.estimators.em')
    a, b, eps = s.reals('a', 3), s.reals('b', 3), s.real('eps', 0)
    for i in range(3):
        for j in range(i):
            s.floats((abs(b[i] - b[j]) > 1e-6) & (abs(abs(b[i] - b[j]) - eps) > 1e-6) & (abs(abs(a[i] - a[j]) - eps) > 1e-6))
        for j in range(3):
            s.floats(abs(abs(a[i] - b[j]) - eps) > 1e-6)
    g = [param(s, 2, 2, [.5, .5], [[float(k), 0.], [1., 1.]], covs(2, 2)) for k in range(4)]
    at = [0]

    def step(*k):
        at[0] += 1
        return g[at[0]]

    which = lambda p: next(i for i, x in enumerate(g) if x is p)
    with replaced(E, gmm_marginal_ppf=lambda *k: s.arr([[0., 1.]]), gmm_log_likelihood=lambda x, param: a[which(param)],
                  gmcm_log_likelihood=lambda x, param: b[which(param)], e_step=lambda *k: s.arr([[.5, .5]]), m_step=step) as r:
        if not r.there:
            return
        res = E.expectation_maximization(s.arr([[.5, .25]]), g[0], max_iter=2, criteria=criteria, verbose=0, eps=eps)
    if not at[0]:
        return

    def settled(k):
        return {'GMCM': lambda: abs(b[k] - b[k - 1]), 'GMM': lambda: abs(a[k] - a[k - 1]), 'Li': lambda: abs(a[k] - b[k - 1])}[criteria]() < eps

    stop = 1 if s.decide(settled(1)) else 2
    s.eq(at[0], stop, 'stops when settled or at the largest number of iterations')
    s.true(bool(res.has_converged) == s.decide(settled(stop)), 'says whether it has settled')
    i = which(res.best_params)
    s.eq(res.setup['Log. Likelihood'], b[i], 'the likelihood of the parameters reported')
    s.eq(res.nsample, 1, 'number of observations')
    if criteria == 'GMM':
        s.eq(i, stop, 'the last iterate')
    else:
        for k in range(stop + 1):
            s.le(b[k], b[i], 'the iterate with the largest copula likelihood')
