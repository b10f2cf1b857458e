"""C19 fitting."""
from engine.registry import case

from . import fam
from .ranks import *


class Optimiser:
    """a stand-in with the signature of scipy.optimize.minimize: asks for the objective at the optimum and at other points and returns the optimum"""

    def __init__(self, s, best=None, others=(), success=True):
        self.s, self.best, self.others, self.success = s, best, list(others), success
        self.calls = []
        s.hook('minimize', self)

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        from scipy.optimize import OptimizeResult
        s = self.s
        call = dict(x0=s.snap(x0), args=args, method=method, bounds=bounds, constraints=constraints, tol=tol, jac=jac,
                    options=None if options is None else dict(options), others=[])
        self.calls.append(call)
        x = s.arr(self.best if self.best is not None else s.np.atleast_1d(x0))
        call['fun'] = f = fun(s.snap(x))
        for o in self.others:
            call['others'].append(fun(s.arr(o)))
        return OptimizeResult(x=x, fun=f, success=self.success, status=0, message='', nit=1, nfev=1)


def model(s, name='Model', bounds=(0, 1), itau=None):
    """a two-dimensional copula with one parameter in [0, 1]: density 1 + p (1 - 2u)(1 - 2v)"""

    class Model(s.mod('copulae.copula').BaseCopula):
        def __init__(self, dim=2):
            super().__init__(dim, name)
            self._bounds = bounds
            self._par = .5

        @property
        def params(self):
            return self._par

        @params.setter
        def params(self, v):
            v = v if s.np.isscalar(v) else v[0]
            if v < 0 or v > 1:
                raise ValueError('out of bounds')
            self._par = v

        def itau(self, tau):
            if itau is None:
                raise NotImplementedError
            return itau(tau)

        def pdf(self, u, log=False):
            p = s.arr([like(self._par, r) for r in u])
            return s.np.log(p) if log else p

        def cdf(self, u, log=False):
            raise NotImplementedError

        def random(self, n, seed=None):
            raise NotImplementedError

        def summary(self, category='copula'):
            return self._fit_smry

    return Model()


def like(p, r):
    return 1 + p * (1 - 2 * r[0]) * (1 - 2 * r[1])


def points(s, n, d=2):
    u = [[fam.unit(s, f'u{i}{j}') for j in range(d)] for i in range(n)]
    for r in u:
        for v in r:
            s.floats((.1 < v) & (v < .9))
    return u


def given(s, kind, name):
    """a copula of the kind with any valid parameter, as the vector an optimiser would try"""
    if kind in ('gauss', 'student'):
        r = s.real(name + 'r', -1, 1)
        s.floats((-.8 < r) & (r < .8))
        if kind == 'gauss':
            return [r]
        df = s.real(name + 'df', 0)
        s.floats((1 < df) & (df < 20))
        s.assume(df <= 10000)
        return [df, r]
    return [fam.theta(s, kind, name)]


def fresh(s, kind, p=None):
    c = s.cp.GaussianCopula(2) if kind == 'gauss' else s.cp.StudentCopula(2) if kind == 'student' else fam.cls(s, kind)(dim=2)
    if p is not None:
        c.params = s.arr(p) if kind in ('gauss', 'student') else p[0]
    return c


def flat(s, kind, c):
    p = c.params
    return [p[0], *p[1]] if kind == 'student' else list(s.np.ravel(p))


def invalid(s, kind):
    """a parameter outside the domain"""
    x = s.real('bad')
    if kind == 'gauss':
        s.assume(abs(x) > 1.01)
        return [x]
    if kind == 'student':
        s.assume(x <= 0)
        return [x, .5]
    s.assume(x < (1 if kind == 'gumbel' else -1) - .01)
    return [x]


KINDS = ['clayton', 'frank', 'gumbel', 'frank-', 'clayton-', 'gauss', 'student']


@case('C19', over={('+' if k in ('frank-', 'student') else '') + k: dict(kind=k) for k in KINDS}, max_paths=60)
def objective(s, kind):
    """two points, any starting point, candidate and optimum in the domain, any scale: the optimiser gets minus the scaled log-likelihood, the copula ends at the optimum and the summary reports it"""
    u = points(s, 2)
    best, other, start = given(s, kind, 'best'), given(s, kind, 'other'), given(s, kind, 'start')
    scale = s.real('scale', 0)
    s.floats((.1 < scale) & (scale < 10))
    bad = [] if kind[:5] == 'frank' else [invalid(s, kind)]
    o = Optimiser(s, best, [other, *bad, [s.np.nan] * len(best)])
    c = fresh(s, kind)
    if kind == 'clayton-':
        for (p,) in (best, other):
            for r in u:
                s.assume(r[0] ** -p + r[1] ** -p > 1.001)
    x0 = s.arr(start) if kind in ('gauss', 'student') else start[0]
    r = c.fit(s.arr(u), x0=x0, to_pobs=False, scale=scale, verbose=0)
    s.true(r is c, 'returns the copula')
    s.eq(len(o.calls), 1, 'one optimisation')
    k = o.calls[0]
    s.same(s.np.ravel(k['x0']), s.arr(start), 'starts at the given point')
    ll = [sum(s.np.ravel(fresh(s, kind, p).pdf(s.arr(u), log=True))) for p in (best, other)]
    s.eq(k['fun'], -scale * ll[0], 'objective at the optimum')
    s.eq(k['others'][0], -scale * ll[1], 'objective at a candidate')
    if bad:
        s.true(k['others'][1] == s.np.inf, 'infinitely bad outside the domain')
    s.true(k['others'][-1] == s.np.inf, 'infinitely bad when missing')
    s.same(s.arr(flat(s, kind, c)), s.arr(best), 'parameters at the optimum')
    m = c.summary('fit')
    s.same(s.np.ravel(m.params), s.arr(best), 'the summary reports the optimum')
    s.eq(m.log_lik, ll[0], 'the summary reports the log-likelihood at the optimum')
    s.eq(m.nsample, 2, 'the summary reports the number of observations')


@case('C19', over={t: dict(ties=t) for t in TIES}, max_paths=400)
def ranks_fitted(s, ties):
    """samples of 3x2 with any ties in the order of the first column, every tie method: the likelihood is the one at the pseudo-observations; log_lik likewise"""
    x, _ = ordered(s, 3, 2, True, True)
    u = pobs(s, x, ties)
    p = s.real('p', 0, 1)
    s.floats((.05 < p) & (p < .9))
    o = Optimiser(s, [p])
    c = model(s)
    kw = {} if ties == 'average' else dict(ties=ties)
    c.fit(s.arr(x), x0=.5, verbose=0, **kw)
    ll = sum(s.np.log(like(p, r)) for r in u)
    s.eq(o.calls[0]['fun'], -ll, 'objective')
    s.eq(c.summary('fit').log_lik, ll, 'log-likelihood')
    s.eq(c.log_lik(s.arr(x), **kw), ll, 'log_lik of the data')
    s.eq(c.log_lik(s.arr(u), to_pobs=False), ll, 'log_lik of the pseudo-observations')


@case('C19')
def lists_and_frames(s):
    """three points of the unit square in a list or a frame: as in an array; the frame's columns are kept"""
    u = points(s, 3)
    p = s.real('p', 0, 1)
    s.floats((.05 < p) & (p < .9))
    ll = sum(s.np.log(like(p, r)) for r in u)
    for x in (u, s.frame(u, ['b', 'a']), s.arr(u)):
        o = Optimiser(s, [p])
        c = model(s)
        c.fit(x, x0=.5, verbose=0, to_pobs=False)
        s.eq(o.calls[0]['fun'], -ll, 'objective')


@case('C19')
def refused(s):
    """points outside the unit square, too few rows, wrong columns, vectors, unknown methods: refused before any optimisation, and the copula keeps its parameter"""
    u = points(s, 2)
    bad = s.real('outside')
    s.assume((bad < 0) | (bad > 1))
    o = Optimiser(s, [.5])
    c = model(s)
    rows = [u[0], [u[1][0], bad]], [[bad, u[0][1]], u[1]]
    for r in rows:
        s.raises(lambda: c.fit(s.arr(r), x0=.5, to_pobs=False, verbose=0), 'outside the unit square')
    s.raises(lambda: c.fit(s.arr(u[:1]), x0=.5, to_pobs=False, verbose=0), 'fewer rows than columns')
    s.raises(lambda: c.fit(s.arr([r + [.5] for r in u] * 2), x0=.5, to_pobs=False, verbose=0), 'three columns')
    s.raises(lambda: c.fit(s.arr([r[:1] for r in u]), x0=.5, to_pobs=False, verbose=0), 'one column')
    s.raises(lambda: c.fit(s.arr(u[0]), x0=.5, to_pobs=False, verbose=0), 'a vector')
    s.raises(lambda: s.cp.ClaytonCopula(2., dim=3).fit(s.arr([[.2, .3, .4], [.5, .1, .8]]), x0=.5, to_pobs=False, verbose=0),
             'two rows for three columns')
    s.raises(lambda: c.fit(s.arr(u), x0=.5, to_pobs=False, method='mpl', verbose=0), 'unknown method', (NotImplementedError,))
    s.eq(len(o.calls), 0, 'no optimisation')
    s.eq(c.params, .5, 'parameter kept')
    s.true(not s.attempt(lambda: c.fit(s.arr([[0., 1.], [1., 0.], [.5, .5]]), x0=.5, to_pobs=False, verbose=0))[1], 'the border is inside')


@case('C19')
def not_converged(s):
    """any starting point and objective: without convergence the estimate is reported missing"""
    u = points(s, 2)
    p = s.real('p', 0, 1)
    s.floats((.05 < p) & (p < .9))
    for x0 in (.5, [.5], 1):
        Optimiser(s, [p], success=False)
        c = model(s)
        c.fit(s.arr(u), x0=x0, to_pobs=False, verbose=0)
        s.true(bool(s.np.all(s.np.isnan(c.summary('fit').params))), 'the estimate is missing')


MINE = {
    'none': None,
    'empty': {},
    'method': {'method': 'SLSQP'},
    'case': {'method': 'nelder-mead'},
    'nested': {'method': 'COBYLA', 'options': {'maxiter': 17}},
    'trust': {'method': 'trust-constr'},
    'bfgs': {'method': 'BFGS', 'options': {'gtol': .5}},
    'other': {'method': 'L-BFGS-B', 'bounds': [(.2, .7)]},
    'tol': {'tol': .25, 'options': {'disp': False, 'maxiter': 3}},
    'bounds': {'method': 'SLSQP', 'bounds': [(.25, .75)], 'options': {}},
}


def copied(v):
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    return [copied(x) for x in v] if isinstance(v, list) else v


@case('C19', over={k: dict(kind=k) for k in MINE})
def options(s, kind):
    """ten sets of optimiser options: given ones reach the optimiser, the bounds are the copula's unless given, and the caller's object is unchanged"""
    u = points(s, 2)
    mine = MINE[kind]
    o = Optimiser(s, [.5])
    c = model(s, bounds=(0, 1))
    before = copied(mine)
    used = copied(mine)
    e = s.attempt(lambda: c.fit(s.arr(u), x0=.4, to_pobs=False, verbose=0, optim_options=used))[1]
    s.true(not e, 'the optimiser accepts the options')
    s.true(used == before, 'the options given are unchanged')
    k = o.calls[0]
    for a, b in (mine or {}).items():
        if a == 'options':
            for x, y in b.items():
                s.true(k['options'][x] == y, f'option {x}')
        else:
            s.true(k[a] == b, f'argument {a}')
    if k['bounds'] is not None and 'bounds' not in (mine or {}):
        s.true([tuple(b) for b in k['bounds']] == [(0, 1)], 'bounds of the copula')
    if used is not None:
        # the same options for another family
        g = s.cp.GaussianCopula(2)
        Optimiser(s, [.5])
        g.fit(s.arr(u), x0=[.4], to_pobs=False, verbose=0, optim_options=used)
        s.true(used == before, 'the options given are unchanged by a second fit')


@case('C19', over={'none': dict(mine=None), 'empty': dict(mine={}), 'method': dict(mine={'method': 'SLSQP'}),
                   'constraint': dict(mine={'constraints': [{'type': 'eq', 'fun': lambda x: x[0]}]}),
                   'tuple': dict(mine={'constraints': ({'type': 'ineq', 'fun': lambda x: x[1]},)}),
                   'one': dict(mine={'constraints': {'type': 'ineq', 'fun': lambda x: x[1]}})})
def fixed_df(s, mine):
    """Student copulas with fixed degrees of freedom, any value of them, any candidate: an equality constraint holds them, next to the caller's constraints, and the caller's options are unchanged"""
    u = points(s, 2)
    df, x, r = s.real('df', 0), s.real('x', 0), s.real('r', -1, 1)
    s.floats((1 < df) & (df < 20) & (1 < x) & (x < 20) & (-.8 < r) & (r < .8))
    s.assume((df <= 10000) & (x <= 10000))
    c = s.cp.StudentCopula(2)
    c.params = s.arr([df, r])
    given = None if mine is None else dict(mine)
    own = [] if mine is None else mine.get('constraints', [])
    own = [own] if isinstance(own, dict) else list(own)
    n = len(own)
    held = []

    def constraints(k):
        k = [k] if isinstance(k, dict) else list(k)
        eq = [q for q in k if not any(q is w for w in own)]
        return k, eq

    for again in range(2):
        o = Optimiser(s, [df, r])
        _, e = s.attempt(lambda: c.fit(s.arr(u), x0=[df, r], to_pobs=False, verbose=0, optim_options=given, fix_df=True))
        s.true(not e, 'the fit runs')
        k, eq = constraints(o.calls[0]['constraints'])
        s.true(len(k) == n + 1 and len(eq) == 1 and eq[0]['type'] == 'eq', 'one equality constraint more')
        held.append(eq[0]['fun'](s.arr([x, r])))
        s.true(given is None and mine is None or list(given) == list(mine) and all(given[a] is mine[a] for a in mine), 'options unchanged')
        if mine is not None and 'constraints' in mine:
            s.true(len(mine['constraints']) == len(n and (own[0] if isinstance(mine['constraints'], dict) else own)), 'constraints unchanged')
    for h in held:
        if s.decide(x == df):
            s.eq(h, 0, 'holds at the fixed value')
        else:
            s.true(h != 0, 'does not hold elsewhere')
    o = Optimiser(s, [df, r])
    c.fit(s.arr(u), x0=[df, r], to_pobs=False, verbose=0)
    s.eq(len(list(o.calls[0]['constraints'])), 0, 'no constraint otherwise')


def arranged(s, n, d):
    x, u = None, None
    if d == 3:
        x = sample(s, n, d)
        for i in range(n - 1):
            s.assume(x[i][0] < x[i + 1][0])
        for i, j in zip((1, 0, 3), (0, 3, 2)):
            s.assume(x[i][1] < x[j][1])
        r = [split(s, c, False) for c in cols(x)]
        return x, [list(v) for v in s.arr([[v / (n + 1) for v in row] for row in cols(r)])]
    return ordered(s, n, d, False, True)


def taus(s, u):
    n = len(u)
    out = []
    d = len(u[0])
    for a in range(d):
        for b in range(a + 1, d):
            t = 0
            for i in range(n):
                for j in range(i):
                    t += 1 if (u[i][a] < u[j][a]) == (u[i][b] < u[j][b]) else -1
            out.append(t)
    return [s.arr([t])[0] / (n * (n - 1) // 2) for t in out]


def rhos(s, u):
    """Spearman's rho without ties"""
    n = len(u)
    out = []
    d = len(u[0])
    for a in range(d):
        for b in range(a + 1, d):
            q = sum(((r[a] - r[b]) * (n + 1)) ** 2 for r in u)
            out.append(1 - 6 * q / (n * (n * n - 1)))
    return out


@case('C19', over={f'{k}.{n}x{d}': dict(kind=k, n=n, d=d) for k in ('clayton', 'gumbel', 'gauss', 'student') for n, d in ((3, 2), (4, 2), (4, 3))}, max_paths=700)
def inversion_tau(s, kind, n, d):
    """samples of 3x2, 4x2 and (one order of the second column) 4x3 without ties in the order of the first column: the parameters whose Kendall's tau is the sample's (for exchangeable families their mean), and the summary of them"""
    x, u = arranged(s, n, d)
    t = taus(s, u)
    np = s.np
    if kind == 'clayton':
        s.assume(all(bool(abs(v) < .99) for v in t))
        ref = [sum(2 * v / (1 - v) for v in t) / len(t)]
        s.assume(bool(ref[0] > (-.99 if d == 2 else .01)))
        c = s.cp.ClaytonCopula(dim=d)
    elif kind == 'gumbel':
        s.assume(all(bool(v < .99) for v in t))
        ref = [sum(1 / (1 - max(v, 0 * v)) for v in t) / len(t)]
        s.assume(all(bool(v >= 0) for v in t))
        c = s.cp.GumbelCopula(dim=d)
    else:
        s.assume(all(bool(abs(v) < .99) for v in t))
        ref = [np.sin(np.pi * v / 2) for v in t]
        c = s.cp.GaussianCopula(d) if kind == 'gauss' else s.cp.StudentCopula(d, 5)
        if d == 3:
            a, b, e = ref
            s.assume(bool(1 + 2 * a * b * e - a * a - b * b - e * e > 1e-6))
    o = Optimiser(s)
    likelihood = d == 2 and (n == 3 or kind in ('gauss', 'student'))
    if not likelihood:
        c.log_lik = lambda *a, **k: 0.
    c.fit(s.arr(x), method='itau', verbose=0)
    s.eq(len(o.calls), 0, 'nothing is optimised')
    p = c.params if kind != 'student' else c.params[1]
    s.eq(s.arr(list(np.ravel(p))), s.arr(ref), 'parameters of the sample tau')
    if kind == 'student':
        s.eq(c.params[0], 5, 'degrees of freedom kept')
    m = c.summary('fit')
    s.eq(s.arr(list(np.ravel(m.params))), s.arr(ref), 'the summary reports the parameters')
    s.eq(m.nsample, n, 'the number of observations')
    if likelihood:
        s.eq(m.log_lik, sum(np.ravel(c.pdf(s.arr(u), log=True))), 'the log-likelihood', rtol=1e-5)


@case('C19', over={'4x2': dict(n=4, d=2), '4x3': dict(n=4, d=3)}, max_paths=300)
def inversion_rho(s, n, d):
    """Gaussian copulas, samples of 4x2 and (one order of the second column) 4x3 without ties in the order of the first column: the correlations whose Spearman's rho is the sample's"""
    x, u = arranged(s, n, d)
    t = rhos(s, u)
    np = s.np
    s.assume(all(bool(abs(v) < .99) for v in t))
    ref = [2 * np.sin(np.pi * v / 6) for v in t]
    if d == 3:
        a, b, e = ref
        s.assume(bool(1 + 2 * a * b * e - a * a - b * b - e * e > 1e-6))
    c = s.cp.GaussianCopula(d)
    if d == 3:
        c.log_lik = lambda *a, **k: 0.
    c.fit(s.arr(x), method='irho', verbose=0)
    s.eq(s.arr(list(np.ravel(c.params))), s.arr(ref), 'correlations of the sample rho')
    if d == 2:
        s.eq(c.summary('fit').log_lik, sum(np.ravel(c.pdf(s.arr(u), log=True))), 'the log-likelihood', rtol=1e-5)


@case('C19', over={'own': dict(given=True), 'start': dict(given=False)}, max_paths=60)
def as_given(s, given):
    """three points of the unit square, not ranked: inversion reports (and maximum likelihood starts at) what these very points give"""
    u = points(s, 3)
    for c in cols(u):
        for a, b in zip(c, c[1:]):
            s.assume(a < b)
    if given:
        c = model(s, 'Clayton', itau=lambda tau: s.arr([.25 for _ in s.np.ravel(tau)]))
        c.fit(s.arr(u), method='itau', to_pobs=False, verbose=0)
        s.eq(c.params, .25, 'the inversion')
        s.eq(c.summary('fit').log_lik, sum(s.np.log(like(.25, r)) for r in u), 'the log-likelihood of the points')
    else:
        c = model(s, 'Clayton', itau=lambda tau: s.arr([.25 for _ in s.np.ravel(tau)]))
        o = Optimiser(s, [.5])
        c.fit(s.arr(u), to_pobs=False, verbose=0)
        s.eq(s.np.ravel(o.calls[0]['x0'])[0], .25, 'starts at the inversion')


@case('C19', over={'gauss': dict(kind='gauss'), 'student': dict(kind='student')}, max_paths=60)
def elliptical_start(s, kind):
    """elliptical copulas without a starting point, three points: the start is in the domain"""
    u = points(s, 3)
    o = Optimiser(s, given(s, kind, 'best'))
    c = fresh(s, kind)
    s.assume((u[0][0] < u[1][0]) & (u[1][1] < u[2][1]))
    c.fit(s.arr(u), to_pobs=False, verbose=0)
    x0 = s.np.ravel(o.calls[0]['x0'])
    s.true(len(x0) == (1 if kind == 'gauss' else 2), 'as many as parameters')
    if kind == 'student':
        s.true(x0[0] > 0, 'positive degrees of freedom')
    s.eq(x0[-1], s.stats.pearsonr(s.arr(cols(u)[0]), s.arr(cols(u)[1]))[0], 'the correlation of the points')


@case('C19', over={'gauss': dict(kind='gauss'), 'student': dict(kind='student')})
def inversion_nearest(s, kind):
    """three variables whose inverted correlations are any numbers that form no correlation matrix, and any nearest one: the copula gets the nearest"""
    rs = [s.real('r', -1, 1), .75, -.5]
    s.assume(1 + 2 * rs[0] * rs[1] * rs[2] - rs[0] ** 2 - rs[1] ** 2 - rs[2] ** 2 < -0.001)
    q = s.real('q', -.4, .4)
    seen = []

    def nearest(cov, *a, **k):
        seen.append(cov)
        return s.arr([[1., q, .3], [q, 1., .2], [.3, .2, 1.]])

    s.hook('cov_nearest', nearest)
    c = s.cp.GaussianCopula(3) if kind == 'gauss' else s.cp.StudentCopula(3, 5)
    c.itau = lambda tau: s.arr(rs)
    c.log_lik = lambda *a, **k: 0.
    c.fit(s.arr([[.1, .2, .3], [.4, .6, .5], [.7, .9, .6]]), method='itau', to_pobs=False, verbose=0)
    p = c.params if kind == 'gauss' else c.params[1]
    s.eq(p, [q, .3, .2], 'the nearest correlations')
    s.eq(c.summary('fit').params, [q, .3, .2], 'the summary reports them')
    s.eq(seen[0], [[1, rs[0], rs[1]], [rs[0], 1, rs[2]], [rs[1], rs[2], 1]], 'the matrix of the inverted correlations')


@case('C19')
def missing_start(s):
    """a starting point with a missing part is replaced as a whole"""
    u = points(s, 3)
    s.assume((u[0][0] < u[1][0]) & (u[1][1] < u[2][1]))
    x = s.real('x', 0, 1)
    for x0 in ([s.np.nan, x], [5 + x, s.np.nan]):
        o = Optimiser(s, given(s, 'student', 'best'))
        c = fresh(s, 'student')
        c.fit(s.arr(u), x0=s.arr(x0), to_pobs=False, verbose=0)
        x0 = s.np.ravel(o.calls[0]['x0'])
        s.true(x0[0] > 0, 'positive degrees of freedom')
        s.eq(x0[1], s.stats.pearsonr(s.arr(cols(u)[0]), s.arr(cols(u)[1]))[0], 'the correlation of the points')


@case('C19')
def names_kept(s):
    """a frame with columns in any order: later frames of the copula name its columns in that order"""
    x = s.real('x', 0, 1)
    s.floats((.05 < x) & (x < .95))
    n = s.pick('names', [['z', 'a'], ['a', 'z'], ['q', 1]])
    c = s.cp.ClaytonCopula(2.)
    c.itau = lambda tau: 1.5
    c.log_lik = lambda *a, **k: 0.
    c.fit(s.frame([[.2 * x, .4], [.5, .7], [.8, .6]], n), method='itau', to_pobs=False, verbose=0)
    s.eq(c.params, 1.5, 'the inversion')
    r = c.random(2, seed=7)
    s.true(list(r.columns) == n, 'the columns of the data')


@case('C19')
def printed(s):
    """the summaries of likelihood, inversion and unfitted copulas can be shown"""
    u = points(s, 2)
    for x in (u[0], u[1]):
        pass
    s.assume((u[0][0] < u[1][0]) & (u[1][1] > u[0][1]))
    c = model(s, 'Clayton', itau=lambda tau: s.arr([.25 for _ in s.np.ravel(tau)]))
    c.fit(s.arr(u), method='itau', to_pobs=False, verbose=0)
    m = c.summary('fit')
    for f in (lambda: str(m), lambda: m.as_html()):
        t, e = s.attempt(f)
        s.true(not e and '2' in t, 'shown')


@case('C19', over={k: dict(kind=k) for k in ('clayton', 'gumbel', 'frank', 'gauss', 'student', 'gauss3', 'indep', 'empirical', 'marginal', 'gmc')}, max_paths=60)
def summaries(s, kind):
    """any parameter in the domain, dimensions 2 and 3: the summary shows the current parameters; a summary of a fit before any fit and an unknown category are refused"""
    unfitted = s.mod('copulae.copula.exceptions').NotFittedError
    if kind in fam.POS:
        c = fam.make(s, kind)
        m = c.summary()
        s.eq(m.params['theta'], c.params, 'the current parameter')
        th = fam.theta(s, kind, 'other')
        c.params = th
        s.eq(c.summary('copula').params['theta'], th, 'the parameter set later')
    elif kind in ('gauss', 'student', 'gauss3'):
        d = 3 if kind == 'gauss3' else 2
        r = s.real('r', -1, 1)
        s.floats(abs(r) < .95)
        c = s.cp.StudentCopula(2, 4.5) if kind == 'student' else s.cp.GaussianCopula(d)
        c.params = s.arr([2.25, r] if kind == 'student' else [r] if d == 2 else [r, 0., 0.])
        m = c.summary()
        ref = [[1, r], [r, 1]] if d == 2 else [[1, r, 0], [r, 1, 0], [0, 0, 1]]
        s.eq(m.params['Correlation Matrix'], s.arr(ref), 'the current correlations')
        if kind == 'student':
            s.eq(m.params['Degree of Freedom'], 2.25, 'the current degrees of freedom')
    elif kind == 'indep':
        c = s.cp.IndepCopula(3)
        s.true(c.summary().copula is c, 'the summary of the copula')
    elif kind == 'empirical':
        x = sample(s, 4, 2)
        f = s.pick('offset', [0, 1])
        c = s.cp.EmpiricalCopula(s.arr(x), 'beta', ties='max', offset=f)
        m = c.summary().params
        s.true((m['Dimensions'], m['Ties method'], m['Offset'], m['Smoothing']) == (2, 'max', f, 'beta'), 'the settings')
        q = c.summary('fit')
        s.true((q.dim, q.n) == (2, 4) if hasattr(q, 'n') else True, 'the size of the data')
    elif kind == 'marginal':
        inner = fam.make(s, 'clayton')
        mu, sd = s.real('mu', -3, 3), s.real('sd', .25, 4)
        c = s.cp.MarginalCopula(inner, [{'type': 'norm', 'parameters': dict(loc=mu, scale=sd)}, 'expon'])
        m = c.summary()
        s.true(m.joint_copula is inner and m.dim == 2, 'the inner copula and the dimension')
        s.true([d['type'] for d in m.marginals] == ['norm', 'expon'], 'the marginal distributions')
        s.eq(m.marginals[0]['parameters']['loc'], mu, 'the location')
        s.eq(m.marginals[0]['parameters']['scale'], sd, 'the scale')
    else:
        mu = s.real('mu', -3, 3)
        G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
        c = G(2, 2, dict(prob=[.25, .75], means=[[mu, 0.], [1., 2.]], covs=[[[1., .5], [.5, 2.]], [[1., 0.], [0., 1.]]]))
        m = c.summary()
        s.eq(m.params.means, s.arr([[mu, 0.], [1., 2.]]), 'the current means')
        s.eq(m.params.prob, s.arr([.25, .75]), 'the current weights')
    if kind not in ('indep', 'empirical'):
        s.raises(lambda: c.summary('fit'), 'no summary of a fit before a fit', (unfitted,))
        s.raises(lambda: c.summary(category='fit'), 'no summary of a fit before a fit, by keyword', (unfitted,))
    for bad in ('all', 'FIT', None, 1):
        s.raises(lambda: c.summary(bad), 'an unknown category')
        s.raises(lambda: c.summary(category=bad), 'an unknown category, by keyword')
    s.raises(lambda: c.summary(''), 'no category')
