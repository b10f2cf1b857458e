"""C15 Margins composed with a dependence structure."""
from engine.registry import case

from . import fam
from .c06 import minors
from .ranks import *

# (type, shape parameters, support from loc on?)
DIST = {'norm': ('norm', (), None), 't': ('t', ('df',), None), 'expon': ('expon', (), 0), 'uniform': ('uniform', (), (0, 1)),
        'logistic': ('logistic', (), None), 'gamma': ('gamma', ('a',), 0), 'lognorm': ('lognorm', ('s',), 0)}


def margin(s, kind, i):
    """a margin of a kind with any location, scale and shape: (type name, parameters)"""
    name, shapes, _ = DIST[kind]
    par = {}
    for a in shapes:
        v = s.real(f'{a}{i}', 0)
        s.floats((1 < v) & (v < 6))
        par[a] = v
    loc, scale = s.real(f'loc{i}'), s.real(f'scale{i}', 0)
    s.floats((-2 < loc) & (loc < 2))
    s.floats((.4 < scale) & (scale < 3))
    par['loc'], par['scale'] = loc, scale
    return name, par


def point(s, kind, par, name):
    """a point inside the support"""
    sup = DIST[kind][2]
    if sup is None:
        z = s.real(name)
        s.floats((-3 < z) & (z < 3))
    elif sup == 0:
        z = s.real(name, 0)
        s.floats((.02 < z) & (z < 4))
    else:
        z = s.real(name, 0, 1)
        s.floats((.02 < z) & (z < .98))
    return par['loc'] + par['scale'] * z


def inner(s, kind, d):
    if kind in fam.FAMS:
        return fam.make(s, kind, d)
    if kind == 'indep':
        return s.cp.IndepCopula(d)
    c = s.cp.GaussianCopula(d) if kind == 'gauss' else s.cp.StudentCopula(d, 4)
    k = d * (d - 1) // 2
    r = s.reals('r', 1, -1, 1)
    s.floats((-.9 < r[0]) & (r[0] < .9))
    rest = [.3, -.2][:k - 1]
    if d == 3:
        m = [[1, r[0], rest[0]], [r[0], 1, rest[1]], [rest[0], rest[1], 1]]
        for x in minors(m):
            s.assume(x > .05)
    if kind == 'gauss':
        c.params = s.arr(r + rest)
    else:
        c.params = s.arr([4] + r + rest)
    return c


def dist(s, name):
    return getattr(s.stats, name)


def build(s, kind, kinds, objects=False):
    c = inner(s, kind, len(kinds))
    ms = [margin(s, k, i) for i, k in enumerate(kinds)]
    arg = [{'type': dist(s, n) if objects else n, 'parameters': dict(p)} for n, p in ms]
    return c, ms, s.cp.MarginalCopula(c, arg)


MIX = {'gauss': dict(kind='gauss', kinds=('t', 'norm', 'expon')), 'clayton': dict(kind='clayton', kinds=('expon', 'uniform')),
       'frank': dict(kind='frank', kinds=('norm', 'uniform')), 'indep': dict(kind='indep', kinds=('lognorm', 't')),
       'gammas': dict(kind='indep', kinds=('gamma', 'norm', 'uniform')), 'student': dict(kind='student', kinds=('norm', 'expon')), 'gumbel': dict(kind='gumbel', kinds=('uniform', 'logistic')),
       '+gauss2': dict(kind='gauss', kinds=('expon', 'gamma')), 'clayton3': dict(kind='clayton', kinds=('t', 'lognorm', 'uniform'))}


def at(s, ms, x, f):
    return [getattr(dist(s, n), f)(v, **p) for v, (n, p) in zip(x, ms)]


@case('C15', over=MIX)
def compose(s, kind, kinds):
    """any inner parameter (elliptical in three dimensions: one free correlation), any location, scale and shape of every margin, any two points inside the support"""
    c, ms, m = build(s, kind, kinds)
    n = 2 if len(kinds) == 2 and kind != 'frank' else 1
    xs = [[point(s, k, p, f'z{i}_{j}') for j, (k, (_, p)) in enumerate(zip(kinds, ms))] for i in range(n)]
    us = [at(s, ms, x, 'cdf') for x in xs]
    for u in us:
        for v in u:
            s.floats((.001 < v) & (v < .999))
    if kind not in ('gauss', 'student'):
        s.eq(m.cdf(s.arr(xs)), c.cdf(s.arr(us)), 'distribution function')
        s.eq(m.cdf(s.arr(xs), True), c.cdf(s.arr(us), True), 'logarithm of the distribution function')
    d = []
    ld = []
    for x in xs:
        f, g = at(s, ms, x, 'pdf'), at(s, ms, x, 'logpdf')
        p, q = f[0], g[0]
        for a, b in zip(f[1:], g[1:]):
            p, q = p * a, q + b
        d.append(p)
        ld.append(q)
    a, b = m.pdf(s.arr(xs)), m.pdf(s.arr(xs), log=True)
    e, f = c.pdf(s.arr(us)), c.pdf(s.arr(us), log=True)
    if n == 1:
        s.eq(a, e * d[0], 'density')
        s.eq(b, f + ld[0], 'logarithm of the density')
    else:
        s.eq(len(a), n, 'one density per point')
        for i in range(n):
            s.eq(a[i], e[i] * d[i], 'density')
            s.eq(b[i], f[i] + ld[i], 'logarithm of the density')
        s.eq(m.pdf(s.arr(xs[1])), e[1] * d[1], 'a single point')


@case('C15', over={'gauss': dict(kind='gauss'), 'student': dict(kind='student')})
def elliptical_cdf(s, kind):
    """normal and exponential margins over an elliptical copula in two dimensions: any parameters, any point of the interior"""
    if kind == 'student':
        return
    c, ms, m = build(s, kind, ('norm', 'expon'))
    x = [point(s, k, p, f'z{j}') for j, (k, (_, p)) in enumerate(zip(('norm', 'expon'), ms))]
    u = at(s, ms, x, 'cdf')
    s.eq(m.cdf(s.arr(x)), c.cdf(s.arr(u)), 'distribution function', rtol=1e-4, atol=1e-5)


@case('C15', over={'2': dict(d=2), '3': dict(d=3)})
def integers(s, d):
    """any whole numbers from 0 to 3 as an integer array, an object list or floats"""
    c = inner(s, 'clayton', d)
    m = s.cp.MarginalCopula(c, ['norm', {'type': 't', 'parameters': {'df': 3}}, 'logistic'][:d])
    k = [[s.integer(f'k{i}_{j}', 0, 3 if d == 2 else 1) for j in range(d)] for i in range(2 if d == 2 else 1)]
    x = [[v + s.arr([0.])[0] for v in r] for r in k]
    for f in ('cdf', 'pdf'):
        for log in (False, True):
            ref = getattr(m, f)(s.arr(x), log)
            s.same(getattr(m, f)(s.arr(k, int), log), ref, f'{f} of an integer array')
            s.same(getattr(m, f)(k, log), ref, f'{f} of a list of whole numbers')


@case('C15', over={k: v for k, v in MIX.items() if k in ('clayton', 'gauss', 'indep')} | {'student': dict(kind='student', kinds=('norm', 'uniform'))})
def samples(s, kind, kinds):
    """any margins, two draws with seed 5: the inner sample with the same seed through the quantile functions"""
    s.rng()
    c, ms, m = build(s, kind, kinds)
    u = c.random(2, 5)
    x = m.random(2, 5)
    s.eq(x.shape[0], 2, 'rows')
    s.eq(x.shape[1], len(kinds), 'columns')
    for i in range(2):
        for j, (n, p) in enumerate(ms):
            s.eq(x[i, j], dist(s, n).ppf(u[i, j], **p), 'quantile of the inner sample')


@case('C15', over={'frame': dict(n=2), 'one': dict(n=1)})
def samples_of_a_fitted_copula(s, n):
    """inner copula with named columns: any uniform draws"""
    s.rng()
    c = s.cp.IndepCopula(2, ['a', 'b'])
    ms = [margin(s, k, i) for i, k in enumerate(('norm', 'expon'))]
    m = s.cp.MarginalCopula(c, [{'type': t, 'parameters': dict(p)} for t, p in ms])
    u = s.arr(c.random(n, 3))
    x = s.arr(m.random(n, 3))
    for i in range(n):
        for j, (t, p) in enumerate(ms):
            s.eq(s.arr(x)[i, j], dist(s, t).ppf(u[i, j], **p), 'quantile of the inner sample')


@case('C15')
def forms(s):
    """any location and scale: distribution objects, names with capitals and aliases, a single description for every column"""
    p = {'loc': s.real('loc'), 'scale': s.real('scale', 0)}
    s.floats((-2 < p['loc']) & (p['loc'] < 2))
    s.floats((.4 < p['scale']) & (p['scale'] < 3))
    th = fam.theta(s, 'clayton')
    x = [s.real('x'), s.real('y')]
    for v in x:
        s.floats((-3 < v - p['loc']) & (v - p['loc'] < 3))
    C = lambda: s.cp.ClaytonCopula(th)
    M = s.cp.MarginalCopula
    d = {'type': 'norm', 'parameters': dict(p)}
    ref = M(C(), [d, d]).pdf(s.arr(x))
    u = [s.stats.norm.cdf(v, p['loc'], p['scale']) for v in x]
    for v in u:
        s.floats((.001 < v) & (v < .999))
    s.eq(ref, C().pdf(s.arr(u)) * s.stats.norm.pdf(x[0], **p) * s.stats.norm.pdf(x[1], **p), 'reference')
    for label, arg in [('single dictionary', d), ('tuple', (d, d)), ('object', {'type': s.stats.norm, 'parameters': dict(p)}),
                       ('alias', {'type': 'Gaussian', 'parameters': dict(p)}), ('alias', {'type': ' normal ', 'parameters': dict(p)})]:
        s.eq(M(C(), arg).pdf(s.arr(x)), ref, label)
    for a, b in [('student', 't'), ('exp', 'expon'), ('NORM', 'norm'), ('logistic', 'logistic')]:
        for arg in (a, [a, a], {'type': a}, [{'type': a}, a]):
            for det in M(C(), arg).params['marginals']:
                s.true(det['type'] == b, 'name of the margin')
    s.true(d == {'type': 'norm', 'parameters': p} and set(d['parameters']) == {'loc', 'scale'}, 'description left alone')
    d = {'type': 't', 'parameters': {'loc': p['loc']}}
    m = M(C(), d)
    s.true(set(d['parameters']) == {'loc'}, 'description left alone')
    d['parameters']['loc'] = 100
    s.eq(m.params['marginals'][0]['parameters']['loc'], p['loc'], 'later changes of the description have no effect')


@case('C15', over={'a': dict(kinds=('t', 'norm')), 'b': dict(kinds=('expon', 'gamma', 'lognorm')), 'c': dict(kinds=('uniform', 'logistic'))})
def reported(s, kinds):
    """any margins: the parameters reported are those of the margins, in order"""
    c, ms, m = build(s, 'indep', kinds, objects=True)
    r = m.params['marginals']
    s.eq(len(r), len(kinds), 'one per column')
    for (n, p), g in zip(ms, r):
        s.true(g['type'] == n, 'type')
        s.true(set(g['parameters']) == set(p), 'names of the parameters')
        for k in p:
            s.eq(g['parameters'][k], p[k], f'parameter {k}')
    g = s.cp.MarginalCopula(c, [{'type': n} for n, _ in ms]).params['marginals']
    for (n, p), v in zip(ms, g):
        s.eq(v['parameters']['loc'], 0, 'default location')
        s.eq(v['parameters']['scale'], 1, 'default scale')


@case('C15', over={'2': dict(kinds=('norm', 'expon')), '3': dict(kinds=('expon', 'norm', 'uniform')), 'int': dict(kinds=('norm', 'norm'), whole=True)})
def fit(s, kinds, whole=False):
    """any data of three rows, margins with a closed-form maximum likelihood estimate; the inner fit is a stand-in that records what it is given"""
    d = len(kinds)
    x = [[s.integer(f'x{i}_{j}', 0, 2) for j in range(d)] for i in range(3)] if whole else sample(s, 3, d)
    if not whole:
        for j in range(d):
            s.assume(x[0][j] < x[1][j])
            s.assume(x[1][j] < x[2][j])
            s.floats((x[1][j] - x[0][j] > .05) & (x[2][j] - x[0][j] < 5) & (x[0][j] > -3) & (x[2][j] < 3))
    else:
        for j in range(d):
            s.assume(x[0][j] < x[2][j])
    c = s.cp.ClaytonCopula(2., dim=d)
    seen = []
    orig = c.fit

    def record(*a, **k):
        names = ('data', 'x0', 'method', 'optim_options', 'ties', 'verbose', 'to_pobs', 'scale')
        seen.append(dict(dict(zip(names, a)), **k))
        return c

    c.fit = record
    m = s.cp.MarginalCopula(c, [{'type': k} for k in kinds])
    data = s.arr(x, int) if whole else s.arr(x)
    r = m.fit(data, [1.5], method='itau', verbose=0, optim_options={'maxiter': 7}, ties='max', to_pobs=bool(whole), scale=2.)
    s.true(r is m, 'fit returns the copula')
    s.eq(len(seen), 1, 'the inner copula is fitted once')
    g = seen[0]
    s.same(g['data'], s.arr(x), 'data of the inner fit')
    s.true((g.get('method'), g.get('verbose'), g.get('ties'), g.get('to_pobs'), g.get('scale'), g.get('x0'), g.get('optim_options'))
           == ('itau', 0, 'max', bool(whole), 2., [1.5], {'maxiter': 7}), 'options of the inner fit')
    for j, (k, det) in enumerate(zip(kinds, m.params['marginals'])):
        s.true(det['type'] == k, 'type of the margin')
        v = [r[j] for r in s.arr(x)]
        mean = (v[0] + v[1] + v[2]) / 3
        lo, hi = min(v) if whole else v[0], max(v) if whole else v[2]
        if k == 'norm':
            want = (mean, s.np.sqrt(sum((a - mean) ** 2 for a in v) / 3))
        elif k == 'expon':
            want = (lo, mean - lo)
        else:
            want = (lo, hi - lo)
        s.eq(det['parameters']['loc'], want[0], 'location of the margin')
        s.eq(det['parameters']['scale'], want[1], 'scale of the margin')


@case('C15')
def refused(s):
    """wrong numbers of margins, unknown names, frozen distributions, wrong shapes of the data: any numbers"""
    a = s.reals('a', 6)
    M = s.cp.MarginalCopula
    c = s.cp.ClaytonCopula(2.)
    for bad in (['norm'], ['norm'] * 3, 'no such distribution', [1, 2], 3.5, [{'parameters': {}}, 'norm'],
                [{'type': s.stats.norm(0, 1)}, 'norm'], {'type': 'poisson'}, {'type': 'rankdata'}):
        s.raises(lambda: M(c, bad), f'margins {bad if isinstance(bad, (str, float)) else len(bad)}')
    m = M(c, 'norm')
    for f in (m.cdf, m.pdf):
        s.raises(lambda: f(s.arr(a[:3])), 'three coordinates')
        s.raises(lambda: f(s.arr([a[:3], a[3:]])), 'three columns')
        s.raises(lambda: f(s.arr([[[a[0], a[1]]]])), 'three axes')
    s.raises(lambda: m.fit(s.arr(a)), 'data without columns')
    s.raises(lambda: m.fit(s.arr([a[:3], a[3:]])), 'three columns of data')
