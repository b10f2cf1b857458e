"""C18 Random generation."""
from engine.registry import case

from . import fam
from .c13 import cov, diag, means, param, weights
from .c16 import NAMES, build
from .ranks import *

SEED = ('seed', 7)


def uniforms(s, n, d):
    """the first n x d uniform draws after seeding"""
    return [[s.draw('U', i * d + j, SEED) for j in range(d)] for i in range(n)]


def away(s, th, b=0):
    """the code takes parameters within 1e-7 (Gumbel: 1e-5) of independence for independence"""
    s.assume(abs(th - b) > 1e-4)


def near(s, us):
    for r in us:
        for u in r:
            s.floats((.05 < u) & (u < .95))


def conditional(s, kind, th, u, x):
    """distribution function of the second coordinate given the first, textbook form"""
    np = s.np
    e, a, b = np.exp(-th) - 1, np.exp(-th * u) - 1, np.exp(-th * x) - 1
    return np.exp(-th * u) * b / (e + a * b)


@case('C18', over={k: dict(kind=k) for k in ('clayton', 'clayton-', 'frank', 'frank-')}, max_paths=60)
def bivariate(s, kind):
    """any parameter further than 0.0001 from independence (Clayton: positive or negative), any uniform draws, two rows: the first coordinate is a draw, and the second has the conditional probability of another draw (Frank with positive parameter: of its complement)"""
    s.rng()
    th = fam.theta(s, kind)
    away(s, th)
    c = fam.cls(s, kind)(th, dim=2)
    u = uniforms(s, 2, 2)
    near(s, u)
    r = c.random(2, 7)
    s.true(s.np.shape(r) == (2, 2), 'shape')
    for i in range(2):
        s.eq(r[i, 0], u[i][0], 'the first coordinate is uniform')
        if kind == 'clayton-':
            # the conditional probability exists where the second coordinate is positive
            s.floats(r[i, 1] > .001)
            s.le(0, r[i, 1], 'in the unit interval')
        if kind[0] == 'c':
            # the conditional probability u^(-th-1) (u^-th + x^-th - 1)^(-1/th-1) is w when the bracket is b
            v, w = u[i]
            b = v ** -th * w ** (-th / (th + 1))
            s.eq(v ** -th + r[i, 1] ** -th - 1, b, 'the second coordinate has the conditional distribution', rtol=1e-5)
            continue
        s.eq(conditional(s, kind, th, u[i][0], r[i, 1]), 1 - u[i][1] if kind == 'frank' else u[i][1], 'the second coordinate has the conditional distribution', rtol=1e-5)


@case('C18')
def countermonotone(s):
    """Clayton with parameter -1: the second coordinate is one minus the first"""
    s.rng()
    u = uniforms(s, 2, 2)
    for t in (-1, -1.):
        r = s.cp.ClaytonCopula(t, 2).random(2, 7)
        for i in range(2):
            s.eq(r[i, 0], u[i][0], 'the first coordinate')
            s.eq(r[i, 1], 1 - u[i][0], 'the second coordinate')


@case('C18', over={'3': dict(d=3), '4': dict(d=4)})
def clayton_frailty(s, d):
    """dimension 3 and 4, two rows: any positive parameter from 0.0001 on, any uniform and gamma draws: inverse Laplace transform of the gamma frailty"""
    s.rng()
    th = fam.theta(s, 'clayton')
    away(s, th)
    c = s.cp.ClaytonCopula(th, d)
    u = uniforms(s, 2, d)
    near(s, u)
    r = c.random(2, 7)
    s.true(s.np.shape(r) == (2, d), 'shape')
    for i in range(2):
        g = s.gam(2 * d + i, 1 / th, SEED)
        for j in range(d):
            s.eq(r[i, j], (1 - s.np.log(u[i][j]) / g) ** (-1 / th), 'coordinates are independent given a gamma frailty')


def log_series(s, q, v):
    """frailty given q = 1 - exp(-theta U): geometric with ratio q"""
    if s.decide(v > q):
        return 1
    if s.decide(v >= q * q):
        return 2
    return 1 + s.np.floor(s.np.log(v) / s.np.log(q))


@case('C18', over={'3': dict(d=3, n=1), 'two': dict(d=3, n=2), '+4': dict(d=4, n=1)}, max_paths=300)
def frank_frailty(s, d, n):
    """dimension 3 (thorough: 4), one and two rows: any positive parameter from 0.0001 on, any uniform draws: inverse Laplace transform of the logarithmic series frailty, drawn as a geometric mixture"""
    s.rng()
    th = s.real('th', 0)
    away(s, th)
    s.floats((.3 < th) & (th < 60))
    c = s.cp.FrankCopula(th, d)
    u = uniforms(s, n, d)
    near(s, u)
    k = n * d
    v, w = [s.draw('U', k + i, SEED) for i in range(n)], [s.draw('U', k + n + i, SEED) for i in range(n)]
    near(s, [v, w])
    r = c.random(n, 7)
    s.true(s.np.shape(r) == (n, d), 'shape')
    for i in range(n):
        s.assume(v[i] < 1 - s.np.exp(-th))
        q = 1 - s.np.exp(-th * w[i])
        f = log_series(s, q, v[i])
        for j in range(d):
            e = -s.np.log(u[i][j]) / f
            s.eq(r[i, j], -s.np.log(1 - s.np.exp(-e) * (1 - s.np.exp(-th))) / th, 'coordinates are independent given a logarithmic series frailty', rtol=1e-5)


@case('C18', max_paths=300)
def frank_frailty_one(s):
    """the frailty is 1 when the first draw exceeds the series parameter"""
    s.rng()
    th = s.real('th', 0)
    away(s, th)
    s.floats((.05 < th) & (th < 2))
    u = uniforms(s, 1, 3)
    near(s, u)
    v = s.draw('U', 3, SEED)
    s.assume(v > 1 - s.np.exp(-th))
    r = s.cp.FrankCopula(th, 3).random(1, 7)
    for j in range(3):
        s.eq(r[0, j], -s.np.log(1 - u[0][j] * (1 - s.np.exp(-th))) / th, 'coordinates are independent given frailty 1', rtol=1e-5)


@case('C18', over={'2': dict(d=2), '3': dict(d=3)}, max_paths=60)
def gumbel_frailty(s, d):
    """dimension 2 and 3, two rows: any parameter further than 0.0001 from independence, any uniform and exponential draws: inverse Laplace transform of the positive stable frailty in Kanter's form"""
    s.rng()
    np = s.np
    th = fam.theta(s, 'gumbel')
    away(s, th, 1)
    s.floats(th < 4)
    c = s.cp.GumbelCopula(th, d)
    n = 2
    u = uniforms(s, n, d)
    near(s, u)
    k = n * d
    a = 1 / th
    fs = []
    for i in range(n):
        t, w = np.pi * (s.draw('U', k + i, SEED) - .5), s.draw('E', k + n + i, SEED)
        s.floats((.1 < w) & (w < 3) & (-1.4 < t) & (t < 1.4))
        s.assume((s.draw('U', k + i, SEED) > 0) & (w > 0))
        b = a * (t + np.pi / 2)
        fs.append(np.sin(b) / np.cos(t) ** (1 / a) * (np.cos(t - b) / w) ** ((1 - a) / a))
    r = c.random(n, 7)
    s.true(s.np.shape(r) == (n, d), 'shape')
    for i in range(n):
        for j in range(d):
            s.eq(r[i, j], np.exp(-(-np.log(u[i][j]) / fs[i]) ** a), 'coordinates are independent given a positive stable frailty', rtol=1e-5)


@case('C18', over={f'{k}.{d}': dict(kind=k, d=d) for k in ('indep', 'clayton', 'frank') for d in (2, 3)})
def independent(s, kind, d):
    """independence copula and Clayton and Frank copulas with parameter 0, one to three rows: the sample is the uniform draws row by row"""
    s.rng()
    c = s.cp.IndepCopula(d) if kind == 'indep' else fam.cls(s, kind)(0., dim=d)
    n = s.pick('rows', [1, 2, 3])
    r = c.random(n, 7)
    s.same(r, s.arr(uniforms(s, n, d)), 'the draws row by row')


@case('C18', over={f'{k}.{d}': dict(kind=k, d=d) for k in ('gauss', 'student') for d in (2, 3)} | {'limit': dict(kind='limit', d=2)})
def elliptical(s, kind, d):
    """dimension 2 and 3 (one free correlation), one to three rows: any joint normal (and chi-square) draws, any degrees of freedom: margins of the joint normal vector, divided by the root of the chi-square draw over its degrees of freedom"""
    s.rng()
    n = s.pick('rows', [1, 2, 3])
    r = s.real('r', -1, 1)
    s.floats((-.9 < r) & (r < .9))
    rs = [r] + [.0, .0][:d * (d - 1) // 2 - 1]
    m = [[1. if i == j else (r if {i, j} == {0, 1} else .0) for j in range(d)] for i in range(d)]
    if kind == 'gauss':
        c = s.cp.GaussianCopula(d)
        c.params = s.arr(rs)
        df = None
    else:
        df = s.real('df', 0) if kind == 'student' else 1e6
        if kind == 'student':
            s.floats((1 < df) & (df < 30))
        c = s.cp.StudentCopula(d)
        c.params = s.arr([df] + rs)
    x = c.random(n, 7)
    s.true(s.np.shape(x) == (n, d), 'shape')
    k = n if kind == 'student' else 0
    if kind == 'student':
        s.assume(df <= 10000)
    z = s.stats.norm if kind == 'gauss' else s.stats.t
    for i in range(n):
        for j in range(d):
            g = s.gauss(j, k + i * d + j, [0.] * d, m, SEED)
            if kind == 'student':
                g = g / s.np.sqrt(s.chi2(i, df, SEED) / df)
            s.eq(x[i, j], z.cdf(g) if kind == 'gauss' else z.cdf(g, df), 'margin of the joint draw')


@case('C18', over={'2': dict(n=2), '1': dict(n=1), '+3': dict(n=3)}, max_paths=60)
def mixture(s, n):
    """2 clusters in 2 dimensions, one to three rows, any weights, means and covariance: clusters are chosen with the weights, rows are draws of the chosen cluster through the marginal distribution functions"""
    s.rng()
    p, mu = weights(s, 2), means(s, 2, 2)
    cv = [cov(s, 2, 'c0'), diag(2, [1., 2.])]
    g = param(s, 2, 2, p, mu, cv)
    c = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula(2, 2, g)
    x = c.random(n, 7)
    s.true(s.np.shape(x) == (n, 2), 'shape')
    ch = s.choices()
    s.true(len(ch) == 1 and ch[0] is not None, 'one choice of clusters')
    s.same(s.arr(ch[0]), s.arr(p), 'clusters are chosen with the weights')
    who = [0 if s.decide(s.draw('I0-1', i, SEED) == 0) else 1 for i in range(n)]
    F = s.mod('copulae.mixtures.gmc.marginals').gmm_marginal_cdf
    k = n
    z = [None] * n
    for m in range(2):
        for i in range(n):
            if who[i] == m:
                z[i] = [s.gauss(j, k + j, mu[m], cv[m], SEED) for j in range(2)]
                k += 2
    s.same(x, F(s.arr(z), g), 'rows of the chosen clusters through the marginal distribution functions')


def sampled(s, kind):
    if kind == 'gumbel3':
        th = fam.theta(s, 'gumbel')
        away(s, th, 1)
        s.floats(th < 5)
        return s.cp.GumbelCopula(th, 3), 3
    if kind == 'frank3':
        return s.cp.FrankCopula(2., 3), 3
    if kind == 'clayton3':
        return s.cp.ClaytonCopula(fam.theta(s, 'clayton'), 3), 3
    if kind == 'gmc2':
        G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
        return G(2, 2, dict(prob=[.4, .6], means=[[0., 1.], [2., 3.]], covs=[diag(2, [1., 1.])] * 2)), 2
    if kind == 'gumbel':
        th = fam.theta(s, 'gumbel')
        away(s, th, 1)
        s.floats(th < 5)
        return s.cp.GumbelCopula(th, 2), 2
    if kind == 'marginal':
        return s.cp.MarginalCopula(s.cp.IndepCopula(2), ['norm', 'expon']), 2
    return build(s, kind, 2), 2


ALL = ['clayton', 'frank', 'gumbel', 'frank-', 'clayton-', 'indep', 'gauss', 'student', 'gmc', 'gmc2', 'marginal', 'empirical', 'clayton3', 'frank3', 'gumbel3']


LONG = ['empirical', 'frank3', 'gmc2']


@case('C18', over={k: dict(kind=k) for k in ALL if k not in LONG} | {k: dict(kind=k, short=True) for k in LONG} | {f'+{k}.long': dict(kind=k) for k in LONG}, max_paths=900)
def seeds(s, kind, short=False):
    """any draws: samples with one seed are the same whatever was drawn before, samples without a seed use new draws, no draw is used twice in a sample; the size asked for"""
    s.rng()
    c, d = sampled(s, kind)
    n = 1 if kind in ('frank3', 'gumbel', 'gumbel3', 'empirical', 'gmc2') else 2
    x = s.arr(c.random(n, 7))
    used = s.draws()
    s.true(len(set(used)) == len(used), 'no draw is used twice in a seeded sample')
    s.true(len(used) > 0 and all(k[0][0] != 'entropy' for k in used), 'a seeded sample uses no other draws')
    s.true(s.np.shape(x) == (n, d), 'shape of a seeded sample')
    y = s.arr(c.random(1))
    s.true(s.np.shape(y) == (1, d), 'shape of one row')
    new = s.draws()[len(used):]
    s.true(len(set(new)) == len(new), 'no draw is used twice in a sample')
    k = len(used) + len(new)
    if not short:
        c.random(2)
        s.true(not set(new) & set(s.draws()[k:]), 'the next sample has new draws')
    z = s.arr(c.random(n, 7))
    s.same(z, x, 'the same seed gives the same sample')
    s.true([tuple(v) for v in s.draws()[-len(used):]] == [tuple(v) for v in used], 'the same seed gives the same draws')
    if short:
        return
    c.random(1, 8)
    s.same(s.arr(c.random(n, seed=7)), x, 'the same seed gives the same sample, after another seed')


@case('C18', over={k: dict(kind=k) for k in ('clayton', 'frank', 'indep', 'gauss', 'student', 'marginal', 'empirical')}, max_paths=60)
def named(s, kind):
    """copulas with column names, one and two rows: samples are frames with those columns and the numbers of the copula without names"""
    if not hasattr(s.mod('copulae.copula.base'), 'fit_copula'):
        return
    s.rng()
    c, b = build(s, kind, 2, NAMES[:2]), build(s, kind, 2)
    n = s.pick('rows', [1, 2]) if kind not in ('empirical', 'marginal') else 1
    f = c.random(n, 7)
    s.true(list(getattr(f, 'columns', ())) == NAMES[:2], 'column names')
    s.true(len(f) == n, 'rows')
    if kind != 'marginal':
        s.same(s.arr(f), s.arr(b.random(n, 7)), 'the same numbers')


@case('C18', over={k: dict(kind=k) for k in ('clayton', 'clayton-', 'frank-', 'indep', 'gauss', 'student', 'clayton3', 'frank', 'frank3')}, max_paths=120)
def inside(s, kind):
    """any draws, any parameter (Frank copulas in dimension 3: frailties 1 and 2): samples lie in the unit cube"""
    s.rng()
    c, d = sampled(s, kind)
    if kind == 'frank3':
        q = 1 - s.np.exp(-c.params * s.draw('U', 4, SEED))
        s.assume(s.draw('U', 3, SEED) > q * q)
    x = s.arr(c.random(1, 7))
    for v in x.ravel():
        if kind == 'frank3':
            # in terms of the decreasing function exp(-theta x)
            e = s.np.exp(-c.params * v)
            s.le(s.np.exp(-c.params), e, 'not above 1')
            s.le(e, 1, 'not below 0')
            continue
        s.le(0, v, 'not below 0')
        s.le(v, 1, 'not above 1')
