"""C12 goodness-of-fit statistic and parametric bootstrap."""
from engine.registry import case

from .ranks import *


def stub(s, samples, d=2, seen=None):
    """a copula whose k-th fit sets any parameter and whose samples are given; fit follows the documented interface"""
    base = s.mod('copulae.copula').BaseCopula
    seen = {} if seen is None else seen
    seen.update(fits=[], objects=[], drawn=0)

    class Stub(base):
        def __init__(self, dim=2):
            super().__init__(dim, 'Stub')
            self._par = s.np.nan
            seen['objects'].append(self)

        @property
        def params(self):
            return self._par

        @params.setter
        def params(self, v):
            self._par = v

        def cdf(self, x, log=False):
            return s.arr([self._par * r[0] + (1 - self._par) * r[1] * r[0] for r in x])

        def pdf(self, x, log=False):
            raise NotImplementedError

        def fit(self, data, x0=None, method='ml', optim_options=None, ties='average', verbose=1, to_pobs=True, scale=1.0):
            data = self.pobs(data, ties) if to_pobs else data
            seen['fits'].append((self, s.snap(data), dict(method=method, verbose=verbose, scale=scale)))
            self._par = s.real(f'th{len(seen["fits"]) - 1}', 0, 1, lo_open=False, hi_open=False)
            return self

        def random(self, n, seed=None):
            if not seen['fits'] or self is not seen['fits'][0][0]:
                raise AssertionError('drawn from a copula that is not the fitted one')
            seen['drawn'] += 1
            return s.snap(s.arr(samples[seen['drawn'] - 1])[:n])

    return Stub, seen


def cdf_ref(th, u):
    return [th * r[0] + (1 - th) * r[1] * r[0] for r in u]


def stat_ref(s, th, u):
    t = 0
    for p, c in zip(u, cdf_ref(th, u)):
        t = t + (sum((ind(s, *[a <= b for a, b in zip(q, p)]) for q in u), 0.0) / len(u) - c) ** 2
    return t


def gof(s, *a, **k):
    s.rng()
    return s.mod('copulae.gof').gof_copula(*a, **k)


def plain(u, n):
    return [[v / (n + 1) for v in r] for r in u]


@case('C12', over={'3': dict(n=3), '4': dict(n=4, ties=False), '3x3': dict(n=3, d=3, ties=False), '+4t': dict(n=4)}, max_paths=2500)
def statistic(s, n, d=2, ties=True):
    """samples of 3x2 with any ties, 4x2 and 3x3 without (thorough 4x2 with), in the order of the first column; any fitted parameter; no replications"""
    x, u = ordered(s, n, d, ties, True)
    S, seen = stub(s, [], d)
    r = gof(s, S, s.arr(x), 0)
    s.eq(r.statistic, stat_ref(s, s.real('th0', 0, 1, lo_open=False, hi_open=False), u), 'squared distances at the pseudo-observations')
    s.le(0, r.statistic, 'not negative')
    s.eq(r.parameter, s.real('th0', 0, 1, lo_open=False, hi_open=False), 'parameter of the first fit')
    s.eq(len(seen['fits']), 1, 'fitted once')
    s.same(seen['fits'][0][1], s.arr(u), 'fitted on the pseudo-observations')
    s.eq(r.pvalue, .5, 'half a count')


@case('C12', over={f'{t}-{f}': dict(t=t, f=f) for t in TIES for f in TIES}, max_paths=600)
def tie_methods(s, t, f):
    """3x2 samples with any ties, every pair of tie methods for the statistic and for the fit"""
    x, a = ordered(s, 3, 2, True, True)
    S, seen = stub(s, [])
    before = s.snap(x)
    data = s.arr(x)
    r = gof(s, S, data, 0, ties=t, fit_ties=f)
    a = [[float(v) for v in row] for row in a]
    u = pobs(s, a, t)
    s.eq(r.statistic, stat_ref(s, s.real('th0', 0, 1, lo_open=False, hi_open=False), u), 'statistic with its tie method')
    s.same(seen['fits'][0][1], s.arr(pobs(s, a, f)), 'fit with its tie method')
    s.same(data, before, 'data unchanged')


@case('C12', over={'1': dict(N=1), '2': dict(N=2, few=True)}, max_paths=2500)
def bootstrap(s, N, few=False):
    """3x2 samples without ties; one replication of any order, two replications of a few orders; any fitted parameters"""
    x, u = ordered(s, 3, 2, False, True)
    b, ub = [], []
    for k in range(N):
        y = sample(s, 3, 2, f'b{k}')
        if few:
            for i in range(2):
                s.assume(y[i][0] < y[i + 1][0])
        if few:
            o = s.pick(f'order{k}', [(0, 1, 2), (2, 0, 1)])
            for i, j in zip(o, o[1:]):
                s.assume(y[i][1] < y[j][1])
        rk = [split(s, c, False) for c in cols(y)]
        b.append(y)
        ub.append(plain(cols(rk), 3))
    S, seen = stub(s, b)
    opts = dict(method='itau', scale=s.real('scale', 0))
    r = gof(s, S, s.arr(x), N, **opts)
    th = [s.real(f'th{k}', 0, 1, lo_open=False, hi_open=False) for k in range(N + 1)]
    t = stat_ref(s, th[0], u)
    for k in range(N):
        s.same(seen['fits'][k + 1][1], s.arr(ub[k]), 'replication fitted on its own pseudo-observations')
        tk = stat_ref(s, th[k + 1], ub[k])
        s.floats(abs(tk - t) > 1e-6)
    s.eq(len(seen['fits']), N + 1, 'one fit per replication')
    s.true(len({id(f[0]) for f in seen['fits']}) == N + 1 or all(f[0] is not seen['fits'][0][0] for f in seen['fits'][1:]),
           'replications are fitted on another object')
    for f in seen['fits']:
        s.true(f[2]['method'] == 'itau', 'fit options are passed on')
        s.eq(f[2]['scale'], opts['scale'], 'fit options are passed on')
    s.eq(r.parameter, th[0], 'parameter of the first fit')
    s.eq(r.statistic, t, 'statistic of the data')
    s.eq(r.pvalue, (count(s, [stat_ref(s, th[k + 1], ub[k]) >= t for k in range(N)]) + .5) / (N + 1), 'share of the replications')


@case('C12', over={'average': dict(t='average'), 'max': dict(t='max'), '+all': dict(t='average', rows=False)}, max_paths=2500, timeout=100)
def tied_bootstrap(s, t, rows=True):
    """3x2 samples with ties; one replication with its rows sorted or rotated (thorough: any order): the k-th smallest value of each column is tied as the k-th smallest of the data is, rows stay together"""
    x, u = ordered(s, 3, 2, True, True)
    if all(len({float(v) for v in q}) == 3 for q in cols(u)):
        return
    y = sample(s, 3, 2, 'b')
    if rows:
        # the first column in order or rotated
        o = s.pick('rows', [(0, 1, 2), (2, 0, 1)])
        s.assume(y[o[0]][0] < y[o[1]][0])
        s.assume(y[o[1]][0] < y[o[2]][0])
    rk = cols([split(s, c, False) for c in cols(y)])
    S, seen = stub(s, [y])
    r = gof(s, S, s.arr(x), 1, ties=t, fit_ties=t)
    w = cols([reties(s, c, q) for c, q in zip(cols(rk), cols(u))])
    if t == 'max':
        w = [[float(v) for v in q] for q in cols(w)]
        w = cols([[sum(1 for a in q if a <= v) / 4 for v in q] for q in w])
    s.same(seen['fits'][1][1], s.arr(w), 'ties of the data in every column')
    th = [s.real(f'th{k}', 0, 1, lo_open=False, hi_open=False) for k in range(2)]
    if t == 'average':
        t0, t1 = stat_ref(s, th[0], u), stat_ref(s, th[1], w)
        s.floats(abs(t0 - t1) > 1e-6)
        s.eq(r.pvalue, (count(s, [t1 >= t0]) + .5) / 2, 'share of the replications')


@case('C12', over={f: dict(fam=f) for f in ('clayton', 'gumbel', 'indep')}, max_paths=300, timeout=100)
def real_copulas(s, fam):
    """4x2 samples without ties in the order of the first column: Clayton and Gumbel copulas fitted by Kendall's tau, the independence copula"""
    n = 4
    x, u = ordered(s, n, 2, False, True)
    u = [[float(v) for v in row] for row in u]
    tau = sum((1 if (a[0] < b[0]) == (a[1] < b[1]) else -1) for i, a in enumerate(u) for b in u[:i]) / 6
    if fam == 'indep':
        r = gof(s, s.cp.IndepCopula, s.arr(x), 0)
        c = [a * b for a, b in u]
    else:
        if not 0 < tau < 1:
            return
        th = 2 * tau / (1 - tau) if fam == 'clayton' else 1 / (1 - tau)
        r = gof(s, {'clayton': s.cp.ClaytonCopula, 'gumbel': s.cp.GumbelCopula}[fam], s.arr(x), 0, method='itau')
        s.eq(r.parameter, th, 'parameter of the sample')
        from .fam import cdf_ref as ref
        th = s.arr([th])[0]
        c = [ref(s, fam, th, list(s.arr(p))) for p in u]
    t = 0
    for p, q in zip(u, c):
        t = t + (emp(s, u, *p) - q) ** 2
    s.eq(r.statistic, t, 'squared distances at the pseudo-observations')


@case('C12')
def frames(s):
    """3x2 samples: arrays and frames give the same answer"""
    x, u = ordered(s, 3, 2, True, True)
    S, a = stub(s, [])
    r = gof(s, S, s.arr(x), 0)
    S, b = stub(s, [])
    q = gof(s, S, s.frame(x, ['A', 'B']), 0)
    s.eq(r.statistic, q.statistic, 'the same statistic')
    s.same(a['fits'][0][1], b['fits'][0][1], 'the same fit')
