"""C16 Containers, keywords, column names and refusals."""
import inspect

from engine.registry import case

from . import fam
from .ranks import *

DATA = [[.1, .7, .35, .2], [.8, .2, .9, .5], [.4, .95, .15, .85], [.65, .45, .6, .3], [.25, .3, .85, .65]]
NAMES = ['q', 'c', 'm', 'a']


def build(s, kind, d=2, names=None):
    """a copula of a kind; names: with column names, given through the public interface"""
    if kind == 'indep':
        return s.cp.IndepCopula(d, names) if names else s.cp.IndepCopula(d)
    if kind in ('beta', 'empirical', 'checkerboard'):
        data = [r[:d] for r in DATA]
        return s.cp.EmpiricalCopula(s.frame(data, names) if names else s.arr(data), None if kind == 'empirical' else kind)
    if kind == 'gmc':
        G = s.mod('copulae.mixtures.gmc.gmc').GaussianMixtureCopula
        return G(1, d, dict(prob=[1.], means=[[.0] * d], covs=[[[1. if i == j else .3 for j in range(d)] for i in range(d)]]))
    if kind == 'marginal':
        inner = fam.make(s, 'clayton', d)
        c = s.cp.MarginalCopula(inner, ['norm', 'expon', 'uniform'][:d])
        if names:
            inner.fit = lambda *a, **k: inner
            c.fit(s.frame([[1., 2., 3.], [2., 3., 5.], [4., 4., 4.]], NAMES[:3])[names], verbose=0)
        return c
    if kind in fam.FAMS:
        c = fam.make(s, kind, d)
    elif kind in ('gauss', 'student'):
        r = s.real('r', *((-1, 1) if d < 4 else (-.5, .5)))
        s.floats((-.9 < r) & (r < .9))
        rs = [r] + {2: [], 3: [.0, .0], 4: [.0, .25, .0, .125, .0]}[d]
        c = s.cp.GaussianCopula(d) if kind == 'gauss' else s.cp.StudentCopula(d, 4)
        c.params = s.arr(rs) if kind == 'gauss' else s.arr([4] + rs)
    if names:
        # a fit on a data frame; the optimisation is a stand-in
        b = s.mod('copulae.copula.base')
        keep = b.fit_copula
        b.fit_copula = lambda *a, **k: None
        try:
            c.fit(s.frame([r[:d] for r in DATA], names), verbose=0)
        finally:
            b.fit_copula = keep
    return c


def first(f):
    return list(inspect.signature(f).parameters)[0]


def point(s, kind, d, name):
    if kind == 'marginal':
        us = [s.real(f'{name}{j}', 0, 2) for j in range(d)]
        for u in us:
            s.floats((.1 < u) & (u < .9))
        return us
    us = [fam.unit(s, f'{name}{j}') for j in range(d)]
    for u in us:
        s.floats((.05 < u) & (u < .95))
    return us


def methods(kind):
    # Student's distribution function is not implemented; only beta smoothing has a density
    return ['cdf'] if kind in ('empirical', 'checkerboard') else ['pdf'] if kind == 'student' else ['pdf', 'cdf']


HEAVY = ('empirical', 'checkerboard', 'beta')
ALL = ['clayton', 'frank', 'gumbel', 'frank-', 'clayton-', 'indep', 'gauss', 'student', 'gmc', 'marginal', 'beta', 'empirical', 'checkerboard']


@case('C16', over={k: dict(kind=k) for k in ALL} | {f'+{k}3': dict(kind=k, d=3) for k in ('clayton', 'gumbel', 'gauss', 'indep')},
      max_paths=60)
def containers(s, kind, d=2):
    """any two points of the open unit cube (empirical copulas: one point, five given rows; Frank: one point) and any parameter: lists, tuples, frames with any index and columns, single points, series, keywords"""
    c = build(s, kind, d)
    n = 1 if kind in HEAVY or kind[:5] == 'frank' else 2
    x = [point(s, kind, d, f'p{i}') for i in range(n)]
    for name in methods(kind):
        f = getattr(c, name)
        ref = f(s.arr(x))
        for label, v in [('list', x), ('tuple', tuple(tuple(r) for r in x)), ('frame', s.frame(x, NAMES[:d])),
                         ('frame without names', s.frame(x))]:
            s.eq(s.arr(f(v)), ref, f'{name} of a {label}')
            s.eq(len(s.arr(f(v)).ravel()), n, f'{name} of a {label}: one value per point')
        fr = s.frame(x, NAMES[:d])
        fr.index = [7, 3][:n]
        s.eq(s.arr(f(fr)), ref, f'{name} of a frame with another index')
        s.eq(f(**{first(f): s.arr(x)}), ref, f'{name} by keyword')
        s.eq(f(**{first(f): x, 'log': False}), ref, f'{name} by keyword')
        lref = f(s.arr(x), log=True)
        s.eq(s.arr(f(fr, True)), lref, f'{name} of a frame, logarithm')
        s.eq(f(log=True, **{first(f): x}), lref, f'{name} by keyword, logarithm')
        for i in range(n):
            want = s.arr(ref).ravel()[i]
            for label, v in [('list', x[i]), ('array', s.arr(x[i])), ('tuple', tuple(x[i])), ('series', s.series(x[i])),
                             ('named series', s.series(x[i], NAMES[:d])), ('matrix of one row', s.arr([x[i]])),
                             ('frame of one row', s.frame([x[i]]))]:
                g = f(v)
                s.eq(g, want, f'{name} of a point as {label}')
                s.true(s.np.ndim(g) == 0, f'{name} of a point as {label} is a number')


@case('C16', over={k: dict(kind=k) for k in ALL if k != 'gmc'} | {'gauss4': dict(kind='gauss', d=4), 'empirical4': dict(kind='empirical', d=4)}, max_paths=60)
def columns(s, kind, d=None):
    """column names of an earlier fit in dimension 3 (two for negative dependence; four too): frames and series with the columns in any order, with one more column, with a column missing"""
    d = d or (2 if kind in ('frank-', 'clayton-', 'marginal', 'frank', 'student') else 3)
    names = NAMES[:d]
    if not hasattr(s.mod('copulae.copula.base'), 'fit_copula'):
        return
    c = build(s, kind, d, names)
    x = [point(s, kind, d, 'p')]
    perm = s.pick('order', [[1, 0], [0, 1]] if d == 2 else [[2, 0, 1], [1, 2, 0], [1, 0, 2], [0, 2, 1]] if d == 3 else
                  [[0, 1, 3, 2], [0, 3, 2, 1], [3, 1, 0, 2]])
    for name in methods(kind)[-1:] if kind not in ('clayton', 'gumbel', 'beta', 'gauss') else methods(kind):
        f = getattr(c, name)
        ref = f(s.arr(x))
        fr = s.frame(x, names)[[names[i] for i in perm]]
        s.eq(s.arr(f(fr)), ref, f'{name}: columns in another order')
        s.eq(f(**{first(f): fr}), ref, f'{name}: columns in another order, by keyword')
        fr['extra'] = 5.
        s.eq(s.arr(f(fr)), ref, f'{name}: one more column')
        s.raises(lambda: f(s.frame([x[0]], NAMES[:d - 1] + ['z'])), f'{name}: a column is missing')
        s.eq(f(s.series([x[0][i] for i in perm], [names[i] for i in perm])), ref, f'{name}: series in another order')
        s.eq(f(s.series(x[0])), ref, f'{name}: series without names')


@case('C16', over={k: dict(kind=k) for k in ALL})
def refused(s, kind):
    """any numbers: too many and too few columns, no axes, three axes; as list, array, frame and series"""
    d = 2
    c = build(s, kind, d)
    a = s.reals('a', 6, 0, 1)
    for name in methods(kind):
        f = getattr(c, name)
        for label, v in [('three columns', [a[:3], a[3:]]), ('one column', [[a[0]], [a[1]]]), ('three coordinates', a[:3]),
                         ('one coordinate', a[:1]), ('three axes', [[a[:2], a[2:4]]])]:
            s.raises(lambda: f(v), f'{name}: {label}, list')
            s.raises(lambda: f(s.arr(v)), f'{name}: {label}, array')
            s.raises(lambda: f(**{first(f): s.arr(v)}), f'{name}: {label}, keyword')
        s.raises(lambda: f(s.frame([a[:3], a[3:]])), f'{name}: three columns, frame')
        s.raises(lambda: f(s.frame([[a[0]], [a[1]]])), f'{name}: one column, frame')
        s.raises(lambda: f(s.series(a[:3])), f'{name}: three coordinates, series')
        s.raises(lambda: f(a[0]), f'{name}: a number')
        s.raises(lambda: f(), f'{name}: nothing')


GEN = {f: ['psi', 'ipsi', 'itau'] for f in ('clayton', 'gumbel', 'frank')} | {'gauss': ['itau', 'irho', 'dtau', 'drho'], 'student': ['itau']}
ARG = {'psi': (0, None), 'ipsi': (0, 1), 'itau': (0, 1), 'irho': (0, 1), 'dtau': (0, 1), 'drho': (0, 1), 'A': (0, 1), 'dipsi': (0, 1)}


@case('C16', over={'clayton': dict(kind='clayton', ms=('psi', 'ipsi', 'dipsi', 'itau')), 'gumbel': dict(kind='gumbel', ms=('psi', 'ipsi', 'A', 'itau')),
                   'frank': dict(kind='frank', ms=('psi', 'ipsi', 'dtau')), 'gauss': dict(kind='gauss', ms=('itau', 'irho', 'dtau', 'drho')),
                   'student': dict(kind='student', ms=('itau',)), 'debye': dict(kind='frank-', ms=('dtau', 'drho'))}, max_paths=120)
def elementwise(s, kind, ms):
    """any two arguments of the generator functions and dependence measures: lists, tuples, series, matrices, columns, keywords, one at a time"""
    c = build(s, kind)
    for m in ms:
        f = getattr(c, m)
        lo, hi = ARG[m]
        if kind in ('frank', 'frank-') and m in ('dtau', 'drho'):
            v = [2., 3.5]
        elif kind == 'frank' and m == 'psi':
            # the generator is defined from the logarithm of 1 - exp(-theta) on
            v = [s.real(f'{m}{i}', 0) for i in range(2)]
        else:
            v = [s.real(f'{m}{i}', lo, hi) for i in range(2)]
        if not isinstance(v[0], float):
            for w in v:
                s.floats((.05 < w) & (w < .95))
        want = [s.scalar(f(s.arr(w))) for w in v]
        for label, x in [('array', s.arr(v)), ('list', v), ('tuple', tuple(v)), ('series', s.series(v)), ('series', s.series(v, [4, 9])),
                         ('matrix of one row', s.arr([v])), ('matrix of one column', s.arr([[w] for w in v]))]:
            g = f(x)
            s.true(s.np.shape(g) == s.np.shape(x), f'{m} of a {label}: shape')
            s.eq(s.arr(g).ravel(), s.arr(want), f'{m} of a {label}')
        for x in (s.arr(v), v):
            s.eq(s.arr(f(**{first(f): x})), s.arr(want), f'{m} by keyword')


@case('C16', over={k: dict(kind=k) for k in ('clayton', 'gumbel', 'indep', 'gauss', 'student')})
def log_lik(s, kind):
    """any three rows of the open unit square without conversion, any three rows without ties with conversion: list and frame against the array, and the sum of the logarithmic densities"""
    c = build(s, kind)
    x = [point(s, kind, 2, f'p{i}') for i in range(3 if kind != 'student' else 2)]
    want = sum(s.arr(c.pdf(s.arr(x), log=True)))
    for label, v in [('array', s.arr(x)), ('list', x), ('frame', s.frame(x, NAMES[:2]))]:
        s.eq(c.log_lik(v, to_pobs=False), want, f'{label}: sum of the logarithmic densities')
    y = [[1., 2.], [3., 1.], [2., 5.]]
    t = s.real('shift')
    y = [[a + t, b] for a, b in y]
    want = sum(s.arr(c.pdf(c.pobs(s.arr(y)), log=True)))
    for label, v in [('array', s.arr(y)), ('list', y), ('frame', s.frame(y, NAMES[:2]))]:
        s.eq(c.log_lik(v), want, f'{label}: converted first')
