"""C08 empirical copula."""
from engine.registry import case

from .ranks import *

KINDS = ['none', 'checkerboard', 'beta']


def point(s, d, name='u'):
    return [s.real(f'{name}{j}', 0, 1, lo_open=False, hi_open=False) for j in range(d)]


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def kernel(s, kind, n, r, v):
    """weight of an observation of rank r at v"""
    if kind == 'none':
        return s.np.where(r / (n + 1) <= v, 1.0, 0.0)
    if kind == 'checkerboard':
        return s.np.minimum(s.np.maximum(n * v - r + 1, 0), 1)
    # beta: at least r of n uniforms are at most v
    return sum(binom(n, k) * v ** k * (1 - v) ** (n - k) for k in range(int(r), n + 1))


def ref_cdf(s, kind, ranks, us, offset=0):
    n = len(ranks)
    t = 0
    for row in ranks:
        p = 1
        for r, v in zip(row, us):
            p = p * kernel(s, kind, n, r, v)
        t = t + p
    return t / (n + offset)


def make(s, x, kind, **k):
    return s.cp.EmpiricalCopula(s.arr(x), smoothing=kind, **k)


OV = {f'{k}.{t}': dict(kind=k, t=t) for k in ('none', 'checkerboard') for t in TIES}


@case('C08', over=OV)
def counts(s, kind, t):
    """three rows in two columns, every order and tie pattern, every point of the closed square"""
    x = sample(s, 3, 2)
    u = point(s, 2)
    c = make(s, x, kind, ties=t)
    ranks = cols([rank(s, q, t) for q in cols(x)])
    s.eq(c.cdf(s.arr(u)), ref_cdf(s, kind, ranks, u), 'share of the observations')


@case('C08', over={k: dict(kind=k) for k in KINDS})
def offset(s, kind):
    """two rows without ties, every point, any offset >= 0"""
    x = sample(s, 2, 2)
    for q in cols(x):
        split(s, q, ties=False)
    u = point(s, 2)
    off = s.real('offset', 0, lo_open=False)
    s.floats(off < 100)
    s.eq(make(s, x, kind, offset=off).cdf(s.arr(u)), make(s, x, kind).cdf(s.arr(u)) * 2 / (2 + off), 'divided by n + offset')


@case('C08', over={'none.4x2': dict(kind='none', n=4, d=2), 'checkerboard.4x2': dict(kind='checkerboard', n=4, d=2),
                   'none.2x3': dict(kind='none', n=2, d=3), 'checkerboard.2x3': dict(kind='checkerboard', n=2, d=3),
                   '+none.5x2': dict(kind='none', n=5, d=2), '+checkerboard.5x2': dict(kind='checkerboard', n=5, d=2),
                   '+none.3x4': dict(kind='none', n=3, d=4), '+checkerboard.3x4': dict(kind='checkerboard', n=3, d=4)})
def larger(s, kind, n, d):
    """more rows (4x2, thorough 5x2) and columns (2x3, thorough 3x4), average ranks, two points at once"""
    x = sample(s, n, d)
    us = [point(s, d, 'u'), point(s, d, 'v')]
    c = make(s, x, kind)
    ranks = cols([rank(s, q) for q in cols(x)])
    s.eq(c.cdf(s.arr(us)), [ref_cdf(s, kind, ranks, u) for u in us], 'share of the observations, row by row')
    s.eq(s.attempt(lambda: c.cdf(s.arr(us)))[0], c.cdf(us), 'a list of points')


@case('C08', over={'2x2': dict(n=2, d=2), '3x2': dict(n=3, d=2), '+4x2': dict(n=4, d=2), '2x3': dict(n=2, d=3)}, max_paths=1000)
def beta(s, n, d):
    """samples without ties (2x2, 3x2, 2x3, thorough 4x2), every point of the closed cube, any offset >= 0"""
    x = sample(s, n, d)
    ranks = cols([split(s, q, ties=False) for q in cols(x)])
    u = point(s, d)
    off = s.real('offset', 0, lo_open=False)
    s.floats(off < 100)
    c = make(s, x, 'beta', offset=off)
    s.eq(c.cdf(s.arr(u)), ref_cdf(s, 'beta', ranks, u, off), 'average of the beta kernels')


@case('C08', over={'2x2': dict(n=2, d=2), '3x2': dict(n=3, d=2), '+4x2': dict(n=4, d=2), '2x3': dict(n=2, d=3)}, max_paths=1000, rtol=1e-5)
def beta_density(s, n, d):
    """samples without ties, points inside the cube: the mixed derivative of the distribution function, and its logarithm"""
    x = sample(s, n, d)
    for q in cols(x):
        split(s, q, ties=False)
    u = [s.real(f'u{j}', 0, 1) for j in range(d)]
    for v in u:
        s.floats((.02 < v) & (v < .98))
    off = s.real('offset', 0, lo_open=False)
    s.floats(off < 100)
    c = make(s, x, 'beta', offset=off)
    f = c.pdf(s.arr(u))
    s.eq(f, s.deriv(lambda *v: c.cdf(s.arr(v)), u, [1] * d), 'mixed derivative')
    s.eq(c.pdf(s.arr([u]), log=True), s.np.log(f), 'logarithm')
    if n == 2 and d == 2:
        w = [s.real(f'w{j}', 0, 1) for j in range(d)]
        s.eq(c.pdf(s.arr([u, w])), [f, c.pdf(s.arr(w))], 'row by row')


@case('C08', over={t: dict(t=t) for t in TIES[1:]}, max_paths=1000, rtol=1e-5)
def beta_ties(s, t):
    """three rows in two columns, every order and tie pattern of the first, points inside the square: distribution and density with the ranks the tie method gives"""
    x = sample(s, 3, 2)
    for q in cols(x):
        split(s, q, ties=q[0] is x[0][0])
    u = [s.real(f'u{j}', 0, 1) for j in range(2)]
    for v in u:
        s.floats((.02 < v) & (v < .98))
    c = make(s, x, 'beta', ties=t)
    ranks = cols([rank(s, q, t) for q in cols(x)])
    f = c.pdf(s.arr(u))
    s.eq(f, s.deriv(lambda *v: ref_cdf(s, 'beta', ranks, v), u, [1] * 2), 'mixed derivative')
    s.eq(c.cdf(s.arr(u)), ref_cdf(s, 'beta', ranks, u), 'average of the beta kernels')


@case('C08', over={k: dict(kind=k) for k in KINDS[:2]})
def monotone(s, kind):
    """three rows, any ties, any two ordered points: ordered values between 0 and 1; corners"""
    x = sample(s, 3, 2)
    c = make(s, x, kind)
    u = point(s, 2)
    v = [u[0], s.real('v1', 0, 1, lo_open=False, hi_open=False)]
    s.assume(u[1] <= v[1])
    if s.pick('coordinate', [0, 1]):
        u, v = u[::-1], v[::-1]
    a, b = c.cdf(s.arr(u)), c.cdf(s.arr(v))
    s.le(a, b, 'not decreasing')
    s.le(0, a, 'at least 0')
    s.le(b, 1, 'at most 1')
    s.eq(c.cdf(s.arr([1.0, 1.0])), 1, 'one at the upper corner')
    s.eq(c.cdf(s.arr([0.0, u[1]])), 0, 'zero on the lower edge')


@case('C08', over={k: dict(kind=k) for k in ('checkerboard', 'beta')}, max_paths=400)
def margins(s, kind):
    """three rows without ties: uniform margins, ordered values, corners"""
    x = sample(s, 3, 2)
    for q in cols(x):
        split(s, q, ties=False)
    c = make(s, x, kind)
    u = s.real('u', 0, 1, lo_open=False, hi_open=False)
    s.eq(c.cdf(s.arr([u, 1.0])), u, 'uniform margin')
    s.eq(c.cdf(s.arr([1.0, u])), u, 'uniform margin')
    s.eq(c.cdf(s.arr([u, 0.0])), 0, 'zero on the lower edge')


def same_order(s, x, y):
    for i in range(len(x)):
        for j in range(i):
            s.assume((x[i] < x[j]) == (y[i] < y[j]))
            s.assume((x[i] == x[j]) == (y[i] == y[j]))


@case('C08', over={k: dict(kind=k) for k in KINDS[:2]})
def transformed(s, kind):
    """three rows; the first column replaced by any values in the same order: the same function"""
    x = sample(s, 3, 2)
    y = s.reals('y', 3)
    same_order(s, [r[0] for r in x], y)
    u = point(s, 2)
    a = make(s, x, kind).cdf(s.arr(u))
    b = make(s, [[v, r[1]] for v, r in zip(y, x)], kind).cdf(s.arr(u))
    s.eq(a, b, 'invariant under increasing transformations')


@case('C08', over={k: dict(kind=k) for k in KINDS[:2]})
def rows(s, kind):
    """three rows, every reordering, and both columns swapped together with the point"""
    x = sample(s, 3, 2)
    u = point(s, 2)
    p = s.pick('rows', [(1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0), (2, 0, 1)])
    a = make(s, x, kind).cdf(s.arr(u))
    s.eq(make(s, [x[i] for i in p], kind).cdf(s.arr(u)), a, 'the order of the rows does not matter')
    s.eq(make(s, [r[::-1] for r in x], kind).cdf(s.arr(u[::-1])), a, 'columns swapped with the point')


@case('C08')
def logarithm(s):
    """two rows, any point with positive value: log=True is the logarithm"""
    x = sample(s, 2, 2)
    u = point(s, 2)
    k = s.pick('smoothing', KINDS[:2])
    c = make(s, x, k)
    v = c.cdf(s.arr(u))
    if v > 0:
        s.eq(c.cdf(s.arr(u), log=True), s.np.log(v), 'logarithm')


@case('C08')
def refused(s):
    """points outside the square, unknown smoothing, density without beta smoothing"""
    x = sample(s, 2, 2)
    u = s.real('u')
    s.floats(abs(u) < 50)
    c = make(s, x, None)
    s.true(c.smoothing == 'none', 'no smoothing unless asked for')
    if (u < -1e-3) or (u > 1.001):
        s.raises(lambda: c.cdf(s.arr([.5, u])), 'a point outside the square is refused')
    s.raises(lambda: make(s, x, 'spline'), 'an unknown smoothing is refused')
    s.raises(lambda: c.pdf(s.arr([.5, .5])), 'a density without beta smoothing is refused')
    EC = s.cp.EmpiricalCopula
    for label, v in (('one axis', x[0]), ('three axes', [x]), ('a number', u)):
        for form, w in (('array', s.arr(v)), ('list', v)):
            s.raises(lambda: EC(w), f'data of {label} as {form}')
            s.raises(lambda: EC(data=w), f'data of {label} as {form}, by keyword')
            s.raises(lambda: EC.to_marginals(w, s.arr(x)), f'points of {label} as {form}')
            s.raises(lambda: EC.to_marginals(s.arr([[.5, .5]]), w), f'original data of {label} as {form}')
            s.raises(lambda: EC.to_marginals(s.arr([[.5, .5]]), original=w), f'original data of {label} as {form}, by keyword')
            s.raises(lambda: EC.to_marginals(u=w, original=s.arr(x)), f'points of {label} as {form}, by keyword')


@case('C08', over={'2': dict(n=2), '3': dict(n=3), '+4': dict(n=4)}, max_paths=1500)
def to_marginals(s, n):
    """up to 3 rows (thorough 4), two columns, any points of the closed square: order statistics of the columns"""
    x = sample(s, n, 2)
    u = point(s, 2)
    EC = s.cp.EmpiricalCopula
    out = EC.to_marginals(s.arr([u]), s.arr(x))
    for j in range(2):
        k = n - 1
        for i in range(n - 1, -1, -1):
            if u[j] * n < i + 1:
                k = i
        col = [r[j] for r in x]
        # the k-th smallest (from 0): at most k values are below it and at least k + 1 are not above it
        v = out[0, j]
        s.le(count(s, [c < v for c in col]), k, 'order statistic')
        s.le(k + 1, count(s, [c <= v for c in col]), 'order statistic')
        s.true(s.np.any(s.arr([c == v for c in col], dtype=bool)), 'a value of the column')


@case('C08')
def to_marginals_frame(s):
    """two rows, two points: the same numbers for frames, names kept, data untouched"""
    x = sample(s, 2, 2)
    us = [point(s, 2, 'u'), [.25, .75]]
    EC = s.cp.EmpiricalCopula
    f = s.frame(x, columns=['q', 'p'])
    a = s.arr(x)
    r = EC.to_marginals(s.arr(us), f)
    s.true(list(r.columns) == ['q', 'p'], 'column names')
    s.eq(r.to_numpy(), EC.to_marginals(s.arr(us), a), 'the same numbers')
    s.same(a, x, 'the data are not modified')
    s.same(f.to_numpy(), x, 'the frame is not modified')


@case('C08', max_paths=600)
def random(s):
    """up to three rows, two draws: every drawn row is the row the draw points to; frames keep names"""
    s.rng()
    n = s.pick('rows', [1, 2, 3])
    x = sample(s, n, 2)
    c = make(s, x, 'none')
    r = c.random(2, seed=5)
    s.true(r.shape == (2, 2), 'shape')
    for i in range(2):
        row = s.np.arange(1)
        hit = False
        for q in x:
            hit = hit | ((r[i, 0] == q[0]) & (r[i, 1] == q[1]))
        s.true(hit, 'a row of the data')
    s.eq(c.random(2, seed=5), r, 'a seed determines the sample')
    g = s.cp.EmpiricalCopula(s.frame(x, columns=['q', 'p'])).random(2, seed=5)
    s.true(list(g.columns) == ['q', 'p'], 'column names')
    s.eq(g.to_numpy(), r, 'the same numbers')
