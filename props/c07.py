"""C07 Gaussian and Student densities and the Gaussian distribution function."""
from engine.registry import case

from .c06 import matrix, det, minors
from .fam import unit

PAIRS = {2: 1, 3: 3, 4: 6}


def rhos(s, d, free=None):
    """free correlations (all by default), the rest fixed; the matrix positive definite"""
    n = PAIRS[d]
    k = n if free is None else free
    rs = s.reals('r', k, -1, 1) + [.25, -.3, .4, .1, -.2, .35][:n - k]
    m = matrix(rs, d)
    for x in minors(m):
        s.assume(x > 0)
        s.floats(x > .02)
    return rs, m


def quad(m, z):
    """z' M^-1 z by cofactors"""
    n = len(m)
    dt = det(m)
    t = 0
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            t = t + (-1) ** (i + j) * det(minor) * z[i] * z[j]
    return t / dt


def gauss_ref(s, m, u):
    """log density: - log det / 2 - (z' M^-1 z - z'z) / 2"""
    z = [s.stats.norm.ppf(x) for x in u]
    return -s.np.log(det(m)) / 2 - (quad(m, z) - sum(x * x for x in z)) / 2


def pts(s, d, n=1):
    out = [[s.real(f'u{i}{j}', 0, 1) for j in range(d)] for i in range(n)]
    for r in out:
        for x in r:
            s.floats((0.01 < x) & (x < 0.99))
    return out


DIM = {'2': dict(d=2), '3': dict(d=3)}


@case('C07', over={**DIM, '4': dict(d=4, free=1)}, rtol=1e-5)
def gaussian_pdf(s, d, free=None):
    """all positive definite correlation matrices (dimension 4: one free correlation), all interior points"""
    rs, m = rhos(s, d, free)
    c = s.cp.GaussianCopula(d)
    c.params = s.arr(rs)
    u = pts(s, d)[0]
    ref = gauss_ref(s, m, u)
    s.eq(c.pdf(s.arr(u), log=True), ref, 'log density')
    s.eq(c.pdf(s.arr([u])), s.np.exp(ref), 'density')
    s.eq(c.params, rs, 'the parameters are left alone')


@case('C07', over=DIM, rtol=1e-5)
def gaussian_rows(s, d):
    """two rows against single points, plain and logarithmic"""
    rs, m = rhos(s, d, 1)
    c = s.cp.GaussianCopula(d)
    c.params = s.arr(rs)
    us = pts(s, d, 2)
    for log in (False, True):
        s.eq(c.pdf(s.arr(us), log=log), [c.pdf(s.arr(us[0]), log=log), c.pdf(s.arr(us[1]), log=log)], 'row by row')
        s.eq(c.pdf(us, log), [c.pdf(us[0], log), c.pdf(us[1], log)], 'lists row by row')


@case('C07', over=DIM)
def gaussian_independent(s, d):
    """no correlation: density 1, distribution function the product"""
    c = s.cp.GaussianCopula(d)
    u = pts(s, d)[0]
    s.eq(c.pdf(s.arr(u)), 1, 'density 1')
    s.eq(c.pdf(s.arr(u), log=True), 0, 'log density 0')
    p = 1
    for x in u:
        p = p * x
    s.eq(c.cdf(s.arr(u)), p, 'product', rtol=1e-4)
    s.eq(c.cdf(s.arr(u), log=True), s.np.log(p), 'logarithm of the product', rtol=1e-4)


def mvn_cdf(s, z, m):
    return s.scalar(s.stats.multivariate_normal.cdf(s.arr(z), cov=s.arr(m)))


@case('C07', over={**DIM, '4': dict(d=4, free=1)}, rtol=1e-4)
def gaussian_cdf(s, d, free=None):
    """all positive definite correlation matrices, all interior points; the joint normal distribution function is a black box"""
    rs, m = rhos(s, d, free)
    if d > 2:
        s.assume(rs[0] != 0)
    c = s.cp.GaussianCopula(d)
    c.params = s.arr(rs)
    us = pts(s, d, 2)
    ref = [mvn_cdf(s, [s.stats.norm.ppf(x) for x in u], m) for u in us]
    s.eq(c.cdf(s.arr(us[0])), ref[0], 'joint normal distribution function at the quantiles')
    s.eq(c.cdf(s.arr(us)), ref, 'row by row')
    s.eq(c.cdf(s.arr(us), log=True), [s.np.log(x) for x in ref], 'logarithm')
    s.eq(c.params, rs, 'the parameters are left alone')


@case('C07', over=DIM, rtol=1e-4)
def gaussian_margins(s, d):
    """one coordinate free and the others 1: the coordinate; one coordinate 0: zero"""
    rs, m = rhos(s, d)
    c = s.cp.GaussianCopula(d)
    c.params = s.arr(rs)
    u = unit(s, 'u')
    j = s.pick('coordinate', list(range(d)))
    s.eq(c.cdf(s.arr([u if i == j else 1.0 for i in range(d)])), u, 'uniform margin')
    s.eq(c.cdf(s.arr([0.0 if i == j else u for i in range(d)])), 0, 'zero on the lower face')


def form_positive(s, m, df, u):
    """a fact the solver is given: the quadratic form of a positive definite matrix is not negative"""
    z = [s.stats.t.ppf(x, df) for x in u]
    s.assume(1 + quad(m, z) / df > 0)
    return z


def t_ref(s, m, df, u):
    d = len(m)
    z = form_positive(s, m, df, u)
    lg = s.mod('scipy.special').gammaln
    np = s.np
    r = lg((df + d) / 2) + (d - 1) * lg(df / 2) - d * lg((df + 1) / 2) - np.log(det(m)) / 2
    r = r - (df + d) / 2 * np.log(1 + quad(m, z) / df)
    for x in z:
        r = r + (df + 1) / 2 * np.log(1 + x * x / df)
    return r


@case('C07', over={'2': dict(d=2), '3': dict(d=3, free=2), '+3b': dict(d=3), '+4': dict(d=4, free=1)}, rtol=1e-5, timeout=90)
def student_pdf(s, d, free=None):
    """0 < df <= 10000, positive definite correlation matrices (dimension 3 quick: two free correlations), all interior points"""
    rs, m = rhos(s, d, free)
    df = s.real('df', 0, 10000)
    s.floats((df > .8) & (df < 60))
    c = s.cp.StudentCopula(d, df)
    c.params = s.arr([df] + rs)
    u = pts(s, d)[0]
    ref = t_ref(s, m, df, u)
    s.eq(c.pdf(s.arr(u), log=True), ref, 'log density')
    s.eq(c.pdf(s.arr([u])), s.np.exp(ref), 'density')
    s.eq(c.params.rho, rs, 'the parameters are left alone')
    s.eq(c.params.df, df, 'the parameters are left alone')


@case('C07', over=DIM, rtol=1e-5)
def student_rows(s, d):
    """two rows against single points, plain and logarithmic; 0 < df <= 10000, one free correlation"""
    rs, m = rhos(s, d, 1)
    df = s.real('df', 0, 10000)
    s.floats((df > .8) & (df < 60))
    c = s.cp.StudentCopula(d, 4)
    c.params = s.arr([df] + rs)
    us = pts(s, d, 2)
    for u in us:
        form_positive(s, m, df, u)
    for log in (False, True):
        s.eq(c.pdf(s.arr(us), log=log), [c.pdf(s.arr(us[0]), log=log), c.pdf(s.arr(us[1]), log=log)], 'row by row')


@case('C07', over={'gaussian': dict(fam='gaussian'), 'student': dict(fam='student')}, rtol=1e-5)
def relabel(s, fam):
    """dimension 3: permuting the coordinates together with the correlations leaves the density unchanged"""
    rs, m = rhos(s, 3, 2)
    u = pts(s, 3)[0]
    p = s.pick('permutation', [(1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0)])
    c = s.cp.GaussianCopula(3) if fam == 'gaussian' else s.cp.StudentCopula(3, 3.0)
    if fam == 'student':
        form_positive(s, m, 3, u)
    c[:] = s.arr(m)
    a = c.pdf(s.arr(u), log=True)
    c[:] = s.arr([[m[i][j] for j in p] for i in p])
    s.eq(c.pdf(s.arr([u[i] for i in p]), log=True), a, 'relabelled')


@case('C07', rtol=1e-5, over={'gaussian': dict(fam='gaussian'), 'student': dict(fam='student')})
def log_lik(s, fam):
    """two rows inside the unit square, any correlation: the sum of the log densities"""
    r = s.real('r', -1, 1)
    s.floats(abs(r) < .97)
    c = s.cp.GaussianCopula(2) if fam == 'gaussian' else s.cp.StudentCopula(2, 3.0)
    c.params = s.arr([r] if fam == 'gaussian' else [3.0, r])
    us = pts(s, 2, 2)
    s.eq(c.log_lik(s.arr(us), to_pobs=False), c.pdf(us[0], log=True) + c.pdf(us[1], log=True), 'sum of log densities')
