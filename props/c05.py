"""C05 parameter domains."""
from engine.registry import case
from .fam import *

NAMES = ['clayton', 'frank', 'gumbel']
OV = {f'{f}.{d}': dict(fam=f, d=d) for f in NAMES for d in (2, 3, 4)}


def inside(fam, d, t):
    if fam == 'gumbel':
        return t >= 1
    if d > 2:
        return t >= 0
    return t >= -1 if fam == 'clayton' else t == t


START = {'clayton': 1.5, 'frank': 2.5, 'gumbel': 3.5}


@case('C05', over=OV)
def construct(s, fam, d):
    """every real theta, dimensions 2 to 4"""
    t = s.real('t')
    s.floats(abs(t) < 50)
    if inside(fam, d, t):
        c = cls(s, fam)(t, dim=d)
        s.eq(c.params, t, 'the parameter given')
        s.true(c.dim == d, 'the dimension given')
    else:
        s.raises(lambda: cls(s, fam)(t, dim=d), 'a parameter outside the domain is refused')


@case('C05', over=OV)
def assign(s, fam, d):
    """two assignments of every pair of real values, dimensions 2 to 4"""
    c = cls(s, fam)(START[fam], dim=d)
    cur = START[fam]
    for i in range(2):
        t = s.real(f't{i}')
        s.floats(abs(t) < 50)

        def put():
            c.params = t

        if inside(fam, d, t):
            put()
            cur = t
        else:
            s.raises(put, 'a parameter outside the domain is refused')
        s.eq(c.params, cur, 'the parameter is the last one accepted')


@case('C05', over={f: dict(fam=f) for f in NAMES})
def boundary(s, fam):
    """the boundary values themselves, dimensions 2 to 4, as float and as whole number"""
    d = s.pick('dim', [2, 3, 4])
    b = 1 if fam == 'gumbel' else (-1 if d == 2 and fam == 'clayton' else 0)
    if s.pick('type', ['int', 'float']) == 'float':
        b = float(b)
    c = cls(s, fam)(b, dim=d)
    s.eq(c.params, b, 'the boundary belongs to the domain')
    c = cls(s, fam)(START[fam], dim=d)
    c.params = b
    s.eq(c.params, b, 'the boundary belongs to the domain')


@case('C05')
def unset(s):
    """a copula made without a parameter has none until it is assigned"""
    for fam in NAMES:
        for d in (2, 3):
            c = cls(s, fam)(dim=d)
            s.nan(c.params, 'no parameter yet')
            c.params = 2.0
            s.eq(c.params, 2.0, 'the parameter given')


@case('C05')
def dimension(s):
    """dimension below 2 or not whole"""
    for k in ('ClaytonCopula', 'FrankCopula', 'GumbelCopula', 'GaussianCopula', 'StudentCopula', 'IndepCopula'):
        for d in (1, 0, -2):
            s.raises(lambda: getattr(s.cp, k)(dim=d), f'{k}: fewer than two dimensions are refused')
        s.true(getattr(s.cp, k)(dim=3).dim == 3, 'the dimension given')


PAIRS = {2: 1, 3: 3, 4: 6}


@case('C05', over={str(d): dict(d=d) for d in PAIRS})
def gaussian(s, d):
    """every vector of correlations, wrong lengths, single numbers; dimensions 2 to 4"""
    c = s.cp.GaussianCopula(d)
    n = PAIRS[d]
    s.eq(c.params, [0] * n, 'starts with independence')
    rs = s.reals('r', n, -1, 1)
    c.params = s.arr(rs)
    s.eq(c.params, rs, 'the parameters given')

    def put(v):
        c.params = v

    bad = s.pick('wrong length', [k for k in (1, 2, 3, 4, 6, 7) if k != n])
    s.raises(lambda: put(s.arr((rs * 7)[:bad])), 'a vector of the wrong length is refused')
    s.eq(c.params, rs, 'a refused assignment changes nothing')
    s.eq(c.sigma[d - 1, 0], rs[d - 2], 'a refused assignment changes nothing')
    put(rs)
    s.eq(c.params, rs, 'the parameters given as a list')
    x = s.real('x', -1, 1)
    c.params = x
    s.eq(c.params, [x] * n, 'one number for all pairs')


@case('C05', over={str(d): dict(d=d) for d in PAIRS})
def student(s, d):
    """every vector of degrees of freedom and correlations, wrong lengths, non-positive degrees of freedom; dimensions 2 to 4"""
    SP = s.mod('copulae.elliptical.student').StudentParams
    n = PAIRS[d]
    df0 = s.real('df0')
    s.floats(abs(df0) < 100)
    if df0 <= 0:
        s.raises(lambda: s.cp.StudentCopula(d, df0), 'non-positive degrees of freedom are refused')
        df0 = 4.0
    c = s.cp.StudentCopula(d, df0)
    s.eq(c.params.df, df0, 'the degrees of freedom given')
    s.eq(c.params.rho, [0] * n, 'starts without correlation')
    rs = s.reals('r', n, -1, 1)
    df = s.real('df')
    s.floats(abs(df) < 100)
    form = s.pick('form', ['vector', 'list', 'StudentParams'])

    def put(df, v):
        if form == 'StudentParams':
            c.params = SP(df, s.arr(v))
        elif form == 'list':
            c.params = [df] + list(v)
        else:
            c.params = s.arr([df] + list(v))

    if df <= 0:
        s.raises(lambda: put(df, rs), 'non-positive degrees of freedom are refused')
        s.eq(c.params.df, df0, 'a refused assignment changes nothing')
        s.eq(c.params.rho, [0] * n, 'a refused assignment changes nothing')
        return
    put(df, rs)
    s.eq(c.params.df, df, 'the degrees of freedom given')
    s.eq(c.params.rho, rs, 'the correlations given')
    bad = s.pick('wrong length', [k for k in (1, 2, 3, 4, 6, 7) if k != n])
    s.raises(lambda: put(3.0, (rs * 7)[:bad]), 'a vector of the wrong length is refused')
    s.eq(c.params.df, df, 'a refused assignment changes nothing')
    s.eq(c.params.rho, rs, 'a refused assignment changes nothing')


@case('C05', over={'gaussian.2': dict(fam='gaussian', d=2), 'student.2': dict(fam='student', d=2),
                   'gaussian.3': dict(fam='gaussian', d=3), 'student.3': dict(fam='student', d=3)})
def not_psd(s, fam, d):
    """correlations that form no positive semi-definite matrix: |r| > 1, or (r, .75, -.5) with negative determinant"""
    n = PAIRS[d]
    rs = [s.real('r', -2, 2)] if n == 1 else [s.real('r', -1, 1), .75, -.5]
    c = s.cp.GaussianCopula(d) if fam == 'gaussian' else s.cp.StudentCopula(d)
    det = 1 - rs[0] * rs[0] if n == 1 else 1 + 2 * rs[0] * rs[1] * rs[2] - rs[0] ** 2 - rs[1] ** 2 - rs[2] ** 2
    s.assume(det < -0.001)
    c.params = s.arr((rs if fam == 'gaussian' else [4.0] + rs))
    u = s.arr([[.2, .3, .4][:d], [.5, .1, .8][:d]])
    s.true(c.log_lik(u, to_pobs=False) == -s.np.inf, 'log likelihood minus infinity')


@case('C05')
def indep_fields(s):
    """field names of the independence copula"""
    I = s.cp.IndepCopula
    s.raises(lambda: I(2, ['a', 'b', 'c']), 'one name per dimension')
    s.raises(lambda: I(3, ['a']), 'one name per dimension')
    s.true(I(2, ['a', 'b']).params == 2, 'dimension as parameter')


@case('C05', over=OV)
def bounds(s, fam, d):
    """every real theta, dimensions 2 to 4: the published bounds against the values the setter takes"""
    c = cls(s, fam)(START[fam], dim=d)
    lo, hi = c.bounds
    t = s.real('t')
    s.floats(abs(t) < 50)

    def put():
        c.params = t

    if inside(fam, d, t):
        s.le(lo, t + 1e-6, 'an accepted parameter is not below the lower bound')
        s.le(t, hi, 'an accepted parameter is not above the upper bound')
    if (lo < t) & (t < hi):
        put()
        s.eq(c.params, t, 'a parameter inside the bounds is accepted')


@case('C05', over={f'{f}.{d}': dict(fam=f, d=d) for f in ('gaussian', 'student') for d in PAIRS})
def bounds_elliptical(s, fam, d):
    """every correlation and degrees of freedom: the published bounds"""
    n = PAIRS[d]
    lo, hi = (s.cp.GaussianCopula if fam == 'gaussian' else s.cp.StudentCopula)(d).bounds
    m = n + (fam == 'student')
    s.true(len(lo) == m and len(hi) == m, 'one bound per parameter')
    if fam == 'student':
        df = s.real('df', 0)
        s.floats(df < 1000)
        s.le(lo[0], df, 'lower bound of the degrees of freedom')
        s.le(0, lo[0], 'the degrees of freedom are not negative')
        s.le(df, hi[0], 'upper bound of the degrees of freedom')
        lo, hi = lo[1:], hi[1:]
    r = s.real('r', -1, 1)
    for i in range(n):
        s.le(lo[i], r, 'every correlation is above the lower bound')
        s.le(r, hi[i], 'every correlation is below the upper bound')
        s.le(-1 - 1e-5, lo[i], 'nothing else is')
        s.le(hi[i], 1 + 1e-5, 'nothing else is')

