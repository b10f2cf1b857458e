"""C04 rank correlations, tail dependence, Pickands function."""
from engine import models
from engine.registry import case
from .fam import *

FR = ['frank', 'frank-']


def ntheta(s, fam):
    th = theta(s, fam)
    if fam[0] == 'f':
        s.assume(abs(th) > 0.0001)
        models.debye(s)
    return th


TAU = ['clayton', 'clayton-', 'gumbel', 'frank', 'frank-']


@case('C04', over={f: dict(fam=f) for f in TAU})
def tau_deriv(s, fam):
    """all theta (Frank: |theta| > 0.0001, Debye functions by their differential equation): dtau = d tau / d theta"""
    th = ntheta(s, fam)
    c = cls(s, fam)(th)

    def tau(x):
        c.params = x
        return c.tau

    d = s.deriv(tau, [th], [1])
    c.params = th
    s.eq(c.dtau(), d, 'dtau is the derivative of tau', rtol=1e-4)
    s.eq(c.dtau(th), d, 'dtau at an explicit parameter', rtol=1e-4)
    c.params = 2.0
    s.eq(c.dtau(s.arr([th, th])), [d, d], 'dtau of an array', rtol=1e-4)
    s.eq(c.params, 2.0, 'the parameter is left alone')


@case('C04', over={f: dict(fam=f) for f in FR})
def rho_deriv(s, fam):
    """all theta, |theta| > 0.0001, Debye functions by their differential equation: drho = d rho / d theta"""
    th = ntheta(s, fam)
    c = cls(s, fam)(th)

    def rho(x):
        c.params = x
        return c.rho

    d = s.deriv(rho, [th], [1])
    c.params = th
    s.eq(c.drho(), d, 'drho is the derivative of rho', rtol=1e-4)
    s.eq(c.drho(s.arr([th])), d, 'drho at an explicit parameter', rtol=1e-4)


@case('C04', over={f: dict(fam=f) for f in ('clayton', 'clayton-', 'gumbel')})
def tau_formula(s, fam):
    """all theta: the textbook value and its inverse"""
    th = theta(s, fam)
    c = cls(s, fam)(th)
    ref = th / (th + 2) if fam[0] == 'c' else 1 - 1 / th
    s.eq(c.tau, ref, 'Kendall tau of the family')
    s.le(-1, c.tau, 'at least -1')
    s.lt(c.tau, 1, 'below 1')
    s.eq(c.itau(c.tau), th, 'itau(tau) = theta')
    t = s.real('t', -1 if fam[0] == 'c' else 0, 1)
    s.floats(t < 0.99)
    if fam[0] == 'c':
        s.floats(t > -0.99)
    d = cls(s, fam)()
    d.params = d.itau(t)
    s.eq(d.tau, t, 'tau(itau(t)) = t')
    s.eq(c.itau(s.arr([t, t / 2])), [c.itau(t), c.itau(t / 2)], 'itau of an array')
    s.eq(c.params, th, 'the parameter is left alone')


@case('C04')
def gumbel_itau_negative(s):
    """negative tau is replaced by 0 (documented), scalars and arrays"""
    c = s.cp.GumbelCopula(2.0)
    t = s.real('t', -1, 0)
    v = s.real('v', 0, 1)
    s.floats(v < 0.99)
    s.eq(c.itau(t), 1, 'negative tau is cut at 0')
    s.eq(c.itau(s.arr([t, v])), [1, 1 / (1 - v)], 'negative tau is cut at 0 in an array')


@case('C04', over={'frank': dict(fam='frank'), 'frank-': dict(fam='frank-')})
def frank_formula(s, fam):
    """all theta, |theta| > 0.0001: tau and rho in terms of the Debye functions, with the reflection for theta < 0"""
    th = ntheta(s, fam)
    c = s.cp.FrankCopula(th)
    d1, d2 = s.mod('copulae.special.debye').debye_1, s.mod('copulae.special.debye').debye_2
    a = abs(th)
    t = 1 + 4 * (d1(a) - 1) / a
    r = 1 + 12 / a * (d2(a) - d1(a))
    sg = 1 if fam == 'frank' else -1
    s.eq(c.tau, sg * t, 'Kendall tau of the family, odd in theta')
    s.eq(c.rho, sg * r, 'Spearman rho of the family, odd in theta')
    if fam == 'frank':
        s.lt(0, c.tau, 'positive dependence')
        s.lt(c.tau, 1, 'below 1')


@case('C04')
def frank_zero(s):
    """|theta| below 1e-8: the linear term"""
    th = s.real('th', -1e-9, 1e-9)
    c = s.cp.FrankCopula(th)
    s.eq(c.tau, th / 9, 'tau near 0', atol=1e-14)
    s.eq(c.rho, th / 6, 'rho near 0', atol=1e-14)
    s.eq(c.itau(0.0), 0, 'itau(0) = 0')
    s.eq(c.itau(s.arr([0.0, 0.0])), [0, 0], 'itau(0) = 0 in an array')


@case('C04', timeout=90)
def frank_itau(s):
    """0.001 < |t| < 0.999; brentq by its contract, Debye functions by their bounds"""
    t = s.real('t', .001, .999)
    if s.flag('negative'):
        t = -t
    s.floats(abs(t) < 0.9)
    models.debye(s)
    models.brentq(s)
    c = s.cp.FrankCopula()
    th = c.itau(t)
    c.params = th
    if s.mode == 'sym':
        s.assume(abs(th) > 0.0001)
    s.eq(c.tau, t, 'tau(itau(t)) = t')


def ell(s, fam, d=2):
    return s.cp.GaussianCopula(d) if fam == 'gaussian' else s.cp.StudentCopula(d, 4)


def setr(c, fam, rs):
    for i, r in enumerate(rs):
        c._rhos[i] = r


def elliptical(s, fam, rs):
    c = ell(s, fam, {1: 2, 3: 3}[len(rs)])
    c.params = s.arr(([4.0] if fam == 'student' else []) + list(rs))
    return c


EL = {f'{f}.{n}': dict(fam=f, n=n) for f in ('gaussian', 'student') for n in (1, 3)}


def rhos(s, n):
    rs = s.reals('r', n, -1, 1)
    for r in rs:
        s.floats(abs(r) < 0.98)
    return rs


@case('C04', over=EL)
def elliptical_tau(s, fam, n):
    """all correlations in (-1, 1), dimensions 2 and 3"""
    np = s.np
    rs = rhos(s, n)
    c = elliptical(s, fam, rs)
    s.eq(c.tau, [2 * np.arcsin(r) / np.pi for r in rs], 'Kendall tau of an elliptical copula')
    s.eq(c.itau(c.tau), rs, 'itau(tau) = correlations')
    s.eq(c.dtau(), [2 / (np.pi * np.sqrt(1 - r * r)) for r in rs], 'derivative of tau')
    s.eq(c.dtau(s.arr([rs[0], rs[-1] / 2])), [2 / (np.pi * np.sqrt(1 - r * r)) for r in (rs[0], rs[-1] / 2)],
         'derivative of tau at explicit correlations')
    s.eq(c.dtau(rs[0]), s.deriv(lambda x: elliptical(s, fam, [x] + rs[1:]).tau[0], [rs[0]], [1]),
         'derivative of the reported tau', rtol=1e-4)
    s.le(c.tau, 1, 'at most 1')
    s.le(-1, c.tau, 'at least -1')


@case('C04', over={f'gaussian.{n}': dict(fam='gaussian', n=n) for n in (1, 3)})
def elliptical_rho(s, fam, n):
    """all correlations in (-1, 1), dimensions 2 and 3"""
    np = s.np
    rs = rhos(s, n)
    c = elliptical(s, fam, rs)
    s.eq(c.rho, [6 * np.arcsin(r / 2) / np.pi for r in rs], 'Spearman rho of the Gaussian copula')
    s.eq(c.irho(c.rho), rs, 'irho(rho) = correlations')
    s.eq(c.drho(), [6 / (np.pi * np.sqrt(4 - r * r)) for r in rs], 'derivative of rho')
    s.eq(c.drho(rs[0]), s.deriv(lambda x: elliptical(s, fam, [x] + rs[1:]).rho[0], [rs[0]], [1]),
         'derivative of the reported rho', rtol=1e-4)
    s.le(c.rho, 1, 'at most 1')
    s.le(-1, c.rho, 'at least -1')


@case('C04')
def tail_archimedean(s):
    """all theta: textbook tail dependence"""
    fam = s.pick('family', FAMS)
    th = theta(s, fam, 'theta ' + fam)
    lo, up = cls(s, fam)(th).lambda_
    s.eq(lo, 2 ** (-1 / th) if fam == 'clayton' else 0, 'lower tail dependence')
    s.eq(up, 2 - 2 ** (1 / th) if fam == 'gumbel' else 0, 'upper tail dependence')


@case('C04', over={'1': dict(n=1), '3': dict(n=3)})
def tail_elliptical(s, n):
    """all correlations in (-1, 1), 0.5 < df < 60; Gaussian tails are independent below correlation 1"""
    np = s.np
    rs = rhos(s, n)
    g = elliptical(s, 'gaussian', rs)
    lo, up = g.lambda_
    s.eq(lo, [0] * n, 'no Gaussian tail dependence')
    s.eq(up, [0] * n, 'no Gaussian tail dependence')
    df = s.real('df', .5, 60)
    c = s.cp.StudentCopula(2 if n == 1 else 3)
    c.params = s.arr([df] + rs)
    lo, up = c.lambda_
    ref = [2 * s.stats.t.cdf(-np.sqrt((df + 1) * (1 - r) / (1 + r)), df + 1) for r in rs]
    s.eq(lo, ref, 'Student tail dependence')
    s.eq(up, ref, 'Student tail dependence')


@case('C04')
def tail_comonotone(s):
    """correlation exactly 1, dimension 3 with one free pair"""
    r = s.real('r', -1, 1)
    g = elliptical(s, 'gaussian', [1.0, r, r])
    lo, up = g.lambda_
    s.eq(lo, [1, 0, 0], 'comonotone pair')
    s.eq(up, [1, 0, 0], 'comonotone pair')


@case('C04')
def pickands(s):
    """all theta > 1, all w in (0, 1), also the end points: copula identity, bounds, scalar and array"""
    np = s.np
    th = theta(s, 'gumbel')
    c = s.cp.GumbelCopula(th)
    w = unit(s, 'w')
    a = c.A(w)
    s.eq(c.A(s.arr([w, 0.0, 1.0])), [a, 1, 1], 'array with the end points')
    s.eq(c.A(1 - w), a, 'symmetric about 1/2')
    s.eq(a, (w ** th + (1 - w) ** th) ** (1 / th), 'Pickands function of the family')
    s.le(w, a, 'at least w')


@case('C04', timeout=40)
def pickands_cdf(s):
    """all theta > 1, all u, v in (0, 1)"""
    np = s.np
    th = theta(s, 'gumbel')
    c = s.cp.GumbelCopula(th)
    u, v = unit(s, 'u'), unit(s, 'v')
    lu, lv = np.log(u), np.log(v)
    s.eq(np.log(c.cdf(s.arr([u, v]))), (lu + lv) * c.A(lv / (lu + lv)), 'C(u, v) = (uv)^A(log v / log uv)')


@case('C04')
def pickands_deriv(s):
    """all theta > 1, all w in (0, 1)"""
    th = theta(s, 'gumbel')
    c = s.cp.GumbelCopula(th)
    w = unit(s, 'w')
    s.floats((w > 0.05) & (w < 0.95))
    r = c.dAdu(s.arr([w, w]))
    s.true(r.shape == (2, 2), 'a row per argument')
    s.eq(r[0][0], s.deriv(c.A, [w], [1]), 'first derivative', rtol=1e-4)
    s.eq(r[1][1], s.deriv(c.A, [w], [2]), 'second derivative', rtol=1e-3)
    s.eq(c.dAdu(w), r[0], 'scalar argument')
