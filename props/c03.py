"""C03 Archimedean and independence densities."""
from engine.registry import case
from .fam import *

FD = [('clayton', 2), ('clayton', 3), ('frank', 2), ('frank', 3), ('gumbel', 2), ('gumbel', 3), ('frank-', 2)]


def point(s, d):
    us = [unit(s, f'u{i}') for i in range(d)]
    for u in us:
        s.floats((u > 0.1) & (u < 0.9))
    return us


def narrow(s, th, fam):
    s.floats(abs(th) < 4)
    s.floats(abs(th) > 0.3)


@case('C03', over={('+' if f + str(d) == 'frank3' else '') + f'{f}.{d}': dict(fam=f, d=d)
                   for f, d in FD + [('clayton', 4), ('gumbel', 4), ('clayton', 5)]}, timeout=80)
def mixed_derivative(s, fam, d):
    """all theta, all points of the open unit cube, dimensions 2 to 5 (Frank 2, thorough 3): against the code's own distribution function"""
    th = theta(s, fam)
    narrow(s, th, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    s.eq(c.pdf(s.arr([us])), s.deriv(lambda *x: c.cdf(s.arr([list(x)])), us, [1] * d, h=0.01),
         'density = mixed derivative of the distribution function', rtol=2e-3, atol=1e-4)


@case('C03', over={('+' if f + str(d) == 'frank4' else '') + f'{f}.{d}': dict(fam=f, d=d)
                   for f, d in FD + [('clayton', 4), ('frank', 4), ('gumbel', 4)]},
      timeout=60)
def formula(s, fam, d):
    """all theta, all points, dimensions 2 to 5 (Frank 2 and 3, thorough 4): against the derivative of the textbook distribution function"""
    th = theta(s, fam)
    narrow(s, th, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    s.eq(c.pdf(s.arr([us])), s.deriv(lambda *x: cdf_ref(s, fam, th, list(x)), us, [1] * d, h=0.01),
         'density of the family', rtol=2e-3, atol=1e-4)


@case('C03', timeout=40)
def clayton_negative(s):
    """-1 < theta < 0, dimension 2, on both sides of the boundary of the support"""
    th = theta(s, 'clayton-')
    c = s.cp.ClaytonCopula(th, dim=2)
    u, v = point(s, 2)
    w = u ** (-th) + v ** (-th) - 1
    s.floats(abs(w) > 0.05)
    r = c.pdf(s.arr([[u, v]]))
    if w > 0:
        s.eq(r, (1 + th) * (u * v) ** (-1 - th) * w ** (-2 - 1 / th), 'density inside the support')
    elif w < 0:
        s.eq(r, 0, 'no density outside the support')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in FD if d == 2}, timeout=40)
def positive(s, fam, d):
    """all theta, all points"""
    th = theta(s, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    s.lt(0, c.pdf(s.arr([us])), 'the density is positive')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in FD if d == 2}, timeout=40)
def log(s, fam, d):
    """all theta, all points"""
    c = cls(s, fam)(theta(s, fam), dim=d)
    x = s.arr([point(s, d)])
    s.eq(s.np.exp(c.pdf(x, log=True)), c.pdf(x), 'pdf(log=True) is the logarithm')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in FD + [('clayton-', 2)] if d == 2}, timeout=40)
def invalid(s, fam, d):
    """all theta; one row with a coordinate above 1, below 0 or missing, next to a valid row"""
    th = theta(s, fam)
    narrow(s, th, fam)
    c = cls(s, fam)(th, dim=d)
    u, v = point(s, 2)
    k = s.pick('kind', ['above', 'below', 'missing'])
    if k == 'above':
        bad = s.real('high', 1)
        s.floats(bad < 3)
    elif k == 'below':
        bad = s.real('low', None, 0)
        s.floats(bad > -3)
    else:
        bad = s.np.nan
    if fam == 'clayton-':
        s.assume(u ** (-th) + v ** (-th) > 1)
    row = [bad, v] if s.pick('position', [0, 1]) == 0 else [v, bad]
    r = c.pdf(s.arr([[u, v], row]))
    s.eq(r[0], c.pdf(s.arr([[u, v]])), 'the valid row keeps its density')
    s.nan(r[1], 'no density outside the unit cube')


@case('C03', over={f'{f}.2': dict(fam=f) for f in ('clayton', 'gumbel', 'frank')}, timeout=40)
def rows(s, fam):
    """all theta, two points in one call"""
    c = make(s, fam, 2)
    us = [unit(s, n) for n in 'abcd']
    if fam == 'frank':
        for u in us:
            s.assume(u > 0.8)
    r = c.pdf(s.arr([us[:2], us[2:]]))
    s.true(r.shape == (2,), 'one value per row')
    s.eq(r[0], c.pdf(s.arr([us[:2]])), 'rows are independent')
    s.eq(r[1], c.pdf(s.arr(us[2:])), 'rows are independent')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in
                   (('frank', 2), ('clayton', 2), ('clayton', 3), ('gumbel', 2), ('gumbel', 3), ('indep', 2), ('indep', 3))})
def independence(s, fam, d):
    """theta at its independence value, all points, and the logarithm"""
    c = s.cp.IndepCopula(d) if fam == 'indep' else cls(s, fam)(1.0 if fam == 'gumbel' else 0.0, dim=d)
    us = point(s, d)
    s.eq(c.pdf(s.arr([us])), 1, 'density 1')
    s.eq(c.pdf(s.arr([us]), log=True), 0, 'log density 0')


@case('C03', over={f'{f}.2': dict(fam=f) for f in ('clayton', 'gumbel', 'frank', 'frank-')}, timeout=40)
def symmetric(s, fam):
    """all theta, all points, dimension 2"""
    c = make(s, fam, 2)
    u, v = point(s, 2)
    s.eq(c.pdf(s.arr([[u, v]])), c.pdf(s.arr([[v, u]])), 'exchangeable density')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in (('clayton', 2), ('clayton', 3), ('clayton-', 2), ('frank', 2))},
      timeout=40)
def upper_boundary(s, fam, d):
    """all theta; one coordinate equal to 1 (which the package accepts): the limit of the density there"""
    th = theta(s, fam)
    narrow(s, th, fam)
    us = point(s, d - 1)
    row = us + [1.0]
    r = cls(s, fam)(th, dim=d).pdf(s.arr([row, [1.0] * d]))
    if fam[0] == 'c':
        k = 1
        for i in range(d):
            k = k * (1 + i * th)
        p = 1
        for u in us:
            p = p * u ** (-1 - th)
        ref = k * p * (sum(u ** -th for u in us) - (d - 2)) ** (-d - 1 / th)
        top = k
    else:
        ref = th * s.np.exp(th * us[0]) / (s.np.exp(th) - 1)
        top = th / (1 - s.np.exp(-th))
    s.eq(r, [ref, top], 'the density on the upper boundary')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in (('clayton', 3), ('gumbel', 3), ('frank', 3))}, timeout=60)
def permuted(s, fam, d):
    """all theta, all points: reordering the coordinates, dimension 3"""
    th = theta(s, fam)
    narrow(s, th, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    r = c.pdf(s.arr([us]))
    s.eq(c.pdf(s.arr([[us[1], us[0], us[2]]])), r, 'exchangeable density')
    s.eq(c.pdf(s.arr([[us[2], us[1], us[0]]])), r, 'exchangeable density')


@case('C03', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in (('clayton', 3), ('gumbel', 3))}, timeout=60)
def invalid_rows(s, fam, d):
    """all theta, dimension 3: a bad coordinate in any position, the other row and the logarithm"""
    th = theta(s, fam)
    narrow(s, th, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    k = s.pick('position', [0, 1, 2])
    bad = s.pick('kind', [1.5, -0.5, s.np.nan])
    row = list(us)
    row[k] = bad
    r = c.pdf(s.arr([row, us]), log=True)
    s.nan(r[0], 'no density outside the unit cube')
    s.eq(r[1], c.pdf(s.arr([us]), log=True), 'the valid row keeps its density')


@case('C03', over={f'frank.{d}': dict(d=d) for d in (2, 3)}, max_paths=600, timeout=80)
def strong(s, d):
    """Frank's family, theta from 30 to 600, coordinates between 1/20 and 19/20, dimensions 2 and 3; exponentials with the range of double precision and sums of a constant and a negligible term rounded: the logarithmic density is a finite number, the distribution function between 0 and 1"""
    th = s.real('th', 30, 600)
    us = [s.real(f'u{i}', .05, .95) for i in range(d)]
    c = s.cp.FrankCopula(th, dim=d)
    with s.machine():
        v = c.pdf(s.arr([us]), log=True)
        w = c.cdf(s.arr([us]))
    s.true(s.np.isfinite(s.scalar(v)), 'a finite logarithmic density')
    s.le(0, w, 'not below 0', atol=1e-9)
    s.le(w, 1, 'not above 1', atol=1e-9)
