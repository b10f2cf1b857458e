"""C02 Archimedean and independence distribution functions."""
from engine.registry import case
from .fam import *

FD = [('clayton', 2), ('clayton', 3), ('frank', 2), ('frank', 3), ('gumbel', 2), ('gumbel', 3), ('frank-', 2)]
OV = {f'{f}.{d}': dict(fam=f, d=d) for f, d in FD}
OV2 = dict(OV, **{'clayton-.2': dict(fam='clayton-', d=2)})


def quick_frank3(ov):
    """three-dimensional Frank explores 27 and more branch combinations"""
    return {('+' if k == 'frank.3' else '') + k: v for k, v in ov.items()}


def point(s, d):
    return [unit(s, f'u{i}') for i in range(d)]


@case('C02', over=quick_frank3(OV))
def closed_form(s, fam, d):
    """all theta, all points of the open unit cube, dimensions 2 and 3"""
    th = theta(s, fam)
    c = cls(s, fam)(th, dim=d)
    us = point(s, d)
    s.eq(c.cdf(s.arr([us])), cdf_ref(s, fam, th, us), 'the distribution function of the family')


@case('C02')
def clayton_negative(s):
    """-1 < theta < 0, dimension 2, both sides of the boundary of the support"""
    th = theta(s, 'clayton-')
    c = s.cp.ClaytonCopula(th, dim=2)
    u, v = point(s, 2)
    w = u ** (-th) + v ** (-th) - 1
    s.floats(abs(w) > 0.01)
    r = c.cdf(s.arr([[u, v]]))
    if w > 0:
        s.eq(r, w ** (-1 / th), 'the distribution function inside the support')
    else:
        s.eq(r, 0, 'no mass outside the support')


@case('C02', over=OV2)
def margins(s, fam, d):
    """all theta, one argument free and the others 1, every position"""
    c = make(s, fam, d)
    u = unit(s, 'u')
    i = s.pick('position', range(d))
    x = [1.0] * d
    x[i] = u
    s.eq(c.cdf(s.arr([x])), u, 'uniform margins')


@case('C02', over={k: v for k, v in OV2.items() if k[-1] == '2'})
def symmetric(s, fam, d):
    """all theta, all points, dimension 2"""
    c = make(s, fam, d)
    u, v = point(s, 2)
    s.eq(c.cdf(s.arr([[u, v]])), c.cdf(s.arr([[v, u]])), 'exchangeable')


@case('C02', over={k: v for k, v in OV2.items() if k[-1] == '2'}, timeout=40)
def bounds(s, fam, d):
    """all theta, all points, dimension 2"""
    c = make(s, fam, d)
    u, v = point(s, 2)
    r = c.cdf(s.arr([[u, v]]))
    s.le(r, u, 'at most the smaller coordinate')
    s.le(r, v, 'at most the smaller coordinate')
    s.le(0, r, 'not negative')


@case('C02', over={f'{f}.2': dict(fam=f, d=2) for f in ("clayton", "gumbel", "clayton-", "frank")}, timeout=40)
def monotone(s, fam, d):
    """all theta, two points that differ in one coordinate, dimension 2"""
    fam = fam.lstrip('+')
    c = make(s, fam, d)
    u, v, w = unit(s, 'u'), unit(s, 'v'), unit(s, 'w')
    s.assume(u < w)
    s.le(c.cdf(s.arr([[u, v]])), c.cdf(s.arr([[w, v]])), 'increasing in the first argument')


@case('C02', over={k: v for k, v in OV.items() if k[-1] == '2'})
def log(s, fam, d):
    """all theta, all points, dimension 2"""
    c = make(s, fam, d)
    x = s.arr([point(s, 2)])
    s.eq(s.np.exp(c.cdf(x, log=True)), c.cdf(x), 'cdf(log=True) is the logarithm')


@case('C02', over={k: v for k, v in OV2.items() if k[-1] == '2' and 'frank' not in k})
def rows(s, fam, d):
    """all theta, two points in one call"""
    c = make(s, fam, d)
    us = [unit(s, n) for n in 'abcd']
    r = c.cdf(s.arr([us[:2], us[2:]]))
    s.true(r.shape == (2,), 'one value per row')
    s.eq(r[0], c.cdf(s.arr([us[:2]])), 'rows are independent')
    s.eq(r[1], c.cdf(s.arr(us[2:])), 'rows are independent')


@case('C02', over={'2': dict(d=2), '3': dict(d=3)})
def independence(s, d):
    """all points, dimensions 2 and 3, and a point with a coordinate 0"""
    c = s.cp.IndepCopula(d)
    us = [s.real(f'u{i}', 0, 1, lo_open=False, hi_open=False) for i in range(d)]
    p = us[0]
    for u in us[1:]:
        p = p * u
    r = c.cdf(s.arr([us, us]))
    s.eq(r, [p, p], 'product of the coordinates')
    s.assume(p > 0)
    s.floats(p > 1e-6)
    s.eq(s.np.exp(c.cdf(s.arr([us]), log=True)), p, 'cdf(log=True) is the logarithm')


@case('C02', over={f'{f}.{d}': dict(fam=f, d=d) for f, d in (('frank', 2), ('clayton', 2), ('clayton', 3))})
def theta_zero(s, fam, d):
    """theta = 0 (independence), all points"""
    c = cls(s, fam)(0.0, dim=d)
    us = point(s, d)
    p = us[0]
    for u in us[1:]:
        p = p * u
    s.eq(c.cdf(s.arr([us])), p, 'theta = 0 is independence')


@case('C02', over={'2': dict(d=2), '3': dict(d=3)})
def gumbel_one(s, d):
    """theta = 1 (independence), all points"""
    c = s.cp.GumbelCopula(1.0, dim=d)
    us = point(s, d)
    p = us[0]
    for u in us[1:]:
        p = p * u
    s.eq(c.cdf(s.arr([us])), p, 'theta = 1 is independence')
