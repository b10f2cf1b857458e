"""C01 Archimedean generators."""
from engine.registry import case
from .fam import *

OV = {f: dict(fam=f) for f in FAMS}


@case('C01', over=OV)
def roundtrip(s, fam):
    """all theta in the family's domain (Frank below 0: -36 < theta), all u in (0, 1)"""
    c = make(s, fam)
    u = unit(s, 'u')
    s.eq(c.psi(c.ipsi(s.arr([u]))), u, 'psi(ipsi(u)) = u')


@case('C01', over={('+' if f == 'frank' else '') + f: dict(fam=f) for f in FAMS})
def roundtrip_t(s, fam):
    """all theta, all t > 0 (Clayton below 0: t < 1)"""
    c = make(s, fam)
    t = s.real('t', 0, 1) if fam == 'clayton-' else s.real('t', 0)
    s.floats((0.01 < t) & (t < 4) & (t != 1))
    s.eq(c.ipsi(c.psi(s.arr([t]))), t, 'ipsi(psi(t)) = t', rtol=1e-5)


@case('C01', over=OV)
def ends(s, fam):
    """all theta"""
    c = make(s, fam)
    s.eq(c.ipsi(s.arr([1.0])), 0, 'ipsi(1) = 0')
    s.eq(c.psi(s.arr([0.0])), 1, 'psi(0) = 1')


@case('C01', over=OV)
def formula(s, fam):
    """all theta, u in (0, 1): the family's textbook inverse generator"""
    th = theta(s, fam)
    c = cls(s, fam)(th)
    u = unit(s, 'u')
    s.eq(c.ipsi(s.arr([u])), gen_ref(s, fam, th, u), 'the inverse generator of the family')


@case('C01', over=OV)
def ipsi_decreasing(s, fam):
    """all theta, 0 < u < v < 1"""
    c = make(s, fam)
    u, v = unit(s, 'u'), unit(s, 'v')
    s.assume(u < v)
    a, b = c.ipsi(s.arr([u])), c.ipsi(s.arr([v]))
    s.lt(0, b, 'ipsi is positive')
    s.lt(b, a, 'ipsi decreases')


@case('C01', over=OV)
def psi_decreasing(s, fam):
    """all theta, 0 < t1 < t2 (Clayton below 0: t2 < 1)"""
    c = make(s, fam)
    t1, t2 = s.reals('t', 2, 0)
    s.floats((0.01 < t1) & (t2 < 4))
    s.assume(t1 < t2)
    if fam == 'clayton-':
        s.assume(t2 < 1)
    a, b = c.psi(s.arr([t1])), c.psi(s.arr([t2]))
    s.lt(b, a, 'psi decreases')
    s.lt(0, b, 'psi is positive')
    s.lt(a, 1, 'psi is below 1')


@case('C01', over={f'{f}.{d}': dict(fam=f, d=d) for f in FAMS for d in (1, 2)})
def dipsi(s, fam, d):
    """all theta, u in (0, 1); first and second derivative of the inverse generator, and their logarithm"""
    c = make(s, fam)
    u = unit(s, 'u')
    r = c.dipsi(s.arr([u]), d)
    s.eq(r, s.deriv(lambda x: c.ipsi(s.arr([x])), [u], [d]), 'derivative of ipsi', rtol=1e-3)
    s.eq(s.np.exp(c.dipsi(s.arr([u]), degree=d, log=True)), abs(r), 'log=True gives log |dipsi|')


@case('C01', over=OV)
def ipsi_log(s, fam):
    """all theta, u in (0, 1)"""
    c = make(s, fam)
    u = unit(s, 'u')
    s.eq(s.np.exp(c.ipsi(s.arr([u]), log=True)), c.ipsi(s.arr([u])), 'ipsi(u, log=True) = log ipsi(u)')


@case('C01', over=OV)
def vector(s, fam):
    """all theta, two entries; with and without a missing value between them"""
    c = make(s, fam)
    u, v = unit(s, 'u'), unit(s, 'v')
    for name, f in (('ipsi', c.ipsi), ('psi', c.psi), ('dipsi', c.dipsi)):
        s.eq(f(s.arr([u, v])), [f(s.arr([u])), f(s.arr([v]))], name + ' works entry by entry')
        r = f(s.arr([u, s.np.nan, v]))
        s.eq(r[0], f(s.arr([u])), name + ' next to a missing value')
        s.eq(r[2], f(s.arr([v])), name + ' next to a missing value')
        s.nan(r[1], name + ' of a missing value is missing')


@case('C01', over={('+' if 'frank' in f else '') + f: dict(fam=f) for f in FAMS})
def matrix(s, fam):
    """all theta, a 2 x 2 matrix"""
    c = make(s, fam)
    us = [unit(s, n) for n in 'abcd']
    m = s.arr([us[:2], us[2:]])
    for name, f in (('ipsi', c.ipsi), ('psi', c.psi)):
        r = f(m)
        s.true(r.shape == (2, 2), name + ' keeps the shape')
        for i in range(2):
            for j in range(2):
                s.eq(r[i, j], f(s.arr([us[2 * i + j]])), name + ' works entry by entry')
