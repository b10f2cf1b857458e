"""Stand-ins for parts of the real code that have no closed form: installed on the symbolic side only.  A case that uses one
says so in its bounds; the part replaced is decided elsewhere or out of scope (DESIGN.md)."""
from fractions import Fraction

from . import decide, loader
from . import terms as tm
from .decide import z3
from .sarr import Sym, term, wrap


def _num_debye(n):
    import mpmath as mp

    def f(x):
        x = mp.mpf(x)
        if x < mp.mpf(10) ** -12:
            return 1 - x * n / (2 * (n + 1))
        if x > 200:
            return n * mp.gamma(n + 1) * mp.zeta(n + 1) / x ** n
        old = mp.mp.dps
        mp.mp.dps = 20
        try:
            return n / x ** n * mp.quad(lambda t: t ** n / mp.expm1(t), [0, x / 2, x] if x < 20 else [0, 1, 5, 20, x])
        finally:
            mp.mp.dps = old

    return f


def _debye_deriv(n):
    def f(args, i):
        x = args[0]
        em = tm.sub(tm.exp(x), tm.ONE)
        return tm.sub(tm.div(tm.const(n), em), tm.div(tm.mul(tm.const(n), tm.uf(f'debye{n}', [x])), x))

    return f


def _debye_lemma(n):
    def f(tr, zs, v, apps):
        x = zs[0]
        q = decide.q
        lo = 1 - q(Fraction(n, 2 * (n + 1))) * x
        out = [z3.Implies(x > 0, z3.And(v > 0, v < 1, v > lo))]
        if n == 1:
            out.append(z3.Implies(x > 0, z3.And(v * x < q(Fraction(16450, 10000)), v < lo + x * x / 36)))
        for zs2, v2 in apps[:8]:
            out.append(z3.Implies(z3.And(x > 0, zs2[0] > x), v2 < v))
            out.append(z3.Implies(z3.And(zs2[0] > 0, zs2[0] < x), v2 > v))
        return out

    return f


for _n in (1, 2):
    tm.UF_NUM[f'debye{_n}'] = _num_debye(_n)
    tm.uf_deriv[f'debye{_n}'] = _debye_deriv(_n)
    decide.UF_LEMMAS[f'debye{_n}'] = _debye_lemma(_n)


def debye(s):
    """the Debye functions of the extension module are the mathematical ones: D_n(x) uninterpreted, with
    D_n' = n / (e^x - 1) - n D_n / x and 1 - n x / (2 (n + 1)) < D_n < 1 for x > 0"""
    if s.mode != 'sym':
        return
    m = s.mod('copulae.special._specfunc')

    def mk(n):
        def f(x):
            x = wrap(x)
            if x < 0:
                return Sym(tm.NAN)
            if x == 0:
                return Sym(tm.ONE)
            return Sym(tm.uf(f'debye{n}', [term(x)]))

        return f

    for n in (1, 2):
        if hasattr(m, f'_debye_{n}'):
            setattr(m, f'_debye_{n}', mk(n))


def brentq(s):
    """scipy.optimize.brentq returns a point between its end points where the function vanishes"""
    if s.mode != 'sym':
        return
    k = [0]

    def f(fn, a, b, *args, **kw):
        k[0] += 1
        a, b = wrap(a), wrap(b)
        if not (wrap(fn(a)) * fn(b) <= 0):
            raise ValueError('f(a) and f(b) must have different signs')
        r = Sym(tm.var(f'root!{k[0]}'))
        s.p.assume(tm.le(term(a), term(r)))
        s.p.assume(tm.le(term(r), term(b)))
        s.p.assume(tm.eq(term(wrap(fn(r))), tm.ZERO))
        return r

    s.hook('brentq', f)
