"""C21 Clausen, Debye and dilogarithm functions.

The functions are approximations: Chebyshev sums and truncated series, chosen by the size of the argument.  Each is compared
with its defining integral over whole ranges of the argument: derivatives of the code's own expression against the
integrand, anchored at one end, or against a longer series.  Elementary functions enter through Taylor polynomials whose
remainders on the range are below 1e-17."""
from fractions import Fraction as F
from math import factorial

from engine.registry import case

EPS = 1e-9
ZETA3 = F(1202056903159594285399738161511449991, 10 ** 36)


def mods(s):
    return (s.mod('copulae.special.clausen').clausen, s.mod('copulae.special.debye').debye_1,
            s.mod('copulae.special.debye').debye_2, s.mod('copulae.special.dilog').dilog)


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def q(s, c):
    """a rational constant"""
    return s.scalar(F(c)) if s.mode == 'sym' else float(c)


def horner(s, c, x):
    r = q(s, c[-1])
    for k in c[:-1][::-1]:
        r = r * x + q(s, k)
    return r


def close(s, a, b, label, tol=EPS, log=None):
    """|a - b| <= tol; pi enters as its first 31 digits, like every decimal constant of the code.
    log = (v, p, eps): a - b is linear in v, and v is p up to eps"""
    if s.mode == 'sym':
        from engine import nf, terms as tm
        from engine.sarr import Sym, term
        d = tm.subst(tm.sub(term(s.scalar(a)), term(s.scalar(b))), {tm.PI.id: tm.const(tm.TWO_PI / 2)})
        if log:
            v, p, eps = term(log[0]), term(log[1]), log[2]
            logs = [v] + [u for u in tm.subterms([d]) if u.op == 'log' and v.op == 'log' and not nf.rat(tm.sub(u.args[0], v.args[0])).num]
            at = [tm.subst(d, {u.id: x for u in logs}) for x in (tm.ZERO, tm.ONE, tm.const(2))]
            k = tm.sub(at[1], at[0])
            s.eq(Sym(tm.sub(at[2], at[1])), Sym(k), label + ', linear in the logarithm')
            for z in (k, tm.neg(k)):
                s.le(Sym(z) * eps, tol / 4, label + ', remainder of the logarithm')
            d, tol = tm.add(at[0], tm.mul(k, p)), tol / 2
        a, b = Sym(d), 0
    s.le(a - b, tol, label, rtol=0, atol=tol)
    s.le(b - a, tol, label, rtol=0, atol=tol)


# ---- Clausen
@case('C21', over={str(k): dict(k=k) for k in (0, 1, 2, 5)})
def clausen_period(s, k):
    """every x in (0, 2 pi) and k up to 5: odd, with period 2 pi, and antisymmetric about pi"""
    f = mods(s)[0]
    pi = s.np.pi
    w = s.real('w', 0, 2)
    s.assume((w < 1) | (w > 1))     # at pi the value is zero up to rounding, see clausen_anchors
    s.floats((.01 < w) & (w < 1.99))
    x = w * pi
    v = f(x)
    s.eq(f(-x), -v, 'odd')
    s.eq(f(x + 2 * k * pi), v, 'periodic')
    s.eq(f(x - 2 * k * pi), v, 'periodic')
    s.eq(f(2 * pi - x), -v, 'antisymmetric about pi')
    s.eq(f(2 * k * pi), 0, 'zero at multiples of 2 pi')


@case('C21', timeout=120, prove_ms=20000, atol=1e-9)
def clausen_derivative(s):
    """every x in (1e-6, pi]: the derivative of the derivative is the one of -log(2 sin(x/2)), within 1e-9 times 2 sin(x/2)"""
    f = mods(s)[0]
    x = s.real('x', 1e-6, 3.1415926)
    s.floats((.2 < x) & (x < 3))
    d2 = s.deriv(lambda t: f(t), [x], [2], h=.02)
    # (x cos(x/2), 2 sin(x/2)) by Taylor polynomials in x^2
    n = 14
    co = horner(s, [F((-1) ** k, factorial(2 * k) * 4 ** k) for k in range(n)], x * x)
    si = horner(s, [F((-1) ** k, factorial(2 * k + 1) * 4 ** k) for k in range(n)], x * x)   # 2 sin(x/2) / x
    close(s, d2 * si * x, -co, 'second derivative')


@case('C21', atol=1e-12)
def clausen_anchors(s):
    """at pi/2 the value is Catalan's constant, at pi it is 0, near 0 it is x (1 - log x), each within 1e-12"""
    f = mods(s)[0]
    pi = s.np.pi
    close(s, f(pi / 2), q(s, F(915965594177219015054603514932384110774, 10 ** 39)), 'value at pi/2', 1e-12)
    close(s, f(s.scalar(pi)), 0, 'value at pi', 1e-12)
    s.eq(f(0), 0, 'value at 0')
    x = s.real('x', 1e-18, 1e-5)
    close(s, f(x), x * (1 - s.np.log(x)), 'near 0', 1e-12)


# ---- Debye functions
def tail(s, order, x, m):
    """the integral of t^order / (e^t - 1) from x on, m terms"""
    e = s.np.exp(-x)
    t = 0
    for i in range(m, 0, -1):
        t = (t + (x / i + q(s, F(1, i * i)) if order == 1 else x * x / i + 2 * x / (i * i) + q(s, F(2, i ** 3)))) * e
    return t


def debye(s, order):
    f = mods(s)[order]
    if order == 1:
        return lambda x: x * f(x), s.np.pi ** 2 / 6
    return lambda x: x * x * f(x) / 2, q(s, 2 * ZETA3)


@case('C21', over={str(k): dict(order=k) for k in (1, 2)}, timeout=120, prove_ms=20000, atol=1e-9)
def debye_derivative(s, order):
    """every x in (1e-6, 4]: the derivative of x D1, or x^2 D2 / 2, is x^order / (e^x - 1) within 1e-9"""
    g, _ = debye(s, order)
    x = s.real('x', 1e-6, 4, False, False)
    s.floats((.1 < x) & (x < 3.9))
    d = s.deriv(g, [x], [1], h=.01)
    em1 = horner(s, [F(1, factorial(k + 1)) for k in range(45)], x)     # (e^x - 1) / x
    close(s, d * em1, x ** (order - 1), 'derivative')


@case('C21', over={str(k): dict(order=k) for k in (1, 2)}, atol=1e-12)
def debye_anchors(s, order):
    """at 4 and just above, and at 36: the integral from 0 by its tail series, within 1e-12; 1 at 0; missing below 0"""
    g, c = debye(s, order)
    f = mods(s)[order]
    for x in (s.scalar(4.), s.scalar(4.001), s.scalar(36.)):
        close(s, g(x), c - tail(s, order, x, 30), 'integral', 1e-12)
    s.eq(f(0), 1, 'value at 0')
    y = s.real('y', None, 0, True, True)
    s.nan(f(y), 'negative argument')


@case('C21', over={str(k): dict(order=k) for k in (1, 2)}, atol=1e-13)
def debye_near_zero(s, order):
    """every x up to 2e-6: 1 - x/4 or 1 - x/3 within 1e-12"""
    f = mods(s)[order]
    x = s.real('x', 0, 2e-6, False, False)
    close(s, f(x), 1 - x / (4 if order == 1 else 3), 'value', 1e-12)


RANGES = [(4.001, 4.02), (7, 7.1), (11, 11.1), (20, 20.3), (33.8, 35.3), (35.3, 40), (40, 300), (300, 708), (709, 5000)]


@case('C21', over={f'{k},{lo}': dict(order=k, lo=lo, hi=hi) for k in (1, 2) for lo, hi in RANGES}, atol=1e-9)
def debye_tail(s, order, lo, hi):
    """x in several ranges from 4 to 5000: the derivative of x D1, or x^2 D2 / 2, is x^order / (e^x - 1) within 1e-9"""
    g, c = debye(s, order)
    x = s.real('x', lo, hi, False, False)
    s.floats((lo + .001 < x) & (x < hi - .001))
    e = s.np.exp(-x)
    close(s, s.deriv(g, [x], [1]) * (1 - e), x ** order * e, 'derivative')


# ---- dilogarithm
def li(s, x, n):
    """the defining series"""
    return horner(s, [F(0)] + [F(1, k * k) for k in range(1, n + 1)], x)


def log1m(s, x, n):
    """the logarithm of 1 - x, for 0 < x <= 1/2, is its partial sum less at most the remainder"""
    return s.np.log(1 - x), horner(s, [F(0)] + [F(-1, k) for k in range(1, n + 1)], x), F(2, 2 ** n)


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((1e-9, 2e-9), (.001, .0011), (.01, .011), (.1, .105), (.2, .205),
                                                            (.24, .25))}, prove_ms=20000, atol=1e-13)
def dilog_series(s, lo, hi):
    """x in several ranges up to 1/4: the defining series within 1e-12"""
    f = mods(s)[3]
    x = s.real('x', lo, hi)
    close(s, f(x), li(s, x, 60), 'series', 1e-12)


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((.251, .255), (.3, .31), (.37, .38), (.45, .46), (.49, .5))},
      prove_ms=30000, timeout=120, atol=1e-13)
def dilog_middle(s, lo, hi):
    """x in several ranges from 1/4 to 1/2: the defining series within 1e-12"""
    f = mods(s)[3]
    x = s.real('x', lo, hi)
    v = f(x)
    close(s, v, li(s, x, 60), 'series', 1e-12, log1m(s, x, 60))


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((.25, .26), (.3, .31), (.35, .36), (.4, .41), (.49, .5))})
def dilog_functional(s, lo, hi):
    """x in several ranges from 1/4 to 1/2: reflection at 1 - x, inversion at 1/x, Landen at x/(x-1) and 1/(1-x), duplication"""
    f = mods(s)[3]
    x = s.real('x', lo, hi)
    pi, log = s.np.pi, s.np.log
    v = f(x)
    s.eq(f(1 - x), pi ** 2 / 6 - log(x) * log(1 - x) - v, 'reflection')
    s.eq(f(1 / x), pi ** 2 / 3 - log(x) ** 2 / 2 - v, 'inversion')
    w = f(1 - x)
    s.eq(f(1 / (1 - x)), pi ** 2 / 3 - log(1 - x) ** 2 / 2 - w, 'inversion')


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((.002, .0021), (.012, .0121), (.1, .105), (.2, .205))},
      prove_ms=30000, timeout=120, atol=1e-12)
def dilog_far(s, lo, hi):
    """x in several ranges below 1/4: reflection at 1 - x and inversion at 1/x within 1e-11"""
    f = mods(s)[3]
    x = s.real('x', lo, hi)
    pi, log = s.np.pi, s.np.log
    v, w, y = f(x), f(1 - x), f(1 / x)
    lg = log1m(s, x, 60)
    close(s, w, pi ** 2 / 6 - log(x) * log(1 - x) - v, 'reflection', 1e-11, lg)
    close(s, y, pi ** 2 / 3 - log(x) ** 2 / 2 - v, 'inversion', 1e-11, lg)


@case('C21', prove_ms=30000, atol=1e-12)
def dilog_above_one(s):
    """x from 1 to 1.01: the expansion agrees with the reflection formula within 1e-12"""
    f = mods(s)[3]
    h = s.real('h', 1e-9, .0099)
    L = s.np.log(h)
    log1p = horner(s, [F(0)] + [F((-1) ** (k + 1), k) for k in range(1, 13)], h)
    want = s.np.pi ** 2 / 6 - L * log1p - li(s, -h, 13)
    close(s, f(1 + h), want, 'expansion', 1e-12, (L, s.scalar(0), 1 / h))


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((.001, .0011), (.02, .021), (.3, .31), (.45, .46), (.9, .91), (1.2, 1.21), (2.5, 2.6))})
def dilog_negative(s, lo, hi):
    """x in several ranges up to 2.6: the value at -x by the duplication formula"""
    f = mods(s)[3]
    x = s.real('x', lo, hi)
    s.eq(f(-x), f(x * x) / 2 - f(x), 'duplication')


@case('C21', atol=1e-12)
def dilog_anchors(s):
    """0, 1/2, 1 and -1 have the textbook values"""
    f = mods(s)[3]
    pi, log = s.np.pi, s.np.log
    s.eq(f(0), 0, 'at 0')
    close(s, f(1), pi ** 2 / 6, 'at 1', 1e-12)
    close(s, f(-1), -pi ** 2 / 12, 'at -1', 1e-12)
    close(s, f(s.scalar(.5)), pi ** 2 / 12 - log(s.scalar(2.)) ** 2 / 2, 'at 1/2', 1e-12)
    close(s, f(2), pi ** 2 / 4, 'at 2', 1e-12)


# ---- dilogarithm of a complex argument
def cz(s, x, y):
    """the complex number x + iy, or a vector of them"""
    if s.mode == 'conc':
        return s.np.asarray(x, float) + 1j * s.np.asarray(y, float) if isinstance(x, list) else complex(x, y)
    from engine.cyshim import CX
    return CX(s.arr(x), s.arr(y)) if isinstance(x, list) else CX(s.scalar(x), s.scalar(y))


def dic(s):
    return s.mod('copulae.special.dilog').dilog_complex


def powers(w, n):
    """powers of a complex number of modulus 1 with rational parts, from 0 to n"""
    r = [(F(1), F(0))]
    for _ in range(n):
        a, b = r[-1]
        r.append((a * w[0] - b * w[1], a * w[1] + b * w[0]))
    return r


RAYS = {'3+4i': (F(3, 5), F(4, 5)), '-5+12i': (F(-5, 13), F(12, 13)), '-4-3i': (F(-4, 5), F(-3, 5)), '8-15i': (F(8, 17), F(-15, 17))}


def ray(s, w, t):
    return cz(s, q(s, w[0]) * t, q(s, w[1]) * t)


@case('C21', over={f'{k}.{lo}': dict(w=k, lo=lo, hi=hi) for k, lo, hi in (
    ('3+4i', .001, .0011), ('3+4i', .24, .245), ('-5+12i', .1, .102), ('-4-3i', .2, .202), ('8-15i', .05, .051))}, prove_ms=20000, atol=1e-13)
def complex_series(s, w, lo, hi):
    """complex arguments on four rays, modulus in several ranges up to 1/4: the defining series within 1e-12"""
    t = s.real('t', lo, hi)
    v, p = dic(s)(ray(s, RAYS[w], t)), powers(RAYS[w], 60)
    close(s, v.real, horner(s, [F(0)] + [p[k][0] / k ** 2 for k in range(1, 61)], t), 'series, real part', 1e-12)
    close(s, v.imag, horner(s, [F(0)] + [p[k][1] / k ** 2 for k in range(1, 61)], t), 'series, imaginary part', 1e-12)


def mul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def clog(s, x, y):
    """principal logarithm"""
    return s.np.log(x * x + y * y) / 2, s.np.arctan2(y, x)


@case('C21', over={f'{k}.{lo}': dict(w=k, lo=lo, hi=hi) for k, lo, hi in (
    ('3+4i', .26, .262), ('3+4i', .5, .502), ('-5+12i', .41, .412), ('-4-3i', .7, .701), ('8-15i', .75, .7505))}, prove_ms=20000, atol=1e-12)
def complex_middle(s, w, lo, hi):
    """complex arguments on four rays, modulus in several ranges from 1/4 to 3/4: 1 + (1 - z) / z log(1 - z) + sum of z^k / (k^2 (k+1)) within 1e-11"""
    t = s.real('t', lo, hi)
    v, p, n = dic(s)(ray(s, RAYS[w], t)), powers(RAYS[w], 120), 120
    a, b = [q(s, c) for c in RAYS[w]]
    l = clog(s, 1 - a * t, -b * t)
    m = mul((a / t - 1, -b / t), l)         # (1 - z) / z is conj(w) / t - 1
    c = [F(1, k * k * (k + 1)) for k in range(1, n + 1)]
    for part, i in (('real', 0), ('imag', 1)):
        sm = horner(s, [F(1 - i)] + [p[k][i] * c[k - 1] for k in range(1, n + 1)], t)
        close(s, getattr(v, part) - m[i], sm, 'series, ' + part, 1e-11)


@case('C21', over={f'{k}.{lo}': dict(w=k, lo=lo, hi=hi) for k, lo, hi in (
    ('3+4i', .985, .986), ('-5+12i', .981, .982), ('-4-3i', .99, .991), ('8-15i', .995, .996))}, prove_ms=20000, atol=1e-9)
def complex_rim(s, w, lo, hi):
    """complex arguments on four rays just inside the unit circle: the expansion in the logarithm of the modulus"""
    t = s.real('t', lo, hi)
    f = dic(s)
    v = f(ray(s, RAYS[w], t))
    a, b = RAYS[w]
    d = (1 - a) ** 2 + b ** 2
    w0 = mul((a, b), ((1 - a) / d, b / d))                # w / (1 - w) = Li_0(w)
    # Li_-m as a polynomial in u = w / (1 - w):  w d/dw u = u + u^2
    poly, lis = [F(0), F(1)], []
    for m in range(5):
        val, pw = (F(0), F(0)), (F(1), F(0))
        for c in poly:
            val = val[0] + c * pw[0], val[1] + c * pw[1]
            pw = mul(pw, w0)
        lis.append(val)
        der = [k * c for k, c in enumerate(poly)][1:]
        poly = [(der[k - 1] if 1 <= k <= len(der) else F(0)) + (der[k - 2] if 2 <= k <= len(der) + 1 else F(0)) for k in range(len(poly) + 1)]
    qa, qb = q(s, a), q(s, b)
    th, L = s.np.arctan2(qb, qa), s.np.log(t)
    one = clog(s, 1 - qa, -qb)
    re = [s.np.pi ** 2 / 6 - th * (2 * s.np.pi - th) / 4 if b > 0 else s.np.pi ** 2 / 6 + th * (2 * s.np.pi + th) / 4, -one[0]]
    im = [mods(s)[0](th), -one[1]]
    for x, y in lis:
        re.append(q(s, x))
        im.append(q(s, y))
    for part, c in (('real', re), ('imag', im)):
        s.eq(getattr(v, part), total(c[k] * L ** k / factorial(k) for k in range(7)), 'expansion, ' + part)


@case('C21', over={f'{k}.{lo}': dict(w=k, lo=lo, hi=hi) for k, lo, hi in (('3+4i', .2, .201), ('8-15i', .24, .241), ('3+4i', .4, .401), ('8-15i', .01, .0101))})
def complex_reflection(s, w, lo, hi):
    """1 - z on a ray, z to the right of 0.732 and inside the unit circle: reflection"""
    t = s.real('t', lo, hi)
    a, b = [q(s, c) for c in RAYS[w]]
    f = dic(s)
    x, y = 1 - a * t, -b * t
    v, u = f(cz(s, x, y)), f(cz(s, a * t, b * t))
    m = mul(clog(s, x, y), clog(s, a * t, b * t))
    s.eq(v.real + u.real, s.np.pi ** 2 / 6 - m[0], 'reflection, real part')
    s.eq(v.imag + u.imag, -m[1], 'reflection, imaginary part')


@case('C21', over={f'{k}.{lo}': dict(w=k, lo=lo, hi=hi) for k, lo, hi in (
    ('3+4i', .2, .201), ('-5+12i', .5, .501), ('-4-3i', .1, .101), ('-4-3i', .985, .986), ('8-15i', .6, .6005))})
def complex_inversion(s, w, lo, hi):
    """1 / z on a ray inside the unit circle: inversion"""
    t = s.real('t', lo, hi)
    a, b = [q(s, c) for c in RAYS[w]]
    f = dic(s)
    x, y = a / t, -b / t
    v, u = f(cz(s, x, y)), f(cz(s, a * t, b * t))
    l = clog(s, -x, -y)
    m = mul(l, l)
    s.eq(v.real + u.real, -s.np.pi ** 2 / 6 - m[0] / 2, 'inversion, real part')
    s.eq(v.imag + u.imag, -m[1] / 2, 'inversion, imaginary part')


@case('C21', over={f'{k}.{lo}{"i" * inv}': dict(w=k, lo=lo, hi=hi, inv=inv) for k, lo, hi in (
    ('3+4i', .1, .101), ('-5+12i', .5, .501), ('-4-3i', .99, .991), ('8-15i', .6, .6005)) for inv in (0, 1)})
def complex_conjugate(s, w, lo, hi, inv):
    """on a ray inside and (reciprocals) outside the unit circle: the conjugate has the conjugate value"""
    t = s.real('t', lo, hi)
    a, b = [q(s, c) for c in RAYS[w]]
    f = dic(s)
    r = 1 / t if inv else t
    v, u = f(cz(s, a * r, b * r)), f(cz(s, a * r, -b * r))
    s.eq(u.real, v.real, 'real part')
    s.eq(u.imag, -v.imag, 'imaginary part')


@case('C21', over={f'{lo}': dict(lo=lo, hi=hi) for lo, hi in ((.001, .0011), (.3, .31), (1.2, 1.21), (2.5, 2.6), (-.5, -.49), (-3, -2.9))})
def complex_real(s, lo, hi):
    """real arguments: the real dilogarithm, with imaginary part -pi log x above 1"""
    x = s.real('x', lo, hi)
    f, g = dic(s), mods(s)[3]
    for v in (f(cz(s, x, 0)), f(x), f(abs(x), 0 if lo > 0 else s.np.pi)):
        s.eq(v.real, g(x), 'real part')
        s.eq(v.imag, -s.np.pi * s.np.log(x) if lo > 1 else 0, 'imaginary part')


@case('C21', over={str(k): dict(k=k) for k in (0, 1, -1, -2)})
def complex_circle(s, k):
    """every angle w pi with w in (0.01, 0.99), either sign, and whole turns added: on the unit circle the closed form and the Clausen function"""
    w = s.real('w', F(1, 100), F(99, 100))
    pi = s.np.pi
    for g in (1, -1):
        v = dic(s)(1, g * w * pi + 2 * k * pi)
        s.eq(v.real, pi ** 2 / 6 + (w * pi) ** 2 / 4 - pi * w * pi / 2, 'real part')
        s.eq(v.imag, g * mods(s)[0](w * pi), 'imaginary part')


@case('C21', over={f'{k},{lo}{"i" * inv}': dict(k=k, w=w, lo=lo, hi=hi, inv=inv) for k in (1, -1) for w, lo, hi, inv in (
    ('3+4i', .1, .101, 0), ('-4-3i', .6, .6005, 0), ('8-15i', .6, .6005, 1), ('-5+12i', .2, .201, 1))})
def complex_turns(s, k, w, lo, hi, inv):
    """on a ray inside and (reciprocals) outside the unit circle: whole turns of the angle do not matter, and the polar and the complex argument agree"""
    t = s.real('t', lo, hi)
    a, b = [q(s, c) for c in RAYS[w]]
    r, th = 1 / t if inv else t, s.np.arctan2(b, a)
    f = dic(s)
    v, u, z = f(r, th), f(r, th + 2 * k * s.np.pi), f(cz(s, a * r, b * r))
    for part in ('real', 'imag'):
        s.eq(getattr(u, part), getattr(v, part), 'whole turn, ' + part)
        s.eq(getattr(z, part), getattr(v, part), 'complex number, ' + part)


@case('C21')
def complex_containers(s):
    """four arguments on a ray: vectors and matrices, polar or complex, threaded or not, are answered element by element; the arguments stay as they are and have equal shapes"""
    f = dic(s)
    r = [s.real(f'r{j}', .01, .0101) for j in range(4)]
    a, b = [q(s, c) for c in RAYS['3+4i']]
    th = s.np.arctan2(b, a)
    want = [f(x, th) for x in r]
    for t in ({}, dict(threaded=True), dict(threaded=False)):
        for shape in ((4,), (2, 2), (1, 4)):
            R, T = s.arr(r).reshape(shape), s.arr([th] * 4).reshape(shape)
            Z = cz(s, [a * x for x in r], [b * x for x in r]).reshape(*shape)
            br, bt = s.snap(R), s.snap(T)
            for got in (f(R, T, **t), f(Z, **t)):
                s.true(s.np.shape(got.real) == shape, 'shape')
                for part in ('real', 'imag'):
                    s.eq(getattr(got, part), s.arr([getattr(w, part) for w in want]).reshape(shape), 'element by element, ' + part)
            s.same(R, br, 'modulus')
            s.same(T, bt, 'angle')
        one = f([r[0]], [th], **t)
        s.eq(one.real, want[0].real, 'one number in a list')
        s.eq(one.imag, want[0].imag, 'one number in a list')
    s.raises(lambda: f(s.arr(r), s.arr([th] * 3)), 'different lengths', (AssertionError, ValueError))
    s.eq(f(0, th).real, 0, 'at 0')
    s.eq(f(0, th).imag, 0, 'at 0')


# ---- containers and threads
FNS = dict(clausen=(0, (.5, 6)), debye_1=(1, (.5, 3.5)), debye_2=(2, (.5, 3.5)), dilog=(3, (.3, .31)))


@case('C21', over={k: dict(name=k) for k in FNS})
def containers(s, name):
    """any arguments in a range: numbers, lists, vectors and matrices, threaded or not, are answered element by element with the shape of the input; the argument stays as it is"""
    i, (lo, hi) = FNS[name]
    f = mods(s)[i]
    x = [s.real(f'x{j}', lo, hi) for j in range(4)]
    want = [f(s.scalar(v)) for v in x]
    for t in ({}, dict(threaded=True), dict(threaded=False)):
        for v, w in zip(x, want):
            s.eq(f(s.scalar(v), **t), w, 'a number')
            s.true(s.np.ndim(f(s.scalar(v), **t)) == 0, 'a number')
            s.eq(f([v], **t), w, 'one number in a list')
        for c in (x, tuple(x), s.arr(x)):
            got = f(c, **t)
            s.true(s.np.shape(got) == (4,), 'shape of a vector')
            s.eq(got, s.arr(want), 'a vector')
        for shape in ((2, 2), (4, 1), (1, 4)):
            a = s.arr(x).reshape(shape)
            before = s.snap(a)
            got = f(a, **t)
            s.true(s.np.shape(got) == shape, 'shape of a matrix')
            s.eq(got, s.arr(want).reshape(shape), 'a matrix')
            s.same(a, before, 'argument')
        s.eq(f(s.arr(x).reshape(2, 2).T, **t), s.arr(want).reshape(2, 2).T, 'a transposed matrix')
        s.true(s.np.shape(f(s.arr(x)[:0], **t)) == (0,), 'no arguments')
        s.eq(f(s.arr(x)[::2], **t), s.arr(want[::2]), 'a strided vector')


@case('C21')
def whole_numbers(s):
    """whole numbers are answered like floats"""
    for f in mods(s):
        a, b = f(s.np.array([1, 2, 3])), [f(float(k)) for k in (1, 2, 3)]
        for u, v in zip(a, b):
            s.eq(u, v, 'integers')
        s.eq(f(2), f(2.), 'an integer')
