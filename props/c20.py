"""C20 Combinatorial and logarithmic special functions."""
import math
from itertools import permutations

from engine.registry import case


def sf(s):
    return s.mod('copulae.special.special_func')


def cb(s):
    return s.mod('copulae.special.combinatorics')


def within(s, name, lo, hi):
    x = s.real(name, lo, hi)
    s.floats((lo + .01 < x) & (x < hi - .01))
    return x


def falling(x, n):
    r = 1
    for i in range(n):
        r = r * (x - i)
    return r


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# ---- numbers, through the polynomial identities they are defined by
@case('C20', over={('+' if n > 8 else '') + str(n): dict(n=n) for n in range(0, 13)})
def stirling_first(s, n):
    """n up to 8 (12 thorough), every real x: the falling factorial of x is the sum of first-kind numbers times powers; the vector form lists them"""
    m = sf(s)
    x = s.real('x')
    s.floats((-3 < x) & (x < 9))
    got = [m.stirling_first(n, k) for k in range(n + 1)]
    s.eq(total(c * x ** k for k, c in enumerate(got)), falling(x, n), 'expansion of the falling factorial')
    a = m.stirling_first_all(n)
    s.eq(len(a), n, 'length of the vector')
    s.true(list(a) == got[1:], 'vector of numbers')
    # cycles
    s.true(all((-1) ** (n - k) * c >= 0 for k, c in enumerate(got)), 'alternating signs')


@case('C20', over={('+' if n > 8 else '') + str(n): dict(n=n) for n in range(0, 13)})
def stirling_second(s, n):
    """n up to 8 (12 thorough), every real x: powers of x are the sums of second-kind numbers times falling factorials; the vector form lists them"""
    m = sf(s)
    x = s.real('x')
    s.floats((-3 < x) & (x < 9))
    got = [m.stirling_second(n, k) for k in range(n + 1)]
    s.eq(total(c * falling(x, k) for k, c in enumerate(got)), x ** n if n else 1, 'expansion of the power')
    s.true(list(m.stirling_second_all(n)) == got[1:], 'vector of numbers')


@case('C20', over={('+' if n > 7 else '') + str(n): dict(n=n) for n in range(0, 13)})
def eulerian(s, n):
    """n up to 7 (12 thorough), every real x: powers of x are the sums of Eulerian numbers times binomials of x + k over n (Worpitzky), the numbers are symmetric, add up to n!, and the vector form lists them"""
    m = sf(s)
    x = s.real('x')
    s.floats((-3 < x) & (x < 9))
    got = [m.eulerian(n, k) for k in range(n + 1)]
    s.eq(total(c * falling(x + k, n) / math.factorial(n) for k, c in enumerate(got)), x ** n if n else 1, 'Worpitzky identity')
    s.eq(total(got), math.factorial(n), 'sum of the numbers')
    if n:
        s.true(got[:n] == got[:n][::-1] and got[n] == 0, 'symmetry')
        s.true(list(m.eulerian_all(n)) == got[:n], 'vector of numbers')
    else:
        s.eq(m.eulerian_all(0), 1, 'vector of numbers')


@case('C20', over={str(n): dict(n=n) for n in (20, 25, 40)})
def large_numbers(s, n):
    """n = 20, 25, 40 and every k: the recurrences hold exactly in integers"""
    m = sf(s)
    k = s.pick('k', range(1, n - 1 + 1))
    s.true(m.stirling_first(n + 1, k) == m.stirling_first(n, k - 1) - n * m.stirling_first(n, k), 'first-kind recurrence')
    s.true(m.stirling_second(n + 1, k) == m.stirling_second(n, k - 1) + k * m.stirling_second(n, k), 'second-kind recurrence')
    s.true(m.eulerian(n + 1, k) == (n + 1 - k) * m.eulerian(n, k - 1) + (k + 1) * m.eulerian(n, k), 'Eulerian recurrence')


@case('C20')
def number_arguments(s):
    """n up to 6, any integer k: k outside 0..n is refused, whole floats and numeric strings are taken as integers, lists are refused"""
    m = sf(s)
    n = s.pick('n', range(0, 6 + 1))
    k = s.pick('k', range(-2, 8 + 1))
    for f in (m.stirling_first, m.stirling_second, m.eulerian):
        if 0 <= k <= n:
            s.true(f(n, k) == f(float(n), float(k)) and f(n, k) == f(str(n), str(k)), 'integers from floats and strings')
            s.true(isinstance(f(n, k), int), 'an integer')
        else:
            s.raises(lambda: f(n, k), 'k outside the range')
        s.raises(lambda: f([n], [k]), 'lists refused', TypeError)
        s.raises(lambda: f('x', k), 'text refused', TypeError)
    if n:
        s.raises(lambda: m.eulerian_all(-n), 'negative n')


@case('C20', over={str(n): dict(n=n) for n in (3, 4, 5)})
def ascents(s, n):
    """n up to 5: Eulerian numbers count permutations by ascents, Stirling numbers count permutations by cycles and partitions by blocks"""
    m = sf(s)
    asc, cyc = [0] * (n + 1), [0] * (n + 1)
    for p in permutations(range(n)):
        asc[sum(a < b for a, b in zip(p, p[1:]))] += 1
        seen, c = set(), 0
        for i in range(n):
            if i not in seen:
                c += 1
                while i not in seen:
                    seen.add(i)
                    i = p[i]
        cyc[c] += 1
    k = s.pick('k', range(0, n + 1))
    s.true(m.eulerian(n, k) == asc[k], 'permutations with k ascents')
    s.true(abs(m.stirling_first(n, k)) == cyc[k], 'permutations with k cycles')


# ---- binomials and permutations
@case('C20', over={str(r): dict(r=r) for r in range(0, 8)})
def comb_of_reals(s, r):
    """every real n that is no negative integer, r up to 7: the binomial is the falling factorial over r!, the permutation the falling factorial"""
    m = cb(s)
    n = s.real('n', 0)
    s.floats(n < 20)
    # off the poles of the gamma functions used: n - r + 1 > 0, or not an integer
    k = s.pick('whole', range(0, r + 1))
    s.assume((n > r - 1) if k == r else ((n > k) & (n < k + 1)))
    if k != r:
        s.floats((n > k + .05) & (n < k + .95))
    else:
        s.floats(n > r - .9)
    s.eq(m.comb(n, r), falling(n, r) / math.factorial(r), 'binomial')
    s.eq(m.perm(n, r), falling(n, r), 'permutation')


@case('C20')
def comb_identities(s):
    """every real n and r with n > r > 1: Pascal's rule, symmetry, binomial times r! is the permutation, logarithms are logarithms, arrays element by element"""
    m = cb(s)
    r = within(s, 'r', 1, 9)
    e = within(s, 'e', 0, 6)
    n = r + e
    s.eq(m.comb(n, r), m.comb(n - 1, r) + m.comb(n - 1, r - 1), 'Pascal')
    s.eq(m.comb(n, r), m.comb(n, n - r), 'symmetry')
    s.eq(m.comb(n, r, log=True), s.np.log(m.comb(n, r)), 'logarithm of the binomial')
    s.eq(m.perm(n, r, log=True), s.np.log(m.perm(n, r)), 'logarithm of the permutation')
    s.eq(m.perm(n + 1, r), (n + 1) * m.perm(n, r - 1), 'recurrence of the permutation')
    s.eq(m.comb(n + 1, r) * r, (n + 1) * m.comb(n, r - 1), 'absorption')
    ns, rs = [n, n + 1], [r, r - 1]
    for f in (m.comb, m.perm):
        for log in (False, True):
            want = [f(a, b, log=log) for a, b in zip(ns, rs)]
            for wrap in (s.arr, list):
                got = f(wrap(ns), wrap(rs), log=log)
                s.eq(len(got), 2, 'length')
                for a, b in zip(got, want):
                    s.eq(a, b, 'element by element')
            got = f(n, s.arr(rs), log=log)
            for a, b in zip(got, [f(n, x, log=log) for x in rs]):
                s.eq(a, b, 'one n, several r')
            got = f(s.arr(ns), r, log=log)
            for a, b in zip(got, [f(x, r, log=log) for x in ns]):
                s.eq(a, b, 'several n, one r')


# ---- polynomial evaluation
@case('C20', over={str(m): dict(m=m) for m in (1, 2, 3, 4, 6)})
def polynomial(s, m):
    """any coefficients (up to 6), any points: the value of the polynomial, with the shape of the points"""
    c = [s.real(f'c{i}') for i in range(m)]
    x = [s.real(f'x{i}') for i in range(4)]
    for v in c + x:
        s.floats((-3 < v) & (v < 3))
    f = sf(s).polyn_eval
    want = [total(k * v ** i if i else k for i, k in enumerate(c)) for v in x]
    for label, coef in (('list', c), ('array', s.arr(c))):
        for pts in (x, s.arr(x), s.arr(x[:3])):
            got = f(coef, pts)
            s.eq(len(got), len(pts), 'one value per point')
            for a, b in zip(got, want):
                s.eq(a, b, f'values, coefficients in a {label}')
        s.eq(f(coef, s.arr(x).reshape(2, 2)), s.arr(want).reshape(2, 2), 'matrix of points')
        s.eq(f(coef, s.arr(x[:1])), want[0], 'one point in an array')
        s.true(s.np.ndim(f(coef, s.arr(x[:1]))) == 0, 'one value is a number')
        s.eq(f(coef, s.scalar(x[1])), want[1], 'a number')


# ---- signs
@case('C20', over={str(d): dict(d=d) for d in range(0, 7)})
def sign(s, d):
    """every alpha in (0, 1], d up to 6, every j up to d: the sign of the binomial of alpha j over d times (-1)^(d-j); vectors element by element with recycling"""
    f = sf(s).sign_ff
    al = s.real('alpha', 0, 1, True, False)
    s.floats((.1 < al) & ((al < .98) | (al == 1)))
    js = list(range(d + 1))
    want = []
    for j in js:
        v = falling(al * j, d) * (-1) ** (d - j)
        w = 0
        if s.decide(v > 0):
            w = 1
        elif s.decide(v < 0):
            w = -1
        s.eq(f(al, j, d), w, 'sign')
        want.append(w)
    if d:
        s.same(f(al, s.np.array(js), d), s.arr(want), 'vector of j')
        s.same(f(al, s.np.array(js), s.np.array([d] * (d + 1))), s.arr(want), 'vectors of both')
        s.same(f(al, s.np.array(js), s.np.array([d])), s.arr(want), 'recycled d')
        ds = [d, d + 1, d + 2]
        s.same(f(al, d, s.np.array(ds)), s.arr([f(al, d, x) for x in ds]), 'vector of d')
        jj, dd = [d, d - 1], [d + 1, d, d + 2, d]
        s.same(f(al, s.np.array(jj), s.np.array(dd)), s.arr([f(al, jj[i % 2], x) for i, x in enumerate(dd)]), 'recycled vector of j')
        jj, dd = [d, d - 1, 0, d], [d + 1, d]
        s.same(f(al, s.np.array(jj), s.np.array(dd)), s.arr([f(al, x, dd[i % 2]) for i, x in enumerate(jj)]), 'recycled vector of d')


@case('C20')
def sign_domain(s):
    """every alpha outside (0, 1], negative j or d: refused"""
    f = sf(s).sign_ff
    al = s.real('alpha')
    if s.decide((al <= 0) | (al > 1)):
        s.raises(lambda: f(al, s.np.array([1, 2]), s.np.array([2, 2])), 'alpha outside')
    else:
        j = s.pick('j', range(-3, 2 + 1))
        d = s.pick('d', range(-3, 2 + 1))
        if j < 0 or d < 0:
            s.raises(lambda: f(al, s.np.array([j, 1]), s.np.array([d, 2])), 'negative arguments')
            s.raises(lambda: f(al, j, d), 'negative arguments')


# ---- logarithms
@case('C20')
def log_exp(s):
    """every positive x: exp of log1mexp is 1 - exp(-x); every real x: exp of log1pexp is 1 + exp(x); scalars, lists, arrays, matrices"""
    m = sf(s)
    x = [s.real(f'x{i}', 0, None, True) for i in range(4)]
    for v in x:
        s.floats((.01 < v) & (v < 30))
    y = [v - 3 for v in x]
    for f, pts, want in ((m.log1mexp, x, [1 - s.np.exp(-v) for v in x]), (m.log1pexp, y, [1 + s.np.exp(v) for v in y])):
        for v, w in zip(pts, want):
            s.eq(s.np.exp(f(s.scalar(v))), w, 'value')
        for c in (pts, s.arr(pts)):
            got = f(c)
            s.eq(len(got), 4, 'shape')
            for v, w in zip(got, want):
                s.eq(s.np.exp(v), w, 'element by element')
        s.eq(s.np.exp(f(s.arr(pts).reshape(2, 2))), s.arr(want).reshape(2, 2), 'matrix')
    # the two are inverse to each other on negative arguments
    for v in x:
        s.eq(m.log1pexp(-m.log1mexp(v) - v) , -m.log1mexp(v), 'log(1 + exp(-x) / (1 - exp(-x))) = -log(1 - exp(-x))')


@case('C20', over={f'{n}x{d}': dict(n=n, d=d) for n, d in ((1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3))}, max_paths=300)
def log_sum(s, n, d):
    """any logarithms in a vector or matrix up to 3 rows and 3 columns, any offset: the logarithm of the column sums"""
    f = sf(s).log_sum
    x = [[s.real(f'x{i}{j}') for j in range(d)] for i in range(n)]
    o = [s.real(f'o{j}') for j in range(d)]
    for v in o + [v for r in x for v in r]:
        s.floats((-20 < v) & (v < 20))
    e = s.np.exp
    want = [total(e(r[j]) for r in x) for j in range(d)]

    def check(got, label):
        if d == 1:
            s.true(s.np.ndim(got) == 0, f'{label}: a number')
            s.eq(e(got), want[0], label)
        else:
            s.eq(len(got), d, f'{label}: one value per column')
            for g, w in zip(got, want):
                s.eq(e(g), w, label)

    check(f(s.arr(x)), 'largest value as offset')
    check(f(s.arr(x), o[0]), 'one offset')
    check(f(s.arr(x), o), 'offsets in a list')
    check(f(s.arr(x), s.arr(o)), 'offsets in an array')
    if d == 1:
        check(f(s.arr([r[0] for r in x])), 'vector')
        check(f(s.arr([r[0] for r in x]), o[0]), 'vector with offset')
    s.raises(lambda: f(s.arr(x), o + [o[0]]), 'offsets of another length')
    s.raises(lambda: f(s.arr(x).reshape(1, n, d)), 'three dimensions')


@case('C20')
def log_sum_of_zeros(s):
    """any real logarithm with logarithms of zero: zeros do not count, and the sum of zeros is zero"""
    f = sf(s).log_sum
    a, b = s.real('a'), s.real('b')
    s.floats((-20 < a) & (a < 20) & (-20 < b) & (b < 20))
    ninf = -s.np.inf
    s.eq(f(s.arr([a, ninf])), a, 'one zero')
    s.true(f(s.arr([ninf, ninf])) == ninf, 'only zeros')
    g = f(s.arr([[a, ninf, ninf], [ninf, ninf, b]]))
    s.eq(g[0], a, 'first column')
    s.true(g[1] == ninf, 'column of zeros')
    s.eq(g[2], b, 'last column')


# ---- polylogarithm
METHODS = ('default', 'neg-stirling', 'neg-eulerian')


@case('C20', over={('+' if n > 7 else '') + str(n): dict(n=n) for n in range(0, 11)})
def poly_log(s, n):
    """order -n up to 7 (10 thorough), every real z other than 1: every method gives z times the derivative of the next order (order 0: z / (1 - z))"""
    m = sf(s)
    z = s.real('z')
    s.assume(abs(z - 1) > .001)
    s.floats((abs(z - 1) > .2) & (abs(z) < 4))
    kw = [dict(method=k) for k in METHODS] + [{}, dict(method='Neg-Stirling')]
    if n == 0:
        want = z / (1 - z)
    else:
        # sum of k^n z^k: n! coefficients of the partial fractions, independent of both methods
        a = [1]
        for k in range(2, n + 1):       # Eulerian triangle by recurrence
            a = [(j + 1) * (a[j] if j < len(a) else 0) + (k - j) * (a[j - 1] if j else 0) for j in range(k)]
        want = total(c * z ** (j + 1) for j, c in enumerate(a)) / (1 - z) ** (n + 1)
        if n < 6:
            d = s.deriv(lambda t: m.poly_log(t, 1 - n), [z], [1])
            s.eq(z * d, m.poly_log(z, -n), 'derivative of the next order')
    for k in kw:
        s.eq(m.poly_log(z, -n, **k), want, str(k))
        s.eq(m.poly_log(z, float(-n), **k), want, f'{k}, order as a float')


@case('C20', over={('+' if n > 5 else '') + str(n): dict(n=n) for n in range(0, 10)})
def poly_log_logarithm(s, n):
    """order -n up to 5 (9 thorough), every z in (0, 1): the logarithmic form is the logarithm, for every method"""
    m = sf(s)
    z = within(s, 'z', 0, 1)
    for k in METHODS:
        s.eq(s.np.exp(m.poly_log(z, -n, k, True)), m.poly_log(z, -n, k), k)


@case('C20')
def poly_log_order_one(s):
    """every z below 1: order 1 is -log(1 - z), positive where the logarithm is asked for"""
    m = sf(s)
    z = s.real('z', None, 1, True, True)
    s.floats((-4 < z) & (z < .98))
    for k in METHODS:
        s.eq(m.poly_log(z, 1, k), -s.np.log(1 - z), k)
        s.true(s.np.ndim(m.poly_log(z, 1, k)) == 0, 'a number')
    if s.decide(z > 0):
        s.eq(s.np.exp(m.poly_log(z, 1, log=True)), -s.np.log(1 - z), 'logarithm')
        s.eq(z * s.deriv(lambda t: m.poly_log(t, 1), [z], [1]), m.poly_log(z, 0), 'derivative')


@case('C20')
def poly_log_order_two(s):
    """every z in (0.3, 0.31): order 2 is the dilogarithm, its logarithmic form the logarithm"""
    m = sf(s)
    di = s.mod('copulae.special.dilog').dilog
    z = s.real('z', .3, .31)
    s.eq(m.poly_log(z, 2), di(z), 'dilogarithm')
    s.eq(m.poly_log(z, 2, log=True), s.np.log(di(z)), 'logarithm')
    s.eq(m.poly_log([z, 1 + 0 * z], 2), di(s.arr([z, 1])), 'list')


@case('C20', over={k: dict(method=k) for k in METHODS})
def poly_log_arrays(s, method):
    """any points, orders 1, 0, -2 and -3: lists, arrays and matrices element by element"""
    m = sf(s)
    z = [within(s, f'z{i}', 0, 1) for i in range(4)]
    for o in (1, 0, -2, -3):
        for log in (False, True):
            want = [m.poly_log(v, o, method, log) for v in z]
            for c in (z, s.arr(z)):
                got = m.poly_log(c, o, method, log)
                s.eq(len(got), 4, 'one value per point')
                for a, b in zip(got, want):
                    s.eq(a, b, 'element by element')
            s.eq(m.poly_log(s.arr(z).reshape(2, 2), o, method, log), s.arr(want).reshape(2, 2), 'matrix')
            s.true(s.np.ndim(m.poly_log(s.arr(z[:1]), o, method, log)) == 0, 'one point gives a number')


@case('C20')
def poly_log_refused(s):
    """any order that is positive (other than 1 and, by default, 2) or not whole, unknown methods: refused"""
    m = sf(s)
    o = s.real('o', -6, 6)
    if s.decide((o == s.np.floor(o)) & (o <= 1)):
        return
    for k in METHODS:
        if k == 'default' and s.decide(o == 2):
            continue
        s.raises(lambda: m.poly_log(.3, o, k), 'order')
    s.raises(lambda: m.poly_log(.3, -1, 'stirling'), 'method')


# ---- trigonometric helpers
@case('C20', over={f: dict(f=f) for f in ('cospi', 'sinpi', 'cospi2', 'sinpi2')})
def trig(s, f):
    """every real x: values, shift and reflection identities, scalars, lists, arrays and matrices"""
    m = s.mod('copulae.special.trig')
    g = getattr(m, f)
    h = 2 if f[-1] == '2' else 1
    x = [s.real(f'x{i}') for i in range(4)]
    for v in x:
        s.floats((-4 < v) & (v < 4))
    base = s.np.cos if f[:3] == 'cos' else s.np.sin
    want = [base(v * s.np.pi / h) for v in x]
    even = 1 if f[:3] == 'cos' else -1
    for v, w in zip(x, want):
        s.eq(g(s.scalar(v)), w, 'value')
        s.eq(g(s.scalar(-v)), even * w, 'reflection')
        s.eq(g(s.scalar(v + 2 * h)), w, 'period')
        s.eq(g(s.scalar(v + h)), -w, 'half a period')
    for c in (x, s.arr(x)):
        for a, b in zip(g(c), want):
            s.eq(a, b, 'element by element')
    s.eq(g(s.arr(x).reshape(2, 2)), s.arr(want).reshape(2, 2), 'matrix')
    k = s.pick('k', range(-8, 8 + 1))
    c, d = [1, 0, -1, 0], [0, 1, 0, -1]
    t = (c if even == 1 else d)[(k * (2 // h)) % 4]
    s.eq(g(k), t, 'whole arguments')


@case('C20', over={f: dict(f=f) for f in ('tanpi', 'tanpi2')})
def tangent(s, f):
    """every x off the poles: the tangent is sine over cosine"""
    m = s.mod('copulae.special.trig')
    h = 2 if f[-1] == '2' else 1
    x = s.real('x', -h / 2, h / 2)
    s.floats((-.45 * h < x) & (x < .45 * h))
    si, co = getattr(m, f.replace('tan', 'sin')), getattr(m, f.replace('tan', 'cos'))
    g = getattr(m, f)
    s.eq(g(s.scalar(x)) * co(s.scalar(x)), si(s.scalar(x)), 'sine over cosine')
    for a, b in zip(g(s.arr([x, -x])), (g(x), -g(x))):
        s.eq(a, b, 'element by element')


# ---- roots
@case('C20', over={f'{i}{"+-"[k < 0]}': dict(ends=e, m=k) for i, e in enumerate([(4., 6.), (-3., 2.), (100., 0.), (-50., -100.), (0., .5)]) for k in (2., -.5)})
def root(s, ends, m):
    """a line with any root between the ends or up to 2.5 percent of an end beyond it (any order of the ends), Brent's method by its contract: the root, from ends of opposite signs that enclose it"""
    lo, hi = sorted(ends)
    r = s.real('r', lo - .025 * abs(lo), hi + .025 * abs(hi))
    f = lambda x: m * (x - r)
    calls = []

    def brentq(g, a, b, *args, **kw):
        calls.append((a, b))
        s.true((g(a) < 0) != (g(b) < 0), 'ends of opposite signs')
        s.le(a, r, 'the lower end is below the root')
        s.le(r, b, 'the upper end is above the root')
        return r

    s.hook('brentq', brentq)
    find = s.mod('copulae.special.optimize').find_root
    got = find(f, *ends, max_iter=12)
    s.eq(got, r, 'the root')
    if s.decide((lo < r) & (r < hi)):
        s.eq(s.arr(list(calls[0])), s.arr([lo, hi]), 'ends of opposite signs are kept')
    s.eq(find(f, lo, hi, 1e-4, 12), r, 'the root, arguments by position')


@case('C20')
def no_root(s):
    """any line without a change of sign near, any ends; ends that are not finite; no function"""
    find = s.mod('copulae.special.optimize').find_root
    c = s.real('c', .01, 5)
    a, b = s.real('a', -2, 2), s.real('b', -2, 2)
    s.hook('brentq', lambda *a, **k: 0.)
    s.raises(lambda: find(lambda x: c, a, b, max_iter=4), 'a positive constant')
    s.raises(lambda: find(lambda x: -c, a, b, max_iter=4), 'a negative constant')
    s.raises(lambda: find(lambda x: x - 100 - c, a, b, max_iter=4), 'a root out of reach')
    for bad in (s.np.inf, -s.np.inf, s.np.nan):
        s.raises(lambda: find(lambda x: x - c, bad, 3.), 'an end that is not finite')
        s.raises(lambda: find(lambda x: x - c, 0., bad), 'an end that is not finite')
    s.raises(lambda: find(c, 0., 3.), 'not a function')


# ---- the range of the machine's exponential
@case('C20', over={f'{n}x{d}': dict(n=n, d=d) for n, d in ((1, 1), (2, 1), (3, 1), (2, 2))}, max_paths=400)
def log_sum_range(s, n, d):
    """logarithms up to 100000 of either sign, exponentials with the range of double precision: the answer stays between the largest value of the column and that plus the logarithm of the number of rows"""
    f = sf(s).log_sum
    x = [[s.real(f'x{i}{j}', -100000, 100000) for j in range(d)] for i in range(n)]
    with s.machine():
        got = s.np.atleast_1d(f(s.arr(x)))
    for j in range(d):
        for i in range(n):
            s.le(x[i][j], got[j], 'not below a value')
        top = x[0][j]
        for i in range(1, n):
            if s.decide(x[i][j] > top):
                top = x[i][j]
        s.le(got[j], top + s.np.log(s.scalar(n)), 'not above the largest value by more than the logarithm of their number')


@case('C20')
def log1pexp_range(s):
    """every x up to 100000 of either sign, exponentials with the range of double precision: log(1 + exp x) lies between max(0, x) and that plus log 2"""
    x = s.real('x', -100000, 100000)
    with s.machine():
        got = sf(s).log1pexp(s.scalar(x))
    top = x if s.decide(x > 0) else 0
    s.le(top, got, 'not below')
    s.le(got, top + s.np.log(s.scalar(2)), 'not above by more than log 2')
