"""C25 Stable distribution: density, tails, parametrisations and random variates."""
from engine.registry import case

SPEC = ('scalar', 'vector', 'matrix')


def place(s):
    """scale and location"""
    g, d = s.real('g', 0), s.real('d', -3, 3)
    s.floats((.3 < g) & (g < 4))
    return g, d


def shaped(s, x, form):
    return x[0] if form == 'scalar' else s.arr(x) if form == 'vector' else s.arr([x]) if form == 'row' else s.arr([x[:2], x[2:]])


def flat(s, v):
    return list(s.arr(v).ravel())


def S(s):
    return s.mod('copulae.stats.stable.stable').skew_stable


@case('C25', over={f'{form}.{pm}': dict(form=form, pm=pm) for form in ('scalar', 'vector', 'matrix') for pm in (0, 1)})
def normal(s, form, pm):
    """index 2: any skewness, scale, location and points (one number, vectors of 3, matrices of 2 by 2): normal density with variance twice the squared scale"""
    g, d = place(s)
    b = s.real('b', -1, 1, lo_open=False, hi_open=False)
    n = dict(scalar=1, vector=3, matrix=4)[form]
    x = s.reals('x', n, -9, 9)
    for log in (False, True):
        r = S(s).pdf(shaped(s, x, form), 2., b, g, d, pm, log)
        if form != 'scalar':
            s.true(s.np.shape(r) == ((3,) if form == 'vector' else (2, 2)), 'shape')
        for v, y in zip(flat(s, r), x):
            z = (y - d) / g
            e = -z * z / 4 - s.np.log(2 * s.np.sqrt(s.np.pi) * g)
            s.eq(v, e if log else s.np.exp(e), 'normal density')
        r2 = S(s).logpdf(shaped(s, x, form), 2., b, g, d, pm)
        if log:
            s.same(flat(s, r2), flat(s, r), 'logpdf')


@case('C25', over={f'{form}.{pm}': dict(form=form, pm=pm) for form in ('scalar', 'vector', 'matrix') for pm in (0, 1, 2)})
def cauchy(s, form, pm):
    """index 1 without skewness: any scale, location and points, in every parametrisation: Cauchy density"""
    g, d = place(s)
    n = dict(scalar=1, vector=3, matrix=4)[form]
    x = s.reals('x', n, -9, 9)
    for log in (False, True):
        r = S(s).pdf(shaped(s, x, form), 1., 0., g, d, pm, log)
        if form != 'scalar':
            s.true(s.np.shape(r) == ((3,) if form == 'vector' else (2, 2)), 'shape')
        for v, y in zip(flat(s, r), x):
            e = g / (s.np.pi * (g * g + (y - d) ** 2))
            s.eq(v, s.np.log(e) if log else e, 'Cauchy density')


class Quad:
    """an integral is the length of the interval times a positive number; what was integrated is kept"""

    def __init__(self, s, root=None):
        self.s, self.calls, self.root = s, [], root
        self.k = s.real('k', 0)
        s.floats((.2 < self.k) & (self.k < 2))
        self.roots = []
        s.hook('quad', self.quad)
        s.hook('brentq', self.brentq)

    def quad(self, f, a, b, *args, **kw):
        self.calls.append((f, a, b))
        return self.k * (b - a), 0.

    def brentq(self, f, a, b, *args, **kw):
        """a root inside the bracket, the same for the same bracket"""
        for x, y, r in self.roots:
            if x is a and y is b or (self.s.mode == 'conc' and x == a and y == b):
                return r
        if self.root == 'real':     # bisection on exact numbers
            for _ in range(20):
                m = (a + b) / 2
                a, b = (m, b) if self.s.decide(f(a) * f(m) > 0) else (a, m)
            return (a + b) / 2
        if self.root:
            return a + (b - a) * self.root
        w = self.s.real(f'w{len(self.roots)}', .001, .999)
        self.s.floats((.2 < w) & (w < .8))
        r = a + (b - a) * w
        self.roots.append((a, b, r))
        return r


def angle(s, a, sign):
    """an angle t and the skewness whose shape angle it is, for index a"""
    top = min(1., 2 / a - 1)
    t = s.real('t', .001, .99) * (s.np.pi / 2 * top) * sign
    b = s.np.tan(a * t) / s.np.tan(a * s.np.pi / 2)
    s.assume((-1 < b) & (b < 1))
    return t, b


SIDES = [(side, r, sign) for side, r, sign in (('right', True, 1), ('right.back', True, -1), ('right.0', True, 0), ('left', False, 1), ('left.back', False, -1), ('left.0', False, 0))]


@case('C25', over={f'{p}{a}.{n}': dict(a=a, right=r, sign=k) for p, a in (('', .5), ('', 1.5), ('+', .75), ('+', 1.25)) for n, r, k in SIDES
                    if not (a == .75 and k == 0 or a == 1.25 and n == 'left')}, max_paths=400)
def integral(s, a, right, sign):
    """given index other than 1 and 2, any skewness strictly between -1 and 1 (by sign), scale, location and point on one side of the shape angle's location: the density is Nolan's integral: the integrand at any angle, the limits of integration and the factor in front"""
    np = s.np
    q = Quad(s)
    g, d = place(s)
    t, b = angle(s, a, sign)
    z = s.real('z', .02)
    s.floats(z < 20)
    zeta = -np.tan(a * t)
    y = zeta + z if right else zeta - z
    if a < 1:       # neither 0 nor 1 halfway, where the search for the peak would go on
        p = (t if right else -t)
        m = np.pi / 4 - p / 2
        G = np.cos(a * (m + p) - m) * (np.cos(a * p) * np.cos(m) * (z / np.sin(a * (m + p))) ** a) ** (1 / (a - 1))
        s.assume(G > .001)
        s.assume((G > 1.001) | (G < .999))
    v = S(s).pdf(d + g * y, a, b, g, d, 0)
    if not q.calls:
        return
    t = t if right else -t
    total = q.k * (np.pi / 2 + t)
    s.eq(v, a / (np.pi * abs(a - 1) * z) * total / g, 'factor and limits of the integral', rtol=1e-4)
    w = s.real('w', .001, .999)
    th = -t + (np.pi / 2 + t) * w
    s.floats((.05 < w) & (w < .95))
    at = a * (t + th)
    V = np.cos(a * t) ** (1 / (a - 1)) * (np.cos(th) / np.sin(at)) ** (a / (a - 1)) * np.cos(at - th) / np.cos(th)
    h = z ** (a / (a - 1)) * V
    s.assume(h < 700)
    seen = []
    for f, lo, hi in q.calls:
        s.le(-t, lo, 'limits within the range')
        s.le(hi, np.pi / 2, 'limits within the range')
        if f not in seen:
            seen.append(f)
            s.eq(f(th), h * np.exp(-h), 'integrand')


@case('C25', over={f'{a}.{k}': dict(a=a, sign=k) for a in (.5, 1.5) for k in (1, 0, -1)}, max_paths=200)
def centre(s, a, sign):
    """given index, any skewness: the density where the point is the shape angle's location has Zolotarev's closed form, plain and logarithmic"""
    np = s.np
    g, d = place(s)
    t, b = angle(s, a, sign)
    y = d - g * np.tan(a * t)
    G = s.mod('scipy.special').gamma(1 + 1 / a)
    e = G * np.cos(t) * np.cos(a * t) ** (1 / a) / np.pi
    s.eq(S(s).pdf(y, a, b, g, d, 0), e / g, 'density', rtol=1e-8)
    s.eq(S(s).pdf(y, a, b, g, d, 0, True), np.log(e / g), 'logarithm', rtol=1e-8)


@case('C25', over={f'{k}': dict(sign=k) for k in (1, -1)}, max_paths=200)
def integral_one(s, sign):
    """index 1, any skewness of the given sign, scale, location and point: the density is Nolan's integral: the integrand at any angle, the limits of integration and the factor in front; plain and logarithmic"""
    np = s.np
    q = Quad(s)
    g, d = place(s)
    b = s.real('b', .01, 1, hi_open=False) * sign
    z = s.real('z', -9, 9)
    s.floats((abs(b) > .2) & (abs(z) < 3))
    v = S(s).pdf(d + g * z, 1., b, g, d, 0)
    p = v
    s.eq(v, np.pi / 2 / (2 * abs(b)) * 2 * q.k / g, 'factor and limits of the integral', rtol=1e-4)
    w = s.real('w', -.99, .99)
    th = np.pi / 2 * w
    k = np.pi / (2 * b)
    h = (k + th) / k * np.exp((k + th) * np.tan(th) - k * z) / np.cos(th)
    seen = []
    for f, lo, hi in q.calls:
        s.le(-1, lo, 'limits within the range')
        s.le(hi, 1, 'limits within the range')
        if f not in seen:
            seen.append(f)
            v = f(w)
            if s.decide(v != 0):      # zero where the exponential would overflow
                s.eq(v, h * np.exp(-h), 'integrand')
            else:
                s.le(700, h, 'integrand')
    s.eq(S(s).pdf(d + g * z, 1., b, g, d, 0, True), np.log(p), 'logarithm', rtol=1e-4)


@case('C25', over={f'{a}': dict(a=a) for a in (.5, 1., 1.5, 1.75)})
def tail(s, a):
    """given index, any skewness, two points (vector, column) of either sign: tail approximation, mirrored for negative points, plain and logarithmic"""
    np = s.np
    P = s.mod('copulae.stats.stable.pdf')
    C = s.mod('copulae.stats.stable.common')
    b = s.real('b', -1, 1)
    x = s.reals('x', 2)
    G = s.mod('scipy.special').gamma(a)
    c = np.sin(np.pi * a / 2) * G / np.pi
    s.eq(C.stable_tail(a), c, 'constant', rtol=1e-8)
    s.eq(C.stable_tail(a, True), np.log(c), 'logarithm of the constant', rtol=1e-8)
    for v in x:
        s.assume(v != 0)
        s.floats((abs(v) > .1) & (abs(v) < 50))
    for form in ('vector', 'row'):
        for log in (False, True):
            r = P.pareto(shaped(s, x, form), a, b, log)
            for i in range(2):
                e = a * (1 + (b if s.decide(x[i] > 0) else -b)) * c * abs(x[i]) ** (-1 - a)
                s.eq(flat(s, r)[i], np.log(e) if log else e, 'tail', rtol=1e-8)
    r = P.pareto(x[0], a, b)
    s.eq(flat(s, r)[0], a * (1 + (b if s.decide(x[0] > 0) else -b)) * c * abs(x[0]) ** (-1 - a), 'tail of one number', rtol=1e-8)


@case('C25')
def tail_ends(s):
    """indices 0 and 2: the tail constant is one half and zero"""
    C = s.mod('copulae.stats.stable.common')
    s.eq(C.stable_tail(0), .5, 'index 0')
    s.eq(C.stable_tail(0, True), -s.np.log(2), 'index 0, logarithm')
    s.eq(C.stable_tail(2), 0, 'index 2')
    s.true(C.stable_tail(2, True) == -float('inf'), 'index 2, logarithm')


@case('C25', over={f'{a}.{b}.{form}': dict(a=a, b=b, form=form) for a, b in ((1.5, .5), (.5, -.5), (1., .5), (1., -1.)) for form in ('vector', 'matrix')}, max_paths=300)
def vanishing(s, a, b, form):
    """given index, skewness, scale and four given points of either sign, in a vector or matrix: where the numerical integral vanishes the density is the tail approximation, elsewhere the integral stays; any pattern of vanishing"""
    np = s.np
    x = [3., -2., 5., -7.] if a != 1 else [.75, -.5, 1.5, -1.25]
    g = 2.
    ks = [s.real(f'k{i}', 0, 1, lo_open=False) for i in range(4)]
    mark = []
    bt = b * np.tan(np.pi * a / 2) if a != 1 else 0
    t0 = np.arctan(bt) / a

    def V(i, th):
        y = x[i] / g
        if a == 1:
            h = (1 + 2 * b * th / np.pi) * np.exp((np.pi / 2 / b + th) * np.tan(th) - np.pi * y / 2 / b) / np.cos(th)
        else:
            t = t0 if y > -bt else -t0
            z = abs(y + bt)
            h = np.cos(a * t) ** (1 / (a - 1)) * (np.cos(th) / np.sin(a * (t + th))) ** (a / (a - 1)) * np.cos(a * (t + th) - th) / np.cos(th) * z ** (a / (a - 1))
        return h * np.exp(-h)

    def quad(f, lo, hi, *args, **kw):
        th = 1.2 if a != 1 else .3
        v = f(th if a != 1 else th / (np.pi / 2))
        i = [i for i in range(4) if s.decide(abs(v - V(i, th)) < 1e-9)]
        assert len(i) == 1
        return ks[i[0]] * (hi - lo), 0.

    Quad(s, .5)
    s.hook('quad', quad)
    r = S(s).pdf(shaped(s, x, form), a, b, g, 0., 0)
    s.true(np.shape(r) == ((4,) if form == 'vector' else (2, 2)), 'shape')
    l = S(s).pdf(shaped(s, x, form), a, b, g, 0., 0, True)
    G = s.mod('scipy.special').gamma(a)
    for i, y in enumerate(x):
        y = y / g
        if s.decide(ks[i] == 0):
            e = a * (1 + (b if y > 0 else -b)) * np.sin(np.pi * a / 2) * G / np.pi * np.exp((-1 - a) * np.log(abs(y))) / g
        elif a == 1:
            e = np.pi / 2 / (2 * abs(b)) * ks[i] * 2 / g
        else:
            t = t0 if y > -bt else -t0
            e = a / (np.pi * abs(a - 1) * abs(y + bt)) * ks[i] * (np.pi / 2 + t) / g
        s.eq(flat(s, r)[i], e, 'density', rtol=1e-6)
        if s.decide(e > 0):
            s.eq(flat(s, l)[i], np.log(e), 'logarithm', rtol=1e-6)


@case('C25', over={f'{a}.{b}': dict(a=a, b=b) for a, b in ((1.5, .5), (.5, -.5), (1., .5), (1., -1.), (2., .5), (1., 0.))}, max_paths=200)
def shifted(s, a, b):
    """given index and skewness, any scale and location (index other than 1 and 2: one of each), given distances from the location: the second parametrisation is the first one shifted by the skewness times the scale times the tangent (index 1: times two over pi and the logarithm of the scale)"""
    np = s.np
    Quad(s, 'real' if a not in (1, 2) else None)
    g, d = s.arr([2., 1.5]) if a not in (1, 2) else place(s)
    om = 2 / np.pi * np.log(g) if a == 1 else 0. if a == 2 else np.tan(np.pi * a / 2)
    for z in (2., -3.):
        y = d + b * g * om + g * z
        for log in (False, True):
            s.eq(S(s).pdf(y, a, b, g, d, 1, log), S(s).pdf(y, a, b, g, d + b * g * om, 0, log), 'parametrisation by characteristic function', rtol=1e-6)


@case('C25', over={f'{a}.{b}': dict(a=a, b=b) for a, b in ((1.5, .5), (.5, -.5), (1.25, -.75), (.75, .75), (1., .5), (1., -.5))}, max_paths=200)
def modal(s, a, b):
    """given index and skewness, any scale, location and mode found by the search (index other than 1: one of each): the third parametrisation has the scale multiplied by the index to the power of minus its reciprocal and the mode at the location; the search runs on the standard density of that skewness (within 1e-10) and covers the side where the mode lies"""
    np = s.np
    Quad(s, 'real' if a not in (1, 2) else None)
    g, d = s.arr([2., 1.5]) if a not in (1, 2) else place(s)
    m = (s.real('m', 0, .7) if a == 1 else .25) * (-1 if b > 0 else 1)
    got = []

    def search(f, bounds=None, *args, **kw):
        got.append((f, bounds))
        return {'x': m}

    s.hook('minimize_scalar', search)
    z = 2.
    k = g * a ** (-1 / a)
    y = d + k * (z - m)
    v = S(s).pdf(y, a, b, g, d, 2)
    s.eq(v, S(s).pdf(z, a, b) / k, 'mode at the location', rtol=1e-6)
    s.true(len(got) > 0, 'a search')
    f, (lo, hi) = got[0]
    s.le(lo, -.7 if b > 0 else 0, 'side of the mode')
    s.le(.7 if b < 0 else 0, hi, 'side of the mode')
    for p in (.3, -.4):
        s.eq(f(p), -S(s).pdf(p, a, b), 'the search looks for the largest density', rtol=1e-6)


@case('C25')
def no_skew(s):
    """any index other than 1 and 2 between 0.1 and 1.9 and no skewness: the mode is the location, without a search"""
    a = s.real('a', .1, 1.9)
    s.eq(S(s)._mode(a, 0.), 0, 'mode')


@case('C25', over={f'{a}.{k}.{pm}': dict(a=a, sign=k, pm=pm) for a in (.5, 1.5) for k in (1, 0, -1) for pm in (0, 1)})
def variates(s, a, sign, pm):
    """given index, any skewness, scale and location, any uniform and exponential draws, two variates: the transform of Chambers, Mallows and Stuck"""
    np = s.np
    s.rng()
    g, d = place(s)
    t, b = angle(s, a, sign)
    r = S(s).rvs(a, b, g, d, pm, 2)
    s.true(np.shape(r) == (2,), 'shape')
    for i in range(2):
        u, w = s.draw('U', i), s.draw('E', 2 + i)
        s.assume((u > 0) & (w > 0))
        s.floats((.05 < u) & (u < .95) & (.1 < w) & (w < 4))
        th = np.pi * (u - .5)
        z = np.sin(a * (t + th)) / (np.cos(a * t) * np.cos(th)) ** (1 / a) * (np.cos(a * t + (a - 1) * th) / w) ** ((1 - a) / a)
        if pm == 0:
            z = z - np.tan(a * t)
        s.eq(r[i], d + g * z, 'transform', rtol=1e-6)


@case('C25', over={f'{pm}': dict(pm=pm) for pm in (0, 1)})
def variates_one(s, pm):
    """index 1, any skewness other than 0, scale and location, any uniform and exponential draws, two variates: the transform of Chambers, Mallows and Stuck"""
    np = s.np
    s.rng()
    g, d = place(s)
    b = s.real('b', -1, 1)
    s.assume(abs(b) > 1e-3)
    r = S(s).rvs(1., b, g, d, pm, 2)
    s.true(np.shape(r) == (2,), 'shape')
    for i in range(2):
        u, w = s.draw('U', i), s.draw('E', 2 + i)
        s.assume((u > 0) & (w > 0))
        s.floats((.05 < u) & (u < .95) & (.1 < w) & (w < 4))
        th = np.pi * (u - .5)
        z = 2 / np.pi * ((np.pi / 2 + b * th) * np.tan(th) - b * np.log(np.pi / 2 * w * np.cos(th) / (np.pi / 2 + b * th)))
        if pm == 1:
            z = z + 2 / np.pi * b * np.log(g)
        s.eq(r[i], d + g * z, 'transform', rtol=1e-6)


@case('C25', over={'0': dict(pm=0), '1': dict(pm=1)})
def variates_normal(s, pm):
    """index 2, any scale and location, any draws: sine of twice the angle over its cosine, times the root of the exponential draw (twice the sine times the root)"""
    np = s.np
    s.rng()
    g, d = place(s)
    r = S(s).rvs(2., 0., g, d, pm, 2)
    for i in range(2):
        u, w = s.draw('U', i), s.draw('E', 2 + i)
        s.assume((u > 0) & (w > 0))
        s.floats((.05 < u) & (u < .95) & (.1 < w) & (w < 4))
        s.eq(r[i], d + g * np.sqrt(w) * np.sin(2 * np.pi * (u - .5)) / np.cos(np.pi * (u - .5)), 'transform', rtol=1e-6)


@case('C25', over={n: dict(bad=n) for n in ('index', 'skewness', 'scale', 'kind')}, max_paths=60)
def refused(s, bad):
    """any index outside (0, 2], skewness outside [-1, 1], negative scale or unknown parametrisation: densities and variates are refused"""
    a, b, g, pm = 1.5, .5, 1., 0
    if bad == 'index':
        a = s.real('a', -4, 6)
        s.assume((a <= 0) | (a > 2))
    elif bad == 'skewness':
        b = s.real('b', -4, 4)
        s.assume(abs(b) > 1)
    elif bad == 'scale':
        g = s.real('g', -4, 0)
    else:
        pm = s.pick('pm', [3, -1, 4])
    for f in (lambda: S(s).pdf(.5, a, b, g, 0., pm), lambda: S(s).logpdf(.5, a, b, g, 0., pm), lambda: S(s).rvs(a, b, g, 0., pm)):
        s.raises(f, bad, (AssertionError,))
