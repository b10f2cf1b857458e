"""C22 Matrix helpers.

Eigenvalues are uninterpreted except that "all are at least c" means that every principal minor of the shifted matrix is not
negative (terms.py); the test for positive semi-definiteness is compared with the signs of the minors computed here."""
from itertools import combinations

from engine.registry import case


def mods(s):
    return s.mod('copulae.core.linalg'), s.mod('copulae.core.misc')


def symmetric(s, d, name='m', lo=-3, hi=3):
    m = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(i + 1):
            m[i][j] = m[j][i] = s.real(f'{name}{i}{j}', lo, hi)
    return m


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), 0)


def minors(m, shift=0):
    """the principal minors of m + shift I, by size"""
    d = len(m)
    a = [[m[i][j] + (shift if i == j else 0) for j in range(d)] for i in range(d)]
    return [[det([[a[i][j] for j in c] for i in c]) for c in combinations(range(d), k)] for k in range(1, d + 1)]


# ---- conversions
@case('C22', over={'2': dict(d=2), '3': dict(d=3), '+4': dict(d=4)})
def round_trip(s, d):
    """any covariance matrix and any standard deviations: converting back and forth changes nothing, the correlation has a unit diagonal"""
    L, _ = mods(s)
    m = symmetric(s, d)
    for i in range(d):
        s.assume(m[i][i] > 0)
        s.floats(m[i][i] > .05)
    a = s.arr(m)
    r, sd = L.cov2corr(a, True)
    s.eq(L.cov2corr(a), r, 'with and without deviations')
    s.eq(L.cov2corr(a, return_std=False), r, 'with and without deviations')
    s.eq(L.corr2cov(r, sd), a, 'covariance, correlation, covariance')
    for i in range(d):
        s.eq(sd[i] * sd[i], m[i][i], 'deviation')
        s.lt(0, sd[i], 'deviation')
        s.eq(r[i, i], 1, 'unit diagonal')
        for j in range(d):
            s.eq(r[i, j] * sd[i] * sd[j], m[i][j], 'correlation')
            s.eq(r[i, j], r[j, i], 'symmetry')


@case('C22', over={'2': dict(d=2), '3': dict(d=3)})
def round_trip_back(s, d):
    """any correlation matrix and deviations, as arrays or lists: the correlation and the deviations of the covariance are the given ones"""
    L, _ = mods(s)
    m = symmetric(s, d, lo=-1, hi=1)
    for i in range(d):
        m[i][i] = 1.
    sd = s.reals('s', d, 0)
    for x in sd:
        s.floats((.01 < x) & (x < 5))
    c = L.corr2cov(s.arr(m), s.arr(sd))
    s.eq(L.corr2cov(m, sd), c, 'lists')
    r, t = L.cov2corr(c, True)
    s.eq(r, s.arr(m), 'correlation, covariance, correlation')
    s.eq(t, s.arr(sd), 'deviations')
    for i in range(d):
        for j in range(d):
            s.eq(c[i, j], m[i][j] * sd[i] * sd[j], 'covariance')


# ---- triangular index lists
@case('C22', over={str(d): dict(d=d) for d in (1, 2, 3, 4, 5, 6)})
def triangle(s, d):
    """any matrix of size d and any offset up to d: each pair of indices of a triangle once, the two sides in the same order"""
    _, M = mods(s)
    for m in range(0, d + 1):
        lo, up, both = (M.tri_indices(d, m, k) for k in ('lower', 'upper', 'both'))
        pairs = lambda t: [(int(i), int(j)) for i, j in zip(*t)]
        want = [(i, j) for i in range(d) for j in range(d) if j - i >= m]
        s.true(sorted(pairs(up)) == want, 'upper pairs')
        s.true([(j, i) for i, j in pairs(lo)] == pairs(up), 'the lower list mirrors the upper one')
        s.true(pairs(both) == pairs(up) + pairs(lo), 'both')
        s.true(pairs(M.tri_indices(d, m)) == pairs(both), 'default side')
        s.true(pairs(M.tri_indices(d, m, 'LOWER')) == pairs(lo), 'case of the side')
    s.raises(lambda: M.tri_indices(d, 1, 'left'), 'unknown side', ValueError)


@case('C22', over={str(d): dict(d=d) for d in (2, 3, 4, 5, 6)})
def from_vector(s, d):
    """any vector of d(d-1)/2 numbers: the symmetric matrix with unit diagonal and these numbers above it; the index lists read them back"""
    _, M = mods(s)
    n = d * (d - 1) // 2
    v = s.reals('v', n, -1, 1)
    for a in (s.arr(v), list(v)):
        c = M.create_cov_matrix(a)
        s.true(s.np.shape(c) == (d, d), 'shape')
        k = 0
        for i in range(d):
            s.eq(c[i, i], 1, 'diagonal')
            for j in range(i + 1, d):
                s.same(c[i, j], v[k], 'order of the numbers')
                s.same(c[i, j], c[j, i], 'symmetry')
                k += 1
        for side in ('lower', 'upper'):
            s.same(c[M.tri_indices(d, 1, side)], s.arr(v), 'read back')


# ---- tests
def gap(s, x, y, tol):
    """how far |x - y| is below the tolerance of numpy's comparison"""
    return tol + 1e-5 * abs(y) - abs(x - y)


@case('C22', over={'2': dict(d=2), '3': dict(d=3)}, max_paths=1500)
def symmetry_test(s, d):
    """any square matrix and any tolerance: accepted if and only if every pair of mirrored elements differs by at most the tolerance (plus numpy's relative 1e-5)"""
    L, _ = mods(s)
    m = [[s.real(f'm{i}{j}', -2, 2) if i != j else float(i) for j in range(d)] for i in range(d)]
    tol = s.real('tol', 1e-9, .5)
    pairs = [(i, j) for i in range(d) for j in range(d) if i != j]
    for i, j in pairs:
        g = gap(s, m[i][j], m[j][i], tol)
        s.floats((g > 1e-9) | (g < -1e-9))
    got = L.is_symmetric(s.arr(m), tol)
    want = s.np.bool_(True)
    if s.decide(got):
        for i, j in pairs:
            s.le(0, gap(s, m[i][j], m[j][i], tol), 'accepted', atol=1e-9)
    else:
        ok = True
        for i, j in pairs:
            ok = (gap(s, m[i][j], m[j][i], tol) >= 0) & ok
        s.true(s.np.logical_not(ok), 'refused')


@case('C22')
def symmetry_default(s):
    """symmetric matrices are accepted at the default tolerance, matrices more than 1e-4 from symmetric and other shapes are not"""
    L, _ = mods(s)
    for d in (1, 2, 3):
        s.true(s.decide(L.is_symmetric(s.arr(symmetric(s, d, f'a{d}')))), 'symmetric')
    x, y = s.real('x', -3, 3), s.real('y', -3, 3)
    s.assume(abs(x - y) > 1e-4)
    s.true(not s.decide(L.is_symmetric(s.arr([[1., x], [y, 1.]]))), 'asymmetric')
    s.true(not L.is_symmetric(s.arr([[1., x, 0.], [x, 1., 0.]])), 'not square')
    s.true(not L.is_symmetric(s.arr([x, y])), 'a vector')


def outside(s, m, d, tol, strict, eps):
    """no principal minor of the shifted matrix is within eps of zero"""
    for ms in minors(m, -tol if strict else tol):
        for x in ms:
            s.floats((x > eps) | (x < -eps))


@case('C22', over={f'{d},{strict}': dict(d=d, strict=strict) for d in (2,) for strict in (False, True)} |
      {'3,False': dict(d=3, strict=False), '3,True': dict(d=3, strict=True)}, max_paths=1000, prove_ms=20000, timeout=200)
def definite(s, d, strict):
    """any symmetric matrix with elements up to 3 and tolerance up to 1/2: positive (semi-)definite if and only if every principal minor of the matrix shifted by the tolerance is positive (not negative)"""
    L, _ = mods(s)
    m = symmetric(s, d)
    tol = s.real('tol', 1e-13, .5)
    outside(s, m, d, tol, strict, 1e-7)
    got = s.decide(L.is_psd(s.arr(m), strict, tol))
    ms = [x for k in minors(m, -tol if strict else tol) for x in k]
    ok = True
    for x in ms:
        ok = ((x > 0) if strict else (x >= 0)) & ok
    s.true(ok if got else s.np.logical_not(ok), 'accepted' if got else 'refused')


@case('C22')
def definite_numbers(s):
    """any number and tolerance: a 1 x 1 matrix; singular matrices are semi-definite but not definite; asymmetric ones and other shapes are neither"""
    L, _ = mods(s)
    x, y = s.real('x', -3, 3), s.real('y', -3, 3)
    s.floats((abs(x) > 1e-6) & (abs(y) > 1e-6))
    s.true(s.decide(L.is_psd(s.arr([[x]]))) == s.decide(x >= -1e-12), 'a 1 x 1 matrix')
    s.true(s.decide(L.is_psd(s.arr([[x]]), True)) == s.decide(x > 1e-12), 'a 1 x 1 matrix, strictly')
    for v in (-1, -1., 0, 0., 2, 2.):
        s.true(bool(L.is_psd(v)) == (v >= 0), 'a number')
        s.true(bool(L.is_psd(v, strict=True)) == (v > 0), 'a number, strictly')
        s.true(bool(L.is_psd(v, tol=1.5)), 'a number within the tolerance')
    s.true(bool(L.is_psd(s.np.zeros((2, 2)))), 'zero')
    s.true(not bool(L.is_psd(s.np.zeros((2, 2)), True)), 'zero, strictly')
    s.assume(abs(x - y) > 1e-4)
    s.true(not s.decide(L.is_psd(s.arr([[9., x], [y, 9.]]))), 'asymmetric')
    s.true(not s.decide(L.is_psd([[9., x], [y, 9.]])), 'asymmetric')
    s.true(not s.decide(L.is_psd(s.arr([[9., x, y], [x, 9., y]]))), 'not square')


# ---- repair
@case('C22', over={'2': dict(d=2), '3': dict(d=3)}, max_paths=600)
def repair(s, d):
    """any symmetric 2 x 2 matrix, any diagonal 3 x 3 matrix: returned as it is when positive semi-definite, else the nearest one is asked for with the caller's settings and returned"""
    L, _ = mods(s)
    m = symmetric(s, d)
    if d == 2:
        outside(s, m, d, 1e-12, False, 1e-7)
    else:
        m = [[m[i][j] if i == j else 0. for j in range(d)] for i in range(d)]
        for i in range(d):
            s.floats((m[i][i] > 1e-3) | (m[i][i] < -1e-3))
    a = s.arr(m)
    ok = s.decide(L.is_psd(a))
    calls = []
    marker = s.np.array([[7., 1.], [1., 7.]])

    def nearest(cov, method='clipped', threshold=1e-15, n_fact=100, return_all=False):
        calls.append((cov, method, threshold, n_fact, return_all))
        return marker

    s.hook('cov_nearest', nearest)
    for kw in ({}, dict(method='nearest', threshold=1e-8, n_fact=7)):
        calls.clear()
        r = L.near_psd(a, **kw)
        if ok:
            s.true(not calls, 'nothing to repair')
            s.same(r, s.arr(m), 'unchanged')
        else:
            s.true(len(calls) == 1, 'repaired once')
            s.same(calls[0][0], s.arr(m), 'the matrix')
            s.true(calls[0][1] == kw.get('method', 'clipped'), 'method')
            s.eq(calls[0][2], kw.get('threshold', 1e-15), 'threshold', atol=1e-20)
            s.true(calls[0][3] == kw.get('n_fact', 100), 'number of iterations')
            s.true(not calls[0][4], 'result only')
            s.same(r, marker, 'the repaired matrix')


@case('C22')
def repair_refused(s):
    """matrices more than 1e-4 from symmetric, arrays or lists, are refused and nothing is repaired"""
    L, _ = mods(s)
    x, y = s.real('x', -3, 3), s.real('y', -3, 3)
    s.assume(abs(x - y) > 1e-4)
    E = s.mod('copulae.core.exceptions').NonSymmetricMatrixError
    s.raises(lambda: L.near_psd(s.arr([[1., x], [y, 1.]])), 'asymmetric', E)
    s.raises(lambda: L.near_psd([[1., x], [y, 1.]]), 'asymmetric list', E)
    s.raises(lambda: L.near_psd(s.arr([[1., 0., x], [0., 1., 0.], [y, 0., 1.]])), 'asymmetric', E)
