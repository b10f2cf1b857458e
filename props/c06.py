"""C06 correlation matrices of elliptical copulas under assignment."""
from itertools import combinations

from engine.registry import case

PAIRS = {2: 1, 3: 3, 4: 6}
BOTH = {f'{f}.{d}': dict(fam=f, d=d) for f in ('gaussian', 'student') for d in (2, 3)}


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def minors(m, lo=2):
    n = len(m)
    return [det([[m[i][j] for j in ix] for i in ix]) for k in range(lo, n + 1) for ix in combinations(range(n), k)]


def order(d):
    """positions of the vector of correlations: down the columns of the lower triangle"""
    return [(j, i) for i in range(d) for j in range(i + 1, d)]


def matrix(rs, d):
    m = [[1] * d for _ in range(d)]
    for (i, j), r in zip(order(d), rs):
        m[i][j] = m[j][i] = r
    return m


def all_(s, conds):
    r = True
    for c in conds:
        r = s.decide(c) and r
        if not r:
            return False
    return True


def make(s, fam, d):
    return s.cp.GaussianCopula(d) if fam == 'gaussian' else s.cp.StudentCopula(d, 3.5)


def vec(c, fam):
    return c.params if fam == 'gaussian' else c.params.rho


def start(s, fam, d, free=None):
    """any copula with a positive definite correlation matrix"""
    c = make(s, fam, d)
    n = PAIRS[d]
    k = n if free is None else free
    rs = s.reals('r', k, -1, 1) + [.2, .1, -.15, .05, .3, .1][:n - k]
    m = matrix(rs, d)
    for x in minors(m, 3) if k == n else minors(m):
        s.assume(x > 0.001)
    for r in rs:
        s.assume(r * r < 0.9999)
    c.params = s.arr(rs if fam == 'gaussian' else [3.5] + rs)
    return c, rs


def check_state(s, c, fam, want, what):
    d = len(want)
    s.eq(c.sigma, want, what + ': the matrix')
    s.eq(vec(c, fam), [want[i][j] for i, j in order(d)], what + ': the vector of correlations')
    s.eq(c[:], want, what + ': the matrix read by [:]')
    if fam != 'gaussian':
        s.eq(c.params.df, 3.5, what + ': degrees of freedom are left alone')


def check_valid(s, c, fam, what):
    d = c.dim
    m = c.sigma
    for i in range(d):
        s.eq(m[i, i], 1, what + ': unit diagonal')
        for j in range(i):
            s.eq(m[i, j], m[j, i], what + ': symmetric')
    ml = [[m[i, j] for j in range(d)] for i in range(d)]
    for x in minors(ml):
        s.le(-1e-7, x, what + ': positive semi-definite')
    s.eq(vec(c, fam), [m[i, j] for i, j in order(d)], what + ': vector and matrix agree')


def after(s, c, fam, want, what):
    """exact when the requested matrix is a correlation matrix, otherwise only valid"""
    if all_(s, [x >= 0 for x in minors(want)]):
        check_state(s, c, fam, want, what)
    else:
        check_valid(s, c, fam, what)


@case('C06', over={**BOTH, 'gaussian.4': dict(fam='gaussian', d=4, free=1), '+gaussian.4b': dict(fam='gaussian', d=4, free=2)},
      timeout=90)
def element(s, fam, d, free=None):
    """any positive definite start (dimension 4: two or four free correlations), any pair of indices in either order, any value in [-1, 1]"""
    c, rs = start(s, fam, d, free)
    i, j = s.pick('pair', [(i, j) for i in range(d) for j in range(d) if i != j])
    v = s.real('v', -1, 1, False, False)
    c[i, j] = v
    want = matrix(rs, d)
    want[i][j] = want[j][i] = v
    after(s, c, fam, want, 'one element')


@case('C06', over=BOTH)
def position(s, fam, d):
    """any positive definite start, any position of the vector, any value in [-1, 1]"""
    c, rs = start(s, fam, d)
    k = s.pick('k', list(range(PAIRS[d])))
    v = s.real('v', -1, 1, False, False)
    c[k] = v
    rs = list(rs)
    rs[k] = v
    after(s, c, fam, matrix(rs, d), 'one position of the vector')


SLICES = [slice(None), slice(1, None), slice(None, 2), slice(0, 1), slice(None, None, 2)]


def assign_line(s, c, rs, d):
    """one of the row and column assignments; returns the matrix asked for"""
    k = s.pick('line', list(range(d)))
    sl = s.pick('slice', SLICES)
    at = list(range(d))[sl]
    vs = s.reals('v', 2, -1, 1, False, False)
    if s.pick('value', ['scalar', 'vector']) == 'scalar':
        value, vs = vs[0], [vs[0]] * len(at)
    else:
        vs = (vs + [.25])[:len(at)]
        value = s.arr(vs)
    if s.pick('axis', ['row', 'column']) == 'row':
        c[k, sl] = value
    else:
        c[sl, k] = value
    want = matrix(rs, d)
    for i, v in zip(at, vs):
        if i != k:
            want[i][k] = want[k][i] = v
    return want


@case('C06', over={'gaussian.2': dict(fam='gaussian', d=2), 'gaussian.3': dict(fam='gaussian', d=3, free=1),
                   'student.2': dict(fam='student', d=2), '+gaussian.3b': dict(fam='gaussian', d=3, free=3),
                   '+student.3': dict(fam='student', d=3, free=1)},
      timeout=120, max_paths=600)
def line(s, fam, d, free=None):
    """rows and columns, whole or by five slices, scalars or vectors of two free values; any positive definite start (dimension 3 quick: one free correlation)"""
    c, rs = start(s, fam, d, free)
    want = assign_line(s, c, rs, d)
    after(s, c, fam, want, 'part of a row or column')


@case('C06', over={'gaussian.2': dict(fam='gaussian', d=2), 'gaussian.3': dict(fam='gaussian', d=3),
                   'student.3': dict(fam='student', d=3)})
def whole(s, fam, d):
    """any symmetric unit-diagonal matrix by [:] and [:, :], as array or list"""
    c = make(s, fam, d)
    v = s.reals('v', PAIRS[d], -1, 1, False, False)
    want = matrix(v, d)
    value = want if s.pick('type', ['array', 'list']) == 'list' else s.arr(want)
    if s.pick('index', [':', ':,:']) == ':':
        c[:] = value
    else:
        c[:, :] = value
    after(s, c, fam, want, 'whole matrix')


def refuse(s, fam, c, rs, d, fn, label):
    s.raises(fn, label)
    check_state(s, c, fam, matrix(rs, d), 'after ' + label)


@case('C06', over=BOTH)
def values_refused(s, fam, d):
    """values outside [-1, 1] and missing values in every kind of assignment"""
    c, rs = start(s, fam, d)
    bad = s.real('bad', 1, 50)
    s.assume(bad > 1.000001)
    if s.flag('negative'):
        bad = -bad
    if s.flag('missing'):
        bad = float('nan')
    k = s.pick('kind', ['element', 'position', 'row', 'column', 'scalar row', 'whole'])
    m = matrix(rs, d)
    if k == 'whole':
        m[d - 1][0] = m[0][d - 1] = bad
    line = s.arr([1.0] * (d - 1) + [bad])

    def put():
        if k == 'element':
            c[0, 1] = bad
        elif k == 'position':
            c[0] = bad
        elif k == 'row':
            c[0, :] = line
        elif k == 'column':
            c[:, 0] = line
        elif k == 'scalar row':
            c[0, :] = bad
        else:
            c[:] = s.arr(m)

    refuse(s, fam, c, rs, d, put, 'a value outside [-1, 1] is refused: ' + k)


@case('C06', over=BOTH)
def shapes_refused(s, fam, d):
    """wrong lengths and shapes, asymmetric matrices, diagonal and out-of-range indices"""
    c, rs = start(s, fam, d)
    v = s.real('v', -1, 1, False, False)
    w = s.real('w', -1, 1, False, False)
    k = s.pick('kind', ['diagonal', 'negative row', 'negative column', 'large row', 'large column', 'three', 'position',
                        'short row', 'long row', 'short slice', 'short column', 'small matrix', 'large matrix',
                        'vector for matrix', 'asymmetric'])
    m = matrix(rs, d)
    eye = lambda n: s.arr([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])
    if k == 'asymmetric':
        s.assume(abs(v - w) > 0.01)
        m[0][1], m[1][0] = v, w

    def put():
        if k == 'diagonal':
            c[1, 1] = v
        elif k == 'negative row':
            c[-1, 0] = v
        elif k == 'negative column':
            c[0, -1] = v
        elif k == 'large row':
            c[d, 0] = v
        elif k == 'large column':
            c[0, d] = v
        elif k == 'three':
            c[0, 1, 0] = v
        elif k == 'position':
            c[PAIRS[d]] = v
        elif k == 'short row':
            c[0, :] = s.arr([v] * (d - 1))
        elif k == 'long row':
            c[0, :] = s.arr([v] * (d + 1))
        elif k == 'short slice':
            c[0, 1:] = s.arr([v] * d)
        elif k == 'short column':
            c[:, 0] = s.arr([v] * (d - 1))
        elif k == 'small matrix':
            c[:] = eye(d - 1)
        elif k == 'large matrix':
            c[:] = eye(d + 1)
        elif k == 'vector for matrix':
            c[:] = s.arr([v] * d)
        else:
            c[:] = s.arr(m)

    refuse(s, fam, c, rs, d, put, k + ' is refused')


@case('C06', over={**BOTH, 'gaussian.4': dict(fam='gaussian', d=4, free=2)})
def reading(s, fam, d, free=None):
    """any positive definite state: element, position and matrix reads"""
    c, rs = start(s, fam, d, free)
    m = matrix(rs, d)
    check_state(s, c, fam, m, 'read')
    for i in range(d):
        for j in range(d):
            s.eq(c[i, j], m[i][j], 'element')
    s.eq(c[0, :], m[0], 'row')
    s.eq(c[:, d - 1], m[d - 1], 'column')
    s.eq(c[:, :], m, 'matrix')
    for k in range(PAIRS[d]):
        s.eq(c[k], rs[k], 'position of the vector')
    check_state(s, c, fam, m, 'reading changes nothing')


@case('C06')
def reading_refused(s):
    """unsupported indices"""
    c = s.cp.GaussianCopula(3)
    s.raises(lambda: c[0, 1, 2], 'three indices')
    s.raises(lambda: c['a'], 'a name')
    s.raises(lambda: c[3, 0], 'row out of range')
    s.raises(lambda: c[3], 'position out of range')


@case('C06', over={'gaussian': dict(fam='gaussian'), 'student': dict(fam='student')})
def invalid_start(s, fam):
    """correlations assigned by params that are no correlation matrix: the next element assignment repairs the copula"""
    c = make(s, fam, 3)
    r = s.real('r', -1, 1)
    rs = [r, .75, -.5]
    s.assume(det(matrix(rs, 3)) < -0.01)
    c.params = s.arr(rs if fam == 'gaussian' else [3.5] + rs)
    v = s.real('v', -1, 1, False, False)
    i, j = s.pick('pair', [(0, 1), (2, 0), (1, 2)])
    c[i, j] = v
    want = matrix(rs, 3)
    want[i][j] = want[j][i] = v
    after(s, c, fam, want, 'one element')


@case('C06', over={'+gaussian': dict(fam='gaussian')}, timeout=200, max_paths=1000)
def sequence(s, fam):
    """two assignments in a row from independence, dimension 3: a line, then an element"""
    c = make(s, fam, 3)
    want = assign_line(s, c, [0, 0, 0], 3)
    if not all_(s, [x >= 0 for x in minors(want)]):
        return
    i, j = s.pick('pair', [(0, 1), (2, 0), (2, 1)])
    v = s.real('w', -1, 1, False, False)
    c[i, j] = v
    want[i][j] = want[j][i] = v
    after(s, c, fam, want, 'second assignment')
