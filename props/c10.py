"""C10 correlation matrices."""
from itertools import combinations

from engine.registry import case

from .ranks import cols, sample

FUN = {'pearson': 'pearsonr', 'kendall': 'kendalltau', 'tau': 'kendalltau', 'spearman': 'spearmanr', 'rho': 'spearmanr'}
USE = ['everything', 'complete', 'pairwise.complete']
METHODS = list(FUN)
PAIR = [(0, 1), (0, 2), (1, 2)]


def coef(s, method, a, b):
    return getattr(s.stats, FUN[method])(s.arr(a), s.arr(b))[0]


def ref(s, x, miss, method, use):
    """miss: set of (row, column) without a value"""
    n, d = len(x), len(x[0])
    out = [[1.0 if i == j else None for j in range(d)] for i in range(d)]
    for i, j in combinations(range(d), 2):
        if use == 'everything':
            rows = list(range(n))
        elif use == 'complete':
            rows = [r for r in range(n) if all((r, k) not in miss for k in range(d))]
        else:
            rows = [r for r in range(n) if (r, i) not in miss and (r, j) not in miss]
        if any((r, i) in miss or (r, j) in miss for r in rows):
            v = float('nan')
        else:
            v = coef(s, method, [x[r][i] for r in rows], [x[r][j] for r in rows])
        out[i][j] = out[j][i] = v
    return out


def holes(n, d, k):
    """every way of leaving up to k of the cells empty so that two complete rows remain"""
    cells = [(i, j) for i in range(n) for j in range(d)]
    out = []
    for m in range(k + 1):
        for c in combinations(cells, m):
            if n - len({i for i, _ in c}) >= 2:
                out.append(frozenset(c))
    return out


def fill(x, miss):
    return [[float('nan') if (i, j) in miss else v for j, v in enumerate(r)] for i, r in enumerate(x)]


OV = {f'{m}.{u}': dict(method=m, use=u) for m in METHODS for u in USE}


@case('C10', over=OV, max_paths=400)
def matrix(s, method, use):
    """four rows in three columns, up to two missing cells anywhere, any values"""
    x = sample(s, 4, 3)
    miss = s.pick('missing', holes(4, 3, 2))
    a = s.arr(fill(x, miss))
    s.same(s.cp.stats.corr(a, method=method, use=use), ref(s, x, miss, method, use), 'coefficient over the rows asked for')
    s.same(a, fill(x, miss), 'the data are not modified')


@case('C10', over={f'+{m}.{u}': dict(method=m, use=u) for m in ('pearson', 'kendall', 'spearman') for u in USE}, max_paths=2000, timeout=300)
def matrix_deep(s, method, use):
    """five rows in three columns, up to three missing cells anywhere, any values"""
    x = sample(s, 5, 3)
    miss = s.pick('missing', holes(5, 3, 3))
    s.same(s.cp.stats.corr(s.arr(fill(x, miss)), method=method, use=use), ref(s, x, miss, method, use),
           'coefficient over the rows asked for')


@case('C10', over={f'{m}.{u}': dict(method=m, use=u) for m in ('pearson', 'kendall', 'spearman') for u in USE}, max_paths=400)
def matrix_wide(s, method, use):
    """four rows in five columns, one missing cell anywhere or two in the last two columns, any values"""
    x = sample(s, 4, 5)
    miss = s.pick('missing', holes(4, 5, 1) + [frozenset([(0, 3), (1, 4)]), frozenset([(2, 4), (0, 4)])])
    s.same(s.cp.stats.corr(s.arr(fill(x, miss)), method=method, use=use), ref(s, x, miss, method, use),
           'coefficient over the rows asked for')


@case('C10', over={u: dict(use=u) for u in USE}, max_paths=300)
def vectors(s, use):
    """two vectors of four values, up to two missing, every method: the off-diagonal entry of the two-column matrix"""
    x = sample(s, 4, 2)
    miss = s.pick('missing', holes(4, 2, 2))
    method = s.pick('method', ['pearson', 'kendall', 'spearman'])
    r = ref(s, x, miss, method, use)
    a, b = cols(fill(x, miss))
    s.same(s.cp.stats.corr(s.arr(a), s.arr(b), method, use), r, 'two vectors')
    s.same(s.cp.stats.corr(s.arr(fill(x, miss)), None, method, use), r, 'two columns')


@case('C10')
def named(s):
    """the named functions are the methods they name; two missing cells of five, every mode"""
    x = sample(s, 4, 3)
    miss = s.pick('missing', [frozenset(), frozenset([(0, 1)]), frozenset([(3, 2), (2, 0)])])
    use = s.pick('use', USE)
    a = s.arr(fill(x, miss))
    st = s.cp.stats
    for f, m in ((st.pearson_rho, 'pearson'), (st.kendall_tau, 'kendall'), (st.spearman_rho, 'spearman')):
        s.same(f(a, use=use), ref(s, x, miss, m, use), m)
        if not miss:
            p, q = [r[0] for r in x], [r[1] for r in x]
            s.same(f(s.arr(p), s.arr(q), use), ref(s, [r[:2] for r in x], miss, m, use), m + ' of two vectors')


@case('C10')
def frames(s):
    """a frame and two series: the same numbers, names kept"""
    x = sample(s, 3, 3)
    method = s.pick('method', ['pearson', 'kendall', 'spearman'])
    f = s.frame(x, columns=['c', 'a', 'b'])
    r = s.cp.stats.corr(f, method=method)
    s.true(list(r.columns) == ['c', 'a', 'b'], 'column names')
    s.true(list(r.index) == ['c', 'a', 'b'], 'row names')
    s.same(r.to_numpy(), ref(s, x, (), method, 'everything'), 'the numbers of the frame')
    r = s.cp.stats.corr(f['c'], f['b'], method)
    s.true(list(r.columns) == ['c', 'b'], 'names of the series')
    s.same(r.to_numpy(), ref(s, [[q[0], q[2]] for q in x], (), method, 'everything'), 'the numbers of the series')
    for v, w, want in ((f['c'], f['c'], ['c1', 'c2']), (s.series([q[0] for q in x]), s.series([q[1] for q in x]), ['X', 'Y']),
                       (f['a'], s.frame([[q[1]] for q in x], columns=['a'])['a'], ['a1', 'a2'])):
        r = s.cp.stats.corr(v, w, method)
        s.true(list(r.columns) == want and list(r.index) == want, 'names of two series told apart')


@case('C10')
def refused(s):
    """unknown methods and modes, shapes that do not match"""
    x = sample(s, 3, 2)
    a = s.arr(x)
    p, q = cols(x)
    corr = s.cp.stats.corr
    s.raises(lambda: corr(a, method='cosine'), 'an unknown method is refused')
    s.raises(lambda: corr(a, use='some'), 'an unknown mode is refused')
    s.raises(lambda: corr(s.arr(p)), 'one vector alone is refused')
    s.raises(lambda: corr(s.arr(p), s.arr(q[:2])), 'vectors of different lengths are refused')
    s.raises(lambda: corr(a, a), 'two matrices are refused')
    s.same(corr(a, method='Pearson', use='Complete'), ref(s, x, (), 'pearson', 'complete'), 'names in any case')
