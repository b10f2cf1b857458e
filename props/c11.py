"""C11 exchangeability and radial symmetry statistics."""
from engine.registry import case

from .ranks import *


def exch_ref(s, u, grid):
    t = 0
    for x, y in grid:
        t = t + (emp(s, u, x, y) - emp(s, u, y, x)) ** 2
    return t * len(u) / len(grid)


def grid_of(m):
    if m == 1:
        return [(1.0, 1.0)]
    k = [1 / m + i * (1 - 2 / m) / (m - 1) for i in range(m)]
    return [(k[i], k[j]) for j in range(m) for i in range(m)]


def quiet(s, module, names):
    """the replications are stand-ins that return 0"""
    m = s.mod('copulae.gof.' + module)
    for n, v in names.items():
        if hasattr(m, n):
            setattr(m, n, v)


def test(s, a, b, stat=True, **k):
    """stat: only the statistic is looked at"""
    s.rng(crand=True)
    m = s.mod('copulae.gof.exchangeability')
    keep = dict(vars(m))
    if stat:
        m.exch_test_cn = lambda *a, **k: s.arr([0.0])
        m.exch_replication = lambda *a, **k: 0.0
    try:
        return s.mod('copulae.gof').exch_test(s.arr(a), s.arr(b), **k)
    finally:
        for n in ('exch_test_cn', 'exch_replication'):
            if n in keep:
                setattr(m, n, keep[n])


@case('C11', over={'3': dict(n=3, ties=True), '4': dict(n=4, ties=False), '+4t': dict(n=4, ties=True)}, max_paths=3000)
def exch_statistic(s, n, ties):
    """pairs of length 3 with any ties (4 without; thorough 4 with ties), in the order of their first column: the distance at the sample itself; swapping the samples"""
    x, u = ordered(s, n, 2, ties, True)
    a, b = cols(x)
    r = test(s, a, b, N=1)
    s.eq(r.statistic, exch_ref(s, u, u), 'squared distance between the empirical copula and its transpose')
    s.le(0, r.statistic, 'not negative')
    s.eq(test(s, b, a, N=1).statistic, r.statistic, 'swapping the samples')


@case('C11', max_paths=600)
def exch_probability(s):
    """three pairs with any ties, two replications: the p-value lies strictly between 0 and 1"""
    x, u = ordered(s, 3, 2, False, True)
    r = test(s, *cols(x), stat=False, N=2)
    s.lt(0, r.p_value, 'p-value above 0')
    s.lt(r.p_value, 1, 'p-value below 1')


@case('C11', over={'2': dict(m=2), '3': dict(m=3)}, max_paths=600)
def exch_grid(s, m):
    """three pairs with any ties, integration grid of 2 and 3 points a side"""
    x, u = ordered(s, 3, 2, True, True)
    r = test(s, *cols(x), N=1, m=m)
    s.eq(r.statistic, exch_ref(s, u, grid_of(m)), 'squared distance over the grid')


@case('C11', over={t: dict(t=t) for t in TIES}, max_paths=600)
def exch_ties(s, t):
    """three pairs, every tie method, any ties"""
    x, _ = ordered(s, 3, 2, True, True)
    u = pobs(s, x, t)
    s.eq(test(s, *cols(x), N=1, ties=t).statistic, exch_ref(s, u, u), 'ranks as the tie method says')


@case('C11', max_paths=600)
def exch_symmetric(s):
    """four points that come in mirrored pairs: statistic zero; without ties the p-value at its largest"""
    x = s.reals('x', 2)
    y = s.reals('y', 2)
    r = split(s, x + y)
    a, b = [x[0], y[0], x[1], y[1]], [y[0], x[0], y[1], x[1]]
    s.eq(test(s, a, b, N=2).statistic, 0, 'zero for a symmetric sample')
    if r == [1, 2, 3, 4] or r == [2, 4, 1, 3]:
        s.eq(test(s, a, b, stat=False, N=2).p_value, 2.5 / 3, 'every replication is at least as large')


@case('C11', max_paths=600)
def exch_rows(s):
    """three pairs without ties: any reordering of the pairs and any increasing change of the first column"""
    x, u = ordered(s, 3, 2, False, True)
    p = s.pick('rows', [(1, 0, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1)])
    a, b = cols(x)
    t = test(s, a, b, N=1).statistic
    s.eq(test(s, [a[i] for i in p], [b[i] for i in p], N=1).statistic, t, 'the order of the pairs does not matter')
    y = s.reals('y', 3)
    s.assume(y[0] < y[1])
    s.assume(y[1] < y[2])
    s.eq(test(s, y, b, N=1).statistic, t, 'an increasing change of a column does not matter')


def slope(s, u, x, y, first):
    """difference quotient of the empirical copula with bandwidth n^-1/2, pushed inside the unit interval"""
    h = 1 / s.np.sqrt(len(u))
    z = x if first else y
    z = min(max(z, h), 1 - h)
    if first:
        return (emp(s, u, z + h, y) - emp(s, u, z - h, y)) / (2 * h)
    return (emp(s, u, x, z + h) - emp(s, u, x, z - h)) / (2 * h)


def influence(s, u, x, y):
    n = len(u)
    q = [slope(s, u, x, y, True), slope(s, u, x, y, False), slope(s, u, y, x, True), slope(s, u, y, x, False)]
    return [(ind(s, a <= x, b <= y) - q[0] * ind(s, a <= x) - q[1] * ind(s, b <= y)
             - ind(s, a <= y, b <= x) + q[2] * ind(s, a <= y) + q[3] * ind(s, b <= x)) / s.np.sqrt(n) for a, b in u]


@case('C11', over={'3': dict(n=3), '4': dict(n=4), '3g': dict(n=3, m=2)}, max_paths=1500, rtol=1e-5)
def exch_multiplier(s, n, m=0):
    """three and four pairs without ties: every multiplier replication for any normal draws (the grid too), and the p-value from two replications"""
    x, u = ordered(s, n, 2, False, n == 4)
    s.rng()
    E = s.mod('copulae.gof._exchangeability')
    g = grid_of(m) if m else u
    z = [s.draw('Z', i, ('seed', 8888)) for i in range(2 * n)]
    s0 = E.exch_test_cn(s.arr(u), s.arr(g), n, len(g), 2)
    for k in range(2):
        zs = z[k * n:(k + 1) * n]
        mean = sum(zs) / n
        t = 0
        for p, q in g:
            t = t + sum((a - mean) * b for a, b in zip(zs, influence(s, u, p, q))) ** 2
        s.eq(s0[k], t / len(g), 'multiplier replication')


@case('C11', over={'7': dict(n=7), '10': dict(n=10)}, rtol=1e-5)
def exch_multiplier_larger(s, n):
    """seven and ten pairs in a few orders, any normal draws: the bandwidth is narrow enough for points in the middle and at both ends"""
    s.rng()
    E = s.mod('copulae.gof._exchangeability')
    o = s.pick('order', {7: [(3, 1, 4, 7, 5, 2, 6), (7, 6, 5, 4, 3, 2, 1)], 10: [(2, 10, 1, 3, 7, 5, 4, 9, 8, 6)]}[n])
    u = [[(i + 1) / (n + 1), k / (n + 1)] for i, k in enumerate(o)]
    z = [s.draw('Z', i, ('seed', 8888)) for i in range(n)]
    s0 = E.exch_test_cn(s.arr(u), s.arr(u), n, n, 1)
    mean = sum(z) / n
    t = 0
    for p, q in u:
        t = t + sum((a - mean) * b for a, b in zip(z, influence(s, u, p, q))) ** 2
    s.eq(s0[0], t / n, 'multiplier replication')


@case('C11', over={'2': dict(N=2), '3': dict(N=3)}, max_paths=600)
def exch_pvalue(s, N):
    """three pairs without ties, two and three replications of any size (stand-in): the share at least as large, half a count added"""
    x, u = ordered(s, 3, 2, False, True)
    v = s.reals('v', N, 0, lo_open=False)
    mod = s.mod('copulae.gof.exchangeability')
    keep = mod.exch_test_cn
    mod.exch_test_cn = lambda *a, **k: s.arr(v)
    try:
        r = test(s, *cols(x), stat=False, N=N)
    finally:
        mod.exch_test_cn = keep
    t = exch_ref(s, u, u)
    for q in v:
        s.floats(abs(q - t) > 1e-6)
    s.eq(r.p_value, (count(s, [q >= t for q in v]) + .5) / (N + 1), 'share of the replications')


@case('C11', over={'1': dict(N=1), 'grid': dict(N=1, m=2), '+2': dict(N=2)}, max_paths=6000, timeout=90)
def exch_bootstrap(s, N, m=0):
    """three pairs with ties, any coin flips: each replication swaps the pairs whose coin says so, gives each column the tie pattern of the sample and takes the statistic again, of the new sample or on the grid"""
    x, u = ordered(s, 3, 2, True, True)
    n = 3
    if all(len({float(v) for v in q}) == n for q in cols(u)):
        return
    s.rng(crand=True)
    coins = [s.crand(i + 1) for i in range(n * N)]
    mod, got = s.mod('copulae.gof.exchangeability'), []
    keep = mod.exch_replication

    def record(*a, **k):
        got.append(keep(*a, **k))
        return got[-1]

    mod.exch_replication = record
    try:
        r = test(s, *cols(x), stat=False, N=N, m=m)
    finally:
        mod.exch_replication = keep
    t = exch_ref(s, u, grid_of(m) if m else u)
    above = 0
    for k in range(N):
        ub = []
        for row, c in zip(u, coins[n * k:n * k + n]):
            ub.append(list(row) if c > 2147483647 / 2 else [row[1], row[0]])
        new = [reties(s, [q[j] for q in ub], [q[j] for q in u]) for j in range(2)]
        if new[0] is None or new[1] is None:
            return
        w = cols(new)
        v = exch_ref(s, w, grid_of(m) if m else w)
        above += v >= t - 1e-12
        if got:
            s.eq(got[k], v, 'replication')
    s.eq(r.p_value, (above + .5) / (N + 1), 'share of the replications')


def surv_ref(s, u):
    n = len(u)
    t = 0
    for p in u:
        d = 0
        for q in u:
            d = d + ind(s, *[a <= b for a, b in zip(q, p)]) - ind(s, *[1 - a <= b for a, b in zip(q, p)])
        t = t + (d / n) ** 2
    return t


def radial(s, x, stat=True, **k):
    s.rng(crand=True)
    m = s.mod('copulae.gof.radial_symmetry')
    keep = dict(vars(m))
    if stat:
        m.rad_sym_replicate = lambda *a, **k: 0.0
    try:
        return s.mod('copulae.gof').rad_sym_test(s.arr(x), **k)
    finally:
        if 'rad_sym_replicate' in keep:
            m.rad_sym_replicate = keep['rad_sym_replicate']


@case('C11', over={'3x2': dict(n=3, d=2, ties=True), '3x3': dict(n=3, d=3, ties=False), '+3x3t': dict(n=3, d=3, ties=True)},
      max_paths=3000, timeout=120)
def radial_statistic(s, n, d, ties):
    """3x2 samples with any ties (3x3 without; thorough with), in the order of their first column: the distance between the empirical copula and the survival one"""
    x, u = ordered(s, n, d, ties, True)
    r = radial(s, x, N=1)
    s.eq(r.statistic, surv_ref(s, u), 'squared distance between empirical and survival copula')
    s.le(0, r.statistic, 'not negative')


@case('C11', over={'7x2': {}, '+7x3': dict(d=3)}, max_paths=1000)
def radial_larger(s, d=2):
    """seven points: first column sorted, the others in a few orders"""
    n = 7
    x = sample(s, n, d)
    orders = [(1, 2, 3, 4, 5, 6, 7), (3, 1, 4, 7, 5, 2, 6), (7, 6, 5, 4, 3, 2, 1), (2, 1, 3, 5, 4, 7, 6), (4, 7, 1, 6, 2, 5, 3)]
    rk = [orders[0]] + [s.pick(f'order{j}', orders) for j in range(1, d)]
    for j, o in enumerate(rk):
        pos = sorted(range(n), key=lambda i: o[i])
        for a, b in zip(pos, pos[1:]):
            s.assume(x[a][j] < x[b][j])
    u = [[o[i] / (n + 1) for o in rk] for i in range(n)]
    for j in range(d):
        split(s, [r[j] for r in x], False)
    s.eq(radial(s, x, N=1).statistic, surv_ref(s, s.arr(u)), 'squared distance between empirical and survival copula')


@case('C11', over={t: dict(t=t) for t in TIES}, max_paths=600)
def radial_ties(s, t):
    """three pairs, every tie method, any ties"""
    x, _ = ordered(s, 3, 2, True, True)
    s.eq(radial(s, x, N=1, ties=t).statistic, surv_ref(s, pobs(s, x, t)), 'ranks as the tie method says')


@case('C11', over={'3': dict(k=1), '7': dict(k=3)}, max_paths=900)
def radial_symmetric(s, k):
    """any centre and one reflected pair (3 points) or three (7 points, the first columns sorted and a few orders of the second): statistic zero"""
    c = s.real('c')
    x, y = s.reals('x', k), s.reals('y', k)
    pts = [(c, c)]
    for a, b in zip(x, y):
        pts += [(a, b), (2 * c - a, 2 * c - b)]
    for a, b in zip(x, x[1:] + [c]):
        s.assume(a < b)
    o = s.pick('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)]) if k == 3 else (0,)
    up = s.pick('side', [True, False])
    v = [y[i] if (i + up) % 2 else 2 * c - y[i] for i in o]
    for a, b in zip(v, v[1:] + [c]):
        s.assume(a < b)
    split(s, [p[0] for p in pts], False)
    split(s, [p[1] for p in pts], False)
    s.eq(radial(s, pts, N=2).statistic, 0, 'zero for a symmetric sample')


@case('C11')
def radial_rounding(s):
    """one symmetric sample of four points, whose ranks are fifths"""
    pts = [(-.75, -.25), (.75, .25), (-.25, .25), (.25, -.25)]
    s.eq(radial(s, pts, N=2).statistic, 0, 'zero for a symmetric sample')


@case('C11', max_paths=600)
def radial_rows(s):
    """three pairs without ties: any reordering of the pairs, columns swapped, any increasing change of a column"""
    x, u = ordered(s, 3, 2, False, True)
    p = s.pick('rows', [(1, 0, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1)])
    t = radial(s, x, N=1).statistic
    s.eq(radial(s, [x[i] for i in p], N=1).statistic, t, 'the order of the pairs does not matter')
    s.eq(radial(s, [r[::-1] for r in x], N=1).statistic, t, 'the order of the columns does not matter')
    y = s.reals('y', 3)
    s.assume(y[0] < y[1])
    s.assume(y[1] < y[2])
    s.eq(radial(s, [[v, r[1]] for v, r in zip(y, x)], N=1).statistic, t, 'an increasing change of a column does not matter')


@case('C11', over={'1': dict(N=1, ties=False), '2': dict(N=2, ties=False), 'ties': dict(N=1, ties=True)}, max_paths=1500, timeout=100)
def radial_bootstrap(s, N, ties):
    """three pairs, one and two replications with any coin flips (with ties: one): rows whose coin says so are reflected, columns keep the tie pattern, and the p-value is the share of the replications"""
    x, u = ordered(s, 3, 2, ties, True)
    if ties and all(len({float(v) for v in q}) == 3 for q in cols(u)):
        return
    n = 3
    s.rng(crand=True)
    coins = [s.crand(i + 1) for i in range(N * n)]
    r = radial(s, x, stat=False, N=N)
    k = .5
    t0 = surv_ref(s, u)
    for j in range(N):
        ub = [[1 - a for a in row] if c < 2147483647 / 2 else row for row, c in zip(u, coins[j * n:])]
        if ties:
            w = [reties(s, [q[j] for q in ub], [q[j] for q in u]) for j in range(2)]
            if w[0] is None or w[1] is None:
                return
            w = cols(w)
        else:
            w = pobs(s, ub)
        if surv_ref(s, w) >= t0 - 1e-12:
            k = k + 1
    s.eq(r.p_value, k / (N + 1), 'share of the replications')


@case('C11', over={'3x3': dict(n=3, ties=False), '4x3.ties': dict(n=4, ties=True), '+5x3.ties': dict(n=5, ties=True)}, max_paths=1500, timeout=100)
def radial_bootstrap_wide(s, n, ties):
    """samples of three columns (a dozen of three, four and, thorough, five rows), one replication with any coin flips: whole rows are reflected"""
    if ties:  # tied pairs at the ends: no new ties when one of a pair is reflected
        z = [(1, 2, 3), (1, 3, 3), (2, 3, 1), (3, 1, 2)] if n == 4 else [(1, 2, 4), (1, 4, 4), (2, 4, 1), (3, 1, 2), (4, 3, 3)]
    else:
        z = [(1, 4, 3), (2, 5, 1), (3, 1, 2)]
    sh = s.pick('columns', range(3))
    x = [[float(v[(j + sh) % 3]) for j in range(3)] for v in z]
    u = pobs(s, x)
    s.rng(crand=True)
    coins = [s.crand(i + 1) for i in range(n)]
    r = radial(s, x, stat=False, N=1)
    ub = [[1 - a for a in row] if c < 2147483647 / 2 else row for row, c in zip(u, coins)]
    if ties:
        w = [reties(s, [q[j] for q in ub], [q[j] for q in u]) for j in range(3)]
        if any(q is None for q in w):
            return
        w = cols(w)
    else:
        w = pobs(s, ub)
    s.eq(r.p_value, .75 if surv_ref(s, w) >= surv_ref(s, u) - 1e-12 else .25, 'share of the replications')


@case('C11')
def refused(s):
    """matrices, wrong counts of replications and grid sizes"""
    x = sample(s, 3, 2)
    a, b = cols(x)
    s.raises(lambda: test(s, x, x), 'matrices are refused')
    s.raises(lambda: test(s, a, b, N=0), 'no replications')
    s.raises(lambda: test(s, a, b, m=-1, N=1), 'a negative grid')
    s.raises(lambda: radial(s, a, N=1), 'a vector is refused')
    s.raises(lambda: radial(s, x, N=0), 'no replications')
