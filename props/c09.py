"""C09 pseudo-observations."""
from engine.registry import case

from .ranks import *

NT = {f'{n}.{t}': dict(n=n, t=t) for n in (1, 2, 3, 4) for t in TIES}
NT.update({f'+{n}.{t}': dict(n=n, t=t) for n in (5, 6) for t in TIES})


@case('C09', over=NT)
def column(s, n, t):
    """one column of up to 4 values (thorough: 6), every order and tie pattern, every tie method"""
    x = s.reals('x', n)
    ref = rank(s, x, t)
    s.eq(s.cp.pseudo_obs(s.arr([[v] for v in x]), t), [[r / (n + 1)] for r in ref], 'ranks over n + 1')
    s.eq(s.cp.core.rank_data(s.arr(x), ties=t), ref, 'ranks of a vector')
    if n <= 3:
        s.eq(s.cp.core.rank_data(s.arr([x]), 0, t), [ref], 'ranks along a row')
        s.eq(s.cp.core.rank_data(s.arr([[v] for v in x]), 1, t), [[r] for r in ref], 'ranks along a column')


@case('C09', over={t: dict(t=t) for t in TIES})
def matrix(s, t):
    """three rows, two and three columns: every column alone, input untouched, inside (0, 1)"""
    d = s.pick('columns', [2, 3])
    x = sample(s, 3, d)
    a = s.arr(x)
    before = s.snap(a)
    u = s.cp.pseudo_obs(a, t)
    ref = cols([rank(s, c, t) for c in cols(x)])
    s.same(u, [[r / 4 for r in row] for row in ref], 'every column ranked by itself')
    s.same(a, before, 'the data are not modified')
    s.lt(0, u, 'inside the unit interval')
    s.lt(u, 1, 'inside the unit interval')


@case('C09', over={t: dict(t=t) for t in TIES})
def order(s, t):
    """two values out of four rows: pseudo-observations keep their order"""
    x = s.reals('x', 4)
    u = s.cp.pseudo_obs(s.arr([[v] for v in x]), t)
    i, j = s.pick('pair', [(0, 1), (0, 2), (1, 3), (2, 3)])
    a, b = u[i, 0], u[j, 0]
    if x[i] < x[j]:
        s.lt(a, b, 'a larger value has a larger rank')
    elif x[i] == x[j] and t != 'ordinal':
        s.eq(a, b, 'ties are treated alike')


@case('C09')
def average_sum(s):
    """n = 1..4: average and ordinal ranks sum to n (n + 1) / 2; average is the mean of min and max"""
    n = s.pick('n', [1, 2, 3, 4])
    x = s.reals('x', n)
    col = s.arr([[v] for v in x])
    av, mn, mx, od = (s.cp.pseudo_obs(col, t)[:, 0] for t in ('average', 'min', 'max', 'ordinal'))
    s.eq(sum(list(av), 0.0), n / 2, 'sum of the average ranks')
    s.eq(sum(list(od), 0.0), n / 2, 'sum of the ordinal ranks')
    s.eq(av, (mn + mx) / 2, 'average is between min and max')


@case('C09')
def frame(s):
    """three rows, two columns; frame, array and list agree, frame keeps names and index"""
    x = sample(s, 3, 2)
    t = s.pick('ties', TIES)
    f = s.frame(x, columns=['b', 'a'])
    f.index = [7, 3, 5]
    ref = [[v / 4 for v in r] for r in cols([rank(s, c, t) for c in cols(x)])]
    u = s.cp.pseudo_obs(f, t)
    s.true(list(u.columns) == ['b', 'a'], 'column names')
    s.true(list(u.index) == [7, 3, 5], 'index')
    s.eq(u.to_numpy(), ref, 'the ranks of the frame')
    s.eq(f.to_numpy(), x, 'the frame is not modified')
    s.eq(s.cp.pseudo_obs(x, t), ref, 'the ranks of a list')


@case('C09', over={k: dict(k=k) for k in ('clayton', 'frank', 'gumbel', 'gaussian', 'student')})
def copula_pobs(s, k):
    """pobs of every copula class, three rows, every tie method"""
    c = {'clayton': s.cp.ClaytonCopula, 'frank': s.cp.FrankCopula, 'gumbel': s.cp.GumbelCopula,
         'gaussian': s.cp.GaussianCopula, 'student': s.cp.StudentCopula}[k](dim=2)
    x = sample(s, 3, 2)
    t = s.pick('ties', TIES)
    s.eq(c.pobs(s.arr(x), t), [[v / 4 for v in r] for r in cols([rank(s, q, t) for q in cols(x)])], 'ranks over n + 1')


@case('C09')
def refused(s):
    """an unknown tie method and data with three axes"""
    x = sample(s, 2, 2)
    s.raises(lambda: s.cp.pseudo_obs(s.arr(x), 'middle'), 'an unknown tie method is refused')
    s.raises(lambda: s.cp.core.rank_data(s.arr([x])), 'three axes are refused')
