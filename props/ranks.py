"""Ranks by their definition (no cases here)."""


def count(s, conds):
    return sum((s.np.where(c, 1.0, 0.0) for c in conds), 0.0)


def rank(s, xs, method='average'):
    n = len(xs)
    out = []
    for i in range(n):
        less = [xs[j] < xs[i] for j in range(n) if j != i]
        same = [xs[j] == xs[i] for j in range(n) if j != i]
        before = [xs[j] == xs[i] for j in range(i)]
        if method == 'average':
            r = count(s, less) + 1 + count(s, same) / 2
        elif method == 'min':
            r = count(s, less) + 1
        elif method == 'max':
            r = count(s, less) + count(s, same) + 1
        elif method == 'ordinal':
            r = count(s, less) + count(s, before) + 1
        else:
            # number of distinct values up to and including this one
            r = 1.0
            for j in range(n):
                if j == i:
                    continue
                new = xs[j] < xs[i]
                for k in range(j):
                    new = new & (xs[k] != xs[j])
                r = r + s.np.where(new, 1.0, 0.0)
        out.append(r)
    return out


def split(s, xs, ties=True):
    """case split on the order of xs; the ranks (average) as plain numbers"""
    n = len(xs)
    lt = {}
    for i in range(n):
        for j in range(i + 1, n):
            a = s.decide(xs[i] < xs[j])
            e = False if a else (ties and s.decide(xs[i] == xs[j]))
            lt[i, j] = 1 if a else (0 if e else -1)
            if not ties and not a:
                s.assume(xs[j] < xs[i])
    r = []
    for i in range(n):
        v = 1.0
        for j in range(n):
            if j == i:
                continue
            o = lt[i, j] if i < j else -lt[j, i]
            v += 1 if o < 0 else (.5 if o == 0 else 0)
        r.append(v)
    return r


TIES = ['average', 'min', 'max', 'dense', 'ordinal']


def sample(s, n, d, name='x'):
    return [[s.real(f'{name}{i}{j}') for j in range(d)] for i in range(n)]


def cols(x):
    return [list(c) for c in zip(*x)]


def ind(s, *conds):
    c = conds[0]
    for d in conds[1:]:
        c = c & d
    return s.np.where(c, 1.0, 0.0)


def emp(s, u, x, y):
    return sum((ind(s, a <= x, b <= y) for a, b in u), 0.0) / len(u)


def pobs(s, x, ties='average'):
    n = len(x)
    return [[v / (n + 1) for v in r] for r in cols([rank(s, c, ties) for c in cols(x)])]


def ordered(s, n, d, ties, first=False):
    """a sample with its order settled, so that its ranks are numbers; first: the first column is sorted"""
    x = sample(s, n, d)
    if first:
        for i in range(n - 1):
            s.assume((x[i][0] <= x[i + 1][0]) if ties else (x[i][0] < x[i + 1][0]))
    r = [split(s, c, ties) for c in cols(x)]
    return x, [list(v) for v in s.arr([[v / (n + 1) for v in row] for row in cols(r)])]


def reties(s, col, source):
    """pseudo-observations of col once its k-th smallest value is tied as the k-th smallest of source is; None when col has ties of its own"""
    n = len(col)
    col, source = [float(v) for v in col], [float(v) for v in source]
    if len(set(col)) < n:
        return None
    pos = sorted(range(n), key=lambda i: col[i])
    srt = sorted(source)
    out = [None] * n
    for k, i in enumerate(pos):
        out[i] = (sum(1 for q in srt if q < srt[k]) + (sum(1 for q in srt if q == srt[k]) + 1) / 2) / (n + 1)
    return out
