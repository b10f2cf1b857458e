"""A stand-in for numpy.random and scipy's rvs on the real package: every draw has a name (distribution, stream, position)
and the value the replay file gives it, the same names the symbolic generator uses (shims.py)."""
import numpy as np

from .drawval import hashed, mvn, positive


def genuine(e):
    """an error that the library function this stands for raises as well"""
    e.genuine = True
    return e


class Stream:
    def __init__(self, rng, key):
        self.rng, self.key, self.pos = rng, key, 0

    def next(self, dist):
        name = f'{dist}[{self.key[0]}:{self.key[1]}@{self.pos}]'
        self.rng.log.append((self.key, self.pos))
        self.pos += 1
        return name

    def var(self, dist):
        name = self.next(dist)
        v = self.rng.env.get(name)
        if v is not None:
            return v
        h = hashed(name)
        if dist == 'U':
            return .02 + .96 * h
        if dist == 'Z':
            return 3 * h - 1.5
        if dist == 'E':
            return .05 + 2 * h
        if dist[0] in 'IB':
            lo, hi = dist[1:].split('-') if '-' in dist else (0, dist[1:])
            return int(lo) + int(h * (int(hi) - int(lo) + 1))
        raise AssertionError(dist)

    def reseed(self, s):
        if s is None:
            self.rng.fresh += 1
            self.key = ('entropy', self.rng.fresh)
        else:
            self.key = ('seed', int(s) if isinstance(s, (int, np.integer)) else repr(s))
        self.pos = 0


def shape_of(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return int(size),
    return tuple(int(i) for i in size)


class Fake:
    """module functions, RandomState and Generator"""

    def __init__(self, rng, stream=None):
        self._rng, self._s = rng, stream

    @property
    def stream(self):
        return self._s if self._s is not None else self._rng.global_

    def _gen(self, size, f, *args, dtype=float):
        sh = shape_of(size)
        if sh is None:
            bs = np.broadcast_shapes(*[np.shape(a) for a in args]) if args else ()
            if bs == ():
                return dtype(f(*args))
            sh = bs
        out = np.empty(sh, dtype)
        b = [np.broadcast_to(np.asarray(a), sh) for a in args]
        for i in np.ndindex(sh):
            out[i] = f(*[x[i] for x in b])
        return out

    def seed(self, s=None):
        self.stream.reseed(s)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._gen(size, lambda a, b: a + (b - a) * float(self.stream.var('U')), low, high)

    def random_sample(self, size=None):
        return self._gen(size, lambda: float(self.stream.var('U')))

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self.random_sample(d or None)

    def randn(self, *d):
        return self.standard_normal(d or None)

    def standard_normal(self, size=None):
        return self._gen(size, lambda: float(self.stream.var('Z')))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._gen(size, lambda m, s: m + s * float(self.stream.var('Z')), loc, scale)

    def standard_exponential(self, size=None):
        return self._gen(size, lambda: float(self.stream.var('E')))

    def exponential(self, scale=1.0, size=None):
        return self._gen(size, lambda s: s * float(self.stream.var('E')), scale)

    def chisquare(self, df, size=None):
        return self._gen(size, lambda d: positive(self.stream.next('chi2'), d), df)

    def gamma(self, shape, scale=1.0, size=None):
        return self._gen(size, lambda a, s: s * positive(self.stream.next('gam'), a), shape, scale)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low

        def f(a, b):
            top = int(b) if endpoint else int(b) - 1
            if top < a:
                raise genuine(ValueError('low >= high'))
            return int(self.stream.var(f'I{int(a)}-{top}'))

        return self._gen(size, f, low, high, dtype=int)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        whole = isinstance(a, (int, np.integer))
        n = int(a) if whole else len(a)
        sh = shape_of(size)
        cnt = 1 if sh is None else int(np.prod(sh))
        if p is not None and abs(sum(p) - 1) > 1e-6:
            raise genuine(ValueError('probabilities do not sum to 1'))
        self._rng.choices.append(None if p is None else [float(v) for v in np.ravel(p)])
        ix = np.array([int(self.stream.var(f'I0-{n - 1}')) for _ in range(cnt)], int)
        if sh is None:
            return ix[0] if whole else np.asarray(a)[ix[0]]
        ix = ix.reshape(sh)
        return ix if whole else np.asarray(a)[ix]

    def permutation(self, n):
        if isinstance(n, (int, np.integer)):
            ix = [int(self.randint(0, n - i)) for i in range(n)]
            rest = list(range(n))
            return np.array([rest.pop(i) for i in ix], int)
        return np.asarray(n)[self.permutation(len(n))]

    def shuffle(self, x):
        x[...] = x[self.permutation(len(x))]

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        d = len(mean)
        sh = shape_of(size) or ()
        out = np.empty(sh + (d,))
        for i in np.ndindex(sh):
            for j in range(d):
                out[i + (j,)] = mvn(self.stream.next(f'mvn{j}'), j, mean, cov)
        return out

    def binomial(self, n, p, size=None):
        m = int(n)
        return self._gen(size, lambda q: int(self.stream.var(f'B{m}')), p, dtype=int)

    def get_state(self, *a, **k):
        return 'state', self.stream.key, self.stream.pos

    def set_state(self, st):
        self.stream.key, self.stream.pos = st[1], st[2]

    # distributions that draw through the inverse of their distribution function or by name
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from .concctx import NotReplayable
        raise NotReplayable('numpy.random.' + n)


class ConcRng:
    def __init__(self, env):
        self.env = {k: float(v) for k, v in env.items() if not isinstance(v, bool)}
        self.fresh = 0
        self.log, self.choices = [], []
        self.global_ = Stream(self, ('entropy', 0))
        self.module = Fake(self)

    def crand(self, k):
        name = f'crand[{k}]'
        v = self.env.get(name)
        return int(hashed(name) * 2147483647) if v is None else int(v)

    def new(self, seed, what):
        s = Stream(self, ('entropy', 0))
        s.reseed(seed)
        if what == 'pcg':
            s.key = ('pcg' + s.key[0], s.key[1])
        return Fake(self, s)

    def state(self, rs):
        if rs is None or rs is np.random or rs is self.module:
            return self.module
        return rs if isinstance(rs, Fake) else self.new(rs, 'mt')

    def install(self):
        """replays run in a process of their own: nothing is put back"""
        import scipy.stats as st
        m = self.module
        import sys
        held = {}
        for n in dir(Fake):
            if not n.startswith('_') and n not in ('stream',) and hasattr(np.random, n):
                held[n] = getattr(np.random, n)
                setattr(np.random, n, getattr(m, n))
        # names imported from numpy.random one by one
        for name, mod in list(sys.modules.items()):
            if name == 'copulae' or name.startswith('copulae.'):
                for k, v in list(vars(mod).items()):
                    for n, old in held.items():
                        if v is old:
                            setattr(mod, k, getattr(m, n))
        np.random.RandomState = lambda seed=None: self.new(seed, 'mt')
        np.random.default_rng = lambda seed=None: seed if isinstance(seed, Fake) else self.new(seed, 'pcg')
        rng = self

        def mvn_rvs(this, mean=None, cov=1, size=1, random_state=None):
            cov = np.asarray(cov, float)
            d = len(np.atleast_1d(mean)) if mean is not None else (1 if cov.ndim == 0 else len(cov))
            if cov.ndim == 0:
                cov = cov * np.eye(d)
            elif cov.ndim == 1:
                cov = np.diag(cov)
            mean = np.zeros(d) if mean is None else np.atleast_1d(np.asarray(mean, float))
            if cov.shape != (d, d):
                raise genuine(ValueError('mean and cov differ in dimension'))
            if not np.allclose(cov, cov.T) or np.linalg.eigvalsh(cov).min() < -1e-10:
                raise genuine(ValueError('the covariance matrix must be positive semi-definite'))
            r = rng.state(random_state).multivariate_normal(mean, cov, size).squeeze()
            return r[()] if r.ndim == 0 else r

        type(st.multivariate_normal).rvs = mvn_rvs

        def rvs(this, *args, **kw):
            args, loc, scale, size = this._parse_args_rvs(*args, **{k: v for k, v in kw.items() if k != 'random_state'})
            r = rng.state(kw.get('random_state'))
            u = r.random_sample(None if size == () else size)
            return this.ppf(u, *args, loc=loc, scale=scale)

        st.rv_continuous.rvs = rvs
