"""Concrete side of a case: the same harness on the real package, with the inputs of a replay file."""
import importlib
import os
import re
import sys
import traceback
from fractions import Fraction

import numpy as np


class AssumeFail(Exception):
    pass


class NotReplayable(Exception):
    pass


class ConcCtx:
    mode = 'conc'

    def __init__(self, case, env, slack=1.0, exact=None):
        import copulae
        self.cp, self.case, self.env = copulae, case, env
        self.np = np
        self.failures = []
        self.checked = 0
        self.ranges = {}
        self.slack = slack
        self._rng = None
        self._hooks = {}
        # outside the region where float64 is trusted: one obligation, with the exact values of its two sides
        self.exact = exact
        self.count = {}

    def floats(self, cond):
        if not cond and self.exact is None:
            raise NotReplayable('float64 is not accurate enough here')

    def _get(self, name, default=None):
        v = self.env.get(name)
        if v is None:
            if default is None:
                raise NotReplayable(f'no value for {name}')
            return default
        return v

    # --- inputs ---
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True):
        v = float(self._get(name))
        lo, hi = (x if x is None else float(x) for x in (lo, hi))
        self.ranges[name] = (lo, hi)
        if lo is not None and (v < lo or lo_open and v <= lo) or hi is not None and (v > hi or hi_open and v >= hi):
            raise AssumeFail(f'{name} = {v} is outside its range as a float')
        return v

    def reals(self, prefix, n, *a, **k):
        return [self.real(f'{prefix}{i}', *a, **k) for i in range(n)]

    def flag(self, name):
        return bool(self._get(name, False))

    def integer(self, name, lo, hi):
        return int(self._get(name))

    def pick(self, name, options):
        return list(options)[int(self._get(name))]

    def assume(self, cond):
        if not cond:
            raise AssumeFail('assumption')

    def lemma(self, cond):
        pass

    def decide(self, cond):
        return bool(cond)

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype if dtype is not None else float)

    def frame(self, x, columns=None):
        import pandas as pd
        return pd.DataFrame(self.arr(x), columns=columns)

    def series(self, x, index=None):
        import pandas as pd
        return pd.Series(self.arr(x), index=index)

    def mod(self, name):
        return importlib.import_module(name)

    @property
    def stats(self):
        import scipy.stats
        return scipy.stats

    def hook(self, name, fn):
        """fn in place of scipy's function, wherever the package has taken it (each replay is a process of its own)"""
        place = dict(minimize='scipy.optimize', brentq='scipy.optimize', minimize_scalar='scipy.optimize',
                     root_scalar='scipy.optimize', quad='scipy.integrate', cov_nearest='statsmodels.stats.correlation_tools').get(name)
        if place is None:
            raise NotReplayable('stand-in for ' + name)
        import sys
        m = importlib.import_module(place)
        old = self._hooks.setdefault(name, getattr(m, name))
        seen = (old, getattr(m, name))
        for k, v in list(sys.modules.items()):
            if v is not None and (k == place or k.split('.')[0] == 'copulae'):
                for a, x in list(vars(v).items()):
                    if any(x is o for o in seen):
                        setattr(v, a, fn)

    # --- random draws ---
    def rng(self, crand=False):
        if self._rng is None:
            from .concrng import ConcRng
            self._rng = ConcRng(self.env)
            self._rng.install()
        if crand:
            from .crandlib import load, N
            if not load([self._rng.crand(k + 1) for k in range(N)]):
                raise NotReplayable('libc rand() is not under control')

    def draws(self):
        self.rng()
        return list(self._rng.log)

    def choices(self):
        self.rng()
        return list(self._rng.choices)

    def crand(self, k):
        self.rng()
        return self._rng.crand(k)

    def draw(self, dist, k, stream=('entropy', 0)):
        from .concrng import Stream
        self.rng()
        s = Stream(self._rng, stream)
        s.pos = k
        v = s.var(dist)
        self._rng.log.pop()
        return int(v) if dist[0] == 'I' else float(v)

    def gauss(self, j, k, mean, cov, stream=('entropy', 0)):
        from .drawval import mvn
        return mvn(f'mvn{j}[{stream[0]}:{stream[1]}@{k}]', j, mean, cov)

    def chi2(self, k, df, stream=('entropy', 0)):
        from .drawval import positive
        return positive(f'chi2[{stream[0]}:{stream[1]}@{k}]', df)

    def gam(self, k, a, stream=('entropy', 0)):
        from .drawval import positive
        return positive(f'gam[{stream[0]}:{stream[1]}@{k}]', a)

    # --- checks ---
    def _fail(self, label, detail):
        if self.exact is None or self._mine(label):
            self.failures.append((label, detail))

    def _mine(self, label):
        n = self.count[label] = self.count.get(label, 0) + 1
        return label == self.exact['label'] and n == self.exact['nth']

    def _exact(self, kind, x, y, label, tol):
        """a violation here needs the package to return what the encoding computed exactly"""
        for i, (p, q) in enumerate(zip(x.ravel(), y.ravel())):
            if not self._mine(label if x.size == 1 else f'{label} #{i}'):
                continue
            a, b = float(self.exact['a']), float(self.exact['b'])
            if all(np.isfinite([a, b])):
                gap = a - b
                if not abs(gap) > 3 * tol.ravel()[i] or kind == 'le' and gap < 0:
                    continue
                bad = abs(p - a) <= .05 * abs(gap) and abs(q - b) <= .25 * abs(gap)
            else:
                same = [np.isnan(u) and np.isnan(v) or np.isinf(u) and u == v
                        or np.isfinite([u, v]).all() and abs(u - v) <= 1e-3 * (1 + abs(v)) for u, v in ((p, a), (q, b))]
                bad = all(same)
            if bad:
                self.failures.append((self.exact['label'], f'got {p!r}, expected {"at most " if kind == "le" else ""}{q!r} '
                                                           f'(exactly {a!r} and {b!r})'))

    def _pair(self, kind, a, b, label, rtol, atol, loose):
        rtol = (self.case.opts['rtol'] if rtol is None else rtol) * self.slack
        atol = (self.case.opts['atol'] if atol is None else atol) * self.slack
        self.checked += 1
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self._fail(label, f'not a number: {a!r} against {b!r}: {e}')
            return
        if x.shape != y.shape:
            if loose and (x.size == 1 or y.size == 1 or x.size == y.size):
                x, y = x.ravel(), y.ravel()
            else:
                self._fail(label, f'shape {x.shape} instead of {y.shape}')
                return
        x, y = np.broadcast_arrays(x, y)
        with np.errstate(all='ignore'):
            nx, ny = np.isnan(x), np.isnan(y)
            tol = atol + rtol * np.maximum(*(np.where(np.isfinite(v), np.abs(v), 0) for v in (x, y)))
            if self.exact is not None:
                self._exact(kind, x, y, label, tol)
                return
            if kind == 'le':
                bad = ~(x <= y + tol)
            else:
                bad = ~((x == y) | (np.abs(x - y) <= tol))
            if kind == 'same':
                bad &= ~(nx & ny)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            self._fail(label, f'got {np.atleast_1d(x)[i]!r}, expected {"at most " if kind == "le" else ""}'
                              f'{np.atleast_1d(y)[i]!r}' + (f' at {i}' if x.size > 1 else ''))

    def eq(self, a, b, label, rtol=None, atol=None):
        self._pair('eq', a, b, label, rtol, atol, True)

    def same(self, a, b, label, rtol=None, atol=None):
        self._pair('same', a, b, label, rtol, atol, False)

    def le(self, a, b, label, rtol=None, atol=None):
        self._pair('le', a, b, label, rtol, atol, True)

    def lt(self, a, b, label):
        # a strict inequality of reals may be an equality of floats
        if self.exact is not None:
            return self.true(np.asarray(a, dtype=float) <= np.asarray(b, dtype=float), label)
        self._pair('le', a, b, label, None, None, True)

    def true(self, cond, label):
        self.checked += 1
        if self.exact is not None:
            for c in np.atleast_1d(cond).ravel():
                if self._mine(label) and not c:
                    self.failures.append((label, f'{cond!r}'))
        elif not np.all(cond):
            self._fail(label, f'{cond!r}')

    def nan(self, a, label):
        self.checked += 1
        if self.exact is not None:
            for c in np.atleast_1d(np.asarray(a, dtype=float)).ravel():
                if self._mine(label) and not np.isnan(c):
                    self.failures.append((label, f'got {a!r}, expected nan'))
        elif not np.all(np.isnan(np.asarray(a, dtype=float))):
            self._fail(label, f'got {a!r}, expected nan')

    def raises(self, fn, label, exc=(Exception,)):
        self.checked += 1
        try:
            r = fn()
        except exc:
            if self.exact is not None:
                self._mine(label)
            return None
        self._fail(label, f'accepted, result {str(r)[:200]!r}')
        return r

    def attempt(self, fn):
        try:
            return fn(), None
        except (AssumeFail, NotReplayable):
            raise
        except Exception as e:
            return None, e

    def snap(self, a):
        return np.array(a, dtype=float, copy=True)

    def deriv(self, f, xs, orders, h=None):
        """mixed central differences with two Richardson steps"""
        xs = [float(x) for x in xs]
        names = {}
        steps = []
        for x, k in zip(xs, orders):
            rng = [r for n, r in self.ranges.items() if self.env.get(n) is not None and float(self.env[n]) == x]
            w = h or 2e-3
            for lo, hi in rng:
                if lo is not None:
                    w = min(w, (x - float(lo)) / (2.5 * max(k, 1) + 1))
                if hi is not None:
                    w = min(w, (float(hi) - x) / (2.5 * max(k, 1) + 1))
            steps.append(w)
        from itertools import product

        def fd(scale):
            pts = []
            for x, k, w in zip(xs, orders, steps):
                w = w * scale
                if k == 0:
                    pts.append([(x, 1.0)])
                elif k == 1:
                    pts.append([(x + w, 1 / (2 * w)), (x - w, -1 / (2 * w))])
                elif k == 2:
                    pts.append([(x + w, 1 / w ** 2), (x, -2 / w ** 2), (x - w, 1 / w ** 2)])
                else:
                    raise NotReplayable('derivative order')
            t = 0.0
            for combo in product(*pts):
                c = 1.0
                for _, q in combo:
                    c *= q
                t += c * float(self.scalar(f(*[p for p, _ in combo])))
            return t

        a, b, c = fd(2.0), fd(1.0), fd(.5)
        r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
        return (16 * r2 - r1) / 15

    def scalar(self, a):
        a = np.asarray(a, dtype=float)
        if a.size != 1:
            raise ValueError(f'expected a single number, got shape {a.shape}')
        return a.ravel()[0]

    def machine(self):
        import contextlib
        return contextlib.nullcontext()

    def is_concrete(self):
        return True


def unjs(env):
    return {k: (v if isinstance(v, bool) else Fraction(int(v[0]), int(v[1]))) for k, v in env.items()}


def run(case, env, slack=1.0, exact=None):
    """-> dict(status=ok|fail|assume|skip, failures=[[label, detail]], checked=n)"""
    env = unjs(env)
    np.random.seed(0)
    try:
        s = ConcCtx(case, env, slack, exact)
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                case.run(s)
    except AssumeFail as e:
        return dict(status='assume', failures=[], why=str(e))
    except NotReplayable as e:
        if s.failures:
            return dict(status='fail', failures=[list(x) for x in s.failures], checked=s.checked)
        return dict(status='skip', failures=[], why=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if os.path.dirname(tb[-1].filename) == os.path.dirname(os.path.abspath(__file__)) and not hasattr(e, 'genuine'):
            return dict(status='error', failures=[], why=f'harness: {type(e).__name__}: {e} at {tb[-1]}')
        if os.path.basename(os.path.dirname(tb[-1].filename)) == 'props' and (
                isinstance(e, (AttributeError, ImportError, NameError)) or isinstance(e, TypeError) and re.search(
                    r'positional argument|keyword argument|required argument|unpack|object is not callable', str(e))):
            # the case itself names something the package does not have (any more): nothing can be said
            return dict(status='error', failures=[], why=f'interface: {type(e).__name__}: {e}')
        if exact is not None and not exact['label'].startswith(f'no error: {type(e).__name__}:'):
            return dict(status='skip', failures=[], why=f'{type(e).__name__} where float64 is not accurate enough')
        s.failures.append((f'no error: {type(e).__name__}: {str(e)[:200]}', traceback.format_exc(limit=-6)[-1500:]))
    if exact is not None and not s.failures:
        return dict(status='skip', failures=[], why='float64 does not follow the exact values here')
    return dict(status='fail' if s.failures else 'ok', failures=[list(x) for x in s.failures], checked=s.checked)
