"""Symbolic side of a case: declares inputs, records obligations, proves them, and finds points to replay."""
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import decide, loader, nf, path as pth, shims
from . import sarr as sa
from . import terms as tm
from .sarr import Sym, SymArr, SymBool, Unsupported, bterm, sarr, term, plain, wrap


class Ob:
    __slots__ = ('label', 'kind', 'goal', 'a', 'b', 'rtol', 'atol', 'pc')

    def __init__(self, label, kind, goal, a, b, rtol, atol, pc):
        self.label, self.kind, self.goal, self.a, self.b = label, kind, goal, a, b
        self.rtol, self.atol, self.pc = rtol, atol, pc

    def fails_at(self, env, ufs=None):
        """numeric truth of the negated obligation, with the margin a replay on floats needs"""
        if self.kind == 'bool':
            return not tm.evaluate([self.goal], env, ufs)[0]
        import mpmath as mp
        a, b = tm.evaluate([self.a, self.b], env, ufs)
        na, nb = mp.isnan(a), mp.isnan(b)
        if na or nb:
            return not (na and nb and self.kind == 'same')
        if mp.isinf(a) or mp.isinf(b):
            return a != b if self.kind != 'le' else a > b
        tol = self.atol + self.rtol * max(abs(a), abs(b))
        if self.kind in ('eq', 'same'):
            return abs(a - b) > 3 * tol
        if self.kind == 'le':
            return a > b + 3 * tol
        raise AssertionError(self.kind)


class Skip(Exception):
    """the harness cannot be expressed in this mode"""


class SymCtx:
    mode = 'sym'

    def __init__(self, p, case):
        import copulae
        self.p, self.case = p, case
        self.cp = copulae
        self.np = loader.SHIMS['numpy']
        self.obs = []
        self.inputs = {}
        self.ranges = {}
        self.prefs = []

    def floats(self, cond):
        """where float64 evaluates the code faithfully enough to be compared: restricts replays, not proofs"""
        b = bterm(cond)
        if b not in self.prefs:
            self.prefs.append(b)

    # --- inputs ---
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True):
        v = tm.var(name)
        lo = None if lo is None else Fraction(lo) if not isinstance(lo, float) else tm.snap(lo)
        hi = None if hi is None else Fraction(hi) if not isinstance(hi, float) else tm.snap(hi)
        if name not in tm.var_range:
            tm.var_range[name] = (lo, hi, lo_open, hi_open)
            tm._bcache.clear()
        elif tm.var_range[name] != (lo, hi, lo_open, hi_open):
            raise Unsupported(f'{name} is declared with two ranges')
        self.inputs[name] = 'R'
        self.ranges[name] = (lo, hi, lo_open, hi_open)
        if lo is not None:
            self._declare((tm.lt if lo_open else tm.le)(tm.const(lo), v))
        if hi is not None:
            self._declare((tm.lt if hi_open else tm.le)(v, tm.const(hi)))
        return Sym(v)

    def reals(self, prefix, n, *a, **k):
        return [self.real(f'{prefix}{i}', *a, **k) for i in range(n)]

    def _declare(self, cond):
        if cond is tm.TRUE:
            return
        if self.p.known.get(cond.id):
            return
        self.p.pc.append(cond)
        self.p._learn(cond)

    def flag(self, name):
        self.inputs[name] = 'B'
        return SymBool(tm.var(name, 'B'))

    def integer(self, name, lo, hi):
        """a symbolic integer (kept symbolic)"""
        v = tm.var(name, 'I')
        if tm.var_range.setdefault(name, (Fraction(lo), Fraction(hi), False, False)) != (Fraction(lo), Fraction(hi), False, False):
            raise Unsupported(f'{name} is declared with two ranges')
        self.inputs[name] = 'I'
        self.ranges[name] = (Fraction(lo), Fraction(hi), False, False)
        self._declare(tm.le(tm.const(lo), v))
        self._declare(tm.le(v, tm.const(hi)))
        return Sym(v, 'i')

    def pick(self, name, options):
        """one of the options, chosen by the solver"""
        options = list(options)
        v = tm.var(name, 'I')
        if name not in self.inputs:
            r = (Fraction(0), Fraction(len(options) - 1), False, False)
            if tm.var_range.setdefault(name, r) != r:
                raise Unsupported(f'{name} is declared with two ranges')
            self.inputs[name] = 'P'
            self.ranges[name] = (Fraction(0), Fraction(len(options) - 1), False, False)
            self._declare(tm.le(tm.ZERO, v))
            self._declare(tm.le(v, tm.const(len(options) - 1)))
        for i in range(len(options) - 1):
            if self.p.decide(tm.eq(v, tm.const(i))):
                return options[i]
        return options[-1]

    def assume(self, cond):
        self.p.assume(bterm(cond))

    def lemma(self, cond):
        """a fact of real analysis about transcendental functions at the inputs (replays do without)"""
        self.p.assume(bterm(cond))

    def decide(self, cond):
        """case split on a condition"""
        return self.p.decide(bterm(cond))

    def arr(self, x, dtype=None):
        a = sarr(x)
        if dtype is not None:
            a = sa.astype(a, dtype)
        return a

    def frame(self, x, columns=None):
        return loader.SHIMS['pandas'].DataFrame(self.arr(x), columns=columns)

    def series(self, x, index=None):
        return loader.SHIMS['pandas'].Series(self.arr(x), index=index)

    def mod(self, name):
        return loader.sym_import(name, fromlist=('x',))

    @property
    def stats(self):
        return self.mod('scipy.stats')

    def hook(self, name, fn):
        shims.HOOKS[name] = fn

    # --- random draws ---
    def rng(self, crand=False):
        """use named draws (the symbolic generator always does)"""

    def draw(self, dist, k, stream=('entropy', 0)):
        """the k-th draw of a stream: U uniform, Z normal, E exponential, Ilo-hi a whole number"""
        name = f'{dist}[{stream[0]}:{stream[1]}@{k}]'
        r = {'U': shims.unit(), 'E': (Fraction(0), None, True, True)}.get(dist)
        if dist[0] == 'I':
            lo, hi = dist[1:].split('-')
            r = (Fraction(lo), Fraction(hi), False, False)
        if r is not None and name not in tm.var_range:
            tm.var_range[name] = r
            shims.forget(tm.var(name, 'I' if dist[0] == 'I' else 'R'))
        return Sym(tm.var(name, 'I' if dist[0] == 'I' else 'R'), 'i' if dist[0] == 'I' else 'f')

    def draws(self):
        """(stream, position) of every draw so far"""
        return [(k, p) for k, p, _ in shims.RNG.log]

    def choices(self):
        """weights of every random choice so far (None: uniform)"""
        return list(shims.RNG.choices)

    def crand(self, k):
        """the k-th value (from 1) of libc rand()"""
        name = f'crand[{k}]'
        if name not in tm.var_range:
            tm.var_range[name] = (Fraction(0), Fraction(2147483647), False, False)
            shims.forget(tm.var(name, 'I'))
        return Sym(tm.var(name, 'I'), 'i')

    def gauss(self, j, k, mean, cov, stream=('entropy', 0)):
        """component j of a multivariate normal draw that sits at position k of a stream"""
        name = f'mvn{j}[{stream[0]}:{stream[1]}@{k}]'
        return Sym(tm.uf(name, [term(x) for x in mean] + [term(x) for r in cov for x in r]))

    def chi2(self, k, df, stream=('entropy', 0)):
        return Sym(tm.uf(f'chi2[{stream[0]}:{stream[1]}@{k}]', [term(df)]))

    def gam(self, k, a, stream=('entropy', 0)):
        return Sym(tm.uf(f'gam[{stream[0]}:{stream[1]}@{k}]', [term(a)]))

    # --- obligations ---
    def _els(self, a):
        if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
            a = sarr(a)
            return a.shape, [wrap(x) for x in plain(a).ravel()]
        if hasattr(a, '__array__') and not isinstance(a, (Sym, SymBool, int, float, np.generic)):
            a = sarr(a)
            return a.shape, [wrap(x) for x in plain(a).ravel()]
        return (), [wrap(a)]

    def _pair(self, kind, a, b, label, rtol, atol, loose):
        rtol = self.case.opts['rtol'] if rtol is None else rtol
        atol = self.case.opts['atol'] if atol is None else atol
        try:
            sa_, xa = self._els(a)
            sb, xb = self._els(b)
        except TypeError as e:
            self.obs.append(Ob(label + f' (not a number: {e})', 'bool', tm.FALSE, None, None, rtol, atol, list(self.p.pc)))
            return
        if sa_ != sb:
            if loose and len(xb) == 1:
                xb = xb * len(xa)
            elif loose and len(xa) == 1:
                xa = xa * len(xb)
            elif not (loose and len(xa) == len(xb)):
                self.obs.append(Ob(label + f' (shape {sa_} instead of {sb})', 'bool', tm.FALSE, None, None, rtol, atol,
                                   list(self.p.pc)))
                return
        for i, (x, y) in enumerate(zip(xa, xb)):
            tx, ty = term(x), term(y)
            if kind == 'eq':
                goal = tm.eq(tx, ty) if tx is not tm.NAN and ty is not tm.NAN else tm.FALSE
            elif kind == 'same':
                goal = tm.TRUE if tx is ty else tm.eq(tx, ty)
            else:
                goal = tm.le(tx, ty) if tx is not tm.NAN and ty is not tm.NAN else tm.FALSE
            lab = label if len(xa) == 1 else f'{label} #{i}'
            self.obs.append(Ob(lab, kind, goal, tx, ty, rtol, atol, list(self.p.pc)))

    def eq(self, a, b, label, rtol=None, atol=None):
        """equal shapes (a scalar matches everything) and equal numbers"""
        self._pair('eq', a, b, label, rtol, atol, True)

    def same(self, a, b, label, rtol=None, atol=None):
        """equal shapes, equal numbers, nan where nan"""
        self._pair('same', a, b, label, rtol, atol, False)

    def le(self, a, b, label, rtol=None, atol=None):
        self._pair('le', a, b, label, rtol, atol, True)

    def lt(self, a, b, label):
        sa_, xa = self._els(a)
        sb, xb = self._els(b)
        if len(xb) == 1:
            xb = xb * len(xa)
        for i, (x, y) in enumerate(zip(xa, xb)):
            tx, ty = term(x), term(y)
            self.obs.append(Ob(label, 'bool', tm.lt(tx, ty), None, None, 0, 0, list(self.p.pc)))

    def true(self, cond, label):
        if isinstance(cond, np.ndarray):
            for x in plain(sarr(cond)).ravel():
                self.true(x, label)
            return
        self.obs.append(Ob(label, 'bool', bterm(cond), None, None, 0, 0, list(self.p.pc)))

    def nan(self, a, label):
        for x in self._els(a)[1]:
            g = tm.TRUE if term(x) is tm.NAN else tm.FALSE
            self.obs.append(Ob(label, 'bool', g, None, None, 0, 0, list(self.p.pc)))

    def raises(self, fn, label, exc=(Exception,)):
        try:
            r = fn()
        except (Unsupported, RecursionError, decide.Undecided, nf.NFError):
            raise
        except exc:
            self.obs.append(Ob(label, 'bool', tm.TRUE, None, None, 0, 0, list(self.p.pc)))
            return None
        self.obs.append(Ob(label, 'bool', tm.FALSE, None, None, 0, 0, list(self.p.pc)))
        return r

    def attempt(self, fn):
        """(value, None) or (None, exception)"""
        try:
            return fn(), None
        except (Unsupported, RecursionError, decide.Undecided, nf.NFError):
            raise
        except Exception as e:
            return None, e

    def snap(self, a):
        return sarr(a).copy()

    def deriv(self, f, xs, orders, h=None):
        """mixed partial derivative of f at xs (each a declared input)"""
        t = term(self.scalar(f(*xs)))
        for x, k in zip(xs, orders):
            v = term(x)
            assert v.op == 'var', 'derivatives are taken with respect to declared inputs'
            for _ in range(k):
                t = tm.diff(t, v)
        return Sym(t)

    def scalar(self, a):
        """the only element of a"""
        sh, xs = self._els(a)
        if len(xs) != 1:
            raise ValueError(f'expected a single number, got shape {sh}')
        return xs[0]

    def machine(self):
        """within: the exponential has the range of double precision (infinite above, zero below) and a constant absorbs
        what is less than 2^-54 of it; everything else is exact"""
        import contextlib

        @contextlib.contextmanager
        def within():
            sa.MACHINE[0] = True
            try:
                yield
            finally:
                sa.MACHINE[0] = False
        return within()

    def is_concrete(self):
        return False


def _rand_value(rng, lo, hi, wide):
    if lo is None and hi is None:
        x = Fraction(rng.randint(-60, 60), rng.choice([7, 10, 16, 20] if not wide else [2, 3]))
    elif hi is None:
        x = lo + Fraction(rng.randint(1, 60), rng.choice([7, 10, 16] if not wide else [1, 2, 400]))
    elif lo is None:
        x = hi - Fraction(rng.randint(1, 60), rng.choice([7, 10, 16] if not wide else [1, 2, 400]))
    else:
        n = rng.choice([37, 64, 100])
        k = rng.randint(1, n - 1)
        if wide and rng.random() < .6:
            n = rng.choice([200, 1000, 4000])
            k = rng.choice([rng.randint(1, 12), n - rng.randint(1, 12)])
        x = lo + (hi - lo) * Fraction(k, n)
    return x


class Points:
    """points of a path's domain: solver models first, then rational points checked against the path condition"""

    def __init__(self, ctx, seed):
        self.ctx = ctx
        self.rng = random.Random(seed)
        self.box = {}

    def narrow(self, pc):
        """ranges of the variables that pc compares with constants"""
        self.box = {}
        for c in pc:
            if c.op not in ('le', 'lt') or {a.op for a in c.args} != {'var', 'const'}:
                continue
            v, k = (0, 1) if c.args[0].op == 'var' else (1, 0)
            n, x = c.args[v].val, c.args[k].val
            if c.args[v].sort == 'B' or not isinstance(x, (int, Fraction)):
                continue
            lo, hi = self.box.get(n) or tm.var_range.get(n, (None, None))[:2]
            if v == 0:
                hi = x if hi is None or x < hi else hi
            else:
                lo = x if lo is None or x > lo else lo
            if lo is None or hi is None or lo <= hi:
                self.box[n] = lo, hi

    def ok(self, pc, env):
        try:
            return all(tm.evaluate(pc, env))
        except (KeyError, NotImplementedError, ZeroDivisionError, ValueError, OverflowError, TypeError):
            return False

    def complete(self, ts, env):
        env = dict(env)
        for t in tm.subterms(ts):
            if t.op == 'var' and t.val != 'pi!' and t.val not in env:
                env[t.val] = self.value(t)
        for n, k in self.ctx.inputs.items():
            if n not in env:
                env[n] = self.value(tm.var(n, {'R': 'R', 'B': 'B'}.get(k, 'I')))
        return env

    def value(self, t, wide=False):
        if t.sort == 'B':
            return self.rng.random() < .5
        lo, hi = tm.var_range.get(t.val, (None, None))[:2]
        box = self.box.get(t.val)
        if box is not None and self.rng.random() < .9:
            lo, hi = box
            if t.sort == 'R':
                return lo if lo == hi is not None else _rand_value(self.rng, lo, hi, wide)
        if t.sort == 'I':
            lo = -3 if lo is None else int(lo)
            hi = lo + 6 if hi is None else int(hi)
            return Fraction(self.rng.randint(lo, hi))
        r = self.ctx.ranges.get(t.val)
        if r is not None:
            lo, hi, lo_o, hi_o = r
            if not lo_o and self.rng.random() < .08:
                return lo if lo is not None else Fraction(0)
            if not hi_o and self.rng.random() < .08:
                return hi if hi is not None else Fraction(0)
        return _rand_value(self.rng, lo, hi, wide)

    def find(self, pc, ts, n, max_s=4.0, extra=None, prefs=True):
        """up to n points that satisfy pc (and extra(env) when given)"""
        t0 = time.time()
        pc = list(pc) + (self.ctx.prefs if prefs else [])
        self.narrow(pc)
        vs = [t for t in tm.subterms(list(pc) + list(ts)) if t.op == 'var' and t.val != 'pi!']
        names = {v.val for v in vs}
        for nme, k in self.ctx.inputs.items():
            if nme not in names:
                vs.append(tm.var(nme, {'R': 'R', 'B': 'B'}.get(k, 'I')))
        # equalities on picks / small integers are settled first
        fixed = {}
        for c in pc:
            if c.op == 'eq' and any(a.op == 'var' for a in c.args) and any(a.op == 'const' for a in c.args):
                v = next(a for a in c.args if a.op == 'var')
                k = next(a for a in c.args if a.op == 'const')
                fixed[v.val] = k.val
        out = []
        tried = 0
        hard = 0
        while len(out) < n and time.time() - t0 < max_s and tried < 400:
            tried += 1
            env = {v.val: fixed.get(v.val, None) if v.val in fixed else self.value(v, wide=tried % 3 == 0) for v in vs}
            if not self.ok(pc, env):
                if not out and tried in (25, 120):
                    # let the solver find the region, then perturb around it
                    for m in self.models(pc, 2):
                        e = self.complete(list(pc) + list(ts), m)
                        if self.ok(pc, e) and (extra is None or extra(e)):
                            out.append(e)
                    hard += 1
                elif not out and tried % 2 and hard:
                    pass
                continue
            if extra is None or extra(env):
                out.append(env)
        if not out:
            for m in self.models(pc, 3):
                e = self.complete(list(pc) + list(ts), m)
                if self.ok(pc, e) and (extra is None or extra(e)):
                    out.append(e)
                    break
        return out[:n]

    def models(self, pc, k):
        out = []
        block = []
        for _ in range(k):
            try:
                r, m = decide.check(list(pc) + block, 1500)
            except decide.Undecided:
                break
            if r != 'sat':
                break
            out.append(m)
            lits = [tm.eq(tm.var(n), tm.const(v)) for n, v in m.items() if not isinstance(v, bool)]
            if not lits:
                break
            block.append(tm.not_(tm.and_(*lits)))
        return out


def reset_path():
    shims.RNG.reset()
    shims.HOOKS.clear()
    sa._arb[0] = 0
    if hasattr(shims, 'NEAREST'):
        try:
            shims.NEAREST[0] = 0
        except TypeError:
            pass


def js(env):
    return {k: (v if isinstance(v, bool) else [str(v.numerator), str(v.denominator)] if isinstance(v, Fraction)
                else [str(Fraction(v).numerator), str(Fraction(v).denominator)]) for k, v in env.items()}


def run_case(case, emit, seed=1, scale=1.0):
    """explore the case; emit(dict) is called with partial results as they become available"""
    tm.reset()
    nf.reset()
    o = case.opts
    t0 = time.time()
    limit = o['timeout'] * scale
    for k in decide.STATS:
        decide.STATS[k] = 0
    loader.executed(clear=True)
    ex = pth.Explorer([], max_paths=o['max_paths'], max_s=limit * .8, quick_ms=o['quick_ms'])
    cache = {}
    last = [None]

    def body(p):
        reset_path()
        s = SymCtx(p, case)
        last[0] = s
        err = None
        try:
            case.run(s)
        except (Unsupported, decide.Undecided, nf.NFError) as e:
            err = ('unsupported', f'{type(e).__name__}: {e}', traceback.format_exc(limit=-6))
        except RecursionError as e:
            err = ('unsupported', f'RecursionError: {e}', '')
        except Exception as e:
            err = ('exception', f'{type(e).__name__}: {e}', traceback.format_exc(limit=-6))
        # prove while the path is current
        res = dict(obs=[], err=err, witness=[], cex=[])
        pts = Points(s, seed * 1000 + ex.paths)
        undec = []
        nth = {}
        for ob in s.obs:
            nth[ob.label] = nth.get(ob.label, 0) + 1
            key = (ob.goal.id, tuple(a.id for a in ob.pc))
            v = cache.get(key)
            if v is None:
                v = judge(ob, pts)
                cache[key] = v
                new = True
            else:
                new = False
            verdict, env = v
            res['obs'].append((ob.label, verdict, new))
            if verdict == 'refuted' and new:
                res['cex'].append((ob.label, js(env), tm.show(ob.goal)[:300],
                                   None if pts.ok(s.prefs, env) else dict(label=ob.label, nth=nth[ob.label], **_values(ob, env))))
            elif verdict == 'undecided' and new:
                undec.append(ob.label)
                res['cex'] += [(ob.label + ' (undecided)', js(e), '', None) for e in env or []]
        if err is not None and err[0] == 'exception':
            es = pts.find(p.pc, [], 2)
            for e in es or pts.find(p.pc, [], 2, prefs=False):
                lab = 'no error: ' + err[1][:120]
                res['cex'].append((lab, js(e), err[2][-1500:], None if es else dict(label=lab, nth=1)))
        if ex.paths < o['witnesses'] or err is not None:
            ts = [t for ob in s.obs for t in (ob.a, ob.b) if t is not None]
            for e in pts.find(p.pc, ts[:40], 2 if ex.paths < 3 else 1, max_s=2.0):
                res['witness'].append(js(e))
            res['empty'] = not res['witness']
        res['pc'] = len(p.pc)
        return res

    def judge(ob, pts):
        if ob.goal is tm.TRUE:
            decide.STATS['queries'] += 1
            decide.STATS['unsat'] += 1
            return 'proved', None
        if ob.goal is tm.FALSE and ob.kind == 'bool':
            e = pts.find(ob.pc, [], 3) or pts.find(ob.pc, [], 1, prefs=False)
            return ('refuted', e[0]) if e else ('undecided', None)
        left = limit - (time.time() - t0)
        ms = int(max(300, min(o['prove_ms'] * scale, left * 1000 / 2)))
        try:
            r, m = decide.prove(ob.pc, ob.goal, ms)
        except decide.Undecided:
            r, m = 'unknown', None
        if r == 'unsat':
            return 'proved', None
        ts = [t for t in (ob.goal, ob.a, ob.b) if t is not None]
        found = None
        if m is not None:
            e = pts.complete(ob.pc + ts, m)
            if pts.ok(ob.pc, e) and _fails(ob, e):
                found = e
                if pts.ok(pts.ctx.prefs, e):
                    return 'refuted', e
        e = pts.find(ob.pc, ts, 1, max_s=2.5, extra=lambda env: _fails(ob, env))
        if e:
            return 'refuted', e[0]  # float64 can follow this one
        if found is None and pts.ctx.prefs:
            e = pts.find(ob.pc, ts, 1, max_s=1.5, extra=lambda env: _fails(ob, env), prefs=False)
            found = e[0] if e else None
        if found is not None:
            return 'refuted', found
        return 'undecided', pts.find(ob.pc, ts, 2, max_s=1)

    for p, res in ex.run(body):
        emit(dict(t='path', **res))
    from .decide import STATS
    emit(dict(t='done', paths=ex.paths, transitions=ex.transitions, aborted=ex.aborted, complete=ex.complete,
              reason=ex.reason, stats=dict(STATS), functions=loader.executed(), wall=time.time() - t0))


def _fails(ob, env):
    try:
        return ob.fails_at(env)
    except (KeyError, NotImplementedError, ZeroDivisionError, ValueError, OverflowError, TypeError):
        return False


def _values(ob, env):
    """the exact values of the two sides, as floats"""
    if ob.a is None:
        return {}
    a, b = tm.evaluate([ob.a, ob.b], env)
    return dict(a=repr(float(a)), b=repr(float(b)))
