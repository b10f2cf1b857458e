"""Solver queries.  Every verdict of a check comes from here: assumptions and the negated property go to z3."""
from fractions import Fraction
import time

import z3

from . import nf
from . import terms as tm
from .terms import T

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0}


class Undecided(Exception):
    pass


def q(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Translator:
    """terms -> z3, with the facts about the atoms involved"""

    def __init__(self):
        self.memo = {}
        self.atomv = {}
        self.facts = []
        self.kinds = {}
        self.vars = {}
        self.pos = set()
        self.roots = {}
        self.n = 0
        self.ufapps = {}
        self.monov = {}
        self.transcendental = False
        self.ints = False
        self.expd = set()
        self.two = set()

    # variables
    def var(self, t):
        v = self.vars.get(t.id)
        if v is None:
            if t.sort == 'B':
                v = z3.Bool(t.val)
            elif t.sort == 'I':
                v = z3.Int(t.val)
                self.ints = True
            else:
                v = z3.Real(t.val)
            self.vars[t.id] = v
            if t.sort != 'B':
                r = tm.var_range.get(t.val)
                if r is not None:
                    lo, hi, lo_o, hi_o = r if len(r) == 4 else (r[0], r[1], True, True)
                    if lo is not None:
                        self.facts.append(v > q(lo) if lo_o else v >= q(lo))
                    if hi is not None:
                        self.facts.append(v < q(hi) if hi_o else v <= q(hi))
        return v

    def real(self, v):
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v

    def fresh(self, hint):
        self.n += 1
        return z3.Real(f'{hint}!{self.n}')

    # atoms
    def av(self, aid):
        v = self.atomv.get(aid)
        if v is None:
            a = nf.atoms[aid]
            if a.kind == 'var':
                v = self.real(self.var(a.data))
            elif a.kind == 'opaque':
                v = self.tz(a.data, opaque=True)
            else:
                v = self.fresh(a.kind)
            self.atomv[aid] = v
            if a.kind not in ('var', 'opaque'):
                self.atom_facts(aid, a, v)
        return v

    def atom_facts(self, aid, a, v):
        f = self.facts
        if a.kind == 'E':
            self.transcendental = True
            m = self.mono(a.data)
            f += [v > 0, (v > 1) == (m > 0), (v == 1) == (m == 0), v >= 1 + m, v * (1 - m) <= 1]
            for b in self.kinds.get('E', ()):
                bm, bv = self.mono(nf.atoms[b].data), self.atomv[b]
                f += [(v < bv) == (m < bm), (v == bv) == (m == bm)]
            if len(self.kinds.get('E', ())) < 8:
                self.kinds.setdefault('E', []).append(aid)
        elif a.kind == 'L':
            self.transcendental = True
            p = dict(a.data)
            lo, hi, lo_o, hi_o = nf.poly_bounds(p)
            x = self.poly(p)
            if lo is None or lo < 0 or (lo == 0 and not lo_o):
                x = z3.If(x < 0, -x, x)
                if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
                    x = -self.poly(p)
            if set(p) == {()}:
                c = p[()]
                import mpmath as mp
                y = mp.log(mp.mpf(c.numerator) / c.denominator)
                f += [v > q(Fraction(str(mp.nstr(y - 1e-9, 25)))), v < q(Fraction(str(mp.nstr(y + 1e-9, 25))))]
            else:
                f += [(v > 0) == (x > 1), (v == 0) == (x == 1), v <= x - 1, v * x >= x - 1]
            for b in self.kinds.get('L', ()):
                bv, bx = b
                f += [(v < bv) == (x < bx), (v == bv) == (x == bx)]
            if len(self.kinds.get('L', ())) < 6:
                self.kinds.setdefault('L', []).append((v, x))
        elif a.kind == 'A':
            p = self.poly(dict(a.data))
            f += [v >= 0, z3.Or(v == p, v == -p)]
        elif a.kind == 'INV':
            f += [v * self.poly(dict(a.data)) == 1]
        elif a.kind in ('sin', 'cos'):
            arg = a.data[1][0]
            other = nf.atom('cos' if a.kind == 'sin' else 'sin', arg.key(), a.data)
            f += [v >= -1, v <= 1]
            # signs by quadrant; the argument in half turns where every term is a multiple of pi
            pi = nf.rat(tm.PI)
            y = nf.cancel(nf.rmul(arg, nf.rinv(pi)))
            n, d = self.rat(y)
            if not (z3.is_rational_value(d) and d.as_fraction() == 1):
                w = self.fresh('arg')
                f.append(w * d == n)
                n = w
            if a.kind == 'cos':
                n = n + z3.RealVal('1/2')
            f += [z3.Implies(z3.And(n > 0, n < 1), v > 0), z3.Implies(z3.And(n > -1, n < 0), v < 0)]
            f += [z3.Implies(z3.And(n > 1, n < 2), v < 0)]
            if other.id in self.atomv:
                w = self.atomv[other.id]
                f += [v * v + w * w == 1]
        elif a.kind == 'uf':
            name, args, t = a.data
            zs = []
            for r in args:
                n, d = self.rat(r)
                if z3.is_rational_value(d) and d.as_fraction() == 1:
                    zs.append(n)
                else:
                    w = self.fresh('arg')
                    f.append(w * d == n)
                    zs.append(w)
            self.uf_facts(name, zs, v)
        b = nf.atom_bounds(aid)
        if b[0] is not None:
            f.append(v > q(b[0]) if b[2] else v >= q(b[0]))
        if b[1] is not None:
            f.append(v < q(b[1]) if b[3] else v <= q(b[1]))

    def uf_facts(self, name, zs, v):
        apps = self.ufapps.setdefault(name, [])
        if len(apps) < 40:
            for zs2, v2 in apps:
                if len(zs2) == len(zs):
                    same = z3.And([x == y for x, y in zip(zs, zs2)])
                    self.facts.append(z3.Implies(same, v == v2))
        lem = UF_LEMMAS.get(name)
        if lem:
            self.facts += lem(self, zs, v, apps)
        r = tm.uf_range.get(name)
        if r:
            if r[0] is not None:
                self.facts.append(v > q(r[0]) if r[2] else v >= q(r[0]))
            if r[1] is not None:
                self.facts.append(v < q(r[1]) if r[3] else v <= q(r[1]))
        apps.append((zs, v))

    def root(self, aid, d):
        k = (aid, d)
        r = self.roots.get(k)
        if r is None:
            r = self.fresh(f'root{d}')
            self.roots[k] = r
            base = self.av(aid)
            p = r
            for _ in range(d - 1):
                p = p * r
            self.facts += [r >= 0, p == base, (r > 0) == (base > 0), (r > 1) == (base > 1)]
        return r

    def mono(self, m):
        """value of a monomial (negative exponents through reciprocal variables)"""
        if m in self.monov:
            return self.monov[m]
        out = None
        for a, e in m:
            x = self.apow(a, e)
            out = x if out is None else out * x
        out = z3.RealVal(1) if out is None else out
        self.monov[m] = out
        return out

    def apow(self, a, e):
        e = Fraction(e)
        if e.denominator > 16 or abs(e.numerator) > (200 if nf.atoms[a].kind == 'var' and e.denominator == 1 else 40):
            key = ('pow', a, e)
            w = self.roots.get(key)
            if w is None:
                w = self.fresh('pow')
                self.roots[key] = w
                base = self.av(a)
                up = base > 1 if e > 0 else z3.And(base > 0, base < 1)
                self.facts += [w >= 0, z3.Implies(base > 0, w > 0), z3.Implies(base > 0, (w > 1) == up),
                               z3.Implies(base == 1, w == 1)]
            return w
        if e.denominator != 1:
            base, k = self.root(a, e.denominator), e.numerator
        else:
            base, k = self.av(a), int(e)
        if k < 0:
            key = ('rec', a, e.denominator)
            w = self.roots.get(key)
            if w is None:
                w = self.fresh('rec')
                self.roots[key] = w
                self.facts += [w * base == 1, (w > 0) == (base > 0)]
            base, k = w, -k
        out = base
        for _ in range(k - 1):
            out = out * base
        return out

    def poly(self, p):
        ts = []
        for m, c in p.items():
            x = self.mono(m)
            if not m:
                ts.append(q(c))
            else:
                ts.append(x if c == 1 else q(c) * x)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def rat(self, r):
        """(numerator, denominator) with Laurent factors cleared"""
        num = r.num
        den = nf.pconst(1)
        if num:
            mono = nf.laurent_content(num)
            neg = tuple((a, -e) for a, e in mono if e < 0)
            if neg:
                num = {nf.mmul(m, neg): c for m, c in num.items()}
                den = {neg: Fraction(1)}
        d = self.poly(den)
        for k, e in r.den.items():
            pk = dict(k)
            x = self.poly(pk)
            for _ in range(e):
                d = d * x
        return self.poly(num), d

    def cmp(self, op, a, b):
        """a op b for ite-free real terms"""
        ra, rb = nf.rat(a), nf.rat(b)
        r = nf.radd(ra, nf.rneg(rb))
        n, d = self.rat(r)
        self.log_facts(r.num)
        if op != 'eq':
            self.power_facts(ra, rb, n * d)
            self.two_terms(r.num)
        if op == 'eq':
            return n == 0
        one = z3.is_rational_value(d) and d.as_fraction() == 1
        s = n if one else n * d
        return s < 0 if op == 'lt' else s <= 0

    def log_facts(self, num):
        """sum c_i log|x_i| + y compares with 0 as exp(y) prod |x_i|^c_i compares with 1"""
        cofs = []
        nlog = 0
        for m in num:
            ls = [a for a, e in m if nf.atoms[a].kind == 'L']
            if not ls:
                continue
            if len(ls) > 1 or dict(m)[ls[0]] != 1:
                return
            c = tuple((a, e) for a, e in m if a != ls[0])
            if c not in cofs:
                cofs.append(c)
            nlog += 1
        if not cofs or nlog > 6 or len(num) == 1:
            return
        for cof in cofs[:3]:
            inv = tuple((a, -e) for a, e in cof)
            inner = {nf.mmul(m, inv): c for m, c in num.items()}
            k = nf.pkey(inner)
            if k in self.expd or len(self.expd) > 12:
                continue
            self.expd.add(k)
            try:
                r = nf.rexp(nf.Rat(inner))
                n, d = self.rat(r)
            except nf.NFError:
                continue
            i = self.poly(inner)
            s = (n - d) * d if not (z3.is_rational_value(d) and d.as_fraction() == 1) else n - 1
            self.facts += [(i < 0) == (s < 0), (i == 0) == (s == 0)]

    def power_facts(self, ra, rb, s):
        """positive products compare as their logarithms"""
        if len(ra.num) != 1 or len(rb.num) != 1:
            return
        if not any(nf.atoms[a].kind in 'AE' and not (isinstance(e, int) or e.denominator == 1) or nf.atoms[a].kind == 'E'
                   or nf.atoms[a].kind == 'A' for r in (ra, rb) for m in r.num for a, e in m):
            return
        for r in (ra, rb):
            if nf.poly_sign(r.num) != 1 or any(nf.poly_sign(dict(k)) != 1 for k in r.den):
                return
        try:
            rl = nf.radd(nf.rlog(ra), nf.rneg(nf.rlog(rb)))
            n, d = self.rat(rl)
        except nf.NFError:
            return
        self.log_facts(rl.num)
        t = n * d if not (z3.is_rational_value(d) and d.as_fraction() == 1) else n
        self.facts += [(s < 0) == (t < 0), (s == 0) == (t == 0)]
        self.two_terms(rl.num)

    def two_terms(self, num):
        """a difference of two positive terms has the sign of the difference of their logarithms"""
        if len(num) != 2 or len(self.two) > 6:
            return
        k = nf.pkey(num)
        if k in self.two:
            return
        self.two.add(k)
        pos = neg = None
        for m, c in num.items():
            sg = nf.poly_sign({m: c})
            if sg == 1:
                pos = {m: c}
            elif sg == -1:
                neg = {m: -c}
        if pos is None or neg is None or not any(nf.atoms[a].kind in 'AEL' for m in num for a, e in m):
            return
        try:
            rl = nf.radd(nf.rlog(nf.Rat(pos)), nf.rneg(nf.rlog(nf.Rat(neg))))
            n, d = self.rat(rl)
        except nf.NFError:
            return
        self.log_facts(rl.num)
        t = n * d if not (z3.is_rational_value(d) and d.as_fraction() == 1) else n
        s = self.poly(num)
        self.facts += [(s < 0) == (t < 0), (s == 0) == (t == 0)]

    # terms
    def tz(self, t, opaque=False):
        key = t.id
        if key in self.memo:
            return self.memo[key]
        r = self._tz(t)
        self.memo[key] = r
        return r

    def _tz(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'and':
            return z3.And([self.tz(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.tz(a) for a in t.args])
        if op == 'not':
            return z3.Not(self.tz(t.args[0]))
        if op == 'iff':
            return self.tz(t.args[0]) == self.tz(t.args[1])
        if op in ('lt', 'le', 'eq'):
            a, b = t.args
            if needs_nf(t) and not nf.has_ite(t):
                return self.cmp(op, a, b)
            x, y = self.num(a), self.num(b)
            return x == y if op == 'eq' else (x < y if op == 'lt' else x <= y)
        if t.sort == 'B':
            if op == 'var':
                return self.var(t)
            raise Undecided('boolean term ' + op)
        return self.num_(t)

    def num(self, t):
        r = self.tz(t)
        return self.real(r)

    def num_(self, t):
        op = t.op
        if op == 'const':
            return q(t.val)
        if op == 'var':
            return self.real(self.var(t))
        if op == 'ite':
            return z3.If(self.tz(t.args[0]), self.num(t.args[1]), self.num(t.args[2]))
        if op == 'floor':
            return z3.ToReal(z3.ToInt(self.num(t.args[0])))
        if t.op in tm_special:
            raise Undecided('special value in a formula')
        if not needs_nf(t) or nf.has_ite(t):
            if op == 'add':
                return z3.Sum([self.num(a) for a in t.args])
            if op == 'mul':
                r = self.num(t.args[0])
                for a in t.args[1:]:
                    r = r * self.num(a)
                return r
            if op == 'ipow':
                b = self.num(t.args[0])
                k = abs(t.val)
                r = b
                for _ in range(k - 1):
                    r = r * b
                return 1 / r if t.val < 0 else r
        if op == 'uf':
            f = self.fresh('uf_' + t.val.replace('|', '_'))
            self.uf_facts(t.val, [self.num(a) for a in t.args], f)
            return f
        if nf.has_ite(t):
            # an unnamed real with the facts that hold of any value of this operation
            v = self.fresh(op)
            self.transcendental = True
            if op in ('exp', 'pow'):
                self.facts.append(v > 0 if op == 'exp' else v >= 0)
                if op == 'exp':
                    m = self.num(t.args[0])
                    self.facts += [(v > 1) == (m > 0), (v == 1) == (m == 0), v >= 1 + m]
            if op == 'log':
                x = self.num(t.args[0])
                self.facts += [z3.Implies(x > 0, z3.And((v > 0) == (x > 1), (v == 0) == (x == 1), v <= x - 1))]
            return v
        n, d = self.rat(nf.rat(t))
        if z3.is_rational_value(d) and d.as_fraction() == 1:
            return n
        return n / d


tm_special = ('nan', 'inf', 'ninf')
UF_LEMMAS = {}
_nn = {}


def needs_nf(t):
    r = _nn.get(t.id)
    if r is None:
        r = t.op in ('exp', 'log', 'pow', 'sin', 'cos') or (t.op == 'ipow' and t.val < 0) or any(
            needs_nf(a) for a in t.args)
        _nn[t.id] = r
    return r


def check(assertions, timeout_ms=3000, want_model=False, nlsat=True):
    """z3's verdict on the conjunction of boolean terms: 'unsat' | ('sat', {var: Fraction}) | 'unknown'"""
    for a in assertions:
        if a is tm.FALSE:
            STATS['queries'] += 1
            STATS['unsat'] += 1
            return 'unsat', None
    assertions = [a for a in assertions if a is not tm.TRUE]
    t0 = time.time()
    try:
        tr = Translator()
        zs = [tr.tz(a) for a in assertions]
    except (nf.NFError, RecursionError) as e:
        raise Undecided(str(e))
    STATS['queries'] += 1
    facts = list(tr.facts)
    verdict = z3.unknown
    model = None
    tries = [(None, timeout_ms)]
    if nlsat and not tr.ints:
        tries = [(None, min(timeout_ms, 1500)), ('qfnra-nlsat', timeout_ms)] if timeout_ms > 1000 else tries
    for tac, to in tries:
        s = z3.Solver() if tac is None else z3.Tactic(tac).solver()
        s.set('timeout', int(to))
        try:
            if tac is None:
                s.set('random_seed', 1)
            s.add(facts)
            s.add(zs)
            verdict = s.check()
            if verdict == z3.sat:
                model = s.model()
        except z3.Z3Exception:
            verdict = z3.unknown
        if verdict != z3.unknown:
            break
    STATS['solver_s'] += time.time() - t0
    name = str(verdict)
    STATS[name] += 1
    if name == 'sat':
        m = {}
        for t in _vars(assertions):
            v = tr.vars.get(t.id)
            if v is None:
                continue
            m[t.val] = _value(model.eval(v, model_completion=True))
        return 'sat', m
    return name, None


def _vars(ts):
    return [t for t in tm.subterms(ts) if t.op == 'var' and t.val != 'pi!']


def _value(x):
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


# --- case splitting on ite under transcendental operations ---------------------------------------------------------

def hard_ites(ts):
    """conditions of ites that sit below exp/log/pow/uf (innermost first)"""
    out = []
    seen = set()

    def ites(t):
        if t.id in seen:
            return
        seen.add(t.id)
        for a in t.args:
            ites(a)
        if t.op == 'ite' and t.args[0] not in out and t.args[0] not in (tm.TRUE, tm.FALSE):
            out.append(t.args[0])

    visited = set()

    def go(t):
        if t.id in visited:
            return
        visited.add(t.id)
        if t.op in ('exp', 'log', 'pow', 'sin', 'cos') or (t.op == 'uf') or (
                t.op in ('add', 'mul', 'ipow', 'lt', 'le', 'eq') and needs_nf(t)):
            for a in t.args:
                ites(a)
        for a in t.args:
            go(a)

    for t in ts:
        go(t)
    return out


def assume(t, cond, value):
    """simplify t knowing cond has the given truth value"""
    mp = {cond.id: tm.TRUE if value else tm.FALSE, tm.not_(cond).id: tm.FALSE if value else tm.TRUE}
    return tm.subst(t, mp)


def settle(g):
    """comparisons without variables are evaluated to 60 digits"""
    if g.op not in ('lt', 'le', 'eq'):
        return g
    if any(t.op in ('uf', 'ite') or t.sort == 'I' and t.op == 'var' for t in tm.subterms([g])) or _vars([g]):
        return g
    try:
        a, b = tm.evaluate(list(g.args), {}, prec=60)
        d = b - a
        if not abs(d) > 1e-30:
            return g
        return tm.TRUE if g.op != 'eq' and d > 0 else tm.FALSE
    except (NotImplementedError, ValueError, ZeroDivisionError, TypeError, OverflowError):
        return g


def prove(assumptions, goal, timeout_ms=6000, budget=None, depth=0):
    """'unsat' when assumptions imply goal; ('sat', model) with a candidate; 'unknown'"""
    if budget is None:
        budget = [400]
    if goal is tm.TRUE:
        STATS['queries'] += 1
        STATS['unsat'] += 1
        return 'unsat', None
    if goal.op == 'and':
        worst = ('unsat', None)
        for g in goal.args:
            r = prove(assumptions, g, timeout_ms, budget, depth)
            if r[0] == 'sat':
                return r
            if r[0] == 'unknown':
                worst = r
        return worst
    goal = settle(goal)
    if goal is tm.TRUE:
        STATS['queries'] += 1
        STATS['unsat'] += 1
        return 'unsat', None
    ng = tm.not_(goal)
    its = hard_ites([ng])
    if its and depth < 40:
        budget[0] -= 1
        if budget[0] < 0:
            return 'unknown', None
        c = its[0]
        worst = ('unsat', None)
        for val in (True, False):
            lit = c if val else tm.not_(c)
            a2 = assumptions + [lit]
            try:
                f = check(a2, 400, nlsat=False)[0]
            except Undecided:
                f = 'unknown'
            if f == 'unsat':
                continue
            g2 = assume(goal, c, val)
            r = prove(a2, g2, timeout_ms, budget, depth + 1)
            if r[0] == 'sat':
                return r
            if r[0] == 'unknown':
                worst = r
        return worst
    try:
        r = check(assumptions + [ng], timeout_ms)
    except Undecided:
        r = 'unknown', None
    if r[0] == 'unknown' and ng.op in ('lt', 'le') and any(opposed(ng, a) for a in assumptions if a.op in ('lt', 'le')):
        STATS['unsat'] += 1
        return 'unsat', None
    return r


def opposed(x, y):
    """two comparisons of which a positive combination reads 0 < 0"""
    try:
        d = [nf.cancel(nf.radd(nf.rat(t.args[1]), nf.rneg(nf.rat(t.args[0])))) for t in (x, y)]
        if any(r.den for r in d):
            return False
        p, r = d[0].num, d[1].num
        m = next((m for m in p if m and m in r), None)
        if m is None:
            return False
        k = -p[m] / r[m]
        if k <= 0:
            return False
        s = nf.padd(p, r, k)
    except (nf.NFError, RecursionError):
        return False
    if any(s[m] != 0 for m in s if m):
        return False
    c = s.get((), 0)
    return c < 0 or (c == 0 and 'lt' in (x.op, y.op))
