"""Canonical forms: a real term without ite becomes a rational function over atoms
(variables, exponentials of monomials, logarithms of factors, uninterpreted applications).
The SMT solver then reasons about polynomials over those atoms; see decide.py for the facts about atoms it is given.
"""
from fractions import Fraction
from math import floor as _floor, gcd

from . import terms as tm

F1 = Fraction(1)


class NFError(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'data')

    def __init__(self, id, kind, data):
        self.id, self.kind, self.data = id, kind, data

    def __repr__(self):
        if self.kind == 'var':
            return str(self.data.val)
        if self.kind == 'E':
            return 'E[' + show_poly({self.data: F1}) + ']'
        if self.kind in 'LA':
            return self.kind + '[' + show_poly(dict(self.data)) + ']'
        if self.kind == 'INV':
            return 'INV[' + show_poly(dict(self.data)) + ']'
        return f'{self.kind}#{self.id}:{self.data!r}'


atoms = []
_atom_ix = {}
_cache = {}


def reset():
    _value.clear()
    _cache.clear()
    _psign.clear()


def atom(kind, key, data):
    k = (kind, key)
    a = _atom_ix.get(k)
    if a is None:
        a = Atom(len(atoms), kind, data)
        atoms.append(a)
        _atom_ix[k] = a
    return a


def show_mono(m):
    return '*'.join(repr(atoms[i]) + ('' if e == 1 else f'^{e}') for i, e in m) or '1'


def show_poly(p):
    return ' + '.join((f'{c}*' if c != 1 else '') + show_mono(m) for m, c in sorted(p.items(), key=str)) or '0'


# --- polynomials: dict mono -> Fraction; mono: sorted tuple of (atom id, exponent) ---------------------------------

def pkey(p):
    return frozenset(p.items())


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def patom(a, e=1):
    return {((a.id, e),): F1}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def _fractional_A(m):
    for a, e in m:
        if e >= 1 or e < 0:
            if atoms[a].kind == 'A':
                return True
    return False


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 4 * MAXTERMS:
        raise NFError('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def ppow(p, k):
    r = {(): F1}
    b = p
    while k:
        if k & 1:
            r = pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def mpow(m, k):
    return tuple((a, _n(e * k)) for a, e in m)


def _n(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def laurent_content(p):
    """the monomial with the minimal exponents over all terms"""
    it = iter(p)
    first = dict(next(it))
    mins = dict(first)
    for m in it:
        d = dict(m)
        for a in list(mins):
            mins[a] = min(mins[a], d.get(a, 0))
        for a, e in d.items():
            if a not in mins:
                mins[a] = min(0, e)
    return tuple(sorted((a, e) for a, e in mins.items() if e))


def primitive(p):
    """p = c * mono * prim, prim with Laurent content 1 and leading coefficient 1 (a fixed monomial order)"""
    mono = laurent_content(p)
    inv = mpow(mono, -1)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = max(q, key=_mono_order)
    c = q[lead]
    if c != 1:
        q = {m: v / c for m, v in q.items()}
    return c, mono, q


def _mono_order(m):
    return (sum(e for _, e in m), m)


# --- rational functions --------------------------------------------------------------------------------------------

class Rat:
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}  # {pkey of primitive poly: exponent}

    def key(self):
        return pkey(self.num), frozenset(self.den.items())

    def __repr__(self):
        return f'({show_poly(self.num)}) / ' + '*'.join(f'({show_poly(dict(k))})^{e}' for k, e in self.den.items())


def den_poly(den):
    r = {(): F1}
    for k, e in den.items():
        r = pmul(r, ppow(dict(k), e))
    return r


def radd(a, b):
    if a.den == b.den:
        return mkrat(padd(a.num, b.num), a.den)
    lcm = dict(a.den)
    for k, e in b.den.items():
        lcm[k] = max(lcm.get(k, 0), e)
    fa = {k: e - a.den.get(k, 0) for k, e in lcm.items() if e > a.den.get(k, 0)}
    fb = {k: e - b.den.get(k, 0) for k, e in lcm.items() if e > b.den.get(k, 0)}
    return mkrat(padd(pmul(a.num, den_poly(fa)), pmul(b.num, den_poly(fb))), lcm)


def rmul(a, b):
    den = dict(a.den)
    na, nb = a.num, b.num
    # cheap cancellation: numerator of one equal to a denominator of the other
    bden = dict(b.den)
    if den or bden:
        na = _cancel(na, bden)
        nb = _cancel(nb, den)
    for k, e in bden.items():
        den[k] = den.get(k, 0) + e
    return mkrat(pmul(na, nb), den)


def _cancel(num, den):
    if not num or not den or len(num) < 2:
        return num
    c, mono, prim = primitive(num)
    k = pkey(prim)
    if k in den:
        den[k] -= 1
        if not den[k]:
            del den[k]
        return {mono: c}
    return num


def mkrat(num, den):
    if _trig:
        num = _reduce_trig(num)
    num = _reduce_A(num)
    if isinstance(num, Rat):  # a negative integer power of |f| left the numerator
        den2 = dict(den)
        for k, e in num.den.items():
            den2[k] = den2.get(k, 0) + e
        num, den = num.num, den2
    if not num:
        return Rat({})
    if den and len(num) > 1:
        den = dict(den)
        num = _cancel(num, den)
    return Rat(num, den)


_trig = set()  # sine atoms


def _reduce_trig(p):
    """sin^2 = 1 - cos^2"""
    if any(a in _trig and e < 0 for m in p for a, e in m):
        p = _reduce_cot(p)
    if not any(a in _trig and e >= 2 for m in p for a, e in m):
        return p
    out = {}
    for m, c in p.items():
        cur = {(): c}
        rest = []
        for a, e in m:
            if a in _trig and e >= 2:
                k, e = divmod(e, 2)
                s = atoms[a]
                cs = atom('cos', s.data[1][0].key(), ('cos',) + tuple(s.data[1:]))
                cur = pmul(cur, ppow({(): F1, ((cs.id, 2),): -F1}, int(k)))
                if not e:
                    continue
            rest.append((a, e))
        out = padd(out, pmul(cur, {tuple(sorted(rest)): F1}))
    return out


def _reduce_cot(p):
    """cos^2 = 1 - sin^2 next to negative powers of the sine"""
    out = {}
    todo = list(p.items())
    while todo:
        m, c = todo.pop()
        d = dict(m)
        for a, e in m:
            if a in _trig and e < 0:
                s = atoms[a]
                cs = atom('cos', s.data[1][0].key(), ('cos',) + tuple(s.data[1:])).id
                if d.get(cs, 0) >= 2:
                    d[cs] -= 2
                    if not d[cs]:
                        del d[cs]
                    todo.append((tuple(sorted(d.items())), c))
                    d[a] = _n(Fraction(e) + 2)
                    if not d[a]:
                        del d[a]
                    todo.append((tuple(sorted(d.items())), -c))
                    break
        else:
            out = padd(out, {m: c})
    return out


def _reduce_A(p):
    """|f|-atoms keep only exponents in (0,1); integer parts become the polynomial again"""
    if not any(atoms[a].kind == 'A' and not (0 < e < 1) for m in p for a, e in m):
        return p
    acc = Rat({})
    for m, c in p.items():
        cur = Rat({(): c})
        rest = []
        for a, e in m:
            at = atoms[a]
            if at.kind == 'A' and not (0 < e < 1):
                k = _floor(e)
                fr = _n(e - k)
                f = dict(at.data)
                s = poly_sign(f)
                if s is None:
                    if fr or abs(k) > 1:
                        # |f|^(2j) = f^(2j)
                        j = k // 2 * 2
                        fr2 = _n(e - j)
                    else:
                        j, fr2 = (0, e) if k == 1 else (-2, _n(e + 2))
                    k, fr = j, fr2
                    s = 1
                if fr:
                    rest.append((a, fr))
                if k > 0:
                    cur = Rat(pmul(cur.num, ppow(f, k)), cur.den)
                    if s == -1 and k % 2:
                        cur = Rat({mm: -cc for mm, cc in cur.num.items()}, cur.den)
                elif k < 0:
                    d = dict(cur.den)
                    kk = pkey(f)
                    d[kk] = d.get(kk, 0) - k
                    num = cur.num
                    if s == -1 and k % 2:
                        num = {mm: -cc for mm, cc in num.items()}
                    cur = Rat(num, d)
            else:
                rest.append((a, e))
        cur = Rat(pmul(cur.num, {tuple(sorted(rest)): F1}), cur.den)
        acc = _radd_raw(acc, cur)
    return acc if acc.den else acc.num


def _radd_raw(a, b):
    lcm = dict(a.den)
    for k, e in b.den.items():
        lcm[k] = max(lcm.get(k, 0), e)
    fa = {k: e - a.den.get(k, 0) for k, e in lcm.items() if e > a.den.get(k, 0)}
    fb = {k: e - b.den.get(k, 0) for k, e in lcm.items() if e > b.den.get(k, 0)}
    return Rat(padd(pmul(a.num, den_poly(fa)), pmul(b.num, den_poly(fb))), lcm)


def rneg(a):
    return Rat({m: -c for m, c in a.num.items()}, a.den)


def rinv(a):
    if not a.num:
        raise NFError('division by zero')
    c, mono, prim = primitive(a.num)
    num = {mpow(mono, -1): 1 / c}
    num = pmul(num, den_poly(a.den))
    if len(prim) == 1:
        return mkrat(num, {})
    return mkrat(num, {pkey(prim): 1})


def rpow(a, k):
    if k < 0:
        return rpow(rinv(a), -k)
    if len(a.num) == 1:
        (m, c), = a.num.items()
        return mkrat({mpow(m, k): c ** k}, {d: e * k for d, e in a.den.items()})
    return mkrat(ppow(a.num, k), {d: e * k for d, e in a.den.items()})


def _clear(p):
    """(expression handled by sympy, generator map) for a polynomial with content removed"""
    import sympy
    ex = {}
    for m in p:
        for a, e in m:
            ex.setdefault(a, set()).add(Fraction(e).denominator)
    scale = {}
    for a, ds in ex.items():
        l = 1
        for d in ds:
            l = l * d // gcd(l, d)
        scale[a] = l
    ids = sorted(scale)
    return ids, scale


_fac_cache = {}


def factor(p):
    """[(prim poly, exponent)], content c, mono:  p = c * mono * prod f^e ; f primitive, non-monomial"""
    c, mono, prim = primitive(p)
    if len(prim) == 1:
        return c, mono, []
    k = pkey(prim)
    r = _fac_cache.get(k)
    if r is None:
        if len(prim) > 400:
            r = (F1, [(prim, 1)])
        else:
            r = _sympy_factor(prim)
        _fac_cache[k] = r
    return c * r[0], mono, r[1]


def _sympy_factor(prim):
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    ids, scale = _clear(prim)
    R, *gens = ring(['g%d' % i for i in ids], QQ)
    d = {}
    for m, c in prim.items():
        e = dict(m)
        d[tuple(int(e.get(i, 0) * scale[i]) for i in ids)] = QQ(c.numerator, c.denominator)
    f = R.from_dict(d)
    c, fl = f.factor_list()
    out = []
    cc = Fraction(int(c.numerator), int(c.denominator))
    for g, e in fl:
        q = {}
        for ex, co in g.terms():
            m = tuple((i, _n(Fraction(x, scale[i]))) for i, x in zip(ids, ex) if x)
            q[m] = Fraction(int(co.numerator), int(co.denominator))
        c2, mono2, pr2 = primitive(q)
        cc *= c2 ** e
        assert not mono2 or len(pr2) == 1 or True
        if mono2:
            out.append(({mono2: F1}, e))
        if len(pr2) > 1:
            out.append((pr2, e))
    return cc, out


def cancel(r):
    """fully cancel numerator and denominator"""
    if not r.den or not r.num:
        return r
    c, mono, fs = factor(r.num)
    den = {}
    for k, e in r.den.items():
        c2, mono2, gs = factor(dict(k))
        c /= c2 ** e
        mono = mmul(mono, mpow(mono2, -e))
        for g, j in gs:
            if len(g) == 1:
                (m, cc), = g.items()
                mono = mmul(mono, mpow(m, -e * j))
                continue
            den[pkey(g)] = den.get(pkey(g), 0) + e * j
    num = {(): F1}
    for g, j in fs:
        if len(g) == 1:
            (m, cc), = g.items()
            mono = mmul(mono, mpow(m, j))
            continue
        k = pkey(g)
        x = min(j, den.get(k, 0))
        if x:
            den[k] -= x
            if not den[k]:
                del den[k]
        if j - x:
            num = pmul(num, ppow(g, j - x))
    return mkrat(pmul(num, {mono: c}), den)


# --- exp / log -----------------------------------------------------------------------------------------------------

def L(p):
    """log|p| as a Rat, p a polynomial (no denominators)"""
    c, mono, fs = factor(p)
    out = log_const(abs(c))
    for a, e in mono:
        out = padd(out, log_atom(a), Fraction(e))
    for f, e in fs:
        if len(f) == 1:
            (m, cc), = f.items()
            for a, x in m:
                out = padd(out, log_atom(a), Fraction(x) * e)
        else:
            out = padd(out, patom(L_atom(f)), Fraction(e))
    return out


def L_atom(f):
    return atom('L', pkey(f), pkey(f))


def log_atom(aid):
    a = atoms[aid]
    if a.kind == 'E':
        return {a.data: F1}
    if a.kind == 'A':
        return patom(L_atom(dict(a.data)))
    if a.kind == 'INV':
        return {m: -c for m, c in L(dict(a.data)).items()}
    return patom(L_atom({((aid, 1),): F1}))


def log_const(c):
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while n > 1:
            if d * d > n or d > 10000:
                d = n
            while n % d == 0:
                out = padd(out, patom(L_atom({(): Fraction(d)})), s)
                n //= d
            d += 1
    return out


def rlog(r):
    r = Rat(r.num, r.den)
    if not r.num:
        raise NFError('log 0')
    out = L(r.num)
    for k, e in r.den.items():
        out = padd(out, L(dict(k)), -e)
    return Rat(out)


def peel(num, f):
    """num = quo * f + rem, taking only multiples of f that are there term by term"""
    lead = max(f, key=_mono_order)
    inv = mpow(lead, -1)
    quo, rem = {}, num
    if len(num) < len(f):
        return quo, rem
    for m, c in num.items():
        if rem.get(m) != c:
            continue
        q, k = mmul(m, inv), c / f[lead]
        if all(rem.get(mmul(q, n)) == k * x for n, x in f.items()):
            quo[q] = k
            rem = padd(rem, {mmul(q, n): k * x for n, x in f.items()}, -1)
    return quo, rem


def rexp(r):
    if r.den:
        r = cancel(r)
    num = r.num
    if r.den:
        for k in r.den:
            quo, rem = peel(num, dict(k))
            if quo:
                den = dict(r.den)
                den[k] -= 1
                if not den[k]:
                    del den[k]
                return rmul(rexp(Rat(quo, den)), rexp(Rat(rem, r.den if rem else {})))
        inv = {(): F1}
        for k, e in r.den.items():
            a = atom('INV', k, k)
            inv = pmul(inv, patom(a, e))
        num = pmul(num, inv)
    out = Rat({(): F1})
    mono = {}
    for m, c in num.items():
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == 'L':
            out = rmul(out, abs_pow(dict(atoms[m[0][0]].data), c))
        else:
            a = atom('E', m, m)
            mono[a.id] = mono.get(a.id, 0) + c
    e = tuple(sorted((a, _n(x)) for a, x in mono.items() if x))
    return rmul(out, Rat({e: F1}))


def abs_pow(f, c):
    """|f|^c for primitive f (single atom, constant or multi-term)"""
    c = Fraction(c)
    if len(f) == 1:
        (m, k), = f.items()
        if not m:
            if c.denominator == 1:
                return Rat({(): k ** int(c)})
            a = atom('A', pkey(f), pkey(f))
            fl = _floor(c)
            return Rat({((a.id, _n(c - fl)),): k ** fl})
        assert k == 1 and len(m) == 1 and m[0][1] == 1
    s = poly_sign(f)
    if c.denominator == 1 and (s is not None or int(c) % 2 == 0):
        k = int(c)
        sg = -1 if (s == -1 and k % 2) else 1
        r = rpow(mkrat(f, {}), k)
        return r if sg == 1 else rneg(r)
    if len(f) == 1 and s == 1:
        (m, k), = f.items()
        return Rat({((m[0][0], _n(c)),): F1})
    a = atom('A', pkey(f), pkey(f))
    return mkrat({((a.id, _n(c)),): F1}, {})


# --- signs by interval arithmetic over atoms -----------------------------------------------------------------------

_psign = {}


def poly_sign(p):
    k = pkey(p)
    if k not in _psign:
        _psign[k] = None
        _psign[k] = _poly_sign(p)
    return _psign[k]


def _poly_sign(p):
    lo, hi, lo_o, hi_o = poly_bounds(p)
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return 1
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return -1
    if hint:
        for f in hint:
            s = f(p)
            if s is not None:
                return s
    return None


hint = []  # callables poly -> sign or None (solver-backed, installed by decide.py)


def poly_bounds(p):
    b = closed_bounds(p)
    if b:
        return b
    b = _poly_bounds(p)
    if 1 < len(p) < 6 and (b[0] is None or b[0] < 0) and (b[1] is None or b[1] > 0):
        # the sign may come from a factor common to all terms
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            if not common:
                break
            d = dict(m)
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and e > 0 and d[a] > 0}
        if common:
            c = tuple(sorted(common.items()))
            inv = tuple((a, -e) for a, e in c)
            r = _poly_bounds({mmul(m, inv): k for m, k in p.items()})
            q = tm._mulb(mono_bounds(c), r)
            if q[0] is not None and q[0] >= 0 or q[1] is not None and q[1] <= 0:
                return q
    return b


def _poly_bounds(p):
    lo, hi, lo_o, hi_o = Fraction(0), Fraction(0), False, False
    for m, c in p.items():
        l, h, o1, o2 = mono_bounds(m)
        if c < 0:
            l, h, o1, o2 = (None if h is None else h * c), (None if l is None else l * c), o2, o1
        else:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        lo_o |= o1
        hi_o |= o2
    return lo, hi, lo_o, hi_o


def mono_bounds(m):
    cur = (F1, F1, False, False)
    for a, e in m:
        cur = tm._mulb(cur, _powb(atom_bounds(a), e))
    return cur


def _powb(b, e):
    l, h, o1, o2 = b
    if isinstance(e, Fraction) and e.denominator != 1:
        if e > 0:
            if h is not None and h <= 1:
                return Fraction(0), Fraction(1), bool(l is not None and (l > 0 or o1)), h < 1 or o2
            if l is not None and l >= 1:
                return F1, None, l > 1 or o1, True
        return Fraction(0), None, bool(l is not None and (l > 0 or o1)), True
    k = int(e)
    tmp = tm.mk('boundsprobe', val=(l, h, o1, o2))
    tm._bcache[tmp.id] = b
    return tm._bounds(tm.mk('ipow', (tmp,), val=k))


_ab_busy = set()
_value = {}


def value(aid):
    """numeric value of an atom without variables (40 digits), else None"""
    if aid not in _value:
        _value[aid] = None
        import mpmath as mp
        with mp.workdps(50):
            try:
                _value[aid] = _atom_value(atoms[aid], mp)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                pass
            v = _value[aid]
            if v is not None and not (isinstance(v, mp.mpf) and mp.isfinite(v) and abs(v) < mp.mpf(10) ** 60):
                _value[aid] = None
    return _value[aid]


def _mono_value(m, mp):
    r = mp.mpf(1)
    for a, e in m:
        v = value(a)
        if v is None:
            return None
        r *= v ** (mp.mpf(e.numerator) / e.denominator if isinstance(e, Fraction) else e)
    return r


def poly_value(p, mp):
    r = mp.mpf(0)
    for m, c in p.items():
        v = _mono_value(m, mp)
        if v is None:
            return None
        r += v * c.numerator / c.denominator
    return r


def _atom_value(a, mp):
    if a.kind == 'var':
        return mp.pi + 0 if a.data.val == 'pi!' else None
    if a.kind in ('sin', 'cos', 'uf'):
        if a.kind == 'uf' and a.data[0] not in tm.TRUE_FUNCTIONS:
            return None
        args = []
        for r in a.data[1]:
            v = poly_value(r.num, mp)
            for k, e in r.den.items():
                w = poly_value(dict(k), mp)
                if v is None or w is None:
                    return None
                v /= w ** e
            if v is None:
                return None
            args.append(v)
        return mp.sin(args[0]) if a.kind == 'sin' else mp.cos(args[0]) if a.kind == 'cos' else tm.UF_NUM[a.data[0]](*args)
    if a.kind == 'E':
        v = _mono_value(a.data, mp)
        return None if v is None else mp.exp(v)
    if a.kind in ('L', 'A', 'INV'):
        v = poly_value(dict(a.data), mp)
        return None if v is None else mp.log(abs(v)) if a.kind == 'L' else abs(v) if a.kind == 'A' else 1 / v
    return None


def _around(v, mp):
    e = (1 + abs(v)) * mp.mpf(10) ** -30
    lo, hi = (mp.nstr(x, 45, strip_zeros=False) for x in (v - e, v + e))
    return Fraction(lo), Fraction(hi), True, True


def closed_bounds(p):
    if not p or set(p) == {()}:
        return None
    for m in p:
        for a, e in m:
            if value(a) is None:
                return None
    import mpmath as mp
    with mp.workdps(50):
        try:
            v = poly_value(p, mp)
            return _around(v, mp) if v is not None and isinstance(v, mp.mpf) and mp.isfinite(v) else None
        except (ZeroDivisionError, ValueError, OverflowError):
            return None


def atom_bounds(aid):
    a = atoms[aid]
    if a.kind != 'var':
        v = value(aid)
        if v is not None:
            import mpmath as mp
            with mp.workdps(50):
                return _around(v, mp)
    if a.kind == 'var':
        return tm.bounds(a.data)
    if a.kind == 'E':
        if aid in _ab_busy:
            return Fraction(0), None, True, True
        _ab_busy.add(aid)
        try:
            l, h, o1, o2 = mono_bounds(a.data)
        finally:
            _ab_busy.discard(aid)
        lo, lo_o, hi, hi_o = Fraction(0), True, None, True
        if l is not None and l >= 0:
            lo, lo_o = F1, (o1 or l > 0)
        if h is not None and h <= 0:
            hi, hi_o = F1, (o2 or h < 0)
        l, h = tm.enc_exp(l, h)
        if l is not None:
            lo, lo_o = l, True
        if h is not None:
            hi, hi_o = h, True
        return lo, hi, lo_o, hi_o
    if a.kind == 'L':
        if aid in _ab_busy:
            return None, None, True, True
        _ab_busy.add(aid)
        try:
            l, h, o1, o2 = poly_bounds(dict(a.data))
        finally:
            _ab_busy.discard(aid)
        if l is None or l < 0:
            if h is not None and h <= 0:
                l, h, o1, o2 = -h, (None if l is None else -l), o2, o1
            elif l is not None and h is not None and max(-l, h) <= 1:
                return None, Fraction(0), True, (o1 and o2) or max(-l, h) < 1
            else:
                return None, None, True, True
        lo = hi = None
        lo_o = hi_o = True
        if l >= 1:
            lo, lo_o = Fraction(0), o1 or l > 1
        if h is not None and h <= 1:
            hi, hi_o = Fraction(0), o2 or h < 1
        l, h = tm.enc_log(l, h)
        if l is not None:
            lo, lo_o = l, True
        if h is not None:
            hi, hi_o = h, True
        return lo, hi, lo_o, hi_o
    if a.kind == 'A':
        return Fraction(0), None, True, True
    if a.kind == 'INV':
        return _powb(poly_bounds(dict(a.data)), -1)
    if a.kind == 'uf' and a.data[0] in tm.uf_range:
        return tm.uf_range[a.data[0]]
    if a.kind in ('sin', 'cos'):
        y = rmul(a.data[1][0], rinv(rat(tm.PI)))
        if not y.den and set(y.num) == {()}:
            import mpmath as mp
            c = y.num[()]
            v = Fraction(str(mp.nstr((mp.sinpi if a.kind == 'sin' else mp.cospi)(mp.mpf(c.numerator) / c.denominator), 15)))
            return v - Fraction(1, 10 ** 13), v + Fraction(1, 10 ** 13), True, True
        if y.num and not y.den:
            # in half turns
            l, h, o1, o2 = poly_bounds(y.num)
            if l is not None and h is not None:
                if a.kind == 'cos':
                    l, h = l + Fraction(1, 2), h + Fraction(1, 2)
                for k in (-1, 0, 1):
                    if l >= k and h <= k + 1:
                        o = (o1 or l > k) and (o2 or h < k + 1)
                        return (Fraction(0), F1, o, False) if k == 0 else (Fraction(-1), Fraction(0), False, o)
        return Fraction(-1), F1, False, False
    return None, None, True, True


# --- from terms ----------------------------------------------------------------------------------------------------

def has_ite(t):
    m = t.memo
    if m is None:
        m = t.memo = t.op in ('ite', 'nan', 'inf', 'ninf') or any(has_ite(a) for a in t.args)
    return m


def rat(t):
    r = _cache.get(t.id)
    if r is None:
        r = _rat(t)
        _cache[t.id] = r
    return r


def _rat(t):
    op = t.op
    if op == 'const':
        return Rat(pconst(t.val))
    if op == 'var':
        return Rat(patom(atom('var', t.id, t)))
    if op == 'add':
        r = rat(t.args[0])
        for a in t.args[1:]:
            r = radd(r, rat(a))
        return r
    if op == 'mul':
        r = rat(t.args[0])
        for a in t.args[1:]:
            r = rmul(r, rat(a))
        return r
    if op == 'ipow':
        return rpow(rat(t.args[0]), t.val)
    if op == 'exp':
        return rexp(rat(t.args[0]))
    if op == 'log':
        return rlog(rat(t.args[0]))
    if op == 'pow':
        b, e = rat(t.args[0]), rat(t.args[1])
        if not b.num:
            raise NFError('0 ** x')
        return rexp(rmul(e, rlog(b)))
    if op == 'uf':
        if any(has_ite(a) for a in t.args):
            return Rat(patom(atom('opaque', t.id, t)))
        args = [cancel(rat(a)) for a in t.args]
        a = atom('uf', (t.val,) + tuple(x.key() for x in args), (t.val, args, t))
        return Rat(patom(a))
    if op in ('sin', 'cos'):
        arg = cancel(rat(t.args[0]))
        # normalise the sign of the argument and take out quarter turns
        s = 1
        pi = next(iter(rat(tm.PI).num))
        rest = [m for m in arg.num if m != pi]
        if arg.num:
            lead = max(rest or arg.num, key=_mono_order)
            if arg.num[lead] < 0:
                arg = rneg(arg)
                s = -1 if op == 'sin' else 1
        if rest and pi in arg.num and not arg.den:
            q = _floor(2 * arg.num[pi])
            if q:
                arg = radd(arg, rneg(rmul(rat(tm.PI), Rat(pconst(Fraction(q, 2))))))
                k = (q + (op == 'cos')) % 4     # sin of the argument and k quarter turns
                op = ('sin', 'cos')[k % 2]
                s = -s if k >= 2 else s
        a = atom(op, arg.key(), (op, [arg], t))
        if op == 'sin':
            _trig.add(a.id)
        r = Rat(patom(a))
        return rneg(r) if s == -1 else r
    if op == 'floor':
        if not has_ite(t.args[0]):
            try:
                return Rat(patom(atom('opaque', ('floor', cancel(rat(t.args[0])).key()), t)))
            except NFError:
                pass
        return Rat(patom(atom('opaque', t.id, t)))
    raise NFError('no normal form for ' + op)
