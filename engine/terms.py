"""Hash-consed terms over the reals (exact arithmetic), booleans and uninterpreted functions.

The symbolic execution of copulae builds these terms; `decide` hands them to the SMT solver.
"""
from fractions import Fraction
import math

from . import drawval

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'args', 'val', 'id', 'sort', 'memo')

    def __init__(self, op, args, val, sort):
        self.op, self.args, self.val, self.sort = op, args, val, sort
        _count[0] += 1
        self.id = _count[0]
        self.memo = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, args=(), val=None, sort='R'):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = T(op, tuple(args), val, sort)
        _table[key] = t
    return t


TRUE = mk('true', sort='B')
FALSE = mk('false', sort='B')
NAN = mk('nan')
INF = mk('inf')
NINF = mk('ninf')
SPECIAL = (NAN, INF, NINF)


def snap(x: float) -> Fraction:
    """The exact number a float literal of the source stands for (shortest decimal, or a small rational)."""
    fr = Fraction(x)
    if fr.denominator == 1:
        return fr
    lim = fr.limit_denominator(5000)
    if lim != 0 and abs(lim - fr) <= abs(fr) * Fraction(1, 2 ** 51):
        return lim
    return Fraction(repr(x))


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, float):
        if x != x:
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
        x = snap(x)
    return mk('const', val=Fraction(x))


ZERO = const(0)
ONE = const(1)
NEG1 = const(-1)
HALF = const(Fraction(1, 2))


def var(name, sort='R'):
    return mk('var', val=name, sort=sort)


PI = var('pi!')
TWO_PI = Fraction(6283185307179586476925286766559, 10 ** 30)


def is_const(t):
    return t.op == 'const'


# --- quick sign analysis -------------------------------------------------------------------------------------------
# var_range: name -> (lo, hi, lo_strict, hi_strict); filled in by the harness' declarations (assumptions of the claim)
var_range = {}


def reset():
    """forget declared ranges (the term table itself may stay)"""
    var_range.clear()
    var_range['pi!'] = (Fraction(31415926535897932384626433832795, 10 ** 31), Fraction(31415926535897932384626433832796, 10 ** 31))
    _bcache.clear()
    _floors.clear()


_bcache = {}
_enc = {}


def enclose(fn, x, up):
    """a rational at or beyond fn(x), fn in (exp, log), within a relative 1e-14"""
    k = (fn, x, up)
    r = _enc.get(k)
    if r is None:
        import mpmath as mp
        with mp.workdps(40):
            v = (mp.exp if fn == 'exp' else mp.log)(mp.mpf(x.numerator) / x.denominator)
            v += (abs(v) * mp.mpf(10) ** -18 + mp.mpf(10) ** -1000) * (1 if up else -1)
            # 17 significant digits, away from the value
            e = int(mp.floor(mp.log10(abs(v)))) - 17 if v else 0
            n = int((mp.ceil if up else mp.floor)(v * mp.mpf(10) ** -e))
        r = _enc[k] = Fraction(n) * Fraction(10) ** e
    return r


def enc_exp(l, h):
    lo = enclose('exp', l, False) if l is not None and l != 0 and -3000 < l < 3000 else None
    hi = enclose('exp', h, True) if h is not None and h != 0 and -3000 < h < 3000 else None
    return lo, hi


def enc_log(l, h):
    lo = enclose('log', l, False) if l is not None and l > 0 and l != 1 else None
    hi = enclose('log', h, True) if h is not None and h > 0 and h != 1 else None
    return lo, hi


def bounds(t):
    """(lo, hi, lo_open, hi_open) an interval enclosure (None = unbounded)."""
    b = _bcache.get(t.id)
    if b is None:
        b = _bounds(t)
        if (b[0] is None or b[0] != b[1]) and closed(t):
            b = _enclose(t) or b
        _bcache[t.id] = b
    return b


TRUE_FUNCTIONS = {'arctan', 'atan2', 'arcsin', 'gamma', 'gammaln'}   # numeric stand-ins that are the functions themselves
_closed = {}


def closed(t):
    """no variables (pi is none)"""
    r = _closed.get(t.id)
    if r is None:
        if t.op == 'var':
            r = t.val == 'pi!'
        elif t.op == 'uf':
            r = t.val in TRUE_FUNCTIONS and all(closed(a) for a in t.args)
        elif t.op in ('boundsprobe', 'nan', 'inf', 'ninf', 'floor'):
            r = False
        else:
            r = t.op == 'const' or bool(t.args) and all(closed(a) for a in t.args)
        _closed[t.id] = r
    return r


def _enclose(t):
    """an interval of relative width 1e-30 around the value of a term without variables"""
    import mpmath as mp
    try:
        v, = evaluate([t], {}, prec=60)
        w, = evaluate([t], {}, prec=80)
    except (KeyError, NotImplementedError, ZeroDivisionError, OverflowError, ValueError, TypeError):
        return None
    if not (isinstance(v, mp.mpf) and mp.isfinite(v) and abs(v) < mp.mpf(10) ** 60):
        return None
    with mp.workdps(80):
        e = (1 + abs(v)) * mp.mpf(10) ** -30
        if not (isinstance(w, mp.mpf) and abs(v - w) < e / 10 ** 6):
            return None
        return Fraction(mp.nstr(v - e, 70)), Fraction(mp.nstr(v + e, 70)), True, True


def _bounds(t):
    op = t.op
    if op == 'const':
        return t.val, t.val, False, False
    if op == 'var':
        r = var_range.get(t.val)
        if r is None:
            return None, None, True, True
        if len(r) == 2:
            return r[0], r[1], True, True
        return r
    if op == 'add':
        lo, hi, lo_o, hi_o = Fraction(0), Fraction(0), False, False
        for a in t.args:
            l, h, o1, o2 = bounds(a)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            lo_o |= o1
            hi_o |= o2
        return lo, hi, lo_o, hi_o
    if op == 'mul':
        cur = (Fraction(1), Fraction(1), False, False)
        for a in t.args:
            cur = _mulb(cur, bounds(a))
        return cur
    if op == 'ipow':
        l, h, o1, o2 = bounds(t.args[0])
        k = t.val
        if k < 0:
            # 1/x^|k|
            if l is not None and (l > 0 or (l == 0 and o1)):
                lo = Fraction(0) if h is None else Fraction(1) / h ** -k
                hi = None if l == 0 else Fraction(1) / l ** -k
                return lo, hi, True if h is None else o2, True if l == 0 else o1
            if h is not None and (h < 0 or (h == 0 and o2)):
                a, b = Fraction(0) if l is None else Fraction(1) / (-l) ** -k, None if h == 0 else Fraction(1) / (-h) ** -k
                ao, bo = True if l is None else o1, True if h == 0 else o2
                return (a, b, ao, bo) if k % 2 == 0 else (None if b is None else -b, -a, bo, ao)
            if k % 2 == 0 or l is not None and l >= 0:
                return Fraction(0), None, True, True
            if h is not None and (h < 0 or (h == 0 and o2)):
                return None, Fraction(0), True, True
            return None, None, True, True
        if k % 2 == 0:
            if l is not None and l >= 0:
                return l ** k, None if h is None else h ** k, o1, o2
            if h is not None and h <= 0:
                return h ** k, None if l is None else l ** k, o2, o1
            return Fraction(0), None, False, True
        return (None if l is None else l ** k), (None if h is None else h ** k), o1, o2
    if op == 'floor':
        l, h, o1, o2 = bounds(t.args[0])
        return (None if l is None else Fraction(math.floor(l)),
                None if h is None else Fraction(math.ceil(h) - 1 if o2 else math.floor(h)), l is None, h is None)
    if op == 'exp':
        l, h, o1, o2 = bounds(t.args[0])
        lo, lo_o, hi, hi_o = Fraction(0), True, None, True
        if l is not None and l >= 0:
            lo, lo_o = Fraction(1), (o1 or l > 0)
        if h is not None and h <= 0:
            hi, hi_o = Fraction(1), (o2 or h < 0)
        a, b = enc_exp(l, h)
        if a is not None:
            lo, lo_o = a, True
        if b is not None:
            hi, hi_o = b, True
        return lo, hi, lo_o, hi_o
    if op == 'log':
        l, h, o1, o2 = bounds(t.args[0])
        lo = hi = None
        lo_o = hi_o = True
        if l is not None and l >= 1:
            lo, lo_o = Fraction(0), (o1 or l > 1)
        if h is not None and h <= 1:
            hi, hi_o = Fraction(0), (o2 or h < 1)
        a, b = enc_log(l, h)
        if a is not None:
            lo, lo_o = a, True
        if b is not None:
            hi, hi_o = b, True
        return lo, hi, lo_o, hi_o
    if op == 'pow':
        bl, bh, b1, b2 = bounds(t.args[0])
        el, eh, e1, e2 = bounds(t.args[1])
        lo, lo_o, hi, hi_o = Fraction(0), bool(bl is not None and (bl > 0 or (bl == 0 and b1))), None, True
        epos = el is not None and el >= 0
        eneg = eh is not None and eh <= 0
        if epos and bl is not None and bl >= 1:
            lo, lo_o = Fraction(1), False
        if epos and bh is not None and bh <= 1:
            hi, hi_o = Fraction(1), (b2 and (el > 0 or e1))
        if eneg and bh is not None and bh <= 1:
            lo, lo_o = Fraction(1), (b2 and (eh < 0 or e2))
        if eneg and bl is not None and bl >= 1:
            hi, hi_o = Fraction(1), False
        return lo, hi, lo_o, hi_o
    if op == 'ite':
        a, b = t.args[1], t.args[2]
        if a in SPECIAL or b in SPECIAL:
            return None, None, True, True
        l1, h1, a1, a2 = bounds(a)
        l2, h2, b1, b2 = bounds(b)
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
        lo_o = True if lo is None else all(o for l, o in ((l1, a1), (l2, b1)) if l == lo)
        hi_o = True if hi is None else all(o for h, o in ((h1, a2), (h2, b2)) if h == hi)
        return lo, hi, lo_o, hi_o
    if op == 'uf':
        if t.val == 'gamma' and sign(t.args[0]) == 1:
            return Fraction(0), None, True, True
        r = uf_range.get(t.val)
        if r:
            return r
    if op in ('sin', 'cos'):
        r = _pi_multiple(t.args[0])
        if r is not None:
            import mpmath as mp
            v = Fraction(str(mp.nstr((mp.sinpi if op == 'sin' else mp.cospi)(mp.mpf(r.numerator) / r.denominator), 15)))
            return v - Fraction(1, 10 ** 13), v + Fraction(1, 10 ** 13), True, True
        l, h, _, _ = bounds(t.args[0])
        if l is not None and h is not None and h - l < 6 and -100 < l < 100:
            return _trig_range(op, l, h)
        return Fraction(-1), Fraction(1), False, False
    return None, None, True, True


def _trig_range(op, l, h):
    """sin or cos on [l, h]: the ends and the turning points between them, widened by 1e-13"""
    import mpmath as mp
    with mp.workdps(40):
        f = mp.sin if op == 'sin' else mp.cos
        L, H = (mp.mpf(x.numerator) / x.denominator for x in (l, h))
        vs = [f(L), f(H)]
        k = mp.ceil(L / mp.pi - (mp.mpf(1) / 2 if op == 'sin' else 0) - mp.mpf(10) ** -20)
        for i in range(3):
            turn = (k + i + (mp.mpf(1) / 2 if op == 'sin' else 0)) * mp.pi
            if turn <= H + mp.mpf(10) ** -20:
                vs.append(f(turn))
        lo, hi = (Fraction(mp.nstr(x, 30)) for x in (min(vs), max(vs)))
    e = Fraction(1, 10 ** 13)
    return max(lo - e, Fraction(-1)), min(hi + e, Fraction(1)), False, False


uf_range = {'atan2': (Fraction(0), Fraction(1571, 1000), True, True)}     # see sarr.f_atan2


def _mulb(x, y):
    def zero_bound(lo, lo_o):
        return lo

    # only products where signs are determined give finite bounds
    cands = []
    (a, b, a_o, b_o), (c, d, c_o, d_o) = x, y
    if a is not None and a >= 0 and c is not None and c >= 0:
        lo = a * c
        lo_o = (a_o if a > 0 or a_o else False) and True if lo == 0 else (a_o or c_o)
        if lo == 0:
            # strictly positive iff both strictly positive
            ap = a > 0 or a_o
            cp = c > 0 or c_o
            lo_o = ap and cp
        hi = None if b is None or d is None else b * d
        return lo, hi, lo_o, True if hi is None else (b_o or d_o)
    if b is not None and b <= 0 and c is not None and c >= 0:
        r = _mulb((None if b is None else -b, None if a is None else -a, b_o, a_o), y)
        return (None if r[1] is None else -r[1]), (None if r[0] is None else -r[0]), r[3], r[2]
    if a is not None and a >= 0 and d is not None and d <= 0:
        return _mulb(y, x)
    if b is not None and b <= 0 and d is not None and d <= 0:
        return _mulb((-b, None if a is None else -a, b_o, a_o), (-d, None if c is None else -c, d_o, c_o))
    if None not in (a, b, c, d):
        v = [a * c, a * d, b * c, b * d]
        return min(v), max(v), False, False
    return None, None, True, True


def sign(t):
    """1, -1, 0 when the sign is known from the bounds; '>=0' / '<=0' when only weakly; None otherwise"""
    lo, hi, lo_o, hi_o = bounds(t)
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return 1
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return -1
    if lo == 0 and hi == 0:
        return 0
    if lo is not None and lo >= 0:
        return '>=0'
    if hi is not None and hi <= 0:
        return '<=0'
    return None


# --- constructors --------------------------------------------------------------------------------------------------

def add(*ts):
    out = []
    c = Fraction(0)
    special = None
    for t in ts:
        if t.op == 'const':
            c += t.val
        elif t.op == 'add':
            for a in t.args:
                if a.op == 'const':
                    c += a.val
                else:
                    out.append(a)
        elif t in SPECIAL:
            if special is None:
                special = t
            elif special is not t:
                special = NAN
        else:
            out.append(t)
    if special is not None:
        return special
    # collect equal terms
    coef = {}
    order = []
    for a in out:
        k, b = _split_coef(a)
        if b.id in coef:
            coef[b.id][0] += k
        else:
            coef[b.id] = [k, b]
            order.append(b.id)
    if c.denominator > 10 ** 6 and 6 < c < 7 and abs(c - TWO_PI) < Fraction(1, 10 ** 18):
        # a constant that is two pi up to far less than the rounding of doubles
        return add(*ts, mul(const(2), PI), const(-c))
    res = []
    order.sort()
    for i in order:
        k, b = coef[i]
        if k == 0:
            continue
        res.append(b if k == 1 else _scale(k, b))
    if c != 0:
        res.append(const(c))
    if not res:
        return ZERO
    if len(res) == 1:
        return res[0]
    return mk('add', res)


def _split_coef(a):
    if a.op == 'mul' and a.args[0].op == 'const':
        rest = a.args[1:]
        return a.args[0].val, (rest[0] if len(rest) == 1 else mk('mul', rest))
    return Fraction(1), a


def _scale(k, b):
    if b.op == 'mul':
        return mk('mul', (const(k),) + b.args)
    return mk('mul', (const(k), b))


def mul(*ts):
    c = Fraction(1)
    out = []
    special = None
    for t in ts:
        if t.op == 'const':
            c *= t.val
        elif t.op == 'mul':
            for a in t.args:
                if a.op == 'const':
                    c *= a.val
                else:
                    out.append(a)
        elif t in SPECIAL:
            special = t if special is None else (
                NAN if NAN in (special, t) else (INF if special is t else NINF))
        else:
            out.append(t)
    if special is not None:
        if special is NAN or c == 0:
            return NAN
        s = 1 if c > 0 else -1
        for t in out:
            g = sign(t)
            if g in (1, -1):
                s *= g
            elif g == 0:
                return NAN
            else:
                from .path import decide_sign
                g = decide_sign(t)
                if g == 0:
                    return NAN
                s *= g
        return (INF if special is INF else NINF) if s > 0 else (NINF if special is INF else INF)
    if c == 0:
        return ZERO
    # merge equal bases
    if len(out) > 1:
        base = {}
        order = []
        for a in out:
            b, k = (a.args[0], a.val) if a.op == 'ipow' else (a, 1)
            if b.id in base:
                base[b.id][1] += k
            else:
                base[b.id] = [b, k]
                order.append(b.id)
        out = [ipow(*base[i]) for i in order if base[i][1] != 0]
        if any(o.op in ('const', 'mul') for o in out):
            return mul(const(c), *out)
    if not out:
        return const(c)
    out.sort(key=_tid)
    if c == 1:
        return out[0] if len(out) == 1 else mk('mul', out)
    if len(out) == 1 and out[0].op == 'add' and False:
        return add(*[mul(const(c), a) for a in out[0].args])
    return mk('mul', [const(c)] + out)


def _tid(t):
    return t.id


def neg(t):
    return mul(NEG1, t)


def sub(a, b):
    return add(a, neg(b))


def ipow(b, k):
    k = int(k)
    if b is NAN:
        return ONE if k == 0 else NAN
    if k == 0:
        return ONE
    if k == 1:
        return b
    if b in (INF, NINF):
        if k < 0:
            return ZERO
        return INF if (b is INF or k % 2 == 0) else NINF
    if b.op == 'const':
        if b.val == 0 and k < 0:
            return INF if k % 2 == 0 else NAN  # 1/0: callers handle the numerator (see div)
        return const(b.val ** k)
    if b.op == 'ipow':
        return ipow(b.args[0], b.val * k)
    if b.op == 'mul' and k < 0:
        return mul(*[ipow(a, k) for a in b.args])
    if b.op == 'exp':
        return exp(mul(const(k), b.args[0]))
    return mk('ipow', (b,), val=k)


def div(a, b):
    if b.op == 'const' and b.val == 0:
        if a is NAN or a is ZERO:
            return NAN
        if a in (INF, NINF):
            return a
        s = sign(a)
        if s not in (1, -1):
            from .path import decide_sign
            s = decide_sign(a)
            if s == 0:
                return NAN
        return INF if s == 1 else NINF
    if a.op == 'ite' and b.op == 'const':
        pass
    return mul(a, ipow(b, -1))


def exp(t):
    if t.op == 'const' and t.val == 0:
        return ONE
    if t is NAN:
        return NAN
    if t is INF:
        return INF
    if t is NINF:
        return ZERO
    if t.op == 'log':
        return t.args[0]
    return mk('exp', (t,))


def _shared(t):
    """for a sum of terms c * exp(x + k * ite(..)) that share k * ite(..): (k * ite(..), the sum without it); else None"""
    if t.op != 'add':
        return None
    common = None
    for a in t.args:
        if a.op == 'const':
            return None
        got = {}
        for f in (a.args if a.op == 'mul' else (a,)):
            if f.op == 'exp':
                for b in (f.args[0].args if f.args[0].op == 'add' else (f.args[0],)):
                    k, base = _split_coef(b)
                    if base.op == 'ite':
                        if base.id in got:
                            return None
                        got[base.id] = (k, base)
        common = got if common is None else {i: v for i, v in common.items() if got.get(i, (None,))[0] == v[0]}
        if not common:
            return None
    sh = add(*[b if k == 1 else _scale(k, b) for k, b in common.values()])
    out = []
    for a in t.args:
        fs = list(a.args) if a.op == 'mul' else [a]
        for i, f in enumerate(fs):
            if f.op == 'exp':
                bs = f.args[0].args if f.args[0].op == 'add' else (f.args[0],)
                keep = [b for b in bs if common.get(_split_coef(b)[1].id, (None,))[0] != _split_coef(b)[0]]
                if len(keep) < len(bs):
                    fs[i] = exp(add(*keep))
        out.append(mul(*fs))
    return sh, add(*out)


def log(t):
    if t is NAN or t is NINF:
        return NAN
    if t is INF:
        return INF
    if t.op == 'const':
        if t.val == 1:
            return ZERO
        if t.val == 0:
            return NINF
        if t.val < 0:
            return NAN
    if t.op == 'exp':
        return t.args[0]
    q = _shared(t)
    if q is not None:
        return add(q[0], log(q[1]))
    return mk('log', (t,))


def power(b, e):
    if e.op == 'const' and e.val == 0:
        return ONE
    if b is ONE:
        return ONE
    if b is NAN or e is NAN:
        return NAN
    if e.op == 'const':
        if e.val.denominator == 1:
            if b.op == 'const' and b.val == 0 and e.val < 0:
                return INF
            return ipow(b, int(e.val))
        if b.op == 'const' and b.val > 0:
            # exact roots
            n, d = e.val.numerator, e.val.denominator
            rn, rd = _iroot(b.val.numerator, d), _iroot(b.val.denominator, d)
            if rn is not None and rd is not None:
                return const(Fraction(rn, rd) ** n)
    if e in (INF, NINF):
        lo, hi, lo_o, hi_o = bounds(b) if b not in SPECIAL else (None,) * 4
        if b is INF:
            return INF if e is INF else ZERO
        if lo is not None and lo >= 0 and hi is not None and (hi < 1 or (hi == 1 and hi_o)):
            return ZERO if e is INF else INF
        if lo is not None and (lo > 1 or (lo == 1 and lo_o)):
            return INF if e is INF else ZERO
        return NAN
    if b in (INF, NINF):
        s = sign(e)
        if s not in (1, -1):
            from .path import decide_sign
            s = decide_sign(e)
        if b is NINF:
            return NAN
        return INF if s == 1 else ZERO
    if b.op == 'const' and b.val == 0:
        s = sign(e)
        if s not in (1, -1):
            from .path import decide_sign
            s = decide_sign(e)
            if s == 0:
                return ONE
        return ZERO if s == 1 else INF
    if b.op == 'const' and b.val < 0:
        return NAN
    if b.op == 'exp':
        return exp(mul(b.args[0], e))
    if b.op == 'pow':
        return power(b.args[0], mul(b.args[1], e))
    return mk('pow', (b, e))


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 52 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def sqrt(t):
    if t in SPECIAL:
        return INF if t is INF else NAN
    return power(t, HALF)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', (c, a, b), sort='R')


def uf(name, args, sort='R'):
    if any(a is NAN for a in args):
        return NAN
    return mk('uf', tuple(args), val=name, sort=sort)


def fun1(op, t):
    if t in SPECIAL:
        return NAN
    return mk(op, (t,))


def sin(t):
    r = _pi_multiple(t)
    if r is not None:
        r2 = r % 2
        tab = {Fraction(0): ZERO, Fraction(1, 2): ONE, Fraction(1): ZERO, Fraction(3, 2): NEG1,
               Fraction(1, 6): HALF, Fraction(5, 6): HALF, Fraction(7, 6): const(Fraction(-1, 2)),
               Fraction(11, 6): const(Fraction(-1, 2))}
        if r2 in tab:
            return tab[r2]
        # into the first quadrant
        sg = NEG1 if r2 > 1 else ONE
        r2 %= 1
        r2 = min(r2, 1 - r2)
        if r2 == Fraction(1, 4):
            return mul(sg, sqrt(HALF))
        if r2 == Fraction(1, 3):
            return mul(sg, HALF, sqrt(const(3)))
        if r2 != r:
            return mul(sg, fun1('sin', mul(const(r2), PI)))
    if t.op == 'uf' and t.val == 'arcsin':
        return t.args[0]
    return fun1('sin', t)


def cos(t):
    r = _pi_multiple(t)
    if r is not None:
        return sin(add(t, mul(HALF, PI)))
    return fun1('cos', t)


def _pi_multiple(t):
    if t is ZERO:
        return Fraction(0)
    if t is PI:
        return Fraction(1)
    if t.op == 'mul' and len(t.args) == 2 and t.args[0].op == 'const' and t.args[1] is PI:
        return t.args[0].val
    return None


def tan(t):
    if t.op == 'uf' and t.val == 'arctan':
        return t.args[0]
    return div(sin(t), cos(t))


def floor(t):
    if t.op == 'const':
        return const(math.floor(t.val))
    if t in SPECIAL:
        return t
    if t.sort == 'I' or t.op == 'floor':
        return t
    r = mk('floor', (t,), sort='R')
    if r.id not in _floors:
        _floors[r.id] = _floor(t, r)
    return _floors[r.id]


_floors = {}


def _floor(t, r):
    """whole summands taken out, and settled where the bounds do"""
    from . import nf
    k = 0
    b = bounds(t)
    try:
        if not nf.has_ite(t):
            x = nf.cancel(nf.rat(t))
            if not x.den:
                k = math.floor(x.num.get((), 0))
                if k:
                    x = nf.radd(x, nf.Rat(nf.pconst(Fraction(-k))))
                b = nf.poly_bounds(x.num)
    except nf.NFError:
        k, b = 0, bounds(t)
    l, h, _, o2 = b
    if l is not None and h is not None and math.floor(l) == (math.ceil(h) - 1 if o2 else math.floor(h)):
        return const(math.floor(l) + k)
    return add(mk('floor', (add(t, const(-k)),), sort='R'), const(k)) if k else r


# booleans

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op in ('lt', 'le') and _eigen(a.args[1]) and _free(a.args[0]):
        return mk('not', (a,), sort='B')
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return mk('not', (a,), sort='B')


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    out = list(seen.values())
    for x in out:
        if not_(x).id in seen:
            return FALSE
    out = [x for x in out if not (x.op == 'or' and any(
        a.id in seen or a.op == 'and' and all(b.id in seen for b in a.args) for a in x.args))]
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', out, sort='B')


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    out = list(seen.values())
    for x in out:
        if not_(x).id in seen:
            return TRUE
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', out, sort='B')


def implies(a, b):
    return or_(not_(a), b)


def _reduce_sign(t):
    """(t', k): t has the sign of k * t', with factors of known sign dropped"""
    k = 1
    fs = list(t.args) if t.op == 'mul' else [t]
    out = []
    for f in fs:
        g = sign(f)
        if g == 1:
            continue
        if g == -1:
            k = -k
            continue
        if f.op == 'ipow' and f.val % 2:
            f = f.args[0]
        if f.op == 'pow':
            f = f.args[0]
        q = _shared(f)
        out.append(f if q is None else q[1])
    if len(out) == len(fs) and all(a is b for a, b in zip(out, fs)):
        return t, 1
    return (mul(*out) if out else ONE), k


def _zero_eq(t):
    """t = 0 as a disjunction over the factors of t (None when there is nothing to split)"""
    if t.op == 'ipow':
        return eq(t.args[0], ZERO) if t.val > 0 else FALSE
    if t.op == 'pow' and sign(t.args[1]) == 1:
        return eq(t.args[0], ZERO)
    if t.op == 'mul':
        return or_(*[eq(f, ZERO) for f in t.args if f.op != 'const'])
    q = _shared(t)
    return eq(q[1], ZERO) if q is not None else None


def _rank_special(t):
    return {INF: 1, NINF: -1}.get(t, 0)


def lt(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a in SPECIAL or b in SPECIAL:
        return TRUE if _rank_special(a) < _rank_special(b) else FALSE
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val < b.val else FALSE
    l1, h1, o1, p1 = bounds(a)
    l2, h2, o2, p2 = bounds(b)
    if h1 is not None and l2 is not None and (h1 < l2 or (h1 == l2 and (p1 or o2))):
        return TRUE
    if l1 is not None and h2 is not None and l1 >= h2:
        return FALSE
    s = sign(sub(a, b))
    if s == -1:
        return TRUE
    if s in (1, 0, '>=0'):
        return FALSE
    if a is ZERO and b.op == 'mul' and all(sign(f) in (1, '>=0') for f in b.args):
        return and_(*[lt(ZERO, f) for f in b.args])
    if a is ZERO or b is ZERO:
        r, k = _reduce_sign(b if a is ZERO else a)
        if r is not (b if a is ZERO else a):
            return lt(ZERO, r) if (a is ZERO) == (k > 0) else lt(r, ZERO)
    if _eigen(b) and _free(a):
        return or_(definite(b.args, a, True), mk('lt', (a, b), sort='B')) if b.val[-1] != '0' else \
            definite(b.args, a, True)
    if _eigen(a) and _free(b):
        return not_(le(b, a))
    return mk('lt', (a, b), sort='B')


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a in SPECIAL or b in SPECIAL:
        return TRUE if _rank_special(a) <= _rank_special(b) else FALSE
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val <= b.val else FALSE
    l1, h1, o1, p1 = bounds(a)
    l2, h2, o2, p2 = bounds(b)
    if h1 is not None and l2 is not None and h1 <= l2:
        return TRUE
    if l1 is not None and h2 is not None and (l1 > h2 or (l1 == h2 and (o1 or p2))):
        return FALSE
    s = sign(sub(a, b))
    if s in (-1, 0, '<=0'):
        return TRUE
    if s == 1:
        return FALSE
    if a is ZERO or b is ZERO:
        r, k = _reduce_sign(b if a is ZERO else a)
        if r is not (b if a is ZERO else a):
            return le(ZERO, r) if (a is ZERO) == (k > 0) else le(r, ZERO)
    if _eigen(b) and _free(a):
        return or_(definite(b.args, a, False), mk('le', (a, b), sort='B')) if b.val[-1] != '0' else \
            definite(b.args, a, False)
    if _eigen(a) and _free(b):
        return not_(lt(b, a))
    return mk('le', (a, b), sort='B')


# eigenvalues of symmetric matrices: uf 'eig<n>_<k>' (k-th smallest) of the lower triangle, row by row

def _eigen(t):
    return t.op == 'uf' and t.val.startswith('eig')


def _free(t):
    return t.op == 'const' or not any(_eigen(u) for u in subterms([t]))


def sym_matrix(args):
    n = int(((8 * len(args) + 1) ** .5 - 1) / 2 + .5)
    m = [[None] * n for _ in range(n)]
    it = iter(args)
    for i in range(n):
        for j in range(i + 1):
            m[i][j] = m[j][i] = next(it)
    return m


def det(m):
    n = len(m)
    if n == 0:
        return ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return sub(mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
    out = []
    for j in range(n):
        if m[0][j] is ZERO:
            continue
        s = mul(m[0][j], det([r[:j] + r[j + 1:] for r in m[1:]]))
        out.append(s if j % 2 == 0 else neg(s))
    return add(ZERO, *out)


def definite(args, c, strict):
    """all eigenvalues >= c (> c): the principal minors of M - cI (Sylvester)"""
    from itertools import combinations
    m = sym_matrix(args)
    n = len(m)
    for i in range(n):
        m[i][i] = sub(m[i][i], c)
    if strict:
        return and_(*[lt(ZERO, det([r[:k] for r in m[:k]])) for k in range(1, n + 1)])
    return and_(*[le(ZERO, det([[m[i][j] for j in ix] for i in ix]))
                  for k in range(1, n + 1) for ix in combinations(range(n), k)])


def eigen_num(n, k):
    def f(*a):
        import mpmath as mp
        m = sym_matrix(a)
        return sorted(mp.eigsy(mp.matrix(m), eigvals_only=True))[k]

    return f


def eq(a, b):
    if a.sort == 'B':
        return iff(a, b)
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if a in SPECIAL or b in SPECIAL:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val == b.val else FALSE
    l1, h1, o1, p1 = bounds(a)
    l2, h2, o2, p2 = bounds(b)
    if h1 is not None and l2 is not None and (h1 < l2 or (h1 == l2 and (p1 or o2))):
        return FALSE
    if h2 is not None and l1 is not None and (h2 < l1 or (h2 == l1 and (p2 or o1))):
        return FALSE
    s = sign(sub(a, b))
    if s in (1, -1):
        return FALSE
    if s == 0:
        return TRUE
    if a is ZERO or b is ZERO:
        r = _zero_eq(b if a is ZERO else a)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), sort='B')


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return mk('iff', (a, b), sort='B')


# --- traversal -----------------------------------------------------------------------------------------------------

def subterms(ts):
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        stack.extend(t.args)
    return seen.values()


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'ipow':
        if args[0].op == 'const' and args[0].val == 0 and t.val < 0:
            return NAN
        return ipow(args[0], t.val)
    if op == 'pow':
        return power(*args)
    if op == 'exp':
        return exp(args[0])
    if op == 'log':
        return log(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'sin':
        return sin(args[0])
    if op == 'cos':
        return cos(args[0])
    if op == 'floor':
        return floor(args[0])
    if op == 'uf':
        return uf(t.val, args, t.sort)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'iff':
        return iff(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(args[0])
    return mk(op, args, t.val, t.sort)


def subst(t, mapping):
    """simultaneous substitution; mapping: term id -> term"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in mapping:
            r = mapping[x.id]
        elif not x.args:
            r = x
        else:
            args = [go(a) for a in x.args]
            r = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x, args)
        memo[x.id] = r
        return r

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


uf_deriv = {}  # name -> function(args, index) -> T


def diff(t, v, memo=None):
    """d t / d v for a variable term v"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = d(x)
            memo[x.id] = r
        return r

    def d(x):
        op = x.op
        if x is v:
            return ONE
        if op in ('const', 'var', 'nan', 'inf', 'ninf'):
            return ZERO
        if op == 'add':
            return add(*[go(a) for a in x.args])
        if op == 'mul':
            out = []
            for i, a in enumerate(x.args):
                da = go(a)
                if da is not ZERO:
                    out.append(mul(*(x.args[:i] + (da,) + x.args[i + 1:])))
            return add(*out) if out else ZERO
        if op == 'ipow':
            da = go(x.args[0])
            return ZERO if da is ZERO else mul(const(x.val), ipow(x.args[0], x.val - 1), da)
        if op == 'exp':
            return mul(x, go(x.args[0]))
        if op == 'log':
            da = go(x.args[0])
            return ZERO if da is ZERO else div(da, x.args[0])
        if op == 'pow':
            b, e = x.args
            db, de = go(b), go(e)
            out = []
            if db is not ZERO:
                out.append(mul(e, power(b, sub(e, ONE)), db))
            if de is not ZERO:
                out.append(mul(x, log(b), de))
            return add(*out) if out else ZERO
        if op == 'ite':
            return ite(x.args[0], go(x.args[1]), go(x.args[2]))
        if op == 'sin':
            return mul(cos(x.args[0]), go(x.args[0]))
        if op == 'cos':
            return neg(mul(sin(x.args[0]), go(x.args[0])))
        if op == 'uf':
            out = []
            for i, a in enumerate(x.args):
                da = go(a)
                if da is not ZERO:
                    out.append(mul(uf_deriv[x.val](x.args, i), da))
            return add(*out) if out else ZERO
        raise NotImplementedError('derivative of ' + op)

    return go(v if t is v else t)


def definedness(ts):
    """[(guards, condition)] under which every subterm of ts is a defined real number."""
    out = {}

    def go(t, guards):
        key = (t.id, guards)
        if key in seen:
            return
        seen.add(key)
        if t.op == 'ite':
            c, a, b = t.args
            go(c, guards)
            go(a, guards + (c,))
            go(b, guards + (not_(c),))
            return
        if t.op in ('and', 'or') and t.sort == 'B':
            for a in t.args:
                go(a, guards)
            return
        cond = None
        if t.op == 'log':
            cond = lt(ZERO, t.args[0])
        elif t.op == 'ipow' and t.val < 0:
            cond = not_(eq(t.args[0], ZERO))
        elif t.op == 'pow':
            b, e = t.args
            cond = le(ZERO, b) if sign(e) == 1 else lt(ZERO, b)
        if cond is not None and cond is not TRUE:
            out[(guards, cond.id)] = (guards, cond)
        for a in t.args:
            go(a, guards)

    seen = set()
    for t in ts:
        go(t, ())
    return list(out.values())


def show(t, depth=6):
    if t.op == 'const':
        return str(t.val)
    if t.op == 'var':
        return str(t.val)
    if not t.args:
        return t.op
    if depth == 0:
        return '…'
    a = [show(x, depth - 1) for x in t.args]
    if t.op == 'add':
        return '(' + ' + '.join(a) + ')'
    if t.op == 'mul':
        return '*'.join(a)
    if t.op == 'ipow':
        return f'{a[0]}^{t.val}'
    if t.op == 'pow':
        return f'{a[0]}^({a[1]})'
    if t.op == 'uf':
        return f'{t.val}({", ".join(a)})'
    sym = {'lt': ' < ', 'le': ' <= ', 'eq': ' == ', 'and': ' & ', 'or': ' | '}
    if t.op in sym:
        return '(' + sym[t.op].join(a) + ')'
    return f'{t.op}({", ".join(a)})'


# --- numeric evaluation --------------------------------------------------------------------------------------------

def evaluate(ts, env, ufs=None, prec=40):
    """evaluate terms at a point with mpmath; env: var name -> number; ufs: name -> callable on mpf"""
    import mpmath as mp
    memo = {}
    ufs = ufs or {}
    old = mp.mp.dps
    mp.mp.dps = prec
    try:
        def ev(t):
            if t.id in memo:
                return memo[t.id]
            r = ev_(t)
            memo[t.id] = r
            return r

        def ev_(t):
            op = t.op
            if op == 'const':
                return mp.mpf(t.val.numerator) / t.val.denominator
            if op == 'var':
                if t.val == 'pi!':
                    return mp.pi + 0
                x = env[t.val]
                if isinstance(x, bool):
                    return x
                return mp.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mp.mpf(x)
            if op == 'nan':
                return mp.nan
            if op == 'inf':
                return mp.inf
            if op == 'ninf':
                return -mp.inf
            if op == 'true':
                return True
            if op == 'false':
                return False
            if op == 'ite':
                return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
            if op == 'and':
                return all(ev(a) for a in t.args)
            if op == 'or':
                return any(ev(a) for a in t.args)
            a = [ev(x) for x in t.args]
            if op == 'not':
                return not a[0]
            if op == 'lt':
                return a[0] < a[1]
            if op == 'le':
                return a[0] <= a[1]
            if op == 'eq':
                if mp.isnan(a[0]) or mp.isnan(a[1]):
                    return False
                return a[0] == a[1] or abs(a[0] - a[1]) <= mp.mpf(10) ** (-prec // 2) * (1 + abs(a[0]))
            if op == 'iff':
                return bool(a[0]) == bool(a[1])
            if op == 'add':
                return mp.fsum(a)
            if op == 'mul':
                r = mp.mpf(1)
                for x in a:
                    r *= x
                return r
            if op == 'ipow':
                if a[0] == 0 and t.val < 0:
                    return mp.nan
                return a[0] ** t.val
            if op == 'pow':
                if a[0] < 0 or (a[0] == 0 and a[1] <= 0):
                    return mp.nan
                return a[0] ** a[1]
            if op == 'exp':
                return mp.exp(a[0])
            if op == 'log':
                return mp.log(a[0]) if a[0] > 0 else mp.nan
            if op == 'sin':
                return mp.sin(a[0])
            if op == 'cos':
                return mp.cos(a[0])
            if op == 'floor':
                return mp.floor(a[0])
            if op == 'uf':
                f = ufs.get(t.val) or UF_NUM.get(t.val) or drawval.numeric(t.val)
                if f is None:
                    f = ufs.get('*')
                    if f is None:
                        raise KeyError('no numeric meaning for ' + str(t.val))
                    return f(t.val, *a)
                return f(*a)
            raise NotImplementedError(op)

        return [ev(t) for t in ts]
    finally:
        mp.mp.dps = old


UF_NUM = {}
for _n in range(2, 7):
    for _k in range(_n):
        UF_NUM[f'eig{_n}_{_k}'] = eigen_num(_n, _k)
