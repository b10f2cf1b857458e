"""Path exploration: symbolic booleans used as Python booleans fork the execution (by re-execution)."""
import time

from . import decide
from . import terms as tm


class PathAbort(BaseException):
    """this path ends here (infeasible or cut); BaseException so that code under test cannot swallow it"""


class Budget(BaseException):
    pass


_cur = [None]


def current():
    return _cur[0]


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.i = 0
        self.pc = list(ex.assumptions)
        self.known = {}
        self.choices = []
        self.obligations = []
        self.notes = []
        self.defs = {}
        for a in self.pc:
            self._learn(a)

    def _learn(self, a):
        if a.op == 'and':
            for b in a.args:
                self._learn(b)
        self.known[a.id] = True
        self.known[tm.not_(a).id] = False
        if a.op == 'lt':
            # trichotomy
            x, y = a.args
            for b in (tm.lt(y, x), tm.eq(x, y)):
                if b not in (tm.TRUE, tm.FALSE):
                    self.known[b.id] = False
                    self.known[tm.not_(b).id] = True
        elif a.op == 'eq' and a.args[0].sort != 'B':
            x, y = a.args
            for b in (tm.lt(y, x), tm.lt(x, y)):
                if b not in (tm.TRUE, tm.FALSE):
                    self.known[b.id] = False
                    self.known[tm.not_(b).id] = True

    def assume(self, cond):
        if cond is tm.TRUE:
            return
        if cond is tm.FALSE:
            raise PathAbort('assumption')
        if self.known.get(cond.id) is False:
            raise PathAbort('assumption')
        if self.known.get(cond.id):
            return
        self.pc.append(cond)
        self._learn(cond)
        if self.i >= len(self.prefix) and self._feasible([]) == 'unsat':
            raise PathAbort('assumption')

    def _feasible(self, extra):
        try:
            return decide.check(self.pc + extra, self.ex.quick_ms, nlsat=False)[0]
        except decide.Undecided:
            return 'unknown'

    def entailed(self, cond):
        """True/False when the path condition settles cond, None otherwise (no fork)"""
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        k = self.known.get(cond.id)
        if k is not None:
            return k
        key = (tuple(sorted(a.id for a in self.pc)), cond.id)
        if key in self.ex.entail_cache:
            return self.ex.entail_cache[key]
        r = None
        if self._feasible([tm.not_(cond)]) == 'unsat':
            r = True
        elif self._feasible([cond]) == 'unsat':
            r = False
        self.ex.entail_cache[key] = r
        return r

    def decide(self, cond):
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        k = self.known.get(cond.id)
        if k is not None:
            return k
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
        else:
            self.ex.tick()
            r = self.entailed(cond)
            if r is None:
                self.ex.transitions += 1
                self.ex.push(self.choices + [False])
                v = True
            else:
                v = r
        self.i += 1
        self.choices.append(v)
        lit = cond if v else tm.not_(cond)
        if not self.known.get(lit.id):
            self.pc.append(lit)
            self._learn(lit)
        return v


def decide_cond(cond):
    p = _cur[0]
    if p is None:
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        raise RuntimeError('symbolic decision outside a path')
    return p.decide(cond)


def decide_sign(t):
    s = tm.sign(t)
    if s in (1, -1, 0):
        return s
    if decide_cond(tm.lt(tm.ZERO, t)):
        return 1
    if decide_cond(tm.lt(t, tm.ZERO)):
        return -1
    return 0


def entailed(cond):
    p = _cur[0]
    if cond is tm.TRUE:
        return True
    if cond is tm.FALSE:
        return False
    return p.entailed(cond) if p is not None else None


class Explorer:
    def __init__(self, assumptions, max_paths=400, max_s=60, quick_ms=500):
        self.assumptions = list(assumptions)
        self.max_paths, self.max_s, self.quick_ms = max_paths, max_s, quick_ms
        self.stack = []
        self.entail_cache = {}
        self.transitions = 0
        self.paths = 0
        self.aborted = 0
        self.complete = True
        self.reason = None
        self.t0 = time.time()

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if time.time() - self.t0 > self.max_s:
            raise Budget('time')

    def run(self, fn):
        """fn(path) for every feasible path; yields (path, result)"""
        self.stack = [[]]
        while self.stack:
            if self.paths >= self.max_paths or time.time() - self.t0 > self.max_s:
                self.complete = False
                self.reason = f'path budget: {self.paths} paths, {time.time() - self.t0:.0f} s'
                return
            p = Path(self, self.stack.pop())
            _cur[0] = p
            try:
                r = fn(p)
            except PathAbort:
                self.aborted += 1
                continue
            except Budget as e:
                self.complete = False
                self.reason = str(e)
                return
            finally:
                _cur[0] = None
            self.paths += 1
            yield p, r
