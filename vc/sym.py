"""Symbolic values and path exploration for the deductive checker.

The real functions of /repo are executed natively by CPython; their numeric
inputs are proxies (R for reals, B for booleans) that build z3 terms.  Every
truth test of a symbolic condition is a *decision*: the explorer re-executes
the function until every feasible combination of decisions has been taken, so
the set of paths is exhaustive; there is no bound on the values.  On each path
the harness states obligations (prove), which must follow from the path
condition for all values of the symbolic inputs.
"""
import contextlib
import copy
import io
import math as _math
import time
from fractions import Fraction

import z3

from . import lin


class PathEnd(BaseException):
    """the current path stops here (assumption false, infeasible, proved part over)"""


class Unsupported(BaseException):
    """the code uses something the engine has no semantics for"""


class Budget(BaseException):
    """path or time budget exhausted: the contract is undecided, never 'proved'"""


CUR = None          # the running explorer


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside a harness')
    return CUR


# ------------------------------------------------------------------ numbers
FRAC = {}


def frac(v):
    if type(v) is int or type(v) is float:
        f = FRAC.get((type(v), v))
        if f is None:
            f = _frac(v)
            if len(FRAC) < 100000:
                FRAC[(type(v), v)] = f
        return f
    return _frac(v)


def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if v != v or v in (_math.inf, -_math.inf):
            raise Unsupported('nan or inf meets a symbolic value')
        return Fraction(repr(v))       # the decimal the programmer wrote
    raise TypeError('not a number: %r' % (v,))


def isnum(v):
    return isinstance(v, (int, float, Fraction))


def q(v):
    f = frac(v)
    return z3.Q(f.numerator, f.denominator)


def ex(v):
    """z3 expression of a number or proxy"""
    if isinstance(v, R):
        return v.e
    return q(v)


GRID = 10 ** 8


def ongrid(v):
    if isinstance(v, R):
        return v.grid
    return (frac(v) * GRID).denominator == 1


class R(object):
    """a real number: z3 term + facts carried along
    grid: integer multiple of 1e-8 (the repository's coordinate grid)
    sq:   the value is the non-negative square root of this term
    ang:  the value is an angle in radians equal to pi * ang"""
    __slots__ = ('e', 'grid', 'sq', 'ang')

    def __init__(self, e, grid=False, sq=None, ang=None):
        self.e = e
        self.grid = grid
        self.sq = sq
        self.ang = ang

    # arithmetic ------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, R) or isnum(o):
            if not isinstance(o, R) and frac(o) == 0:
                return self
            return R(self.e + ex(o), self.grid and ongrid(o),
                     ang=_angadd(self, o, 1))
        return NotImplemented

    def __radd__(self, o):
        if isnum(o):
            if frac(o) == 0:
                return self
            return R(q(o) + self.e, self.grid and ongrid(o))
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, R) or isnum(o):
            if not isinstance(o, R) and frac(o) == 0:
                return self
            return R(self.e - ex(o), self.grid and ongrid(o), ang=_angadd(self, o, -1))
        return NotImplemented

    def __rsub__(self, o):
        if isnum(o):
            return R(q(o) - self.e, self.grid and ongrid(o))
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, R):
            return R(self.e * o.e)
        if isnum(o):
            f = frac(o)
            return R(self.e * q(o), self.grid and f.denominator == 1,
                     ang=None if self.ang is None else self.ang * q(o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, R):
            if cur().decide(o.e == 0):
                raise ZeroDivisionError('float division by zero')
            return R(self.e / o.e)
        if isnum(o):
            f = frac(o)
            if f == 0:
                raise ZeroDivisionError('float division by zero')
            return R(self.e * q(1 / f), self.grid and (1 / f).denominator == 1,
                     ang=None if self.ang is None else self.ang * q(1 / f))
        return NotImplemented

    def __rtruediv__(self, o):
        if isnum(o):
            if cur().decide(self.e == 0):
                raise ZeroDivisionError('float division by zero')
            return R(q(o) / self.e)
        return NotImplemented

    def __mod__(self, o):
        if isnum(o) and frac(o) > 0:
            m = q(o)
            c = cur()
            key = ('mod', c.canon(self.e).get_id(), m.get_id())
            if key not in c.memo:
                k = c.fresh_int('modk')
                r = self.e - m * z3.ToReal(k)
                c.axiom(z3.And(r >= 0, r < m), keep=self.e)
                c.memo[key] = (R(r, self.grid and frac(o).denominator == 1), k)
            return c.memo[key][0]
        if isnum(o):
            raise Unsupported('modulo by non-positive constant')
        return NotImplemented

    def __floordiv__(self, o):
        if isnum(o) and frac(o) > 0:
            self.__mod__(o)
            c = cur()
            return R(z3.ToReal(c.memo[('mod', c.canon(self.e).get_id(), q(o).get_id())][1]))
        raise Unsupported('floor division')

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n == 2 and self.sq is not None:
                return R(self.sq)
            if 0 <= n <= 8:
                out = R(q(1))
                for _ in range(n):
                    out = R(self.e) if _ == 0 else out * self
                return out
            if -4 <= n < 0:
                return 1 / (self ** (-n))
        if n == 0.5:
            from . import smath
            return smath.sqrt(self)
        raise Unsupported('power %r' % (n,))

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __neg__(self):
        return R(-self.e, self.grid, ang=None if self.ang is None else -self.ang)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.sq is not None:
            return self
        return R(z3.If(self.e >= 0, self.e, -self.e), self.grid)

    def __round__(self, nd=None):
        return sround(self, nd)

    def __float__(self):
        raise Unsupported('native float() of a symbolic real')

    def __int__(self):
        raise Unsupported('native int() of a symbolic real')

    def __index__(self):
        raise Unsupported('symbolic index')

    # comparison --------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, R):
            if self.sq is not None and o.sq is not None:
                return B(op(self.sq, o.sq))
            if self.ang is not None and o.ang is not None:
                return B(op(self.ang, o.ang))
            return B(op(self.e, o.e))
        if isnum(o):
            if isinstance(o, float) and o in (_math.inf, -_math.inf):
                return bool(op(0, o))
            f = frac(o)
            if self.sq is not None:
                if f >= 0:
                    return B(op(self.sq, q(f * f)))
                return bool(op(1, 0))      # sqrt >= 0 > f
            if self.ang is not None and f == 0:
                return B(op(self.ang, q(0)))
            return B(op(self.e, q(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, R) or isnum(o):
            if o is self:
                return True
            return self._cmp(o, lambda a, b: a == b)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __hash__(self):
        return cur().symhash(self)

    def __repr__(self):
        return 'R(%s)' % (self.e,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def is_integer(self):
        return B(z3.ToReal(z3.ToInt(self.e)) == self.e)


def _angadd(a, b, s):
    if a.ang is None:
        return None
    if isinstance(b, R) and b.ang is not None:
        return a.ang + s * b.ang if s > 0 else a.ang - b.ang
    return None


class B(object):
    """a symbolic boolean"""
    __slots__ = ('e',)

    def __init__(self, e):
        if e is True or e is False:
            e = z3.BoolVal(e)
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return B(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, B):
            return B(self.e == o.e)
        if isinstance(o, bool):
            return self if o else B(z3.Not(self.e))
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'B(%s)' % (self.e,)

    def __deepcopy__(self, memo):
        return self


def be(v):
    """z3 Bool of a value used as a truth value (numbers and objects natively)"""
    if isinstance(v, B):
        return v.e
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, R):
        return v.e != 0
    return z3.BoolVal(bool(v))


def snot(v):
    if isinstance(v, B):
        return B(z3.Not(v.e))
    return not v


def sand(*vs):
    out = []
    for v in vs:
        if not isinstance(v, (B, z3.BoolRef)):
            if not v:
                return False
            continue
        out.append(be(v))
    if not out:
        return True
    return B(z3.And(*out)) if len(out) > 1 else B(out[0])


def sor(*vs):
    out = []
    for v in vs:
        if not isinstance(v, (B, z3.BoolRef)):
            if v:
                return True
            continue
        out.append(be(v))
    if not out:
        return False
    return B(z3.Or(*out)) if len(out) > 1 else B(out[0])


def sround(x, nd=None):
    if not isinstance(x, R):
        return round(x, nd) if nd is not None else round(x)
    if nd is None:
        raise Unsupported('round() to int of a symbolic real')
    if nd == 8 and x.grid:
        return x
    c = cur()
    key = ('round', nd, c.canon(x.e).get_id())
    if key not in c.memo:
        r = c.fresh('rnd')
        half = Fraction(1, 2 * 10 ** nd)
        c.axiom(z3.And(r - x.e <= q(half), x.e - r <= q(half)), keep=x.e)
        c.memo[key] = R(r, nd <= 8)
    return c.memo[key]


def _inf(v):
    return isinstance(v, float) and v in (_math.inf, -_math.inf)


def smin2(a, b):
    if _inf(a) or _inf(b):
        return (b if a > 0 else a) if _inf(a) else (a if b > 0 else b)
    if isinstance(a, R) or isinstance(b, R):
        return R(z3.If(ex(b) < ex(a), ex(b), ex(a)), ongrid(a) and ongrid(b))
    return b if b < a else a


def smax2(a, b):
    if _inf(a) or _inf(b):
        return (b if a < 0 else a) if _inf(a) else (a if b < 0 else b)
    if isinstance(a, R) or isinstance(b, R):
        return R(z3.If(ex(b) > ex(a), ex(b), ex(a)), ongrid(a) and ongrid(b))
    return b if b > a else a


# ---------------------------------------------------------------- explorer
class Obl(object):
    __slots__ = ('name', 'status', 'backend', 'secs', 'smt', 'model', 'path', 'note')

    def __init__(self, name):
        self.name = name
        self.status = 'unknown'     # proved / refuted / unknown
        self.backend = None
        self.secs = 0.0
        self.smt = None
        self.model = None
        self.path = None
        self.note = None


class Explorer(object):
    """depth-first exploration by re-execution"""

    def __init__(self, fn, max_paths=4000, max_secs=300.0, feas_ms=400, prove_ms=4000, linear=False):
        self.fn = fn
        self.linear = linear        # feasibility of decisions by the linear abstraction only
        self.max_paths = max_paths
        self.max_secs = max_secs
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.obls = []
        self.paths = 0
        self.done_paths = 0
        self.reached = {}
        self.decisions = 0
        self.solver_secs = 0.0
        self.error = None
        self.refuted = {}           # name -> count
        self.stop_after = 3         # refutations kept per obligation name

    # -- per path state --------------------------------------------------
    def _begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.memo = {}
        self.keep = []
        self.nfresh = 0
        self.inputs = {}
        self.hreg = []
        self.trig = {}
        self.funs = []          # (name, length, functions of the index)
        self.roots = []         # (symbol, radicand) of square roots
        self.defs = []          # (symbol, term) introduced by the contract
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.known = {}
        self.undo = []
        self.lin = lin.Lin()
        self.lsolver = z3.Solver()
        self.lsolver.set('timeout', self.feas_ms)
        self.lseen = 0
        self.lsq = 0

    def fresh(self, base='v'):
        self.nfresh += 1
        return z3.Real('%s!%d' % (base, self.nfresh))

    def fresh_int(self, base='k'):
        self.nfresh += 1
        return z3.Int('%s!%d' % (base, self.nfresh))

    def som(self, e):
        s = z3.simplify(e, som=True)
        self.keep.append(s)
        self.keep.append(e)
        return s

    def canon(self, e):
        """equal terms for terms equal as polynomials"""
        s = self.lin.f(e)
        self.keep.append(s)
        self.keep.append(e)
        return s

    def axiom(self, cond, keep=None):
        """a fact that holds by the semantics of the modelled operation"""
        cond = be(cond)
        if keep is not None:
            self.keep.append(keep)
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        c = be(cond)
        k = z3.simplify(c)
        if z3.is_true(k):
            return
        if z3.is_false(k):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, extra):
        t = time.time()
        r = self._lincheck(extra)
        if r != z3.unsat and self.lin.nonlinear and not (self.linear and r == z3.sat):
            r = self.solver.check(extra)
        self.solver_secs += time.time() - t
        return r

    def _lincheck(self, extra, ms=None):
        while self.lseen < len(self.pc):
            self.lsolver.add(self.lin.f(self.pc[self.lseen]))
            self.lseen += 1
        g = self.lin.f(extra)
        if len(self.lin.mono) > self.lsq:
            self.lsq = len(self.lin.mono)
            self.lsolver.add(*self.lin.squares())
        return self.lsolver.check(g)

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cid = c.get_id()
        if cid in self.known:
            return self.known[cid]
        self.keep.append(c)
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.decisions += 1
            if time.time() - self.t0 > self.max_secs:
                raise Budget('time budget %gs' % self.max_secs)
            t = self._check(cond)
            if t == z3.unsat:
                d = False
            else:
                f = self._check(z3.Not(cond))
                if f == z3.unsat:
                    d = True
                else:
                    d = True
                    self.stack.append(self.trace + [False])
        self.trace.append(d)
        self.known[cid] = d
        n = z3.simplify(z3.Not(c))
        self.keep.append(n)
        self.known[n.get_id()] = not d
        lit = cond if d else z3.Not(cond)      # (simplify splits signs of products into cases)
        self.pc.append(lit)
        self.solver.add(lit)
        return d

    def choose(self, n):
        """non-deterministic choice 0..n-1 (all explored)"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.stack.append(self.trace + [k])
        self.trace.append(d)
        return d

    def sub(self, fn, limit=200):
        """all ways through fn from here: [(conditions, result)] - nothing of it remains on the path"""
        keep = (self.prefix, self.trace, self.stack, self.pc, self.known, self.memo, self.roots, self.defs, self.lseen)
        n = len(self.pc)
        memo = {k: (copy.copy(v) if isinstance(v, (dict, list)) else v) for k, v in self.memo.items()}
        while self.lseen < len(self.pc):
            self.lsolver.add(self.lin.f(self.pc[self.lseen]))
            self.lseen += 1
        out, stack = [], [[]]
        lazy = self.memo.get('lazy')
        back = lazy.snapshot() if lazy else None
        try:
            while stack:
                if len(out) > limit:
                    raise Unsupported('too many ways through a loop body')
                self.prefix, self.trace, self.stack = stack.pop(), [], stack
                self.pc, self.known = list(keep[3]), dict(keep[4])
                self.memo = {k: (copy.copy(v) if isinstance(v, (dict, list)) else v) for k, v in memo.items()}
                self.roots, self.defs, self.lseen = list(keep[6]), list(keep[7]), n
                self.solver.push()
                self.lsolver.push()
                try:
                    r = fn()
                    out.append((self.pc[n:], r))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                    self.lsolver.pop()
                    if lazy:
                        lazy.restore(back)
        finally:
            self.prefix, self.trace, self.stack, self.pc, self.known, self.memo, self.roots, self.defs = keep[:8]
            self.lseen = n
        return out

    def follows(self, hyps, goal):
        """goal follows from the path condition and the hypotheses"""
        g = z3.Implies(z3.And(hyps), goal) if hyps else goal
        if z3.is_true(z3.simplify(g)):
            return True
        if self._lincheck(z3.Not(g)) == z3.unsat:
            return True
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.pc)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    # hashing: equal keys get equal ints, different keys different ints
    def symhash(self, obj):
        key = hkey(obj)
        for k, v in self.hreg:
            s = hsame(k, key)
            if s is False:
                continue
            if s is True or self.decide(be(s)):
                return v
        v = len(self.hreg) + 1
        self.hreg.append((key, v))
        return v

    # -- obligations ------------------------------------------------------
    def prove(self, name, cond, hyps=None):
        if isinstance(cond, (list, tuple)):
            for i, c in enumerate(cond):
                self.prove('%s.%d' % (name, i), c, hyps)
            return
        o = Obl(name)
        o.path = len(self.trace)
        self.reached[name] = self.reached.get(name, 0) + 1
        self.obls.append(o)
        c = z3.simplify(be(cond))
        t = time.time()
        if z3.is_true(c):
            o.status, o.backend = 'proved', 'simplify'
            return
        c = be(cond)            # (simplify splits signs of products into cases)
        if self.roots or self.defs:
            from . import ring
            if ring.valid(be(cond), self.defs, self.roots):
                o.status, o.backend, o.secs = 'proved', 'ring', time.time() - t
                self.pc.append(c)
                self.solver.add(c)
                return
        if self.refuted.get(name, 0) >= self.stop_after:
            o.status, o.note = 'refuted', 'same obligation already refuted on another path' + self._abstract()
            return
        r = self._lincheck(z3.Not(c))
        if r != z3.unsat:
            s = z3.Solver()
            s.set('timeout', self.prove_ms)
            s.add(*(self.pc if hyps is None else [be(x) for x in hyps]))
            s.add(z3.Not(c))
            r = s.check()
            if r == z3.sat and hyps is not None:
                r = z3.unknown
        o.secs = time.time() - t
        self.solver_secs += o.secs
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
            self.pc.append(c)
            self.solver.add(c)
        elif r == z3.sat and hyps is None and self._deepen(c):
            o.status, o.backend = 'proved', 'z3'
            self.pc.append(c)
            self.solver.add(c)
        elif r == z3.sat:
            self.small(s)
            o.status, o.backend = 'refuted', 'z3'
            self.refuted[name] = self.refuted.get(name, 0) + 1
            o.model = self.model_inputs(s.model())
        else:
            o.status, o.note = 'unknown', s.reason_unknown()
            o.smt = s.to_smt2()
            o.model = None
        if o.status != 'proved':
            o.note = (o.note or '') + ' | goal: ' + str(c)[:1500] + self._abstract()

    def record(self, name):
        """an obligation that was proved way by way"""
        o = Obl(name)
        o.path = len(self.trace)
        o.status, o.backend = 'proved', 'z3'
        self.reached[name] = self.reached.get(name, 0) + 1
        self.obls.append(o)

    def _deepen(self, c):
        """loops over sequences of unknown length: try what is known at further indices"""
        if 'lazy' not in self.memo:
            return False
        from . import loops
        return loops.deepen(c)

    def _abstract(self):
        l = self.memo.get('lazy')
        return ' [abstract]' if l is not None and l.abstract else ''

    def _exception(self, e):
        """the real code (or the contract) raised: an obligation that failed"""
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if '/vc/' not in f.filename), tb[-1])
        o = Obl('no-exception')
        self.reached[o.name] = self.reached.get(o.name, 0) + 1
        self.obls.append(o)
        o.note = '%s: %s at %s:%s (%s)' % (type(e).__name__, str(e)[:300], where.filename, where.lineno, where.name)
        s = z3.Solver()
        s.set('timeout', self.prove_ms)
        s.add(*self.pc)
        r = s.check()
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'       # the path is infeasible
            return
        if r == z3.sat:
            o.model = self.model_inputs(s.model())
        if isinstance(e, (TypeError, AttributeError, NotImplementedError)) or r != z3.sat:
            o.status = 'unknown'        # may be a limit of the proxies: needs a replay
        else:
            o.status, o.backend = 'refuted', 'z3'

    def small(self, s):
        """prefer a counterexample with short sequences"""
        if not self.funs:
            return
        ns = list({f[1].get_id(): f[1] for f in self.funs}.values())
        for k in (2, 3, 5, 9, 30):
            s.push()
            s.add(*[n <= k for n in ns])
            if s.check() == z3.sat:
                return
            s.pop()
        s.check()

    def model_inputs(self, m):
        out = {}
        for name, n, fs in self.funs:
            k = m.eval(n, model_completion=True).as_long()
            for i in range(min(k, 60)):
                for suffix, f in fs:
                    out[name + str(i) + suffix] = numval(m.eval(f(z3.IntVal(i)), model_completion=True))
        for k, v in self.inputs.items():
            if isinstance(v, z3.ExprRef):
                out[k] = numval(m.eval(v, model_completion=True))
            else:
                out[k] = v
        return out

    # -- main loop --------------------------------------------------------
    def run(self, harness):
        global CUR
        self.t0 = time.time()
        self.probes = {}
        self.stack = [[]]
        try:
            while self.stack:
                if self.paths >= self.max_paths:
                    raise Budget('path budget %d' % self.max_paths)
                prefix = self.stack.pop()
                self._begin(prefix)
                self.paths += 1
                first = len(self.obls)
                CUR = self
                try:
                    harness.begin(self)
                    with contextlib.redirect_stdout(io.StringIO()):
                        self.fn(harness)
                    if 'lazy' in self.memo:
                        from . import loops
                        loops.audit()
                    self.done_paths += 1
                    self._probe()
                except PathEnd:
                    pass
                except Unsupported:
                    if 'lazy' in self.memo:             # (the way left the rules: what it showed need not be so)
                        for o in self.obls[first:]:
                            if o.status == 'refuted':
                                o.note = (o.note or '') + ' [abstract]'
                    raise
                except (Budget, z3.Z3Exception, RecursionError):
                    raise
                except Exception as e:
                    self._exception(e)
                finally:
                    harness.end()
                    CUR = None
        except (Unsupported, Budget, RecursionError, z3.Z3Exception) as e:
            self.error = '%s: %s' % (type(e).__name__, e)
            import traceback
            self.trace_text = traceback.format_exc()
        if not self.error and self.done_paths and self.probes.get('unsat', 0) == self.done_paths:
            self.error = 'Vacuous: every path condition is contradictory'
        return self

    def _probe(self):
        """is the condition of a completed path satisfiable? (guard against contradictory assumptions)"""
        if 'sat' in self.probes or sum(self.probes.values()) >= 10:
            return
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.pc)
        r = str(s.check())
        self.probes[r] = self.probes.get(r, 0) + 1


def hkey(o):
    """structural hash key mirroring the objects' own __hash__"""
    if isinstance(o, R):
        return ('r', o)
    if isinstance(o, tuple):
        return ('t',) + tuple(hkey(x) for x in o)
    if isinstance(o, (bool, int, float, Fraction)) and not isinstance(o, str):
        return ('r', o)
    return ('o', hash(o))


def hsame(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'r':
        r = (a[1] == b[1])
        return r
    if a[0] == 'o':
        return a[1] == b[1]
    return sand(*[hsame(x, y) for x, y in zip(a[1:], b[1:])]) if len(a) > 1 else True


def numval(v):
    """z3 value -> Fraction (string) or int"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
