"""The harness interface contracts are written against (symbolic side).

A contract is a Python function c(h): it builds inputs, states the precondition
(h.assume), calls the real function and states the postcondition (h.prove).  The
same contract text runs on concrete inputs under the project's own interpreter
(vc/conc.py) to replay counterexamples and to search for failing inputs."""
import types
import importlib
from fractions import Fraction

import z3

from . import sym, smath, load, loops
from .sym import R, B, q


class SymHarness(object):
    symbolic = True

    def __init__(self):
        self.patched = []
        self.fns = set()

    # life cycle
    def begin(self, ex):
        self.ex = ex
        self.patched = []

    def end(self):
        for o, n, v, had in reversed(self.patched):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        self.patched = []

    def external(self, module, name, f):
        """callee contract of an external library function"""
        from . import load
        o = load.SHIMS[module]
        self.patched.append((o, name, vars(o).get(name), name in vars(o)))
        setattr(o, name, f)

    # the code under contract
    def m(self, name):
        return importlib.import_module(name)

    @property
    def P(self):
        return self.m('geometry.SR_point')

    @property
    def L(self):
        return self.m('geometry.SR_line')

    @property
    def G(self):
        return self.m('geometry.SR_polygon')

    @property
    def GR(self):
        return self.m('geometry.SR_polygon_group')

    @property
    def V(self):
        return self.m('SR_Vessel.SR_hauptteile')

    # inputs
    def real(self, name, grid=False, **gen):
        v = z3.Real(name)
        self.ex.inputs[name] = v
        r = R(v, grid)
        lo, hi = gen.get('lo'), gen.get('hi')
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    def pos(self, name, **gen):
        r = self.real(name, **gen)
        self.assume(r > 0)
        return r

    def choice(self, name, options):
        if isinstance(self.case, dict) and name in self.case:
            k = self.case[name]
            k = k if isinstance(k, int) else list(options).index(k)
        else:
            k = self.ex.choose(len(options))
        self.ex.inputs[name] = k
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def coord(self, name, **gen):
        return self.real(name, grid=True, **gen)

    def size(self, name, lo, hi, big=None):
        """a length: lo..hi symbolically (or the case), up to big on the concrete side"""
        if isinstance(self.case, int) and not isinstance(self.case, bool):
            self.ex.inputs[name] = self.case
            return self.case
        if isinstance(self.case, dict) and name in self.case:
            k = self.case[name]
        else:
            k = lo + self.ex.choose(hi - lo + 1)
        self.ex.inputs[name] = k
        return k

    def plan(self, name, n, gen):
        """n coordinate pairs; free symbolically, gen(rng, n) on the concrete side"""
        return [(self.coord('%s%d.x' % (name, i)), self.coord('%s%d.y' % (name, i))) for i in range(n)]

    def perm(self, name, n):
        """a permutation of range(n)"""
        import itertools
        if isinstance(self.case, dict) and name in self.case:
            self.ex.inputs[name] = list(self.case[name])
            return tuple(self.case[name])
        ps = list(itertools.permutations(range(n)))
        k = self.ex.choose(len(ps))
        self.ex.inputs[name] = list(ps[k])
        return ps[k]

    def point(self, name, cls=None, **gen):
        return (cls or self.P.Point)((self.coord(name + '.x', **gen), self.coord(name + '.y', **gen)))

    def ongrid(self, v):
        """precondition: the value is a coordinate on the 8-decimal grid"""
        return R(v.e, True) if isinstance(v, R) else v

    def points(self, name, n, **gen):
        return [self.point('%s%d' % (name, i), **gen) for i in range(n)]

    def segment(self, name, cls=None, **gen):
        return (cls or self.L.LineSegment)(self.point(name + '.i', **gen), self.point(name + '.j', **gen))

    # logic
    def assume(self, c):
        self.ex.assume(c)

    def prove(self, name, c):
        self.ex.prove(name, c)

    def lemma(self, name, hyps, goal):
        """the goal follows from the (separately proved) hypotheses alone"""
        hyps = list(hyps)
        for k, c in enumerate(hyps):
            self.ex.prove('%s.hyp%d' % (name, k), c)
        self.ex.prove(name, goal, hyps)

    def check_input(self, *cs):
        """concrete-side numeric guard (values too close to a decision boundary
        for floating arithmetic); no effect on the proof"""

    def decided(self, *a, **k):
        pass

    def And(self, *a):
        return sym.sand(*_flat(a))

    def Or(self, *a):
        return sym.sor(*_flat(a))

    def Not(self, a):
        return sym.snot(a)

    def Implies(self, a, b):
        return sym.sor(sym.snot(_b(a)), _b(b))

    def Iff(self, a, b):
        return B(sym.be(a) == sym.be(b))

    def eq(self, a, b, tol=None):
        return a == b

    def near(self, a, b, tol):
        d = a - b
        t = Fraction(repr(tol)) if isinstance(tol, float) else tol
        return sym.sand(d <= t, -t <= d)

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def xmin(self, *a):
        return load.smin(list(a))

    def xmax(self, *a):
        return load.smax(list(a))

    def ite(self, c, a, b):
        return R(z3.If(sym.be(c), sym.ex(a), sym.ex(b)))

    def num(self, v):
        """exact value of a decimal constant"""
        if isinstance(v, z3.ArithRef):
            return loops.real(v)
        return Fraction(repr(v)) if isinstance(v, float) else v

    def x(self, v):
        """exact number (concrete side: Fraction of the float)"""
        return v

    def raises(self, fn, *excs):
        """(raised?, value)"""
        try:
            return False, fn()
        except excs or (Exception,):
            return True, None

    # mathematical functions for specifications
    def cosd(self, deg):
        return smath.cos(smath.radians(deg)) if isinstance(deg, R) else smath.cos(smath.radians(deg))

    def sind(self, deg):
        return smath.sin(smath.radians(deg))

    def sqrt(self, x):
        return smath.sqrt(x)

    @property
    def math(self):
        return smath

    # modular use of a callee's contract
    def use(self, dotted, summary):
        mod, _, path = dotted.partition(':')
        o = self.m(mod)
        parts = path.split('.')
        for p in parts[:-1]:
            o = getattr(o, p, None)
            if o is None:
                return False
        n = parts[-1]
        if n not in vars(o):
            return False
        old = vars(o)[n]
        if isinstance(old, property) or old.__class__.__name__ == 'cached_property':
            new = property(summary)
        elif isinstance(summary, types.FunctionType):
            def new(*a, **k):
                loops.read(*a, *k.values())
                return summary(*a, **k)
        else:
            new = summary
        self.patched.append((o, n, old, True))
        setattr(o, n, new)
        return True

    def valid(self, c):
        """follows from the path condition by linear arithmetic (a hint for the proof, no assumption)"""
        return self.ex._lincheck(z3.Not(sym.be(c))) == z3.unsat

    def key(self, *vs):
        """values with the same key are the same term"""
        return tuple(self.ex.canon(sym.ex(v)).get_id() for v in vs)

    def end_use(self, dotted):
        """the real function again"""
        o = self.m(dotted.partition(':')[0])
        parts = dotted.partition(':')[2].split('.')
        for p in parts[:-1]:
            o = getattr(o, p)
        for k, (a, n, old, had) in reversed(list(enumerate(self.patched))):
            if a is o and n == parts[-1]:
                setattr(o, n, old)
                del self.patched[k]

    def fresh(self, base='v', grid=False):
        return R(self.ex.fresh(base), grid)

    def stop(self):
        """the path is not followed further (the bound of a bounded contract)"""
        return sym.PathEnd()

    def define(self, value):
        """a name for a term (its definition is used by the ring procedure)"""
        v = self.ex.fresh('def')
        self.ex.defs.append((v, value.e))
        self.ex.axiom(v == value.e)
        return R(v)

    # sequences of unknown length (vc/loops.py)
    def count(self, name, lo=0, **k):
        """an arbitrary length"""
        n = z3.Int(name)
        self.ex.inputs[name] = n
        self.ex.assume(B(n >= lo))
        return R(z3.ToReal(n), True)

    def coords(self, name, n, gen=None):
        """n arbitrary positions: index -> (x, y)"""
        X, Y = z3.Function(name + '.x', z3.IntSort(), z3.RealSort()), z3.Function(name + '.y', z3.IntSort(), z3.RealSort())
        self.ex.funs.append((name, loops.ix(n), [('.x', X), ('.y', Y)]))
        return lambda i: (R(X(loops.ix(i)), True), R(Y(loops.ix(i)), True))

    def reals(self, name, n, gen=None, grid=False):
        X = z3.Function(name, z3.IntSort(), z3.RealSort())
        self.ex.funs.append((name, loops.ix(n), [('', X)]))
        return lambda i: R(X(loops.ix(i)), grid)

    def lazy(self, n, make):
        """a list of n elements, made on demand"""
        fam = loops.Family(loops.ix(n), make)
        return loops.LList([('a', fam.n, fam.elem)])

    def identical(self, a, b):
        return loops.identical(a, b)

    def seq(self, x):
        """the elements of an iterable"""
        return x if isinstance(x, loops.LSeq) else list(x)

    def length(self, x):
        return x._abslen() if hasattr(x, '_abslen') else len(x)

    def item(self, x, k):
        if isinstance(x, loops.LSeq) and not isinstance(x, loops.LList):
            return x._abslist()[k]
        return x[k]

    def member(self, x, seq):
        """is this very object among the elements?"""
        if isinstance(seq, loops.LSeq):
            return loops.search(seq, lambda idx: True if seq.has(idx, x, loops.identical) else None, seq.env()) is not None
        return any(loops.identical(y, x) for y in seq)

    def inside(self, x, seq):
        """is an equal object among the elements?"""
        return bool(load.vc_in(x, seq))

    def each(self, seq, f):
        """an arbitrary element (all of them, if it is known how many there are)"""
        if isinstance(seq, loops.LSeq):
            ps = seq.pieces()
            off, d = ps[self.ex.choose(len(ps))] if len(ps) > 1 else (0, seq.dom)
            idx = loops.Piece(seq, d).skolem() if len(ps) > 1 else seq.skolem()
            self.known(*idx)
            seq = seq.items((z3.simplify(idx[0] + off),) if len(ps) > 1 else idx)
        for x in seq:
            f(x)

    def ix(self, k):
        return loops.ix(k)

    def number(self, k):
        """an index as a number"""
        return loops.real(loops.ix(k))

    def pred(self, name, *args):
        """an unknown relation of numbers (callee contract: the answer depends on them only)"""
        f = z3.Function(name, *([z3.RealSort()] * len(args) + [z3.BoolSort()]))
        return B(f(*[sym.ex(a) for a in args]))

    def func(self, name, *args, **k):
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return R(f(*[sym.ex(a) for a in args]), k.get('grid', False))

    def all(self, n, f, m=None):
        return Quant(True, n, f)

    def exists(self, n, f):
        return Quant(False, n, f)

    def neg(self, s):
        if isinstance(s, Quant):
            return Quant(not s.univ, s.n, lambda i, s=s: self.neg(s.f(i)))
        if isinstance(s, Either):
            return Either(not s.one, [self.neg(x) for x in s.parts])
        return sym.snot(s)

    def either(self, *specs):
        """one of the claims holds"""
        return Either(True, specs)

    def both(self, *specs):
        return Either(False, specs)

    def wrap(self, i, n):
        """the index after i, cyclically"""
        i, n = loops.ix(i), loops.ix(n)
        return z3.IntVal(0) if self.ex.decide(i + 1 == n) else z3.simplify(i + 1)

    def distinct(self, i, j):
        return B(loops.ix(i) != loops.ix(j))

    def claim(self, name, r, spec):
        """the truth value r is the one of the specification"""
        self._claim(name, spec if bool(r) else self.neg(spec))

    def holds(self, name, spec, near=False):
        """near: what is known about the neighbouring indices is used too"""
        self._claim(name, spec, near)

    def index(self, n, base='i'):
        """an arbitrary index below n, and all that is known about it"""
        k = loops.skolem(base)
        self.ex.assume(B(z3.And(k >= 0, k < loops.ix(n))))
        self.known(k)
        return k

    def known(self, *ks):
        """use what was found out about all indices at these"""
        loops.instantiate([loops.ix(k) for k in ks])

    def mark(self, *ks):
        """what is found out about all indices is to be used at these at once"""
        loops.lz().wit += tuple(loops.ix(k) for k in ks) if isinstance(loops.lz().wit, tuple) else [loops.ix(k) for k in ks]

    def know_all(self, n, f):
        """precondition about every index"""
        loops.lz().facts.append(loops.Formula(1, lambda j: z3.And(j[0] >= 0, j[0] < loops.ix(n)), lambda j: sym.be(f(j[0]))))

    def know_pairs(self, n, f):
        """precondition about every two indices"""
        loops.lz().facts.append(loops.Formula(2, lambda j: z3.And(j[0] >= 0, j[0] < j[1], j[1] < loops.ix(n)),
                                              lambda j: sym.be(f(j[0], j[1]))))

    def _cands(self, n):
        l = loops.lz()
        out, seen = [], set()
        for d in (0, 1, -1):
            for t in l.wit + list(reversed(l.terms)) + [z3.IntVal(0), loops.ix(n) - 1]:
                c = z3.simplify(t + d)
                if c.get_id() not in seen:
                    seen.add(c.get_id())
                    self.ex.keep.append(c)
                    out.append(c)
        return out

    def _claim(self, name, spec, near=False):
        def concl(goal):
            if goal is None:            # (proved on every way of a sub-argument)
                self.ex.record(name)
            else:
                self.ex.prove(name, goal)
        self._goals(name, spec, concl, near)

    def _goals(self, name, spec, concl, near=False, ks=()):
        if isinstance(spec, Either):
            if not spec.one:
                for x in spec.parts:
                    self._goals(name, x, concl, near, ks)
                return
            if not any(isinstance(x, (Quant, Either)) for x in spec.parts):
                concl(sym.sor(*spec.parts))
                return
            for x in spec.parts:
                if self._test(x, near, ks):
                    return concl(None)
            for c in list(self.ex.pc):          # one way for each case that is known
                if z3.is_or(c) and c.num_args() <= 6:
                    for d in c.children():
                        if self.ex.decide(d):
                            break
            for x in spec.parts:
                if self._test(x, near, ks):
                    return concl(None)
            self._goals(name, x, concl, near, ks)
            return
        if not isinstance(spec, Quant):
            concl(spec)
            return
        n = loops.ix(spec.n)
        if spec.univ:
            k = loops.skolem('k')
            self.ex.assume(B(z3.And(k >= 0, k < n)))
            new = (k, z3.simplify(k - 1)) if near else (k,)
            self.known(*(tuple(ks) + new))
            self._goals(name, spec.f(k), concl, near, tuple(ks) + new)
            return
        alts = self._alts(spec, near, ks)
        if alts is None:
            return concl(None)
        concl(B(z3.Or(alts)) if alts else False)

    def _alts(self, spec, near, ks):
        """the instances of an existential claim at the indices met so far"""
        n = loops.ix(spec.n)
        out = []
        for c in self._cands(n):
            inr = z3.And(c >= 0, c < n)
            if self.ex._lincheck(inr) == z3.unsat:
                continue
            try:
                ways = self.ex.sub(lambda: spec.f(c))
            except sym.Unsupported:
                continue
            here, sure = [], True
            for pc, f in ways:
                if isinstance(f, Quant) and not f.univ:
                    r = self._alts(f, near, ks)
                    here += [z3.And([inr] + pc + [x]) for x in r or ()]
                    sure = False
                elif isinstance(f, (Quant, Either)):
                    if len(ways) == 1 and not pc and self.valid(B(inr)) and self._test(f, near, ks):
                        return None
                    sure = False
                else:
                    here.append(z3.And([inr] + pc + [sym.be(f)]))
                    sure = sure and self.ex.follows(pc, z3.And(inr, sym.be(f)))
            if here and sure:
                return here
            out += here
        return out

    def _test(self, spec, near=False, ks=()):
        """would the claim be proved? (all ways, nothing remains)"""
        def go():
            ok = []
            self._goals('', spec, lambda goal: ok.append(goal is None or self.ex.follows([], sym.be(goal))), near, ks)
            return all(ok)
        return all(r for pc, r in self.ex.sub(go))

    def total(self, n, f):
        """the sum of f(i) over the indices below n"""
        s = R(self.ex.fresh('total'))
        loops.Sum(s, loops.Ways(n, lambda idx: self.ex.sub(lambda: f(idx[0]))))
        return s

    def freshbool(self, base='b'):
        self.ex.nfresh += 1
        return B(z3.Bool('%s!%d' % (base, self.ex.nfresh)))


class Either(object):
    """one / all of the claims"""

    def __init__(self, one, parts):
        self.one, self.parts = one, list(parts)


class Quant(object):
    """for all / some index below n"""

    def __init__(self, univ, n, f):
        self.univ, self.n, self.f = univ, n, f


def _flat(a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return list(a[0])
    if len(a) == 1 and not isinstance(a[0], (B, bool, R)) and hasattr(a[0], '__iter__'):
        return list(a[0])
    return a


def _b(v):
    return v if isinstance(v, (B, bool)) else bool(v)
