"""Loops, comprehensions and sequence functions over sequences of unknown length.

Ordinary sequences are iterated natively.  An LSeq stands for a sequence of unknown
length whose element number t is made on demand (LList, views, zip, enumerate, pairs,
comprehensions, ranges).  Whatever runs over one is executed by a rule:

  search   (all, any, in, next, min-free loops with return / break): either no iteration
           stops - a fact about every index, kept - or one stops: an arbitrary index k
           whose iteration does (the ones before it do not - a fact again)
  map      comprehensions stay lazy; a loop that appends to a list makes a lazy list
  update   a loop whose body changes its own element only: every element, made already
           or later, gets the body run on it
  fold     a loop that carries numbers from one iteration to the next: the first
           iteration, then an arbitrary one; invariants (bounds of the attributes of all
           elements so far, attained by one of them, order among the variables, sums,
           unchanged) are guessed and the ones that are inductive are kept

A fact is used by running the very same loop body (comprehension) again on the element
asked for, and dropping the path if it does not end the way the fact says.  The rules
check the frame: a body that changes anything else is not supported."""
import ast
import builtins
import copy
import itertools
import types

import z3

from . import sym
from .sym import R, B, Unsupported, PathEnd


class Carried(BaseException):
    """a loop body reads a variable the loop itself changes"""


class Stale(BaseException):
    """a fact about something that was changed since"""


class Poison(object):
    """value of a variable of an abstract loop that is not known"""
    live = False        # within a rule: reading it means that the loop carries state

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _bad(self, *a, **k):
        if Poison.live:
            raise Carried(object.__getattribute__(self, '_n'))
        raise Unsupported('value of %r after an abstract loop' % object.__getattribute__(self, '_n'))

    def __getattr__(self, name):
        self._bad()
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __iter__ = _bad
    __str__ = __format__ = __index__ = __enter__ = __mod__ = __rmod__ = __pow__ = __floordiv__ = __reversed__ = _bad
    __len__ = __getitem__ = __setitem__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = _bad
    __eq__ = _bad
    __ne__ = _bad
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __contains__ = __float__ = __int__ = __round__ = _bad


def read(*vs):
    """the values are looked at"""
    for v in vs:
        if isinstance(v, Poison):
            v._bad()


def sisinstance(o, c):
    read(o)
    return builtins.isinstance(o, type if c is stype else c)


def stype(*a, **k):
    read(*a)
    return type(*a, **k)


def classof(o):
    read(o)
    return o.__class__


# ------------------------------------------------------------------ indices
def ix(i):
    """index expression (z3 Int) of a number or term"""
    if isinstance(i, R):
        return toint(i.e)
    if isinstance(i, bool) or not isinstance(i, (int, z3.ArithRef)):
        raise Unsupported('index %r' % (i,))
    return z3.IntVal(i) if isinstance(i, int) else i


def toint(e):
    e = z3.simplify(e)
    if z3.is_int(e):
        return e
    if z3.is_rational_value(e):
        if e.denominator_as_long() != 1:
            raise Unsupported('index that is no integer')
        return z3.IntVal(e.numerator_as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    c = [toint(x) for x in e.children()]
    if k == z3.Z3_OP_ADD:
        return z3.Sum(c)
    if k == z3.Z3_OP_SUB:
        return c[0] - c[1] if len(c) == 2 else c[0] - z3.Sum(c[1:])
    if k == z3.Z3_OP_MUL:
        return z3.Product(c)
    if k == z3.Z3_OP_UMINUS:
        return -c[0]
    raise Unsupported('index term')


def real(n):
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return n.as_long()
    return R(z3.ToReal(n), True)


class Lazy(object):
    """what is known about lazy sequences on the current path"""

    def __init__(self):
        self.facts = []
        self.terms = []
        self.wit = []
        self.sums = []
        self.clock = 0
        self.limit = None
        self.busy = 0
        self.abstract = False   # something is known in part only (sums, invariants of a loop)
        self.fams = []
        self.counts = []        # (sequence, element, clock, how often it is in it)
        self.inner = {}         # id of an object an element holds -> (family, index, where)
        self.owner = {}         # id of an element -> (family, index)

    def snapshot(self):
        return (list(self.facts), [set(f.done) for f in self.facts], list(self.terms), list(self.sums), self.clock, self.limit, 
                list(self.fams), [(dict(f.made), list(f.updates), f.stamp, dict(f.shots)) for f in self.fams], dict(self.owner), list(self.wit), list(self.counts), dict(self.inner))

    def restore(self, s):
        self.facts, self.terms, self.sums, self.clock, self.limit = list(s[0]), list(s[2]), list(s[3]), s[4], s[5]
        for f, d in builtins.zip(self.facts, s[1]):
            f.done = set(d)
        self.fams = list(s[6])
        for f, (m, u, t, h) in builtins.zip(self.fams, s[7]):
            f.made, f.updates, f.stamp, f.shots = dict(m), list(u), t, dict(h)
        self.owner = dict(s[8])
        self.wit = list(s[9])
        self.counts = list(s[10])
        self.inner = dict(s[11])


def lz():
    m = sym.cur().memo
    if 'lazy' not in m:
        m['lazy'] = Lazy()
    return m['lazy']


def skolem(base='i'):
    k = sym.cur().fresh_int(base)
    lz().terms.append(k)
    return k


def assume(c):
    sym.cur().assume(B(c))


def decide(c):
    return sym.cur().decide(c)


def valid(c):
    return sym.cur()._lincheck(z3.Not(c)) == z3.unsat


def touched(o):
    """an element or list is read while a fact is used: it must be as it was then"""
    l = lz()
    if l.limit is not None and o.stamp > l.limit:
        raise Stale()


# ------------------------------------------------------------------ frames
def reach(roots, depth=3):
    """the mutable objects within a few steps of the roots"""
    out, seen, todo = [], set(), [(r, depth) for r in roots]
    while todo:
        o, d = todo.pop()
        if id(o) in seen or isinstance(o, (R, B, int, float, str, bytes, type(None), type, types.FunctionType,
                                           types.ModuleType, types.MethodType, z3.AstRef, Poison)):
            continue
        seen.add(id(o))
        kids = ()
        if isinstance(o, LList):
            out.append(o)
            kids = [x for p in o.parts if p[0] == 'c' for x in p[1]]
        elif isinstance(o, LSeq):
            pass
        elif isinstance(o, (list, set, dict)):
            out.append(o)
            kids = builtins.list(o.values()) if isinstance(o, dict) else builtins.list(o)
            if isinstance(o, dict) and type(o).__name__ == 'OSet':
                kids = [k.x for k in builtins.list(dict.__iter__(o))]
        elif isinstance(o, tuple):
            kids = o
            d += 1
        elif hasattr(o, '__dict__') and not isinstance(o, types.ModuleType):
            out.append(o)
            kids = builtins.list(vars(o).values())
        if d > 0:
            todo.extend((k, d - 1) for k in kids if not isinstance(k, (int, float, str)))
    return out


def shot(o):
    if isinstance(o, LList):
        return ('l', [(p[0], builtins.list(p[1])) if p[0] == 'c' else p for p in o.parts])
    if isinstance(o, dict):
        return ('d', [(k, id(v)) for k, v in dict.items(o)] if type(o).__name__ != 'OSet' else [id(k) for k in dict.__iter__(o)])
    if isinstance(o, list):
        return ('n', builtins.list(o))
    if isinstance(o, set):
        return ('s', [id(x) for x in o])
    return ('o', dict(vars(o)))


def same(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    if a[0] == 'o':
        return set(a[1]) == set(b[1]) and all(a[1][k] is b[1][k] or eqv(a[1][k], b[1][k]) for k in a[1])
    if a[0] == 'l':
        return all(p[0] == q[0] and (p[1] is q[1] or (p[0] == 'c' and len(p[1]) == len(q[1]) and all(
            x is y for x, y in builtins.zip(p[1], q[1])))) for p, q in builtins.zip(a[1], b[1]))
    return all(x is y or eqv(x, y) for x, y in builtins.zip(a[1], b[1]))


def eqv(x, y):
    if isinstance(x, R) and isinstance(y, R):
        return x.e.eq(y.e)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(a is b or eqv(a, b) for a, b in builtins.zip(x, y))
    if type(x) in (int, float, str, bool, type(None)) and type(x) is type(y):
        return x == y
    return False


class Frame(object):
    """snapshot of everything in reach; changed() lists the objects that differ"""

    def __init__(self, roots, depth=3):
        self.objs = reach(roots, depth)
        self.shots = [shot(o) for o in self.objs]

    def changed(self):
        return [(o, s) for o, s in builtins.zip(self.objs, self.shots) if not same(s, shot(o))]


class Head(object):
    """the state at the head of a while loop"""

    def __init__(self, locs):
        self.locs = {k: v for k, v in locs.items() if not k.startswith('vc__')}
        self.frame = Frame(self.locs.values(), 6)

    def plain(self):
        """is there nothing with a state of its own (an iterator, a deque) that the snapshot does not hold?"""
        kids = builtins.list(self.locs.values())
        for o in self.frame.objs:
            if isinstance(o, LList):
                kids += [x for p in o.parts if p[0] == 'c' for x in p[1]]
            elif isinstance(o, dict):
                kids += [k.x for k in builtins.list(dict.__iter__(o))] if type(o).__name__ == 'OSet' else builtins.list(o.values())
            elif isinstance(o, (list, set)):
                kids += builtins.list(o)
            else:
                kids += builtins.list(vars(o).values())
        while kids:
            k = kids.pop()
            if isinstance(k, tuple):
                kids += k
            elif hasattr(k, '__next__') or not (isinstance(k, still()) or hasattr(k, '__dict__')):
                return False
        return True

    def again(self, locs):
        """is it the state the loop began with? (what a list held that nothing refers to any more does not matter)"""
        if not self.plain():
            return False
        now = None
        old = {id(o): s for o, s in builtins.zip(self.frame.objs, self.frame.shots)}
        for k, v in self.locs.items():
            if k not in locs:
                return False
            w = locs[k]
            if not (v is w or eqv(v, w) or (type(v) is type(w) is list and not w and old.get(id(v)) == ('n', []))):
                return False
        for o, s in self.frame.changed():
            if now is None:
                now = set(id(x) for x in reach(locs.values(), 6))
            if id(o) in now:
                return False
        return True


def still():
    return (R, B, int, float, str, bytes, type(None), list, set, dict, frozenset, AbsSeq, type, types.FunctionType,
            types.ModuleType, types.MethodType, types.BuiltinFunctionType, z3.AstRef, range)


def head(locs):
    return Head(locs) if sym.CUR is not None else None


def again(w, locs):
    """a loop that is back in its first state does what it did before: the results of the first round are all there are"""
    if w is not None and sym.CUR is not None and w.again({k: v for k, v in locs.items() if not k.startswith('vc__')}):
        raise PathEnd()


def cells(*fns):
    """the variables of the enclosing function a loop body or comprehension uses"""
    out, seen, todo = [], set(), builtins.list(fns)
    while todo:
        f = todo.pop()
        if f is None or id(f) in seen or not isinstance(f, types.FunctionType):
            continue
        seen.add(id(f))
        for c in f.__closure__ or ():
            if id(c) in seen:
                continue
            seen.add(id(c))
            try:
                v = c.cell_contents
            except ValueError:
                continue
            out.append((c, v))
            todo.append(v)
    return out


class Env(object):
    """runs a body later as if it were now: same variables, same attributes of the objects they hold"""

    def __init__(self, *fns, skip=(), names=()):
        fns = builtins.list(fns) + [f.vc_inner for f in fns if hasattr(f, 'vc_inner')]
        own = set(id(c) for f in fns if f is not None for k, c in builtins.zip(f.__code__.co_freevars, f.__closure__ or ()) if k in names)
        self.cells = [(c, v) for c, v in cells(*fns) if not isinstance(v, types.FunctionType) and id(c) not in own]
        self.skip = skip
        self.objs = [(v, dict(vars(v))) for c, v in self.cells if hasattr(v, '__dict__') and not isinstance(
            v, (type, types.ModuleType, LSeq, LList, types.FunctionType)) and id(v) not in lz().owner]
        self.lists = [(v, builtins.list(v)) for c, v in self.cells if type(v) is list and id(v) not in skip]

    def run(self, fn):
        for o, d in self.objs:
            n = vars(o)
            if len(n) != len(d) or any(k not in n or not (n[k] is d[k] or eqv(n[k], d[k])) for k in d):
                raise Stale()
        for o, d in self.lists:
            if len(o) != len(d) or any(x is not y for x, y in builtins.zip(o, d)):
                raise Stale()
        old = []
        for c, v in self.cells:
            try:
                old.append((c, c.cell_contents))
            except ValueError:
                pass
            c.cell_contents = v
        try:
            return fn()
        finally:
            for c, v in old:
                c.cell_contents = v


# ------------------------------------------------------------------ facts
class Fact(object):
    """run(idx) ends without stopping for every index the domain admits"""

    def __init__(self, arity, dom, run):
        self.arity = arity
        self.dom = dom
        self.run = run
        self.done = set()
        self.clock = lz().clock

    def use(self, idx):
        """the fact at one index (tuple of terms)"""
        idx = tuple(z3.simplify(i) for i in idx)
        key = tuple(i.get_id() for i in idx)
        if key in self.done:
            return
        sym.cur().keep.extend(idx)
        self.done.add(key)
        if not decide(self.dom(idx)):
            return
        l = lz()
        if any(f.stamp > self.clock for f in l.fams):
            return
        old = l.limit
        l.limit = self.clock if old is None else min(old, self.clock)
        l.busy += 1
        try:
            ok = self.run(idx)
        except Stale:
            return
        except (Unsupported, sym.Budget, z3.Z3Exception, RecursionError):
            raise
        except Exception:
            raise PathEnd()
        finally:
            l.limit = old
            l.busy -= 1
        if not ok:
            raise PathEnd()


class Formula(object):
    """an axiom at every index of the domain"""

    def __init__(self, arity, dom, f):
        self.arity, self.dom, self.f = arity, dom, f
        self.done = set()

    def use(self, idx):
        key = tuple(z3.simplify(i).get_id() for i in idx)
        if key in self.done:
            return
        self.done.add(key)
        if not decide(self.dom(idx)):
            return
        c = self.f(idx)
        if c is not None:
            sym.cur().axiom(B(c))


def sig(s):
    """what tells that two sequences have the same elements"""
    t = type(s)
    if t is LList:
        return ('list', tuple(tuple(id(x) for x in p[1]) if p[0] == 'c' else (p[1].get_id(), famsig(p[2])) for p in s.parts))
    if t in (LFlat, LMany, LBag):
        b = sig(s.base)
        return b and (t.__name__, b)
    if t is LComp and s.elt.__closure__ is None and s.cond is None:
        b = sig(s.base)
        return b and ('comp', s.elt.__code__.co_code, s.elt.__code__.co_consts, s.elt.__code__.co_names, b)
    return None


def famsig(f):
    o = getattr(f, '__self__', f)
    return getattr(o, 'sig', None) or id(o)


def sure(x, y):
    """are they equal in any case?"""
    if type(x) is not type(y):
        return False
    a, b = attrs([x]), attrs([y])
    return bool(a) and len(a) == len(b) and builtins.all(valid(u.e == v.e) for u, v in builtins.zip(a, b))


def equal(x, y):
    return x is y or bool(x == y)


def instantiate(terms, pairs=None):
    l = lz()
    for rnd in range(3):
        n = len(l.facts)
        for f in builtins.list(l.facts):
            if f.arity == 1:
                for t in terms:
                    f.use((t,))
            else:
                ts = builtins.list(terms) if pairs is None else pairs
                for p in itertools.product(ts, repeat=f.arity):
                    f.use(p)
        if len(l.facts) == n:
            break


def eager(new=()):
    """what is known holds at the witnesses met so far (drops contradictory ways early)"""
    l = lz()
    if l.busy:                      # (while a fact is used: no chains of ever new witnesses)
        return
    for f in builtins.list(l.facts) if new else l.facts[-1:]:
        if f.arity == 1:
            for t in builtins.list(new or l.wit):
                f.use((t,))


def search(seq, run, env):
    """run(idx) -> None (goes on) or an outcome; the rule of the same name"""
    ps = seq.pieces()
    if len(ps) > 1:                             # (joined sequences: one after the other)
        for off, d in ps:
            r = search(Piece(seq, d), lambda idx, off=off: run((z3.simplify(idx[0] + off),)), env)
            if r is not None:
                return r
        return None
    c = sym.cur()
    l = lz()
    if c.choose(2) == 0:
        l.facts.append(Fact(seq.arity, seq.dom, lambda idx: env.run(lambda: run(idx)) is None))
        eager()
        return None
    idx = seq.skolem()
    if seq.arity == 1:
        eager(idx)
        l.wit += idx
    out = run(idx)
    if out is None:
        raise PathEnd()
    if seq.arity == 1 and not l.busy:
        k = idx[0]
        l.facts.append(Fact(1, lambda j: z3.And(seq.dom(j), j[0] < k), lambda j: env.run(lambda: run(j)) is None))
    return out


# ------------------------------------------------------------------ sequences
class AbsSeq(object):
    """base class"""

    def __len__(self):
        raise Unsupported('native len() of an abstract sequence')

    def __getitem__(self, i):
        raise Unsupported('index into an abstract sequence')


class LSeq(AbsSeq):
    """a lazy sequence: dom(idx) says which indices there are, items(idx) which elements
    one of them contributes (none, one or more), in order of the indices"""
    arity = 1
    one = False         # every index contributes exactly one element

    def skolem(self):
        idx = tuple(skolem() for _ in range(self.arity))
        assume(self.dom(idx))
        return idx

    def env(self):
        return Env()

    def pieces(self):
        """the parts of a joined sequence: (offset of its indices, its indices)"""
        b = vars(self).get('base')
        return b.pieces() if isinstance(b, LSeq) else [(0, self.dom)]

    def __iter__(self):
        raise Unsupported('native iteration over a sequence of unknown length')

    def items(self, idx):
        return [self.elem(idx[0])]

    def dom(self, idx):
        return z3.And(idx[0] >= 0, idx[0] < self.n())

    # consumers
    def _absall(self):
        r = search(self, lambda idx: None if builtins.all(bool(x) for x in self.items(idx)) else False, self.env())
        return True if r is None else False

    def _absany(self):
        r = search(self, lambda idx: True if builtins.any(bool(x) for x in self.items(idx)) else None, self.env())
        return False if r is None else True

    def _abscontains(self, x):
        def run(idx):
            return True if self.has(idx, x) else None
        return search(self, run, Env(run)) is not None

    def has(self, idx, x, eq=None):
        return builtins.any((eq or equal)(y, x) for y in self.items(idx))

    __contains__ = _abscontains

    def nonempty(self):
        if self.one and self.arity == 1:
            return decide(self.n() > 0)
        if search(self, lambda idx: True if self.items(idx) else None, self.env()) is not None:
            return True
        if self.arity == 1:                     # (there is no first element either)
            for f, (off, d) in builtins.zip(reversed(lz().facts), reversed(self.pieces())):
                f.use((z3.IntVal(0),))
        return False

    def __bool__(self):
        return self.nonempty()

    def _abslen(self):
        if self.one and self.arity == 1:
            return real(self.n())
        k = sym.cur().fresh_int('len')
        assume(k >= 0)
        r = Len(k, self)
        if self.arity == 1:
            Sum(r, LTally(self))
        return r

    def _abslist(self):
        if self.one and self.arity == 1:
            return LList([('a', self.n(), self.elem)])
        return LMany(self)

    def _absset(self):
        return LSet(self)

    def _abssorted(self, key=None, reverse=False):
        """what sorted() does to the order is its own affair: the elements, in some order"""
        if key is not None:
            probe(self, key)
        return LBag(self)

    def count(self, x):
        """none, exactly one, or more elements are equal to x"""
        if self.arity != 1 or x is None:
            raise Unsupported('count')
        l = lz()
        g = sig(self)
        if g is None:
            return self._count(x)
        for h, y, clock, r in l.counts:         # (the same question once more)
            if h == g and not builtins.any(f.stamp > clock for f in l.fams) and (x is y or sure(x, y)):
                return r
        r = self._count(x)
        l.counts.append((g, x, l.clock, r))
        return r

    def _count(self, x):
        c = sym.cur()
        l = lz()
        env = self.env()

        def none(idx, skip=()):
            return not builtins.any(y is x or bool(y == x) for p, y in builtins.enumerate(self.items(idx)) if p not in skip)
        way = c.choose(3)
        if way == 0:
            l.facts.append(Fact(1, self.dom, lambda idx: env.run(lambda: none(idx))))
            eager()
            return 0
        i = self.skolem()
        eager(i)
        l.wit += i
        it = self.items(i)
        if not it:
            raise PathEnd()
        p = c.choose(len(it))
        if not (it[p] is x or bool(it[p] == x)):
            raise PathEnd()
        if way == 1:
            def only(idx):
                if decide(idx[0] == i[0]):
                    return none(idx, (p,))
                return none(idx)
            if not none(i, (p,)):
                raise PathEnd()
            l.facts.append(Fact(1, self.dom, lambda idx: env.run(lambda: only(idx))))
            eager()
            return 1
        q = c.choose(len(it) - p)
        if q:
            j, jt, q = i, it, p + q             # another one of the same index
        else:
            j = self.skolem()
            assume(j[0] > i[0])
            eager(j)
            l.wit += j
            jt = self.items(j)
            if not jt:
                raise PathEnd()
            q = c.choose(len(jt))
        if not (jt[q] is x or bool(jt[q] == x)):
            raise PathEnd()
        n = c.fresh_int('count')
        assume(n >= 2)
        return R(z3.ToReal(n), True)

    def _first(self, default=()):
        r = search(self, lambda idx: self.items(idx)[:1] or None, self.env())
        if r is None:
            if default:
                return default[0]
            raise StopIteration
        return r[0]

    def _abssum(self, start=0):
        s = sym.cur().fresh('sum')
        g = True
        Sum(R(s), self)
        return start + R(s) if not (isinstance(start, int) and start == 0) else R(s)

    def _absmin(self, least):
        if not self.nonempty():
            raise ValueError('min() arg is an empty sequence')
        k = self.skolem()
        it = self.items(k)
        if not it:
            raise PathEnd()
        v = it[sym.cur().choose(len(it))]

        def run(idx):
            return None if builtins.all(bool(v <= x) if least else bool(v >= x) for x in self.items(idx)) else False
        env = self.env()
        lz().facts.append(Fact(self.arity, self.dom, lambda idx: env.run(lambda: run(idx)) is None))
        return v

    def comp(self, kind, elt, cond):
        r = LComp(self, elt, cond)
        if kind == 'set':
            return LSet(r)
        if kind == 'list' and r.one and r.arity == 1:
            fam = Family(r.n(), r.elem)             # (the objects it makes are made once)
            fam.sig = sig(r)
            return LList([('a', fam.n, fam.elem)])
        return r if kind != 'list' else r._abslist()

    def enumerate(self, start):
        if not self.one or self.arity != 1:
            raise Unsupported('enumerate of a filtered sequence')
        return LMap(self, lambda t: (real(t + ix(start)), self.elem(t)))

    def reversed(self):
        if not self.one or self.arity != 1:
            raise Unsupported('reversed of a filtered sequence')
        n = self.n()
        return LMap(self, lambda t: self.elem(n - 1 - t))

    def zip(self, its):
        its = [i if isinstance(i, LSeq) else LList([('c', builtins.list(i))]) for i in its]
        if not all(i.one and i.arity == 1 for i in its):
            raise Unsupported('zip of a filtered sequence')
        return LZip(its)

    def loop(self, fn, no, names):
        return Rule(self, fn, no, names)


class Piece(LSeq):
    """the indices of a part of a joined sequence"""

    def __init__(self, seq, dom):
        self.seq, self.dom = seq, dom

    def pieces(self):
        return [(0, self.dom)]


class Len(R):
    """the length of a sequence: it is asked whether there are any elements once it is compared"""
    __slots__ = ('k', 'seq')

    def __init__(self, k, seq):
        R.__init__(self, z3.ToReal(k), True)
        self.k, self.seq = k, seq

    def settle(self):
        if not valid(self.k >= 1) and not valid(self.k == 0):
            assume(self.k >= 1 if self.seq.nonempty() else self.k == 0)

    def _cmp(self, o, op):
        self.settle()
        return R._cmp(self, o, op)

    def __bool__(self):
        self.settle()
        return R.__bool__(self)

    def __index__(self):
        self.settle()
        return R.__index__(self)

    def __int__(self):
        self.settle()
        return R.__int__(self)


class LTally(LSeq):
    """how many elements there are at each index"""
    one = True

    def __init__(self, base):
        self.base = base

    def n(self):
        return self.base.n()

    def env(self):
        return self.base.env()

    def elem(self, t):
        return R(z3.RealVal(len(self.base.items((t,)))))


class LMap(LSeq):
    """one element per index of another sequence"""
    one = True

    def __init__(self, base, elem):
        self.base = base
        self._elem = elem

    def n(self):
        return self.base.n()

    def elem(self, t):
        return self._elem(t)

    def env(self):
        return self.base.env()


class LZip(LSeq):
    one = True

    def __init__(self, its):
        self.its = its
        ns = [i.n() for i in its]
        m = ns[0]
        for k in ns[1:]:
            d = z3.simplify(k - m)
            if z3.is_int_value(d):
                m = m if d.as_long() >= 0 else k
            else:
                m = m if decide(m <= k) else k
        self._n = m

    def n(self):
        return self._n

    def elem(self, t):
        return tuple(i.elem(t) for i in self.its)


class LRange(LSeq):
    one = True

    def __init__(self, lo, hi):
        self.lo, self.hi = ix(lo), ix(hi)
        n = self.hi - self.lo
        self._n = z3.simplify(z3.If(n > 0, n, 0))
        if not valid(n >= 0):
            self._n = n if decide(n >= 0) else z3.IntVal(0)
        else:
            self._n = z3.simplify(n)

    def n(self):
        return self._n

    def elem(self, t):
        return real(self.lo + t)


class LPairs(LSeq):
    """itertools.permutations / combinations / product of sequences"""
    one = True

    def __init__(self, kind, its):
        self.kind = kind
        self.its = its
        self.arity = len(its)

    def dom(self, idx):
        c = []
        for i, s in builtins.zip(idx, self.its):
            c += [i >= 0, i < s.n()]
        for a, b in itertools.combinations(idx, 2):
            if self.kind == 'permutations':
                c.append(a != b)
            elif self.kind == 'combinations':
                c.append(a < b)
        return z3.And(c)

    def items(self, idx):
        return [tuple(s.elem(i) for i, s in builtins.zip(idx, self.its))]


IDENT = (lambda v: v).__code__.co_code


class LComp(LSeq):
    """[elt(x) for x in base if cond(x)]"""

    def __init__(self, base, elt, cond):
        self.base, self.elt, self.cond = base, elt, cond
        self.one = base.one and cond is None
        self.arity = base.arity
        self._env = Env(elt, cond)
        self.clock = lz().clock

    def n(self):
        return self.base.n()

    def dom(self, idx):
        return self.base.dom(idx)

    def env(self):
        return self._env

    def elem(self, t):
        late(self.clock)
        return self._env.run(lambda: self.elt(self.base.elem(t)))

    def has(self, idx, x, eq=None):
        if self.cond is None or self.elt.__code__.co_code != IDENT:
            return LSeq.has(self, idx, x, eq)
        late(self.clock)                        # (an element that is another one: no need to know if it is left out)
        return builtins.any((eq or equal)(y, x) and bool(self._env.run(lambda: self.cond(y))) for y in self.base.items(idx))

    def items(self, idx):
        late(self.clock)
        return [self._env.run(lambda: self.elt(x)) for x in self.base.items(idx)
                if self.cond is None or bool(self._env.run(lambda: self.cond(x)))]


def probe(seq, f):
    """the function is applied to every element: does it raise for one?"""
    if sym.cur().choose(2):
        k = seq.skolem()
        try:
            for x in seq.items(k):
                f(x)
        except (Unsupported, sym.Budget, z3.Z3Exception, RecursionError):
            raise
        except Exception:
            l = lz()
            l.wit += k if seq.arity == 1 else ()
            raise
        raise PathEnd()


class LMany(LSeq):
    """a list (not a generator) of unknown length that need not have one element per index"""
    def __init__(self, base, head=()):
        self.base = base
        self.arity = base.arity
        self.head = builtins.list(head)
        self.stamp = lz().clock

    def n(self):
        return self.base.n()

    def dom(self, idx):
        return self.base.dom(idx)

    def env(self):
        return self.base.env()

    def items(self, idx):
        return self.base.items(idx)

    def has(self, idx, x, eq=None):
        return self.base.has(idx, x, eq)

    def __getitem__(self, i):
        if not isinstance(i, int) or i != 0 or self.head:
            raise Unsupported('index into a filtered sequence')
        try:
            return self._first()
        except StopIteration:
            raise IndexError('list index out of range')

    def __add__(self, o):
        return self if isinstance(o, (list, tuple)) and not o else LMany(LCat(self, o))

    def __radd__(self, o):
        return self if isinstance(o, (list, tuple)) and not o else LMany(LCat(o, self))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('list.%s of a filtered list' % name)

    def __eq__(self, o):
        if isinstance(o, (list, LList)) and not o:
            return not self.nonempty()
        raise Unsupported('comparison of filtered lists')

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class LCat(LSeq):
    """one after the other"""

    def __init__(self, a, b):
        self.a, self.b = [x if isinstance(x, LSeq) else LList([('c', builtins.list(x))]) for x in (a, b)]
        if self.a.arity != 1 or self.b.arity != 1:
            raise Unsupported('joined lists of pairs')

    def n(self):
        return z3.simplify(self.a.n() + self.b.n())

    def pieces(self):
        n = self.a.n()
        return self.a.pieces() + [(z3.simplify(n + off), d) for off, d in self.b.pieces()]

    def dom(self, idx):
        i, n = idx[0], self.a.n()
        return z3.Or(z3.And(i < n, self.a.dom(idx)), z3.And(i >= n, self.b.dom((i - n,))))

    def env(self):
        return self.a.env()

    def items(self, idx):
        n = self.a.n()
        return self.a.items(idx) if decide(idx[0] < n) else self.b.items((z3.simplify(idx[0] - n),))


class LBag(LMany):
    """a list of unknown length in an order that is not known (distinct: what a set held, each just once)"""

    def __init__(self, base, distinct=False):
        LMany.__init__(self, base)
        self.distinct = distinct

    def _no(self, *a, **k):
        raise Unsupported('order of a sorted sequence of unknown length')
    __getitem__ = _first = enumerate = reversed = zip = loop = pop = reverse = sort = _no

    def _abslen(self):
        if self.distinct and not self.spread():
            return LSeq._abslen(self)
        return self.base._abslen()

    def spread(self):
        """are the elements of the sequence known to be different ones?"""
        b = self.base
        while not b.one and isinstance(b, (LComp, LMany)):
            b = b.base
        if not b.one or b.arity != 1:
            return False
        if isinstance(self.base, LComp) and self.base.elt.__code__.co_code != IDENT:
            return False
        def go():
            i, j = skolem('i'), skolem('j')
            assume(z3.And(i >= 0, i < j, j < b.n()))
            instantiate([i, j])
            return bool(b.elem(i) == b.elem(j))
        return not builtins.any(r for pc, r in sym.cur().sub(go))

    def _abslist(self):
        return self

    def _abssorted(self, key=None, reverse=False):
        return self

    def _abssum(self, start=0):
        if self.distinct:
            raise Unsupported('sum over a set of unknown size')
        return self.base._abssum(start)

    def count(self, x):
        if self.distinct:
            return 1 if self._abscontains(x) else 0
        return self.base.count(x)

    def comp(self, kind, elt, cond):
        r = LComp(self.base, elt, cond)
        return LSet(r) if kind == 'set' else LBag(r, self.distinct)


class LList(LSeq):
    """a list of unknown length: parts are ('c', [elements]) or ('a', length, element function)"""
    one = True

    def __init__(self, parts):
        self.parts = [(p[0], builtins.list(p[1])) if p[0] == 'c' else p for p in parts if p[0] == 'a' or p[1]]
        self.stamp = lz().clock

    def mutated(self):
        l = lz()
        l.clock += 1
        self.stamp = l.clock

    def plen(self, p):
        return z3.IntVal(len(p[1])) if p[0] == 'c' else p[1]

    def n(self):
        touched(self)
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [self.plen(p) for p in self.parts]))

    def elem(self, t):
        touched(self)
        t = z3.simplify(t)
        if not self.parts:
            raise PathEnd()
        for k, p in builtins.enumerate(self.parts):
            if p[0] == 'a' or len(p[1]) > 1:
                l = self.plen(p)
                if k == len(self.parts) - 1 or decide(t < l):
                    if p[0] == 'a':
                        return p[2](t)
                    for i, x in builtins.enumerate(p[1][:-1]):
                        if decide(t == i):
                            return x
                    return p[1][-1]
                t = z3.simplify(t - l)
            else:
                if k == len(self.parts) - 1 or decide(t == 0):
                    return p[1][0]
                t = z3.simplify(t - 1)

    def __iter__(self):
        if all(p[0] == 'c' for p in self.parts):
            touched(self)
            return iter([x for p in self.parts for x in p[1]])
        raise Unsupported('native iteration over a list of unknown length')

    def __getitem__(self, i):
        touched(self)
        if isinstance(i, slice):
            return self.slice(i)
        if isinstance(i, int):
            if i >= 0:
                if self.parts and self.parts[0][0] == 'c' and i < len(self.parts[0][1]):
                    return self.parts[0][1][i]
                if not decide(self.n() > i):
                    raise IndexError('list index out of range')
                return self.elem(z3.IntVal(i))
            if self.parts and self.parts[-1][0] == 'c' and -i <= len(self.parts[-1][1]):
                return self.parts[-1][1][i]
            if not decide(self.n() >= -i):
                raise IndexError('list index out of range')
            return self.elem(self.n() + i)
        if isinstance(i, z3.ArithRef):          # (a contract's index: known to be in range)
            return self.elem(i)
        t = ix(i)
        n = self.n()
        if not valid(z3.And(t >= 0, t < n)):
            if decide(t >= n) or decide(t < -n):
                raise IndexError('list index out of range')
            if decide(t < 0):
                t = t + n
        return self.elem(t)

    def drop(self, k, end=False):
        """without the first / last k elements"""
        parts = [(p[0], builtins.list(p[1])) if p[0] == 'c' else p for p in self.parts]
        while k and parts:
            j = -1 if end else 0
            p = parts[j]
            if p[0] == 'c':
                p[1].pop(j)
                if not p[1]:
                    parts.pop(j)
                k -= 1
            else:
                m = k
                while m and not decide(p[1] >= m):
                    m -= 1
                if m < k:                       # (shorter: all of it goes)
                    parts.pop(j)
                    k -= m
                else:
                    parts[j] = ('a', z3.simplify(p[1] - k), p[2] if end else (lambda t, f=p[2], k=k: f(t + k)))
                    k = 0
        return LList(parts)

    def slice(self, s):
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            if s.start is None and s.stop is None and isinstance(s.step, int) and s.step == -1:
                return self.reversed()._abslist()
            raise Unsupported('slice with a step')
        a, b = s.start, s.stop
        if all(x is None or isinstance(x, int) for x in (a, b)):
            if (a is None or a >= 0) and (b is None or b < 0):
                r = self if not b else self.drop(-b, True)
                return r.drop(a or 0)
            if b is not None and b >= 0 and (a is None or a >= 0):
                out = []
                for k in range(a or 0, b):
                    if not decide(self.n() > k):
                        break
                    out.append(self.elem(z3.IntVal(k)))
                return out
            if a is not None and a < 0 and b is None:
                out = []
                n = self.n()
                for k in range(-a, 0, -1):
                    if decide(n >= k):
                        out.append(self.elem(n - k))
                return out
            raise Unsupported('slice')
        n = self.n()
        lo = z3.IntVal(0) if a is None else ix(a)
        hi = n if b is None else ix(b)
        for x in (lo, hi):
            if not decide(z3.And(x >= 0, x <= n)):
                raise Unsupported('slice out of range')
        if not decide(lo < hi):
            return []
        base = LList(self.parts)
        return LList([('a', z3.simplify(hi - lo), lambda t: base.elem(t + lo))])

    # changes
    def append(self, x):
        self.mutated()
        if self.parts and self.parts[-1][0] == 'c':
            self.parts[-1] = ('c', self.parts[-1][1] + [x])
        else:
            self.parts.append(('c', [x]))

    def insert(self, i, x):
        if not (isinstance(i, int) and i == 0):
            raise Unsupported('insert into a list of unknown length')
        self.mutated()
        if self.parts and self.parts[0][0] == 'c':
            self.parts[0] = ('c', [x] + self.parts[0][1])
        else:
            self.parts.insert(0, ('c', [x]))

    def extend(self, o):
        r = self + o
        if not isinstance(r, LList):
            raise Unsupported('filtered list joined to another one')
        self.mutated()
        self.parts = r.parts

    def pop(self, i=-1):
        if i not in (0, -1):
            raise Unsupported('pop')
        x = self[i]
        self.mutated()
        self.parts = self.drop(1, i == -1).parts
        return x

    def reverse(self):
        r = self.reversed()._abslist().parts
        self.mutated()
        self.parts = r

    def copy(self):
        touched(self)
        return LList(self.parts)

    _abslist = copy

    def _parts(self, o):
        if isinstance(o, LList):
            return o.parts
        if isinstance(o, LSeq):
            return o._abslist().parts if o.one else self._no()
        return [('c', builtins.list(o))]

    def _no(self):
        raise Unsupported('filtered list joined to another one')

    def __add__(self, o):
        if isinstance(o, LSeq) and not o.one:
            return LMany(LCat(LList(self.parts), o))
        return LList(self.parts + self._parts(o))

    def __radd__(self, o):
        if isinstance(o, LSeq) and not o.one:
            return LMany(LCat(o, LList(self.parts)))
        return LList(self._parts(o) + self.parts)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def reversed(self):
        n = self.n()
        base = LList(self.parts)
        return LMap(base, lambda t: base.elem(n - 1 - t))

    def __eq__(self, o):
        if isinstance(o, list):
            o = LList([('c', o)])
        if not isinstance(o, LList):
            return False
        if not decide(self.n() == o.n()):
            return False
        a, b = LList(self.parts), LList(o.parts)
        return LMap(a, lambda t: a.elem(t) == b.elem(t))._absall()

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __setitem__(self, i, x):
        raise Unsupported('assignment to an element of a list of unknown length')

    def __delitem__(self, i):
        raise Unsupported('deletion from a list of unknown length')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('list.%s of a list of unknown length' % name)

    def __deepcopy__(self, memo):
        clock = lz().clock
        new = []
        for p in self.parts:
            if p[0] == 'c':
                new.append(('c', [copy.deepcopy(x, memo) for x in p[1]]))
            else:
                new.append(('a', p[1], Family(p[1], lambda t, f=p[2]: copy_of(f, t, memo, clock)).elem))
        return LList(new)

    def __copy__(self):
        return LList(self.parts)


def copy_of(f, t, memo, clock):
    if any(x.stamp > clock for x in lz().fams):
        raise Unsupported('copy of elements that changed after it')
    return copy.deepcopy(f(t), memo)


class Family(object):
    """elements made on demand, one object per index term"""

    def __init__(self, n, make):
        self.n = n
        self.make = make
        self.made = {}
        self.updates = []
        self.shots = {}
        self.stamp = 0
        lz().fams.append(self)

    def elem(self, t):
        touched(self)
        t = z3.simplify(t)
        k = t.get_id()
        if k not in self.made:
            l = lz()
            sym.cur().keep.append(t)
            for x, u in builtins.list(self.made.values()):      # the same element by another name
                if valid(u == t):
                    self.made[k] = (x, t)
                    return x
            old, l.limit = l.limit, None
            try:
                x = self.make(t)
                self.made[k] = (x, t)
                l.owner.setdefault(id(x), (self, t))
                for u in builtins.list(self.updates):
                    u(t, x)
                self.look(x, t)
            finally:
                l.limit = old
        return self.made[k][0]


    def look(self, x, t=None):
        """the state an element has by the rules (elements of other families are looked at there)"""
        own = lz().owner
        if t is not None:
            inner(x, (self, t), ())
        self.shots[id(x)] = [(o, shot(o)) for o in reach([x], 2) if o is x or id(o) not in own]

    def audit(self):
        for k, (x, t) in self.made.items():
            for o, s in self.shots.get(id(x), ()):
                n = shot(o)
                if s[0] == 'o' == n[0]:         # (values kept by cached properties are no change)
                    n = ('o', {k: v for k, v in n[1].items() if k in s[1]})
                if not same(s, n):
                    raise Unsupported('one element of a sequence of unknown length is changed')


def inner(x, ft, path):
    """the objects an element of a sequence holds"""
    l = lz()
    for k, v in builtins.enumerate(x) if isinstance(x, (tuple, list)) else vars(x).items() if hasattr(x, '__dict__') else ():
        if isinstance(v, (R, B, int, float, str, type(None), type, LSeq, types.FunctionType)) or id(v) in l.owner or len(path) > 3:
            continue
        if not isinstance(v, tuple):
            l.inner.setdefault(id(v), ft + (path + (k,),))
        if isinstance(v, (tuple, list)) or type(x) is tuple and hasattr(v, '__dict__') and not path:
            inner(v, ft, path + (k,))


def identical(a, b):
    """are they one object? (elements of a sequence: if their indices are equal)"""
    if type(a) is Poison or type(b) is Poison:
        (a if type(a) is Poison else b)._bad()
    if a is b:
        return True
    m = lz().owner
    if id(a) in m and id(b) in m:
        return m[id(a)][0] is m[id(b)][0] and decide(m[id(a)][1] == m[id(b)][1])
    n = lz().inner
    if id(a) in n and id(b) in n and n[id(a)][0] is n[id(b)][0] and n[id(a)][2] == n[id(b)][2]:
        return decide(n[id(a)][1] == n[id(b)][1])
    return False


def deepen(goal):
    """does the goal follow from what is known at all indices met so far and their neighbours?"""
    l = lz()
    if not any(f.arity == 1 for f in l.facts) or l.busy:
        return False
    c = sym.cur()
    ts = {}
    for t in [z3.IntVal(0)] + l.terms + [f.n - 1 for f in l.fams[:3]]:
        for d in (0, 1, -1):
            x = z3.simplify(t + d)
            ts[x.get_id()] = x
    if len(ts) > 24:
        return False

    def go():
        for t in ts.values():
            for f in builtins.list(l.facts):
                if f.arity == 1:
                    f.use((t,))
                    if c.follows([], goal):
                        return True
        return False
    try:
        return all(r for pc, r in c.sub(go, 400))
    except (Unsupported, sym.Budget):
        return False


def late(clock):
    """something that is evaluated on demand stands for an earlier state"""
    if any(f.stamp > clock for f in lz().fams):
        raise Unsupported('late use of elements that changed')


def audit():
    m = sym.cur().memo
    if 'lazy' in m:
        for f in m['lazy'].fams:
            f.audit()


class Sum(object):
    """the sum of the items of a sequence; equal to an earlier one whose items are the same"""

    def __init__(self, s, seq):
        self.s, self.seq = s, seq
        l = lz()
        self.clock = l.clock
        l.abstract = True
        if seq.one and seq.arity == 1:
            old = [c for c in l.sums if not any(f.stamp > c.clock for f in l.fams) and valid(c.seq.n() == seq.n())]
            for c in old:
                try:
                    if self.equal(c):
                        sym.cur().axiom(B(s.e == c.s.e))
                        break
                except Unsupported:
                    pass
            l.sums.append(self)

    def at(self, k):
        if isinstance(self.seq, Ways):
            return self.seq.at((k,))
        return sym.cur().sub(lambda: self.seq.items((k,))[0])

    def equal(self, o):
        c = sym.cur()

        def go():
            k = skolem('k')
            assume(z3.And(k >= 0, k < self.seq.n()))
            instantiate([k])
            a, b = self.at(k), o.at(k)
            return all(c.follows(p + q, sym.ex(v) == sym.ex(w)) for p, v in a for q, w in b)
        return all(r for pc, r in c.sub(go))


# ------------------------------------------------------------------ rules for for loops
class Native(object):
    native = True

    def __init__(self, it):
        self.it = it


class Rule(object):
    """a for loop over a lazy sequence"""
    native = False

    def __init__(self, seq, fn, no, names):
        self.seq, self.fn, self.no, self.names = seq, fn, no, names

    def poison(self, setv):
        setv({k: Poison(k) for k in self.names})

    def run(self, body, getv, setv, roots):
        seq = self.seq
        if body is None:
            raise Unsupported('loop %s:%d over a sequence of unknown length' % (self.fn, self.no))
        st0 = getv()
        if not seq.nonempty():
            return None
        old, Poison.live = Poison.live, True
        try:
            return self.run2(body, getv, setv, roots, st0)
        except Carried as e:
            return self.previous(body, getv, setv, roots, st0, e)
        finally:
            Poison.live = old

    def once(self, body, setv, idx):
        """one iteration (over all elements of the index)"""
        for x in self.seq.items(idx):
            r = body(x)
            if r is not None and r[0] != 'cnt':
                return r
        return None

    def run2(self, body, getv, setv, roots, st0):
        c = sym.cur()
        l = lz()
        seq = self.seq
        roots = [v for k, v in roots.items() if not isinstance(v, Poison)]
        exits = c.choose(2)
        env = Env(body, names=self.names)

        def iteration(j):
            self.poison(setv)
            o, Poison.live = Poison.live, True
            try:
                return self.once(body, setv, j)
            except Carried:
                raise Unsupported('loop state')
            finally:
                Poison.live = o
        if exits:
            idx = seq.skolem()
            eager(idx)
            l.wit += idx
            fr = Frame(roots)
            self.poison(setv)
            out = self.once(body, setv, idx)
            if out is None:
                raise PathEnd()
            ch = fr.changed()
            if ch and out[0] != 'ret':
                raise Unsupported('loop %s:%d changes something and stops' % (self.fn, self.no))
            if seq.arity == 1 and not ch:
                k = idx[0]
                l.facts.append(Fact(1, lambda j: z3.And(seq.dom(j), j[0] < k), lambda j: env.run(lambda: iteration(j)) is None))
            return out

        def probe():
            idx = seq.skolem()
            elems = seq.items(idx)
            frame = Frame(roots + elems)
            own = set(id(o) for o in reach(elems, 2))
            self.poison(setv)
            for x in elems:
                out = body(x)
                if out is not None and out[0] != 'cnt':
                    raise PathEnd()
            lists, upd = [], []
            for o, s in frame.changed():
                if isinstance(o, list) and s[0] == 'n' and len(o) >= len(s[1]) and all(a is b for a, b in builtins.zip(o, s[1])):
                    lists.append((o, s[1], len(o) - len(s[1])))
                    del o[len(s[1]):]
                elif id(o) in own and not isinstance(o, (list, dict, set)):
                    upd.append(o)
                else:
                    raise Unsupported('loop %s:%d changes %s' % (self.fn, self.no, type(o).__name__))
            where = None
            if upd:
                if len(elems) != 1 or id(elems[0]) not in l.owner or seq.arity != 1:
                    raise Unsupported('loop %s:%d changes elements' % (self.fn, self.no))
                fam, t = l.owner[id(elems[0])]
                if not z3.simplify(t - idx[0]).eq(z3.IntVal(0)):
                    raise Unsupported('loop %s:%d changes some elements' % (self.fn, self.no))
                where = fam
            return lists, where
        ways = []
        try:
            ways = [r for pc, r in c.sub(lambda: quiet(probe))]
        finally:
            self.poison(setv)
        fams = [f for x, f in ways if f is not None]
        lists = {}
        for x, f in ways:
            for o, old, m in x:
                lists.setdefault(id(o), (o, old))
        if fams:
            if any(f is not fams[0] for f in fams) or not valid(fams[0].n == seq.n()):
                raise Unsupported('loop %s:%d changes some elements' % (self.fn, self.no))
            self.update(env, body, fams[0])
        if lists:
            self.collect(body, builtins.list(lists.values()), getv, setv,
                         len(lists) == 1 and all(len(x) == 1 and x[0][2] == 1 for x, f in ways))
        if not lists and not fams:
            l.facts.append(Fact(seq.arity, seq.dom, lambda j: env.run(lambda: iteration(j)) is None))
            eager()
        return None

    def update(self, env, body, fam):
        l = lz()

        def upd(t, x):
            if not decide(z3.And(t >= 0, t < fam.n)):
                return
            fr = Frame(env_roots(env) + [x])
            mine = set(id(o) for o in reach([x], 2))
            try:
                r = env.run(lambda: body(x))
            except Stale:
                raise Unsupported('late update')
            if r is not None and r[0] != 'cnt':
                raise PathEnd()
            if any(id(o) not in mine for o, s in fr.changed()):
                raise Unsupported('loop %s:%d changes more than its element' % (self.fn, self.no))
        done = set()
        for k, (x, t) in builtins.list(fam.made.items()):
            if id(x) not in done:
                done.add(id(x))
                upd(t, x)
                fam.look(x)
        l.clock += 1
        fam.stamp = l.clock
        fam.updates.append(upd)

    def collect(self, body, lists, getv, setv, one):
        """the body appends to lists: each becomes a lazy list of what all iterations append"""
        st = getv()
        env = Env(body, skip=set(id(o) for o, old in lists),
                  names=builtins.list(self.names) + [k for k, v in st.items() if any(v is o for o, x in lists)])
        for o, old in lists:
            names = [k for k, v in st.items() if v is o]
            if len(names) != 1:
                raise Unsupported('loop %s:%d fills a list with other names' % (self.fn, self.no))
            r = Collected(self, env, body, setv, getv, names[0], [])
            if one and self.seq.arity == 1 and self.seq.one:
                fam = Family(r.n(), lambda t, r=r: r.items((t,))[0])
                r = LList([('c', old), ('a', fam.n, fam.elem)])
            elif old:
                raise Unsupported('loop %s:%d fills a list that is not empty' % (self.fn, self.no))
            setv({names[0]: r})

    # -- the element before: carried as it is
    def previous(self, body, getv, setv, roots, st0, why):
        seq = self.seq
        if seq.arity != 1 or not seq.one:
            return self.fold(body, getv, setv, roots, st0, why)
        c = sym.cur()
        item = lambda t: seq.items((t,))[0]

        def same(x, y):
            if x is y:
                return True
            return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and builtins.all(
                same(u, v) for u, v in builtins.zip(x, y))

        def where(v, x):
            if isinstance(v, (Poison, int, float, str, bool, R)) or v is None:
                return None
            if same(v, x):
                return ()
            if isinstance(x, tuple):
                for k, u in builtins.enumerate(x):
                    if same(v, u):
                        return (k,)
            return None

        def take(x, w):
            for k in w:
                x = x[k]
            return x

        def first():
            setv(dict(st0))
            r = self.once(body, setv, (z3.IntVal(0),))
            return r, getv()

        def find():
            r, st = first()
            if r is not None:
                return 'exit'
            x = item(z3.IntVal(0))
            return {k: where(st[k], x) for k in self.names if k in st and k in st0 and where(st[k], x) is not None}
        try:
            ways = [f for pc, f in c.sub(lambda: quiet(find))]
        except Carried:
            ways = []
        if ways and builtins.all(f == 'exit' for f in ways):     # the first iteration ends it in any case
            r, st = first()
            if r is None:
                raise Unsupported('loop %s:%d' % (self.fn, self.no))
            return r
        ways = [f for f in ways if f != 'exit']
        if not ways or not ways[0] or builtins.any(f != ways[0] for f in ways):
            return self.fold(body, getv, setv, roots, st0, why)
        prev = ways[0]

        def before(t):
            self.poison(setv)
            x = item(t)
            setv({k: take(x, w) for k, w in prev.items()})

        def step():                                 # it stays the element before
            t = seq.skolem()[0]
            assume(t >= 1)
            before(t - 1)
            r = self.once(body, setv, (t,))
            if r is not None:
                return True
            st, x = getv(), item(t)
            return builtins.all(same(st[k], take(x, w)) for k, w in prev.items())
        try:
            good = builtins.all(g for pc, g in c.sub(lambda: quiet(step)))
        except Carried:
            good = False
        if not good:
            return self.fold(body, getv, setv, roots, st0, why)
        r, st = first()
        if r is not None:
            return r
        n = seq.n()
        if decide(n > 1):
            pairs = LMap(LRange(0, real(n - 1)), lambda t: real(t))

            def body2(t):
                before(ix(t))
                return body(item(z3.simplify(ix(t) + 1)))
            body2.vc_inner = body
            r = Rule(pairs, self.fn, self.no, self.names).run2(body2, getv, setv, roots, getv())
            if r is not None:
                return r
        before(n - 1)
        return None

    # -- numbers carried from one iteration to the next
    def fold(self, body, getv, setv, roots, st0, why):
        c = sym.cur()
        l = lz()
        seq = self.seq
        if seq.arity != 1:
            raise Unsupported('loop %s:%d carries %s over pairs' % (self.fn, self.no, why))
        roots = [v for k, v in roots.items() if not isinstance(v, Poison)]

        def step(st, t):
            """one iteration from a state; all ways through it"""
            def go():
                setv({k: Poison(k) for k in self.names if k not in st})
                setv(st)
                fr = Frame(roots)
                try:
                    r = self.once(body, setv, (t,))
                except Carried as e:
                    raise Unsupported('loop %s:%d carries %s' % (self.fn, self.no, e))
                if r is not None or fr.changed():
                    raise Unsupported('loop %s:%d carries state and does more' % (self.fn, self.no))
                return getv()
            return c.sub(go)

        def number(v):
            return isinstance(v, R) or (isinstance(v, (int, float)) and not isinstance(v, bool))
        l.abstract = True
        # the first iteration, in the open (its ways are ways of the function)
        setv({k: v for k, v in st0.items()})
        t0 = z3.IntVal(0)
        fr = Frame(roots)
        try:
            r = self.once(body, setv, (t0,))
        except Carried:
            raise Unsupported('loop %s:%d' % (self.fn, self.no))
        if r is not None or fr.changed():
            raise Unsupported('loop %s:%d carries state and does more' % (self.fn, self.no))
        st1 = getv()
        num = sorted(k for k in self.names if k in st1 and k in st0 and number(st1[k]) and not (
            isinstance(st1[k], float) and st1[k] in (float('inf'), -float('inf'))))
        e0 = R0(st1)
        # an arbitrary further one
        t = c.fresh_int('t')
        l.terms.append(t)
        assume(z3.And(t >= 1, t < seq.n()))
        s = {k: R(c.fresh('s'), all(sym.ongrid(x[k]) for x in (st1,))) for k in num}
        ways = step({k: s[k] for k in num}, t)
        at = attrs(seq.items((t,)))
        a0 = attrs(seq.items((t0,)))

        def holds(pc, goal):
            return c.follows(pc, goal)
        cand = []
        for k in num:
            cand.append(('const', k))
            for j in range(len(at)):
                cand += [('le', k, j), ('ge', k, j)]
            for u in num:
                if u != k:
                    cand.append(('ord', k, u))
            cand.append(('att', k))
            cand.append(('sum', k))
        ok = []
        for x in cand:                              # established by the first iteration
            v = e0(x[1])
            if x[0] == 'const':
                g = number(st0[x[1]]) and not isinf(st0[x[1]]) and holds([], v == sym.ex(st0[x[1]]))
            elif x[0] in ('le', 'ge'):
                g = len(at) == len(a0) and holds([], v <= a0[x[2]].e if x[0] == 'le' else v >= a0[x[2]].e)
            elif x[0] == 'ord':
                g = holds([], v <= e0(x[2]))
            elif x[0] == 'att':
                g = holds([], z3.Or([v == a.e for a in a0] or [z3.BoolVal(False)]))
            else:
                g = not isinf(st0[x[1]])
            if g:
                ok.append(x)
        while True:
            hyp = [s[x[1]].e <= s[x[2]].e for x in ok if x[0] == 'ord'] + [
                s[x[1]].e == sym.ex(st0[x[1]]) for x in ok if x[0] == 'const']
            bad = []
            for x in ok:
                for pc, st in ways:
                    if not number(st.get(x[1])) or isinf(st[x[1]]):
                        bad.append(x)
                        break
                    v, o = sym.ex(st[x[1]]), s[x[1]].e
                    way, pc = pc, pc + hyp
                    if x[0] == 'const':
                        g = holds(pc, v == o)
                    elif x[0] == 'le':
                        g = holds(pc, z3.And(v <= o, v <= at[x[2]].e))
                    elif x[0] == 'ge':
                        g = holds(pc, z3.And(v >= o, v >= at[x[2]].e))
                    elif x[0] == 'ord':
                        g = number(st.get(x[2])) and holds(pc, v <= sym.ex(st[x[2]]))
                    elif x[0] == 'att':
                        g = holds(pc, z3.Or([v == o] + [v == a.e for a in at]))
                    else:
                        d = z3.simplify(v - o, som=True)
                        g = not builtins.any(mentions(q, [y.e for y in s.values()]) for q in [d] + builtins.list(way))
                    if not g:
                        bad.append(x)
                        break
            if not bad:
                break
            ok = [x for x in ok if x not in bad]
        # (attained: by as few of the attributes as possible)
        by = {}
        for x in ok:
            if x[0] != 'att':
                continue
            J = builtins.list(range(len(at)))
            for j in builtins.list(J):
                K = [q for q in J if q != j]
                if len(a0) == len(at) and holds([], z3.Or([e0(x[1]) == a0[q].e for q in K] or [z3.BoolVal(False)])) and all(
                        holds(pc + hyp, z3.Or([sym.ex(st[x[1]]) == s[x[1]].e] + [sym.ex(st[x[1]]) == at[q].e for q in K]))
                        for pc, st in ways):
                    J = K
            by[x[1]] = J
        # after the last one
        n = seq.n()
        out = {k: Poison(k) for k in self.names}
        r = {k: R(c.fresh('r'), s[k].grid) for k in num}
        for x in ok:
            v = r[x[1]].e
            if x[0] == 'const':
                c.axiom(B(v == sym.ex(st0[x[1]])))
            elif x[0] in ('le', 'ge'):
                def f(idx, v=v, j=x[2], le=x[0] == 'le'):
                    a = attrs(seq.items(idx))
                    return v <= a[j].e if le else v >= a[j].e
                l.facts.append(Formula(1, seq.dom, f))
            elif x[0] == 'ord':
                c.axiom(B(v <= r[x[2]].e))
            elif x[0] == 'att':
                w = skolem()
                assume(seq.dom((w,)))
                aw = attrs(seq.items((w,)))
                c.axiom(B(z3.Or([v == aw[j].e for j in by[x[1]] if j < len(aw)])))
            else:
                sm = c.fresh('sum')
                c.axiom(B(v == sym.ex(st0[x[1]]) + sm))

                def d(idx, k=x[1]):
                    w = step({q: s[q] for q in num}, idx[0])
                    return [(pc, R(z3.simplify(sym.ex(st[k]) - s[k].e, som=True))) for pc, st in w]
                Sum(R(sm), Ways(seq.n(), d))
        for k in num:
            if any(x[1] == k for x in ok):
                out[k] = r[k]
        setv(out)
        return None


class Ways(object):
    """summands of a loop: the value at an index, on each way through the body"""

    def __init__(self, n, at):
        self._n, self.at = ix(n), at
        self.one, self.arity = True, 1

    def n(self):
        return self._n


def R0(st):
    return lambda k: sym.ex(st[k])


def isinf(v):
    return isinstance(v, float) and v in (float('inf'), -float('inf'))


def mentions(e, vs):
    ids = set(v.get_id() for v in vs)
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def attrs(items):
    """the numbers of the elements (coordinates of points and of ends of segments)"""
    out = []

    def go(o, d):
        if isinstance(o, R):
            out.append(o)
        elif isinstance(o, tuple) and d:
            for x in o:
                go(x, d - 1)
        elif hasattr(o, 'ij') and d:
            go(o.ij, d)
        elif hasattr(o, 'xy'):
            go(o.xy, 1)
    for x in items:
        go(x, 2)
    return out


def quiet(fn):
    """exceptions end the way (they are found by the case that stops)"""
    try:
        return fn()
    except (Unsupported, sym.Budget, z3.Z3Exception, RecursionError):
        raise
    except Exception:
        raise PathEnd()


def env_roots(env):
    return [v for c, v in env.cells if not isinstance(v, Poison)]


class Collected(LSeq):
    """the list a loop fills by appending"""

    def __init__(self, rule, env, body, setv, getv, name, head):
        self.rule, self._env, self.body, self.setv, self.getv, self.name, self.head = rule, env, body, setv, getv, name, head
        self.arity = rule.seq.arity
        self.stamp = lz().clock

    def n(self):
        return self.rule.seq.n()

    def dom(self, idx):
        return self.rule.seq.dom(idx)

    def items(self, idx):
        got = []
        late(self.stamp)

        def run():
            self.rule.poison(self.setv)
            self.setv({self.name: got})
            o, Poison.live = Poison.live, True
            try:
                return self.rule.once(self.body, self.setv, idx)
            except Carried:
                raise Unsupported('loop state')
            finally:
                Poison.live = o
        keep = self.getv()
        try:
            r = self._env.run(run)
        except Stale:
            raise Unsupported('late use of a list')
        finally:
            self.setv(keep)
        if r is not None:
            raise PathEnd()
        return got

    def __eq__(self, o):
        if isinstance(o, (list, LList)) and not o:
            return not self.nonempty()
        raise Unsupported('comparison of collected lists')

    __hash__ = None


# ------------------------------------------------------------------ entry points of the rewritten code
def comp(kind, it, elt, cond):
    if isinstance(it, LSeq):
        return it.comp(kind, elt, cond)
    if kind == 'list':
        return [elt(x) for x in it if cond is None or cond(x)]
    if kind == 'set':
        from .load import OSet
        return OSet(elt(x) for x in it if cond is None or cond(x))
    return (elt(x) for x in it if cond is None or cond(x))


def flat(it):
    """the elements of the elements (comprehensions with several fors)"""
    if isinstance(it, LSeq):
        return LFlat(it)
    return (y for x in it for y in x)


def starcall(f, *a, **kw):
    """f(.., *last)"""
    if a and isinstance(a[-1], LSeq):
        if f is chain and len(a) == 1:
            return chain.from_iterable(a[0])
        raise Unsupported('call with any number of arguments')
    return f(*(a[:-1] + tuple(a[-1])), **kw)


def szip(*its, **kw):
    for i in its:
        if isinstance(i, LSeq):
            return i.zip(its)
    return builtins.zip(*its, **kw)


def senumerate(it, start=0):
    if isinstance(it, LSeq):
        return it.enumerate(start)
    return builtins.enumerate(it, start)


def sreversed(it):
    if isinstance(it, LSeq):
        return it.reversed()
    return builtins.reversed(it)


def snext(it, *default):
    if isinstance(it, LSeq):
        return it._first(default)
    return builtins.next(it, *default)


def siter(it, *a):
    return it if isinstance(it, LSeq) else builtins.iter(it, *a)


def absrange(*a):
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
        raise Unsupported('range with a step')
    return LRange(a[0], a[1])


class Itertools(types.ModuleType):
    """itertools, with the functions that accept sequences of unknown length"""

    def __init__(self):
        types.ModuleType.__init__(self, 'itertools')
        self.__dict__.update({k: v for k, v in vars(itertools).items() if not k.startswith('__') and k not in vars(Itertools)})

    @staticmethod
    def permutations(it, r=None):
        if isinstance(it, LSeq):
            return pairs('permutations', [it] * (r or 99))
        return itertools.permutations(it, r)

    @staticmethod
    def combinations(it, r):
        if isinstance(it, LSeq):
            return pairs('combinations', [it] * r)
        return itertools.combinations(it, r)

    @staticmethod
    def product(*its, **kw):
        rep = kw.get('repeat', 1)
        if builtins.any(isinstance(i, LSeq) for i in its):
            return pairs('product', [i if isinstance(i, LSeq) else LList([('c', builtins.list(i))]) for i in its] * rep)
        return itertools.product(*its, **kw)


class chain(object):
    def __new__(cls, *its):
        if builtins.any(isinstance(i, LSeq) for i in its):
            if builtins.any(isinstance(i, LSeq) and not i.one for i in its):
                r = its[0]
                for i in its[1:]:
                    r = LCat(r, i)
                return r
            r = LList([])
            for i in its:
                r = r + (i if isinstance(i, LSeq) else builtins.list(i))
            return r
        return itertools.chain(*its)

    @staticmethod
    def from_iterable(it):
        if isinstance(it, LSeq):
            return LFlat(it)
        return chain(*it)


Itertools.chain = chain


class LFlat(LSeq):
    """the elements of the elements"""

    def __init__(self, base):
        self.base = base
        self.arity = base.arity

    def n(self):
        return self.base.n()

    def dom(self, idx):
        return self.base.dom(idx)

    def env(self):
        return self.base.env()

    def items(self, idx):
        return [y for x in self.base.items(idx) for y in x]


class LSet(LSeq):
    """a set of unknown size (elements that compare equal have equal hashes: contracts of __hash__)"""

    def __init__(self, base):
        self.base = base
        self.arity = base.arity

    def n(self):
        return self.base.n()

    def dom(self, idx):
        return self.base.dom(idx)

    def env(self):
        return self.base.env()

    def items(self, idx):
        return self.base.items(idx)

    def has(self, idx, x, eq=None):
        return self.base.has(idx, x, eq)

    def _abslen(self):
        raise Unsupported('size of a set of unknown size')

    def _abssum(self, start=0):
        raise Unsupported('sum over a set of unknown size')

    def enumerate(self, start):
        raise Unsupported('order of a set of unknown size')

    reversed = zip = enumerate

    def _abslist(self):
        return LBag(self.base, True)

    def _abssorted(self, key=None, reverse=False):
        if key is not None:
            probe(self, key)
        return LBag(self.base, True)

    def count(self, x):
        raise Unsupported('count')

    def _first(self, default=()):
        raise Unsupported('order of a set of unknown size')

    def loop(self, fn, no, names):
        raise Unsupported('loop over a set of unknown size')

    def comp(self, kind, elt, cond):
        r = LComp(self.base, elt, cond)
        return LSet(r) if kind == 'set' else LBag(r, True)

    def issubset(self, o):
        if not isinstance(o, (LSeq, set, frozenset, dict)):
            raise Unsupported('issubset')
        return LMapped(self, lambda x: x in o)._absall()

    def issuperset(self, o):
        return LSet.issubset(o if isinstance(o, LSet) else LSet(LList([('c', builtins.list(o))])), self)

    def isdisjoint(self, o):
        return not LMapped(self, lambda x: x in o)._absany()

    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        return isinstance(o, LSet) and self.issubset(o) and o.issubset(self)

    __hash__ = None


class LMapped(LSeq):
    """f of the elements"""

    def __init__(self, base, f):
        self.base, self.f = base, f
        self.arity = base.arity
        self._env = Env(f)

    def n(self):
        return self.base.n()

    def dom(self, idx):
        return self.base.dom(idx)

    def env(self):
        return self._env

    def items(self, idx):
        return [self.f(x) for x in self.base.items(idx)]


def pairs(kind, its):
    if len(its) > 3 or not all(i.one and i.arity == 1 for i in its):
        raise Unsupported(kind)
    return LPairs(kind, [i._abslist() for i in its])


def loop(fn, no, it, names):
    if isinstance(it, LSeq):
        return it.loop(fn, no, names)
    return Native(it)


# ------------------------------------------------------------------ rewriting of for loops
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def walk(nodes):
    """the nodes of a loop body that belong to the function itself (comprehensions: their first iterable is left out too)"""
    todo = builtins.list(nodes)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def stored(node):
    """variables a for loop assigns, and lists it calls methods of; None: not a loop the rules can take"""
    out = set()
    for n in walk([node.target] + node.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef,
                          ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Delete)):
            return None
        if isinstance(n, ast.ExceptHandler) and n.name:
            return None
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id == 'super':
            return None
    return sorted(out)


class Extends(ast.NodeTransformer):
    """x += e of a variable that only ever holds a list is x.extend(e)"""

    def __init__(self, names):
        self.names = names

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and node.target.id in self.names and isinstance(node.op, ast.Add):
            f = ast.Attribute(value=_n(node.target.id), attr='extend', ctx=ast.Load())
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(func=f, args=[node.value], keywords=[])), node))
        return node

    def _skip(self, node):
        return node
    visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = _skip


def only_lists(node):
    """local variables of a function that are only ever assigned list displays (and added to)"""
    a = node.args
    bad = set(x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    good, fine = set(), set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad.update(n.names)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                n.value, ast.List):
            good.add(n.targets[0].id)
            fine.add(id(n.targets[0]))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add):
            fine.add(id(n.target))
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in fine:
            bad.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
    return good - bad


def filled(node):
    return sorted(set(n.func.value.id for st in node.body for n in ast.walk(st) if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Name)))


def _n(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


class Exits(ast.NodeTransformer):
    """return, break and continue of a loop body become results of the body function"""

    def __init__(self):
        self.depth = 0

    def _skip(self, node):
        return node
    visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = _skip

    def visit_For(self, node):
        self.depth += 1
        node.body = [self.visit(x) for x in node.body]
        self.depth -= 1
        node.orelse = [self.visit(x) for x in node.orelse]
        return node

    def visit_While(self, node):
        return self.visit_For(node)

    def _ret(self, node, *elts):
        return ast.copy_location(ast.Return(value=ast.Tuple(elts=builtins.list(elts), ctx=ast.Load())), node)

    def visit_Return(self, node):
        return self._ret(node, ast.Constant('ret'), node.value or ast.Constant(None))

    def visit_Break(self, node):
        return node if self.depth else self._ret(node, ast.Constant('brk'))

    def visit_Continue(self, node):
        return node if self.depth else self._ret(node, ast.Constant('cnt'))


def rewrite_for(node, fn, no, mod, fill, nested):
    """for over an ordinary sequence as before; over a lazy one the body becomes a function the rules can run.
    (node is already rewritten inside; a nested loop's `return` of the body function is seen as an exit of the outer one)"""
    v = 'vc__l%d' % no
    setv = ast.Assign(targets=[_n(v, ast.Store())], value=ast.Call(
        func=_n('vc__loop'), args=[ast.Constant(fn), ast.Constant(no), node.iter,
                                   ast.Constant(tuple(mod or ()))], keywords=[]))
    native = ast.For(target=node.target, iter=ast.Attribute(value=_n(v), attr='it', ctx=ast.Load()),
                     body=node.body, orelse=node.orelse)
    none = ast.Constant(None)
    if mod is None:
        call = ast.Call(func=ast.Attribute(value=_n(v), attr='run', ctx=ast.Load()), args=[none] * 4, keywords=[])
        absb = [ast.Expr(value=call)]
    else:
        names = sorted(set(mod) | set(fill))
        body = [Exits().visit(copy.deepcopy(x)) for x in node.body]
        arg = 'vc__x%d' % no

        def fun(name, args, b):
            nl = [ast.Nonlocal(names=names)] if names else []
            return ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                                                 kw_defaults=[], defaults=[]), body=nl + b, decorator_list=[])
        b = fun('vc__b%d' % no, [arg], [ast.Assign(targets=[copy.deepcopy(node.target)], value=_n(arg))] + body)
        g = [ast.Assign(targets=[_n('vc__d', ast.Store())], value=ast.Dict(keys=[], values=[]))]
        s = []
        for k in names:
            g.append(ast.Try(body=[ast.Assign(targets=[ast.Subscript(value=_n('vc__d'), slice=ast.Constant(k), ctx=ast.Store())],
                                              value=_n(k))],
                             handlers=[ast.ExceptHandler(type=_n('NameError'), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
            s.append(ast.If(test=ast.Compare(left=ast.Constant(k), ops=[ast.In()], comparators=[_n('vc__d')]),
                            body=[ast.Assign(targets=[_n(k, ast.Store())],
                                             value=ast.Subscript(value=_n('vc__d'), slice=ast.Constant(k), ctx=ast.Load()))], orelse=[]))
        g.append(ast.Return(value=_n('vc__d')))
        get = fun('vc__g%d' % no, [], g)
        put = fun('vc__s%d' % no, ['vc__d'], s or [ast.Pass()])
        r = 'vc__r%d' % no
        loc = ast.Call(func=_n('locals'), args=[], keywords=[])
        call = ast.Call(func=ast.Attribute(value=_n(v), attr='run', ctx=ast.Load()),
                        args=[_n('vc__b%d' % no), _n('vc__g%d' % no), _n('vc__s%d' % no), loc], keywords=[])
        absb = [b, get, put, ast.Assign(targets=[_n(r, ast.Store())], value=call),
                ast.If(test=ast.BoolOp(op=ast.And(), values=[
                    ast.Compare(left=_n(r), ops=[ast.IsNot()], comparators=[none]),
                    ast.Compare(left=ast.Subscript(value=_n(r), slice=ast.Constant(0), ctx=ast.Load()), ops=[ast.Eq()],
                                comparators=[ast.Constant('ret')])]),
                       body=[ast.Return(value=ast.Subscript(value=_n(r), slice=ast.Constant(1), ctx=ast.Load()))], orelse=[])]
        if node.orelse:
            absb.append(ast.If(test=ast.Compare(left=_n(r), ops=[ast.Is()], comparators=[none]),
                               body=copy.deepcopy(node.orelse), orelse=[]))
    return [setv, ast.If(test=ast.Attribute(value=_n(v), attr='native', ctx=ast.Load()), body=[native], orelse=absb)]
