"""Loads the real modules of /repo for symbolic execution.

On every import the module text is read from /repo and three mechanical
rewrites are applied (nothing is dropped):
  1. `a and b`, `a or b`, `not a`, chained comparisons  ->  helpers that build a
     symbolic formula when the operands are symbolic and the remaining operands
     are free of calls (otherwise Python's own short circuit is kept)
  2. `for` loops and comprehensions over an abstract sequence (AbsSeq) -> loop
     rules (vc/loops.py); over ordinary sequences they run natively
  3. +, -, *, / of two concrete numbers go through helpers that keep the exact rational
     when a float would round
  4. the builtins float int round min max sum all any abs hash range are replaced
     by versions that accept symbolic reals; math, random, cached_property,
     numpy, triangle, matplotlib resolve to shims
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import operator
import os
import sys
import types

from . import sym, smath
from .sym import R, B, Unsupported, isnum

REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGES = ('geometry', 'SR_Vessel')


# ------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, R))


class sfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (R, )):
            return x
        if isinstance(x, B):
            return float(bool(x))
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)


class sint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, R):
            import z3
            e = z3.simplify(x.e)
            if z3.is_rational_value(e):
                return int(sym.numval(e))
            return R(z3.If(e >= 0, z3.ToReal(z3.ToInt(e)), -z3.ToReal(z3.ToInt(-e))), grid=True)
        return int(x, *a)


_REALTYPES = {float: sfloat, int: sint}


def sround(x, nd=None):
    return sym.sround(x, nd) if isinstance(x, R) else (round(x) if nd is None else round(x, nd))


def _mm(pick, native):
    def f(*args, **kw):
        if kw or not args:
            return native(*args, **kw)
        items = list(args) if len(args) > 1 else args[0]
        if hasattr(items, '_absmin'):
            return items._absmin(pick is sym.smin2)
        items = list(items)
        if any(isinstance(x, R) for x in items) and all(isinstance(x, R) or isnum(x) for x in items):
            out = items[0]
            for x in items[1:]:
                out = pick(out, x)
            return out
        return native(items)
    return f


smin = _mm(sym.smin2, min)
smax = _mm(sym.smax2, max)


def ssum(it, start=0):
    if hasattr(it, '_abssum'):
        return it._abssum(start)
    out = start
    for x in it:
        if isinstance(x, B):
            x = int(bool(x))
        out = out + x
    return out


def _lazy(it, stop):
    """all/any: left to right, lazily; symbolic elements are accumulated; an
    exception in a later element only counts if the earlier ones did not decide"""
    acc = []
    comb = sym.sand if stop is False else sym.sor
    i = iter(it)
    while True:
        try:
            x = next(i)
        except StopIteration:
            break
        except (Exception, sym.Unsupported):
            if acc:
                r = comb(*acc)
                if bool(r) is stop:
                    return stop
            raise
        if isinstance(x, B):
            acc.append(x)
        elif isinstance(x, R):
            acc.append(B(sym.be(x)))
        elif bool(x) is stop:
            return stop
    if not acc:
        return not stop
    return comb(*acc)


def sall(it):
    if hasattr(it, '_absall'):
        return it._absall()
    return _lazy(it, False)


def sany(it):
    if hasattr(it, '_absany'):
        return it._absany()
    return _lazy(it, True)


def sabs(x):
    return abs(x)


def shash(x):
    if isinstance(x, (R, tuple)) and sym.CUR is not None:
        return sym.CUR.symhash(x)
    return hash(x)


def slen(x):
    if hasattr(x, '_abslen'):
        return x._abslen()
    return len(x)


def srange(*a):
    if any(isinstance(x, R) for x in a):
        from . import loops
        return loops.absrange(*a)
    return range(*a)


class Lex(object):
    """sort key: tuple of numbers compared as one formula"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        a, b = self.k, o.k
        if not isinstance(a, tuple):
            return bool(a < b)
        out = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            if x is y:
                continue
            e = (x == y)
            l = (x < y)
            out = sym.sor(l, sym.sand(e, out))
        return bool(out)


def _lexable(k):
    if isinstance(k, R):
        return True
    return isinstance(k, tuple) and any(isinstance(x, R) for x in k) and all(isinstance(x, R) or isnum(x) for x in k)


def ssorted(it, **kw):
    if hasattr(it, '_abssorted'):
        return it._abssorted(**kw)
    if sym.CUR is None:
        return sorted(it, **kw)
    it = list(it)
    key = kw.get('key') or (lambda x: x)
    ks = [key(x) for x in it]
    if not ks or not all(_lexable(k) or isinstance(k, (int, float)) or (isinstance(k, tuple) and all(isnum(x) for x in k))
                         for k in ks) or not any(_lexable(k) for k in ks) or len({isinstance(k, tuple) for k in ks}) > 1:
        return sorted(it, **kw)
    o = sorted(range(len(it)), key=lambda i: Lex(ks[i]), reverse=kw.get('reverse', False))
    return [it[i] for i in o]


def slist(*a):
    if a and hasattr(a[0], '_abslist'):
        return a[0]._abslist()
    return list(*a)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (set, OSet))


class sset(metaclass=_SetMeta):
    def __new__(cls, *a):
        if a and hasattr(a[0], '_absset'):
            return a[0]._absset()
        return OSet(*a)


class K(object):
    """element of a set: hashes are compared within this set only"""
    __slots__ = ('x', 'v')

    def __init__(self, x, v):
        self.x = x
        self.v = v

    def __hash__(self):
        return self.v

    def __eq__(self, o):
        return self.v == o.v and (self.x is o.x or bool(self.x == o.x))


class OSet(dict):
    """a set with insertion order (what PyPy does, the interpreter the project runs on)"""

    def __init__(self, it=()):
        dict.__init__(self)
        self.reg = []
        for x in it:
            self.add(x)

    def _key(self, x):
        c = sym.CUR
        if c is None:
            return K(x, hash(x))
        old = c.hreg
        c.hreg = self.reg
        try:
            return K(x, c.symhash(x) if type(x) is tuple else hash(x))
        finally:
            c.hreg = old

    def __contains__(self, x):
        return bool(len(self)) and dict.__contains__(self, self._key(x))

    def __iter__(self):
        for x in dict.__iter__(self):
            yield x.x

    def add(self, x):
        x = self._key(x)
        if not dict.__contains__(self, x):
            dict.__setitem__(self, x, True)

    def discard(self, x):
        x = self._key(x)
        if dict.__contains__(self, x):
            dict.__delitem__(self, x)

    def remove(self, x):
        dict.__delitem__(self, self._key(x))

    def pop(self):
        k = next(dict.__iter__(self))
        dict.__delitem__(self, k)
        return k.x

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return OSet(self)

    def issubset(self, o):
        o = o if isinstance(o, OSet) else OSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def union(self, *its):
        r = OSet(self)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            o = it if isinstance(it, OSet) else OSet(it)
            r = OSet(x for x in r if x in o)
        return OSet(r)

    def difference(self, *its):
        r = self
        for it in its:
            o = it if isinstance(it, OSet) else OSet(it)
            r = OSet(x for x in r if x not in o)
        return OSet(r)

    def symmetric_difference(self, o):
        o = OSet(o)
        return self.difference(o).union(o.difference(self))

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (OSet, set, frozenset)):
            return False
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'OSet(%r)' % (list(self),)

    def __deepcopy__(self, memo):
        import copy
        return OSet([copy.deepcopy(x, memo) for x in self])

    def __copy__(self):
        return OSet(self)


def sprint(*a, **k):
    pass


# ---------------------------------------------------------------- modules
class cached_property(object):
    """same protocol as cached_property 1.3: value stored in the instance __dict__"""

    def __init__(self, func):
        self.__doc__ = getattr(func, '__doc__')
        self.func = func

    def __get__(self, obj, cls):
        if obj is None:
            return self
        value = obj.__dict__[self.func.__name__] = self.func(obj)
        return value


class SymRandom(types.ModuleType):
    """random: every draw is an arbitrary value of its range"""

    def __init__(self):
        types.ModuleType.__init__(self, 'random')

    def uniform(self, a, b):
        if sym.CUR is None:
            import random
            return random.uniform(a, b)
        c = sym.cur()
        v = c.fresh('uniform')
        import z3
        ea, eb = sym.ex(a), sym.ex(b)
        c.axiom(z3.Or(z3.And(ea <= v, v <= eb), z3.And(eb <= v, v <= ea)))
        r = R(v)
        c.memo.setdefault('uniforms', []).append((r, a, b))
        return r

    def random(self):
        return self.uniform(0, 1)

    def choice(self, seq):
        seq = list(seq)
        return seq[sym.cur().choose(len(seq))]

    def randint(self, a, b):
        return a + sym.cur().choose(b - a + 1)

    def shuffle(self, x):
        raise Unsupported('random.shuffle')

    def sample(self, *a):
        raise Unsupported('random.sample')

    def seed(self, *a):
        pass


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('external module %s.%s' % (self.__name__, name))


def _modules():
    from . import loops
    cp = types.ModuleType('cached_property')
    cp.cached_property = cached_property
    tm = types.ModuleType('time')
    tm.sleep = lambda *a: None
    import time as _t
    tm.time = _t.time
    return {'math': smath, 'random': SymRandom(), 'cached_property': cp, 'time': tm,
            'numpy': Stub('numpy'), 'triangle': Stub('triangle'), 'itertools': loops.Itertools()}


SHIMS = _modules()


def simport(name, globals=None, locals=None, fromlist=(), level=0):
    if name in SHIMS:
        return SHIMS[name]
    if name.split('.')[0] in ('matplotlib',):
        raise ImportError(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    from . import loops
    d = dict(vars(builtins))
    d.update(float=sfloat, int=sint, round=sround, min=smin, max=smax, sum=ssum, all=sall,
             any=sany, abs=sabs, hash=shash, len=slen, range=srange, sorted=ssorted,
             list=ListShim, set=sset, print=sprint, __import__=simport, zip=loops.szip,
             enumerate=loops.senumerate, reversed=loops.sreversed,
             vc__and=vc_and, vc__or=vc_or, vc__not=vc_not, vc__cmp=vc_cmp,
             vc__set=lambda *a: OSet(a), vc__setcomp=vc_setcomp, vc__comp=loops.comp, vc__flat=loops.flat, vc__call=loops.starcall,
             vc__loop=loops.loop, vc__head=loops.head, vc__class=loops.classof, isinstance=loops.sisinstance, type=loops.stype, vc__again=loops.again, next=loops.snext, iter=loops.siter, vc__star=vc_star, vc__in=vc_in, vc__notin=vc_notin, vc__is=lambda a, b: loops.identical(a, b) if sym.CUR is not None else a is b,
             vc__add=vc_add, vc__sub=vc_sub, vc__mul=vc_mul, vc__div=vc_div)
    return d


class _ListMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, list):
            return True
        from . import loops
        return isinstance(o, (loops.LList, loops.LMany, loops.Collected))

    def __eq__(cls, o):
        return o is cls or o is list

    def __hash__(cls):
        return hash(list)


class ListShim(metaclass=_ListMeta):
    def __new__(cls, *a):
        return slist(*a)


def vc_not(x):
    return sym.snot(x)


def vc_and(*fs):
    """operands after the first are call-free thunks"""
    x = fs[0]()
    for i, f in enumerate(fs[1:]):
        if isinstance(x, B):
            try:
                y = f()
            except (PathErr, sym.PathEnd):
                raise
            except (Exception, sym.Unsupported):
                if not bool(x):
                    return False
                raise
            if isinstance(y, (B, bool)):
                x = sym.sand(x, y)
                continue
            if not bool(x):
                return False
            x = y
            continue
        if not x:
            return x
        x = f()
    return x


def vc_or(*fs):
    x = fs[0]()
    for f in fs[1:]:
        if isinstance(x, B):
            try:
                y = f()
            except (PathErr, sym.PathEnd):
                raise
            except (Exception, sym.Unsupported):
                if bool(x):
                    return True
                raise
            if isinstance(y, (B, bool)):
                x = sym.sor(x, y)
                continue
            if bool(x):
                return True
            x = y
            continue
        if x:
            return x
        x = f()
    return x


class PathErr(Exception):
    pass


def vc_cmp(a, *rest):
    """a op1 b op2 c ..: rest = (fn1, thunk_b, fn2, thunk_c, ...)"""
    out = True
    left = a
    for i in range(0, len(rest), 2):
        right = rest[i + 1]()
        r = rest[i](left, right)
        if isinstance(r, B) or isinstance(out, B):
            out = sym.sand(out, r)
        elif not r:
            return r if i else r
        left = right
        if out is False:
            return False
    return out


def vc_in(x, c):
    """x in c, as one formula for lists and tuples"""
    if hasattr(c, '_abscontains'):
        return c._abscontains(x)
    if type(c) in (list, tuple):
        acc = []
        for y in c:
            if y is x:
                if acc:
                    return True
                return True
            r = (y == x)
            if isinstance(r, B):
                acc.append(r)
            elif r:
                return True
        return sym.sor(*acc) if acc else False
    return x in c


def vc_notin(x, c):
    return sym.snot(vc_in(x, c))


def _exact(op):
    """arithmetic of two concrete numbers: a result that floats would round is
    carried on as an exact constant"""
    def f(a, b):
        r = op(a, b)
        if type(r) is float and sym.CUR is not None and r == r and abs(r) != smath.inf:
            if abs(r) < 1e15 and r == int(r) and a == int(a) and b == int(b) and abs(a) < 1e15 and abs(b) < 1e15 and (
                    op is not operator.truediv or r * b == a):
                return r                    # exact on integers
            e = op(sym.frac(a), sym.frac(b))
            if sym.frac(r) != e:
                import z3
                return R(z3.Q(e.numerator, e.denominator), (e * sym.GRID).denominator == 1)
        return r
    return f


vc_add = _exact(operator.add)
vc_sub = _exact(operator.sub)
vc_mul = _exact(operator.mul)
vc_div = _exact(operator.truediv)


def vc_star(f):
    return lambda x: f(*x)


def vc_setcomp(it):
    return OSet(it)


# ------------------------------------------------------------ rewriting
PURECALLS = {'min', 'max', 'abs', 'len', 'float', 'isinstance', 'type', 'vc__cmp', 'vc__and',
             'vc__or', 'vc__not', 'vc__add', 'vc__sub', 'vc__mul', 'vc__div', 'vc__in', 'vc__notin', 'vc__is', 'round', 'any', 'all', 'sqrt'}
_OPS = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__',
        ast.Eq: '__eq__', ast.NotEq: '__ne__'}


def pure(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in PURECALLS):
                return False
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return False
    return True


def _thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=e)


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Rewrite(ast.NodeTransformer):
    def __init__(self, loops=True):
        self.fn = []
        self.loopno = []
        self.locs = []
        self.loops = loops

    def visit_FunctionDef(self, node):
        from . import loops
        self.fn.append(node.name)
        self.loopno.append(0)
        self.locs.append(_locals(node))
        e = loops.Extends(loops.only_lists(node))
        if e.names:
            node.body = [e.visit(x) for x in node.body]
        node = self.generic_visit(node)
        self.fn.pop()
        self.loopno.pop()
        self.locs.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        node = self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_BoolOp(self, node):
        p = all(pure(v) for v in node.values[1:])
        node = self.generic_visit(node)
        if not p:
            return node
        name = 'vc__and' if isinstance(node.op, ast.And) else 'vc__or'
        return _call(name, *[_thunk(v) for v in node.values])

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _call('vc__not', node.operand)
        return node

    def visit_Compare(self, node):
        p = all(pure(v) for v in node.comparators[1:])
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return _call('vc__in', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return _call('vc__notin', node.left, node.comparators[0])
            if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and not any(isinstance(x, ast.Constant) for x in (
                    node.left, node.comparators[0])):
                r = _call('vc__is', node.left, node.comparators[0])
                return r if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(op=ast.Not(), operand=r)
            return node
        if not p or not all(type(o) in _OPS for o in node.ops):
            return node
        args = [node.left]
        for o, v in zip(node.ops, node.comparators):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(arg='a__'), ast.arg(arg='b__')],
                              kwonlyargs=[], kw_defaults=[], defaults=[])
            args.append(ast.Lambda(args=a, body=ast.Compare(
                left=ast.Name(id='a__', ctx=ast.Load()), ops=[o],
                comparators=[ast.Name(id='b__', ctx=ast.Load())])))
            args.append(_thunk(v))
        return _call('vc__cmp', *args)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        n = {ast.Add: 'vc__add', ast.Sub: 'vc__sub', ast.Mult: 'vc__mul', ast.Div: 'vc__div'}.get(type(node.op))
        if n is None or all(isinstance(x, ast.Constant) for x in (node.left, node.right)):
            return node
        return _call(n, node.left, node.right)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        st = [k for k, a in enumerate(node.args) if isinstance(a, ast.Starred)]
        if st == [len(node.args) - 1]:
            return ast.Call(func=ast.Name(id='vc__call', ctx=ast.Load()), args=[node.func] + node.args[:-1] + [node.args[-1].value],
                            keywords=node.keywords)
        return node

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return _call('vc__set', *node.elts)

    # comprehensions with a single generator: the rule decides native / abstract
    def _comp(self, node, kind):
        g = node.generators
        if len(g) > 1 and not any(x.is_async for x in g):
            def ok(t):
                return [t.id] if isinstance(t, ast.Name) else [x.id for x in t.elts] if isinstance(t, ast.Tuple) and all(
                    isinstance(x, ast.Name) for x in t.elts) else None
            ns = [ok(x.target) for x in g]
            if all(n and len(set(n)) == len(n) for n in ns):
                inner = ast.GeneratorExp(elt=node.elt, generators=g[1:])
                outer = ast.GeneratorExp(elt=inner, generators=g[:1])
                r = _call('vc__flat', self._comp(outer, 'gen'))
                ident = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='v__')], kwonlyargs=[], kw_defaults=[],
                                                      defaults=[]), body=ast.Name(id='v__', ctx=ast.Load()))
                return _call('vc__comp', ast.Constant(value=kind), r, ident, ast.Constant(value=None))
        simple = len(g) == 1 and not g[0].is_async
        targets = g[0].target
        node = self.generic_visit(node)
        if kind == 'set' and not simple:
            return _call('vc__setcomp', ast.GeneratorExp(elt=node.elt, generators=node.generators))
        names = [targets] if isinstance(targets, ast.Name) else targets.elts if isinstance(targets, ast.Tuple) else [None]
        if not simple or not all(isinstance(x, ast.Name) for x in names) or len(set(x.id for x in names)) != len(names):
            if kind == 'set':
                return _call('vc__setcomp', ast.GeneratorExp(elt=node.elt, generators=node.generators))
            return node
        a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x.id) for x in names], kwonlyargs=[], kw_defaults=[],
                          defaults=[])
        import copy as _c
        elt = ast.Lambda(args=a, body=node.elt)
        conds = node.generators[0].ifs
        if not conds:
            cond = ast.Constant(value=None)
        else:
            body = conds[0] if len(conds) == 1 else _call('vc__and', *[_thunk(x) for x in conds])
            cond = ast.Lambda(args=_c.deepcopy(a), body=body)
        if not isinstance(targets, ast.Name):
            elt = _call('vc__star', elt)
            cond = _call('vc__star', cond) if conds else cond
        return _call('vc__comp', ast.Constant(value=kind), node.generators[0].iter, elt, cond)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_For(self, node):
        from . import loops
        mod, fill, no = loops.stored(node), loops.filled(node), None
        if self.loopno:
            no = self.loopno[-1]
            self.loopno[-1] += 1
            if mod is not None and not set(mod) <= self.locs[-1]:
                mod = None
            fill = [k for k in fill if k in self.locs[-1]]
        node = self.generic_visit(node)
        if not self.loops or not self.loopno:
            return node
        return loops.rewrite_for(node, '.'.join(self.fn), no, mod, fill, None)


    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load) and self.fn:
            return ast.copy_location(_call('vc__class', node.value), node)
        return node

    def visit_While(self, node):
        node = self.generic_visit(node)
        if not self.loops or not self.loopno:
            return node
        v = 'vc__w%d' % node.lineno
        here = lambda: ast.Call(func=ast.Name('locals', ast.Load()), args=[], keywords=[])
        h = ast.Assign(targets=[ast.Name(v, ast.Store())], value=_call('vc__head', here()))
        node.body.append(ast.Expr(_call('vc__again', ast.Name(v, ast.Load()), here())))
        for x in (h, node.body[-1]):
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return [h, node]


def _locals(node):
    """local variables of a function"""
    from . import loops
    a = node.args
    out = set(x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    glob = set()
    for n in loops.walk(node.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    return out - glob


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in PACKAGES:
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            pk = True
        else:
            f, pk = base + '.py', False
        if not os.path.exists(f):
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pk)
        spec.has_location = True
        if pk:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, 'exec')
        module.__dict__['__builtins__'] = make_builtins()
        exec(code, module.__dict__)


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Loader())
        sys.dont_write_bytecode = True
        _installed = True
