"""math for symbolic reals (axiomatised), falling back to the real module for
concrete arguments.  Functions are in real arithmetic; sqrt and acos carry a
domain obligation taken with the relative slack of floating arithmetic, so a
call that only stays in its domain without rounding is reported."""
import math as _m
from fractions import Fraction

import z3

from . import sym
from .sym import R, B, q, ex, isnum, cur, Unsupported

pi = _m.pi
e = _m.e
inf = _m.inf
nan = _m.nan
SLACK = Fraction(1, 10 ** 14)


def _key(name, *es):
    c = cur()
    return (name,) + tuple(c.canon(x).get_id() for x in es)


def sqrt(x):
    if not isinstance(x, R):
        return _m.sqrt(x)
    c = cur()
    if c.decide(x.e < 0):
        raise ValueError('math domain error')
    k = _key('sqrt', x.e)
    if k not in c.memo:
        s = c.fresh('sqrt')
        c.axiom(z3.And(s >= 0, s * s == x.e, (s > 0) == (x.e > 0)))
        c.roots.append((s, x.e))
        c.memo[k] = R(s, sq=x.e)
    return c.memo[k]


def hypot(*xs):
    if not any(isinstance(x, R) for x in xs):
        return _m.hypot(*xs)
    t = 0
    for x in xs:
        t = t + x * x
    return sqrt(t)


def dist(p, qq):
    return hypot(*[a - b for a, b in zip(p, qq)])


# ---- angles: u = angle / pi ------------------------------------------------
def _units(x):
    """angle in half turns, or None if x is not known to be a multiple of pi"""
    if isinstance(x, R):
        return x.ang
    return None


def PI():
    c = cur()
    if 'pi' not in c.memo:
        p = z3.Real('pi')
        c.axiom(z3.And(p > q(Fraction('3.14159265358979')), p < q(Fraction('3.14159265358980'))))
        c.memo['pi'] = p
    return c.memo['pi']


def angle(u):
    return R(PI() * u, ang=u)


def degrees(x):
    if not isinstance(x, R):
        return _m.degrees(x)
    if x.ang is not None:
        return R(x.ang * q(180))
    return R(x.e * q(180) / PI())


def radians(x):
    if not isinstance(x, R):
        return _m.radians(x)
    return angle(x.e * q(Fraction(1, 180)))


def acos(x):
    if not isinstance(x, R):
        return _m.acos(x)
    c = cur()
    if c.decide(z3.Or(x.e < -1, x.e > 1)):
        raise ValueError('math domain error')
    # floating slack: if the argument was computed (not clamped), rounding may push it out of [-1, 1]
    if not _clamped(x.e):
        c.prove('float-domain(acos): the argument stays in [-1, 1] under rounding',
                B(z3.And(x.e >= q(-1 + SLACK), x.e <= q(1 - SLACK))))
    k = _key('acos', x.e)
    if k not in c.memo:
        u = c.fresh('acos')
        c.axiom(z3.And(u >= 0, u <= 1))
        c.memo[k] = u
        cs, sn = cossin(u)
        c.axiom(z3.And(cs == x.e, sn >= 0, (u == 0) == (x.e == 1), (u == 1) == (x.e == -1),
                       (u * 2 == 1) == (x.e == 0), (u * 2 < 1) == (x.e > 0)))
        for (x2, u2) in c.memo.setdefault('acoslist', []):
            c.axiom(z3.And((x.e < x2) == (u > u2), (x.e == x2) == (u == u2),
                           (x.e == -x2) == (u + u2 == 1)))
        c.memo['acoslist'].append((x.e, u))
    return angle(c.memo[k])


def _clamped(t):
    """the argument provably lies in [-1,1] by construction (min/max clamp): the
    outermost operation is an ite between the bounds and the value"""
    c = cur()
    s = z3.Solver()
    s.set('timeout', 500)
    # abstract every non-ite, non-numeral leaf by a fresh variable: clamping must
    # hold for *any* value of the inner expression
    cache = {}

    def ab(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if z3.is_rational_value(x):
            r = x
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            r = z3.If(abb(x.arg(0)), ab(x.arg(1)), ab(x.arg(2)))
        else:
            r = z3.Real('leaf!%d' % c.canon(x).get_id())
        cache[k] = r
        return r

    def abb(b):
        if z3.is_not(b):
            return z3.Not(abb(b.arg(0)))
        if z3.is_le(b):
            return ab(b.arg(0)) <= ab(b.arg(1))
        if z3.is_ge(b):
            return ab(b.arg(0)) >= ab(b.arg(1))
        if z3.is_lt(b):
            return ab(b.arg(0)) < ab(b.arg(1))
        if z3.is_gt(b):
            return ab(b.arg(0)) > ab(b.arg(1))
        return z3.Bool('bleaf!%d' % b.get_id())

    t2 = ab(t)
    # path decisions on the same leaf also clamp (if x > 1: ... style code)
    for p in c.pc:
        if any(z3.is_app_of(p, k) for k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_NOT)):
            s.add(abb(p))
    s.add(z3.Or(t2 < -1, t2 > 1))
    return s.check() == z3.unsat


def asin(x):
    if not isinstance(x, R):
        return _m.asin(x)
    a = acos(x)
    return angle(q(Fraction(1, 2)) - a.ang)


def atan2(y, x):
    if not isinstance(x, R) and not isinstance(y, R):
        return _m.atan2(y, x)
    c = cur()
    ye, xe = ex(y), ex(x)
    k = _key('atan2', ye, xe)
    if k not in c.memo:
        u = c.fresh('atan2')
        nz = z3.Or(xe != 0, ye != 0)
        c.axiom(z3.And(u > -1, u <= 1, z3.Implies(z3.Not(nz), u == 0),
                       z3.Implies(nz, z3.And((u > 0) == z3.Or(ye > 0, z3.And(ye == 0, xe < 0)),
                                             (u == 0) == z3.And(ye == 0, xe > 0),
                                             (u == 1) == z3.And(ye == 0, xe < 0),
                                             (2 * u == 1) == z3.And(xe == 0, ye > 0),
                                             (2 * u == -1) == z3.And(xe == 0, ye < 0),
                                             z3.And(2 * u < 1, 2 * u > -1) == (xe > 0)))))
        for (y2, x2, u2) in c.memo.setdefault('atanlist', []):
            cr = xe * y2 - ye * x2
            dt = xe * x2 + ye * y2
            both = z3.And(nz, z3.Or(x2 != 0, y2 != 0))
            c.axiom(z3.Implies(both, z3.And(
                (u == u2) == z3.And(cr == 0, dt > 0),
                z3.Or(u - u2 == 1, u2 - u == 1) == z3.And(cr == 0, dt < 0))))
        c.memo['atanlist'].append((ye, xe, u))
        c.memo[k] = u
        c.keep += [ye, xe]
    return angle(c.memo[k])


def atan(x):
    if not isinstance(x, R):
        return _m.atan(x)
    return atan2(x, 1)


# ---- cos / sin of u half turns ---------------------------------------------
def linform(t):
    """{atom id: (coef, atom)}, const   of a linear z3 term (after som)"""
    c = cur()
    t = c.som(t)
    out = {}
    const = [Fraction(0)]

    def val(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())

    def add(x, k):
        if z3.is_rational_value(x):
            const[0] += k * val(x)
        elif z3.is_add(x):
            for a in x.children():
                add(a, k)
        elif z3.is_mul(x) and z3.is_rational_value(x.arg(0)):
            rest = x.children()[1:]
            r = rest[0] if len(rest) == 1 else z3.Product(*rest)
            if len(rest) > 1:
                r = c.som(r)
            add(r, k * val(x.arg(0)))
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            add(x.arg(0), -k)
        elif z3.is_sub(x):
            ch = x.children()
            add(ch[0], k)
            for a in ch[1:]:
                add(a, -k)
        else:
            i = x.get_id()
            c.keep.append(x)
            o = out.get(i, (Fraction(0), x))
            out[i] = (o[0] + k, x)
    add(t, Fraction(1))
    return {i: v for i, v in out.items() if v[0] != 0}, const[0]


def cossin(u):
    """(cos, sin) of pi*u as z3 terms.  Integer multiples of 2 half turns vanish;
    quarter turns are exact; the rest is a pair of atoms on the unit circle; the
    angle is split per atom so that angle sums expand."""
    c = cur()
    lf, k = linform(u)
    pairs = []
    for i in sorted(lf, key=lambda j: str(lf[j][1])):
        co, atom = lf[i]
        # integer atom (from %): 2*integer half turns vanish
        if z3.is_app_of(atom, z3.Z3_OP_TO_REAL) and (co / 2).denominator == 1:
            continue
        pairs.append(_atom(atom, co))
    quarter = k * 2
    if quarter.denominator == 1:
        n = int(quarter) % 4
        cs, sn = [(1, 0), (0, 1), (-1, 0), (0, -1)][n]
        base = (q(cs), q(sn))
    else:
        f = k - (k // 2) * 2              # in [0, 2)
        base = _const(f)
    pairs.append(base)
    cs, sn = pairs[0]
    for c2, s2 in pairs[1:]:
        cs, sn = cs * c2 - sn * s2, sn * c2 + cs * s2
    return z3.simplify(cs, som=True), z3.simplify(sn, som=True)


def _const(f):
    """cos, sin of pi*f, f rational in [0,2), not a quarter turn"""
    c = cur()
    # reduce to (0, 1/2)
    n = int(f * 2)
    g = f - Fraction(n, 2)
    key = ('trigc', g)
    if key not in c.memo:
        a, b = c.fresh('cosk'), c.fresh('sink')
        fa, fb = _m.cos(_m.pi * float(g)), _m.sin(_m.pi * float(g))
        eps = Fraction(1, 10 ** 12)
        c.axiom(z3.And(a * a + b * b == 1, a > q(frac_(fa) - eps), a < q(frac_(fa) + eps),
                       b > q(frac_(fb) - eps), b < q(frac_(fb) + eps)))
        if g == Fraction(1, 4):
            c.axiom(a == b)
        if g == Fraction(1, 3):
            c.axiom(2 * a == 1)
        if g == Fraction(1, 6):
            c.axiom(2 * b == 1)
        c.memo[key] = (a, b)
    a, b = c.memo[key]
    for _ in range(n):
        a, b = -b, a
    return a, b


def frac_(x):
    return Fraction(repr(x))


def _atom(atom, co):
    """cos, sin of pi*co*atom"""
    c = cur()
    sign = 1
    if co < 0:
        co, sign = -co, -1
    den = c.memo.setdefault('trigden', {})
    i = atom.get_id()
    d = den.get(i)
    if d is None:
        d = c.memo.get('trigbase', {}).get(str(atom), co.denominator)
        den[i] = d
    if d % co.denominator != 0:
        # finer division than the base atom: opaque pair (no relation assumed)
        key = ('trig', i, co)
        n = 1
    else:
        key = ('trig', i, Fraction(1, d))
        n = int(co * d)
    if key not in c.memo:
        a, b = c.fresh('cos'), c.fresh('sin')
        c.axiom(a * a + b * b == 1)
        c.memo[key] = (a, b)
        c.keep.append(atom)
    a, b = c.memo[key]
    cs, sn = q(1), q(0)
    for _ in range(n):
        cs, sn = cs * a - sn * b, sn * a + cs * b
    if sign < 0:
        sn = -sn
    return cs, sn


def cos(x):
    if not isinstance(x, R):
        return _m.cos(x)
    if x.ang is None:
        return R(_raw(x)[0])
    return R(cossin(x.ang)[0])


def sin(x):
    if not isinstance(x, R):
        return _m.sin(x)
    if x.ang is None:
        return R(_raw(x)[1])
    return R(cossin(x.ang)[1])


def _raw(x):
    c = cur()
    k = _key('trigraw', x.e)
    if k not in c.memo:
        a, b = c.fresh('cos'), c.fresh('sin')
        c.axiom(a * a + b * b == 1)
        c.memo[k] = (a, b)
    return c.memo[k]


def tan(x):
    if not isinstance(x, R):
        return _m.tan(x)
    return sin(x) / cos(x)


def fabs(x):
    return abs(x) if isinstance(x, R) else _m.fabs(x)


def copysign(a, b):
    if not isinstance(a, R) and not isinstance(b, R):
        return _m.copysign(a, b)
    aa = abs(a)
    return R(z3.If(ex(b) >= 0, ex(aa), -ex(aa)))


def floor(x):
    if not isinstance(x, R):
        return _m.floor(x)
    return R(z3.ToReal(z3.ToInt(x.e)))


def ceil(x):
    if not isinstance(x, R):
        return _m.ceil(x)
    return R(-z3.ToReal(z3.ToInt(-x.e)))


def fsum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def isnan(x):
    return False if isinstance(x, R) else _m.isnan(x)


def isinf(x):
    return False if isinstance(x, R) else _m.isinf(x)


def isfinite(x):
    return True if isinstance(x, R) else _m.isfinite(x)


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not isinstance(a, R) and not isinstance(b, R):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = sym.smax2(abs(a), abs(b)) * rel_tol
    m = sym.smax2(m, abs_tol)
    return d <= m


def pow(a, b):
    if isinstance(a, R) or isinstance(b, R):
        return a ** b
    return _m.pow(a, b)


def __getattr__(name):
    f = getattr(_m, name)
    if not callable(f):
        return f

    def g(*a):
        if any(isinstance(x, R) for x in a):
            raise Unsupported('math.%s of a symbolic real' % name)
        return f(*a)
    return g
