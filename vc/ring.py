"""Polynomial identities with square roots: a goal 'a == b' between polynomial
terms is decided by expansion, replacing defined symbols by their definitions
and squares of square-root symbols by their radicands (a certificate any
computer algebra system can recheck)."""
from fractions import Fraction

import z3


class No(Exception):
    pass


LIMIT = 20000


def poly(e, env):
    """z3 real term -> {monomial: coefficient}; monomial = sorted tuple of (atom id, power)"""
    k = e.get_id()
    if k in env.cache:
        return env.cache[k]
    env.keep.append(e)
    if z3.is_rational_value(e):
        c = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = {(): c} if c else {}
    elif z3.is_add(e):
        r = {}
        for x in e.children():
            r = add(r, poly(x, env))
    elif z3.is_sub(e):
        xs = e.children()
        r = poly(xs[0], env)
        for x in xs[1:]:
            r = add(r, scale(poly(x, env), -1))
    elif e.decl().kind() == z3.Z3_OP_UMINUS:
        r = scale(poly(e.arg(0), env), -1)
    elif z3.is_mul(e):
        r = {(): Fraction(1)}
        for x in e.children():
            r = mul(r, poly(x, env), env.limit)
    elif e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 \
            and 0 <= e.arg(1).numerator_as_long() <= 8:
        b = poly(e.arg(0), env)
        r = {(): Fraction(1)}
        for _ in range(e.arg(1).numerator_as_long()):
            r = mul(r, b, env.limit)
    elif z3.is_div(e):
        d = poly(e.arg(1), env)
        if set(d) == {()}:
            r = scale(poly(e.arg(0), env), 1 / d[()])
        else:
            r = quotient(poly(e.arg(0), env), d, e, env)
    else:
        r = env.atom(e)
    env.cache[k] = r
    return r


def quotient(n, d, e, env):
    """equal quotients (up to constant factors) are one atom; the path guarantees a non-zero denominator"""
    if not n:
        return {}
    ln, ld = n[min(n)], d[min(d)]
    k = (frozenset(scale(n, 1 / ln).items()), frozenset(scale(d, 1 / ld).items()))
    if k not in env.quot:
        env.quot[k] = (e, ln / ld)
    a, c = env.quot[k]
    return scale(env.atom(a), ln / ld / c)


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(a, k):
    return {m: c * k for m, c in a.items()}


def mul(a, b, limit=LIMIT):
    if len(a) * len(b) > limit * 20:
        raise No()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > limit:
        raise No()
    return r


def mono(m, n):
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


class Env(object):
    def __init__(self, defs, roots, limit=LIMIT):
        """defs: {var: term}, roots: [(var, radicand)] in order of creation"""
        self.defs = {v.get_id(): (v, t) for v, t in defs}
        self.roots = roots
        self.cache = {}
        self.keep = []
        self.atoms = {}
        self.quot = {}
        self.limit = limit

    def atom(self, e):
        self.keep.append(e)
        self.atoms[e.get_id()] = e
        if e.get_id() in self.defs:
            return poly(self.defs[e.get_id()][1], self)
        return {((e.get_id(), 1),): Fraction(1)}

    def reduce(self, p):
        for v, rad in reversed(self.roots):
            k = v.get_id()
            if not any(a == k and n > 1 for m in p for a, n in m):
                continue
            sq = poly(rad, self)
            out = {}
            pw = {0: {(): Fraction(1)}}
            for m, c in p.items():
                n = dict(m).get(k, 0)
                if n < 2:
                    out = add(out, {m: c})
                    continue
                h = n // 2
                while h not in pw:
                    j = max(pw)
                    pw[j + 1] = mul(pw[j], sq)
                rest = tuple(x for x in m if x[0] != k)
                if n % 2:
                    rest = mono(rest, ((k, 1),))
                out = add(out, mul({rest: c}, pw[h]))
            p = out
        return p


def valid(goal, defs, roots):
    """True if every conjunct of the goal is an identity (never a wrong True)"""
    try:
        env = Env(defs, roots)
        return _valid(goal, env)
    except No:
        return False


def _valid(g, env):
    if z3.is_true(g):
        return True
    if z3.is_and(g):
        return all(_valid(x, env) for x in g.children())
    if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
        p = add(poly(g.arg(0), env), scale(poly(g.arg(1), env), -1))
        return not env.reduce(p)
    return False


def normal(e, defs, roots):
    """the reduced polynomial as a z3 term, or None"""
    try:
        env = Env(defs, roots)
        p = env.reduce(poly(e, env))
    except No:
        return None
    by = {x.get_id(): x for x in env.keep}
    for v, _ in roots:
        by[v.get_id()] = v
    ts = []
    for m, c in p.items():
        t = z3.Q(c.numerator, c.denominator)
        for a, n in m:
            for _ in range(n):
                t = t * by[a]
        ts.append(t)
    return z3.Sum(ts) if ts else z3.Q(0, 1)
