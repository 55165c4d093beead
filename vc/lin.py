"""Linear abstraction of a formula: every non-linear monomial becomes a fresh
variable (the same one wherever the monomial occurs).  Unsatisfiable abstract
formulas are unsatisfiable; nothing is concluded from satisfiable ones."""
import z3

from . import ring

_A = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS)
_ARITH = _A + (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV)
_REAL = z3.RealSort()


class Lin(object):
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.mono = {}
        self.nonlinear = False
        self.env = ring.Env([], [], 3000)

    def f(self, e):
        self.keep.append(e)
        return self.go(e)

    def go(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        self.keep.append(e)
        d = e.decl().kind()
        ch = e.children()
        if not ch:
            r = e
        elif d in _ARITH and e.sort() == _REAL:
            try:
                p = ring.poly(e, self.env)
            except ring.No:
                p = None
            r = self.build(p) if p is not None else e.decl()(*[self.go(c) for c in ch]) if d in _A else self.other(e)
        elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_MUL, z3.Z3_OP_POWER):
            r = self.other(e)
        else:
            r = e.decl()(*[self.go(c) for c in ch])
        self.cache[k] = r
        return r

    def other(self, e):
        """a term that is left uninterpreted"""
        k = ('t', e.get_id())
        if k not in self.mono:
            self.nonlinear = True
            self.mono[k] = z3.FreshConst(e.sort(), 'term')
        return self.mono[k]

    def build(self, p):
        ts = []
        by = self.env.atoms
        for m, c in sorted(p.items()):
            if not m:
                ts.append(z3.Q(c.numerator, c.denominator))
                continue
            if len(m) == 1 and m[0][1] == 1:
                e = by[m[0][0]]
                t = self.other(e) if e.decl().kind() in _ARITH else self.go(e)
            else:
                if m not in self.mono:
                    self.nonlinear = True
                    self.mono[m] = z3.Real('mono!%d' % len(self.mono))
                t = self.mono[m]
            ts.append(t if c == 1 else z3.Q(c.numerator, c.denominator) * t)
        if not ts:
            return z3.Q(0, 1)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def squares(self):
        """facts x*x >= 0 about the monomials seen"""
        return [v >= 0 for m, v in self.mono.items() if m[0] != 't' and all(n % 2 == 0 for a, n in m)]
