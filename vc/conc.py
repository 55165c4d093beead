# -*- coding: utf-8 -*-
"""Concrete side of the contracts: runs the same contract text on the unmodified
modules of /repo under the project's own interpreter.  Reads a JSON job list on
stdin, writes one JSON result per job.  Used to replay the verifier's
counterexamples, to look for a failing input of a failed obligation, and as a
run-time cross-check of the engine."""
import ast
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)


class Skip(Exception):
    pass


class Failed(Exception):
    pass


class Timeout(BaseException):
    pass


class Quant(object):
    def __init__(self, univ, n, f):
        self.univ, self.n, self.f = univ, n, f


def num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


class ConcHarness(object):
    symbolic = False

    def __init__(self, rng, given=None, case=None, consts=()):
        self.rng = rng
        self.given = given
        self.case = case
        self.inputs = {}
        self.exact = True
        self.fails = []
        self.proved = 0
        self.consts = consts
        self.apart = None
        self.fresh_consts = [c for c in consts if repr(c) not in BASE]
        self.style = rng.choice(['int', 'int', 'half', 'int', 'dec', 'big', 'neg', 'pos', 'lit', 'dec']) if rng else 'given'
        if given is not None:
            self.style = 'given'

    def m(self, name):
        return importlib.import_module(name)

    P = property(lambda s: s.m('geometry.SR_point'))
    L = property(lambda s: s.m('geometry.SR_line'))
    G = property(lambda s: s.m('geometry.SR_polygon'))
    GR = property(lambda s: s.m('geometry.SR_polygon_group'))
    V = property(lambda s: s.m('SR_Vessel.SR_hauptteile'))

    # ---- inputs
    def _gen(self, lo, hi):
        r = self.rng
        st = self.style
        if st == 'lit' and self.consts and r.random() < 0.4:
            v = r.choice(self.consts) * r.choice([1, 1, -1, 2, 0.5]) + r.choice([0, 0, 0, 1, -1, 0.5])
            self.exact = False
        elif st in ('int', 'lit'):
            v = r.randint(-4, 6)
        elif st == 'half':
            v = r.randint(-12, 12) / 2.0
        elif st == 'dec':
            v = round(r.uniform(-12, 12), r.choice([1, 2, 3]))
            self.exact = False
        elif st == 'big':
            v = r.choice([1, 1, 64, 1024, 4096]) * r.randint(-6, 6)
        elif st == 'neg':
            v = -r.randint(1, 9)
        else:
            v = r.randint(1, 9)
        if r.random() < 0.02:
            v = v + r.choice([2e-6, 5e-6, 9e-6, 1.1e-5, 2e-5, 1e-4, 3e-8, 1e-7])
            self.exact = False
        if lo is not None or hi is not None:
            l = -1e6 if lo is None else lo
            u = max(1e6, l + 1e3) if hi is None else hi
            if not (l <= v <= u):
                if hi is not None and lo is not None and hi - lo <= 50:
                    k = r.choice([0, 0, 1, 2])
                    if k == 0:
                        v = r.choice([l, u, (l + u) / 2.0, l + (u - l) / 4.0])
                    else:
                        v = round(r.uniform(l, u), 3)
                        self.exact = False
                else:
                    v = min(max(abs(v), l), u)
        return float(v)

    def real(self, name, grid=False, lo=None, hi=None, gen=None):
        if self.given is not None and name in self.given and self.given[name] is not None:
            v = float(Fraction(self.given[name]))
            self.exact = False if (v * 1024) != int(v * 1024) else self.exact
        elif self.given is not None:
            v = 0.0
        elif gen is not None:
            v = float(gen(self.rng))
            self.exact = self.exact and (v * 1024) == int(v * 1024)
        else:
            v = self._gen(lo, hi)
        if grid:
            v = round(v, 8)
        self.inputs[name] = repr(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        return v

    def pos(self, name, **gen):
        gen.setdefault('lo', 0)
        v = self.real(name, **gen)
        if v <= 0:
            raise Skip()
        return v

    def choice(self, name, options):
        if self.given is not None:
            k = int(self.given.get(name) or 0)
            if not 0 <= k < len(options):
                raise Skip()
        else:
            k = self.rng.randrange(len(options))
        self.inputs[name] = k
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def coord(self, name, **gen):
        return self.real(name, grid=True, **gen)

    def size(self, name, lo, hi, big=None):
        if self.given is not None:
            k = int(self.given.get(name) or lo)
        else:
            r = self.rng
            top = hi if big is None else big
            k = r.randint(lo, hi) if r.random() < 0.6 else r.randint(lo, max(hi, min(top, 12)))
            if r.random() < 0.1:
                k = r.randint(lo, top)
            cs = [int(c) for c in self.fresh_consts if c == int(c) and lo <= c <= 600]
            if cs and r.random() < 0.3:
                k = max(lo, r.choice(cs) + r.choice([-1, 0, 1, 2]))
        self.inputs[name] = k
        return k

    def plan(self, name, n, gen):
        pts = gen(self.rng, n) if self.given is None else [(0, 0)] * n
        return [self.clearly((self.real('%s%d.x' % (name, i), grid=True, gen=lambda r: pts[i][0]),
                              self.real('%s%d.y' % (name, i), grid=True, gen=lambda r: pts[i][1]))) for i in range(n)]

    def clearly(self, xy):
        """a point of the input of a contract whose points coincide or are clearly apart"""
        if self.apart is not None:
            for q in self.apart:
                if 0 < max(abs(xy[0] - q[0]), abs(xy[1] - q[1])) < 1e-4:
                    raise Skip()
            self.apart.append(xy)
        return xy

    def perm(self, name, n):
        if self.given is not None:
            k = list(self.given.get(name) or range(n))
            if sorted(k) != list(range(n)):
                raise Skip()
        else:
            k = list(range(n))
            self.rng.shuffle(k)
        self.inputs[name] = k
        return tuple(k)

    def point(self, name, cls=None, **gen):
        return (cls or self.P.Point)(self.clearly((self.coord(name + '.x', **gen), self.coord(name + '.y', **gen))))

    def ongrid(self, v):
        if abs(round(v, 8) - v) > 1e-12 * (1 + abs(v)):
            raise Skip()
        return round(v, 8)

    def points(self, name, n, **gen):
        return [self.point('%s%d' % (name, i), **gen) for i in range(n)]

    def segment(self, name, cls=None, **gen):
        return (cls or self.L.LineSegment)(self.point(name + '.i', **gen), self.point(name + '.j', **gen))

    # ---- logic
    def assume(self, c):
        if not c:
            raise Skip()

    def prove(self, name, c):
        if isinstance(c, (list, tuple)):
            for i, x in enumerate(c):
                self.prove('%s.%d' % (name, i), x)
            return
        if c:
            self.proved += 1
        else:
            self.fails.append(name)

    # sequences of unknown length: ordinary lists here
    def count(self, name, lo=0, hi=12, big=40):
        return self.size(name, lo, hi, big)

    def coords(self, name, n, gen):
        n = int(n)
        if self.given is not None:
            v = [(self.real('%s%d.x' % (name, i), grid=True), self.real('%s%d.y' % (name, i), grid=True)) for i in range(n)]
        else:
            v = self.plan(name, n, gen)
        return lambda i: v[i]

    def reals(self, name, n, gen=None, grid=False):
        v = [self.real('%s%d' % (name, i), grid=grid, gen=gen) for i in range(int(n))]
        return lambda i: v[i]

    def lazy(self, n, make):
        return [make(i) for i in range(int(n))]

    def identical(self, a, b):
        return a is b

    def seq(self, x):
        return list(x)

    def length(self, x):
        return len(x)

    def item(self, x, k):
        return x[k]

    def member(self, x, seq):
        return any(y is x for y in seq)

    def inside(self, x, seq):
        return x in seq

    def each(self, seq, f):
        for x in seq:
            f(x)

    def ix(self, k):
        return int(k)

    def all(self, n, f):
        return Quant(True, n, f)

    def exists(self, n, f):
        return Quant(False, n, f)

    def neg(self, s):
        return not self._quant(s)

    def either(self, *specs):
        return any(self._quant(s) for s in specs)

    def both(self, *specs):
        return all(self._quant(s) for s in specs)

    def wrap(self, i, n):
        return (i + 1) % n

    def distinct(self, i, j):
        return i != j

    def _quant(self, s):
        if isinstance(s, Quant):
            r = (self._quant(s.f(i)) for i in range(int(s.n)))
            return all(r) if s.univ else any(r)
        return bool(s)

    def claim(self, name, r, spec):
        self.prove(name, bool(r) == self._quant(spec))

    def holds(self, name, spec, near=False):
        self.prove(name, self._quant(spec))

    def index(self, n, base='i'):
        """every index is tried by the contract's caller: here one at random"""
        if n < 1:
            raise Skip()
        k = (self.rng or random).randrange(int(n))
        return k

    def mark(self, *ks):
        pass

    def known(self, *ks):
        pass

    def know_all(self, n, f):
        if not all(f(i) for i in range(int(n))):
            raise Skip()

    def total(self, n, f):
        return sum(f(i) for i in range(int(n)))

    def lemma(self, name, hyps, goal):
        pass

    def check_input(self, *cs):
        for c in cs:
            if not c:
                raise Skip()

    def decided(self, *vals, **k):
        scale = k.get('scale', 1)
        for v in vals:
            if v == 0:
                if not self.exact:
                    raise Skip()
            elif abs(v) < 1e-7 * max(1, scale):
                raise Skip()

    def And(self, *a):
        return all(bool(x) for x in _flat(a))

    def Or(self, *a):
        return any(bool(x) for x in _flat(a))

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b, tol=None):
        if num(a) and num(b):
            if a == b:
                return True
            return abs(a - b) <= (1e-9 if tol is None else tol) * (1 + abs(a) + abs(b))
        return a == b

    def near(self, a, b, tol):
        return abs(a - b) <= tol + 1e-10 * (1 + abs(a) + abs(b))

    def le(self, a, b):
        return a <= b + 1e-9 * (1 + abs(a) + abs(b))

    def lt(self, a, b):
        return a < b + 1e-9 * (1 + abs(a) + abs(b))

    def xmin(self, *a):
        return min(a)

    def xmax(self, *a):
        return max(a)

    def ite(self, c, a, b):
        return a if c else b

    def num(self, v):
        return Fraction(repr(v)) if isinstance(v, float) else v

    def x(self, v):
        return Fraction(v)

    def raises(self, fn, *excs):
        try:
            return False, fn()
        except excs or (Exception,):
            return True, None

    def cosd(self, deg):
        import math
        return math.cos(math.radians(float(deg)))

    def sind(self, deg):
        import math
        return math.sin(math.radians(float(deg)))

    def sqrt(self, x):
        import math
        return math.sqrt(float(x))

    @property
    def math(self):
        import math
        return math

    def define(self, value):
        return value

    def end_use(self, *a):
        pass

    def use(self, *a):
        return False


def _flat(a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return list(a[0])
    if len(a) == 1 and not isinstance(a[0], (bool,)) and hasattr(a[0], '__iter__'):
        return list(a[0])
    return a


try:
    BASE = set(json.load(open(os.path.join(VERIF, 'vc', 'baseline_consts.json'))))
except Exception:
    BASE = set()


def constants():
    """numeric literals of the repository's current source; those that are not in
    the recorded baseline come several times (they are where a change happened)"""
    base = BASE
    out = []
    for d in ('geometry', 'SR_Vessel'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.py'):
                try:
                    t = ast.parse(io.open(os.path.join(p, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    v = getattr(n, 'value', getattr(n, 'n', None))
                    if isinstance(n, (ast.Constant,)) and num(v) and abs(v) < 1e12:
                        out.append(v)
    fresh = [v for v in out if repr(float(v)) not in base]
    small = [v for v in out if abs(v) <= 1e6]
    return sorted(set(float(v) for v in small)) + [float(v) for v in fresh] * 20


def run_one(fn, h):
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        fn(h)
    except Skip:
        return 'skip'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = tb[-1]
        h.fails.append('no-exception')
        h.note = '%s: %s at %s:%s (%s)' % (type(e).__name__, str(e)[:300], where[0], where[1], where[2])
    finally:
        sys.stdout = out
    return 'fail' if h.fails else 'ok'


def job(j):
    mod, name = j['contract'].split(':')
    fn = getattr(importlib.import_module('contracts.' + mod), name)
    import signal
    res = {'id': j.get('id'), 'evals': 0, 'ok': 0, 'skip': 0, 'fails': [], 'samples': [], 'distinct': 0}

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    hard = int(j.get('secs', 10)) + 20
    signal.alarm(hard)
    t0 = time.time()
    try:
        if 'inputs' in j:
            h = ConcHarness(None, given=j['inputs'], case=j.get('case'))
            random.seed(1)
            r = run_one(fn, h)
            res['evals'] = 1
            res['result'] = r
            if r == 'fail':
                res['fails'].append({'names': h.fails, 'inputs': h.inputs, 'case': j.get('case'),
                                     'note': getattr(h, 'note', None)})
        else:
            consts = constants()
            seed = j.get('seed', 1)
            seen = set()
            cases = j.get('cases') or [None]
            i = 0
            known = set(j.get('known', []))
            while i < j.get('n', 200) and time.time() - t0 < j.get('secs', 10):
                i += 1
                rng = random.Random('%s/%s/%s' % (seed, j['contract'], i))
                random.seed(rng.random())
                h = ConcHarness(rng, case=cases[rng.randrange(len(cases))], consts=consts)
                r = run_one(fn, h)
                res['evals'] += 1
                if r == 'skip':
                    res['skip'] += 1
                    continue
                key = json.dumps(h.inputs, sort_keys=True) + str(h.case)
                if h.proved or h.fails:
                    seen.add(key)
                if r == 'ok':
                    res['ok'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append({'inputs': h.inputs, 'case': h.case})
                else:
                    res['fails'].append({'names': h.fails, 'inputs': h.inputs, 'case': h.case,
                                         'note': getattr(h, 'note', None), 'iteration': i})
                    if len(res['fails']) >= j.get('maxfails', 3):
                        break
            res['distinct'] = len(seen)
    except Timeout:
        res['timeout'] = True
    finally:
        signal.alarm(0)
    res['secs'] = time.time() - t0
    return res


def main():
    jobs = json.load(sys.stdin)
    real = sys.stdout
    for j in jobs:
        sys.stdout = io.StringIO()
        try:
            r = job(j)
        except BaseException as e:
            r = {'id': j.get('id'), 'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())}
        sys.stdout = real
        real.write(json.dumps(r, default=str) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
