from .reg import contract
from .specs import EQ, HALF, xy, peq, same, apart

PT = 'geometry/SR_point.py:'


@contract('G01', 'Point construction rounds to the 8-decimal grid',
          [PT + 'Point.__init__', PT + 'Point._set_coords', PT + 'Point.x', PT + 'Point.y', PT + 'Point.xy',
           PT + 'Point.isvalid', PT + 'Point.bounding_box'], reach=['x', 'again'])
def construct(h):
    x, y = h.real('x'), h.real('y')
    cls = h.choice('cls', ['Point', 'IntexPoint'])
    p = getattr(h.P, cls)((x, y))
    h.prove('x', h.near(p.x, x, HALF))
    h.prove('y', h.near(p.y, y, HALF))
    h.prove('valid', p.isvalid)
    h.prove('xy', h.And(p.xy[0] == p.x, p.xy[1] == p.y, len(p.xy) == 2))
    r = getattr(h.P, cls)(p.xy)
    h.prove('again', h.And(r.x == p.x, r.y == p.y))
    h.prove('equal', h.And(r == p, p == r))
    h.prove('hash', hash(r) == hash(p))
    b = p.bounding_box()
    h.prove('bb', h.And(b[0][0] == p.x, b[0][1] == p.x, b[1][0] == p.y, b[1][1] == p.y))
    lst = h.P.Point([x, y])
    h.prove('list', h.And(lst.x == p.x, lst.y == p.y))


@contract('G01', 'point equality is coordinate-wise within 1e-5',
          [PT + 'Point.__eq__', PT + 'Point.__ne__'], reach=['eq'])
def equality(h):
    p, q = h.point('p'), h.point('q')
    (a, b), (c, d) = xy(h, p), xy(h, q)
    t = h.num(EQ)
    h.decided(a - c - t, c - a - t, b - d - t, d - b - t)
    h.prove('eq', h.Iff(p == q, peq(h, p, q)))
    h.prove('ne', h.Iff(p != q, h.Not(peq(h, p, q))))
    h.prove('sym', h.Iff(p == q, q == p))
    h.prove('refl', h.And(p == p, h.Not(p != p)))


@contract('G01', 'a plain point and a tagged point never compare equal', [PT + 'Point.__eq__'])
def equality_class(h):
    x, y = h.coord('x'), h.coord('y')
    p, q = h.P.Point((x, y)), h.P.IntexPoint((x, y))
    h.prove('differ', h.And(h.Not(p == q), h.Not(q == p), p != q))
    h.prove('tagged', q == h.P.IntexPoint((x, y), segment='s'))


@contract('G01', 'sum and difference are coordinate-wise and leave the operands alone',
          [PT + 'Point.__add__', PT + 'Point.__sub__'])
def arithmetic(h):
    p, q = h.point('p'), h.point('q')
    (a, b), (c, d) = xy(h, p), xy(h, q)
    s, m = p + q, p - q
    h.prove('sum', h.And(h.near(s.x, a + c, HALF), h.near(s.y, b + d, HALF)))
    h.prove('dif', h.And(h.near(m.x, a - c, HALF), h.near(m.y, b - d, HALF)))
    h.prove('frame', h.And(p.x == a, p.y == b, q.x == c, q.y == d))
    h.prove('fresh', s is not p and s is not q and m is not p and m is not q)


@contract(['G01', 'G03'], 'distance is the Euclidean distance', [PT + 'distance', PT + 'Point.distance'])
def euclid(h):
    p, q = h.point('p'), h.point('q')
    (a, b), (c, d) = xy(h, p), xy(h, q)
    v = h.P.distance(p, q)
    h.prove('nonneg', v >= 0)
    h.prove('square', h.eq(v * v, (a - c) * (a - c) + (b - d) * (b - d)))
    h.prove('symmetric', h.eq(v, h.P.distance(q, p)))
    h.prove('method', h.eq(v, p.distance(q)))
    h.prove('zero', h.Iff(v == 0, h.And(a == c, b == d)))


@contract('G01', 'identical coordinates give identical hashes, membership in sets follows',
          [PT + 'Point.__hash__'])
def hashing(h):
    x, y = h.coord('x'), h.coord('y')
    p, q = h.P.Point((x, y)), h.P.Point((x, y))
    h.prove('hash', hash(p) == hash(q))
    h.prove('set', len({p, q}) == 1)
    r = h.point('r')
    h.assume(apart(h, p, r))
    h.prove('apart', len({p, r, q}) == 2)


# ------------------------------------------------------------------ G02
@contract('G02', 'which argument makes a valid point',
          [PT + 'Point.isvalid', PT + 'Point.__eq__', PT + 'Point._isempty', PT + 'Point.__str__'])
def validity(h):
    x, y = h.real('x'), h.real('y')
    args, ok = h.choice('args', [
        (lambda: (), None), (lambda: ((None, None),), False), (lambda: ((x, None),), False),
        (lambda: ((None, y),), False), (lambda: ((x, y),), True), (lambda: ([x, y],), True),
        (lambda: ((x, [y]),), False), (lambda: (((x,), y),), False), (lambda: ((3, 4),), True)])
    p = h.P.Point(*args())
    ok = bool(ok)
    h.prove('valid', p.isvalid == ok)
    h.prove('eq', h.Iff(p == p, ok))
    q = h.P.Point((x, y))
    if not ok:
        h.prove('never', h.And(h.Not(p == q), h.Not(q == p), p != q, q != p))


@contract('G02', 'validity follows the current coordinates through every history',
          [PT + 'Point.isvalid', PT + 'Point._empty', PT + 'Point._set_coords', PT + 'Point._isempty',
           'geometry/SR_line.py:LineSegment.isvalid'], paths=20000)
def validity_history(h):
    p = h.P.Point() if h.bool('start empty') else h.P.Point((h.real('x0'), h.real('y0')))
    s = h.L.LineSegment(p, h.P.Point((1, 2)))
    looked = h.choice('look', [0, 1, 2])
    for k in range(2):
        if looked == 1:
            p.isvalid
        if looked == 2:
            s.isvalid
        op = h.choice('op%d' % k, ['empty', 'set', 'none', 'setnone'])
        if op == 'empty':
            p._empty()
        elif op == 'set':
            p._set_coords(coords=(h.real('x%d' % (k + 1)), h.real('y%d' % (k + 1))))
        elif op == 'setnone':
            p._set_coords(coords=(None, None))
        ok = p._coords != (None, None)
        h.prove('empty', p._isempty() == (not ok))
        h.prove('valid', p.isvalid == ok)
        h.prove('segment', bool(s.isvalid) == ok)
        h.prove('self-equal', h.Iff(p == p, ok))


@contract('G02', 'operations refuse invalid points', [PT + 'distance'])
def refuse(h):
    q = h.point('q')
    bad = h.choice('bad', [lambda: h.P.Point(), lambda: h.P.Point((None, 1))])()
    a, b = h.choice('order', [(bad, q), (q, bad)])
    h.prove('distance', h.raises(lambda: h.P.distance(a, b), AssertionError)[0])
    l = h.L.LineSegment(h.P.Point((0, 0)), h.P.Point((1, 1)))
    f = h.choice('f', ['is_internal_point', 'is_point_on_line', 'is_point_to_right', 'is_point_to_left',
                       'line_point_distance', 'angle_from_start_point'])
    h.prove('segment', h.raises(lambda: getattr(l, f)(bad), AssertionError)[0])
