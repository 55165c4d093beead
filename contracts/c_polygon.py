"""contracts of geometry/SR_polygon.py"""
from .reg import contract
from .specs import (EPS, EQ, HALF, xy, peq, same, sep, apart, cross3, vec, cross, dot, sq, inbox, share)
from . import gens

PL = 'geometry/SR_polygon.py:PolygonLine.'
PM = 'geometry/SR_polygon.py:'


def pts_of(h, xys):
    return [h.P.Point(c) for c in xys]


def chain(h, pts, shared=True, cls=None, closed=False):
    """segments along the points; shared: consecutive segments share the point object"""
    S = cls or h.L.LineSegment
    P = h.P.Point
    q = list(pts) + ([pts[0]] if closed else [])
    out = []
    for a, b in zip(q, q[1:]):
        out.append(S(a, b) if shared else S(P(a.xy), P(b.xy)))
    return out


def ends(poly):
    return [e for s in poly.segments for e in s.ij]


def snapshot(h, poly):
    return [xy(h, e) for e in ends(poly)]


# ------------------------------------------------------------------ G09 polygons
def sum_purge(h):
    """callee contract of purge (G10): coincident end points become one object"""
    def f(self):
        if self.purged:         # kept by transformations, reset by appending (G10, G11)
            return
        seen = []
        for s in self.segments:
            new = []
            for e in s.ij:
                for o in seen:
                    if o is e or same(h, o, e):
                        new.append(o)
                        break
                else:
                    seen.append(e)
                    new.append(e)
            s._set_endpoints(endpoints=tuple(new))
        self.purged = True
    return f


def sum_point_set(h):
    """callee contract of point_set after a purge: every vertex object once, in some order"""
    def f(self):
        seen = []
        for s in self.segments:
            for e in s.ij:
                if not any(o is e for o in seen):
                    seen.append(e)
        return seen
    return f


SHAPES = ('shared', 'copies', 'closed', 'closed copies', 'star')


def make_poly(h, n, kinds=SHAPES):
    k = h.choice('shape', list(kinds))
    closed = k.startswith('closed')
    pts = pts_of(h, h.plan('p', n if closed else n + 1, gens.distinct))
    h.assume(sep(h, *pts))
    for a, b in zip(pts, pts[1:] + (pts[:1] if closed else [])):
        h.assume(h.Not(same(h, a, b)))
    if k == 'star':
        for p in pts[1:]:
            h.assume(h.Not(same(h, pts[0], p)))
    cls = h.choice('cls', [h.L.LineSegment, h.V.Wall])
    if k == 'star':         # all segments leave from one point (a branch)
        S, P = cls, h.P.Point
        segs = [S(P(pts[0].xy), p) for p in pts[1:]]
    else:
        segs = chain(h, pts, shared='copies' not in k, cls=cls, closed=closed)
    return h.G.PolygonLine(segs)


def transformed(h, poly, before, f, tol, name='moved', segs=None):
    if segs is not None:
        h.prove('segments', len(segs) == len(poly.segments) and all(a is b for a, b in zip(segs, poly.segments)))
    ok = []
    for (a, b), e in zip(before, ends(poly)):
        x, y = f(a, b)
        ok.append(h.near(h.x(e.x), x, tol))
        ok.append(h.near(h.x(e.y), y, tol))
    h.prove(name, h.And(ok))


def use_transform_callees(h):
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))


def joined(h, poly, before):
    """end points that coincided still do, exactly (same object)"""
    e = ends(poly)
    ok = []
    for i in range(len(e)):
        for j in range(i + 1, len(e)):
            if before[i] == before[j]:
                ok.append(e[i] is e[j])
    h.prove('joined', h.And(ok))


@contract('G09', 'moving a polyline moves every vertex exactly once', [PL + 'move'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['moved', 'joined'])
def move(h):
    n = h.size('n', 1, 3, 60)
    poly = make_poly(h, n)
    use_transform_callees(h)
    before = snapshot(h, poly)
    segs = list(poly.segments)
    x0, y0 = h.coord('x0'), h.coord('y0')
    poly.move(x0=x0, y0=y0)
    v, w = h.x(x0), h.x(y0)
    transformed(h, poly, before, lambda a, b: (a + v, b + w), HALF, segs=segs)
    joined(h, poly, before)


@contract('G09', 'mirroring a polyline mirrors every vertex exactly once', [PL + 'mirror_vertical'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['mirrored', 'joined'])
def mirror(h):
    n = h.size('n', 1, 3, 60)
    poly = make_poly(h, n)
    use_transform_callees(h)
    before = snapshot(h, poly)
    x0 = h.coord('x0')
    segs = list(poly.segments)
    poly.mirror_vertical(x0=x0)
    w = h.x(x0)
    transformed(h, poly, before, lambda a, b: (2 * w - a, b), HALF, 'mirrored', segs)
    joined(h, poly, before)


def rot(h, phi, cx=0, cy=0):
    c, s = h.x(h.cosd(phi)), h.x(h.sind(phi))
    return lambda a, b: (cx + (a - cx) * c - (b - cy) * s, cy + (a - cx) * s + (b - cy) * c)


def angle_in(h):
    return h.real('phi', lo=-720, hi=720, gen=lambda r: r.choice([90, 180, -90, 45, 30, 360, 0, 7.5, r.randint(-720, 720)]))


@contract('G09', 'rotating a polyline about the origin rotates every vertex exactly once', [PL + 'rotate_about_origin'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['rotated', 'joined'])
def rotate(h):
    n = h.size('n', 1, 3, 60)
    poly = make_poly(h, n)
    use_transform_callees(h)
    before = snapshot(h, poly)
    phi = angle_in(h)
    segs = list(poly.segments)
    poly.rotate_about_origin(phi=phi)
    transformed(h, poly, before, rot(h, phi), 2 * HALF if h.symbolic else 1e-7, 'rotated', segs)
    joined(h, poly, before)


@contract('G09', 'rotating a polyline about a point', [PL + 'rotate_about_xy', PL + 'rotate_about_origin', PL + 'move'],
          bounded='up to 2 segments', cases=[1, 2], reach=['rotated', 'joined'])
def rotate_xy(h):
    n = h.size('n', 1, 2, 60)
    poly = make_poly(h, n)
    use_transform_callees(h)
    before = snapshot(h, poly)
    phi = angle_in(h)
    x0, y0 = h.coord('x0'), h.coord('y0')
    segs = list(poly.segments)
    poly.rotate_about_xy(x0=x0, y0=y0, phi=phi)
    transformed(h, poly, before, rot(h, phi, h.x(x0), h.x(y0)), 6 * HALF if h.symbolic else 1e-7, 'rotated', segs)
    joined(h, poly, before)


# ------------------------------------------------------------------ G10 purge
@contract('G10', 'purging merges coincident vertices into one object and changes no coordinate',
          [PL + 'purge', PL + 'point_set', PL + 'all_points'], bounded='up to 3 segments',
          cases=[1, 2] + [dict(n=3, shape=k) for k in SHAPES],
          reach=['merged', 'coordinates'], secs=100)
def purge(h):
    n = h.size('n', 1, 3, 30)
    poly = make_poly(h, n)
    before = snapshot(h, poly)
    segs = list(poly.segments)
    cl = [s.__class__ for s in segs]
    poly.purge()
    e = ends(poly)
    h.prove('segments', len(segs) == len(poly.segments) and all(a is b for a, b in zip(segs, poly.segments)) and
            all(s.__class__ is c for s, c in zip(poly.segments, cl)))
    h.prove('coordinates', h.And([h.And(h.eq(xy(h, p)[0], b[0]), h.eq(xy(h, p)[1], b[1])) for p, b in zip(e, before)]))
    joined(h, poly, before)
    ok = []
    for i in range(len(e)):
        for j in range(i + 1, len(e)):
            ok.append(h.Iff(h.And(before[i][0] == before[j][0], before[i][1] == before[j][1]), e[i] is e[j]))
    h.prove('merged', h.And(ok))
    poly.purge()
    h.prove('idempotent', all(a is b for a, b in zip(e, ends(poly))))


@contract('G10', 'the vertex list has every vertex once, sorted; midpoint is its average',
          [PL + 'point_set', PL + 'all_points', PL + 'midpoint'], bounded='up to 3 segments',
          cases=[1, 2] + [dict(n=3, shape=k) for k in SHAPES], reach=['sorted', 'once', 'midpoint'])
def vertices(h):
    n = h.size('n', 1, 3, 30)
    poly = make_poly(h, n)
    e = ends(poly)
    if h.bool('all'):
        ap = poly.all_points
        h.prove('all', len(ap) == len(e) and all(any(a is b for b in ap) for a in e))
    else:
        ap = poly.point_set
        h.prove('every', h.And([h.Or([same(h, a, b) for b in ap]) for a in e]))
        h.prove('from', all(any(a is b for b in e) for a in ap))
        h.prove('once', h.And([h.Not(same(h, a, b)) for i, a in enumerate(ap) for b in ap[:i]]))
        m = poly.midpoint
        k = len(ap)
        h.prove('midpoint', h.And(h.near(h.x(m.x), sum(xy(h, p)[0] for p in ap) / k, 2 * HALF),
                                  h.near(h.x(m.y), sum(xy(h, p)[1] for p in ap) / k, 2 * HALF)))
    h.prove('sorted', h.And([h.Or(a.x < b.x, h.And(a.x == b.x, a.y <= b.y)) for a, b in zip(ap, ap[1:])]))


# ------------------------------------------------------------------ polygon equality
@contract('G23', 'polylines are equal if their segments are, one by one and in order; equal ones hash alike',
          [PL + '__eq__', PL + '__ne__', PL + '__hash__'], bounded='up to 3 segments', cases=[1, 2, 3], reach=['eq', 'hash'])
def poly_eq(h):
    n = h.size('n', 1, 3, 30)
    a = pts_of(h, h.plan('p', n + 1, gens.distinct))
    P = h.P.Point
    k = h.choice('other', ['copy', 'one moved', 'reversed order', 'longer', 'class', 'one reversed'])
    s = chain(h, a)
    b = [P(x.xy) for x in a]
    t = chain(h, b)
    i = h.choice('i', list(range(n + 1))) if k == 'one moved' and h.symbolic else (h.size('i', 0, n) if k == 'one moved' else 0)
    if k == 'one moved':
        if i > n:
            return
        b[i] = h.point('q')
        t = chain(h, b)
    elif k == 'reversed order':
        t = t[::-1]
    elif k == 'longer':
        t = t + [h.L.LineSegment(P(a[-1].xy), h.point('q'))]
    elif k == 'one reversed':
        t[-1] = t[-1].line_reversed
    pts = a + [e for x in t for e in x.ij]
    h.assume(sep(h, *pts))
    A = h.G.PolygonLine(s)
    B = h.V.Hauptteil('x', t) if k == 'class' else h.G.PolygonLine(t)
    if k == 'class':
        h.prove('class', h.And(h.Not(A == B), A != B))
        return
    want = h.And(len(s) == len(t), h.And([h.And(same(h, x.i, y.i), same(h, x.j, y.j)) for x, y in zip(s, t)]))
    h.prove('eq', h.Iff(A == B, want))
    h.prove('ne', h.Iff(A != B, h.Not(want)))
    h.prove('sym', h.Iff(B == A, want))
    if want:
        h.prove('hash', hash(A) == hash(B))


@contract('G23', 'loose equality ignores order and orientation of the segments',
          [PL + 'loose_equal'], bounded='up to 2 segments', cases=[1] + [{'n': 2, 'flip0': a, 'flip1': b, 'change': c}
                                                                        for a in (0, 1) for b in (0, 1) for c in (0, 1)],
          reach=['shuffled', 'exact'])
def poly_loose(h):
    n = h.size('n', 1, 3, 12)
    a = pts_of(h, h.plan('p', n + 1, gens.distinct))
    P = h.P.Point
    s = chain(h, a)
    pm = h.perm('perm', n)
    t = chain(h, [P(x.xy) for x in a])
    t = [t[k] for k in pm]
    for k in range(n):
        if h.bool('flip%d' % k):
            t[k] = t[k].line_reversed
    for x, y in zip(a, a[1:]):
        h.assume(h.Not(same(h, x, y)))
    if h.bool('change'):
        q = h.point('q')
        t[0] = h.L.LineSegment(t[0].i, q)
        h.assume(sep(h, q, *a))
        A, B = h.G.PolygonLine(s), h.G.PolygonLine(t)
        h.assume(sep(h, *a))
        loose = lambda x, y: h.Or(h.And(same(h, x.i, y.i), same(h, x.j, y.j)), h.And(same(h, x.i, y.j), same(h, x.j, y.i)))
        want = h.And([h.Or([loose(x, y) for y in t]) for x in s])
        h.prove('exact', h.Iff(A.loose_equal(B), want))
        return
    h.assume(sep(h, *a))
    A, B = h.G.PolygonLine(s), h.G.PolygonLine(t)
    h.prove('shuffled', h.And(A.loose_equal(B), B.loose_equal(A)))
    C = h.G.PolygonLine(s + [h.L.LineSegment(P(a[0].xy), P(a[1].xy))])
    h.prove('count', h.And(h.Not(A.loose_equal(C)), h.Not(C.loose_equal(A))))


@contract('G23', 'loose subset: every end point of the other is an end point',
          [PL + 'loose_subset'], bounded='up to 2 segments each', cases=[1, 2], reach=['subset'])
def poly_subset(h):
    n = h.size('n', 1, 2, 12)
    a = pts_of(h, h.plan('p', n + 1, gens.distinct))
    m = h.size('m', 1, 2, 12) if not h.symbolic else n
    b = []
    for k in range(m + 1):
        if not h.symbolic and h.bool('own%d' % k):
            b.append(h.P.Point(a[k % (n + 1)].xy))
        else:
            b.append(h.point('q%d' % k))
    h.assume(sep(h, *(a + b)))
    A, B = h.G.PolygonLine(chain(h, a)), h.G.PolygonLine(chain(h, b))
    h.prove('subset', h.Iff(A.loose_subset(B), h.And([h.Or([same(h, x, y) for y in a]) for x in b])))


# ------------------------------------------------------------------ G11
def sum_continuous(h):
    """callee contract of LineSegment.continuous (G06)"""
    def f(self, other):
        assert other.isvalid
        return h.Or(same(h, self.j, other.i), same(h, self.i, other.j))
    return f


@contract('G11', 'continuity, closedness, end points', [PL + 'iscontinuous', PL + 'discontinuity', PL + 'isclosed', PL + 'isopen',
                                                        PL + 'first_point', PL + 'last_point', PL + 'first_segment',
                                                        PL + 'last_segment'], bounded='up to 3 segments',
          cases=[1, 2, 3], reach=['continuous', 'closed', 'breaks'])
def continuity(h):
    n = h.size('n', 1, 3, 40)
    P = h.P.Point
    if h.symbolic:
        segs = [h.segment('s%d' % k) for k in range(n)]
    else:
        a = pts_of(h, h.plan('p', n + 1, gens.distinct))
        segs = chain(h, a, shared=h.bool('shared'))
        if n > 1 and h.bool('break'):
            k = h.size('where', 0, n - 1, n - 1) % n
            segs[k] = segs[k].line_reversed if h.bool('rev') else h.segment('s')
        if h.bool('close'):
            segs.append(h.L.LineSegment(segs[-1].j, segs[0].i))
    pts = [e for s in segs for e in s.ij]
    h.assume(sep(h, *pts))
    for s in segs:
        h.assume(h.Not(same(h, s.i, s.j)))
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    p = h.G.PolygonLine(segs)
    links = [same(h, s.j, t.i) for s, t in zip(segs, segs[1:])]
    h.prove('ends', p.first_point is segs[0].i and p.last_point is segs[-1].j and p.first_segment is segs[0] and
            p.last_segment is segs[-1])
    cont = h.And(links) if links else True
    h.prove('continuous', h.Iff(p.iscontinuous, cont))
    closed = h.And(cont, same(h, segs[0].i, segs[-1].j))
    h.prove('closed', h.Iff(p.isclosed, closed))
    h.prove('open', h.Iff(p.isopen, h.Not(closed)))
    d = p.discontinuity
    h.prove('breaks', h.And([h.Iff(any(t is x for x in d), h.Not(l)) for t, l in zip(segs[1:], links)]))


@contract('G11', 'closing adds exactly the missing segment', [PL + 'close', PL + 'closed_copy'], bounded='up to 3 segments',
          cases=[1, 2, 3], reach=['open', 'already closed', 'copy'])
def closing(h):
    n = h.size('n', 1, 3, 40)
    a = pts_of(h, h.plan('p', n + 1, gens.distinct))
    back = n > 1 and h.bool('closed')
    if back:
        a[-1] = h.P.Point(a[0].xy)
    h.assume(sep(h, *a))
    for x, y in zip(a, a[1:]):
        h.assume(h.Not(same(h, x, y)))
    segs = chain(h, a)
    p = h.G.PolygonLine(list(segs))
    c = p.closed_copy()
    h.prove('copy', h.And(len(p.segments) == n, c.isclosed, h.Not(c is p),
                          all(s is t for s, t in zip(p.segments, segs)),
                          not any(s is t for s in c.segments for t in segs)))
    h.prove('copy values', h.And([h.And(same(h, s.i, t.i), same(h, s.j, t.j)) for s, t in zip(c.segments, segs)]))
    p.close()
    h.prove('kept', all(s is t for s, t in zip(p.segments, segs)))
    if same(h, a[0], a[-1]):
        h.prove('already closed', h.And(len(p.segments) == n, len(c.segments) == n))
    else:
        h.prove('open', h.And(len(p.segments) == n + 1, len(c.segments) == n + 1, p.segments[-1].i is a[-1],
                              p.segments[-1].j is a[0], p.isclosed))
    k = len(p.segments)
    p.close()
    h.prove('twice', len(p.segments) == k)


@contract('G11', 'appending a point extends the chain and keeps it purged',
          [PL + 'append_point_at_end', PL + 'append_point_at_beginning', PL + 'purge'], bounded='up to 2 segments',
          cases=[1] + [{'n': 2, 'purge first': a, 'end': b} for a in (0, 1) for b in (0, 1)],
          reach=['extended', 'continuous', 'purged'])
def appending(h):
    n = h.size('n', 1, 2, 30)
    a = pts_of(h, h.plan('p', n + 1, gens.distinct))
    q = h.P.Point(a[h.size('dup', 0, n) % (n + 1)].xy) if not h.symbolic and h.bool('again') else h.point('q')
    h.assume(sep(h, q, *a))
    for x, y in zip(a, a[1:]):
        h.assume(h.Not(same(h, x, y)))
    segs = chain(h, a)
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    p = h.G.PolygonLine(list(segs))
    first = h.bool('purge first')
    if first:
        p.purge()
    if h.bool('end'):
        h.assume(h.Not(same(h, q, a[-1])))
        p.append_point_at_end(q)
        h.prove('extended', h.And(len(p.segments) == n + 1, same(h, p.last_point, q), p.segments[-1].i is p.segments[-2].j,
                                  all(s is t for s, t in zip(p.segments, segs))))
    else:
        h.assume(h.Not(same(h, q, a[0])))
        p.append_point_at_beginning(q)
        h.prove('extended', h.And(len(p.segments) == n + 1, same(h, p.first_point, q), p.segments[0].j is p.segments[1].i,
                                  all(s is t for s, t in zip(p.segments[1:], segs))))
    h.prove('continuous', p.iscontinuous)
    p.purge()
    e = ends(p)
    h.prove('purged', h.And([h.Iff(same(h, x, y), x is y) for i, x in enumerate(e) for y in e[:i]]))
    h.prove('refused', h.And(h.raises(lambda: p.append_point_at_end(h.P.Point()), AssertionError)[0],
                             h.raises(lambda: p.append_point_at_beginning(h.P.Point()), AssertionError)[0]))


# ------------------------------------------------------------------ G12 ordering
def ring(h, n, gen=None):
    pts = pts_of(h, h.plan('p', n, gen or gens.distinct))
    return pts


def spread(h, pts):
    for i, p in enumerate(pts):
        for q in pts[:i]:
            h.assume(apart(h, p, q))


def d2(h, p):
    x, y = xy(h, p)
    return x * x + y * y


def shuffled(h, pts, closed=True):
    """the segments of the chain, shuffled and partly reversed; every end its own object"""
    P = h.P.Point
    n = len(pts) if closed else len(pts) - 1
    segs = []
    pm = h.perm('perm', n)
    for k in pm:
        a, b = P(pts[k].xy), P(pts[(k + 1) % len(pts)].xy)
        segs.append(h.L.LineSegment(b, a) if h.bool('flip%d' % k) else h.L.LineSegment(a, b))
    return segs


def perms(n):
    import itertools
    return [list(p) for p in itertools.permutations(range(n))]


@contract('G12', 'ordering a shuffled ring succeeds: same segments, continuous, closed, starting nearest to the origin',
          [PL + 'order'], bounded='rings of 3 and 4 segments (every order and orientation of the segments; every order of the '
          'distances for 3 segments and for unshuffled ones)',
          cases=[dict(n=3, mode=0, perm=[0] + p) for p in ([1, 2], [2, 1])] +
                [dict(n=4, mode=1, perm=p) for p in perms(4)[::3]] + [dict(n=4, mode=2, perm=[0, 1, 2, 3])] +
                [dict(n=4, mode=1, perm=p) for p in perms(4)[1::3]],
          reach=['accepted', 'kept', 'chained', 'start'], secs=100, linear=True)
def order_ring(h):
    n = h.size('n', 3, 4, 40)
    pts = ring(h, n)
    spread(h, pts)
    if not h.symbolic:
        d = sorted(d2(h, p) for p in pts)
        h.assume(all(b == a or b - a > 1e-6 for a, b in zip(d, d[1:])))
    mode = h.choice('mode', ['all', 'ranked', 'unshuffled']) if h.symbolic else 'all'
    if mode == 'ranked':
        for a, b in zip(pts, pts[1:]):
            h.assume(d2(h, a) < d2(h, b))
    if mode == 'unshuffled':
        segs = chain(h, pts, closed=True)
    else:
        segs = shuffled(h, pts)
    p = h.G.PolygonLine(list(segs))
    own = [set_of(s) for s in segs]
    r = p.order()
    h.prove('accepted', r is True)
    out = p.segments
    h.prove('kept', len(out) == n and all(any(s is t for t in out) for s in segs) and
            all(set_of(s) == o for s, o in zip(segs, own)))
    h.prove('chained', h.And([same(h, a.j, b.i) for a, b in zip(out, out[1:] + out[:1])]))
    f = out[0].i
    h.prove('start', h.And([h.Or(d2(h, f) < d2(h, q), h.And(d2(h, f) == d2(h, q), h.Or(
        xy(h, f)[0] < xy(h, q)[0], h.And(xy(h, f)[0] == xy(h, q)[0], xy(h, f)[1] <= xy(h, q)[1])))) for q in pts]))


def set_of(s):
    return frozenset(id(e) for e in s.ij)


@contract('G12', 'the ordered copy is ordered, the polyline itself stays as it is', [PL + 'ordered_copy', PL + 'order'],
          bounded='rings and chains of up to 4 segments, ordering itself by its contract', cases=[1, 2, 3, 4],
          reach=['ordered', 'kept', 'copy'])
def ordered(h):
    n = h.size('n', 1, 4, 30)
    closed = n > 2 and (h.symbolic or h.bool('closed'))
    pts = ring(h, n if closed else n + 1)
    spread(h, pts)
    segs = shuffled(h, pts, closed) if not h.symbolic else chain(h, pts, shared=h.bool('shared'), closed=closed)
    p = h.G.PolygonLine(list(segs))
    before = snapshot(h, p)
    if h.symbolic:
        answer = h.bool('accepted')

        def order(self):
            if answer:          # the segments in another order, some of them turned round
                self._segments = [h.L.LineSegment(s.j, s.i) for s in reversed(self._segments)]
                return True
            return False
        h.use('geometry.SR_polygon:PolygonLine.order', order)
    c = p.ordered_copy()
    h.prove('copy', h.And(isinstance(c, h.G.PolygonLine), c is not p))
    if not isinstance(c, h.G.PolygonLine):
        return
    h.prove('kept', h.And(len(p.segments) == len(segs), all(s is t for s, t in zip(p.segments, segs)), snapshot(h, p) == before,
                          not any(a is b for a in ends(p) for b in ends(c)), not any(s is t for s in p.segments for t in c.segments)))
    if h.symbolic:
        want = [v for a, b in reversed(list(zip(before[::2], before[1::2]))) for v in (b, a)] if answer else before
    else:
        q = h.G.PolygonLine([h.L.LineSegment(h.P.Point(s.i.xy), h.P.Point(s.j.xy)) for s in segs])
        q.order()
        want = snapshot(h, q)
    h.prove('ordered', h.And([h.And(h.eq(a[0], b[0]), h.eq(a[1], b[1])) for a, b in zip(snapshot(h, c), want)] + [len(want) == len(snapshot(h, c))]))


@contract('G12', 'an open chain is refused', [PL + 'order'], bounded='chains of 2 and 3 segments',
          cases=[dict(n=2), dict(n=3)], reach=['refused'])
def order_chain(h):
    n = h.size('n', 2, 3, 40)
    pts = ring(h, n + 1)
    spread(h, pts)
    segs = shuffled(h, pts, closed=False)
    p = h.G.PolygonLine(list(segs))
    h.prove('refused', p.order() is False)
    h.prove('kept', len(p.segments) == n and all(a is b for a, b in zip(p.segments, segs)))


@contract('G12', 'segments that are not one ring are refused: ring with a tail, two rings',
          [PL + 'order'], bounded='triangle with a tail, two triangles', cases=[dict(kind=0), dict(kind=1)], reach=['refused'])
def order_other(h):
    kind = h.choice('kind', ['tail', 'two rings'])
    if kind == 'tail':
        pts = ring(h, 4)
        spread(h, pts)
        segs = chain(h, pts[:3], closed=True) + [h.L.LineSegment(pts[h.choice('at', [0, 1, 2])], pts[3])]
    else:
        pts = ring(h, 6)
        spread(h, pts)
        segs = chain(h, pts[:3], closed=True) + chain(h, pts[3:], closed=True)
    k = h.choice('first', list(range(len(segs))))
    segs = segs[k:] + segs[:k]
    if h.bool('flip'):
        segs[0] = segs[0].line_reversed
    p = h.G.PolygonLine(list(segs))
    h.prove('refused', p.order() is False)
    h.prove('kept', len(p.segments) == len(segs))


# ------------------------------------------------------------------ G13 bounding box
@contract('G13', 'the bounding box is the tight one', [PL + 'bounding_box'], bounded='up to 4 segments', cases=[1, 2, 3, 4],
          reach=['box'])
def bounding_box(h):
    n = h.size('n', 1, 4, 60)
    if h.symbolic:
        segs = [h.segment('s%d' % k) for k in range(n)]
    else:
        segs = chain(h, pts_of(h, h.plan('p', n + 1, gens.far)))
    p = h.G.PolygonLine(segs)
    b = p.bounding_box()
    e = [xy(h, q) for q in ends(p)]
    h.prove('box', h.And(h.eq(h.x(b[0][0]), h.xmin(*[x for x, y in e])), h.eq(h.x(b[0][1]), h.xmax(*[x for x, y in e])),
                         h.eq(h.x(b[1][0]), h.xmin(*[y for x, y in e])), h.eq(h.x(b[1][1]), h.xmax(*[y for x, y in e]))))
    h.prove('shape', len(b) == 2 and len(b[0]) == 2 and len(b[1]) == 2)


# ------------------------------------------------------------------ G14 convexity and orientation
def area2(h, pts):
    """twice the signed area of the closed polygon through the points"""
    t = 0
    for a, b in zip(pts, pts[1:] + pts[:1]):
        (ax, ay), (bx, by) = xy(h, a), xy(h, b)
        t = t + (ax * by - bx * ay)
    return t


def turns(h, pts):
    n = len(pts)
    return [cross3(h, pts[i], pts[(i + 1) % n], pts[(i + 2) % n]) for i in range(n)]


def simple(h, pts):
    """exact: no two edges of the closed polygon meet except neighbours in their vertex"""
    n = len(pts)
    q = [xy(h, p) for p in pts]

    def orient(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (v > 0) - (v < 0)

    def on(a, b, c):
        return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    for i in range(n):
        a, b = q[i], q[(i + 1) % n]
        c = q[(i + 2) % n]
        if orient(a, b, c) == 0 and on(a, b, c):
            return False
        if orient(a, b, c) == 0 and on(b, c, a):
            return False
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            c, d = q[j], q[(j + 1) % n]
            o = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
            if o[0] != o[1] and o[2] != o[3]:
                return False
            for k, (u, v, w) in zip(o, ((a, b, c), (a, b, d), (c, d, a), (c, d, b))):
                if k == 0 and on(u, v, w):
                    return False
    return True


def sum_valid(h):
    """precondition of the orientation functions: the polygon is valid (validity itself: G24)"""
    return lambda self: True


@contract('G14', 'a closed polygon is convex exactly if all its turns go one way; an invalid one is refused',
          [PL + 'isconvex', PL + 'cps'], bounded='3 to 5 segments', cases=[3, 4, 5], reach=['convex'])
def convex(h):
    n = h.size('n', 3, 5, 40)
    pts = ring(h, n, gens.poly)
    spread(h, pts)
    if not h.symbolic:
        h.assume(simple(h, pts))
    h.use('geometry.SR_polygon:PolygonLine.isvalid', sum_valid(h))
    p = h.G.PolygonLine(chain(h, pts, closed=True))
    t = turns(h, pts)
    h.prove('convex', h.Iff(p.isconvex, h.Or(h.And([x >= 0 for x in t]), h.And([x <= 0 for x in t]))))
    c = list(p.cps)
    h.prove('cps', h.And(len(c) == n, *[h.eq(h.x(a), b) for a, b in zip(c, t)]))


@contract('G14', 'a closed polygon is clockwise exactly if its signed area is negative', [PL + 'iscw', PL + 'isccw'],
          bounded='3 and 4 segments', cases=[3, 4], reach=['cw'])
def orientation(h):
    n = h.size('n', 3, 4, 40)
    pts = ring(h, n, gens.poly)
    spread(h, pts)
    if not h.symbolic:
        h.assume(simple(h, pts))
    A = area2(h, pts)
    h.assume(h.Or(A >= 1, A <= -1))
    h.use('geometry.SR_polygon:PolygonLine.isvalid', sum_valid(h))
    p = h.G.PolygonLine(chain(h, pts, closed=True))
    h.prove('cw', h.Iff(p.iscw, A < 0))
    h.prove('ccw', h.Iff(p.isccw, A > 0))
    r = h.G.PolygonLine([s.line_reversed for s in reversed(p.segments)])
    h.prove('reversed', h.Iff(r.iscw, A > 0))


@contract('G14', 'orientation of a concave polygon follows the signed area (any number of mixed turns)', [PL + 'iscw'],
          bounded='5 segments', cases=[5], reach=['cw'])
def orientation_concave(h):
    n = h.size('n', 5, 5, 60)
    pts = ring(h, n, gens.star)
    spread(h, pts)
    if not h.symbolic:
        h.assume(simple(h, pts))
    A = area2(h, pts)
    h.assume(h.Or(A >= 1, A <= -1))
    h.use('geometry.SR_polygon:PolygonLine.isvalid', sum_valid(h))
    h.use('geometry.SR_polygon:PolygonLine.isconvex', lambda self: False)
    p = h.G.PolygonLine(chain(h, pts, closed=True))
    h.prove('cw', h.Iff(p.iscw, A < 0))


# ------------------------------------------------------------------ G24 validity
@contract('G24', 'a polygon is valid exactly if its segments are valid, consecutive and do not cross',
          [PL + 'isvalid', PL + 'crossing_lines'], bounded='up to 3 segments, crossings of segments by their contract',
          cases=[1, 2, 3], reach=['valid'])
def validity(h):
    n = h.size('n', 1, 3, 12)
    if h.symbolic:
        segs = [h.segment('s%d' % k) for k in range(n)]
        table = {}

        def on_segment(self, other):
            k = frozenset((id(self), id(other)))
            if k not in table:
                table[k] = h.freshbool('cross')
            return table[k]
        h.use('geometry.SR_line:LineSegment.intersection_on_segment', on_segment)
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    else:
        segs = chain(h, pts_of(h, h.plan('p', n + 1, gens.distinct)), shared=h.bool('shared'))
        if h.bool('break'):
            k = h.size('where', 0, n - 1) % n
            segs[k] = segs[k].line_reversed
    if h.bool('empty'):
        k = h.choice('which', list(range(n)))
        segs[k] = h.L.LineSegment() if h.bool('none') else h.L.LineSegment(segs[k].i, h.P.Point())
        h.prove('invalid', h.Not(h.G.PolygonLine(segs).isvalid))
        return
    if h.bool('other'):
        segs[0] = 'segment'
        h.prove('invalid', h.Not(h.G.PolygonLine(segs).isvalid))
        return
    pts = [e for s in segs for e in s.ij]
    h.assume(sep(h, *pts))
    for s in segs:
        h.assume(h.Not(same(h, s.i, s.j)))
    p = h.G.PolygonLine(segs)
    cont = h.And([same(h, s.j, t.i) for s, t in zip(segs, segs[1:])]) if n > 1 else True
    v = p.isvalid
    pairs = [(s, t) for i, s in enumerate(segs) for t in segs[:i]]
    crosses = [s.intersection_on_segment(t) if h.symbolic else crossing(h, s, t) for s, t in pairs]
    h.prove('valid', h.Iff(v, h.And(cont, *[h.Not(c) for c in crosses])))
    cl = p.crossing_lines
    h.prove('listed', h.And([h.And(h.Iff(any(a is s and b is t for a, b in cl), c), h.Iff(any(a is t and b is s for a, b in cl), c))
                             for (s, t), c in zip(pairs, crosses)]))
    h.prove('once', len(cl) == len({(id(a), id(b)) for a, b in cl}))


def crossing(h, s, t):
    """exact: the segments cross and share no end point"""
    (a, b), (c, d) = (xy(h, s.i), xy(h, s.j)), (xy(h, t.i), xy(h, t.j))

    def orient(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    if share(h, s, t):
        return False
    D = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if D == 0:
        return False
    o = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    h.check_input(*[abs(x) > 0.2 for x in o])     # not merely touching: decided by the tolerance
    return o[0] * o[1] <= 0 and o[2] * o[3] <= 0


# ------------------------------------------------------------------ G15 convex hull
def hull_spec(h, pts, ch):
    """ch is the convex hull polygon of the points (not all on one line)"""
    segs = ch.segments
    n = len(segs)
    h.prove('closed', h.And([same(h, a.j, b.i) for a, b in zip(segs, segs[1:] + segs[:1])]))
    vs = [s.i for s in segs]
    h.prove('vertices', h.And([h.Or([h.And(h.eq(xy(h, v)[0], x), h.eq(xy(h, v)[1], y)) for x, y in pts]) for v in vs]))
    ok = []
    for s in segs:
        (ax, ay), (bx, by) = xy(h, s.i), xy(h, s.j)
        for x, y in pts:
            ok.append((bx - ax) * (y - ay) - (by - ay) * (x - ax) >= 0)
    h.prove('encloses', h.And(ok))
    h.prove('strict', h.And([cross3(h, vs[k], vs[(k + 1) % n], vs[(k + 2) % n]) > 0 for k in range(n)]))
    fx, fy = xy(h, vs[0])
    h.prove('first', h.And([h.Or(fx < x, h.And(fx == x, fy <= y)) for x, y in pts]))
    h.prove('purged', all(a.j is b.i for a, b in zip(segs, segs[1:] + segs[:1])))


@contract('G15', 'the convex hull encloses all points, has its vertices from them, is closed, convex and counter-clockwise',
          [PM + 'convex_hull'], bounded='3 and 4 points', cases=[dict(n=3, order=0), dict(n=3, order=1)] + [
              dict(n=4, order=k) for k in range(3)], reach=['closed', 'vertices', 'encloses', 'strict', 'first'])
def hull(h):
    n = h.size('n', 3, 4, 60)
    c = h.plan('p', n, gens.any_points)
    pts = [(h.x(x), h.x(y)) for x, y in c]
    if h.symbolic:
        order = h.choice('order', ['sorted', 'reversed', 'rotated'])
        for a, b in zip(pts, pts[1:]):
            h.assume(h.Or(a[0] < b[0], h.And(a[0] == b[0], a[1] < b[1])))
        for i, a in enumerate(pts):
            for b in pts[:i]:
                d = h.num(1e-4)
                h.assume(h.Or(a[0] - b[0] >= d, b[0] - a[0] >= d, a[1] - b[1] >= d, b[1] - a[1] >= d))
        c = {'sorted': c, 'reversed': c[::-1], 'rotated': c[2:] + c[:2]}[order]
    else:
        c = c + [c[h.rng.randrange(n)]] if h.rng and h.rng.random() < 0.3 else c
    t = []
    for i in range(n):
        for j in range(i):
            for k in range(j):
                a, b, d = pts[k], pts[j], pts[i]
                t.append((b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0]))
    h.assume(h.Or([h.Or(v > 0, v < 0) for v in t]))     # not all on one line
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    ch = h.G.convex_hull(c)
    hull_spec(h, pts, ch)


# ------------------------------------------------------------------ G16 point in polygon
def winding(h, pts, p):
    """exact: is p inside the closed polygon (crossing number), None on the boundary"""
    x, y = xy(h, p)
    q = [xy(h, v) for v in pts]
    inside = False
    for a, b in zip(q, q[1:] + q[:1]):
        c = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])
        if c == 0 and min(a[0], b[0]) <= x <= max(a[0], b[0]) and min(a[1], b[1]) <= y <= max(a[1], b[1]):
            return None
        if (a[1] > y) != (b[1] > y):
            t = c > 0
            if b[1] < a[1]:
                t = not t
            if t:
                inside = not inside
    return inside


@contract('G16', 'inside / outside of simple polygons agrees with the exact crossing number (concrete inputs only)',
          [PL + 'is_internal_point', PL + 'is_external_point'], bounded='random simple polygons', nosym=True, conc_mult=2)
def inside(h):
    n = h.size('n', 3, 8, 40)
    pts = ring(h, n, gens.poly)
    h.assume(simple(h, pts))
    poly = h.G.PolygonLine(chain(h, pts, closed=True))
    k = h.choice('where', ['anywhere', 'box', 'lower right', 'near', 'far'])
    xs, ys = [float(p.x) for p in pts], [float(p.y) for p in pts]
    lo, hi, bo, to = min(xs), max(xs), min(ys), max(ys)
    u, v = h.real('u', lo=0, hi=1), h.real('v', lo=0, hi=1)
    if k == 'box':
        q = (lo + u * (hi - lo), bo + v * (to - bo))
    elif k == 'lower right':
        q = (hi - u * (hi - lo) / 4, bo + v * (to - bo) / 4)
    elif k == 'near':
        a, b = pts[0], pts[1]
        q = ((a.x + b.x) / 2 + (u - .5) / 2, (a.y + b.y) / 2 + (v - .5) / 2)
    elif k == 'far':
        q = (hi + 1 + 1000 * u, bo + (to - bo) * v)
    else:
        q = (h.real('x'), h.real('y'))
    q = h.P.Point(q)
    w = winding(h, pts, q)
    h.assume(w is not None)
    d = min(abs(cross3(h, a, b, q)) for a, b in zip(pts, pts[1:] + pts[:1]))
    h.assume(d > 1e-3)
    h.prove('inside', poly.is_internal_point(q) is w)
    h.prove('outside', poly.is_external_point(q) is (not w))


def sum_box(h):
    """callee contract of LineSegment.is_internal_point (G06)"""
    def f(self, p=None):
        assert p.isvalid
        x, y = xy(h, p)
        return inbox(h, self, x, y, EPS)
    return f


@contract('G16', 'on the boundary: a vertex, or on the line of a segment and within its extent', [PL + 'is_on_boundary'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['boundary'])
def boundary(h):
    n = h.size('n', 1, 3, 30)
    pts = ring(h, n + 1)
    spread(h, pts)
    k = h.choice('on', ['free', 'vertex', 'middle'])
    if k == 'free':
        q = h.point('q')
    elif k == 'vertex':
        q = h.P.Point(pts[h.choice('k', list(range(n + 1)))].xy)
    else:
        (ax, ay), (bx, by) = xy(h, pts[0]), xy(h, pts[1])
        q = h.P.Point((h.ongrid((pts[0].x + pts[1].x) / 2), h.ongrid((pts[0].y + pts[1].y) / 2)))
    h.assume(sep(h, q, *pts))
    poly = h.G.PolygonLine(chain(h, pts))
    x, y = xy(h, q)
    on = []
    for s in poly.segments:
        c = cross3(h, s.i, s.j, q)
        h.decided(c - h.num(EPS), c + h.num(EPS))
        (ax, ay), (bx, by) = xy(h, s.i), xy(h, s.j)
        h.decided(*[u for w in (x - ax, x - bx, y - ay, y - by) for u in (w - h.num(EPS), w + h.num(EPS))])
        on.append(h.And(c < h.num(EPS), -c < h.num(EPS), inbox(h, s, x, y, EPS)))
    want = h.Or(h.Or([same(h, q, v) for v in pts]), h.Or(on))
    edge = []        # exactly on the tolerance: not specified
    for s in poly.segments:
        (ax, ay), (bx, by) = xy(h, s.i), xy(h, s.j)
        for w in (x - ax, x - bx, y - ay, y - by):
            edge += [w == h.num(EPS), w == -h.num(EPS)]
    h.assume(h.Not(h.Or(edge)))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
    h.prove('boundary', h.Iff(poly.is_on_boundary(q), want))


# ------------------------------------------------------------------ G17 triangles
def tri_points(h):
    pts = pts_of(h, h.plan('p', 3, gens.distinct))
    spread(h, pts)
    A = area2(h, pts)
    h.assume(h.Or(A >= h.num(1e-3), -A >= h.num(1e-3)))
    return pts, A


def norms(h, segs):
    return [s.norm for s in segs]


@contract('G17', 'the area of a triangle is half the orientation of its corners, whatever the order of its sides',
          [PM + 'Triangle.__init__', PM + 'Triangle.area', PL + 'is_triangle'],
          cases=[dict(mode=0), dict(mode=1)], reach=['area'], notes=['order() of a ring by its contract (G12) in one of two cases'], secs=100)
def tri_area(h):
    pts, A = tri_points(h)
    segs = chain(h, pts, closed=True)
    mode = h.choice('mode', ['straight', 'flipped'])
    if mode == 'flipped':
        segs = [segs[0].line_reversed, segs[2], segs[1]]
    a, b, c = [h.x(s.norm) for s in segs] if h.symbolic else (0, 0, 0)
    if h.symbolic:
        K = h.define(A)
        t = (a + b + c) / 2
        D = t * (t - a) * (t - b) * (t - c)
        h.prove('heron', 4 * D == K * K)
        h.prove('apart', K * K > 0)
        h.prove('positive', D > 0)
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
    h.use('geometry.SR_polygon:PolygonLine.order', sum_order(h, pts))
    tri = h.G.Triangle(segs)
    v = tri.area
    if h.symbolic:
        h.prove('square', 4 * (v * v) == K * K)
        h.prove('area', v >= 0)
    else:
        h.assume(all(float(s.norm) < 1e4 for s in segs))
        h.prove('area', abs(float(v) - abs(float(A)) / 2) <= 1e-6 * (1 + max(float(s.norm) for s in segs) ** 2))
    h.prove('closed', tri.isclosed)


def sum_order(h, pts):
    """callee contract of order() on a ring (G12): a chained, rotated copy of the ring, in one of the two directions"""
    def f(self):
        s = list(self._segments)
        # chain them by identity (purged: coincident ends are one object)
        out = [s.pop(0)]
        while s:
            e = out[-1].j
            nxt = [t for t in s if t.i is e or t.j is e]
            if not nxt:
                return False
            t = nxt[0]
            if t.i is not e:
                t.reverse()
            s = [x for x in s if x is not t]
            out.append(t)
        if out[-1].j is not out[0].i:
            return False
        self._segments = out
        return True
    return f


@contract('G17', 'the angles of a triangle are those between the sides leaving each corner', [PM + 'Triangle.angles', PM + 'Triangle.quality'],
          cases=[dict(d=k) for k in range(8)], reach=['corner', 'quality'], conc=False)
def tri_angles(h):
    pts, A = tri_points(h)
    segs = chain(h, pts, closed=True)
    d = h.choice('d', list(range(8)))
    segs = [s.line_reversed if d >> k & 1 else s for k, s in enumerate(segs)]
    T = object.__new__(h.G.Triangle)
    h.G.PolygonLine.__init__(T, segs)
    seen = []

    def ang(self, other):
        seen.append((xy(h, self.i), xy(h, self.j), xy(h, other.i), xy(h, other.j)))
        v = h.fresh('angle')
        seen[-1] += (v,)
        return v
    h.use('geometry.SR_line:LineSegment.angle_between_lines', ang)
    before = [(xy(h, s.i), xy(h, s.j)) for s in T.segments]
    r = T.angles
    h.prove('three', len(r) == 3 and len(seen) == 3)
    h.prove('values', h.And([any(x is s[4] for s in seen) for x in r]))
    apexes = []
    for a, b, c, e, v in seen:
        h.prove('corner', h.And(a[0] == c[0], a[1] == c[1]))
        apexes.append(a)
    for p in pts:
        x, y = xy(h, p)
        h.prove('every', h.Or([h.And(a[0] == x, a[1] == y) for a in apexes]))
    h.prove('frame', h.And([h.And(u[0][0] == a.i.x, u[0][1] == a.i.y, u[1][0] == a.j.x, u[1][1] == a.j.y)
                            for u, a in zip(before, T.segments)]))
    del seen[:]
    q = T.quality
    t = 0
    for s in seen[-3:]:
        t = t + abs(s[4] - 60)
    h.prove('quality', q == t)


@contract('G17', 'angles by the law of cosines, adding up to 180 (concrete inputs only)', [PM + 'Triangle.angles', PM + 'Triangle.quality'],
          bounded='random triangles', nosym=True)
def tri_angles_values(h):
    import math
    pts, A = tri_points(h)
    segs = chain(h, pts, closed=True)
    pm = h.perm('perm', 3)
    segs = [segs[k].line_reversed if h.bool('flip%d' % k) else segs[k] for k in pm]
    tri = h.G.Triangle(segs)
    r = tri.angles
    h.prove('sum', abs(sum(r) - 180) < 1e-5)
    want = []
    for k in range(3):
        a, b, c = pts[k], pts[(k + 1) % 3], pts[(k + 2) % 3]
        (ax, ay), (bx, by), (cx, cy) = xy(h, a), xy(h, b), xy(h, c)
        want.append(math.degrees(math.atan2(abs(float(A)), float((bx - ax) * (cx - ax) + (by - ay) * (cy - ay)))))
    h.prove('angles', all(abs(x - y) < 1e-4 for x, y in zip(sorted(r), sorted(want))))
    h.prove('quality', abs(tri.quality - sum(abs(x - 60) for x in want)) < 1e-3)


@contract('G17', 'collinear corners, too few or too many sides are refused', [PM + 'Triangle.__init__', PL + 'is_triangle'],
          bounded='2 to 4 sides', reach=['refused'])
def tri_refused(h):
    k = h.choice('kind', ['two', 'open', 'quadrangle'])
    n = {'two': 3, 'open': 4, 'quadrangle': 4}[k]
    pts = ring(h, n)
    spread(h, pts)
    segs = chain(h, pts, closed=(k == 'quadrangle'))
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
    h.use('geometry.SR_polygon:PolygonLine.order', sum_order(h, pts))
    h.prove('refused', h.raises(lambda: h.G.Triangle(segs))[0])


# ------------------------------------------------------------------ G18 relations of triangles
def two_triangles(h, kinds=('apart', 'one', 'two')):
    """two triangles on free corners, or sharing one or two of them"""
    k = h.choice('share', list(kinds))
    m = {'apart': 6, 'one': 5, 'two': 4, 'three': 3}[k]
    c = h.plan('p', m, gens.small)
    pts = pts_of(h, c)
    spread(h, pts)
    P = h.P.Point
    a = pts[:3]
    b = pts[3:] + [P(pts[j].xy) for j in range(6 - m)]
    rot = h.choice('rot', [0, 1, 2])
    b = b[rot:] + b[:rot]
    if h.bool('flip'):
        b = b[::-1]
    if h.symbolic:
        out = []
        for q in (a, b):
            t = object.__new__(h.G.Triangle)
            h.G.PolygonLine.__init__(t, chain(h, q, closed=True))
            out.append(t)
        return out[0], out[1], a, b
    for q in (a, b):
        h.assume(cross3(h, *q) != 0)
    return h.G.Triangle(chain(h, a, closed=True)), h.G.Triangle(chain(h, b, closed=True)), a, b


def where(h, q, p):
    """exact: 1 inside, 0 on the boundary, -1 outside the triangle q"""
    s = [cross3(h, q[k], q[(k + 1) % 3], p) for k in range(3)]
    if cross3(h, *q) < 0:
        s = [-x for x in s]
    return 1 if min(s) > 0 else -1 if min(s) < 0 else 0


def separated(h, a, b):
    """exact: the interiors of two triangles have no point in common"""
    for q, o in ((a, b), (b, a)):
        for k in range(3):
            i = cross3(h, q[k], q[(k + 1) % 3], q[(k + 2) % 3])
            if all(cross3(h, q[k], q[(k + 1) % 3], p) * i <= 0 for p in o):
                return True
    return False


def inward(h, q, p):
    """p lies on a falling side of q and q above it (is_internal_point looks up and to the right; for other
    points of the boundary its answer is not fixed)"""
    for k in range(3):
        u, v, w = q[k], q[(k + 1) % 3], q[(k + 2) % 3]
        if cross3(h, u, v, p) == 0:
            (x, y), (s, t) = xy(h, u), xy(h, v)
            g = cross3(h, u, v, w)
            return (s - x) * (t - y) < 0 and (g > 0) == (s > x)
    return False


def meet(h, a, b, c, d):
    """exact common part of two proper segments: None, ('P', strict?) or 'L'"""
    o = [cross3(h, a, b, c), cross3(h, a, b, d), cross3(h, c, d, a), cross3(h, c, d, b)]
    if o == [0, 0, 0, 0]:
        k = 0 if xy(h, a)[0] != xy(h, b)[0] else 1
        l1, u1 = sorted([xy(h, a)[k], xy(h, b)[k]])
        l2, u2 = sorted([xy(h, c)[k], xy(h, d)[k]])
        w = min(u1, u2) - max(l1, l2)
        return 'L' if w > 0 else 'P' if w == 0 else None
    if o[0] * o[1] <= 0 and o[2] * o[3] <= 0 and o[0] - o[1] and o[2] - o[3]:
        return 'X' if 0 not in o else 'P'
    return None


def meetings(h, a, b):
    return [meet(h, a[i], a[(i + 1) % 3], b[j], b[(j + 1) % 3]) for i in range(3) for j in range(3)]


class Pairs(object):
    """callee contracts of is_internal_point (G16) and common_part (G07) for two
    triangles: a free truth value per corner, and for two of the nine pairs of
    sides (the others do not meet) any of the possible common parts"""

    def __init__(self, h, A, B, corners):
        self.flags = {}
        self.h = h
        self.kind = {}
        sides = [(s, t) for s in A.segments for t in B.segments]
        first = h.choice('first', list(range(9)))
        second = h.choice('second', list(range(first, 9)))
        for n in {first, second}:
            k = h.choice('kind%d' % n, ['point', 'corner', 'stretch'])
            s, t = sides[n]
            if k == 'point':
                v = h.point('x%d' % n)
                for c in corners:
                    h.assume(apart(h, v, c))
            elif k == 'corner':
                v = h.P.Point(s.i.xy)
            else:
                v = h.L.LineSegment(h.point('u%d' % n), h.point('v%d' % n))
            self.kind[frozenset((id(s), id(t)))] = (k, v)
        st = [v for k, v in self.kind.values() if k == 'stretch']
        for n in range(1, len(st)):
            h.assume(apart(h, st[0].i, st[n].i))         # no stretch lies on two pairs of sides
        h.use('geometry.SR_polygon:PolygonLine.is_internal_point', self.internal)
        h.use('geometry.SR_line:LineSegment.common_part', self.part)
        h.use('geometry.SR_line:LineSegment.common_part_type', self.part_type)

    @property
    def internal(self):
        def f(poly, p=None, plotit=False):
            k = (id(poly), id(p))
            if k not in self.flags:
                self.flags[k] = (self.h.freshbool('internal'), poly, p)
            return self.flags[k][0]
        return f

    @property
    def part(self):
        def f(s, o):
            k, v = self.kind.get(frozenset((id(s), id(o))), (None, None))
            return v
        return f

    @property
    def part_type(self):
        def f(s, o):
            k, v = self.kind.get(frozenset((id(s), id(o))), (None, None))
            return None if k is None else 'LineSegment' if k == 'stretch' else 'Point'
        return f


SHARE = [dict(share=i, rot=0, flip=0, first=f) for i in range(3) for f in (0, 1, 4)] + [dict(share=0, rot=r, flip=1, first=f)
                                                                         for r, f in ((1, 2), (2, 5), (0, 8), (1, 6), (2, 3), (0, 7))]


@contract('G18', 'triangles overlap exactly if a corner is internal to the other or two sides cross at a point that is no corner',
          [PM + 'Triangle.overlap'], bounded='up to two of the nine pairs of sides meet', cases=SHARE, reach=['overlap', 'symmetric'])
def tri_overlap(h):
    A, B, a, b = two_triangles(h)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
        t = Pairs(h, A, B, a + b)
        fl = [t.internal(A, p) for p in b] + [t.internal(B, p) for p in a]
        fl = [t.internal(A, p) for p in B.point_set] + [t.internal(B, p) for p in A.point_set]
        want = h.Or(fl + [any(k == 'point' for k, v in t.kind.values())])
    else:
        ms = meetings(h, a, b)
        w = [where(h, a, p) for p in b] + [where(h, b, p) for p in a]
        on = [(p, q) for p, q in [(p, a) for p in b] + [(p, b) for p in a] if where(h, q, p) == 0 and not any(same(h, p, c) for c in q)]
        if on and separated(h, a, b) and all(inward(h, q, p) for p, q in on):
            want = False                # a corner on a side is none that is internal
        else:
            for p, q in [(p, a) for p in b] + [(p, b) for p in a]:
                h.assume(where(h, q, p) != 0 or any(same(h, p, c) for c in q))
            want = any(x > 0 for x in w) or 'X' in ms
    h.prove('overlap', h.Iff(A.overlap(B), want))
    h.prove('symmetric', h.Iff(B.overlap(A), want))


@contract('G18', 'a triangle encloses another one exactly if all corners of that are inside of it, never the other way round',
          [PM + 'Triangle.enclosed'], cases=[dict(share=i) for i in range(3)], reach=['enclosed', 'not both'])
def tri_enclosed(h):
    A, B, a, b = two_triangles(h)
    if h.symbolic:
        flags = {}

        def inside(poly, p=None, plotit=False):
            k = (id(poly), id(p))
            if k not in flags:
                flags[k] = (h.freshbool('internal'), poly, p)
            return flags[k][0]
        h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
        h.use('geometry.SR_polygon:PolygonLine.is_internal_point', inside)
        want, other = [h.And([inside(u, p) for p in v.point_set]) for u, v in ((A, B), (B, A))]
    else:
        if h.bool('shrink'):            # one triangle inside of the other one
            c = [(sum(xy(h, p)[k] for p in a)) / 3 for k in (0, 1)]
            f = h.choice('f', [0.9, 0.5, 0.1])
            b = [h.P.Point((float(c[0] + (xy(h, p)[0] - c[0]) * f), float(c[1] + (xy(h, p)[1] - c[1]) * f))) for p in a]
            h.assume(abs(cross3(h, *b)) > 0.1)
            B = h.G.Triangle(chain(h, b, closed=True))
            if h.bool('swap'):
                A, B, a, b = B, A, b, a
        for p, q in [(p, a) for p in b] + [(p, b) for p in a]:
            h.assume(where(h, q, p) != 0 or any(same(h, p, c) for c in q))
        want, other = [all(where(h, q, p) > 0 for p in o) for q, o in ((a, b), (b, a))]
    h.prove('enclosed', h.And(h.Iff(bool(A.enclosed(B)), want), h.Iff(bool(B.enclosed(A)), other)))
    h.prove('not both', h.symbolic or not (want and other))


@contract('G18', 'triangles touch exactly if their sides have exactly one stretch in common', [PM + 'Triangle.touch'],
          bounded='up to two of the nine pairs of sides meet', cases=SHARE, reach=['touch', 'symmetric'])
def tri_touch(h):
    A, B, a, b = two_triangles(h)
    if h.symbolic:
        t = Pairs(h, A, B, a + b)
        want = len([1 for k, v in t.kind.values() if k == 'stretch']) == 1
    else:
        want = meetings(h, a, b).count('L') == 1
    h.prove('touch', h.Iff(A.touch(B), want))
    h.prove('symmetric', h.Iff(B.touch(A), want))


@contract('G18', 'triangles are congruent exactly if they have the same corners', [PM + 'Triangle.congruent', PL + 'point_set', PL + 'all_points'],
          cases=[dict(share=s, rot=r, flip=f) for s in range(4) for r, f in ((0, 0), (1, 1), (2, 0))], reach=['congruent', 'enclosed'])
def tri_congruent(h):
    A, B, a, b = two_triangles(h, ('three', 'two', 'one', 'apart'))
    if h.symbolic:          # (any order of the corners: the cases rotate and flip)
        for x, y in zip(a, a[1:]):
            (p, q), (r, s) = xy(h, x), xy(h, y)
            h.assume(h.Or(p < r, h.And(p == r, q < s)))
    want = all(any(x is y or same(h, x, y) is True for y in a) for x in b)
    h.prove('congruent', h.Iff(bool(A.congruent(B)), want))
    h.prove('symmetric', h.Iff(bool(B.congruent(A)), want))
    fl = {}
    if h.symbolic:
        def internal(poly, p=None, plotit=False):
            k = [i for i, c in enumerate(b) if same(h, c, p) is True or c is p]
            return fl.setdefault(k[0], h.freshbool('internal'))
        h.use('geometry.SR_polygon:PolygonLine.is_internal_point', internal)
        r = bool(A.enclosed(B))
        h.prove('enclosed', h.Iff(r, h.And([fl.setdefault(i, h.freshbool('internal')) for i in range(3)])))
    else:
        w = [where(h, a, p) for p in b]
        h.assume(0 not in w)
        h.prove('enclosed', bool(A.enclosed(B)) == (min(w) > 0))


@contract('G18', 'triangles are disjunct exactly if they are not congruent, do not overlap and do not touch', [PM + 'Triangle.disjunct'],
          cases=[dict(share=0, rot=0, flip=0)], reach=['disjunct'])
def tri_disjunct(h):
    A, B, a, b = two_triangles(h)
    if h.symbolic:
        # callee contracts: relations are symmetric (but for enclosed), an enclosed triangle overlaps
        f = {n: h.freshbool(n) for n in ('congruent', 'overlap', 'touch', 'enclosed', 'encloses')}
        h.assume(h.And(h.Implies(f['enclosed'], f['overlap']), h.Implies(f['encloses'], f['overlap'])))
        h.assume(h.Not(h.And(f['enclosed'], f['encloses'])))
        h.assume(h.Implies(f['congruent'], h.Not(h.Or(f['enclosed'], f['encloses']))))
        for n in ('congruent', 'overlap', 'touch'):
            h.use('geometry.SR_polygon:Triangle.' + n, lambda s, o, n=n: f[n] if n != 'congruent' else (True if f[n] else None))
        h.use('geometry.SR_polygon:Triangle.enclosed', lambda s, o: (True if f['enclosed' if s is A else 'encloses'] else None))
        want = h.Not(h.Or(f['congruent'], f['overlap'], f['touch']))
    else:
        ms = meetings(h, a, b)
        w = [where(h, a, p) for p in b] + [where(h, b, p) for p in a]
        for p, q in [(p, a) for p in b] + [(p, b) for p in a]:
            h.assume(where(h, q, p) != 0 or any(same(h, p, c) for c in q) or 'L' in ms and ms.count('L') == 1)
        h.assume(ms.count('L') <= 1 or all(any(same(h, x, y) for y in a) for x in b))
        want = not (any(x > 0 for x in w) or 'X' in ms or 'L' in ms)
    h.prove('disjunct', h.Iff(A.disjunct(B), want))
    h.prove('symmetric', h.Iff(B.disjunct(A), want))


# ------------------------------------------------------------------ G19 builders
def use_builders(h):
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))


@contract('G19', 'a line through nodes has them as its vertices, in order (backwards from the first one if clockwise)',
          [PM + 'polygon_from_nodes'], bounded='2 to 6 nodes', cases=[2, 3, 4, 5, 6], reach=['vertices', 'shared'])
def from_nodes(h):
    n = h.size('n', 2, 6, 60)
    c = h.plan('p', n, gens.shapes)
    as_list = h.bool('lists')
    cw = h.bool('cw')
    keep = list(c)
    nodes = [list(x) if as_list else x for x in c]
    pl = h.G.polygon_from_nodes(nodes, cw=cw)
    want = [keep[0]] + keep[1:][::-1] if cw else keep
    s = pl.segments
    h.prove('count', len(s) == n - 1)
    h.prove('vertices', h.And([h.And(h.eq(h.x(e.x), h.x(w[0])), h.eq(h.x(e.y), h.x(w[1])))
                               for t, a, b in zip(s, want, want[1:]) for e, w in ((t.i, a), (t.j, b))]))
    h.prove('shared', all(a.j is b.i for a, b in zip(s, s[1:])))
    h.prove('frame', len(nodes) == n and all(tuple(x) == tuple(y) if not h.symbolic else x[0] is y[0] and x[1] is y[1]
                                             for x, y in zip(nodes, keep)))


@contract('G19', 'a square stands on the given point, is closed and turns as asked', [PM + 'square', PM + 'polygon_from_nodes'],
          reach=['corners', 'turn'], cases=[dict(cw=0), dict(cw=1)])
def square(h):
    cw = h.bool('cw')
    a = h.pos('a', grid=True, lo=0.01)
    x0, y0 = h.coord('x0'), h.coord('y0')
    use_builders(h)
    if not h.symbolic:
        h.assume(a < 1e6)
    p = h.G.square(a=a, x0=x0, y0=y0, cw=cw)
    A, X, Y = h.x(a), h.x(x0), h.x(y0)
    w = [(X, Y), (X + A / 2, Y), (X + A / 2, Y + A), (X - A / 2, Y + A), (X - A / 2, Y)]
    if cw:
        w = w[:1] + w[1:][::-1]
    s = p.segments
    h.prove('closed', p.isclosed and len(s) == 5 and all(a.j is b.i for a, b in zip(s, s[1:] + s[:1])))
    t = 3 * HALF if h.symbolic else 1e-7
    h.prove('corners', h.And([h.And(h.near(h.x(v.i.x), x, t), h.near(h.x(v.i.y), y, t)) for v, (x, y) in zip(s, w)]))
    h.prove('turn', h.And([(cross3(h, s[k].i, s[k].j, s[(k + 1) % 5].j) >= 0) != bool(cw) if not h.symbolic else True for k in (0, 1, 2, 3)]))


@contract('G19', 'the rotation matrix', [PM + 'rotationsmatrix'], reach=['matrix'])
def rotmatrix(h):
    phi = angle_in(h)
    m = h.G.rotationsmatrix(phi)
    c, s = h.cosd(phi), h.sind(phi)
    t = 0 if h.symbolic else 1e-9
    h.prove('matrix', h.And(len(m) == 2, h.near(m[0][0], c, t), h.near(m[0][1], s, t), h.near(m[1][0], -s, t), h.near(m[1][1], c, t)))


@contract('G19', 'an arc runs on its circle in equal steps from the first to the last angle (backwards if clockwise)', [PM + 'arc'],
          bounded='up to 4 segments', cases=[dict(n=n, cw=c, centre=n % 3) for n in (1, 2, 3, 4) for c in (0, 1)], reach=['vertices', 'shared'])
def arc(h):
    n = h.size('n', 1, 4, 40)
    cw = h.bool('cw')
    k = h.choice('centre', ['tuple', 'Point', 'list'])
    r = h.pos('r', lo=0.001, hi=1e6)
    if h.symbolic:
        a0, step = h.real('a0', lo=0, hi=359), h.pos('step')
        a1 = a0 + step * n
        h.assume(h.And(a1 <= 360, a0 < 360))
    else:
        a0 = h.choice('a0i', [0, 0, 30, 90, 200, 270.5, 359])
        a1 = h.choice('a1i', [360, 360, 180, 90, 45.5, 300])
        h.assume(a0 < a1 and (n > 1 or a1 - a0 < 360))
        step = (a1 - a0) / float(n)
    x0, y0 = h.coord('x0'), h.coord('y0')
    was = {}
    use_builders(h)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.purge', lambda self: None)      # changes no coordinate (G10)
        h.use('geometry.SR_polygon:PolygonLine.rotate_about_origin', sum_rotate(h, was))
    P = {'tuple': (x0, y0), 'list': [x0, y0]}.get(k) or h.P.Point((x0, y0))
    p = h.G.arc(P=P, r=r, alpha_start=a0, alpha_end=a1, n=n, cw=cw)
    s = p.segments
    h.prove('count', len(s) == n)
    h.prove('shared', all(a.j is b.i for a, b in zip(s, s[1:])))
    v = [t.i for t in s] + [s[-1].j]
    t = 4 * h.num(HALF) if h.symbolic else 1e-7 * max(1, float(r) / 100)
    if cw:
        v.reverse()
    for i, e in enumerate(v):
        d = a0 + step * i
        if h.symbolic:
            c, z = h.cosd(a0), h.sind(a0)
            bx, by = was[id(e)]
            e1, e2 = h.define(bx - r * h.cosd(step * i)), h.define(by - r * h.sind(step * i))
            H = h.num(HALF)
            hy = [c * c + z * z == 1, h.And(e1 <= H, -H <= e1, e2 <= H, -H <= e2)]
            for u, w in ((c * e1, 0), (z * e2, 0), (z * e1, 0), (c * e2, 0)):
                h.lemma('error', hy, h.And(u <= H, -H <= u))
            h.prove('parts', h.And(c * e1 == c * bx - c * r * h.cosd(step * i), z * e1 == z * bx - z * r * h.cosd(step * i),
                                   c * e2 == c * by - c * r * h.sind(step * i), z * e2 == z * by - z * r * h.sind(step * i)))
        h.prove('vertices', h.And(h.near(h.x(e.x), h.x(x0) + h.x(r) * h.cosd(d), t), h.near(h.x(e.y), h.x(y0) + h.x(r) * h.sind(d), t)))


def sum_rotate(h, was=None):
    """callee contract of rotate_about_origin (G09), vertices being distinct objects"""
    def f(self, phi=0):
        c, s = h.cosd(phi), h.sind(phi)
        H = h.num(HALF)
        for p in self.point_set:
            x, y = p.x, p.y
            if was is not None:
                was[id(p)] = (x, y)
            u, v = h.fresh('rx', True), h.fresh('ry', True)
            h.assume(h.And(h.near(u, x * c - y * s, 2 * H), h.near(v, x * s + y * c, 2 * H)))
            p._set_coords(coords=(u, v))
    return f


@contract('G19', 'arcs with impossible parameters are refused', [PM + 'arc'], reach=['refused'])
def arc_refused(h):
    r, a0, a1 = h.real('r'), h.real('a0'), h.real('a1')
    n = h.choice('n', [0, 1, 4, -1])
    ok = h.And(r > 0, a0 >= 0, a0 < 360, a1 > 0, a1 <= 360, a0 < a1, n > 0)
    h.assume(h.Not(ok))
    h.prove('refused', h.raises(lambda: h.G.arc(P=(0, 0), r=r, alpha_start=a0, alpha_end=a1, n=n))[0])
    h.prove('centre', h.raises(lambda: h.G.arc(P=5, r=1, alpha_start=0, alpha_end=90, n=1))[0])


# ------------------------------------------------------------------ G20 loose ends
def graph_plan(h, lo, hi, big):
    """segments between free points; which ends coincide is a case"""
    m = h.size('n', lo, hi, big)
    names = []
    used = 0
    for k in range(m):
        e = []
        for q in (0, 1):
            top = min(used + 1, max(2, m + 1) if not h.symbolic else 2 * m)
            i = h.choice('e%d.%d' % (k, q), list(range(top)))
            used = max(used, i + 1)
            e.append(i)
        h.assume(e[0] != e[1])
        if e[0] == e[1]:
            raise h.stop()
        names.append(tuple(e))
    pts = pts_of(h, h.plan('p', used, gens.distinct))
    spread(h, pts)
    P = h.P.Point
    return names, pts, [h.V.Wall(P(pts[i].xy), P(pts[j].xy)) for i, j in names]


def sum_all_points(h):
    """callee contract of all_points (G10): every segment end, in some order"""
    return lambda self: [e for s in self.segments for e in s.ij]


@contract('G20', 'removing outliers drops exactly the segments with an end that no other segment shares', [PM + 'remove_outlier_segments'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['kept'])
def outliers(h):
    names, pts, segs = graph_plan(h, 1, 3, 12)
    h.use('geometry.SR_polygon:PolygonLine.all_points', sum_all_points(h))
    before = list(segs)
    r = h.G.remove_outlier_segments(segs)
    flat = [i for e in names for i in e]
    want = [s for s, e in zip(before, names) if all(flat.count(i) > 1 for i in e)]
    h.prove('kept', len(r) == len(want) and all(a is b for a, b in zip(r, want)))
    h.prove('frame', len(segs) == len(before) and all(a is b for a, b in zip(segs, before)))


@contract('G20', 'simplifying keeps the points of the segments that stay', [PM + 'simplify', PM + 'remove_outlier_segments'],
          bounded='3 segments, one point each', reach=['segments', 'points'])
def simplified(h):
    names, pts, segs = graph_plan(h, 3, 3, 8)
    h.use('geometry.SR_polygon:PolygonLine.all_points', sum_all_points(h))
    poly = h.G.PolygonLine(segs)
    kind = []
    for k, s in enumerate(segs):
        c = h.bool('in%d' % k) if k < 3 else k % 2
        kind.append(c)
        (poly.add_internal_point if c else poly.add_external_point)(p=h.P.Point((h.coord('q%d.x' % k), h.coord('q%d.y' % k))), segment=s)
    ip, ep = list(poly.internal), list(poly.external)
    flat = [i for e in names for i in e]
    stay = [all(flat.count(i) > 1 for i in e) for e in names]
    tw = {}
    for k, e in enumerate(names):        # equal segments: the other one may keep a point alive
        tw.setdefault(e, []).append(stay[k])
    h.G.simplify(poly)
    want = [s for s, f in zip(segs, stay) if f]
    h.prove('segments', len(poly.segments) == len(want) and all(a is b for a, b in zip(poly.segments, want)))
    wi = [x for x, (k, e) in zip(ip, [(k, e) for k, e in enumerate(names) if kind[k]]) if stay[k]]
    we = [x for x, (k, e) in zip(ep, [(k, e) for k, e in enumerate(names) if not kind[k]]) if stay[k]]
    h.prove('points', len(poly.internal) == len(wi) and all(a is b for a, b in zip(poly.internal, wi)) and
            len(poly.external) == len(we) and all(a is b for a, b in zip(poly.external, we)))
