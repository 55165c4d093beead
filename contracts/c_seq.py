"""contracts of functions that go over all segments or points of a polyline, for any number of them

The loops are taken by the rules of vc/loops.py, so nothing here is bounded.  Callee contracts used:
equality of points (G01: on clearly separated or identical points), continuity of segments (G06),
crossing of segments (G24) - each proved of the real function in the contracts of that property."""
from .reg import contract
from .specs import (xy, same, apart, HALF)
from .c_polygon import PL, PM, sum_continuous, simple, angle_in, rot
from .c_lines import LM
from . import gens


def exact_points(h):
    """callee contract of Point equality for points that coincide or are clearly apart (G01)"""
    if h.symbolic:
        h.use('geometry.SR_point:Point.__eq__', lambda a, b: same(h, a, b) if type(a) == type(b) else False)
    else:
        h.apart = []


def line_of(h, name='p', lo=1, cls=None, shared=True, gen=None):
    """a polyline of any number of segments: (n, positions, vertices, segments)"""
    n = h.count(name + '.n', lo)
    at = h.coords(name, n + 1, gen or gens.distinct)
    P, S = h.P.Point, cls or h.L.LineSegment
    pts = h.lazy(n + 1, lambda i: P(at(i)))
    segs = h.lazy(n, lambda i: S(pts[i], pts[i + 1]) if shared else S(P(at(i)), P(at(i + 1))))
    if h.symbolic:
        h.know_all(n, lambda i: apart(h, P(at(i)), P(at(i + 1))))
    return n, at, pts, segs


def loose_of(h, name='s', lo=1, gen=None):
    """any number of segments that need not be connected: (n, ends, segments)"""
    n = h.count(name + '.n', lo)
    a, b = h.coords(name + '.i', n, gen or gens.small), h.coords(name + '.j', n, gen or gens.small)
    P, S = h.P.Point, h.L.LineSegment
    if h.symbolic:
        h.know_all(n, lambda i: apart(h, P(a(i)), P(b(i))))
    else:
        for i in range(n):
            h.assume(a(i) != b(i))
    return n, a, b, h.lazy(n, lambda i: S(P(a(i)), P(b(i))))


def eqc(h, p, q):
    return h.And(h.x(p[0]) == h.x(q[0]), h.x(p[1]) == h.x(q[1]))


@contract('G11', 'continuity, closedness and end points of polylines of any length',
          [PL + 'iscontinuous', PL + 'discontinuity', PL + 'isclosed', PL + 'isopen', PL + 'first_point', PL + 'last_point',
           PL + 'first_segment', PL + 'last_segment'], reach=['continuous', 'closed', 'open', 'ends'])
def any_continuity(h):
    exact_points(h)
    if h.symbolic:
        n, a, b, segs = loose_of(h)
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    else:
        n = h.count('s.n', 1)
        c = h.plan('p', n + 1, gens.distinct)
        k = h.size('break', 0, n, n)
        if h.bool('closed'):
            c[-1] = c[0]
        h.assume(all(c[i] != c[i + 1] for i in range(n)))
        P, S = h.P.Point, h.L.LineSegment
        f = [h.bool('flip') and i == k for i in range(n)]
        e = [(c[i + 1], c[i]) if f[i] else (c[i], c[i + 1]) for i in range(n)]
        if h.bool('backwards') and k < n - 1:
            e[k], e[k + 1] = e[k + 1], e[k]
        a, b = (lambda i: e[i][0]), (lambda i: e[i][1])
        segs = [S(P(a(i)), P(b(i))) for i in range(n)]
    p = h.G.PolygonLine(segs)
    link = lambda i: eqc(h, b(i), a(i + 1))
    cont = h.all(n - 1, link)
    h.claim('continuous', p.iscontinuous, cont)
    h.prove('ends', h.And(eqc(h, p.first_point.xy, a(0)), eqc(h, p.last_point.xy, b(n - 1)),
                          eqc(h, p.first_segment.j.xy, b(0)), eqc(h, p.last_segment.i.xy, a(n - 1))))
    d = p.discontinuity
    h.claim('breaks', not d, cont)
    closed = bool(p.isclosed)
    h.prove('open', bool(p.isopen) != closed)
    if closed:
        h.holds('closed', cont)
        h.prove('closed ends', eqc(h, a(0), b(n - 1)))
    elif eqc(h, a(0), b(n - 1)):
        h.holds('closed', h.neg(cont))


@contract('G11', 'closing a polyline of any length adds exactly the missing segment', [PL + 'close', PL + 'closed_copy', PL + 'isopen'],
          reach=['open', 'already closed', 'kept', 'twice', 'copy'])
def any_closing(h):
    exact_points(h)
    n, at, pts, segs = line_of(h)
    if not h.symbolic and n > 2 and h.bool('back'):
        v = [at(i) for i in range(n)]
        v.append(v[0])
        h.assume(v[n] != v[n - 1])
        at = lambda i: v[i]
        pts = [h.P.Point(x) for x in v]
        segs = [h.L.LineSegment(x, y) for x, y in zip(pts, pts[1:])]
    p = h.G.PolygonLine(segs)
    if h.symbolic:
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
        h.assume(h.Or(eqc(h, at(0), at(n)), apart(h, pts[0], pts[n])))
    c = p.closed_copy()
    h.prove('copy', h.And(h.length(p.segments) == n, c is not p, c.segments is not p.segments))
    p.close()
    m = h.length(p.segments)
    if eqc(h, at(0), at(n)):
        h.prove('already closed', h.And(m == n, h.length(c.segments) == n))
    else:
        h.prove('open', h.And(m == n + 1, h.length(c.segments) == n + 1))
        for q in (p, c):
            s = q.segments[-1]
            h.prove('open', h.And(eqc(h, s.i.xy, at(n)), eqc(h, s.j.xy, at(0))))
    for q in (p, c):
        k = h.index(n)
        h.prove('kept', h.And(eqc(h, q.segments[k].i.xy, at(k)), eqc(h, q.segments[k].j.xy, at(k + 1))))
        h.prove('closed', q.isclosed)
    p.close()
    h.prove('twice', h.length(p.segments) == m)


@contract('G11', 'a point appended to a polyline of any length extends it at that end', [PL + 'append_point_at_end', PL + 'append_point_at_beginning'],
          reach=['extended', 'kept', 'continuous', 'end', 'purge again'])
def any_appending(h):
    exact_points(h)
    n, at, pts, segs = line_of(h)
    q = h.point('q')
    if h.symbolic:
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    p = h.G.PolygonLine(segs)
    end = h.bool('at the end')
    e = pts[n] if end else pts[0]
    h.assume(apart(h, q, e))
    p.purged = True
    x = xy(h, q)
    if end:
        p.append_point_at_end(q)
    else:
        p.append_point_at_beginning(q)
    h.prove('extended', h.length(p.segments) == n + 1)
    h.prove('purge again', p.purged is False)
    s = p.segments[-1 if end else 0]
    h.prove('end', h.And(eqc(h, (s.j if end else s.i).xy, x), eqc(h, (s.i if end else s.j).xy, at(n if end else 0))))
    h.prove('end', h.And(eqc(h, p.last_point.xy, x if end else at(n)), eqc(h, p.first_point.xy, at(0) if end else x)))
    k = h.index(n)
    s = p.segments[k if end else k + 1]
    h.prove('kept', h.And(eqc(h, s.i.xy, at(k)), eqc(h, s.j.xy, at(k + 1))))
    if h.bool('look'):
        h.prove('continuous', p.iscontinuous)


@contract('G23', 'two polylines of any length are equal exactly if their segments are, one by one', [PL + '__eq__', PL + '__ne__'],
          reach=['equal', 'not equal'])
def any_equal(h):
    exact_points(h)
    if h.symbolic:
        n, a, b, s = loose_of(h, 's')
        m, c, d, t = loose_of(h, 't')
    else:
        n, a, b, s = loose_of(h, 's')
        m, P, S = n, h.P.Point, h.L.LineSegment
        k = h.size('differs', 0, n, n)
        e = [(a(i), b(i)) for i in range(n)]
        if k < n:
            e[k] = (e[k][1], e[k][0]) if h.bool('turned') else (e[k][0], (e[k][1][0] + 0.25, e[k][1][1]))
        if h.bool('shorter') and n > 1:
            m = n - 1
            e = e[:m]
        h.assume(all(x != y for x, y in e))
        c, d = (lambda i: e[i][0]), (lambda i: e[i][1])
        t = [S(P(x), P(y)) for x, y in e]
    p, q = h.G.PolygonLine(s), h.G.PolygonLine(t)
    r = bool(p == q)
    same_all = h.all(n, lambda i: h.And(eqc(h, a(i), c(i)), eqc(h, b(i), d(i))))
    if n == m:
        h.claim('equal', r, same_all)
    else:
        h.prove('equal', not r)
    h.prove('not equal', bool(p != q) != r)


@contract('G23', 'loose equality of two polylines of any length: as many segments, each with a counterpart', [PL + 'loose_equal'],
          reach=['counterpart', 'length'])
def any_loose(h):
    if h.symbolic:
        n, a, b, s = loose_of(h, 's')
        m, c, d, t = loose_of(h, 't')
        h.use('geometry.SR_line:LineSegment.loose_equal', lambda x, y: twins(h, (x.i.xy, x.j.xy), (y.i.xy, y.j.xy)))
    else:
        n, a, b, s = loose_of(h, 's')
        e = [(b(i), a(i)) if h.bool('turn%d' % i) else (a(i), b(i)) for i in range(n)]
        e = [e[i] for i in h.perm('order', n)]
        k = h.size('differs', 0, n, n)
        if k < n:
            e[k] = (e[k][0], (e[k][1][0] + 0.25, e[k][1][1])) if h.bool('moved') else e[0]
        if n > 1 and h.bool('shorter'):
            e = e[1:]
        m = len(e)
        h.assume(all(x != y for x, y in e))
        c, d = (lambda i: e[i][0]), (lambda i: e[i][1])
        t = [h.L.LineSegment(h.P.Point(x), h.P.Point(y)) for x, y in e]
    p, q = h.G.PolygonLine(s), h.G.PolygonLine(t)
    r = bool(p.loose_equal(q))
    if n == m:
        h.claim('counterpart', r, h.all(n, lambda i: h.exists(m, lambda j: twins(h, (a(i), b(i)), (c(j), d(j))))))
    else:
        h.prove('length', not r)


@contract('G23', 'loose subset of polylines of any length: every end point of the other is an end point', [PL + 'loose_subset'],
          reach=['subset'])
def any_subset(h):
    exact_points(h)
    n, a, b, s = loose_of(h, 's')
    if h.symbolic:
        m, c, d, t = loose_of(h, 't')
    else:
        pool = [f(i) for f in (a, b) for i in range(n)]
        m = h.size('m', 1, 4)
        e = [(pool[h.size('c%d' % j, 0, len(pool) - 1) % len(pool)], pool[h.size('d%d' % j, 0, len(pool) - 1) % len(pool)]) for j in range(m)]
        if h.bool('other'):
            e[-1] = (e[-1][0], (e[-1][1][0] + 0.25, e[-1][1][1]))
        h.assume(all(x != y for x, y in e))
        c, d = (lambda i: e[i][0]), (lambda i: e[i][1])
        t = [h.L.LineSegment(h.P.Point(x), h.P.Point(y)) for x, y in e]
    p, q = h.G.PolygonLine(s), h.G.PolygonLine(t)

    def own(x):
        return h.exists(n, lambda i: h.Or(eqc(h, x, a(i)), eqc(h, x, b(i))))
    h.claim('subset', p.loose_subset(q), h.all(m, lambda j: h.both(own(c(j)), own(d(j)))))


def twins(h, s, t):
    return h.Or(h.And(eqc(h, s[0], t[0]), eqc(h, s[1], t[1])), h.And(eqc(h, s[0], t[1]), eqc(h, s[1], t[0])))


@contract('G13', 'the bounding box of a polyline of any length is the smallest one around all vertices', [PL + 'bounding_box'],
          reach=['around', 'tight'])
def any_box(h):
    n, at, pts, segs = line_of(h)
    (x0, x1), (y0, y1) = h.G.PolygonLine(segs).bounding_box()
    x0, x1, y0, y1 = [h.x(v) for v in (x0, x1, y0, y1)]

    def X(i):
        return h.x(at(i)[0])

    def Y(i):
        return h.x(at(i)[1])
    h.holds('around', h.all(n + 1, lambda i: h.And(x0 <= X(i), X(i) <= x1, y0 <= Y(i), Y(i) <= y1)), near=True)
    for v, f in ((x0, X), (x1, X), (y0, Y), (y1, Y)):
        h.holds('tight', h.exists(n + 1, lambda i: v == f(i)))


# ------------------------------------------------------------------ rings
def ring_of(h, name='p', lo=3, gen=None, shared=True):
    """a closed polyline of any number of segments: (n, positions, vertices, segments)"""
    n = h.count(name + '.n', lo)
    at = h.coords(name, n, gen or gens.poly)
    P, S = h.P.Point, h.L.LineSegment
    pts = h.lazy(n, lambda i: P(at(i)))
    if shared:
        segs = h.lazy(n - 1, lambda i: S(pts[i], pts[i + 1])) + [S(pts[n - 1], pts[0])]
    else:
        segs = h.lazy(n - 1, lambda i: S(P(at(i)), P(at(i + 1)))) + [S(P(at(n - 1)), P(at(0)))]
    return n, at, pts, segs


def vec_(h, a, b):
    return h.x(b[0]) - h.x(a[0]), h.x(b[1]) - h.x(a[1])


def turn_(h, n, at):
    """the turn at the end of segment i of a ring (cross product of two segments: contract of G03)"""
    if h.symbolic:
        h.use('geometry.SR_line:LineSegment.crossproduct',
              lambda self, other: h.func('cross', *[c for s in (self, other) for e in s.ij for c in e.xy]))

    def f(i):
        j = h.wrap(i, n)
        k = h.wrap(j, n)
        if h.symbolic:
            return h.func('cross', *(list(at(i)) + list(at(j)) + list(at(j)) + list(at(k))))
        (ax, ay), (bx, by) = vec_(h, at(i), at(j)), vec_(h, at(j), at(k))
        return ax * by - ay * bx
    return f


@contract('G14', 'a ring of any number of segments is convex exactly if all its turns go one way', [PL + 'isconvex', PL + 'cps'],
          reach=['convex', 'cps'])
def any_convex(h):
    n, at, pts, segs = ring_of(h)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.isvalid', lambda self: True)
    else:
        h.assume(simple(h, [h.P.Point(at(i)) for i in range(n)]))
    p = h.G.PolygonLine(segs)
    t = turn_(h, n, at)
    if h.bool('cps'):
        c = h.seq(p.cps)
        k = h.index(n)
        h.prove('cps', h.And(h.length(c) == n, h.eq(h.x(h.item(c, k)), t(k))))
        return
    h.claim('convex', p.isconvex, h.either(h.all(n, lambda i: t(i) >= 0), h.all(n, lambda i: t(i) <= 0)))
    h.prove('frame', h.length(p.segments) == n)


@contract('G14', 'orientation of a ring of any number of segments: the sign of the sum of the turns if convex, of the signed area else',
          [PL + 'iscw', PL + 'isccw'], reach=['cw', 'ccw'])
def any_orientation(h):
    n, at, pts, segs = ring_of(h, gen=gens.poly)
    p = h.G.PolygonLine(segs)
    t = turn_(h, n, at)

    def cr(i):
        j = h.wrap(i, n)
        return h.x(at(i)[0]) * h.x(at(j)[1]) - h.x(at(j)[0]) * h.x(at(i)[1])
    if h.symbolic:
        conv = h.bool('convex')
        h.use('geometry.SR_polygon:PolygonLine.isvalid', lambda self: True)
        h.use('geometry.SR_polygon:PolygonLine.isconvex', lambda self: conv)
    else:
        h.assume(simple(h, [h.P.Point(at(i)) for i in range(n)]))
        conv = p.isconvex
    w = bool(p.iscw)
    A = h.total(n, t if conv else cr)
    if not h.symbolic:
        h.assume(abs(A) > 1e-6)
    h.prove('cw', h.Iff(w, A <= 0))
    h.prove('ccw', bool(p.isccw) != w)


@contract('G24', 'a polyline of any length is valid exactly if its segments are consecutive and no two of them cross',
          [PL + 'isvalid', PL + 'crossing_lines'], reach=['valid'])
def any_valid(h):
    exact_points(h)
    if h.symbolic:
        n, a, b, segs = loose_of(h)
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))

        def cross(s, t):
            u, v = list(s[0]) + list(s[1]), list(t[0]) + list(t[1])
            return h.Or(h.pred('cross', *(u + v)), h.pred('cross', *(v + u)))
        h.use('geometry.SR_line:LineSegment.intersection_on_segment', lambda s, other: cross((s.i.xy, s.j.xy), (other.i.xy, other.j.xy)))
    else:
        n, at, pts, segs = line_of(h, gen=gens.shapes)
        a, b = at, (lambda i: at(i + 1))
        if h.bool('break'):
            k = h.index(n)
            segs[k] = segs[k].line_reversed
            a, b = (lambda i: at(i + 1 if i == k else i)), (lambda i: at(i if i == k else i + 1))
        h.assume(all(a(i) != b(i) for i in range(n)))

        def cross(s, t):
            S, P = h.L.LineSegment, h.P.Point
            return bool(S(P(s[0]), P(s[1])).intersection_on_segment(S(P(t[0]), P(t[1]))))
    p = h.G.PolygonLine(segs)
    h.claim('valid', p.isvalid, h.both(
        h.all(n - 1, lambda i: eqc(h, b(i), a(i + 1))),
        h.all(n, lambda i: h.all(n, lambda j: h.Or(h.Not(h.distinct(i, j)), h.Not(cross((a(i), b(i)), (a(j), b(j)))))))))


@contract('G16', 'a point is on a polyline of any length exactly if it is a vertex or on one of its segments', [PL + 'is_on_boundary'],
          reach=['boundary'])
def any_boundary(h):
    exact_points(h)
    n, at, pts, segs = line_of(h)
    q = h.point('q')
    p = h.G.PolygonLine(segs)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.point_set', lambda self: pts)
        inner = lambda s, x: h.pred('inner', *(list(s.i.xy) + list(s.j.xy) + list(x.xy)))
        online = lambda s, x: h.pred('online', *(list(s.i.xy) + list(s.j.xy) + list(x.xy)))
        h.use('geometry.SR_line:LineSegment.is_internal_point', lambda s, p: inner(s, p))
        h.use('geometry.SR_line:LineSegment.is_point_on_line', lambda s, p: online(s, p))
    else:
        k = h.index(n)
        m = h.choice('where', ['free', 'vertex', 'between'])
        if m == 'vertex':
            q = h.P.Point(at(k))
        elif m == 'between':
            q = h.P.Point([(u + v) / 2 for u, v in zip(at(k), at(k + 1))])
        inner, online = (lambda s, x: s.is_internal_point(p=x)), (lambda s, x: s.is_point_on_line(p=x))
    h.claim('boundary', p.is_on_boundary(p=q), h.either(
        h.exists(n + 1, lambda i: eqc(h, at(i), q.xy)),
        h.exists(n, lambda i: h.And(inner(segs[i], q), online(segs[i], q)))))


# ------------------------------------------------------------------ transformations
def moving(h):
    """a polyline with its vertices (open or a ring), and the callee contracts of purge and point_set (G10)"""
    if h.bool('ring'):
        n, at, pts, segs = ring_of(h)
        m = n
        seg = lambda i: (i, h.wrap(i, n))
    else:
        n, at, pts, segs = line_of(h)
        m = n + 1
        seg = lambda i: (i, i + 1)
    p = h.G.PolygonLine(segs)
    p.purged = h.bool('purged')

    def purge(self):
        self.purged = True

    def point_set(self):
        h.prove('purged first', self.purged is True)
        return pts
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.purge', purge)
        h.use('geometry.SR_polygon:PolygonLine.point_set', point_set)
    return n, at, pts, p, seg


def after(h, n, at, p, seg, f, tol, name):
    h.prove('count', h.length(p.segments) == n)
    k = h.index(n)
    s = p.segments[k]
    for e, i in zip((s.i, s.j), seg(k)):
        x, y = f(h.x(at(i)[0]), h.x(at(i)[1]))
        h.prove(name, h.And(h.near(h.x(e.x), x, tol), h.near(h.x(e.y), y, tol)))
    i = seg(k)[1]
    if h.symbolic:
        j = h.index(n)
        if B_(h, seg(j)[0], i):
            h.prove('joined', h.identical(p.segments[j].i, s.j))


def B_(h, i, j):
    return bool(h.Not(h.distinct(i, j)))


@contract('G09', 'moving a polyline of any length moves every vertex exactly once', [PL + 'move'], reach=['moved', 'joined', 'purged first'])
def any_move(h):
    n, at, pts, p, seg = moving(h)
    x0, y0 = h.coord('x0'), h.coord('y0')
    v, w = h.x(x0), h.x(y0)
    p.move(x0=x0, y0=y0)
    after(h, n, at, p, seg, lambda x, y: (x + v, y + w), HALF, 'moved')


@contract('G09', 'mirroring a polyline of any length mirrors every vertex exactly once', [PL + 'mirror_vertical'],
          reach=['mirrored', 'joined', 'purged first'])
def any_mirror(h):
    n, at, pts, p, seg = moving(h)
    x0 = h.coord('x0')
    w = h.x(x0)
    p.mirror_vertical(x0=x0)
    after(h, n, at, p, seg, lambda x, y: (2 * w - x, y), HALF, 'mirrored')


@contract('G09', 'rotating a polyline of any length about the origin rotates every vertex exactly once', [PL + 'rotate_about_origin'],
          reach=['rotated', 'joined', 'purged first'])
def any_rotate(h):
    n, at, pts, p, seg = moving(h)
    phi = angle_in(h)
    p.rotate_about_origin(phi=phi)
    after(h, n, at, p, seg, rot(h, phi), 2 * HALF if h.symbolic else 1e-7, 'rotated')


@contract('G09', 'rotating a polyline of any length about a point', [PL + 'rotate_about_xy', PL + 'rotate_about_origin', PL + 'move'],
          reach=['rotated', 'joined', 'purged first'])
def any_rotate_xy(h):
    n, at, pts, p, seg = moving(h)
    phi = angle_in(h)
    x0, y0 = h.coord('x0'), h.coord('y0')
    p.rotate_about_xy(x0=x0, y0=y0, phi=phi)
    after(h, n, at, p, seg, rot(h, phi, h.x(x0), h.x(y0)), 6 * HALF if h.symbolic else 1e-7, 'rotated')


@contract('G10', 'the midpoint of a polyline of any length is the average of its vertices', [PL + 'midpoint'], reach=['midpoint'])
def any_midpoint(h):
    n, at, pts, segs = line_of(h)
    p = h.G.PolygonLine(segs)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.point_set', lambda self: pts)
    else:
        h.assume(len({at(i) for i in range(n + 1)}) == n + 1)
    m = p.midpoint
    x, y = h.total(n + 1, lambda i: h.x(at(i)[0])), h.total(n + 1, lambda i: h.x(at(i)[1]))
    t = HALF if h.symbolic else 1e-7
    h.prove('midpoint', h.And(h.near(h.x(m.x) * (n + 1), x, t * (n + 1)), h.near(h.x(m.y) * (n + 1), y, t * (n + 1))))


# ------------------------------------------------------------------ builders
@contract('G08', 'dividing a segment into any number of parts', [LM + 'divide_line'], reach=['count', 'chain', 'where'])
def any_divide(h):
    s = h.segment('s')
    n = h.count('n', 1)
    out = h.L.divide_line(s, n)
    h.prove('count', h.length(out) == n)
    h.prove('first', out[0].i is s.i)
    h.prove('last', out[-1].j is s.j)
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    k = h.index(n)
    if h.num(k) >= 1:
        kk = h.num(k)
        h.prove('chain', h.identical(out[k].i, out[k - 1].j))
        x, y = h.x(out[k].i.x), h.x(out[k].i.y)
        h.prove('where', h.And(h.near(x * n, a * (n - kk) + c * kk, HALF * n), h.near(y * n, b * (n - kk) + d * kk, HALF * n)))


@contract('G19', 'a line through any number of nodes has them as its vertices, in order (backwards from the first one if clockwise)',
          [PM + 'polygon_from_nodes'], reach=['vertices', 'shared', 'count'])
def any_nodes(h):
    n = h.count('n', 2)
    at = h.coords('p', n, gens.shapes)
    cw = h.bool('cw')
    nodes = h.lazy(n, lambda i: tuple(at(i)))
    p = h.G.polygon_from_nodes(nodes, cw=cw)
    s = p.segments
    h.prove('count', h.length(s) == n - 1)
    h.prove('frame', h.length(nodes) == n)
    k = h.index(n - 1)

    def pos(i):
        if not cw or B_(h, i, 0):
            return at(i)
        return at(h.ix(n) - i)
    h.prove('vertices', h.And(eqc(h, s[k].i.xy, pos(k)), eqc(h, s[k].j.xy, pos(k + 1))))
    if h.num(k) >= 1:
        h.prove('shared', h.identical(s[k].i, s[k - 1].j))


@contract('G11', 'the segment after a given one in a closed polyline of any length starts where that one ends',
          [PL + 'next_segment'], reach=['next', 'none', 'refused'])
def any_next(h):
    exact_points(h)
    n, at, pts, segs = line_of(h, lo=3)
    if h.symbolic:
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
        h.use('geometry.SR_polygon:PolygonLine.iscontinuous', lambda self: True)        # G11; it is a chain
        s = h.segment('s')
        h.know_all(n + 1, lambda i: h.Or(eqc(h, s.j.xy, at(i)), apart(h, s.j, h.P.Point(at(i)))))
    else:
        v = [at(i) for i in range(n)]
        v.append(v[0])
        if h.bool('open'):
            v[n] = (v[0][0] + 0.5, v[0][1] + 2)
        h.assume(v[n] != v[n - 1])
        at = lambda i: v[h.ix(i)]
        segs = [h.L.LineSegment(h.P.Point(x), h.P.Point(y)) for x, y in zip(v, v[1:])]
        s = segs[h.size('k', 0, n - 1, n - 1) % n] if h.bool('own') else h.segment('s')
        h.assume(not any(h.P.Point(w) == s.j and w != tuple(s.j.xy) for w in v))
    p = h.G.PolygonLine(segs)
    h.assume(h.Or(eqc(h, at(0), at(n)), apart(h, h.P.Point(at(0)), h.P.Point(at(n)))))
    closed = bool(eqc(h, at(0), at(n)))
    if not closed:
        h.prove('refused', h.And(h.raises(lambda: p.next_segment(s), AssertionError)[0],
                                 h.raises(lambda: p.next_segment(s, isclosed=True), AssertionError)[0]))
        return
    got, t = h.raises(lambda: p.next_segment(s))
    if got:
        h.holds('none', h.all(n, lambda i: h.Not(eqc(h, at(i), s.j.xy))))
        return
    h.prove('next', eqc(h, t.i.xy, s.j.xy))
    h.holds('one of its segments', h.exists(n, lambda i: h.And(eqc(h, at(i), t.i.xy), eqc(h, at(i + 1), t.j.xy))))
    h.prove('count', h.length(p.segments) == n)


# ------------------------------------------------------------------ graphs of any number of segments
def graph_of(h, lo=1):
    """any number of segments between points that may be shared (equal, not the same objects): (n, ends, segments)"""
    exact_points(h)
    if h.symbolic:
        return loose_of(h, lo=lo)
    n = h.count('s.n', lo)
    m = h.size('m', 3, max(3, n))
    pool = h.plan('p', m, gens.distinct)
    h.assume(len(set(pool)) == m)
    e = []
    for i in range(n):
        u = h.size('u%d' % i, 0, m - 1, m - 1) % m
        v = h.size('v%d' % i, 0, m - 2, m - 2) % (m - 1)
        e.append((pool[u], pool[v + (v >= u)]))
    P = h.P.Point
    return n, (lambda i: e[i][0]), (lambda i: e[i][1]), [h.L.LineSegment(P(x), P(y)) for x, y in e]


@contract('G21', 'of any number of segments, the ones are found that start or end at a point', [PL + 'find_segment_by_point'],
          reach=['found', 'own'])
def any_find(h):
    n, a, b, segs = graph_of(h)
    p = h.G.PolygonLine(segs)
    q = h.point('q')
    if not h.symbolic and h.bool('at an end'):
        q = h.P.Point(h.choice('which', [a, b])(h.index(n)))
    w = h.choice('whichend', ['start', 'end', 'both', 'middle'])
    r, out = h.raises(lambda: p.find_segment_by_point(point=q, whichend=w))
    k = h.index(n)
    i, j = eqc(h, a(k), q.xy), eqc(h, b(k), q.xy)
    if w == 'middle' or r:
        h.prove('refused', w == 'middle')
        h.claim('refused', r, h.exists(n, lambda t: h.Or(eqc(h, a(t), q.xy), eqc(h, b(t), q.xy))))
        return
    r = h.member(segs[k], out)
    h.known(k)
    h.claim('found', r, {'start': i, 'end': j, 'both': h.Or(i, j)}[w])
    h.each(out, lambda s: h.holds('own', h.exists(n, lambda i: h.identical(s, segs[i]))))
    h.prove('frame', h.length(p.segments) == n)


@contract('G21', 'the neighbours of a point in any number of segments are the other ends of the segments at it', [PL + 'neighbour'],
          reach=['neighbours', 'own'])
def any_neighbours(h):
    n, a, b, segs = graph_of(h)
    p = h.G.PolygonLine(segs)
    q, z = h.point('q'), h.point('z')
    if not h.symbolic:
        t = h.index(n)
        u, v = h.choice('way', [(a, b), (b, a)])
        q = h.P.Point(u(t)) if h.bool('at an end') else q
        z = h.P.Point(v(t)) if h.bool('other end') else z
    nb = p.neighbour(q)
    x, y = q.xy, z.xy
    link = lambda i: h.Or(h.And(eqc(h, a(i), x), eqc(h, b(i), y)), h.And(eqc(h, b(i), x), eqc(h, a(i), y)))
    h.claim('neighbours', h.inside(z, nb), h.exists(n, link))
    h.each(nb, lambda s: h.holds('own', h.exists(n, lambda i: h.either(h.identical(s, segs[i].i), h.identical(s, segs[i].j)))))


@contract('G10', 'the vertex list of any number of segments has exactly their end points', [PL + 'all_points', PL + 'point_set'],
          reach=['all', 'set', 'own'])
def any_vertices(h):
    n, a, b, segs = graph_of(h)
    p = h.G.PolygonLine(segs)
    z = h.point('z')
    if not h.symbolic and h.bool('at an end'):
        z = h.P.Point(h.choice('which', [a, b])(h.index(n)))
    k = h.index(n)
    if h.bool('all'):
        al = p.all_points
        e = segs[k].i if h.bool('start') else segs[k].j
        r = h.member(e, al)
        h.known(k)
        h.prove('all', r)
    else:
        al = p.point_set
        h.claim('set', h.inside(z, al), h.exists(n, lambda i: h.Or(eqc(h, a(i), z.xy), eqc(h, b(i), z.xy))))
    h.each(al, lambda s: h.holds('own', h.exists(n, lambda i: h.either(h.identical(s, segs[i].i), h.identical(s, segs[i].j)))))


# ------------------------------------------------------------------ G16 point in polygon
@contract('G16', 'inside / outside of any number of segments is the parity of the crossings of a ray that leaves the bounding box',
          [PL + 'is_internal_point', PL + 'is_external_point', PL + 'point_set', PL + 'bounding_box'],
          cases=[dict(ask=a, ray=r) for a in (0, 1) for r in (0, 1, 2)], reach=['parity', 'far', 'start'], conc=False)
def any_ray(h):
    n, a, b, segs = graph_of(h)
    h.know_pairs(n, lambda i, j: h.Not(h.And(eqc(h, a(i), a(j)), eqc(h, b(i), b(j)))))
    p = h.point('q')
    h.know_all(n, lambda i: h.And(apart(h, p, h.P.Point(a(i))), apart(h, p, h.P.Point(b(i)))))
    poly = h.G.PolygonLine(segs)
    rays = []

    def cross(ls, s):
        for k, r in enumerate(rays):
            if r is ls:
                break
        else:
            k = len(rays)
            rays.append(ls)
        return h.pred('cross%d' % k, *[h.x(v) for e in s.ij for v in e.xy])
    h.use('geometry.SR_line:LineSegment.intersection_on_segment', lambda self, other: cross(self, other))
    ext = h.choice('ask', [False, True])
    r = poly.is_external_point(p) if ext else poly.is_internal_point(p)
    inside = (not r) if ext else r
    h.prove('result', r is True or r is False)
    w = h.choice('ray', [0, 1, 2])
    for ls in rays[w:w + 1] if w < 2 else rays[2:]:
        hits = h.total(n, lambda i: 1 if cross(ls, segs[i]) else 0)
        h.prove('parity', inside == (hits % 2 == 1))
        far = ls.j if same(h, ls.i, p) else ls.i
        h.prove('start', h.Or(same(h, ls.i, p), same(h, ls.j, p)))
        fx, fy = xy(h, far)
        ends = lambda f: h.all(n, lambda i: h.And(f(*[h.x(v) for v in a(i)]), f(*[h.x(v) for v in b(i)])))
        h.holds('far', h.either(ends(lambda x, y: fx > x), ends(lambda x, y: fx < x), ends(lambda x, y: fy > y),
                                ends(lambda x, y: fy < y)))


@contract('G16', 'an end of a segment is not an internal point', [PL + 'is_internal_point', PL + 'is_external_point', PL + 'point_set'],
          reach=['vertex', 'refused'])
def any_end(h):
    n, a, b, segs = graph_of(h)
    poly = h.G.PolygonLine(segs)
    k = h.index(n)
    q = h.P.Point(h.choice('end', [a, b])(k))
    h.mark(k)
    h.prove('vertex', poly.is_external_point(q) is True if h.choice('ask', [0, 1]) else poly.is_internal_point(q) is False)
    h.prove('refused', h.raises(lambda: poly.is_internal_point(h.P.Point()), AssertionError)[0])


# ------------------------------------------------------------------ G12 ordering
@contract('G12', 'the ordered copy of any number of segments is ordered, the polyline itself stays as it is',
          [PL + 'ordered_copy'], reach=['ordered', 'kept', 'copy'], conc=False)
def any_ordered(h):
    n, a, b, segs = loose_of(h)
    p = h.G.PolygonLine(segs)
    answer = h.bool('accepted')

    def order(self):
        """callee contract: the segments in another order, some of them turned round - or left alone if they are no ring"""
        if answer:
            old = self._segments
            self._segments = h.lazy(n, lambda i: h.L.LineSegment(old[h.ix(n) - 1 - i].j, old[h.ix(n) - 1 - i].i))
            return True
        return False
    h.use('geometry.SR_polygon:PolygonLine.order', order)
    c = p.ordered_copy()
    h.prove('copy', h.And(isinstance(c, h.G.PolygonLine), c is not p))
    k, m = h.index(n), h.index(n)
    s, t = p.segments[k], c.segments[m]
    h.prove('kept', h.And(h.length(p.segments) == n, h.identical(s, segs[k]), eqc(h, s.i.xy, a(k)), eqc(h, s.j.xy, b(k)),
                          h.Not(h.identical(s, t)), h.Not(h.Or([h.identical(x, y) for x in s.ij for y in t.ij]))))
    x, y = (b(h.ix(n) - 1 - m), a(h.ix(n) - 1 - m)) if answer else (a(m), b(m))
    h.prove('ordered', h.And(h.length(c.segments) == n, eqc(h, t.i.xy, x), eqc(h, t.j.xy, y)))


@contract('G12', 'any number of segments are refused, and none is lost, if the first one has no successor', [PL + 'order'],
          reach=['refused', 'kept'])
def any_no_successor(h):
    n, a, b, segs = graph_of(h)
    clear = lambda i: h.Not(h.Or(eqc(h, a(i), b(0)), eqc(h, b(i), b(0))))
    if h.symbolic:
        h.know_all(n, lambda i: h.Or(h.Not(h.distinct(i, 0)), clear(i)))
    else:
        z = h.P.Point((a(0)[0] + 1000.5, 1000.25))
        segs[0] = h.L.LineSegment(segs[0].i, z)
        keep = b
        b = lambda i: z.xy if i == 0 else keep(i)
    p = h.G.PolygonLine(segs)
    h.prove('refused', p.order() is False)
    k = h.index(n)
    s = p.segments[k]
    h.prove('kept', h.And(h.length(p.segments) == n, h.identical(s, segs[k]), eqc(h, s.i.xy, a(k)), eqc(h, s.j.xy, b(k))))
