"""contracts of geometry/additional_stuff.py and of joining and simplifying polylines (G26, G27, G28)"""
from .reg import contract
from .specs import xy, same, apart, HALF
from .c_polygon import PL, PM, chain, pts_of, simple, sum_continuous
from . import gens

ADD = 'geometry/additional_stuff.py:'


@contract('G26', 'the points in which a line meets a sphere: none, one or two, each on both', [ADD + 'sphere_line_intersection'],
          cases=[dict(how=k) for k in range(3)], reach=['count', 'on the line', 'on the sphere', 'outside'])
def sphere(h):
    how = h.choice('how', ['any', 'touching', 'through the centre'])

    def c(n):
        return h.real(n, gen=lambda r: r.choice([0, 0, 1, -2, r.randint(-90, 90) / 8.0, r.uniform(-50, 50)]))
    a, b, s = [[c(n + k) for k in 'xyz'] for n in 'abs']
    r = h.real('r', gen=lambda q: q.choice([1, 2, 0.5, q.uniform(0.1, 60)]))
    h.assume(r > 0)
    if not h.symbolic:
        if how == 'touching':           # exactly, in floating point arithmetic: small integers, the line parallel to an axis
            a, b, s = [[round(v) for v in w] for w in (a, b, s)]
            r = max(1, round(r))
            k, m = h.choice('axis', [0, 1, 2]), h.choice('side', [1, 2])
            b = list(a)
            b[k] += h.choice('step', [1, -1, 2, -4])
            a[(k + m) % 3] = b[(k + m) % 3] = s[(k + m) % 3] + h.choice('over', [r, -r])
            a[(k - m) % 3] = b[(k - m) % 3] = s[(k - m) % 3]
        elif how == 'through the centre':
            b = [2 * v - u for u, v in zip(a, s)]
    d = [h.x(v) - h.x(u) for u, v in zip(a, b)]
    e = [h.x(u) - h.x(v) for u, v in zip(a, s)]
    if how == 'through the centre' and h.symbolic:
        h.assume(h.And([x == -y for x, y in zip(d, e)]))
    A, B, C = sum(x * x for x in d), 2 * sum(x * y for x, y in zip(d, e)), sum(x * x for x in e) - h.x(r) * h.x(r)
    h.assume(A > 0 if h.symbolic else A > 0.01)
    D = B * B - 4 * A * C
    if how == 'touching' and h.symbolic:
        h.assume(D == 0)
    if not h.symbolic and how != 'touching':
        h.assume(abs(D) > 1e-3)
    tup = h.choice('type', [list, tuple])
    p, q = h.m('geometry.additional_stuff').sphere_line_intersection(tup(a), tup(b), tup(s), r)
    n = [v for v in (p, q) if v is not None]
    h.prove('count', h.And(h.Iff(len(n) == 0, D < 0), h.Iff(len(n) == 1, D == 0), h.Iff(len(n) == 2, D > 0), h.Implies(len(n) == 1, p is not None)))
    t = h.num(0) if h.symbolic else 1e-6 * (1 + float(h.x(r)) + max(abs(float(v)) for v in d + e)) ** 2
    for v in n:
        f = [h.x(z) - h.x(u) for z, u in zip(v, a)]
        h.prove('on the line', h.And(len(v) == 3, *[h.near(f[k] * d[m], f[m] * d[k], t) for k, m in ((0, 1), (1, 2), (2, 0))]))
        g = [h.x(z) - h.x(u) for z, u in zip(v, s)]
        h.prove('on the sphere', h.near(sum(x * x for x in g), h.x(r) * h.x(r), t))
    if not n:
        m = h.real('m', gen=lambda r: r.uniform(-3, 3))
        z = [u + h.x(m) * v for u, v in zip(e, d)]
        if h.symbolic:
            u, w = h.define(2 * A * h.x(m) + B), h.define(A * (sum(x * x for x in z) - h.x(r) * h.x(r)))
            h.prove('outside: square', 4 * w == u * u - D)
            h.lemma('outside: sign', [4 * w == u * u - D, D < 0], w > 0)
            h.lemma('outside: scale', [A > 0, w > 0, w == A * (sum(x * x for x in z) - h.x(r) * h.x(r))], sum(x * x for x in z) > h.x(r) * h.x(r))
        h.prove('outside', sum(x * x for x in z) > h.x(r) * h.x(r))
    if len(n) == 2:
        h.prove('apart', h.Or([h.x(u) != h.x(v) for u, v in zip(p, q)]))


# ------------------------------------------------------------------ G27 joining and simplifying
def eqp(h, p, q):
    return h.And(h.x(p[0]) == h.x(q[0]), h.x(p[1]) == h.x(q[1]))


ONS = 'geometry/SR_line.py:LineSegment.'


def sum_validity(h, verdicts):
    """callee contract of isvalid (G24): an answer that depends on the polyline only"""
    def f(self):
        for p, v in verdicts:
            if p is self:
                return v
        v = h.freshbool('valid')
        verdicts.append((self, v))
        return v
    return f


def parts(h, count):
    """open or closed chains of any length: [(n, positions, polyline)]"""
    from .c_seq import line_of, exact_points
    out = []
    if h.symbolic:
        exact_points(h)
        for k in range(count):
            n, at, pts, segs = line_of(h, 'pqr'[k], shared=False)
            out.append((n, at, h.G.PolygonLine(segs)))
        return out
    P, S = h.P.Point, h.L.LineSegment
    x = y = 0
    for k in range(count):          # a staircase in pieces: valid, unless it was spoiled
        n = h.size('n', 1, 12, 40)
        if k and h.bool('gap'):
            x, y = x + h.choice('over', [1, 2, 0.25]), y + h.choice('up', [0, -3, 0.5])
        pts = [(x, y)]
        for i in range(n):
            x, y = x + h.choice('dx', [1, 2, 0.5]), y + h.choice('dy', [0, 0, 1, -2, 5])
            pts.append((x, y))
        how = h.choice('how', ['', '', '', '', 'closed', 'crossing', 'back'])
        if how == 'closed':
            pts += [(pts[-1][0], min(v for u, v in pts) - 5), (pts[0][0], min(v for u, v in pts) - 5), pts[0]]
            x, y = pts[0]
        elif how == 'crossing' and n > 1:
            a, b = pts[0], pts[1]
            x, y = (a[0] + b[0]) / 2.0, min(a[1], b[1]) - 20
            pts += [(x + 2, max(v for u, v in pts) + 20), (x, max(v for u, v in pts) + 20), (x, y)]
        elif how == 'back' and n > 1 and k + 1 < count:     # valid, but the next one runs into it
            x, y = pts[0][0] - 1, max(v for u, v in pts) + 3
            pts += [(pts[-1][0] + 1, y), (x, y)]
        at = lambda i, pts=pts: pts[h.ix(i)]
        out.append((len(pts) - 1, at, h.G.PolygonLine([S(P(a), P(b)) for a, b in zip(pts, pts[1:])])))
    return out


@contract('G27', 'polylines of any length are joined: all segments in order, a connecting one where they do not meet',
          [PM + 'add'], cases=[dict(m=k) for k in (1, 2)],
          reach=['count', 'kept', 'connected', 'met', 'valid', 'purged', 'refused', 'valid inputs'])
def joining(h):
    m = h.size('m', 1, 2, 3)
    ps = parts(h, m + 1)
    verdicts, purged = [], []
    if h.symbolic:
        def purge(self):
            purged.append(self)
            self.purged = True
        h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
        h.use('geometry.SR_polygon:PolygonLine.iscontinuous', lambda self: True)        # G11; the pieces are chains
        h.use('geometry.SR_polygon:PolygonLine.isvalid', sum_validity(h, verdicts))
        h.use('geometry.SR_polygon:PolygonLine.purge', purge)
        for (n, a, _), (k, b, _) in zip(ps, ps[1:]):
            h.assume(h.Or(eqp(h, a(n), b(0)), apart(h, h.P.Point(a(n)), h.P.Point(b(0)))))
        for n, a, _ in ps:
            h.assume(h.Or(eqp(h, a(n), a(0)), apart(h, h.P.Point(a(n)), h.P.Point(a(0)))))
    polys = [p for _, _, p in ps]
    closed = h.And([eqp(h, a(0), a(n)) for n, a, _ in ps])
    got, r = h.raises(lambda: h.G.add(*polys), AssertionError)
    if h.symbolic and got:
        h.prove('refused', h.Or(closed, [h.Not(v) for _, v in verdicts]))
        return
    if not h.symbolic:
        ok = all(p.isvalid for p in polys)
        pts, off = [], 0
        for n, at, _ in ps:
            q = [at(i) for i in range(n + 1)]
            pts += q[1:] if pts and pts[-1] == q[0] else q
        ok = ok and not closed and h.G.PolygonLine([h.L.LineSegment(h.P.Point(a), h.P.Point(b)) for a, b in zip(pts, pts[1:])]).isvalid
        h.prove('refused', got == (not ok))
        if got:
            return
    segs = r.segments
    off = 0
    for q, (n, at, p) in enumerate(ps):
        if q:
            pn, pat, _ = ps[q - 1]
            if eqp(h, pat(pn), at(0)):
                h.prove('met', True)
            else:
                s = segs[off]
                h.prove('connected', h.And(eqp(h, s.i.xy, pat(pn)), eqp(h, s.j.xy, at(0))))
                off = off + 1
        k = h.index(n)
        s = segs[h.ix(off) + k]
        h.prove('kept', h.And(eqp(h, s.i.xy, at(k)), eqp(h, s.j.xy, at(k + 1))))
        h.prove('frame', h.And(h.length(p.segments) == n, h.Not(h.identical(p.segments[k], s)),
                               eqp(h, p.segments[k].i.xy, at(k)), eqp(h, p.segments[k].j.xy, at(k + 1))))
        off = off + n
    h.prove('count', h.length(segs) == off)
    h.prove('valid', r.isvalid)
    h.prove('purged', r.purged)
    h.prove('valid inputs', h.And([p.isvalid for p in polys] + [h.Not(closed)]))


LABELS = ['CCC', 'CCCM', 'CMCC', 'MCCC', 'CCCMM', 'CMMCC', 'MCCCM', 'MMCCC', 'CMCMC', 'MCMCC', 'CCCCM', 'CMCCC', 'CMCMCM', 'CCMMMC', 'MCMCMC',
          'CMMCMCM', 'MCCCMMC', 'CMCMCMCM', 'MMMCMCMC', 'CCCCCCCM', 'CMMMMMCC']


def ring_with_mids(h):
    """a ring of corners and of points on its sides: labels, vertices, polygon"""
    P, S = h.P.Point, h.L.LineSegment
    if h.symbolic:
        lab = h.choice('labels', LABELS)
        n = len(lab)
        pts = pts_of(h, h.plan('p', n, gens.distinct))
        for i, p in enumerate(pts):
            for q in pts[:i]:
                h.assume(apart(h, p, q))
    else:
        c = h.plan('c', h.size('n', 3, 7, 12), gens.star)
        m = len(c)
        h.assume(simple(h, pts_of(h, c)))
        h.assume(all(abs((b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0])) > 0.01 for a, b, d in zip(c, c[1:] + c[:1], c[2:] + c[:2])))
        lab, w = '', []
        for a, b in zip(c, c[1:] + c[:1]):
            w.append(a)
            lab += 'C'
            for t in sorted(h.choice('on', [[], [], [0.5], [0.25, 0.5], [0.125, 0.5, 0.75], [0.75]])):
                w.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
                lab += 'M'
        k = h.size('turn', 0, len(w) - 1) % len(w)
        lab, w = lab[k:] + lab[:k], w[k:] + w[:k]
        pts = [P(v) for v in w]
    if h.bool('shared'):
        segs = [S(a, b) for a, b in zip(pts, pts[1:] + pts[:1])]
    else:
        segs = [S(P(a.xy), P(b.xy)) for a, b in zip(pts, pts[1:] + pts[:1])]
    return lab, pts, h.G.PolygonLine(segs)


def sum_on_side(h, lab, pts):
    """callee contract of is_point_on_line (G07) for the vertices of such a ring"""
    n = len(lab)
    sides = []
    for k in range(n):
        if lab[k] == 'C':
            side = [k]
            while True:
                side.append((side[-1] + 1) % n)
                if lab[side[-1]] == 'C':
                    break
            sides.append(side)

    def number(p):
        for k, q in enumerate(pts):
            if same(h, p, q):
                return k
        raise ValueError('a point that is no vertex')

    def on(self, p):
        a, b, k = number(self.i), number(self.j), number(p)
        if k in (a, b):
            return True
        for s in sides:
            if a in s and b in s and k in s:
                return True
        return False
    return on


def sum_order_ring(h):
    """callee contract of order (G12) for rings: the same segments, one after the other, some of them turned round"""
    def order(self):
        rest = list(self._segments)
        out = [rest.pop(0)]
        while rest:
            for s in rest:
                if same(h, s.i, out[-1].j):
                    break
                if same(h, s.j, out[-1].j):
                    s._set_endpoints(endpoints=(s.j, s.i))
                    break
            else:
                return False
            rest = [x for x in rest if x is not s]
            out.append(s)
        if not same(h, out[-1].j, out[0].i):
            return False
        self._segments = out
        self.purged = False
        return True
    return order


def use_ring(h, lab, pts):
    if h.symbolic:
        from .c_seq import exact_points
        exact_points(h)
        h.use('geometry.SR_line:LineSegment.is_point_on_line', sum_on_side(h, lab, pts))
        h.use('geometry.SR_polygon:PolygonLine.order', sum_order_ring(h))


@contract('G27', 'removing the collinear points of a closed polygon leaves exactly its corners, in their order', [PM + 'remove_collinear_points'],
          bounded='up to 8 vertices', cases=[dict(labels=k) for k in range(len(LABELS))], reach=['corners', 'frame', 'closed'])
def uncollinear(h):
    lab, pts, p = ring_with_mids(h)
    use_ring(h, lab, pts)
    segs = list(p.segments)
    before = [xy(h, e) for s in segs for e in s.ij]
    q = h.G.remove_collinear_points(p)
    want = [v for v, c in zip(pts, lab) if c == 'C']
    out = q.segments
    n = len(want)
    h.prove('count', len(out) == n)
    h.prove('closed', h.And([same(h, a.j, b.i) for a, b in zip(out, out[1:] + out[:1])]))
    if len(out) == n:       # the corners in their order round the ring, in either direction
        ways = []
        for k in range(n):
            for d in (1, -1):
                ways.append(h.And([same(h, out[m].i, want[(k + d * m) % n]) for m in range(n)]))
        h.prove('corners', h.Or(ways))
    h.prove('frame', h.And(q is not p, len(p.segments) == len(segs), all(a is b for a, b in zip(p.segments, segs)),
                           h.And([h.And(u[0] == v[0], u[1] == v[1]) for u, v in zip(before, [xy(h, e) for s in segs for e in s.ij])])))


@contract('G27', 'the collinear points of a closed polygon: those between two others on a side, and the ends of these sides',
          [PL + 'collinear_points'], bounded='up to 8 vertices', cases=[dict(labels=k) for k in range(len(LABELS))], reach=['between', 'ends', 'frame'])
def collinear(h):
    lab, pts, p = ring_with_mids(h)
    use_ring(h, lab, pts)
    n = len(lab)
    segs = list(p.segments)
    before = [xy(h, e) for s in segs for e in s.ij]
    mids, sides, count = p.collinear_points
    mids, sides, keys = list(mids), list(sides), list(count)
    M = [v for v, c in zip(pts, lab) if c == 'M']
    E = [v for k, (v, c) in enumerate(zip(pts, lab)) if c == 'C' and 'M' in (lab[k - 1], lab[(k + 1) % n])]
    for name, got, want in (('between', mids, M), ('ends', sides, E), ('counted', keys, E)):
        h.prove(name, h.And([h.Or([same(h, a, b) for b in want]) for a in got] + [h.Or([same(h, a, b) for b in got]) for a in want]))
    h.prove('once', h.And(len(mids) == len(M), len(sides) == len(E), len(keys) == len(E)))
    h.prove('frame', h.And([h.And(u[0] == v[0], u[1] == v[1]) for u, v in zip(before, [xy(h, e) for s in segs for e in s.ij])]
                           + [all(a is b for a, b in zip(p.segments, segs))]))
