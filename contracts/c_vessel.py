"""contracts of SR_Vessel/SR_hauptteile.py"""
import contextlib
from .reg import contract
from .specs import HALF, xy, same, peq, cross3, vec
from .c_polygon import PL, PM, sum_continuous, sum_order, use_builders
from . import gens

HT = 'SR_Vessel/SR_hauptteile.py:'
GRA = 'geometry/SR_polygon_group.py:Graph.'


def tol(h, k=1):
    return k * h.num(HALF) if h.symbolic else k * 1e-8


def no_intex(h):
    """the known points of a part are the subject of V07"""
    h.use('geometry.SR_polygon_group:Graph.add_intex_points', lambda self: None)


def sum_meet(h):
    """callee contract of intersection_on_segment (G06): never if an end is shared; otherwise only if the extents meet"""
    memo = {}

    def f(self, other):
        for a in self.ij:
            for b in other.ij:
                if a is b or same(h, a, b) is True:
                    return False
        k = frozenset((id(self), id(other)))
        if k not in memo:
            e = h.num(4e-8)
            (a, b), (c, d) = [xy(h, p) for p in self.ij]
            (m, n), (o, p) = [xy(h, q) for q in other.ij]
            t = h.freshbool('meet')
            for u, v, w, x in ((a, c, m, o), (b, d, n, p)):
                lo, hi, lo2, hi2 = h.xmin(u, v), h.xmax(u, v), h.xmin(w, x), h.xmax(w, x)
                h.assume(h.Implies(t, h.And(lo <= hi2 + e, lo2 <= hi + e)))
            memo[k] = t
        return memo[k]
    return f


def size(h, name, hi=1e4):
    v = h.real(name, grid=True, lo=0.01, hi=hi, gen=lambda r: r.choice([1, 2, 4, 0.5, 0.25, 0.35, 12.25, r.randint(10, 9000) / 100.0]))
    return v


def place(h, name):
    return h.real(name, grid=True, lo=-1e4, hi=1e4, gen=lambda r: r.choice([0, 0, 0, 1, -2.5, 3.14, r.randint(-9000, 9000) / 100.0]))


def at(h, p, x, y, t):
    return h.And(h.near(h.x(p.x), x, t), h.near(h.x(p.y), y, t))


def cname(s):
    return type(s).__name__


def shell(h, cls=None, **fix):
    """a Mantel (or StandZarge) of any size anywhere"""
    pv, ph = place(h, 'pos_v'), place(h, 'pos_h')
    d0, hh = size(h, 'd0'), size(h, 'h')
    d1 = d0 if h.choice('taper', ['taper', 'cylinder']) == 'cylinder' else size(h, 'd1')
    d = h.choice('dtype', [tuple, list])((d0, d1))
    if not h.symbolic:          # (the known points of flat or tiny cones are beyond the numerical tolerance: V07)
        h.assume(min(d0, d1) >= 0.1 and abs(d1 - d0) <= 20 * hh)
    if h.symbolic:
        no_intex(h)
        use_builders(h)
        h.use('geometry.SR_line:LineSegment.intersection_on_segment', sum_meet(h))
    m = getattr(h.V, cls or 'Mantel')(name='ma', pos_v=pv, pos_h=ph, d=d, h=hh)
    X, Y, H = h.x(ph), h.x(pv), h.x(hh)
    R = [h.x(d0) / 2, h.x(d1) / 2]
    return m, X, Y, H, R, d


def chained(h, segs):
    """every side ends at the point object the next one starts with, the last one at the first"""
    return all(a.j is b.i for a, b in zip(segs, segs[1:] + segs[:1]))


@contract('V01', 'the outline of a shell: two walls on both sides of the axis, joined by two open ends (a closed one below for a skirt)',
          [HT + 'Mantel.__init__', HT + 'Mantel.make_segments', HT + 'StandZarge.__init__', HT + 'StandZarge.make_segments',
           HT + 'Mantel.isvalid', HT + 'Mantel.characteristic_size', HT + 'Hauptteil.__init__', HT + 'Hauptteil.wall_segments',
           HT + 'Hauptteil.nonwall_segments', HT + 'Hauptteil.graphrepr_segments', HT + 'Hauptteil.polygonline', GRA + '__init__'],
          cases=[dict(cls=c, taper=t) for c in (0, 1) for t in (0, 1)],
          reach=['corners', 'classes', 'valid', 'joined', 'walls'])
def mantel(h):
    cls = h.choice('cls', ['Mantel', 'StandZarge'])
    m, X, Y, H, R, d = shell(h, cls)
    s = list(m.segments)
    t = tol(h)
    w = [(X + R[0], Y), (X + R[1], Y + H), (X - R[1], Y + H), (X - R[0], Y)]
    h.prove('corners', h.And(len(s) == 4, *[h.And(at(h, a.i, p[0], p[1], t), at(h, a.j, q[0], q[1], t))
                                            for a, p, q in zip(s, w, w[1:] + w[:1])]))
    foot = 'Wall' if cls == 'StandZarge' else 'NonWall'
    h.prove('classes', [cname(x) for x in s] == ['Wall', 'NonWall', 'Wall', foot])
    h.prove('joined', chained(h, s) and m.isclosed)
    ws, ns = m.wall_segments, m.nonwall_segments
    h.prove('walls', [any(a is b for b in ws) for a in s] == [cname(x) == 'Wall' for x in s] and
            [any(a is b for b in ns) for a in s] == [cname(x) == 'NonWall' for x in s] and len(ws) + len(ns) == 4)
    g = m.graph.segments
    h.prove('graph', h.And(len(g) == len(ws), *[h.And(cname(a) == 'Wall', same(h, a.i, b.i), same(h, a.j, b.j)) for a, b in zip(g, ws)]))
    pl = m.polygonline
    h.prove('polyline', type(pl) is h.G.PolygonLine and len(pl.segments) == 4 and all(a is b for a, b in zip(pl.segments, s)))
    h.prove('data', type(m) is getattr(h.V, cls) and m.name == 'ma' and m.typ == 'mantel' and m.d is d and m.graph.hauptteil is m)
    h.prove('size', h.eq(h.x(m.characteristic_size), h.xmin(R[0], R[1])))
    if cls == 'Mantel':
        h.prove('valid', m.isvalid)
    else:
        h.prove('valid', m.polygonline.isvalid)


@contract('V01', 'a shell with anything but two walls, or with the walls not joined to horizontal ends, is not valid', [HT + 'Mantel.isvalid'],
          cases=[dict(how=k) for k in range(4)], reach=['invalid'])
def mantel_invalid(h):
    m, X, Y, H, R, d = shell(h)
    how = h.choice('how', ['one wall', 'three walls', 'shifted', 'slanted'])
    s = list(m.segments)
    W, P = h.V.Wall, h.P.Point
    if how == 'one wall':
        g = [s[0]]
    elif how == 'three walls':
        g = [s[0], s[2], s[3]]
    else:
        e = h.real('e', grid=True, lo=1e-3, hi=10, gen=lambda r: r.choice([0.001, 0.5, 2, 10]))
        x, y = s[2].i.xy
        g = [s[0], W(P((x - e, y)) if how == 'shifted' else P((x, y + e)), s[2].j)]
    m.graph._segments = g
    h.prove('invalid', h.Not(m.isvalid))


@contract('V02', 'a flat part is one wall of its diameter across its position', [HT + 'Flachboden.__init__', HT + 'RaumEnde.__init__',
                                                                             HT + 'Flachboden.isvalid', HT + 'RaumEnde.isvalid', HT + 'Flachboden.characteristic_size',
                                                                             HT + 'Flachboden.intex_points', HT + 'RaumEnde.intex_points', GRA + 'add_intex_points',
                                                                             PL + 'add_indifferent_point', PL + 'move'],
          cases=[dict(cls=0), dict(cls=1)], reach=['wall', 'points', 'valid'])
def flat(h):
    cls = h.choice('cls', ['Flachboden', 'RaumEnde'])
    pv, ph, d = place(h, 'pos_v'), place(h, 'pos_h'), size(h, 'd')
    use_builders(h)
    h.use('geometry.SR_line:LineSegment.intersection_on_segment', sum_meet(h))
    b = getattr(h.V, cls)(name='b', pos_v=pv, pos_h=ph, d=d)
    X, Y, R = h.x(ph), h.x(pv), h.x(d) / 2
    s = list(b.segments)
    t = tol(h, 2)
    h.prove('wall', h.And(len(s) == 1, cname(s[0]) == 'Wall', at(h, s[0].i, X - R, Y, t), at(h, s[0].j, X + R, Y, t)))
    h.prove('graph', h.And(len(b.graph.segments) == 1, same(h, b.graph.segments[0].i, s[0].i), same(h, b.graph.segments[0].j, s[0].j)))
    h.prove('data', h.And(b.name == 'b', b.typ == cls.lower(), type(b) is getattr(h.V, cls), h.eq(h.x(b.pos_v), Y), h.eq(h.x(b.pos_h), X), h.eq(h.x(b.d), 2 * R)))
    h.prove('valid', b.isvalid)
    q = b.graph.indifferent
    if cls == 'Flachboden':
        h.prove('size', h.eq(h.x(b.characteristic_size), R))
        h.prove('points', h.And(len(q) == 2, *[h.And(at(h, p, X, Y + k * R * h.num(0.02), tol(h, 1) + h.num(1e-9) * 0), p.segment is b.graph.segments[0])
                                               for p, k in zip(q, (1, -1))]))
    else:
        h.prove('points', len(q) == 0)
    h.prove('others', len(b.graph.internal) == 0 and len(b.graph.external) == 0)


@contract('V02', 'a flat bottom contains exactly the points within its extent, its ends excepted', [HT + 'Flachboden.is_internal_point'], reach=['inside'])
def flat_inside(h):
    pv, ph, d = place(h, 'pos_v'), place(h, 'pos_h'), size(h, 'd')
    no_intex(h)
    use_builders(h)
    b = h.V.Flachboden(name='b', pos_v=pv, pos_h=ph, d=d)
    X, Y, R = h.x(ph), h.x(pv), h.x(d) / 2
    if h.symbolic:
        p = h.point('p')
    else:
        k = h.choice('at', [0, 0.1, 0.5, 0.9, -0.7, -1, 1, 1.2, -3])
        p = h.P.Point((ph + k * d / 2., pv + h.choice('up', [0, 0, 0, 0.01, -0.5])))
    x, y = xy(h, p)
    m = h.num(1e-4) if h.symbolic else h.num(0.99e-4)
    i, j = b.segments[0].ij
    h.assume(h.And(h.Or(y == Y, y - Y > m, Y - y > m),
                   h.Or(same(h, p, i), same(h, p, j), h.And(x - X + R > m, X + R - x > m), x < X - R - m, x > X + R + m, y - Y > m, Y - y > m)))
    on = h.And(y == Y, h.Not(same(h, p, i)), h.Not(same(h, p, j)), x > X - R, x < X + R)
    h.prove('inside', h.Iff(b.is_internal_point(p=p), on))
    h.prove('refused', h.raises(lambda: b.is_internal_point(p=h.P.Point()), AssertionError)[0])


# ------------------------------------------------------------------ V04 from dict
FIELDS = {'Mantel': ['name', 'pos_v', 'pos_h', 'd', 'h'], 'StandZarge': ['name', 'pos_v', 'pos_h', 'd', 'h'],
          'Klopperboden': ['name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'], 'Korbbogenboden': ['name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'],
          'Flachboden': ['name', 'pos_v', 'pos_h', 'd'], 'RaumEnde': ['name', 'pos_v', 'pos_h', 'd']}


@contract('V04', 'a part made from a dict has the class asked for and the values of the dict; a missing or an unknown key is refused',
          [HT + c + '.from_dict' for c in ('Mantel', 'Klopperboden', 'Korbbogenboden', 'Flachboden', 'RaumEnde')],
          cases=[dict(cls=k, how=j) for k in range(6) for j in range(3)], reach=['class', 'values', 'missing', 'unknown', 'same'])
def from_dict(h):
    cls = h.choice('cls', sorted(FIELDS))
    fs = FIELDS[cls]
    vals = {'name': 'x1', 'pos_v': place(h, 'pos_v'), 'pos_h': place(h, 'pos_h'), 'd': size(h, 'd')}
    if cls in ('Mantel', 'StandZarge'):
        vals['d'] = (vals['d'], size(h, 'd1'))
        vals['h'] = size(h, 'h')
        if not h.symbolic:
            h.assume(abs(vals['d'][0] - vals['d'][1]) <= 20 * vals['h'])
    if 'h1' in fs:
        vals['h1'] = size(h, 'h1')
        vals['orient'] = h.choice('orient', [1, -1])
    if h.symbolic:
        no_intex(h)
        use_builders(h)
        h.use('SR_Vessel.SR_hauptteile:TorispherischesBoden.make_segments',       # V03
              lambda self: [h.V.Wall(h.P.Point((0, 0)), h.P.Point((1, 0))), h.V.NonWall(h.P.Point((1, 0)), h.P.Point((0, 0)))])
    C = getattr(h.V, cls)
    how = h.choice('how', ['good', 'missing', 'unknown'])
    if how == 'good':
        keep = dict(vals)
        m = C.from_dict(vals)
        h.prove('class', type(m) is C)
        h.prove('values', all(getattr(m, k) is v for k, v in keep.items()))
        h.prove('frame', sorted(vals) == sorted(keep) and all(vals[k] is keep[k] for k in keep))
        n = C(**keep)
        h.prove('same', h.And(len(n.segments) == len(m.segments), *[
            h.And(type(a) is type(b), same(h, a.i, b.i), same(h, a.j, b.j)) for a, b in zip(n.segments, m.segments)]))
    elif how == 'missing':
        k = h.choice('key', fs)
        del vals[k]
        h.prove('missing', h.raises(lambda: C.from_dict(vals))[0])
    else:
        more = ['__class__', '__doc__', '__module__', '__dict__', '__init__', '__hash__'][:h.choice('more', [0, 1, 4, 6])]
        if h.bool('front'):
            vals = dict([('colour', 'red')] + list(vals.items()) + [(k, 1) for k in more])
        else:
            vals.update([(k, 1) for k in more] + [('colour', 'red')])
        h.prove('unknown', h.raises(lambda: C.from_dict(vals))[0])


# ------------------------------------------------------------------ V07 known points
def side(h, a, b, p):
    """proof hint: the side of the wall a, b on which p lies, p being at about the height of a division point"""
    (ax, ay), (bx, by), (x, y) = xy(h, a), xy(h, b), xy(h, p)
    if h.valid(ay == by):
        return
    t4 = 4 * h.num(HALF)
    for t in (h.num(0.01), h.num(0.99)):
        dy, dx = h.define(by - ay), h.define(bx - ax)
        de, ep = h.define(y - ay - t * dy), h.define(x - ax - t * dx)
        up = h.valid(dy > 0)
        lo = h.num(8e-6)
        if not h.valid(h.And(de <= t4, -t4 <= de)):
            continue
        big = h.valid(ep >= lo)
        if not big and not h.valid(ep <= -lo):
            continue
        v = dy if up else -dy
        c = h.define(cross3(h, a, b, p))
        k = h.num(11)
        h.prove('side: split', c == dx * de - dy * ep)
        h.lemma('side: sign', [c == dx * de - dy * ep, v >= h.num(0.009), dx <= k * v, -dx <= k * v, de <= t4, -t4 <= de,
                               ep >= lo if big else ep <= -lo], (c < 0) if up == big else (c > 0))
        return


def sum_in_ring(h, corners):
    """callee contract of is_internal_point (G16) for a convex outline with the given counter-clockwise corners; the point has to be
    off the boundary"""
    def inside(p):
        return h.And([cross3(h, a, b, p) > 0 for a, b in zip(corners, corners[1:] + corners[:1])])

    memo = {}

    def f(self, p):
        assert p.isvalid
        k = h.key(p.x, p.y)
        if k not in memo:
            memo[k] = ask(p)
        return memo[k]

    def ask(p):
        for a, b in zip(corners, corners[1:] + corners[:1]):
            side(h, a, b, p)
        h.prove('call of is_internal_point: off the boundary', h.Or(
            h.And([cross3(h, a, b, p) > 0 for a, b in zip(corners, corners[1:] + corners[:1])]),
            h.Or([cross3(h, a, b, p) < 0 for a, b in zip(corners, corners[1:] + corners[:1])])))
        return bool(inside(p))
    h.use('geometry.SR_polygon:PolygonLine.is_internal_point', f)
    h.use('geometry.SR_polygon:PolygonLine.is_external_point', lambda self, p: not f(self, p))


def of_seg(ps, s):
    return [p for p in ps if p.segment is s]


@contract('V07', 'the known points of a shell: two inside and two outside next to each wall',
          [HT + 'Mantel.intex_points', GRA + 'add_intex_points', GRA + 'renew', PL + 'add_internal_point', PL + 'add_external_point'],
          cases=[dict(taper=0), dict(taper=1)], reach=['both sides', 'close', 'number'])
def shell_points(h):
    m, X, Y, H, R, d = shell(h)
    h.assume(h.And(R[0] >= h.num(0.5), R[1] >= h.num(0.5), R[0] - R[1] <= 10 * H, R[1] - R[0] <= 10 * H))
    s = m.segments
    P = h.P.Point
    g = m.graph
    if h.symbolic:
        sum_in_ring(h, [x.i for x in s])
        h.end_use('geometry.SR_polygon_group:Graph.add_intex_points')
        g.renew()
    elif h.bool('renew'):
        g.renew()
    ok, near, num = [], [], []
    for w in g.segments:
        num.append(len(of_seg(g.internal, w)) == 2 and len(of_seg(g.external, w)) == 2)
        for p in of_seg(g.internal, w) + of_seg(g.external, w):
            (ax, ay), (bx, by), (x, y) = xy(h, w.i), xy(h, w.j), xy(h, p)
            o = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
            inner = any(p is q for q in g.internal)
            ok.append(o > 0 if inner else o < 0)          # (the outline turns left)
            near.append(h.And(y > h.xmin(ay, by), y < h.xmax(ay, by)))
    h.prove('number', h.And(all(num), len(g.internal) == 4, len(g.external) == 4, len(g.indifferent) == 0, len(g.segments) == 2))
    h.prove('both sides', h.And(ok))
    h.prove('close', h.And(near))


@contract('V07', 'the known points of a head lie below and above its graph, on both sides of the axis',
          [HT + 'TorispherischesBoden.intex_points', HT + 'TorispherischesBoden.h_graph', HT + 'TorispherischesBoden.graphrepr_segments',
           GRA + 'add_intex_points', HT + 'TorispherischesBoden.characteristic_size'],
          cases=[dict(orient=0), dict(orient=1)], reach=['graph', 'below', 'above', 'number'])
def head_points(h):
    pv, ph, d = place(h, 'pos_v'), place(h, 'pos_h'), size(h, 'd')
    o = h.choice('orient', [1, -1])
    cls = h.choice('cls', ['Klopperboden', 'Korbbogenboden'])
    use_builders(h)
    if h.symbolic:
        h.use('SR_Vessel.SR_hauptteile:TorispherischesBoden.make_segments',       # V03
              lambda self: [h.V.Wall(h.P.Point((0, 0)), h.P.Point((1, 0))), h.V.NonWall(h.P.Point((1, 0)), h.P.Point((0, 0)))])
    b = getattr(h.V, cls)(name='bo', pos_v=pv, pos_h=ph, d=d, h1=size(h, 'h1'), orient=o)
    X, Y, D = h.x(ph), h.x(pv), h.x(d)
    hg = h.xmax(h.num(0.1), D / 1000)
    g = b.graph
    w = g.segments
    t = tol(h)
    h.prove('graph', h.And(len(w) == 2, at(h, w[0].i, X - D / 2, Y, t), at(h, w[0].j, X, Y + o * hg, t), at(h, w[1].i, X, Y + o * hg, t),
                           at(h, w[1].j, X + D / 2, Y, t), *[cname(x) == 'Wall' for x in w]))
    h.prove('size', h.eq(h.x(b.characteristic_size), D / 2))
    h.prove('number', len(g.internal) == 4 and len(g.external) == 2 and len(g.indifferent) == 0 and
            all(len(of_seg(g.internal, x)) == 2 and len(of_seg(g.external, x)) == 1 for x in w))
    for k, x in enumerate(w):
        sd = -1 if k == 0 else 1
        for p, inner in [(p, True) for p in of_seg(g.internal, x)] + [(p, False) for p in of_seg(g.external, x)]:
            u, v = xy(h, p)
            u, v = sd * (u - X), o * (v - Y)               # distance from the axis, height above the base
            h.prove('below' if inner else 'above', h.And(u > 0, u < D / 2, v > 0, v < hg,
                                                         v * D < hg * (D - 2 * u) if inner else v * D > hg * (D - 2 * u)))


# ------------------------------------------------------------------ V03 heads
def sum_arc(h, seen):
    """callee contract of arc (G19)"""
    def f(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
        h.prove('call: arc', h.And(0 <= alpha_start, alpha_start < 360, 0 < alpha_end, alpha_end <= 360, alpha_start < alpha_end, r > 0, n > 0))
        assert isinstance(P, h.P.Point) and not cw
        t = 4 * h.num(HALF)
        v = []
        for k in range(n + 1):
            a = alpha_start + (alpha_end - alpha_start) * k / n
            u, w = h.fresh('ax', True), h.fresh('ay', True)
            ex, ey = h.define(P.x + r * h.cosd(a)), h.define(P.y + r * h.sind(a))
            h.assume(h.And(h.near(u, ex, t), h.near(w, ey, t)))
            p = h.P.Point((u, w))
            v.append(p)
        seen.append((P, r, alpha_start, alpha_end, n, v))
        return h.G.PolygonLine([h.L.LineSegment(a, b) for a, b in zip(v, v[1:])])
    return f


@contract('V03', 'the outline of a torispherical head: cylinder, knuckle, crown, knuckle, cylinder and the open base, tangent arcs of the radii of its kind',
          [HT + 'TorispherischesBoden.__init__', HT + 'TorispherischesBoden.make_segments', HT + 'Klopperboden.__init__',
           HT + 'Korbbogenboden.__init__', HT + 'TorispherischesBoden.isvalid', PL + 'move', PL + 'rotate_about_origin', PM + 'arc'],
          cases=[dict(cls=c, orient=o) for c in (0, 1) for o in (0, 1)], reach=['vertices', 'classes', 'joined', 'tangent'])
def head(h):
    cls = h.choice('cls', ['Klopperboden', 'Korbbogenboden'])
    o = h.choice('orient', [1, -1])
    pv, ph, d, h1 = place(h, 'pos_v'), place(h, 'pos_h'), size(h, 'd'), size(h, 'h1')
    if not h.symbolic:
        h.assume(d >= 0.05)
    seen = []
    no_intex(h)
    use_builders(h)
    if h.symbolic:
        h.use('geometry.SR_polygon:PolygonLine.purge', lambda self: None)      # changes no coordinate (G10)
        h.use('SR_Vessel.SR_hauptteile:arc', sum_arc(h, seen))
    b = getattr(h.V, cls)(name='bo', pos_v=pv, pos_h=ph, d=d, h1=h1, orient=o)
    X, Y, D, H1 = h.x(ph), h.x(pv), h.x(d), h.x(h1)
    R1, R2 = (D, D / 10) if cls == 'Klopperboden' else (D * 4 / 5, D * 77 / 500)
    s = list(b.segments)
    h.prove('classes', [cname(x) for x in s] == ['Wall'] * 16 + ['NonWall'])
    c, e = R1 - R2, D / 2 - R2
    hh = h.sqrt(c * c - e * e)
    al = h.math.degrees(h.math.acos(hh / c))
    t = 8 * h.num(HALF) if h.symbolic else 1e-7 * max(1, D / 100)
    sa, ca = h.sind(al), h.cosd(al)
    if h.symbolic:
        q, w = h.define(c * sa), h.define(c * ca)
        h.lemma('knuckle from the axis', [q * q + w * w == c * c, w == hh, hh * hh == c * c - e * e, q >= 0, e > 0], q == e)
    parts = [((o * e, o * H1), R2, 0, 90 - al, 3), ((0 * D, o * (H1 - hh)), R1, 90 - al, 90 + al, 8), ((-o * e, o * H1), R2, 90 + al, 180, 3)]
    k = 1
    ok = []
    for (mx, my), r, a0, a1, n in parts:
        for j in range(n):
            for p, i in ((s[k].i, j), (s[k].j, j + 1)):
                a = a0 + (a1 - a0) * i / n
                h.prove('vertices', at(h, p, X + mx + o * r * h.cosd(a), Y + my + o * r * h.sind(a), t))
            k += 1
    h.prove('cylinder', h.And(at(h, s[0].i, X + o * D / 2, Y, t), at(h, s[0].j, X + o * D / 2, Y + o * H1, t),
                              at(h, s[15].i, X - o * D / 2, Y + o * H1, t), at(h, s[15].j, X - o * D / 2, Y, t)))
    h.prove('base', h.And(at(h, s[16].i, X - o * D / 2, Y, t), at(h, s[16].j, X + o * D / 2, Y, t)))
    m = h.num(2e-7) if h.symbolic else 2 * t
    h.prove('joined', h.And([at(h, x.j, h.x(y.i.x), h.x(y.i.y), m) for x, y in zip(s, s[1:] + s[:1])]))
    # the arcs touch each other and the cylinder: their centres and the common end lie on one line
    g = 0 if h.symbolic else 1e-9 * D * D
    h.prove('tangent', h.And(h.near(e * ca, (H1 - (H1 - hh)) * sa, g if h.symbolic else 1e-9 * max(1, D)), R1 > R2, R2 > 0))
    h.prove('data', type(b) is getattr(h.V, cls) and b.name == 'bo' and b.typ == 'boden' and b.orient == o and b.d is d and b.h1 is h1 and
            b.graph.hauptteil is b and len(b.wall_segments) == 16 and len(b.nonwall_segments) == 1)
    if not h.symbolic:
        h.prove('valid', b.isvalid and b.isclosed)
        w = [[p.x, p.y] for x in s for p in x.ij]
        h.prove('symmetric', all(any(abs(2 * ph - x - u) < 1e-6 * max(1, d) and abs(y - v) < 1e-6 * max(1, d) for u, v in w) for x, y in w))


# ------------------------------------------------------------------ V05 split
def use_cut(h):
    """callee contracts of the intersection functions (G06) for a horizontal segment and any other one; two other ones: sum_meet"""
    if not h.symbolic:
        return
    memo = {}
    meet = sum_meet(h)

    def flat(s):
        return s.i.y is s.j.y or h.valid(s.i.y == s.j.y)

    def cut(s, t):
        """(exact crossing of the lines, within both extents?) or None if parallel"""
        k = frozenset((id(s), id(t)))
        if k in memo:
            return memo[k][0]
        r = None
        if flat(s) != flat(t):
            f, w = (s, t) if flat(s) else (t, s)
            (ax, ay), (bx, by), (lx, cy), (rx, _) = xy(h, w.i), xy(h, w.j), xy(h, f.i), xy(h, f.j)
            dy, dx, c = h.define(by - ay), h.define(bx - ax), h.define(cy - ay)
            q = h.define(c / dy)
            h.prove('cut: parameter', q * dy == c)
            if dy > 0:
                h.lemma('cut: from the start', [dy > 0, q * dy == c], h.And(h.Iff(q >= 0, c >= 0), h.Iff(q <= 1, c <= dy)))
            else:
                h.prove('call: not parallel', dy < 0)
                h.lemma('cut: from the start', [dy < 0, q * dy == c], h.And(h.Iff(q >= 0, c <= 0), h.Iff(q <= 1, c >= dy)))
            g = h.define(q * dx)
            h.lemma('cut: between', [g == q * dx], h.Implies(h.And(q >= 0, q <= 1), h.And(h.Or(g >= 0, g >= dx), h.Or(g <= 0, g <= dx))))
            e = h.define(ax + g)
            r = (e, cy, h.And(h.Or(h.And(ay <= cy, cy <= by), h.And(by <= cy, cy <= ay)),
                              h.Or(h.And(lx <= e, e <= rx), h.And(rx <= e, e <= lx))))
            # lemma: between the ends in height means between them in x (G06 "within both ...")
            h.assume(h.Implies(h.And(q >= 0, q <= 1), h.And(e >= h.xmin(ax, bx), e <= h.xmax(ax, bx))))
            h.assume(h.And((q >= 0) == h.Or(h.And(by > ay, cy >= ay), h.And(by < ay, cy <= ay)),
                           (q <= 1) == h.Or(h.And(by > ay, cy <= by), h.And(by < ay, cy >= by))))
        memo[k] = (r, s, t)
        return r

    def on_segment(self, other):
        assert other.isvalid
        if any(a is b or same(h, a, b) is True for a in self.ij for b in other.ij):
            return False
        if flat(self) == flat(other):
            return False if flat(self) else meet(self, other)
        return bool(cut(self, other)[2])

    def point(self, other):
        if flat(self) and flat(other):
            return None
        r = cut(self, other)
        return h.P.Point((r[0], r[1]))

    def on_endpoint(self, other):
        p = point(self, other)
        return bool(h.Or([peq(h, p, e) for e in list(self.ij) + list(other.ij)]))
    n = 'geometry.SR_line:LineSegment.'
    h.use(n + 'intersection_on_segment', on_segment)
    h.use(n + 'intersection_point', point)
    h.use(n + 'intersection_on_endpoint', on_endpoint)


def cut_walls(h, m, before, v, tag=''):
    """the two walls of the shell are cut at height v; the rest is untouched"""
    ri, hi, le, lo = before
    s = list(m.segments)
    h.prove('kept' + tag, all(any(x is k for x in s) for k in (hi, lo)) and not any(x is k for x in s for k in (ri, le)) and len(s) == 6)
    new = [x for x in s if x is not hi and x is not lo]
    ok = []
    for w in (ri, le):
        (ax, ay), (bx, by) = xy(h, w.i), xy(h, w.j)
        first = [x for x in new if same(h, x.i, w.i) is True or not h.symbolic and x.i == w.i]
        second = [x for x in new if same(h, x.j, w.j) is True or not h.symbolic and x.j == w.j]
        if len(first) != 1 or len(second) != 1 or first[0] is second[0]:
            ok.append(False)
            continue
        a, b = first[0], second[0]
        (px, py), (qx, qy) = xy(h, a.j), xy(h, b.i)
        t = tol(h, 4)
        dx, dy = bx - ax, by - ay
        sl = h.xmax(dx, -dx) + h.xmax(dy, -dy)
        off = (px - ax) * dy - (v - ay) * dx
        ok += [cname(a) == 'Wall', cname(b) == 'Wall', px == qx, py == qy, h.near(py, v, t), off <= t * sl, -off <= t * sl]
    h.prove('cut' + tag, h.And(ok))
    g = m.graph.segments
    h.prove('graph' + tag, len(g) == 4 and all(any(x is y for y in new) for x in g))


@contract('V05', 'a shell is cut at a height strictly between its ends, elsewhere it stays as it is',
          [HT + 'Hauptteil.split', GRA + 'renew', PM + 'intersecting_lines', PL + 'bounding_box'],
          cases=[dict(taper=t, at=a) for t in (0, 1) for a in range(4)], reach=['refused', 'kept', 'cut', 'graph'])
def split_at(h):
    m, X, Y, H, R, d = shell(h)
    use_cut(h)
    s = list(m.segments)
    k = h.choice('at', ['between', 'lower end', 'upper end', 'outside'])
    top = s[0].j.y
    if k == 'between':
        v = place(h, 'v') if h.symbolic else round(m.pos_v + h.choice('part', [0.5, 0.1, 0.9, 0.25, 0.003]) * m.h, 6)
    elif k == 'outside':
        v = place(h, 'v') if h.symbolic else m.pos_v + h.choice('part', [-0.5, 1.5, 10, -3, 1.01]) * m.h
    else:
        v = m.pos_v if k == 'lower end' else top
    z, e = h.x(v), h.num(1e-4)
    (lo, hi) = h.x(s[0].i.y), h.x(top)
    if k == 'between':
        h.assume(h.And(z > lo + e, z < hi - e))
    elif k == 'outside':
        h.assume(h.Or(z < lo - e, z > hi + e))
    r = m.split(v=v)
    if k == 'between':
        h.prove('result', r is True)
        cut_walls(h, m, s, z)
    else:
        h.prove('refused', r is False and len(m.segments) == 4 and all(a is b for a, b in zip(m.segments, s)))


@contract('V05', 'a shell cut by a room end wider than it: the room end becomes wall, open middle and wall; one that does not reach both walls cuts nothing',
          [HT + 'Hauptteil.split', GRA + 'renew', HT + 'Behalter.cut_by_raumende'],
          cases=[dict(taper=t, at=a, how=k) for t in (0, 1) for a, k in ((0, 0), (0, 1), (0, 2), (1, 1), (2, 1), (3, 1), (4, 1))],
          reach=['cut', 'refused', 'ring', 'kept end'])
def split_ring(h):
    m, X, Y, H, R, d = shell(h)
    use_cut(h)
    s = list(m.segments)
    k = h.choice('at', ['between', 'lower end', 'upper end', 'outside', 'narrow'])
    how = h.choice('how', ['keep', 'ring', 'vessel'])
    top = s[0].j.y
    (lo, hi) = h.x(s[0].i.y), h.x(top)
    if k in ('between', 'narrow'):
        v = place(h, 'v') if h.symbolic else round(m.pos_v + h.choice('part', [0.5, 0.1, 0.9, 0.25, 0.03]) * m.h, 6)
    elif k == 'outside':
        v = place(h, 'v') if h.symbolic else m.pos_v + h.choice('part', [-0.5, 1.5, 10, -3, 1.01]) * m.h
    else:
        v = m.pos_v if k == 'lower end' else top
    z, e = h.x(v), h.num(1e-4)
    if k in ('between', 'narrow'):
        h.assume(h.And(z > lo + e, z < hi - e))
    elif k == 'outside':
        h.assume(h.Or(z < lo - e, z > hi + e))
    if h.symbolic:
        w = size(h, 'w', 1e6)
        h.assume(h.And(w / 2 < h.xmin(R[0], R[1]) - e) if k == 'narrow' else h.And(w / 2 > R[0] + e, w / 2 > R[1] + e))
    else:
        w = round(2 * (float(min(R)) * h.choice('wide', [0.5, 0.99, 0.1]) if k == 'narrow' else float(max(R)) * h.choice('wide', [1.01, 1.5, 3])), 6)
    re = h.V.RaumEnde(name='re', pos_v=v, pos_h=m.pos_h, d=w)
    own = list(re.segments)
    c = re.graph.segments[0]
    if how == 'vessel':                 # through the vessel's own loop over its parts
        b = object.__new__(h.V.Behalter)
        h.GR.PolygonGroup.__init__(b, [m, re] if h.bool('first') else [re, m])
        r = b.cut_by_raumende()
        r = k == 'between'
    else:
        r = m.split(ht=re, keep=how == 'keep')
    if k != 'between':
        h.prove('refused', r is False and len(m.segments) == 4 and all(a is b for a, b in zip(m.segments, s)) and
                len(re.segments) == 1 and re.segments[0] is own[0])
        return
    h.prove('result', r is True)
    cut_walls(h, m, s, z)
    if how == 'keep':
        h.prove('kept end', len(re.segments) == 1 and re.segments[0] is own[0])
        return
    g = list(re.segments)
    h.prove('ring', len(g) == 3 and [cname(x) for x in g] == ['Wall', 'NonWall', 'Wall'] and g[0].j is g[1].i and g[1].j is g[2].i)
    ri = [x for x in m.segments if cname(x) == 'Wall' and (same(h, x.i, s[0].i) is True or not h.symbolic and x.i == s[0].i)][0].j
    le = [x for x in m.segments if cname(x) == 'Wall' and (same(h, x.i, s[2].i) is True or not h.symbolic and x.i == s[2].i)][0].j
    h.prove('ring ends', h.And(same(h, g[0].i, c.i), same(h, g[2].j, c.j), same(h, g[0].j, le), same(h, g[1].j, ri)))
    q = re.graph.segments
    h.prove('ring graph', len(q) == 2 and q[0] is g[0] and q[1] is g[2])


@contract('V05', 'heads are never cut', [HT + 'Hauptteil.split'], reach=['refused'])
def split_head(h):
    cls = h.choice('cls', ['Klopperboden', 'Korbbogenboden'])
    b = object.__new__(getattr(h.V, cls))
    s = [h.V.Wall(h.P.Point((0, 0)), h.P.Point((1, 0)))]
    b._segments = list(s)
    v = place(h, 'v')
    r = b.split(v=v)
    q = b.split(ht=h.V.RaumEnde(name='re', pos_v=v, pos_h=0, d=4), keep=h.bool('keep'))
    h.prove('refused', r is False and q is False and len(b._segments) == 1 and b._segments[0] is s[0])


# ------------------------------------------------------------------ V10 comparing results with a pattern
def renames(a, b):
    """the one-to-one renamings of the rooms of a that turn it into b"""
    import itertools
    ra = sorted(set(r for v in a.values() for s in v.values() for r in s))
    rb = sorted(set(r for v in b.values() for s in v.values() for r in s))
    if len(ra) != len(rb):
        return []
    out = []
    for p in itertools.permutations(rb):
        m = dict(zip(ra, p))
        if {k: {kk: set(m[r] for r in s) for kk, s in v.items()} for k, v in a.items()} == b:
            out.append(m)
    return out


def rooms_dict(h, name, parts, keys, rooms):
    return {p: {k: set(r for r in rooms if h.bool('%s.%s.%s.%s' % (name, p, k, r))) for k in keys} for p in parts}


@contract('V10', 'a result matches a pattern exactly if one renaming of its rooms gives the pattern, otherwise it is refused',
          [HT + 'raum_dict_checker'], bounded='one part with two entries or two parts with one, up to two rooms',
          cases=[dict(form=f, base=b) for f in (0, 1) for b in range(2)], reach=['match', 'no match', 'frame'])
def dict_check(h):
    import copy
    import time
    form, base = h.choice('form', [(('ma',), ('innenraum', 'aussenraum')), (('ma', 'bo'), ('innenraum',))]), h.choice('base', ['R', 'own'])
    n = 2 if h.symbolic else h.choice('rooms', [1, 2, 3])
    if not h.symbolic:
        form = (('ma', 'bo', 're')[:h.choice('parts', [1, 2, 3])], ('innenraum', 'aussenraum', 'indifferent')[:h.choice('keys', [1, 2, 3])])
    rooms = ['R%d' % (k + 1) for k in range(n)]
    a = rooms_dict(h, 'a', form[0], form[1], rooms)
    if base == 'R':
        b = rooms_dict(h, 'b', form[0], form[1], rooms)
    else:                   # the pattern is a renaming of the result
        p = h.perm('p', n)
        b = {k: {kk: set(rooms[p[rooms.index(r)]] for r in s) for kk, s in v.items()} for k, v in a.items()}
    where = h.choice('differ', ['nowhere', 'part', 'entry'])             # a part or an entry that one of them lacks
    if where != 'nowhere':
        d = h.choice('in', [a, b])
        if where == 'part':
            d['zus'] = copy.deepcopy(d[form[0][0]])
        else:
            d[form[0][-1]]['zus'] = set(d[form[0][0]][form[1][0]])
    ka, kb = copy.deepcopy(a), copy.deepcopy(b)
    want = len(renames(a, b)) == 1
    sleep = time.sleep
    time.sleep = lambda s: None
    try:
        bad, r = h.raises(lambda: h.V.raum_dict_checker(dict_to_comapare=a, basedict=b))
    finally:
        time.sleep = sleep
    if want:
        h.prove('match', not bad and r is True)
    else:
        h.prove('no match', bad)
    h.prove('frame', a == ka and b == kb)


@contract('V05', 'a vessel cuts each of its shells by each of its room ends', [HT + 'Behalter.cut_by_raumende'],
          bounded='up to 2 shells and 3 room ends', cases=[dict(shells=s, ends=e) for s in range(2) for e in range(4)], reach=['cuts'])
def vessel_cuts(h):
    ns, ne = h.choice('shells', [1, 2]), h.choice('ends', [0, 1, 2, 3])
    first = h.bool('first')
    V = h.V
    no_intex(h)
    b = object.__new__(V.Behalter)
    ends, shells = [], []
    for k in range(ne):
        ends.append(V.RaumEnde(name='r%d' % k, pos_v=k + 1, pos_h=0, d=40))
    for k in range(ns):
        if h.symbolic:
            m = object.__new__(V.Mantel)
            m.__dict__.update(typ='mantel', name='m%d' % k, _segments=[V.Wall(h.P.Point((k, 0)), h.P.Point((k, 9)))])
        else:
            lo = shells[-1].pos_v + shells[-1].h if shells else 0          # (a room end may cut one shell only)
            m = V.Mantel(name='m%d' % k, pos_v=lo + h.choice('v%d' % k, [0, 1, 0.5, 1.5]), pos_h=h.choice('x%d' % k, [0, 3]), d=(4 + k, 4 + k),
                         h=h.choice('h%d' % k, [4, 2, 1]))
        shells.append(m)
    h.GR.PolygonGroup.__init__(b, ends + shells if first else shells + ends)
    if h.symbolic:
        calls, t = [], h.bool('cut')

        def split(self, v=None, ht=None, keep=True):
            calls.append((self, ht, keep, v))
            return t
        h.use('SR_Vessel.SR_hauptteile:Hauptteil.split', split)
        b.cut_by_raumende()
        ok = all(sum(s is m and t is e and not k and v is None for s, t, k, v in calls) == 1 for m in shells for e in ends)
        h.prove('cuts', ok and all(t in ends and v is None and (s in ends or s in shells) for s, t, k, v in calls))
        h.prove('polygons', len(b.polygons) == ns + ne)
    else:
        b.cut_by_raumende()
        ok = []
        for m in shells:
            lo, hi = m.pos_v, m.pos_v + m.h
            want = sorted([lo] * 2 + [hi] * 2 + [e.pos_v for e in ends if lo < e.pos_v < hi] * 4)
            ok.append(sorted(round(p.y, 6) for s in m.wall_segments for p in s.ij) == want)
        h.prove('cuts', all(ok))


# ------------------------------------------------------------------ V06 knuckle between shell and cone
@contextlib.contextmanager
def no_points(h):
    """the known points are the subject of V07: on most concrete runs they are not looked for, to save time"""
    if h.symbolic:
        no_intex(h)
        yield
        return
    if h.choice('points', [False] * 19 + [True]):
        yield
        return
    g = h.V.Graph
    keep = g.add_intex_points
    g.add_intex_points = lambda self: None
    try:
        yield
    finally:
        g.add_intex_points = keep


def junction(h, under=None):
    """a shell on a cone that narrows downwards, and, if asked for, a shell or skirt around the cone"""
    pv, ph = place(h, 'pos_v'), place(h, 'pos_h')
    d, D, D2 = size(h, 'd0'), size(h, 'D'), size(h, 'D2')
    if h.choice('above', ['cylinder', 'tapered']) == 'cylinder':
        D2 = D
    H, k = size(h, 'H'), size(h, 'k')
    a, b = size(h, 'a'), size(h, 'b')
    if not h.symbolic:
        f, g = [h.choice(n, [0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.999]) for n in 'fg']
        d, a, b = D * h.choice('narrow', [0.1, 0.3, 0.5, 0.9]), H * f, k * g
        D2 = D2 if D2 is D else D * h.choice('taper', [0.9, 0.5, 1.1, 2])
        h.assume(min(D, D2, d) >= 0.1 and abs(D - D2) <= 20 * H and D - d <= 20 * k)
    e = h.num(1e-3) if h.symbolic else 1e-5
    h.assume(h.And(h.x(D) - h.x(d) >= e, h.x(H) - h.x(a) >= e, h.x(k) - h.x(b) >= e, h.x(a) >= e, h.x(b) >= e))
    parts = [h.V.Mantel(name='ma', pos_v=pv, pos_h=ph, d=(D, D2), h=H), h.V.Mantel(name='kegel', pos_v=pv - k, pos_h=ph, d=(d, D), h=k)]
    hu = du = None
    if under:
        hu, du = size(h, 'hu'), size(h, 'du')
        if not h.symbolic:
            h.assume(du >= 0.1 and abs(D - du) <= 20 * hu)
        parts.append(getattr(h.V, under)(name='un', pos_v=pv - hu, pos_h=ph, d=(du, D), h=hu))
    return parts, (pv, ph, d, D, D2, H, k, a, b, hu, du)


def use_crossing(h, walls):
    """callee contracts of intersection_point (G06) for a level line and a wall that is not level, and of line_point_distance, norm and
    distance (G02, G05) for the walls and these points"""
    made, off, norms = [], {}, {}

    def point(self, other):
        assert other.isvalid
        (lx, cy), (rx, y2), (ax, ay), (bx, by) = [xy(h, q) for q in self.ij + other.ij]
        h.prove('call of intersection_point: level', h.And(cy == y2, h.Not(ay == by)))
        x = h.fresh('x')
        h.assume(h.Implies(h.And(h.xmin(ay, by) <= cy, cy <= h.xmax(ay, by)), h.And(x >= h.xmin(ax, bx), x <= h.xmax(ax, bx))))
        p = h.P.Point((x, self.i.y))
        made.append((p, other, cy))
        return p

    def on(w, p):
        return any(v is w and same(h, q, p) is True for q, v, y in made)

    def away(self, p):
        assert p.isvalid
        k = (id(self), h.key(p.x, p.y))
        if k not in off:
            v = h.fresh('off')
            h.assume(h.And(v >= 0, v <= h.num(4 * HALF)) if on(self, p) else v >= 0)
            off[k] = v
        return off[k]

    def norm(self):
        if id(self) not in norms:
            v = h.fresh('norm')
            (ax, ay), (bx, by) = xy(h, self.i), xy(h, self.j)
            h.assume(h.And(*[v >= z for z in (ax - bx, bx - ax, ay - by, by - ay)]))
            norms[id(self)] = (v, self)
        return norms[id(self)][0]

    def dist(p1, p2):
        assert p1.isvalid and p2.isvalid
        v = h.fresh('dist')
        h.assume(v >= 0)
        for e, p in ((p1, p2), (p2, p1)):
            for w in walls:
                if e is w.i or e is w.j:
                    f = w.j if e is w.i else w.i
                    u, z, y = h.x(e.y), h.x(f.y), h.x(p.y)
                    n, t = norm(w), h.num(4 * HALF)
                    beyond = y - z if h.valid(z > u) else z - y
                    # lemma: a point off the line by o and past the other end in height by b is at least norm + b - o away; on the wall at most norm
                    h.assume(h.Implies(beyond > 0, v >= n + beyond - away(w, p) - t))
                    if on(w, p):
                        h.assume(h.Implies(h.And(y >= h.xmin(u, z), y <= h.xmax(u, z)), v <= n + t))
        return v
    n = 'geometry.SR_line:LineSegment.'
    h.use(n + 'intersection_point', point)
    h.use(n + 'line_point_distance', away)
    h.use(n + 'norm', norm)
    h.use('SR_Vessel.SR_hauptteile:distance', dist)
    return made


def sides(h, segs, pts, t):
    """the segments, one by one, join the consecutive points of the closed line, in one of the two directions each; rotated and turned as they are"""
    out = []
    for a, b in zip(pts, pts[1:] + pts[:1]):
        out.append(h.Or([h.Or(h.And(at(h, s.i, a[0], a[1], t), at(h, s.j, b[0], b[1], t)),
                              h.And(at(h, s.j, a[0], a[1], t), at(h, s.i, b[0], b[1], t))) for s in segs]))
    return h.And(len(segs) == len(pts), *out)


@contract('V06', 'a sharp knuckle: two walls on each side, joined at the junction of shell and cone; shell, cone and skirt end at it',
          [HT + 'KegelKrempe.__init__', HT + 'KegelKrempe.make_segments', HT + 'KegelKrempe.assert_checking', HT + 'KegelKrempe.ht_oben',
           HT + 'KegelKrempe.ht_unten', HT + 'KegelKrempe.pos_v', HT + 'KegelKrempe.pos_h', HT + 'KegelKrempe.isvalid'],
          cases=[dict(under=u, above=a) for u in (0, 1, 2) for a in (0, 1)],
          reach=['outline', 'classes', 'joined', 'shell', 'cone', 'under', 'cut'])
def sharp_knuckle(h):
    with no_points(h):
        _sharp_knuckle(h)


def _sharp_knuckle(h):
    under = h.choice('under', [None, 'Mantel', 'StandZarge'])
    if h.symbolic:
        use_builders(h)
        h.use('geometry.SR_polygon:PolygonLine.order', sum_order(h, None))
    parts, (pv, ph, d, D, D2, H, k, a, b, hu, du) = junction(h, under)
    if h.symbolic:
        made = use_crossing(h, [m.segments[0] for m in parts])
    ma, kg = parts[:2]
    wall, cone = ma.segments[0], kg.segments[0]
    hts = [ma] + parts[2:]
    if h.choice('first', ['above', 'under']) == 'under':
        hts.reverse()
    kr = h.V.KegelKrempe(name='kr', h_non_kegelside=a, h_kegelside=b, r=0., hts=tuple(hts), kegel=kg)
    X, Y = h.x(ph), h.x(pv)
    d, D, D2, H, k, a, b = [h.x(v) / 2 if n < 3 else h.x(v) for n, v in enumerate((d, D, D2, H, k, a, b))]
    t = tol(h, 6)
    if h.symbolic:
        h.prove('cut', h.And(len(made) == 2, *[h.And(len(f) == 1, *[h.near(g[2], y, t) for g in f])
                                               for w, y in ((wall, Y + a), (cone, Y - b)) for f in [[g for g in made if g[1] is w]]]))
        xu, xl = [[h.x(g[0].x) - X for g in made if g[1] is w][0] for w in (wall, cone)]
    else:
        xu, xl = D + (D2 - D) * a / H, D - (D - d) * b / k
    lo, mid, up = (xl, Y - b), (D, Y), (xu, Y + a)
    s = list(kr.segments)
    ring = [(X + x, y) for x, y in (lo, mid, up)] + [(X - x, y) for x, y in (up, mid, lo)]
    h.prove('joined', len(s) == 6 and chained(h, s) and kr.isclosed)
    h.prove('outline', sides(h, s, ring, t))
    h.prove('classes', h.And(sorted(cname(x) for x in s) == ['NonWall'] * 2 + ['Wall'] * 4,
                             *[h.Iff(h.near(h.x(x.i.y), h.x(x.j.y), t), cname(x) == 'NonWall') for x in s]))
    h.prove('data', kr.typ == 'kegelkrempe' and kr.name == 'kr' and kr.isvalid and kr.graph.hauptteil is kr and kr.kegel is kg and kr.ht_oben is ma and
            (kr.ht_unten is parts[2] if under else kr.ht_unten is None) and kr.pos_v is ma.pos_v and kr.pos_h is ma.pos_h)
    for name, m, r in (('shell', ma, [up, (D2, Y + H)]), ('cone', kg, [(d, Y - k), lo])) + \
            ((('under', parts[2], [(h.x(du) / 2, Y - h.x(hu)), mid]),) if under else ()):
        (p, q), z = r, list(m.segments)
        g = [(X + p[0], p[1]), (X + q[0], q[1]), (X - q[0], q[1]), (X - p[0], p[1])]
        h.prove(name, h.And(len(z) == 4, chained(h, z), *[h.And(at(h, u.i, v[0], v[1], t), at(h, u.j, w[0], w[1], t))
                                                          for u, v, w in zip(z, g, g[1:] + g[:1])]))
        want = ['Wall', 'NonWall', 'Wall', 'Wall' if name == 'under' and under == 'StandZarge' else 'NonWall']
        f = m.graph.segments
        h.prove(name + ': walls', [cname(x) for x in z] == want and
                [any(same(h, x.i, y.i) is True and same(h, x.j, y.j) is True if h.symbolic else x == y for y in f) for x in z] ==
                [x == 'Wall' for x in want] and len(f) == want.count('Wall'))


@contract('V06', 'a knuckle with ends not on the walls, not on a narrowing cone, or not between shells is refused, and nothing is changed',
          [HT + 'KegelKrempe.assert_checking', HT + 'KegelKrempe.__init__', HT + 'KegelKrempe.make_segments'],
          cases=[dict(how=k) for k in range(11)], reach=['refused', 'kept'])
def refused_knuckle(h):
    with no_points(h):
        _refused_knuckle(h)


def _refused_knuckle(h):
    how = h.choice('how', ['level above', 'level below', 'far above', 'far below', 'no part', 'three parts', 'head above', 'head below', 'flat cone', 'wide cone',
                           'no cone'])
    if h.symbolic:
        use_builders(h)
        h.use('geometry.SR_polygon:PolygonLine.order', sum_order(h, None))
        h.use('SR_Vessel.SR_hauptteile:TorispherischesBoden.make_segments',       # V03
              lambda self: [h.V.Wall(h.P.Point((0, 0)), h.P.Point((1, 0))), h.V.NonWall(h.P.Point((1, 0)), h.P.Point((0, 0)))])
    parts, (pv, ph, d, D, D2, H, k, a, b, hu, du) = junction(h, 'Mantel')
    if h.symbolic:
        use_crossing(h, [m.segments[0] for m in parts])
    ma, kg, un = parts
    hts = [ma, un] if h.choice('two', [False, True]) else [ma]
    bo = h.V.Klopperboden(name='bo', pos_v=pv + 1 if how == 'head above' else pv - 1, pos_h=ph, d=D, h1=1)
    far = h.real('far', grid=True, lo=1e-3, hi=1e3, gen=lambda r: r.choice([0.001, 0.5, 100]))
    zero = h.real('zero', grid=True, lo=-1e3, hi=0, gen=lambda r: r.choice([0, 0, -0.5, -100]))
    if how in ('level above', 'level below'):
        a, b = (zero, b) if how == 'level above' else (a, zero)
    elif how in ('far above', 'far below'):
        a, b = (H + far, b) if how == 'far above' else (a, k + far)
    elif how in ('no part', 'three parts'):
        hts = [] if how == 'no part' else [ma, un, un]
    elif how in ('head above', 'head below'):
        hts = [ma, bo]
    elif how in ('flat cone', 'wide cone'):
        kg = h.V.Mantel(name='kegel', pos_v=pv - k, pos_h=ph, d=(D, D) if how == 'flat cone' else (D + far, D), h=k)
    else:
        kg = bo
    before = [(m, list(m.segments), [xy(h, p) for s in m.segments for p in s.ij]) for m in (ma, kg, un)]
    h.prove('refused', h.raises(lambda: h.V.KegelKrempe(name='kr', h_non_kegelside=a, h_kegelside=b, r=0., hts=tuple(hts), kegel=kg), AssertionError)[0])
    h.prove('kept', h.And(*[h.And(len(s) == len(m.segments), all(x is y for x, y in zip(m.segments, s)),
                                  *[h.And(v[0] == w[0], v[1] == w[1]) for v, w in zip(c, [xy(h, p) for s in m.segments for p in s.ij])])
                            for m, s, c in before]))


@contract('V06', 'a knuckle made from a dict is the one constructed with these values; a missing or an unknown key is refused',
          [HT + 'KegelKrempe.from_dict'], cases=[dict(how=k) for k in range(3)], reach=['class', 'values', 'missing', 'unknown'],
          notes=['callee contract: the outline is the subject of the other contracts'])
def knuckle_from_dict(h):
    with no_points(h):
        _knuckle_from_dict(h)


def _knuckle_from_dict(h):
    if h.symbolic:
        use_builders(h)
        h.use('geometry.SR_polygon:PolygonLine.order', sum_order(h, None))
    parts, (pv, ph, d, D, D2, H, k, a, b, hu, du) = junction(h)
    if h.symbolic:
        use_crossing(h, [m.segments[0] for m in parts])
    names = ['name', 'h_oben', 'h_unten', 'r', 'hts', 'kegel']
    vals = dict(zip(names, ['kr', a, b, 0, (parts[0],), parts[1]]))
    how = h.choice('how', ['good', 'missing', 'unknown'])
    if how == 'good':
        keep = dict(vals)
        m = h.V.KegelKrempe.from_dict(vals)
        h.prove('class', type(m) is h.V.KegelKrempe)
        h.prove('values', m.name == 'kr' and m.h_oben is a and m.h_unten is b and m.r == 0 and m.kegel is parts[1] and len(m.hts) == 1 and m.hts[0] is parts[0])
        h.prove('frame', sorted(vals) == sorted(keep) and all(vals[k] is keep[k] for k in keep))
    elif how == 'missing':
        del vals[h.choice('key', names)]
        h.prove('missing', h.raises(lambda: h.V.KegelKrempe.from_dict(vals))[0])
    else:
        vals = dict([('colour', 'red')] + list(vals.items())) if h.bool('front') else dict(list(vals.items()) + [('colour', 'red')])
        h.prove('unknown', h.raises(lambda: h.V.KegelKrempe.from_dict(vals))[0])


@contract('V06', 'a rounded knuckle: three sides of an arc that touches cone and shell, extended to the heights asked for if these lie beyond it',
          [HT + 'KegelKrempe.make_segments', HT + 'KegelKrempe.__init__'], nosym=True, conc_mult=3)
def round_knuckle(h):
    with no_points(h):
        _round_knuckle(h)


def _round_knuckle(h):
    import math
    under = h.choice('under', [None, 'Mantel', 'StandZarge'])
    pv, ph, D, H, k = place(h, 'pos_v'), place(h, 'pos_h'), size(h, 'D', 50), size(h, 'H', 50), size(h, 'k', 50)
    D2, d = D, D * h.choice('narrow', [0.1, 0.3, 0.5, 0.9, 0.99])
    r = D * h.choice('r', [0.1, 0.154, 0.01, 0.3])
    f, g = [h.choice(n, [0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.999]) for n in 'fg']
    a, b = H * f, k * g
    w = math.atan2((D - d) / 2., k)
    up, lo = r * math.tan(w / 2), r * math.sin(w) - r * math.tan(w / 2)      # ends of the arc above and below the junction
    m = 1e-4
    h.assume(D >= 0.1 and D - d <= 20 * k and w > 0.01 and up < H - m and lo < k - m and abs(up - a) > m and abs(lo - b) > m and m < min(a, H - a, b, k - b))
    h.assume(r * w / 3 > m)
    ma = h.V.Mantel(name='ma', pos_v=pv, pos_h=ph, d=(D, D2), h=H)
    kg = h.V.Mantel(name='kegel', pos_v=pv - k, pos_h=ph, d=(d, D), h=k)
    parts = [ma, kg]
    if under:
        hu, du = size(h, 'hu'), size(h, 'du')
        h.assume(du >= 0.1 and abs(D - du) <= 20 * hu and hu > lo + m)
        parts.append(getattr(h.V, under)(name='un', pos_v=pv - hu, pos_h=ph, d=(du, D), h=hu))
    hts = [ma] + parts[2:]
    if h.choice('first', ['above', 'under']) == 'under':
        hts.reverse()
    kr = h.V.KegelKrempe(name='kr', h_non_kegelside=a, h_kegelside=b, r=r, hts=tuple(hts), kegel=kg)
    t = 1e-7 * max(1, 1 / w)
    right = [(D / 2 - r + r * math.cos(w * (n / 3. - 1)), pv + up + r * math.sin(w * (n / 3. - 1))) for n in range(4)]
    if b > lo:
        right.insert(0, (D / 2 - (D - d) / 2 * b / k, pv - b))
    if a > up:
        right.append((D / 2, pv + a))
    s = list(kr.segments)
    ring = [(ph + x, y) for x, y in right] + [(ph - x, y) for x, y in reversed(right)]
    h.prove('joined', len(s) == len(ring) and chained(h, s) and kr.isclosed)
    h.prove('outline', sides(h, s, ring, t))
    n = [x for x in s if cname(x) == 'NonWall']
    h.prove('classes', len(n) == 2 and all(abs(x.i.y - x.j.y) < t and abs(x.i.x + x.j.x - 2 * ph) < 2 * t for x in n) and
            sorted({cname(x) for x in s}) == ['NonWall', 'Wall'])
    for name, m, (p, q) in (('shell', ma, (right[-1], (D / 2, pv + H))), ('cone', kg, ((d / 2, pv - k), right[0]))) + \
            ((('under', parts[2], ((du / 2, pv - hu), right[-2])),) if under else ()):
        z = list(m.segments)
        g = [(ph + p[0], p[1]), (ph + q[0], q[1]), (ph - q[0], q[1]), (ph - p[0], p[1])]
        h.prove(name, len(z) == 4 and chained(h, z) and all(at(h, u.i, v[0], v[1], t) and at(h, u.j, w[0], w[1], t) for u, v, w in zip(z, g, g[1:] + g[:1])))
        want = ['Wall', 'NonWall', 'Wall', 'Wall' if name == 'under' and under == 'StandZarge' else 'NonWall']
        h.prove(name + ': walls', [cname(x) for x in z] == want and len(m.graph.segments) == want.count('Wall'))


@contract('V07', 'the known points of a knuckle under a cylinder: two inside and two outside next to each wall of its graph',
          [HT + 'KegelKrempe.intex_points', GRA + 'add_intex_points', GRA + 'renew'], secs=200, reach=['both sides', 'close', 'number'])
def knuckle_points(h):
    if h.symbolic:
        X, Y = h.coord('X'), h.coord('Y')
        d, D, a, b = size(h, 'd'), size(h, 'D'), size(h, 'a'), size(h, 'b')
        e = h.num(1e-3)
        x, y, D, d, a, b = h.x(X), h.x(Y), h.x(D), h.x(d), h.x(a), h.x(b)
        h.assume(h.And(d >= h.num(0.5), D - d >= e, a >= e, b >= e, D - d <= 10 * b))
        P, W, N = h.P.Point, h.V.Wall, h.V.NonWall
        right, left = [[P((X + s * u, Y + v)) for u, v in ((d, -b), (D, 0 * b), (D, a))] for s in (1, -1)]
        kr = object.__new__(h.V.KegelKrempe)
        h.G.PolygonLine.__init__(kr, [W(*right[:2]), W(*right[1:]), N(right[2], left[2]), W(left[2], left[1]), W(left[1], left[0]), N(left[0], right[0])])

        class Top(object):
            pos_h, pos_v = X, Y
        kr.hts, kr.name, kr.typ = (Top(),), 'kr', 'kegelkrempe'
        kr._graphrep = [W(*right[:2]), W(*right[1:]), W(*left[:2]), W(*left[1:])]
        g = object.__new__(h.GR.Graph)
        h.G.PolygonLine.__init__(g, None)
        g.hauptteil = kr
        kr._graph = g
        sum_in_ring(h, right + left[::-1])
        g.renew()
    else:
        import math
        pv, ph = place(h, 'pos_v'), place(h, 'pos_h')
        D, H, k = [h.choice(n, [1, 2, 4, 10, 50, 1000]) for n in 'DHk']
        d = D * h.choice('narrow', [0.3, 0.5, 0.9, 0.98])
        a, b = [v * h.choice(n, [0.02, 0.1, 0.5, 0.9]) for n, v in (('a', H), ('b', k))]
        h.assume(D - d <= 10 * k and (D - d) * b >= 4e-3 * k)
        r = float(D) * h.choice('r', [0, 0, 0.1, 0.05])
        w = math.atan2((D - d) / 2., k)
        if r:
            h.assume(w > 0.01 and r * math.tan(w / 2) < H - 1e-3 and r * math.sin(w) - r * math.tan(w / 2) < k - 1e-3)
            h.assume(abs(r * math.tan(w / 2) - a) > 1e-3 and abs(r * math.sin(w) - r * math.tan(w / 2) - b) > 1e-3 and r * w > 1e-2)
        G = h.V.Graph
        keep = G.add_intex_points
        G.add_intex_points = lambda self: None
        try:
            ma = h.V.Mantel(name='ma', pos_v=pv, pos_h=ph, d=(D, D), h=H)
            kg = h.V.Mantel(name='kegel', pos_v=pv - k, pos_h=ph, d=(d, D), h=k)
            kr = h.V.KegelKrempe(name='kr', h_non_kegelside=a, h_kegelside=b, r=r, hts=(ma,), kegel=kg)
        finally:
            G.add_intex_points = keep
        g, X = kr.graph, ph
        g.renew()
    ok, near, num = [], [], []
    for w in g.segments:
        num.append(len(of_seg(g.internal, w)) == 2 and len(of_seg(g.external, w)) == 2)
        (ax, ay), (bx, by) = xy(h, w.i), xy(h, w.j)
        for p in of_seg(g.internal, w) + of_seg(g.external, w):
            px, py = xy(h, p)
            inner = any(p is q for q in g.internal)
            o = (bx - ax) * (py - ay) - (by - ay) * (px - ax)
            s = 1 if h.lt(h.x(X), ax) else -1
            up = 1 if h.lt(ay, by) else -1
            ok.append(o * s * up > 0 if inner else o * s * up < 0)
            near.append(h.And(py > h.xmin(ay, by), py < h.xmax(ay, by)))
    n = len(g.segments)
    h.prove('number', h.And(all(num), n >= 4, len(g.internal) == 2 * n, len(g.external) == 2 * n, len(g.indifferent) == 0))
    h.prove('both sides', h.And(ok))
    h.prove('close', h.And(near))
