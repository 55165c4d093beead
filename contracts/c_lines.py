"""contracts of geometry/SR_line.py"""
from .reg import contract
from .specs import (EPS, HALF, xy, peq, same, sep, apart, cross3, vec, cross, dot, sq, inbox, share)

LN = 'geometry/SR_line.py:LineSegment.'
LM = 'geometry/SR_line.py:'


def nonnull(h, *ss):
    for s in ss:
        h.assume(apart(h, s.i, s.j))


def cls_of(h, name='cls'):
    return h.choice(name, [h.L.LineSegment, h.V.Wall, h.V.NonWall])


# ------------------------------------------------------------------ G03
@contract('G03', 'projections, length and box of a segment',
          [LN + 'delta_x', LN + 'delta_y', LN + 'as_vector', LN + 'norm', LN + 'bounding_box', LN + 'ij', LN + 'i',
           LN + 'j', LN + 'isvalid', LN + 'isnull'], reach=['norm', 'null'])
def measures(h):
    s = h.segment('s', cls_of(h))
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    h.decided(a - c - h.num(1e-5), c - a - h.num(1e-5), b - d - h.num(1e-5), d - b - h.num(1e-5))
    h.prove('dx', h.eq(s.delta_x, c - a))
    h.prove('dy', h.eq(s.delta_y, d - b))
    h.prove('vec', h.And(s.as_vector[0] == s.delta_x, s.as_vector[1] == s.delta_y))
    n = s.norm
    h.prove('norm', h.And(n >= 0, h.eq(h.x(n) * h.x(n), (c - a) * (c - a) + (d - b) * (d - b))))
    bb = s.bounding_box
    h.prove('box', h.And(bb[0][0] == h.xmin(s.i.x, s.j.x), bb[0][1] == h.xmax(s.i.x, s.j.x),
                         bb[1][0] == h.xmin(s.i.y, s.j.y), bb[1][1] == h.xmax(s.i.y, s.j.y)))
    h.prove('null', h.Iff(s.isnull(), peq(h, s.i, s.j)))
    h.prove('valid', s.isvalid)
    h.prove('ends', s.ij[0] is s.i and s.ij[1] is s.j and len(s.ij) == 2)


@contract('G03', 'unit vector', [LN + 'unitvector', LN + 'isnull'], reach=['unit', 'zero'])
def unit(h):
    s = h.segment('s')
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    h.decided(a - c - h.num(1e-5), c - a - h.num(1e-5), b - d - h.num(1e-5), d - b - h.num(1e-5))
    u = s.unitvector
    if peq(h, s.i, s.j):
        h.prove('zero', h.And(u[0] == 0, u[1] == 0))
    else:
        n = s.norm
        h.prove('unit', h.eq(u[0] * u[0] + u[1] * u[1], 1))
        h.prove('dir', h.And(h.eq(u[0] * n, s.delta_x), h.eq(u[1] * n, s.delta_y)))


@contract('G03', 'cross and dot product', [LN + 'crossproduct', LN + 'dotproduct', LN + 'line_reversed',
                                           LN + 'is_parallel', LN + 'is_intersecting'], reach=['cross', 'rev'])
def products(h):
    s, t = h.segment('s', cls_of(h)), h.segment('t')
    h.prove('cross', h.eq(s.crossproduct(t), cross(h, s, t)))
    h.prove('dot', h.eq(s.dotproduct(t), dot(h, s, t)))
    h.prove('antisym', h.eq(s.crossproduct(t), -t.crossproduct(s)))
    h.prove('sym', h.eq(s.dotproduct(t), t.dotproduct(s)))
    r = s.line_reversed
    h.prove('rev', h.And(same(h, r.i, s.j), same(h, r.j, s.i)))
    h.prove('revcross', h.eq(r.crossproduct(t), -cross(h, s, t)))
    h.prove('revdot', h.eq(r.dotproduct(t), -dot(h, s, t)))
    h.decided(cross(h, s, t))
    h.prove('parallel', h.Iff(s.is_parallel(t), cross(h, s, t) == 0))
    h.prove('intersecting', h.Iff(s.is_intersecting(t), cross(h, s, t) != 0))
    h.prove('self', h.And(s.is_parallel(s), s.is_parallel(r)))


@contract('G03', 'reversal is an involution and keeps the points', [LN + 'reverse', LN + 'line_reversed'])
def reversal(h):
    s = h.segment('s', cls_of(h))
    i, j = s.i, s.j
    r = s.line_reversed
    h.prove('copy', h.And(r.i is j, r.j is i, s.i is i, s.j is j))
    s.reverse()
    h.prove('swap', h.And(s.i is j, s.j is i))
    s.reverse()
    h.prove('back', h.And(s.i is i, s.j is j))


@contract('G03', 'cross product of segments with a common start', [LN + 'crossproduct_commonstart'])
def commonstart(h):
    o, a, b = h.point('o'), h.point('a'), h.point('b')
    S = h.L.LineSegment
    h.prove('value', h.eq(S(o, a).crossproduct_commonstart(S(o, b)), cross3(h, o, a, b)))
    c = h.point('c')
    h.assume(apart(h, o, c))
    h.prove('refuses', h.raises(lambda: S(o, a).crossproduct_commonstart(S(c, b)), AssertionError)[0])


@contract('G03', 'equality of segments, directed and loose',
          [LN + '__eq__', LN + '__ne__', LN + 'loose_equal', LN + '__hash__'], reach=['eq', 'loose'])
def seg_equality(h):
    cs = cls_of(h)
    s = h.segment('s', cs)
    k = h.choice('other', ['same', 'reversed', 'free', 'cls'])
    P = h.P.Point
    if k == 'same':
        t = cs(P(s.i.xy), P(s.j.xy))
    elif k == 'reversed':
        t = cs(P(s.j.xy), P(s.i.xy))
    elif k == 'free':
        t = h.segment('t', cs)
    else:
        oc = h.choice('ocls', [c for c in (h.L.LineSegment, h.V.Wall, h.V.NonWall) if c is not cs])
        t = oc(P(s.i.xy), P(s.j.xy))
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    if k == 'cls':
        h.prove('class', h.And(h.Not(s == t), s != t, h.Not(s.loose_equal(t))))
        return
    d = h.And(same(h, s.i, t.i), same(h, s.j, t.j))
    w = h.And(same(h, s.i, t.j), same(h, s.j, t.i))
    h.prove('eq', h.Iff(s == t, d))
    h.prove('ne', h.Iff(s != t, h.Not(d)))
    h.prove('loose', h.Iff(s.loose_equal(t), h.Or(d, w)))
    h.prove('hash', h.Implies(d, hash(s) == hash(t)))


# ------------------------------------------------------------------ G04
@contract('G04', 'left, right, on: signs of the orientation',
          [LN + 'is_point_to_right', LN + 'is_point_to_left', LN + 'is_point_on_line', LN + 'line_reversed',
           LN + 'crossproduct_commonstart'], reach=['one', 'swap'])
def side(h):
    s, p = h.segment('s', cls_of(h)), h.point('p')
    nonnull(h, s)
    h.assume(h.Or(same(h, p, s.i), apart(h, p, s.i)))
    h.assume(h.Or(same(h, p, s.j), apart(h, p, s.j)))
    c = cross3(h, s.i, s.j, p)
    e = h.num(EPS)
    h.decided(c, c - e, c + e)
    rt, lt, on = s.is_point_to_right(p), s.is_point_to_left(p), s.is_point_on_line(p)
    h.prove('right', h.Implies(h.Or(c >= e, c <= -e), h.Iff(rt, c < 0)))
    h.prove('left', h.Implies(h.Or(c >= e, c <= -e), h.Iff(lt, c > 0)))
    h.prove('on', h.Iff(on, h.And(c < e, -e < c)))
    h.prove('exact', h.Implies(c == 0, h.And(on, h.Not(rt), h.Not(lt))))
    h.prove('one', h.Implies(h.Or(c >= e, c <= -e, c == 0),
                             h.Or(h.And(rt, h.Not(lt), h.Not(on)), h.And(lt, h.Not(rt), h.Not(on)),
                                  h.And(on, h.Not(rt), h.Not(lt)))))
    r = s.line_reversed
    h.prove('swap', h.Implies(h.Or(c >= e, c <= -e, c == 0),
                              h.And(h.Iff(r.is_point_to_right(p), lt), h.Iff(r.is_point_to_left(p), rt))))
    h.prove('onrev', h.Iff(r.is_point_on_line(p), on))


@contract('G04', 'distance of a point from a line', [LN + 'line_point_distance'])
def linedist(h):
    s, p = h.segment('s'), h.point('p')
    nonnull(h, s)
    d = s.line_point_distance(p)
    c = cross3(h, s.i, s.j, p)
    h.prove('nonneg', d >= 0)
    h.prove('value', h.eq(h.x(d) * h.x(d) * sq(h, s), c * c, tol=1e-7))
    h.prove('reversed', h.eq(d, s.line_reversed.line_point_distance(p), tol=1e-7))


@contract('G04', 'collinear segments', [LN + 'is_collinear', LN + 'is_point_on_line'])
def collinear(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    e = h.num(EPS)
    a, b = cross3(h, s.i, s.j, t.i), cross3(h, s.i, s.j, t.j)
    h.decided(a - e, a + e, b - e, b + e)
    h.prove('both', h.Iff(s.is_collinear(t), h.And(a < e, -e < a, b < e, -e < b)))


# ------------------------------------------------------------------ G05
@contract('G05', 'the angle between two segments is in [0, 180], symmetric and has the right cosine',
          [LN + 'angle_between_lines', LN + 'norm', LN + 'dotproduct'], reach=['range', 'cosine'])
def angle(h):
    s, t = h.segment('s', cls_of(h)), h.segment('t')
    nonnull(h, s, t)
    a = s.angle_between_lines(t)
    h.prove('range', h.And(a >= 0, h.le(a, 180)))
    d = dot(h, s, t)
    h.prove('cosine', h.eq(h.cosd(a) * s.norm * t.norm, d, tol=1e-7))
    h.prove('symmetric', h.eq(a, t.angle_between_lines(s), tol=1e-6))
    h.prove('zero', h.Implies(h.And(cross(h, s, t) == 0, d > 0), h.near(a, 0, 1e-5) if not h.symbolic else a == 0))
    h.prove('straight', h.Implies(h.And(cross(h, s, t) == 0, d < 0),
                                  h.near(a, 180, 1e-5) if not h.symbolic else a == 180))
    h.prove('right', h.Implies(d == 0, h.near(a, 90, 1e-6) if not h.symbolic else a == 90))


@contract('G05', 'the angle is defined for parallel, equal and reversed segments', [LN + 'angle_between_lines'])
def angle_parallel(h):
    s = h.segment('s')
    nonnull(h, s)
    k = h.choice('k', ['self', 'rev', 'copy'])
    P = h.P.Point
    t = {'self': lambda: s, 'rev': lambda: s.line_reversed,
         'copy': lambda: h.L.LineSegment(P(s.i.xy), P(s.j.xy))}[k]()
    a = s.angle_between_lines(t)
    want = 180 if k == 'rev' else 0
    h.prove('value', h.near(a, want, 1e-5) if not h.symbolic else a == want)


@contract('G05', 'angle from the start point', [LN + 'angle_from_start_point'])
def angle_start(h):
    s, p = h.segment('s'), h.point('p')
    nonnull(h, s)
    h.assume(apart(h, s.i, p))
    a = s.angle_from_start_point(p)
    b = s.angle_between_lines(h.L.LineSegment(s.i, p))
    h.prove('same', h.eq(a, b))


@contract('G05', 'direction is the polar angle in [0, 360)', [LN + 'direction'], reach=['range'])
def direction(h):
    s = h.segment('s', cls_of(h))
    nonnull(h, s)
    a = s.direction
    h.prove('range', h.And(a >= 0, a < 360))
    dx, dy = vec(h, s)
    h.prove('east', h.Iff(a == 0, h.And(dy == 0, dx > 0)))
    if h.symbolic:
        h.prove('north', h.Iff(a == 90, h.And(dx == 0, dy > 0)))
        h.prove('west', h.Iff(a == 180, h.And(dy == 0, dx < 0)))
        h.prove('south', h.Iff(a == 270, h.And(dx == 0, dy < 0)))
    h.prove('upper', h.Iff(h.And(a > 0, a < 180), dy > 0))
    h.prove('lower', h.Iff(h.And(a > 180, a < 360), dy < 0))
    h.prove('right half', h.Iff(h.Or(a < 90, a > 270), dx > 0) if h.symbolic else True)
    if not h.symbolic:
        n = s.norm
        h.prove('polar', h.And(h.near(n * h.cosd(a), dx, 1e-6), h.near(n * h.sind(a), dy, 1e-6)))


@contract('G05', 'direction of segments that leave an axis by almost nothing', [LN + 'direction'], nosym=True, conc_mult=2)
def direction_thin(h):
    long = h.real('long', gen=lambda r: r.choice([1, 5, 30, 1000, 20000, 1000000]) * r.choice([1, -1]))
    thin = h.real('thin', gen=lambda r: r.choice([1, 3, 50, 400, 20000]) * r.choice([1, -1]) / 1e8)
    up = h.choice('up', [False, True])
    ax, ay = (0, 0) if abs(long) > 1000 else (h.coord('a.x'), h.coord('a.y'))
    p, q = h.P.Point((ax, ay)), h.P.Point((ax + (thin if up else long), ay + (long if up else thin)))
    s = h.L.LineSegment(p, q)
    a = s.direction
    dx, dy = vec(h, s)
    h.check_input(dx != 0 and dy != 0)
    h.prove('range', 0 <= a < 360)
    h.prove('upper', (0 < a < 180) == (dy > 0))
    h.prove('lower', (180 < a < 360) == (dy < 0))
    h.prove('right', (a < 90 or a > 270) == (dx > 0))


@contract('G05', 'parallel same-direction segments have one direction, opposite ones differ by 180',
          [LN + 'direction', LN + 'opposite_direction', LN + 'line_reversed'], reach=['opposite', 'reverse'])
def opposite(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    c, d = cross(h, s, t), dot(h, s, t)
    h.decided(c, d)
    h.prove('opposite', h.Iff(s.opposite_direction(t), h.And(c == 0, d < 0)))
    h.prove('reverse', h.And(s.opposite_direction(s.line_reversed), h.Not(s.opposite_direction(s))))
    if h.symbolic:
        a, b = s.direction, t.direction
        h.prove('same', h.Iff(a == b, h.And(c == 0, d > 0)))
        h.prove('differ', h.Implies(h.And(c == 0, d < 0), h.Or(a - b == 180, b - a == 180)))


# ------------------------------------------------------------------ G06
def inter_spec(h, s, t, name, p):
    """p lies on the intersection point of the lines (rounded)"""
    den = cross(h, s, t)
    tn = cross3(h, t.i, t.j, s.i)           # parameter of s at the crossing: -tn / den
    (ax, ay), (dx, dy) = xy(h, s.i), vec(h, s)
    ad = h.ite(den < 0, -den, den)
    hx = (h.x(p.x) - ax) * den + dx * tn * -1
    hy = (h.x(p.y) - ay) * den + dy * tn * -1
    e = h.num(HALF) if h.symbolic else h.num(1e-6)
    h.prove(name, h.And(hx <= e * ad, -hx <= e * ad, hy <= e * ad, -hy <= e * ad))


@contract('G06', 'the intersection point lies on both lines, parallel lines have none',
          [LN + 'intersection_point', LN + 'is_parallel'], reach=['none', 'on s', 'on t'])
def intersection(h):
    s, t = h.segment('s', cls_of(h)), h.segment('t')
    den = cross(h, s, t)
    h.decided(den)
    p = s.intersection_point(t)
    h.prove('none', h.Iff(p is None, den == 0))
    if p is None:
        return
    if not h.symbolic:
        h.check_input(abs(den) > 1e-3)
    inter_spec(h, s, t, 'on s', p)
    inter_spec(h, t, s, 'on t', p)


def _cross_exact(h, s, t):
    """exact crossing of the two lines"""
    den = cross(h, s, t)
    tn = cross3(h, t.i, t.j, s.i)
    (ax, ay), (dx, dy) = xy(h, s.i), vec(h, s)
    return ax + dx * tn / den, ay + dy * tn / den


def sum_intersection(h):
    """callee summary: what the contract 'intersection' guarantees"""
    def f(self, other):
        assert other.isvalid
        den = cross(h, self, other)
        if den == 0:
            return None
        x, y = _cross_exact(h, self, other)
        return h.P.Point((x, y))
    return f


def sum_touch(h):
    """callee summary: what the contract 'touch' guarantees for separated points"""
    def f(self, other):
        assert other.isvalid
        return share(h, self, other)
    return f


@contract('G06', 'touch: an endpoint in common', [LN + 'touch'], reach=['touch'])
def touch(h):
    s, t = h.segment('s', cls_of(h)), h.segment('t')
    nonnull(h, s, t)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    h.prove('touch', h.Iff(s.touch(t), share(h, s, t)))


@contract('G06', 'continuous: end meets start', [LN + 'continuous'], reach=['continuous'])
def continuous(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    h.use('geometry.SR_line:LineSegment.touch', sum_touch(h))
    h.prove('continuous', h.Iff(s.continuous(t), h.Or(same(h, s.j, t.i), same(h, s.i, t.j))))


@contract('G06', 'a point is internal to the box of a segment', [LN + 'is_internal_point'], reach=['in', 'out'])
def box(h):
    s, p = h.segment('s', cls_of(h)), h.point('p')
    px, py = xy(h, p)
    r = s.is_internal_point(p)
    h.prove('in', h.Implies(inbox(h, s, px, py, 9e-9), r))
    h.prove('out', h.Implies(h.Not(inbox(h, s, px, py, 1.1e-8)), h.Not(r)))


@contract('G06', 'segments cross exactly when the crossing of their lines lies within both',
          [LN + 'intersection_on_segment', LN + 'is_internal_point'], reach=['true', 'false'])
def on_segment(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    den = cross(h, s, t)
    h.decided(den)
    h.use('geometry.SR_line:LineSegment.touch', sum_touch(h))
    h.use('geometry.SR_line:LineSegment.intersection_point', sum_intersection(h))
    r = s.intersection_on_segment(t)
    if h.Or(den == 0, share(h, s, t)):
        h.prove('parallel or touching', h.Not(r))
        return
    if not h.symbolic:
        h.check_input(abs(den) > 1e-3)
    x, y = _cross_exact(h, s, t)
    h.prove('true', h.Implies(h.And(inbox(h, s, x, y, 0), inbox(h, t, x, y, 0)), r))
    m = 2e-8 if h.symbolic else 1e-6
    h.prove('false', h.Implies(h.Not(h.And(inbox(h, s, x, y, m), inbox(h, t, x, y, m))), h.Not(r)))


@contract('G06', 'within both means the end points lie on different sides (lemma over the specification)',
          [LN + 'intersection_on_segment'], reach=['lemma'])
def sides_lemma(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    den = cross(h, s, t)
    h.assume(den != 0)
    # crossing = s.i + k (s.j - s.i), k = tn / den; it is in the box of s iff 0 <= k <= 1
    k = cross3(h, t.i, t.j, s.i) / den
    (ax, ay), (dx, dy) = xy(h, s.i), vec(h, s)
    x, y = ax + k * dx, ay + k * dy
    h.prove('lemma', h.Iff(inbox(h, s, x, y, 0), h.And(k >= 0, k <= 1)))
    h.prove('sides', h.eq(cross3(h, t.i, t.j, s.i) - cross3(h, t.i, t.j, s.j), den))


@contract('G06', 'crossing on an end point', [LN + 'intersection_on_endpoint'], reach=['parallel', 'touch', 'ends'])
def on_endpoint(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    den = cross(h, s, t)
    h.decided(den)
    h.use('geometry.SR_line:LineSegment.touch', sum_touch(h))
    h.use('geometry.SR_line:LineSegment.intersection_point', sum_intersection(h))
    r = s.intersection_on_endpoint(t)
    if den == 0:
        h.prove('parallel', h.Not(r))
        return
    if share(h, s, t):
        h.prove('touch', r)
        return
    if not h.symbolic:
        h.check_input(abs(den) > 1e-3)
    p = s.intersection_point(t)
    h.decided(*[v - h.num(1e-5) for e in (s.i, s.j, t.i, t.j) for a, b in zip(xy(h, p), xy(h, e))
                for v in (a - b, b - a)])
    h.prove('ends', h.Iff(r, h.Or(peq(h, p, s.i), peq(h, p, s.j), peq(h, p, t.i), peq(h, p, t.j))))


# ------------------------------------------------------------------ G07
def collinear_points(h, n, names='t'):
    """n points a + t u on one line (u from a direction case), coordinates on the grid"""
    ax, ay = h.coord('a.x'), h.coord('a.y')
    k = h.choice('dir', ['x', 'y', 'g', 'n'])
    u = h.coord('u', gen=lambda r: r.randint(1, 4), lo=0)
    v = h.coord('v', gen=lambda r: r.randint(1, 4), lo=0)
    h.assume(u > 0)
    h.assume(v > 0)
    dx, dy = {'x': (u, 0), 'y': (0, u), 'g': (u, v), 'n': (u, -v)}[k]
    ts = [h.real('%s%d' % (names, i), gen=lambda r: r.randint(-5, 6)) for i in range(n)]
    pts = []
    for t in ts:
        pts.append(h.P.Point((h.ongrid(ax + t * dx), h.ongrid(ay + t * dy))))
    return ts, pts, (dx, dy)


@contract('G07', 'overlap of collinear segments is the intersection of the intervals',
          [LN + 'overlap', LN + 'loose_equal', LN + 'is_collinear'], reach=['disjoint', 'segment', 'point'],
          cases=[(k, w) for k in range(2) for w in range(2)], paths=30000, secs=100)
def overlap_collinear(h):
    ts, p, d = collinear_points(h, 4)
    for i in range(4):
        for j in range(i + 1, 4):
            a, b = ts[i], ts[j]
            h.assume(h.Or(a == b, h.Not(same(h, p[i], p[j]))))
            h.assume(sep(h, p[i], p[j]))
    # WLOG by case split: each of the two segments is given forwards or backwards
    h.assume(ts[0] < ts[1])
    h.assume(ts[2] < ts[3])
    S = h.L.LineSegment
    s = S(p[0], p[1]) if h.case[0] == 0 else S(p[1], p[0])
    t = S(p[2], p[3]) if h.case[1] == 0 else S(p[3], p[2])
    # concrete side: only inputs whose products are computed exactly (see DESIGN: floats as reals)
    h.decided(cross(h, s, t), cross3(h, s.i, s.j, t.i))
    lo, hi = h.xmax(ts[0], ts[2]), h.xmin(ts[1], ts[3])
    h.use('geometry.SR_line:LineSegment.touch', sum_touch(h))
    h.use('geometry.SR_line:LineSegment.is_collinear', lambda self, other: True)
    ok, part = s.overlap(t)
    cp = s.common_part(t)
    if lo > hi:
        h.prove('disjoint', h.And(h.Not(ok), part is None, cp is None))
        return
    i = 0 if lo == ts[0] else 2
    j = 1 if hi == ts[1] else 3
    if lo == hi:
        h.prove('point', h.And(ok, isinstance(part, h.P.Point), isinstance(cp, h.P.Point)))
        h.prove('where', h.And(same(h, part, p[i]), same(h, cp, p[i])))
        return
    h.prove('segment', h.And(ok, isinstance(part, S), isinstance(cp, S)))
    for q in (part, cp):
        h.prove('ends', h.Or(h.And(same(h, q.i, p[i]), same(h, q.j, p[j])),
                             h.And(same(h, q.i, p[j]), same(h, q.j, p[i]))))


@contract('G07', 'no overlap of segments on different lines; common part of crossing segments',
          [LN + 'overlap', LN + 'common_part', LN + 'common_part_type'], reach=['no overlap', 'crossing', 'apart'])
def common_noncollinear(h):
    s, t = h.segment('s'), h.segment('t')
    nonnull(h, s, t)
    h.assume(sep(h, s.i, s.j, t.i, t.j))
    e = h.num(EPS)
    a, b = cross3(h, s.i, s.j, t.i), cross3(h, s.i, s.j, t.j)
    den = cross(h, s, t)
    h.decided(a, b, den, a - e, b - e, a + e, b + e)
    h.assume(h.Or(den != 0, a >= e, a <= -e))
    h.assume(h.Or(den != 0, b >= e, b <= -e))
    h.use('geometry.SR_line:LineSegment.touch', sum_touch(h))
    h.use('geometry.SR_line:LineSegment.intersection_point', sum_intersection(h))
    ons = {}

    def onseg(self, other):
        k = (id(self), id(other))
        if k not in ons:
            ons[k] = h.And(den != 0, h.Not(share(h, s, t)), h.freshbool('on'))
        return ons[k]
    h.use('geometry.SR_line:LineSegment.intersection_on_segment', onseg)
    r = s.overlap(t)
    h.prove('no overlap', h.And(h.Not(r[0]), r[1] is None))
    cp = s.common_part(t)
    ty = s.common_part_type(t)
    hit = h.And(den != 0, h.Or(share(h, s, t), s.intersection_on_segment(t)))
    h.prove('crossing', h.Iff(cp is not None, hit))
    h.prove('type', ty == (None if cp is None else 'Point'))
    if cp is not None:
        q = s.intersection_point(t)
        h.prove('where', same(h, cp, q))
    else:
        h.prove('apart', h.Not(hit))


# ------------------------------------------------------------------ G08
@contract('G08', 'point at a ratio', [LM + 'point_on_line_at_ratio'], reach=['inside', 'ends', 'refuse'])
def at_ratio(h):
    s = h.segment('s', cls_of(h))
    r = h.real('r', lo=-2, hi=3, gen=lambda g: g.choice([-0.5, 0, 1, 0.25, 0.5, 0.75, 1.5, 0.01, 0.99, g.randint(0, 64) / 64.0]))
    f = h.L.point_on_line_at_ratio
    if h.Or(r < 0, r > 1):
        h.prove('refuse', h.raises(lambda: f(line=s, ratio=r), AssertionError)[0])
        return
    p = f(line=s, ratio=r)
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    rr = h.x(r)
    h.prove('inside', h.And(h.near(h.x(p.x), a + rr * (c - a), HALF), h.near(h.x(p.y), b + rr * (d - b), HALF)))
    h.prove('ends', h.And(h.Implies(r == 0, p is s.i), h.Implies(r == 1, p is s.j)))


@contract('G08', 'dividing a segment into n parts (n up to 6)', [LM + 'divide_line'], bounded='1 to 6 parts',
          reach=['count', 'chain', 'where'])
def divide(h):
    s = h.segment('s')
    n = h.choice('n', [1, 2, 3, 4, 5, 6])
    out = h.L.divide_line(s, n)
    h.prove('count', len(out) == n)
    h.prove('first', out[0].i is s.i)
    h.prove('last', out[-1].j is s.j)
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    for k in range(n):
        if k:
            h.prove('chain', out[k].i is out[k - 1].j)
            x = a * (n - k) / n + c * k / n
            y = b * (n - k) / n + d * k / n
            h.prove('where', h.And(h.near(h.x(out[k].i.x), x, HALF), h.near(h.x(out[k].i.y), y, HALF)))


@contract('G08', 'adding a point to a segment', [LM + 'add_point_on_line'], reach=['split', 'refused'])
def add_point(h):
    s, p = h.segment('s'), h.point('p')
    px, py = xy(h, p)
    r = h.L.add_point_on_line(s, p)
    if inbox(h, s, px, py, 9e-9):
        h.prove('split', h.And(r is not False))
        if r is not False:
            h.prove('parts', h.And(len(r) == 2, same(h, r[0].i, s.i), same(h, r[0].j, p), same(h, r[1].i, p),
                                   same(h, r[1].j, s.j)))
    if h.Not(inbox(h, s, px, py, 1.1e-8)):
        h.prove('refused', r is False)


# ------------------------------------------------------------------ G09 (segments)
@contract('G09', 'moving and mirroring a segment', [LN + 'move', LN + 'mirror_vertical'], reach=['move', 'mirror'])
def seg_transform(h):
    s = h.segment('s', cls_of(h))
    (a, b), (c, d) = xy(h, s.i), xy(h, s.j)
    i, j = s.i, s.j
    x0, y0 = h.coord('x0'), h.coord('y0')
    if h.bool('mirror'):
        s.mirror_vertical(x0=x0)
        w = h.x(x0)
        h.prove('mirror', h.And(h.near(h.x(s.i.x), 2 * w - a, HALF), h.eq(h.x(s.i.y), b),
                                h.near(h.x(s.j.x), 2 * w - c, HALF), h.eq(h.x(s.j.y), d)))
    else:
        s.move(x0=x0, y0=y0)
        v, w = h.x(x0), h.x(y0)
        h.prove('move', h.And(h.near(h.x(s.i.x), a + v, HALF), h.near(h.x(s.i.y), b + w, HALF),
                              h.near(h.x(s.j.x), c + v, HALF), h.near(h.x(s.j.y), d + w, HALF)))
    h.prove('objects', s.i is i and s.j is j)
