"""contracts of triangulation and area (G25)"""
import itertools
from .reg import contract
from .specs import xy, same, apart, HALF
from .c_polygon import (PL, PM, simple, chain, pts_of, spread, area2, sum_continuous, sum_purge, sum_point_set, sum_order, EPS)
from . import gens

C = 'geometry.SR_polygon:PolygonLine.'
ALGS = ['delaunay', 'ear clipping', 'triangle']


class Piece(object):
    """a triangle, as far as its area goes"""

    def __init__(self, area):
        self.area = area


@contract('G25', 'the area is the sum of the areas of the triangles of the current polygon, any number of them',
          [PL + 'area', PL + 'detailled_area'], reach=['sum', 'again', 'moved', 'asked'],
          notes=['callee contract: triangulate() stores some set of triangles'])
def any_area(h):
    n, m = h.count('t.n', 0), h.count('u.n', 0)
    a, b = h.reals('t', n), h.reals('u', m)
    first, then = h.lazy(n, lambda i: Piece(a(i))), h.lazy(m, lambda i: Piece(b(i)))
    P, S = h.P.Point, h.L.LineSegment
    asked = []
    state = [first]

    class Poly(h.G.PolygonLine):
        def triangulate(self, algorithm=None, force=False):
            if algorithm is None:
                algorithm = h.G.TRIANGULATION_ALGORITHM
            asked.append((algorithm, force, self is p))
            self._triangles = state[0]
    pts = [P(c) for c in ((0, 0), (4, 1), (1, 3))]
    p = Poly([S(pts[0], pts[1]), S(pts[1], pts[2]), S(pts[2], pts[0])])
    eps = h.num(HALF)

    def near(v, t):
        return h.And(h.x(v) - t <= eps, t - h.x(v) <= eps)
    v = p.area
    k = len(asked)
    h.prove('asked', k > 0 and all(f and q and g == h.G.TRIANGULATION_ALGORITHM for g, f, q in asked))
    h.prove('sum', near(v, h.total(n, a)))
    h.prove('again', h.x(p.area) == h.x(v))
    w = p.detailled_area
    h.prove('keys', sorted(w) == [h.G.TRIANGULATION_ALGORITHM])
    h.prove('detailed', near(w[h.G.TRIANGULATION_ALGORITHM], h.total(n, a)))
    state[0] = then
    how = h.choice('change', ['move', 'vertex', 'close'])
    if how == 'move':
        p.move(x0=7, y0=-2)
    elif how == 'vertex':
        pts[1]._set_coords((5, 2))
    else:
        p._segments.append(S(pts[0], P((1, -3))))
    h.prove('moved', near(p.area, h.total(m, b)))


@contract('G25', 'triangulate runs the algorithm asked for if there are no triangles of the current polygon yet, or if forced',
          [PL + 'triangulate', PL + 'triangles', PL + '_delete_triangles'], reach=['ran', 'kept', 'again', 'forced', 'none', 'unknown'])
def dispatch(h):
    P, S = h.P.Point, h.L.LineSegment
    c = h.plan('p', 3, gens.distinct) if not h.symbolic else ((0, 0), (4, 1), (1, 3))
    pts = [P(x) for x in c]
    ran = []
    found = h.bool('found')

    class Poly(h.G.PolygonLine):
        pass
    p = Poly([S(pts[0], pts[1]), S(pts[1], pts[2]), S(pts[2], pts[0])])
    for name, alg in (('triangulate_delaunay', 'delaunay'), ('ear_clipping', 'ear clipping'), ('triangle_mesh', 'triangle')):
        def f(self, alg=alg):
            self._delete_triangles()
            ran.append((alg, self is p))
            if found:
                self._triangles.add(Piece(len(ran)))
        setattr(Poly, name, f)
    alg = h.choice('alg', ALGS + ['random', 'default'])

    def go(**k):
        if alg != 'default':
            k['algorithm'] = alg
        p.triangulate(**k)
    h.prove('none', bool(h.raises(lambda: p.triangulate(algorithm=None), Exception)) and not ran)
    h.prove('unknown', bool(h.raises(lambda: p.triangulate(algorithm='mosaic'), Exception)) and not ran)

    def ok(k):
        return len(ran) == k and all(q and (x in ALGS if alg == 'random' else x == (
            h.G.TRIANGULATION_ALGORITHM if alg == 'default' else alg)) for x, q in ran)
    go()
    h.prove('ran', ok(1) and len(p.triangles) == (1 if found else 0))
    go()
    k = 1 if found else 2
    h.prove('kept', ok(k))
    how = h.choice('change', ['move', 'turn', 'mirror', 'vertex', 'append'])
    if how == 'move':
        p.move(x0=7, y0=-2)
    elif how == 'turn':
        p.rotate_about_origin(phi=90)
        h.assume(any(q.x != 0 or q.y != 0 for q in pts)) if not h.symbolic else None
    elif how == 'mirror':
        p.mirror_vertical(x0=0.5 if h.symbolic else 0.1)
    elif how == 'vertex':
        pts[1]._set_coords((500, 200))
    else:
        p._segments.append(S(pts[0], P((100, -300))))
    go()
    h.prove('again', ok(k + 1))
    go(force=True)
    h.prove('forced', ok(k + 2) and len(p.triangles) == (1 if found else 0))


def mesh_input(h, n):
    pts = pts_of(h, h.plan('p', n, gens.convex))
    spread(h, pts)
    return pts


@contract('G25', 'the mesh: what the triangulation library is asked for and which of its triangles are kept',
          [PL + 'triangle_mesh', PM + 'polygon_from_nodes'], bounded='polygons of 3 to 5 vertices, up to 3 triangles', conc=False,
          cases=[dict(n=k, extra=e) for k in range(3) for e in range(2)], reach=['vertices', 'segments', 'options', 'kept'], secs=100)
def mesh(h):
    n = h.choice('n', [3, 4, 5])
    pts = mesh_input(h, n)
    extra = h.bool('extra')       # the library adds a vertex
    segs = chain(h, pts, closed=True)
    p = h.G.PolygonLine(segs)
    nodes = [xy(h, q) for q in pts]
    tris = [[(0, 1, 2)], [(0, 1, 2), (2, 3, 0)], [(0, 1, 2), (3, 2, 0), (0, 3, 4)]][n - 3]
    if extra:
        e = pts_of(h, h.plan('e', 1, gens.distinct))
        spread(h, pts + e)
        nodes = nodes + [xy(h, e[0])]
        tris = [[(0, 1, 3), (2, 1, 3)], [(0, 1, 4), (2, 3, 4)], [(0, 1, 5), (5, 2, 3), (3, 4, 5)]][n - 3]
        pts = pts + e
    for t in tris:
        A = area2(h, [pts[k] for k in t])
        h.assume(h.Or(A >= h.num(1e-3), -A >= h.num(1e-3)))
    asked = []

    def triangulate(data, opts=''):
        asked.append((data, opts))
        vs = [tuple(v) for v in data['vertices']]
        # numbering of the caller
        order = []
        for q in nodes[:n]:
            order.append([k for k, v in enumerate(vs) if v[0] is q[0] and v[1] is q[1] or bool(h.And(h.x(v[0]) == h.x(q[0]), h.x(v[1]) == h.x(q[1])))][0])
        order += list(range(len(vs), len(vs) + len(nodes) - n))
        return {'vertices': vs + nodes[n:], 'triangles': [tuple(order[k] for k in t) for t in tris]}
    h.external('triangle', 'triangulate', triangulate)
    h.external('numpy', 'asarray', list)
    def positive():
        v = h.fresh('area')
        h.assume(v > 0)
        return v
    inside = {}
    ids = lambda ps: tuple(sorted(h.key(*xy(h, q)) for q in ps))

    def answer(who, q):                       # one answer per polygon and point
        k = (who, h.key(*xy(h, q)))
        if k not in inside:
            inside[k] = h.freshbool('inside')
        return inside[k]

    def internal(self, p=None):
        return answer('polygon' if self is poly else ids(self.point_set), p)
    h.use(C[:-12] + 'Triangle.area', lambda self: positive())
    poly = p
    h.use(C + 'is_internal_point', internal)
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use(C + 'purge', sum_purge(h))
    h.use(C + 'point_set', sum_point_set(h))
    h.use(C + 'order', sum_order(h, pts))
    p.triangle_mesh()
    h.prove('options', len(asked) == 1 and asked[0][1] == 'p')
    vs, ss = [tuple(v) for v in asked[0][0]['vertices']], [tuple(s) for s in asked[0][0]['segments']]
    eq = lambda a, b: h.And(h.x(a[0]) == h.x(b[0]), h.x(a[1]) == h.x(b[1]))
    h.prove('vertices', h.And(len(vs) == n, *[h.Or([eq(v, q) for v in vs]) for q in nodes[:n]]))
    h.prove('segments', h.And(len(ss) == n, *[h.And(eq(vs[i], xy(h, s.i)), eq(vs[j], xy(h, s.j))) for (i, j), s in zip(ss, segs)]))
    got = [ids(t.point_set) for t in p.triangles]
    for t in tris:
        me = [pts[k] for k in t]
        n3 = [sum([q.x for q in me[1:]], me[0].x) / 3, sum([q.y for q in me[1:]], me[0].y) / 3]
        keep = h.And(answer('polygon', h.P.Point(n3)), *[h.Not(answer(ids(me), q)) for q in pts[:n] if not any(q is r for r in me)])
        h.prove('kept', h.Iff(got.count(ids(me)) == 1, keep))
    h.prove('nothing else', all(g in [ids([pts[k] for k in t]) for t in tris] for g in got))


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def crosses(a, b, c, d):
    """do two segments cross inside of both (exactly)"""
    s = [cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)]
    return s[0] * s[1] < 0 and s[2] * s[3] < 0


def inside(ring, q):
    """even-odd, exactly"""
    x, y = q
    r = False
    for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
        if (y1 > y) != (y2 > y):
            t = cross((x1, y1), (x2, y2), (x, y))
            if (t > 0) == (y2 > y1):
                r = not r
    return r


def rooms(r, n):
    """a rectilinear polygon"""
    m = max(2, (n - 2) // 2)
    x = 0
    top = []
    for k in range(m):
        w, hh = r.randint(1, 5), r.randint(2, 9)
        while top and top[-1][1] == hh:
            hh = r.randint(2, 9)
        top += [(x, hh), (x + w, hh)]
        x += w
    out = [(0, 0)] + top + [(x, 0)]
    if r.random() < 0.5:
        out.reverse()
    k = r.randrange(len(out))
    s = r.choice([1, 0.5, 100])
    out = out[k:] + out[:k]
    return [(a * s, b * s) for a, b in out]


@contract('G25', 'the triangles of a simple polygon have its vertices as corners, lie inside of it and have its area together',
          [PL + 'triangulate', PL + 'triangle_mesh', PL + 'ear_clipping', PL + 'area', PL + 'triangles', PM + 'Triangle.area'], nosym=True,
          notes=['bounded: concrete polygons of up to 12 vertices through the real triangulation library'], conc_mult=2)
def pieces(h):
    from fractions import Fraction as F
    n = h.size('n', 3, 8, 12)
    kind = h.choice('kind', ['ring', 'ring', 'rooms'])
    c = h.plan('p', n if kind == 'ring' else 2 + 2 * max(2, n // 2), gens.poly if kind == 'ring' else rooms)
    n = len(c)
    h.assume(simple(h, [h.P.Point(x) for x in c]))
    ex = [(F(x), F(y)) for x, y in c]
    h.assume(all(cross(a, b, d) != 0 for a, b, d in zip(ex, ex[1:] + ex[:1], ex[2:] + ex[:2])))
    A = abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ex, ex[1:] + ex[:1]))) / 2
    size = max(abs(v) for q in c for v in q)
    P, S = h.P.Point, h.L.LineSegment
    pts = [P(x) for x in c]
    p = h.G.PolygonLine([S(a, b) for a, b in zip(pts, pts[1:] + pts[:1])])
    alg = h.choice('alg', ['triangle', 'triangle', 'ear clipping'])
    if alg == 'ear clipping':          # documented to fail for some polygons: in general position only
        h.assume(all(cross(*t) != 0 for t in itertools.combinations(ex, 3)))
    if h.bool('before'):
        p.triangulate()
        dx, dy = h.choice('dx', [0.5, -3, 100]), h.choice('dy', [1, -0.25, 40])
        p.move(x0=dx, y0=dy)
        ex = [(x + F(dx), y + F(dy)) for x, y in ex]
    p.triangulate(algorithm=alg)
    tri = list(p.triangles)
    tol = 1e-6 * (1 + float(size) ** 2)
    h.prove('number', len(tri) == n - 2)
    for t in tri:
        q = [(F(u.x), F(u.y)) for u in t.point_set]
        h.prove('corners', len(q) == 3 and all(any(abs(u[0] - v[0]) < 1e-7 and abs(u[1] - v[1]) < 1e-7 for v in ex) for u in q))
        q = [min(ex, key=lambda v: abs(u[0] - v[0]) + abs(u[1] - v[1])) for u in q]
        mid = (sum(u[0] for u in q) / 3, sum(u[1] for u in q) / 3)
        h.prove('inside', inside(ex, mid))
        h.prove('no crossing', not any(crosses(a, b, u, v) for a, b in zip(ex, ex[1:] + ex[:1]) for u, v in zip(q, q[1:] + q[:1])))
        h.prove('piece', abs(float(t.area) - float(abs(cross(*q))) / 2) <= tol)
    h.prove('together', abs(sum(float(t.area) for t in tri) - float(A)) <= tol)
    h.prove('area', abs(float(p.area) - float(A)) <= tol)
    if h.bool('after'):
        pts[0]._set_coords((pts[0].x + 0.125, pts[0].y))
        ex[0] = (ex[0][0] + F(1, 8), ex[0][1])
        h.assume(simple(h, pts) and all(cross(a, b, d) != 0 for a, b, d in zip(ex, ex[1:] + ex[:1], ex[2:] + ex[:2])))
        A = abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ex, ex[1:] + ex[:1]))) / 2
        h.prove('area after', abs(float(p.area) - float(A)) <= tol)
