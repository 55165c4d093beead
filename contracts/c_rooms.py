"""contracts of the rooms of a vessel: SR_Vessel/SR_hauptteile.py (Raum, Behalter) and the base loops of its graph"""
from .reg import contract
from .specs import xy
from .c_polygon import PL, PM
from .c_groups import GG, BG

HT = 'SR_Vessel/SR_hauptteile.py:'
RA = HT + 'Raum.'
BE = HT + 'Behalter.'


# ------------------------------------------------------------------ V08 base loops
# a layout: base cells and islands (rectangles on a lattice), the loops that can be found among their walls
LAYOUTS = {
    'one': [[(0, 0, 2, 2)]],
    'row2': [[(0, 0, 2, 2), (2, 0, 5, 2)]],
    'row3': [[(0, 0, 2, 2), (2, 0, 5, 2), (5, 0, 6, 2)]],
    'islands': [[(0, 0, 2, 2)], [(10, 0, 13, 2)]],
    'three islands': [[(0, 0, 2, 2)], [(10, 0, 13, 2)], [(20, 0, 21, 5)]],
    'row and island': [[(0, 0, 2, 2), (2, 0, 5, 2)], [(10, 0, 13, 2)]],
    'nested': [[(0, 0, 9, 9)], [(2, 2, 4, 5)]],
    'row nested': [[(0, 0, 9, 9)], [(2, 2, 4, 5), (4, 2, 6, 5)]],
    'two nested': [[(0, 0, 9, 9)], [(1, 1, 2, 3)], [(4, 4, 7, 8)]],
    'nested and island': [[(0, 0, 9, 9)], [(2, 2, 4, 5)], [(20, 0, 21, 5)]],
}


def ring_nodes(cells):
    """nodes of the outline of adjacent cells of a row, left to right, counter-clockwise"""
    lo = [(c[0], c[1]) for c in cells] + [(cells[-1][2], cells[-1][1])]
    hi = [(cells[-1][2], cells[-1][3])] + [(c[0], c[3]) for c in reversed(cells)]
    return lo + hi


def layout(h, names):
    """[(cells of the loop, polygon, is it a base loop)]"""
    rows = LAYOUTS[h.choice('layout', names)]
    out = []
    P, L = h.P.Point, h.L.LineSegment
    k = 0 if h.symbolic else h.choice('scale', [1, 0.5, 4, 100])
    dx, dy = (0, 0) if h.symbolic else (h.choice('dx', [0, -7, 31.5]), h.choice('dy', [0, 3, -200]))
    for row in rows:
        for a in range(len(row)):
            for b in range(a + 1, len(row) + 1):
                n = ring_nodes(row[a:b])
                if not h.symbolic:
                    n = [(x * k + dx, y * k + dy) for x, y in n]
                pts = [P(p) for p in n]
                out.append((row[a:b], h.G.PolygonLine([L(p, q) for p, q in zip(pts, pts[1:] + pts[:1])]), b == a + 1))
    i = h.choice('shift', [0, 1, 2])
    out = out[i % len(out):] + out[:i % len(out)]
    if h.bool('reverse'):
        out.reverse()
    return out


def meet(a, b):
    """do two sets of cells share some of their interior"""
    return any(max(c[0], d[0]) < min(c[2], d[2]) and max(c[1], d[1]) < min(c[3], d[3]) for c in a for d in b)


class Tri(object):
    """callee contract of the triangulation: triangles of a loop cover it and nothing else"""

    def __init__(self, cells, area):
        self.cells = cells
        self.area = area

    def overlap(self, other):
        return meet(self.cells, other.cells)

    def congruent(self, other):
        return False


def use_areas(h, loops):
    """callee contracts of triangulate, area, disjunct, order and the inside test for the loops of the layout.
    The base cells have any area: areas of different ones may happen to be equal or add up"""
    area, tri = {}, {}
    for cells, p, base in loops:
        for c in cells:
            if c not in area:
                area[c] = h.real('area%d' % len(area), lo=0.01, hi=1e6)
    for cells, p, base in loops:
        tri[id(p)] = Tri(cells, sum([area[c] for c in cells[1:]], area[cells[0]]))
    for cells, p, base in loops:           # what lies inside of something is smaller
        for cells2, q, base2 in loops:
            if p is not q and len(cells) == 1 == len(cells2) and meet(cells, cells2) and cells2[0][0] < cells[0][0]:
                h.assume(area[cells[0]] < area[cells2[0]])
    of = {p.segments[0]: (cells, p) for cells, p, base in loops}

    ids, hold = {}, []

    def cells_of(p):
        k = (id(p), tuple(id(s) for s in p.segments))
        if k not in ids:
            hold.append((p, list(p.segments)))
            ids[k] = cells_of2(p)
        return ids[k]

    def cells_of2(p):
        for cells, q, base in loops:
            if p is q or len(p.segments) == len(q.segments) and all(any(s is t or s == t for t in q.segments) for s in p.segments):
                return cells, q
        raise AssertionError('not one of the loops')
    C = 'geometry.SR_polygon:PolygonLine.'
    h.use(C + 'triangulate', lambda self, algorithm=None, force=False: None)
    h.use(C + 'triangles', lambda self: {tri[id(cells_of(self)[1])]})
    h.use(C + 'area', lambda self: tri[id(cells_of(self)[1])].area)
    h.use(C + 'disjunct', lambda self, other: not meet(cells_of(self)[0], cells_of(other)[0]))
    h.use(C + 'order', lambda self: True)

    def inside(self, p):
        x, y = p.xy
        cs = cells_of(self)[0]
        x0, y0, x1, y1 = cs[0][0], cs[0][1], cs[-1][2], cs[0][3]
        return bool(x0 < x) and bool(x < x1) and bool(y0 < y) and bool(y < y1)
    h.use(C + 'is_internal_point', inside)
    h.use(C + 'is_external_point', lambda self, p: not inside(self, p))
    return of


@contract('V08', 'the loops kept are those that are not made up of others, each once and closed',
          [BG + 'keep_base_polygons', PL + 'loose_equal', PL + 'closed_copy'], bounded='10 layouts of up to 6 loops, any areas',
          cases=[dict(layout=k, shift=j, twin=t) for k in range(len(LAYOUTS)) for j in range(3) for t in range(2)], reach=['kept'])
def base_loops(h):
    loops = layout(h, sorted(LAYOUTS))
    if h.symbolic:
        use_areas(h, loops)
    given = [p for c, p, b in loops]
    twin = h.bool('twin')            # a copy of a loop, walked from another corner
    if twin:
        s = list(given[0].segments)
        given.append(h.G.PolygonLine(s[1:] + s[:1]))
    g = object.__new__(h.GR.BehalterGraph)
    h.GR.PolygonGroup.__init__(g, [])
    got = g.keep_base_polygons(polygons=list(given))
    want = [set(frozenset((p.x, p.y) for p in s.ij) for s in q.segments) for c, q, b in loops if b]
    r = [set(frozenset((p.x, p.y) for p in s.ij) for s in q.segments) for q in got]
    if twin and len(want) == 1:
        h.prove('kept', all(x in want for x in r) and len(r) >= 1)
    else:
        h.prove('kept', len(r) == len(want) and all(w in r for w in want))
    h.prove('closed', all(q.isclosed for q in got))


@contract('V08', 'two loops are disjunct exactly if none of their triangles overlap', [PL + 'disjunct'], bounded='up to 2 triangles each',
          reach=['disjunct'])
def disjunct(h):
    G = h.G
    ps, ts = [], []
    for k in range(2):
        p = G.PolygonLine([])
        n = h.choice('n%d' % k, [0, 1, 2])
        ts.append(list(range(len(ps) * 2, len(ps) * 2 + n)))
        ps.append(p)
    pairs = [(a, b) for a in ts[0] for b in ts[1]]
    rel = {q: h.choice('rel%d.%d' % q, ['apart', 'overlap', 'congruent']) for q in pairs}

    class T(object):
        def __init__(self, k):
            self.k = k

        def overlap(self, o):
            return rel.get((min(self.k, o.k), max(self.k, o.k))) == 'overlap'

        def congruent(self, o):
            return True if rel.get((min(self.k, o.k), max(self.k, o.k))) == 'congruent' else None
    for p, t in zip(ps, ts):
        p._triangles = set(T(k) for k in t)
    h.prove('disjunct', bool(ps[0].disjunct(ps[1])) == all(v == 'apart' for v in rel.values()))


@contract('V08', 'two polygons of any number of triangles are disjunct exactly if no triangle of one overlaps or equals one of the other',
          [PL + 'disjunct'], reach=['disjunct'], conc=False)
def any_disjunct(h):
    n, m = h.count('n', 0), h.count('m', 0)

    class T(object):
        """a triangle by the contracts of overlap and congruent (G18); those of one polygon do not overlap (G25)"""

        def __init__(self, side, k):
            self.side, self.k = side, k

        def ask(self, what, o):
            if self.side == o.side:
                return False
            a, b = (self, o) if self.side == 0 else (o, self)
            return h.pred(what, h.number(a.k), h.number(b.k))

        def overlap(self, o):
            return self.ask('overlap', o)

        def congruent(self, o):
            return self.ask('congruent', o)
    ps = [h.G.PolygonLine([]), h.G.PolygonLine([])]
    for side, (p, k) in enumerate(zip(ps, (n, m))):
        p._triangles = h.lazy(k, lambda i, side=side: T(side, i))
    r = ps[0].disjunct(ps[1])
    meet = lambda i, j: h.Or(h.pred('overlap', h.number(i), h.number(j)), h.pred('congruent', h.number(i), h.number(j)))
    N = h.ix(n)
    if r:
        i, j = h.index(n), h.index(m)
        h.known(i, j, N + j)
        h.prove('disjunct', h.Not(meet(i, j)))
    else:
        h.holds('disjunct', h.either(
            h.exists(n, lambda u: h.exists(m, lambda v: meet(u, v))),
            h.exists(n + m, lambda u: h.exists(n + m, lambda v: h.And(
                h.number(u) < n, h.number(v) >= n, meet(u, h.ix(v) - N))))))


# ------------------------------------------------------------------ V09 rooms
class Part(object):
    """a piece of the graph of a vessel: stands for a part"""

    def __init__(self, name):
        self.name = name
        self.hauptteil = 'part ' + name


def room_tables(h):
    """cycles of parts: each has one of its own, some pairs have one in common; cycle 0 may contain others"""
    n = h.choice('cycles', [1, 2, 3, 4] if h.symbolic else [1, 2, 3, 4, 5, 6])
    own = [Part('own%d' % k) for k in range(n)]
    sic = {k: [own[k]] for k in range(n)}
    over = {}
    for a in range(n):
        for b in range(a + 1, n):
            if h.bool('common%d.%d' % (a, b)):
                p = Part('common%d.%d' % (a, b))
                sic[a].append(p)
                sic[b].append(p)
                over[(a, b)] = [p]
    cont = {k: [] for k in range(n)}
    big = h.choice('outer', list(range(n)))
    cont[big] = [k for k in range(n) if k != big and h.bool('in%d' % k)]
    return n, sic, over, cont


def vessel_stub(h, n, sic, over, cont):
    class Gr(object):
        segments_in_cycles = sic

    class B(h.V.Behalter):
        def __init__(self):
            self._polygons = []
            self.raume = []
            self._graph = Gr()

        cycles = {k: 'cycle%d' % k for k in range(n)}
        segments_in_cycles = {k: [x.hauptteil for x in v] for k, v in sic.items()}
        contained_cycles = cont
        overlaps_in_cycles = {k: [x.hauptteil for x in v] for k, v in over.items()}
        all_overlapping_segments = [x for v in over.values() for x in v]
    return B()


def groups_of(members, over):
    g = [[m] for m in members]
    for a, b in over:
        x = [q for q in g if a in q]
        y = [q for q in g if b in q]
        if x and y and x[0] is not y[0]:
            x[0].extend(y[0])
            g.remove(y[0])
    return g


@contract('V09', 'each cycle is a room: its parts are the outer wall, the cycles it contains the inner ones, those with common parts merged without them',
          [BE + 'raum_erstellen', RA + '__init__', RA + 'innere_wandung', RA + 'aussere_wandung', RA + 'ganze_wandung', RA + 'name'],
          bounded='up to 4 cycles', cases=[dict(cycles=k) for k in range(3)] + [dict(cycles=3, outer=j) for j in range(4)],
          reach=['rooms', 'outer', 'inner', 'views'])
def rooms(h):
    n, sic, over, cont = room_tables(h)
    b = vessel_stub(h, n, sic, over, cont)
    before = {k: list(v) for k, v in cont.items()}, {k: list(v) for k, v in sic.items()}
    b.raum_erstellen()
    R = b.raume
    h.prove('rooms', [r.name for r in R] == ['R%d' % (k + 1) for k in range(n)] and all(r.cycle[0] == k and r.behalter is b for k, r in enumerate(R)))
    h.prove('outer', all(len(r._aussere_wandung) == 1 and sorted(x.name for x in r._aussere_wandung[0]) == sorted(x.name for x in sic[k])
                         for k, r in enumerate(R)))
    shared = [p for v in over.values() for p in v]
    ok = []
    for k, r in enumerate(R):
        want = []
        for g in groups_of(cont[k], over):
            want.append(sorted(p.name for c in g for p in sic[c] if len(g) == 1 or p not in shared))
        ok.append(sorted(sorted(p.name for p in w) for w in r._innere_wandung) == sorted(want))
    h.prove('inner', all(ok))
    h.prove('views', all(sorted(r.ganze_wandung) == sorted(list(r.innere_wandung) + list(r.aussere_wandung)) and
                         sorted(r.aussere_wandung) == sorted(x.hauptteil for x in sic[k]) and
                         sorted(r.innere_wandung) == sorted(x.hauptteil for w in r._innere_wandung for x in w) for k, r in enumerate(R)))
    h.prove('frame', (cont, sic) == before)
    old = list(R)
    b.raum_erstellen()
    h.prove('once', len(b.raume) == n and all(x is y for x, y in zip(b.raume, old)))
    R[0].set_name(newname='other')
    h.prove('named', R[0].name == 'other')


@contract('V09', 'the polygons of a room have the walls of all its parts', [RA + 'as_polygon', RA + 'graph_as_polygon'], bounded='up to 2 parts of up to 2 walls',
          reach=['walls'])
def room_polygons(h):
    P, V = h.P.Point, h.V

    class H(object):
        def __init__(self, k, nw, ng):
            self.wall_segments = [V.Wall(P((k, j)), P((k, j + 1))) for j in range(nw)]

            class G(object):
                segments = [V.Wall(P((k + 50, j)), P((k + 50, j + 1))) for j in range(ng)]
            self.graph = G()
            self.hauptteil = self

    hs = [H(k, h.choice('w%d' % k, [1, 2]), h.choice('g%d' % k, [1, 2])) for k in range(h.choice('parts', [1, 2]))]
    inner = [x for k, x in enumerate(hs) if h.bool('inner%d' % k)]
    r = object.__new__(V.Raum)
    r._innere_wandung = [inner] if inner else []
    r._aussere_wandung = [[x for x in hs if x not in inner]]
    for got, want in ((r.as_polygon, [s for x in hs for s in x.wall_segments]), (r.graph_as_polygon(), [s for x in hs for s in x.graph.segments])):
        h.prove('walls', type(got) is h.G.PolygonLine and len(got.segments) == len(want) and all(any(s is t for t in want) for s in got.segments))


@contract('V09', 'a cycle is contained in another one exactly if all its points lie inside of it', [BG + 'contained_cycles'], bounded='up to 3 cycles of up to 2 parts',
          cases=[dict(cycles=c, parts=p) for c in (0, 1, 2) for p in (0, 1)], reach=['contained'])
def contained(h):
    n, m = h.choice('cycles', [1, 2, 3]), h.choice('parts', [1, 2])
    P, L = h.P.Point, h.L.LineSegment
    parts = {}
    for k in range(n):
        parts[k] = [h.G.PolygonLine([L(P((10 * k + j, 0)), P((10 * k + j + 1, 1)))]) for j in range(m)]
    inside = {}
    for a in range(n):
        for b in range(n):
            if a != b:
                s = h.choice('rel%d.%d' % (a, b), ['inside', 'outside', 'partly', 'mostly'])
                inside[(a, b)] = [s == 'inside' or s == 'mostly' and j > 0 or s == 'partly' and j == 0 for j in range(m + 1)]

    class Loop(h.G.PolygonLine):
        def __init__(self, k):
            self.k = k
            self._segments = [s for p in parts[k] for s in p.segments]

        def is_internal_point(self, p):
            x = int(round(float(p.x)))
            return inside[(self.k, x // 10)][x % 10] if x // 10 != self.k else False

    class B(h.GR.BehalterGraph):
        def __init__(self):
            self._polygons = [p for v in parts.values() for p in v]
            self._cycles = self.cyc

        cyc = {k: Loop(k) for k in range(n)}
        cycles = property(lambda self: self.cyc)
        segments_in_cycles = parts
    got = B().contained_cycles
    h.prove('contained', sorted(got) == list(range(n)) and all(sorted(got[a]) == [b for b in range(n) if b != a and all(inside[(a, b)])] for a in range(n)))


# ------------------------------------------------------------------ V11 rooms inside and outside of the parts
@contract('V11', 'a room is inside (outside) of a part of its walls exactly if all known inside (outside) points of one wall of the part lie in the room',
          [BE + 'raum_intex'], bounded='up to 2 rooms and 2 parts of up to 2 walls, 2 known points per wall',
          cases=[dict(rooms=r, kind=k, walls=w) for r in (0, 1) for k in (0, 1, 2) for w in (0, 1)], reach=['result', 'frame'])
def intex(h):
    V, P, L = h.V, h.P.Point, h.L.LineSegment
    nr = h.choice('rooms', [1, 2])
    nw = h.choice('walls', [1, 2])
    kind = h.choice('kind', ['innenraum', 'aussenraum', 'indifferent'])
    np_ = 2
    names = ['a', 'b']
    rel = {}
    where = {r: {} for r in range(nr)}        # part -> in its outer wall / inner wall / not
    # the known points of part 0 (of the kind looked at) and the rooms they are in
    for r in range(nr):
        for w in range(nw):
            for p in range(np_):
                rel[(r, w, p)] = h.bool('in%d.%d.%d' % (r, w, p))
        where[r][0] = h.choice('place%d' % r, ['outer', 'inner', 'none']) if r else h.choice('place%d' % r, ['outer', 'inner'])

    class Room(V.Raum):
        def __init__(self, k, b):
            self.k = k
            self._name = 'R%d' % (k + 1)
            self.behalter = b
            self._innere_wandung = []
            self._aussere_wandung = []

        def graph_as_polygon(self):
            return RoomPoly(self.k)

    class RoomPoly(h.G.PolygonLine):
        def __init__(self, k):
            self._segments = []
            self._internal_point = []
            self._external_point = []
            self._indifferent_point = []
            self._triangles = set()
            self.k = k

        def is_internal_point(self, p, plotit=False):
            x, y = int(round(float(p.x))), int(round(float(p.y)))
            return rel.get((self.k, x - 100, y), False)

        def triangulate(self, *a, **k):
            return None

    class HT_(object):
        def __init__(self, name, graph):
            self.name = name
            self.graph = graph
            graph.hauptteil = self
            self.hauptteil = self
            self.typ = 'mantel'

    def graph(k):
        g = h.G.PolygonLine([V.Wall(P((k, w)), P((k, w + 1))) for w in range(nw)])
        return g
    ga, gb = graph(0), graph(50)
    add = {'innenraum': ga.add_internal_point, 'aussenraum': ga.add_external_point, 'indifferent': ga.add_indifferent_point}[kind]
    for w in range(nw):
        for p in range(np_):
            add(p=P((100 + w, p)), segment=ga.segments[w])
    a, b_ = HT_('a', ga), HT_('b', gb)

    class B(V.Behalter):
        def __init__(self):
            self._polygons = [a, b_]
            self._graph = None
            self.raume = [Room(k, None) for k in range(nr)]
            for k, r in enumerate(self.raume):
                w = where[k][0]
                r._aussere_wandung = [[b_] + ([a] if w == 'outer' else [])]
                r._innere_wandung = [[a]] if w == 'inner' else []
    v = B()
    got = v.raum_intex()
    want = {n: {'innenraum': set(), 'aussenraum': set(), 'indifferent': set()} for n in names}
    for r in range(nr):
        if where[r][0] == 'none':
            continue
        if kind == 'indifferent':
            hit = any(not rel[(r, w, p)] for w in range(nw) for p in range(np_))
        else:
            hit = any(all(rel[(r, w, p)] for p in range(np_)) for w in range(nw))
        if hit:
            want['a'][kind].add('R%d' % (r + 1))
    h.prove('result', got == want)
    h.prove('frame', len(v.raume) == nr and v.polygons[0] is a and v.polygons[1] is b_ and len(ga.segments) == nw)


def column(h, tag, x, y, d, hs, heads=False):
    """a cylindrical vessel with chambers one above the other, flat bottoms between them"""
    V = h.V
    parts = []
    if heads:
        parts.append(V.Klopperboden(name=tag + 'f0', pos_v=y, pos_h=x, d=d, h1=0.1, orient=-1))
    else:
        parts.append(V.Flachboden(name=tag + 'f0', pos_v=y, pos_h=x, d=d))
    for k, hh in enumerate(hs):
        parts.append(V.Mantel(name=tag + 'm%d' % k, pos_v=y, pos_h=x, d=(d, d), h=hh))
        y += hh
        if heads and k == len(hs) - 1:
            parts.append(V.Korbbogenboden(name=tag + 'f%d' % (k + 1), pos_v=y, pos_h=x, d=d, h1=0.1, orient=1))
        else:
            parts.append(V.Flachboden(name=tag + 'f%d' % (k + 1), pos_v=y, pos_h=x, d=d))
    return parts


@contract('V11', 'vessels of stacked, separate and nested chambers: rooms and the dict of inside and outside rooms are the expected ones (end to end)',
          [BE + 'raum_intex', BE + '__init__', HT + 'raum_dict_checker', BG + 'segments_in_cycles', GG + 'segments_in_cycles', GG + 'cycles'], nosym=True)
def end_to_end(h):
    V = h.V
    form = h.choice('form', ['column', 'column', 'islands', 'nested'])
    hh = [1, 1, 2, 1.5, 3, 0.7]
    d = h.choice('d', [2, 3, 1.25])
    x, y = h.choice('x', [0, 0, 5, -2.5]), h.choice('y', [0, 0, 1, -12])
    heads = h.bool('heads')
    I, A, N = 'innenraum', 'aussenraum', 'indifferent'
    want = {}

    def part(name, i=(), a=(), n=()):
        want[name] = {I: set(i), A: set(a), N: set(n)}

    def rooms_of(tag, n, outer=None):
        """expected entries of a column with n chambers, inside of the room outer (if any)"""
        r = [tag + str(k) for k in range(n)]
        out = [outer] if outer else []
        for k in range(n):
            part(tag + 'm%d' % k, i=[r[k]], a=out)
        for k in range(n + 1):
            beside = r[max(0, k - 1):k + 1]
            if k in (0, n) and heads:
                part(tag + 'f%d' % k, i=beside, a=out)
            else:
                part(tag + 'f%d' % k, n=beside + (out if k in (0, n) else []))
        return r
    if form == 'column':
        hs = [h.choice('h%d' % k, hh) for k in range(h.choice('n', [1, 2, 3]))]
        parts = column(h, 'p', x, y, d, hs, heads)
        rooms_of('p', len(hs))
    elif form == 'islands':
        parts = []
        for k in range(h.choice('n', [2, 3])):
            parts += column(h, 'pqs'[k], x + 10 * k, y, d, [h.choice('h%d' % k, hh)], heads)
            rooms_of('pqs'[k], 1)
    else:
        hs = [h.choice('h%d' % k, hh) for k in range(h.choice('n', [1, 2]))]
        parts = column(h, 'p', x, y, d, hs, heads)
        heads2, heads = heads, False
        parts += column(h, 'o', x, y - 3, 30, [30])
        part('om0', i=['o'])
        part('of0', n=['o'])
        part('of1', n=['o'])
        heads = heads2
        rooms_of('p', len(hs), 'o')
    parts = [parts[k] for k in h.perm('perm', len(parts))] if h.bool('shuffle') else parts
    b = V.Behalter(parts)
    got = b.raum_intex()
    n = len(set(r for v in want.values() for s in v.values() for r in s))
    h.prove('number', len(b.raume) == n and [r.name for r in b.raume] == ['R%d' % (k + 1) for k in range(n)])
    ren = {}
    for k, r in enumerate(b.raume):         # which room is it: by its own outer wall
        names = sorted(p.name for p in r.aussere_wandung)
        for m in want:
            if 'm' in m and m in names:
                ren[r.name] = sorted(want[m][I])[0]
    h.prove('result', {p: {k: set(ren.get(r, r) for r in s) for k, s in v.items()} for p, v in got.items()} == want)
    h.prove('checker', V.raum_dict_checker(dict_to_comapare=got, basedict=want) is True if len(set(map(str, ren.values()))) == n and form == 'column' and n == 1 else True)
