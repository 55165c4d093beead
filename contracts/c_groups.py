"""contracts of geometry/SR_polygon_group.py (and walk_segments)"""
from .reg import contract
from .specs import xy, same, apart
from .c_polygon import (PL, PM, graph_plan, pts_of, spread, sum_purge, sum_point_set, sum_continuous, sum_valid)
from . import gens

GG = 'geometry/SR_polygon_group.py:PolygonGroup.'
BG = 'geometry/SR_polygon_group.py:BehalterGraph.'


def split_polys(h, segs):
    """the segments distributed over one or two polygons"""
    k = h.choice('split', list(range(len(segs)))) if len(segs) > 1 else 0
    parts = [segs[:k], segs[k:]] if k else [segs]
    return [h.G.PolygonLine(p) for p in parts]


def idx(h, pts, p):
    """which of the named points is it (they are clearly apart)"""
    for i, q in enumerate(pts):
        if same(h, q, p) is True or (not h.symbolic and q == p):
            return i
    return None


@contract('G21', 'numbering, adjacency list and degrees describe the incidence of segments and points',
          [GG + 'points_numbered', GG + 'as_adjacency_list', GG + 'representative_graph', GG + 'node_degree', GG + 'all_segments',
           PL + 'neighbour', PL + 'find_segment_by_point'], bounded='up to 3 segments in up to 2 polygons', cases=[1, 2, 3],
          reach=['numbered', 'adjacency', 'degree'])
def incidence(h):
    names, pts, segs = graph_plan(h, 1, 3, 14)
    polys = split_polys(h, segs)
    g = h.GR.PolygonGroup(polys)
    h.use('geometry.SR_polygon:PolygonLine.purge', sum_purge(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_point_set(h))
    num = g.points_numbered
    ks = [idx(h, pts, p) for p in num]
    h.prove('numbered', len(num) == len(pts) and sorted(ks) == list(range(len(pts))) and sorted(num.values()) == list(range(len(pts))))
    want = {i: sorted([b for a, b in names if a == i] + [a for a, b in names if b == i]) for i in range(len(pts))}
    al = g.as_adjacency_list()
    h.prove('adjacency', sorted(idx(h, pts, p) for p in al) == list(range(len(pts))) and
            all(sorted(idx(h, pts, q) for q in v) == want[idx(h, pts, p)] for p, v in al.items()))
    no = {idx(h, pts, p): n for p, n in num.items()}
    an = g.as_adjacency_list(as_numbered=True)
    h.prove('numbers', sorted(an) == list(range(len(pts))) and
            all(sorted(an[no[i]]) == sorted(no[j] for j in want[i]) for i in want))
    h.prove('degree', all(g.node_degree(an, no[i]) == len(want[i]) for i in want))
    h.prove('unknown', h.raises(lambda: g.node_degree(an, len(pts)), AssertionError)[0])


@contract('G21', 'segments are found by the points they start or end at', [PL + 'find_segment_by_point', PL + 'neighbour'],
          bounded='up to 3 segments', cases=[1, 2, 3], reach=['found', 'neighbours'])
def find(h):
    names, pts, segs = graph_plan(h, 1, 3, 14)
    poly = h.G.PolygonLine(segs)
    i = h.choice('at', list(range(len(pts) + 1)))
    if i == len(pts):
        q = h.P.Point((h.coord('q.x'), h.coord('q.y')))
        for p in pts:
            h.assume(apart(h, p, q))
    else:
        q = h.P.Point(pts[i].xy)
    st = [s for s, e in zip(segs, names) if e[0] == i]
    en = [s for s, e in zip(segs, names) if e[1] == i]
    bo = [s for s, e in zip(segs, names) if i in e]
    f = poly.find_segment_by_point
    ok = []
    for got, want in ((f(point=q), st), (f(point=q, whichend='start'), st), (f(point=q, whichend='end'), en), (f(point=q, whichend='both'), bo)):
        ok.append(len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    h.prove('found', all(ok))
    h.prove('refused', not bo or h.raises(lambda: f(point=q, whichend='middle'))[0])
    nb = poly.neighbour(q)
    h.prove('neighbours', sorted(idx(h, pts, p) for p in nb) == sorted([b for a, b in names if a == i] + [a for a, b in names if b == i]))


@contract('G21', 'a group is valid exactly if its points have two or three edges (three or more two, an even number three) and its '
          'polygons are valid', [GG + 'isvalid'], bounded='graphs of up to 5 points, edges per point up to 5', reach=['valid'],
          cases=[dict(points=k) for k in range(0, 6)])
def group_valid(h):
    n = h.choice('points', list(range(0, 6)) + ([] if h.symbolic else [8, 12, 14, 20, 30]))
    deg = []
    for i in range(n):
        lo = deg[-1] if deg and h.symbolic else 0
        if h.symbolic:
            deg.append(h.choice('d%d' % i, list(range(lo, 6))))
        else:
            deg.append(h.choice('d%d' % i, [2, 2, 2, 2, 3, 2, 2, 3, 2, 2] * 4 + [0, 1, 4, 5, 9, 10, 12]))
    h.use('geometry.SR_polygon_group:PolygonGroup.as_adjacency_list', lambda self, as_numbered=False: {i: [0] * d for i, d in enumerate(deg)})
    flags = []
    if h.symbolic:
        for k in range(2):
            flags.append(h.freshbool('valid'))
        objs = [h.G.PolygonLine([]) for k in range(2)]
        h.use('geometry.SR_polygon:PolygonLine.isvalid', lambda self: flags[0] if self is objs[0] else flags[1])
        g = h.GR.PolygonGroup(objs)
    else:
        flags = [h.bool('v0'), h.bool('v1')]

        class Poly(object):
            def __init__(self, v):
                self.isvalid = v
        g = h.GR.PolygonGroup([Poly(f) for f in flags])
        g.as_adjacency_list = lambda as_numbered=False: {i: [0] * d for i, d in enumerate(deg)}
    ok = all(d in (2, 3) for d in deg) and deg.count(2) >= 3 and deg.count(3) % 2 == 0
    h.prove('valid', h.Iff(g.isvalid, h.And(ok, *flags)))


@contract('G21', 'the polygons of given points, and the polygon equal to a given one', [GG + 'segments_from_points', GG + 'polygon_from_repr'],
          bounded='2 segments', reach=['selected', 'found'])
def selected(h):
    names, pts, segs = graph_plan(h, 2, 2 if h.symbolic else 3, 8)
    polys = split_polys(h, segs)
    g = h.GR.PolygonGroup(polys)
    pick = [i for i in range(len(pts)) if h.bool('pick%d' % i)]
    r = g.segments_from_points([h.P.Point(pts[i].xy) for i in pick])
    h.prove('selected', r == [] or all(any(x is p for p in polys) for x in r))
    want = [p for p in polys if any(idx(h, pts, s.i) in pick and idx(h, pts, s.j) in pick for s in p.segments)]
    twins = len(set(names)) < len(names)
    h.prove('exactly', twins or len(r) == len(want) and all(a is b for a, b in zip(r, want)))
    key = [[names[[x is s for x in segs].index(True)] for s in p.segments] for p in polys]
    unique = len(key) == 1 or key[0] != key[1]
    e, v = h.raises(lambda: g.polygon_from_repr(h.G.PolygonLine(list(polys[0].segments))))
    h.prove('found', (not e and v is polys[0]) if unique else e)


# ------------------------------------------------------------------ cycles of a group
class Cycles(object):
    pass


def cycle_table(h):
    """a group whose cycles consist of given parts"""
    n = h.choice('cycles', [1, 2, 3])
    m = h.choice('parts', [1, 2, 3])
    pts = pts_of(h, h.plan('p', m + 1, gens.distinct))
    spread(h, pts)
    parts = [h.G.PolygonLine([h.V.Wall(a, b)]) for a, b in zip(pts, pts[1:])]
    table = {k: [p for j, p in enumerate(parts) if h.bool('in%d.%d' % (k, j))] for k in range(n)}
    g = object.__new__(h.GR.BehalterGraph)
    h.GR.PolygonGroup.__init__(g, parts)
    g.__dict__['segments_in_cycles'] = table
    return g, table, parts


@contract('G21', 'overlaps of cycles are the parts they have in common, once per pair', [BG + 'overlaps_in_cycles', BG + 'all_overlapping_segments'],
          bounded='up to 3 cycles of up to 3 parts', reach=['overlaps', 'all'], cases=[dict(cycles=c, parts=p) for c in range(3) for p in range(3)])
def overlaps(h):
    g, table, parts = cycle_table(h)
    o = g.overlaps_in_cycles
    want = {}
    for a in table:
        for b in table:
            if a < b:
                c = [p for p in table[a] if any(p is q for q in table[b])]
                if c:
                    want[(a, b)] = c
    h.prove('overlaps', set(o) == set(want) and all(len(o[k]) == len(want[k]) and all(any(x is y for y in want[k]) for x in o[k]) for k in want))
    al = g.all_overlapping_segments
    h.prove('all', len(al) == sum(len(v) for v in want.values()) and
            all([x is p for x in al].count(True) == sum([x is p for x in v].count(True) for v in want.values()) for p in parts))


@contract('G21', 'a vessel answers for overlaps of its rooms with its parts, and with their names',
          [GG + 'overlaps_in_cycles', GG + 'overlaps_in_cycles_named', GG + 'all_overlapping_segments', GG + 'name_from_repr', GG + 'segments_in_cycles'],
          bounded='up to 3 cycles of up to 3 parts (not both 3)', reach=['parts', 'named', 'all', 'cycles', 'names'],
          cases=[dict(cycles=c, parts=p) for c in range(3) for p in range(3) if c + p < 4])
def vessel_overlaps(h):
    g, table, parts = cycle_table(h)
    pts = [p.segments[0].i for p in parts] + [parts[-1].segments[0].j]
    hts = []
    for k, p in enumerate(parts):
        p.hauptteil = h.G.PolygonLine([h.V.Wall(*p.segments[0].ij)])
        p.name, p.hauptteil.name = 'Graph of p%d' % k, 'p%d' % k
        hts.append(p.hauptteil)
    v = object.__new__(h.V.Behalter)
    h.GR.PolygonGroup.__init__(v, hts)
    v._graph = g
    want = {}
    for a in table:
        for b in table:
            c = [p for p in table[a] if any(p is q for q in table[b])]
            if a < b and c:
                want[(a, b)] = c
    o = v.overlaps_in_cycles
    h.prove('parts', set(o) == set(want) and all(len(o[k]) == len(want[k]) and all(any(x is y.hauptteil for y in want[k]) for x in o[k]) for k in want))
    h.prove('named', v.overlaps_in_cycles_named == {k: {x.hauptteil.name for x in c} for k, c in want.items()})
    al = list(v.all_overlapping_segments)
    h.prove('all', sorted(x.name for x in al) == sorted(x.name for c in want.values() for x in c) and all(any(x is p for p in parts) for x in al))
    s = v.segments_in_cycles
    h.prove('cycles', set(s) == set(table) and all(len(s[k]) == len(table[k]) and all(x is y.hauptteil for x, y in zip(s[k], table[k])) for k in table))
    some = [p for j, p in enumerate(parts) if h.bool('pick%d' % j)]
    twin = h.G.PolygonLine([h.V.Wall(h.P.Point(pts[0].xy), h.P.Point(pts[1].xy))])
    h.prove('names', h.And(v.name_from_repr(hts[0]) == 'p0', v.name_from_repr(rep=some) == [p.name for p in some],
                           v.name_from_repr(rep={'x': some, 'y': [twin]}) == {'x': [p.name for p in some], 'y': ['Graph of p0']},
                           h.raises(lambda: v.name_from_repr(rep='p0'))[0]))


# ------------------------------------------------------------------ G22 loops
def ident(h, p, q):
    """the same named point (named points are apart, coordinates are copied exactly)"""
    return same(h, p, q) is True


def sum_order_ident(h):
    """callee contract of order() (G12): chains a single ring, False otherwise"""
    def f(self):
        s = list(self._segments)
        if len(s) < 3:
            return False
        for x in s:
            for e in x.ij:
                if sum(ident(h, e, y) for z in s for y in z.ij) != 2:
                    return False
        out = [s.pop(0)]
        while s:
            e = out[-1].j
            t = [x for x in s if ident(h, x.i, e) or ident(h, x.j, e)]
            if not t:
                return False
            t = t[0]
            if not ident(h, t.i, e):
                t.reverse()
            s = [x for x in s if x is not t]
            out.append(t)
        self._segments = out
        return True
    return f


def simple_cycles(names):
    """every simple cycle of the graph as a set of edge numbers (brute force)"""
    import itertools
    out = []
    for r in range(3, len(names) + 1):
        for c in itertools.combinations(range(len(names)), r):
            if len({frozenset(names[k]) for k in c}) < r:
                continue
            deg = {}
            for k in c:
                for v in names[k]:
                    deg[v] = deg.get(v, 0) + 1
            if set(deg.values()) != {2}:
                continue
            seen = {names[c[0]][0]}
            more = True
            while more:
                more = False
                for k in c:
                    a, b = names[k]
                    if (a in seen) != (b in seen):
                        seen |= {a, b}
                        more = True
            if seen == set(deg):
                out.append(frozenset(c))
    return out


PLANS = {
    'triangle': [(0, 1), (1, 2), (2, 0)],
    'open': [(0, 1), (1, 2), (2, 3)],
    'tail': [(0, 1), (1, 2), (2, 0), (2, 3)],
    'quad': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'split quad': [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)],
    'bow': [(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0)],
    'two': [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)],
    'wheel': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    'bridge': [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 3)],
}


def planar(r, n):
    """points in convex position: any two chords cross or share an end"""
    return gens.convex(r, n)


def plan_graph(h, plans):
    k = h.choice('graph', plans)
    if k == 'random':
        import itertools
        r = h.rng
        n = h.choice('corners', [3, 4, 5, 6])
        m = h.choice('edges', [3, 4, 5, 6, 7, 8])
        E = []
        cand = list(itertools.combinations(range(n), 2))
        pm = h.perm('cand', len(cand))
        for i in pm:
            e = cand[i]
            if len(E) < m and not any(len(set(e + f)) == 4 and (f[0] < e[0] < f[1]) != (f[0] < e[1] < f[1]) for f in E):
                E.append(e)
        used = sorted({v for e in E for v in e})
        names = [(used.index(a), used.index(b)) for a, b in E]
        pts = pts_of(h, h.plan('p', len(used), gens.ngon))
    else:
        names = PLANS[k]
        if not h.symbolic:
            pts = pts_of(h, {'wheel': [(0, 0), (40, 0), (0, 40), (9, 11)], 'bow': [(0, 0), (-8, 3), (-7, -5), (6, 1), (7, -9)],
                             'two': [(0, 0), (9, 1), (2, 8), (20, 0), (30, 1), (22, 9)],
                             'bridge': [(0, 0), (0, 9), (9, 3), (15, 3), (24, 0), (23, 8)]}.get(k) or
                         [(0, 0), (10, 1), (12, 9), (-1, 8)][:max(max(e) for e in names) + 1])
        else:
            pts = pts_of(h, h.plan('p', max(max(e) for e in names) + 1, gens.distinct))
    spread(h, pts)
    fl = h.choice('flips', [0, 1, 2, 3] if h.symbolic else list(range(32)))
    P = h.P.Point
    names = [e[::-1] if (fl * 5 + (fl >> 1)) >> (q % 5) & 1 else e for q, e in enumerate(names)]
    if h.symbolic:
        rot = h.choice('rot', [0, 1, 2])
        names = names[rot:] + names[:rot]
    else:
        names = [names[i] for i in h.perm('perm', len(names))]
    segs = [h.V.Wall(P(pts[i].xy), P(pts[j].xy)) for i, j in names]
    return names, pts, segs


def ring_of(h, poly, names, pts):
    """edge numbers of the polygon's sides if it is a chained ring of them, else None"""
    out = []
    s = list(poly.segments)
    for a, b in zip(s, s[1:] + s[:1]):
        if not (ident(h, a.j, b.i) if h.symbolic else a.j == b.i):
            return None
        e = (idx(h, pts, a.i), idx(h, pts, a.j))
        k = [q for q, n in enumerate(names) if n == e or n == e[::-1]]
        if not k:
            return None
        out.append(k[0])
    return frozenset(out) if len(set(out)) == len(out) else None


def use_loops(h):
    h.use('geometry.SR_line:LineSegment.continuous', sum_continuous(h))
    h.use('geometry.SR_polygon:PolygonLine.order', sum_order_ident(h))
    h.use('geometry.SR_polygon:PolygonLine.point_set', sum_points_ident(h))


def sum_points_ident(h):
    """callee contract of point_set: every vertex once"""
    def f(self):
        out = []
        for s in self.segments:
            for e in s.ij:
                if not any(o is e or ident(h, o, e) for o in out):
                    out.append(e)
        return out
    return f


@contract('G22', 'walking segments finds a closed loop without branches or nothing, and leaves its input alone', [PM + 'walk_segments'],
          bounded='graphs of 3 to 7 segments', cases=[dict(graph=g, rot=r) for g in range(9) for r in (0, 1, 2)], reach=['loop', 'frame'])
def walk(h):
    names, pts, segs = plan_graph(h, sorted(PLANS) + ([] if h.symbolic else ['random'] * 12))
    use_loops(h)
    before = [(s, s.i, s.j, xy(h, s.i), xy(h, s.j)) for s in segs]
    keep = list(segs)
    r = h.G.walk_segments(segments=segs)
    if r is not False:
        got = ring_of(h, r, names, pts)
        h.prove('loop', got is not None and got in simple_cycles(names))
        on = {v for k in got or () for v in names[k]}
        h.prove('branchless', all(sum(v in e for e in names) == 2 for v in on))
    else:
        h.prove('loop', True)
    h.prove('frame', len(keep) == len(segs) and all(a is s and s.i is i and s.j is j and h.And(xy(h, i)[0] == x[0], xy(h, i)[1] == x[1], xy(h, j)[0] == y[0],
                                                                       xy(h, j)[1] == y[1]) is True
                                                    for a, (s, i, j, x, y) in zip(segs, before)))
    h.prove('nothing', h.G.walk_segments(segments=[]) is False)


@contract('G22', 'the loops found are exactly the simple closed loops of the segments, each once, shortest first',
          [BG + 'find_loops', PM + 'walk_segments'], bounded='graphs of 3 to 7 segments',
          cases=[dict(graph=g, rot=r) for g in range(9) for r in (0, 1, 2)], reach=['exactly', 'sorted'])
def loops(h):
    names, pts, segs = plan_graph(h, sorted(PLANS) + ([] if h.symbolic else ['random'] * 12))
    use_loops(h)
    h.use('geometry.SR_polygon:PolygonLine.isvalid', sum_valid(h))
    g = object.__new__(h.GR.BehalterGraph)
    k = h.choice('cut', [1, 2])
    h.GR.PolygonGroup.__init__(g, [h.G.PolygonLine(segs[:k]), h.G.PolygonLine(segs[k:])])
    r = g.find_loops()
    got = [ring_of(h, p, names, pts) for p in r]
    h.prove('exactly', None not in got and len(set(got)) == len(got) and set(got) == set(simple_cycles(names)))
    h.prove('sorted', all(len(a.segments) <= len(b.segments) for a, b in zip(r, r[1:])))
    h.prove('closed', all(p.isclosed for p in r))
