"""specification functions shared by contracts and contract summaries (pure
arithmetic over h's numbers; the same text is evaluated symbolically and on
concrete fractions)"""

EPS = 1e-8          # documented numerical tolerance
EQ = 1e-5           # documented equality tolerance of points
HALF = 5e-9         # rounding to 8 decimals


def xy(h, p):
    return h.x(p.x), h.x(p.y)


def peq(h, p, q):
    """the points compare equal"""
    (a, b), (c, d) = xy(h, p), xy(h, q)
    t = h.num(EQ)
    return h.And(a - c < t, c - a < t, b - d < t, d - b < t)


def same(h, p, q):
    (a, b), (c, d) = xy(h, p), xy(h, q)
    return h.And(a == c, b == d)


def sep(h, *ps, **k):
    """precondition: any two of the points coincide exactly or are clearly apart"""
    d = h.num(k.get('d', 1e-4 if h.symbolic else 0.999e-4))
    out = []
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            (a, b), (c, e) = xy(h, p), xy(h, q)
            out.append(h.Or(h.And(a == c, b == e), a - c >= d, c - a >= d, b - e >= d, e - b >= d))
    return h.And(out)


def apart(h, p, q, d=1e-4):
    (a, b), (c, e) = xy(h, p), xy(h, q)
    d = h.num(d if h.symbolic else 0.999 * d)
    return h.Or(a - c >= d, c - a >= d, b - e >= d, e - b >= d)


def cross3(h, o, a, b):
    """orientation of the triple o, a, b (positive: counter-clockwise)"""
    (ox, oy), (ax, ay), (bx, by) = xy(h, o), xy(h, a), xy(h, b)
    return (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)


def vec(h, s):
    (ax, ay), (bx, by) = xy(h, s.i), xy(h, s.j)
    return bx - ax, by - ay


def cross(h, s, t):
    a, b = vec(h, s), vec(h, t)
    return a[0] * b[1] - a[1] * b[0]


def dot(h, s, t):
    a, b = vec(h, s), vec(h, t)
    return a[0] * b[0] + a[1] * b[1]


def sq(h, s):
    a = vec(h, s)
    return a[0] * a[0] + a[1] * a[1]


def inbox(h, s, x, y, slack):
    """(x, y) in the bounding box of s, enlarged by slack"""
    (ax, ay), (bx, by) = xy(h, s.i), xy(h, s.j)
    e = h.num(slack)
    return h.And(h.Or(ax - e <= x, bx - e <= x), h.Or(x <= ax + e, x <= bx + e),
                 h.Or(ay - e <= y, by - e <= y), h.Or(y <= ay + e, y <= by + e))


def share(h, s, t):
    """the segments share an endpoint exactly"""
    return h.Or(same(h, s.i, t.i), same(h, s.i, t.j), same(h, s.j, t.i), same(h, s.j, t.j))
