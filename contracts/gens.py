"""random point sets for the concrete side (exact in binary: multiples of 1/4)"""
import math


def any_points(r, n):
    k = r.choice([3, 6, 12, 40])
    s = r.choice([1, 1, 0.5, 0.25, 16])
    return [(r.randint(-k, k) * s, r.randint(-k, k) * s) for _ in range(n)]


def distinct(r, n):
    k = max(3, n)
    s = r.choice([1, 1, 0.5, 16])
    out = []
    while len(out) < n:
        p = (r.randint(-k, k) * s, r.randint(-k, k) * s)
        if p not in out:
            out.append(p)
    return out


def star(r, n):
    """a simple polygon around a centre (star-shaped, vertices in angular order)"""
    cx, cy = r.choice([0, 0, 3, -40, 1000]), r.choice([0, 0, -2, 7, -500])
    s = r.choice([1, 1, 0.25, 8])
    out = []
    R = 8 + 4 * n
    for i in range(n):
        a = 2 * math.pi * (i + r.uniform(0.1, 0.9) * (1 if n > 3 else 0.5)) / n
        rad = r.uniform(0.2, 1) * R if n > 3 else R
        out.append((cx + s * round(rad * math.cos(a)), cy + s * round(rad * math.sin(a))))
    if r.random() < 0.5:
        out.reverse()
    k = r.randrange(n)
    return out[k:] + out[:k]


def convex(r, n):
    """points in convex position (some edges may be collinear), either orientation"""
    cx, cy = r.choice([0, 0, 5, -300]), r.choice([0, 0, -4, 90])
    s = r.choice([1, 1, 0.5])
    R = 20 * max(n, 3)
    an = sorted(2 * math.pi * (i + r.uniform(0, 0.6)) / n for i in range(n))
    sx, sy = r.choice([1, 1, 0.3, 2]), r.choice([1, 1, 0.5])
    out = [(cx + s * round(R * sx * math.cos(a)), cy + s * round(R * sy * math.sin(a))) for a in an]
    if r.random() < 0.5:
        out.reverse()
    k = r.randrange(n)
    return out[k:] + out[:k]


def shapes(r, n):
    return r.choice([any_points, distinct, star, convex])(r, n)


def poly(r, n):
    return r.choice([star, star, convex, distinct])(r, n) if n > 4 else r.choice([star, convex, distinct, distinct])(r, n)


def far(r, n):
    k = r.choice([5, 1000, 2e5, 5e11, 3e14])
    o = r.choice([0, 0, 1, -1]) * k * 2
    return [(o + r.randint(-100, 100) * k / 100.0, -o + r.randint(-100, 100) * k / 100.0) for _ in range(n)]


def small(r, n):
    k = r.choice([3, 4, 6, 9, 25])
    s = r.choice([1, 1, 2, 0.5])
    out = []
    while len(out) < n:
        p = (r.randint(-k, k) * s, r.randint(-k, k) * s)
        if p not in out:
            out.append(p)
    return out


def ngon(r, n):
    """points in convex position in order around a circle"""
    c = (r.randint(-30, 30), r.randint(-30, 30))
    R = r.choice([50, 100, 1000])
    a = sorted(2 * math.pi * (i + r.uniform(0, 0.5)) / n for i in range(n))
    return [(c[0] + round(R * math.cos(t)), c[1] + round(R * math.sin(t))) for t in a]
