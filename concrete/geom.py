"""Exact-rational oracle for bounded Voronoi diagrams (independent of foronoi): cells by half-plane clipping of the
polygon with Fractions, plus the classifier of boundary-degenerate inputs and input generators."""
from fractions import Fraction as F
import random, math


def fr(p):
    return (F(str(p[0])), F(str(p[1])))


def clip(poly, a, b, c):
    """keep a x + b y <= c"""
    out = []
    n = len(poly)
    vals = [a * p[0] + b * p[1] - c for p in poly]
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        vp, vq = vals[i], vals[(i + 1) % n]
        if vp <= 0:
            out.append(p)
        if (vp < 0 < vq) or (vp > 0 > vq):
            t = vp / (vp - vq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def area(poly):
    return abs(sum(poly[i][0] * poly[i - 1][1] - poly[i - 1][0] * poly[i][1] for i in range(len(poly)))) / 2


def dedupe(poly):
    out = []
    for p in poly:
        if not out or out[-1] != p:
            out.append(p)
    while len(out) > 1 and out[0] == out[-1]:
        out.pop()
    return out


def cell(poly, pts, i):
    p = pts[i]
    c = poly
    for j, q in enumerate(pts):
        if i != j:
            c = clip(c, 2 * (q[0] - p[0]), 2 * (q[1] - p[1]), q[0] ** 2 + q[1] ** 2 - p[0] ** 2 - p[1] ** 2)
    return dedupe(c)


def cells(poly, pts):
    poly = [fr(p) for p in poly]
    pts = [fr(p) for p in pts]
    return [cell(poly, pts, i) for i in range(len(pts))]


def strictly_inside(poly, p):
    n = len(poly)
    s = [(poly[(i + 1) % n][0] - poly[i][0]) * (p[1] - poly[i][1])
         - (poly[(i + 1) % n][1] - poly[i][1]) * (p[0] - poly[i][0]) for i in range(n)]
    return all(v < 0 for v in s) or all(v > 0 for v in s)


def convex(poly):
    """strictly convex, listed along the boundary in one direction"""
    n = len(poly)
    if n < 3 or len(set(poly)) != n:
        return False
    s = []
    for i in range(n):
        a, b, c = poly[i], poly[(i + 1) % n], poly[(i + 2) % n]
        s.append((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]))
    if not (all(v < 0 for v in s) or all(v > 0 for v in s)):
        return False
    cx = sum(p[0] for p in poly) / n
    cy = sum(p[1] for p in poly) / n
    return strictly_inside(poly, (cx, cy)) and abs(_turn(poly)) == 1


def _turn(poly):
    # number of full turns (star polygons have more than one)
    n = len(poly)
    tot = 0.0
    for i in range(n):
        a, b, c = poly[i], poly[(i + 1) % n], poly[(i + 2) % n]
        u = (float(b[0] - a[0]), float(b[1] - a[1]))
        v = (float(c[0] - b[0]), float(c[1] - b[1]))
        tot += math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])
    return round(tot / (2 * math.pi))


def on_segment(p, a, b):
    return (b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) and \
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def on_boundary(poly, p):
    return any(on_segment(p, poly[i], poly[(i + 1) % len(poly)]) for i in range(len(poly)))


def dist2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


def seg_dist2(p, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    L = d[0] ** 2 + d[1] ** 2
    t = ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / L
    t = max(F(0), min(F(1), t))
    return dist2(p, (a[0] + t * d[0], a[1] + t * d[1]))


def degenerate(poly, pts, margin=F(1, 10 ** 6)):
    """True when the input is outside the valid set of the properties: not strictly convex, a site not strictly
    inside, equal sites, a Voronoi vertex on the boundary or an edge through a corner - or nearer to one of these
    than the margin (the stated separation of the bounded checks; rounding is C20's subject)."""
    poly = [fr(p) for p in poly]
    pts = [fr(p) for p in pts]
    if len(set(pts)) != len(pts) or not convex(poly) or not all(strictly_inside(poly, p) for p in pts):
        return True
    m2 = margin ** 2
    for p in pts:
        if any(seg_dist2(p, poly[i], poly[(i + 1) % len(poly)]) < m2 for i in range(len(poly))):
            return True
    # corners: two nearest sites tie
    for c in poly:
        ds = sorted(dist2(c, p) for p in pts)
        if len(ds) > 1 and abs(ds[0] - ds[1]) < margin:
            return True
    # Voronoi vertices near the boundary
    n = len(pts)
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                v = circumcentre(pts[i], pts[j], pts[k])
                if v is None:
                    continue
                r = dist2(v, pts[i])
                if any(seg_dist2(v, poly[t], poly[(t + 1) % len(poly)]) < m2 for t in range(len(poly))):
                    if all(dist2(v, q) >= r - margin for q in pts):
                        return True
    return False


def circumcentre(a, b, c):
    d = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    if d == 0:
        return None
    b2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    c2 = (c[0] - a[0]) ** 2 + (c[1] - a[1]) ** 2
    return (a[0] + ((c[1] - a[1]) * b2 - (b[1] - a[1]) * c2) / d,
            a[1] + ((b[0] - a[0]) * c2 - (c[0] - a[0]) * b2) / d)


def near_degenerate(pts, margin=1e-7):
    """sites nearly (not exactly) collinear / co-circular / equal height: rounding territory (C20)."""
    P = [fr(p) for p in pts]
    m = F(margin)
    n = len(P)
    for i in range(n):
        for j in range(i + 1, n):
            if P[i][1] != P[j][1] and abs(P[i][1] - P[j][1]) < m:
                return True
            if dist2(P[i], P[j]) < m:
                return True
            for k in range(j + 1, n):
                a, b, c = P[i], P[j], P[k]
                d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
                if d != 0 and abs(d) < m:
                    return True
    return False


POLYS = {
    'box': [(0, 10), (10, 10), (10, 0), (0, 0)],
    'tri': [(0, 10), (10, 10), (5, 0)],
    'oct': [(2.5, 10), (5, 10), (10, 5), (10, 2.5), (5, 0), (2.5, 0), (0, 2.5), (0, 5)],
    'negbox': [(-10, 0), (0, 0), (0, -10), (-10, -10)],
    'belowbox': [(-5, -3), (9, -3), (9, -11), (-5, -11)],
    'penta': [(1, 0), (7, 1), (9, 6), (4, 9), (-2, 5)],
    'kite': [(0, 6), (8, 10), (6, 1), (-1, -4)],
    'tall': [(0, 40), (3, 41), (4, 1), (1, 0)],
    'wide': [(-30, 2), (25, 3), (30, 1), (-20, -1)],
}


def rand_poly(rng):
    """random strictly convex polygon with short decimal corners"""
    while True:
        n = rng.randint(3, 9)
        cx, cy = rng.choice([(0, 0), (5, 5), (-20, -7), (13, -4)])
        rx, ry = rng.uniform(2, 12), rng.uniform(2, 12)
        rot = rng.uniform(0, math.pi)
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        pts = []
        for a in ang:
            x, y = rx * math.cos(a), ry * math.sin(a)
            pts.append((round(cx + x * math.cos(rot) - y * math.sin(rot), 2),
                        round(cy + x * math.sin(rot) + y * math.cos(rot), 2)))
        if len(set(pts)) == n and convex([fr(p) for p in pts]):
            return pts


def rand_sites(rng, poly, n, mode):
    xs = [float(p[0]) for p in poly]
    ys = [float(p[1]) for p in poly]
    P = [fr(p) for p in poly]
    out = []
    rows = None
    tries = 0
    if math.ceil(min(xs)) > math.floor(max(xs)) or math.ceil(min(ys)) > math.floor(max(ys)):
        mode = 'fine' if mode in ('int', 'half') else mode
    while len(out) < n and tries < 4000:
        tries += 1
        if mode == 'int':
            p = (rng.randint(math.ceil(min(xs)), math.floor(max(xs))), rng.randint(math.ceil(min(ys)), math.floor(max(ys))))
        elif mode == 'half':
            p = (rng.randint(math.ceil(min(xs) * 2), math.floor(max(xs) * 2)) / 2,
                 rng.randint(math.ceil(min(ys) * 2), math.floor(max(ys) * 2)) / 2)
        elif mode == 'rows':
            if rows is None:
                rows = [round(rng.uniform(min(ys), max(ys)), 3) for _ in range(rng.randint(1, 3))]
            if tries % 60 == 59:
                rows = [round(rng.uniform(min(ys), max(ys)), 3) for _ in range(rng.randint(1, 3))]
            p = (round(rng.uniform(min(xs), max(xs)), 3), rng.choice(rows))
        elif mode == 'cols':
            if rows is None:
                rows = [round(rng.uniform(min(xs), max(xs)), 3) for _ in range(rng.randint(1, 3))]
            if tries % 60 == 59:
                rows = [round(rng.uniform(min(xs), max(xs)), 3) for _ in range(rng.randint(1, 3))]
            p = (rng.choice(rows), round(rng.uniform(min(ys), max(ys)), 3))
        elif mode == 'cluster':
            if rows is None:
                while True:
                    c = (rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys)))
                    if strictly_inside(P, fr(c)):
                        break
                rows = c
            p = (round(rows[0] + rng.gauss(0, .3), 3), round(rows[1] + rng.gauss(0, .3), 3))
        else:
            p = (round(rng.uniform(min(xs), max(xs)), 3), round(rng.uniform(min(ys), max(ys)), 3))
        if p not in out and strictly_inside(P, fr(p)):
            out.append(p)
    return out


MODES = ['int', 'float', 'half', 'rows', 'cols', 'cluster', 'float']


def rand_input(rng, nmax=8, modes=MODES):
    while True:
        poly = rng.choice(list(POLYS.values())) if rng.random() < .7 else rand_poly(rng)
        n = rng.randint(1, nmax)
        pts = rand_sites(rng, poly, n, rng.choice(modes))
        if pts and not degenerate(poly, pts) and not near_degenerate(pts, 1e-4):
            return poly, pts
