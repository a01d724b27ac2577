"""Concrete cases per property: generators and oracles.  Bounded: they sample inputs, they prove nothing; they replay
counterexamples and stand in for code outside the verifier's reach."""
import math, random, itertools, inspect
from decimal import Decimal, getcontext
from fractions import Fraction as F
from lib import Case, Bad, need
import geom
from foronoi import Voronoi, Polygon, BoundingBox, Coordinate, Point
from foronoi.graph import Vertex, HalfEdge, Algebra
from foronoi.nodes import Arc, Breakpoint, InternalNode, LeafNode
from foronoi.tree.node import Node
from foronoi.tree.tree import Tree
from foronoi.events import CircleEvent, SiteEvent
from foronoi.events.event import Event
from foronoi.algorithm import Algorithm
from foronoi.observers.subject import Subject
from foronoi.observers.observer import Observer
from foronoi.observers.message import Message
from foronoi.observers.debug_observer import DebugObserver
from foronoi.observers.tree_observer import TreeObserver

CASES = {}


def case(prop, name, gen, quick, thorough, rule, **kw):
    def deco(fn):
        CASES.setdefault(prop, []).append(Case(name, gen, fn, quick, thorough, rule, **kw))
        return fn
    return deco


def T(pts):
    return [tuple(p) for p in pts]


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def fxy(c):
    """exact rational value of a coordinate's decimals"""
    return (F(str(c.xd)), F(str(c.yd)))


# ---------------------------------------------------------------------------------------------- diagram inputs

def structured(rng, tier):
    """grids, rings and lines: collinear, co-circular and equal-height sites"""
    kind = rng.choice(['grid', 'ring', 'line', 'row', 'col', 'diamond', 'mixed', 'sub'])
    poly = [(-1.25, 13.5), (12.75, 13.5), (14.125, -1.75), (-2.5, -3.25)]
    pts = []
    if kind == 'grid':
        nx, ny = rng.randint(1, 4), rng.randint(1, 4)
        s = rng.choice([1, 2, 2.5, 0.5])
        ox, oy = rng.choice([0, 1.25, 3.125]), rng.choice([0, 0.75, 2.375])
        pts = [(ox + s * i, oy + s * j) for i in range(nx) for j in range(ny)]
        if rng.random() < .4:
            pts = [p for p in pts if rng.random() < .8]
    elif kind == 'ring':
        base = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
        c = rng.choice([(5.5, 5.25), (6, 5.5), (5, 5)])
        pts = [(c[0] + x, c[1] + y) for x, y in rng.sample(base, rng.randint(3, 12))]
        if rng.random() < .4:
            pts.append(c)
    elif kind == 'line':
        d = rng.choice([(1, 1), (1, 2), (2, -1), (1, -1), (0.5, 0.25)])
        o = (6, 5.25)
        pts = [(o[0] + d[0] * k, o[1] + d[1] * k) for k in rng.sample(range(-3, 4), rng.randint(2, 6))]
    elif kind == 'row':
        y = rng.choice([3, 7.5, 0])
        pts = [(x, y) for x in rng.sample(range(0, 12), rng.randint(2, 9))]
        if rng.random() < .5:
            pts += [(rng.randint(0, 11), rng.choice([1, 10])) for _ in range(rng.randint(1, 3))]
    elif kind == 'col':
        x = rng.choice([3, 7.5, 0])
        pts = [(x, y) for y in rng.sample(range(0, 12), rng.randint(2, 9))]
        if rng.random() < .5:
            pts += [(rng.choice([1, 10]), rng.randint(0, 11)) for _ in range(rng.randint(1, 3))]
    elif kind == 'diamond':
        c = (rng.randint(4, 7), rng.randint(4, 7))
        r = rng.randint(1, 3)
        pts = [(c[0] + r, c[1]), (c[0] - r, c[1]), (c[0], c[1] + r), (c[0], c[1] - r)]
        if rng.random() < .5:
            pts += [(c[0] + 2 * r + 1, c[1]), (c[0], c[1])][:rng.randint(1, 2)]
    elif kind == 'sub':
        pts = [(rng.randint(0, 6) * 2, rng.randint(0, 6) * 2) for _ in range(rng.randint(4, 14))]
    else:
        pts = [(rng.randint(0, 11), rng.randint(0, 11)) for _ in range(rng.randint(5, 16))]
    pts = list(dict.fromkeys(pts))
    rng.shuffle(pts)
    return poly, pts


def big_input(rng, tier):
    poly = rng.choice([geom.POLYS['box'], geom.POLYS['oct'], [(-100, 55), (120, 60), (130, -90), (-80, -110)]])
    P = [geom.fr(p) for p in poly]
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    n = rng.randint(20, 45) if tier == 'quick' else rng.randint(20, 90)
    pts = []
    while len(pts) < n:
        p = (round(rng.uniform(min(xs), max(xs)), 4), round(rng.uniform(min(ys), max(ys)), 4))
        if geom.strictly_inside(P, geom.fr(p)):
            pts.append(p)
    return poly, pts


def scaled(rng, poly, pts):
    """the same input moved and scaled by exact decimals"""
    k = rng.choice([1, 1, 1, 10, 100, 0.1, 0.01])
    dx, dy = rng.choice([(0, 0), (0, 0), (-50, 20), (300, -700), (0, -10), (-4, -5)])
    kk, ddx, ddy = Decimal(str(k)), Decimal(str(dx)), Decimal(str(dy))

    def m(p):
        return (float(Decimal(str(p[0])) * kk + ddx), float(Decimal(str(p[1])) * kk + ddy))
    return [m(p) for p in poly], [m(p) for p in pts]


def diagram_input(rng, tier, nmax=None):
    for _ in range(200):
        r = rng.random()
        if r < .35:
            poly, pts = structured(rng, tier)
        elif r < .42 and nmax is None:
            poly, pts = big_input(rng, tier)
        else:
            poly, pts = geom.rand_input(rng, nmax or rng.choice([3, 5, 8, 12]))
        if rng.random() < .3:
            poly, pts = scaled(rng, poly, pts)
        if rng.random() < .5:
            poly = poly[:]
            rng.shuffle(poly)
            # degenerate() needs the boundary order
            hull = sorted_hull(poly)
        else:
            hull = poly
        if len(pts) >= 1 and not geom.degenerate(hull, pts) and not geom.near_degenerate(pts, 1e-6):
            return dict(poly=poly, pts=pts)
    return dict(poly=geom.POLYS['box'], pts=[(2.25, 3), (7, 4.5)])


def sorted_hull(poly):
    cx = sum(F(str(p[0])) for p in poly) / len(poly)
    cy = sum(F(str(p[1])) for p in poly) / len(poly)
    return sorted(poly, key=lambda p: math.atan2(float(F(str(p[1])) - cy), float(F(str(p[0])) - cx)))


def build(data, **kw):
    v = Voronoi(Polygon(T(data['poly'])), **kw)
    v.create_diagram(T(data['pts']))
    return v


def scale_of(data):
    return max(max(abs(p[0]), abs(p[1])) for p in data['poly']) + 1e-9


def extent(data):
    xs = [p[0] for p in data['poly']]
    ys = [p[1] for p in data['poly']]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def tolerance(data):
    return 1e-7 * extent(data) + 1e-10 * scale_of(data)


def oracle_cells(data):
    return geom.cells(sorted_hull(T(data['poly'])), T(data['pts']))


def walk(site, cap=100000):
    """border walk by next from first_edge, independent of Point.borders"""
    e = site.first_edge
    need(e is not None, f"site {site.xy} has no first edge")
    out = [e]
    n = e.next
    while n is not e:
        need(n is not None, f"border walk of site {site.xy} is not closed")
        need(len(out) < cap, f"border walk of site {site.xy} does not return to its first edge")
        out.append(n)
        n = n.next
    return out


def cmp_cells(v, data, ex=None):
    ex = ex or oracle_cells(data)
    tol = tolerance(data)
    pts = T(data['pts'])
    need(len(v.sites) == len(pts), f"{len(v.sites)} sites for {len(pts)} points")
    total = 0.0
    for i, s in enumerate(v.sites):
        need(s.xy == (float(pts[i][0]), float(pts[i][1])), f"site {i} is {s.xy}, not {pts[i]}")
        w = walk(s, 10 * len(pts) + 100)
        for e in w:
            need(isinstance(e.origin, Vertex) and e.origin.xd is not None, f"border of site {pts[i]} has no fixed origin")
        poly = [(e.origin.x, e.origin.y) for e in w]
        want = [(float(x), float(y)) for x, y in ex[i]]
        for q in want:
            need(min(math.dist(q, p) for p in poly) <= tol, f"cell of {pts[i]}: corner {q} is missing, walk is {poly}")
        for q in poly:
            need(min(math.dist(q, p) for p in want) <= tol, f"cell of {pts[i]}: corner {q} is not one of {want}")
        a = abs(sum(poly[k][0] * poly[k - 1][1] - poly[k - 1][0] * poly[k][1] for k in range(len(poly)))) / 2
        wa = float(geom.area(ex[i]))
        need(abs(a - wa) <= 20 * tol * extent(data), f"cell of {pts[i]} has area {a}, expected {wa}")
        need(abs(s.area() - wa) <= 20 * tol * extent(data) + 1e-9 * scale_of(data) ** 2, f"area() of {pts[i]} is {s.area()}, expected {wa}")
        total += s.area()
    pa = float(geom.area([geom.fr(p) for p in sorted_hull(T(data['poly']))]))
    need(abs(total - pa) <= 40 * len(pts) * tol * extent(data) + 1e-8 * scale_of(data) ** 2, f"cells add up to {total}, polygon is {pa}")


NT = dict(nontrivial=lambda d: len(d['pts']) > 1)


@case('C01', 'cells', diagram_input, 480, 12000,
      'random convex polygons (corners in any order) with random, gridded, collinear, co-circular, equal-height and clustered '
      'sites, also moved and scaled; cells compared with exact half-plane clipping; non-trivial: at least two sites', **NT)
def c01(data):
    v = build(data)
    cmp_cells(v, data)


@case('C01', 'order', lambda r, t: diagram_input(r, t, 8), 120, 3000,
      'the same sites in another order (and removal of zero-length edges switched) give the same cells', **NT)
def c01_order(data):
    ex = oracle_cells(data)
    rng = random.Random(str(data))
    for k in range(2):
        idx = list(range(len(data['pts'])))
        rng.shuffle(idx)
        d = dict(poly=data['poly'], pts=[data['pts'][i] for i in idx])
        v = build(d, remove_zero_length_edges=bool(k))
        cmp_cells(v, d, [ex[i] for i in idx])


# ---------------------------------------------------------------------------------------------- half-edge structure

def all_half_edges(v):
    return [h for e in v.edges for h in (e, e.twin)]


def structure(v, merged):
    E = v.edges
    H = all_half_edges(v)
    ids = set(map(id, H))
    need(len(ids) == len(H), "a half-edge is listed twice")
    for h in H:
        need(h.twin is not None and h.twin.twin is h, "twin of twin is another edge")
        need(h.target is h.twin.origin, "target is not the twin's origin")
        if h.incident_point is not None:
            need(h.next is not None and h.prev is not None, "a border has no next or prev")
            need(h.next.prev is h, "prev of next is another edge")
            need(h.prev.next is h, "next of prev is another edge")
            need(h.next.incident_point is h.incident_point, "next edge borders another site")
            need(id(h.next) in ids and id(h.prev) in ids, "next or prev is not an edge of the diagram")
            need(h.next.origin is h.twin.origin, "the next edge does not start where the edge ends")
    seen = {}
    for s in v.sites:
        w = walk(s, len(H) + 5)
        for e in w:
            need(e.incident_point is s, "a border of another site is on the walk")
            need(id(e) not in seen, "a border is visited twice")
            seen[id(e)] = 1
        b = s.borders()
        need(len(b) == len(w) and all(x is y for x, y in zip(b, w)), "borders() differs from the walk")
    for h in H:
        if h.incident_point is not None:
            need(id(h) in seen, "a border of a site is not on its walk")
            need(any(h.incident_point is s for s in v.sites), "incident point is not a site")


@case('C02', 'structure', diagram_input, 440, 10000,
      'finished diagrams as for C01, removal of zero-length edges on and off; every half-edge link checked', **NT)
def c02(data):
    for rz in (True, False):
        structure(build(data, remove_zero_length_edges=rz), rz)


def gen_ops(rng, tier):
    return dict(n=rng.randint(2, 7), seed=rng.randint(0, 10 ** 9), k=rng.randint(1, 14))


@case('C02', 'primitives', gen_ops, 4000, 100000,
      'random sequences of twin/next/delete operations on 2-7 half-edges, each compared with its effect on a snapshot',
      functions=('HalfEdge.set_next', 'HalfEdge.delete', 'HalfEdge.twin.setter', 'HalfEdge.__init__', 'HalfEdge.target'))
def c02_ops(data):
    rng = random.Random(data['seed'])
    P = [Point(i, 1, name=i) for i in range(3)]
    V = [Vertex(i, 2) for i in range(3)]
    es = []
    for i in range(data['n']):
        o = rng.choice(V + [None, Breakpoint((P[0], P[1]))])
        p = rng.choice(P)
        free = [e for e in es if e.twin is None]
        if free and rng.random() < .5:
            t = rng.choice(free)
            e = HalfEdge(p, twin=t, origin=o)
            need(e.twin is t and t.twin is e, "a new pair of half-edges is not each other's twin")
            need(t.target is o and e.target is t.origin, "target of a new pair is wrong")
        else:
            e = HalfEdge(p, origin=o)
            need(e.twin is None and e.target is None, "a single half-edge has a twin")
        need(e.incident_point is p and e.origin is o and e.next is None and e.prev is None, "a new half-edge is linked")
        if isinstance(o, Vertex):
            o.connected_edges.append(e)
        es.append(e)

    def snap():
        d = {}
        for i, e in enumerate(es):
            for f in ('origin', 'incident_point', 'next', 'prev', 'twin'):
                d[i, f] = getattr(e, f)
        for i, v in enumerate(V):
            d['v', i] = list(v.connected_edges)
        for i, p in enumerate(P):
            d['p', i] = p.first_edge
        return d

    def same(a, b, what):
        for k in a:
            ok = (a[k] is b[k]) if not isinstance(a[k], list) else (len(a[k]) == len(b[k]) and all(x is y for x, y in zip(a[k], b[k])))
            need(ok, f"{what}: {k} is wrong")

    for _ in range(data['k']):
        before = snap()
        op = rng.choice(['next', 'next', 'next', 'none', 'delete', 'twin', 'first'])
        i, j = rng.randrange(len(es)), rng.randrange(len(es))
        a, b = es[i], es[j]
        want = dict(before)
        if op == 'next':
            a.set_next(b)
            want[j, 'prev'] = a
            want[i, 'next'] = b
        elif op == 'none':
            a.set_next(None)
            want[i, 'next'] = None
        elif op == 'first':
            a.incident_point.first_edge = a
            want['p', P.index(a.incident_point)] = a
        elif op == 'twin':
            if i == j or a.twin is not None or b.twin is not None:
                continue
            a.twin = b
            want[i, 'twin'] = b
            want[j, 'twin'] = a
        elif op == 'delete':
            if isinstance(a.origin, Vertex) and a not in a.origin.connected_edges:
                continue
            p = a.incident_point
            if p.first_edge is a and a.next is not None and a.next.incident_point is not p:
                continue
            a.delete()
            if isinstance(a.origin, Vertex):
                k = V.index(a.origin)
                l = list(before['v', k])
                l.remove(a)
                want['v', k] = l
            if before[i, 'prev'] is not None:
                pi = es.index(before[i, 'prev'])
                want[pi, 'next'] = before[i, 'next']
                if before[i, 'next'] is not None:
                    want[es.index(before[i, 'next']), 'prev'] = before[i, 'prev']
                if pi == i:
                    want[i, 'next'] = before[i, 'next']
            if before['p', P.index(p)] is a:
                want['p', P.index(p)] = want[i, 'next']
        same(want, snap(), op)


# ---------------------------------------------------------------------------------------------- circles

def rnum(rng):
    return rng.choice([rng.randint(-9, 9), round(rng.uniform(-20, 20), rng.randint(0, 3)), rng.randint(-30, 30) / 4,
                       round(rng.uniform(-1e4, 1e4), 2), 0])


def gen_triple(rng, tier):
    a = [(rnum(rng), rnum(rng)) for _ in range(3)]
    if rng.random() < .25:
        d = (rng.randint(-3, 3), rng.randint(-3, 3))
        o = (rng.randint(-5, 5), rng.randint(-5, 5))
        a = [(o[0] + d[0] * k, o[1] + d[1] * k) for k in (rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-4, 4))]
    return dict(t=a)


def dec2(p):
    return (F(str(p[0])), F(str(p[1])))


@case('C03', 'circle', gen_triple, 12000, 300000,
      'random triples incl. collinear and repeated points; centre and radius against exact rationals',
      functions=('CircleEvent.create_circle', 'CircleEvent.create_circle_event', 'CircleEvent.xd', 'CircleEvent.yd'))
def c03(data):
    t = [dec2(p) for p in T(data['t'])]
    co = [Point(x, y, name=i) for i, (x, y) in enumerate(T(data['t']))]
    c = geom.circumcentre(*t)
    r = CircleEvent.create_circle(*co)
    nodes = [LeafNode(Arc(p)) for p in co]
    ev = CircleEvent.create_circle_event(nodes[0], nodes[1], nodes[2], sweep_line=Decimal(-5))
    for miss in range(3):
        ns = list(nodes)
        ns[miss] = None
        need(CircleEvent.create_circle_event(*ns, sweep_line=Decimal(-5)) is None, "an event for a missing arc")
    if c is None:
        need(not r, f"a circle {r} for collinear points")
        need(ev is None, "a circle event for collinear points")
        return
    need(r, "no circle for points that are not collinear")
    x, y, rad = r
    rr = math.sqrt(float(geom.dist2(c, t[0])))
    sc = max(1, rr, *[abs(float(q)) for p in t for q in p])
    need(abs(float(F(str(x)) - c[0])) <= 1e-9 * sc and abs(float(F(str(y)) - c[1])) <= 1e-9 * sc, f"centre {x},{y}, expected {float(c[0])},{float(c[1])}")
    need(abs(float(rad) - rr) <= 1e-9 * sc, f"radius {rad}, expected {rr}")
    need(ev is not None, "no circle event for points that are not collinear")
    need(ev.center.xd == x and ev.center.yd == y and ev.radius == rad, "the event's circle is not the circle of its points")
    need(ev.xd == x and ev.yd == y - rad, "the event is not at the lowest point of its circle")
    need(ev.is_valid is True and ev.arc_pointer is nodes[1] and tuple(ev.point_triple) == tuple(co)
         and tuple(ev.arc_triple) == tuple(n.data for n in nodes), "the event's arcs or points are wrong")
    need(list(ev._get_triangle()) == [(p.xd, p.yd) for p in co], "the event's triangle is wrong")


class Recorder(Observer):
    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def update(self, subject, message, **kwargs):
        self.n += 1
        self.fn(subject, message, **kwargs)


@case('C03', 'vertices', diagram_input, 320, 6000,
      'constructions as for C01: the vertex made by every circle event and every interior vertex of the result', **NT)
def c03_vertices(data):
    before = set()

    def step(s, m, **kw):
        if m == Message.STEP_FINISHED:
            new = [x for x in s._vertices if id(x) not in before]
            e = s.event
            if isinstance(e, CircleEvent):
                c = fxy(e.center)
                d = [math.sqrt(float(geom.dist2(c, fxy(p)))) for p in e.point_triple]
                need(max(d) - min(d) <= 1e-9 * max(1, max(d)), "circle event's centre is not equidistant from its sites")
                need(abs(float(e.radius) - d[0]) <= 1e-9 * max(1, d[0]), "circle event's radius is not that distance")
                need(e.xd == e.center.xd and e.yd == e.center.yd - e.radius, "circle event is not at the lowest point")
                need(len(new) <= 1, "a circle event made several vertices")
                if new:
                    need(new[0].xd == e.center.xd and new[0].yd == e.center.yd, "the vertex is not the centre of its circle event")
            else:
                need(not new, "a site event made a vertex")
            for x in new:
                before.add(id(x))
                keep.append(x)
    keep = []
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))
    hull = [geom.fr(p) for p in sorted_hull(T(data['poly']))]
    tol = tolerance(data)
    sites = [dec2(p) for p in T(data['pts'])]
    inner = 0
    for x in v.vertices:
        p = fxy(x)
        if min(float(geom.seg_dist2(p, hull[k - 1], hull[k])) for k in range(len(hull))) <= tol ** 2:
            continue
        inner += 1
        ds = [math.sqrt(float(geom.dist2(p, q))) for q in sites]
        near = min(ds)
        S = {id(h.incident_point): h.incident_point for e in x.connected_edges for h in (e, e.twin)}
        need(len(S) >= 3, f"only {len(S)} sites meet at the interior vertex {x.xy}")
        for s in S.values():
            need(s is not None, "an outer edge at an interior vertex")
            need(abs(math.dist(s.xy, x.xy) - near) <= tol, f"vertex {x.xy} is not equally near to its site {s.xy}")


# ---------------------------------------------------------------------------------------------- clipping

def gen_ray(rng, tier):
    return dict(o=(rnum(rng), rnum(rng)), e=(rnum(rng), rnum(rng)), a=(rnum(rng), rnum(rng)), b=(rnum(rng), rnum(rng)))


def ray_hit(o, e, a, b):
    """exact: None (parallel), else (t along o->e, u along a->b)"""
    d = (e[0] - o[0], e[1] - o[1])
    s = (b[0] - a[0], b[1] - a[1])
    den = d[0] * s[1] - d[1] * s[0]
    if den == 0:
        return None
    w = (a[0] - o[0], a[1] - o[1])
    return ((w[0] * s[1] - w[1] * s[0]) / den, (w[0] * d[1] - w[1] * d[0]) / den)


@case('C04', 'ray', gen_ray, 12000, 300000,
      'random rays and segments incl. parallel ones; margin 1e-6 around end points', functions=('Algebra.line_ray_intersection_point', 'Algebra.get_intersection'))
def c04_ray(data):
    o, e, a, b = [dec2(data[k]) for k in 'oeab']
    if o == e or a == b:
        return
    hit = ray_hit(o, e, a, b)
    co = [Coordinate(*data[k]) for k in 'oeab']
    got = Algebra.get_intersection(*co)
    raw = Algebra.line_ray_intersection_point(*[[c.xd, c.yd] for c in co])
    if hit is None:
        return_none = got is None and len(raw) == 0
        # exact parallel may be missed by float rounding when the numbers are not floats
        if all(float(q) == q for k in (o, e, a, b) for q in k):
            pass
        if got is not None:
            d = (e[0] - o[0], e[1] - o[1])
            s = (b[0] - a[0], b[1] - a[1])
            need(float(abs(got.xd)) > 1e6 or float(abs(got.yd)) > 1e6 or collinear_hit(o, e, a, b), "an intersection of parallel lines")
        return
    t, u = hit
    L = math.sqrt(float(geom.dist2(o, e)))
    S = math.sqrt(float(geom.dist2(a, b)))
    den = abs(float((e[0] - o[0]) * (b[1] - a[1]) - (e[1] - o[1]) * (b[0] - a[0]))) / (L * S)
    if den < 1e-6:
        return
    if abs(float(t)) * L < 1e-6 or abs(float(u)) * S < 1e-6 or abs(float(u) - 1) * S < 1e-6:
        return
    want = t > 0 and 0 <= u <= 1
    need((got is not None) == want, f"intersection {'missed' if want else 'reported although there is none'}: t={float(t)}, u={float(u)}")
    need((len(raw) == 1) == want, "line_ray_intersection_point disagrees")
    if want:
        p = (o[0] + t * (e[0] - o[0]), o[1] + t * (e[1] - o[1]))
        sc = max(1, *[abs(float(q)) for k in (o, e, a, b) for q in k]) / den
        need(abs(float(F(str(got.xd)) - p[0])) <= 1e-8 * sc and abs(float(F(str(got.yd)) - p[1])) <= 1e-8 * sc, f"intersection {got.xy}, expected {[float(q) for q in p]}")


def collinear_hit(o, e, a, b):
    return (e[0] - o[0]) * (a[1] - o[1]) == (e[1] - o[1]) * (a[0] - o[0])


def gen_clip(rng, tier):
    poly = rng.choice(list(geom.POLYS.values())) if rng.random() < .6 else geom.rand_poly(rng)
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    w, h = max(xs) - min(xs), max(ys) - min(ys)

    def q(k):
        return (round(rng.uniform(min(xs) - k * w, max(xs) + k * w), 3), round(rng.uniform(min(ys) - k * h, max(ys) + k * h), 3))
    return dict(poly=poly, o=q(rng.choice([0, .3, 2])), e=q(rng.choice([0, .3, 2])))


@case('C04', 'crossing', gen_clip, 4000, 100000,
      'random polygons and directed segments from inside and outside; the chosen crossing against exact arithmetic, margin 1e-6',
      functions=('Polygon._get_intersection_point', 'Algebra.distance'))
def c04_cross(data):
    hull = [geom.fr(p) for p in sorted_hull(T(data['poly']))]
    o, e = dec2(data['o']), dec2(data['e'])
    if o == e:
        return
    L = math.sqrt(float(geom.dist2(o, e)))
    ts = []
    for k in range(len(hull)):
        a, b = hull[k - 1], hull[k]
        hit = ray_hit(o, e, a, b)
        if hit is None:
            return
        t, u = hit
        S = math.sqrt(float(geom.dist2(a, b)))
        if abs(float(t)) * L < 1e-6 or abs(float(t) - 1) * L < 1e-6 or abs(float(u)) * S < 1e-6 or abs(float(u) - 1) * S < 1e-6:
            return
        if t > 0 and 0 <= u <= 1 and t <= 1:
            ts.append(t)
    P = Polygon(T(data['poly']))
    got = P._get_intersection_point(Coordinate(*data['o']), Coordinate(*data['e']))
    if not ts:
        need(got is None, f"a crossing {got and got.xy} although none lies before the end")
        return
    t = max(ts)
    need(got is not None, "no crossing although one lies before the end")
    p = (o[0] + t * (e[0] - o[0]), o[1] + t * (e[1] - o[1]))
    need(math.dist(got.xy, (float(p[0]), float(p[1]))) <= 1e-6, f"crossing {got.xy}, the furthest is {[float(q) for q in p]}")


def gen_clip_grid(rng, tier):
    poly = rng.choice([[(0, 0), (8, 0), (8, 8), (0, 8)], [(0, 4), (4, 8), (8, 4), (4, 0)], [(0, 0), (4, -4), (8, 0), (8, 8), (4, 12), (0, 8)], [(0, 0), (8, 0), (0, 8)]])
    q = lambda: (rng.randint(-4, 12), rng.randint(-8, 16))
    c = rng.choice(poly)
    if rng.random() < .6:       # through a corner, which may also be the end
        o = q()
        k = rng.choice([1, 2, 3])
        e = (c[0] + (k - 1) * (c[0] - o[0]), c[1] + (k - 1) * (c[1] - o[1]))
    else:
        o, e = q(), q()
    return dict(poly=poly, o=o, e=e)


@case('C04', 'crossing at corners', gen_clip_grid, 3000, 60000,
      'grid points: rays through corners, ends on sides and corners; the chosen crossing against exact arithmetic',
      functions=('Polygon._get_intersection_point', 'Algebra.distance'))
def c04_cross_grid(data):
    hull = [geom.fr(p) for p in sorted_hull(T(data['poly']))]
    o, e = dec2(data['o']), dec2(data['e'])
    if o == e:
        return
    ts, sure = [], []        # a crossing exactly at a corner or at the end may be lost to rounding
    for k in range(len(hull)):
        hit = ray_hit(o, e, hull[k - 1], hull[k])
        if hit is not None and 0 < hit[0] <= 1 and 0 <= hit[1] <= 1:
            ts.append(hit[0])
            if hit[0] < 1 and 0 < hit[1] < 1:
                sure.append(hit[0])
    P = Polygon(T(data['poly']))
    got = P._get_intersection_point(Coordinate(*data['o']), Coordinate(*data['e']))
    if got is None:
        need(not sure, "no crossing although one lies before the end")
        return
    need(ts, f"a crossing {got.xy} although none lies before the end")
    pos = lambda t: (float(o[0] + t * (e[0] - o[0])), float(o[1] + t * (e[1] - o[1])))
    least = max(sure, default=0)
    need(any(t >= least and math.dist(got.xy, pos(t)) <= 1e-6 for t in ts), f"crossing {got.xy}, the furthest is {pos(max(ts))}")


def oracle_segments(data):
    """exact Voronoi edges inside the polygon: {(i, j): (p, q)}"""
    cells = oracle_cells(data)
    S = [dec2(p) for p in T(data['pts'])]
    out = {}
    for i in range(len(S)):
        c = cells[i]
        for k in range(len(c)):
            p, q = c[k - 1], c[k]
            for j in range(len(S)):
                if j != i and geom.dist2(p, S[i]) == geom.dist2(p, S[j]) and geom.dist2(q, S[i]) == geom.dist2(q, S[j]):
                    out[i, j] = (p, q)
    return out


@case('C04', 'diagram', diagram_input, 360, 7000,
      'finished diagrams: vertices inside or on the polygon, clip vertices on it, every exact edge piece present once', **NT)
def c04_diagram(data):
    v = build(data)
    hull = [geom.fr(p) for p in sorted_hull(T(data['poly']))]
    tol = tolerance(data)
    fh = [(float(x), float(y)) for x, y in hull]
    for x in v.vertices:
        p = fxy(x)
        on = min(float(geom.seg_dist2(p, hull[k - 1], hull[k])) for k in range(len(hull))) <= tol ** 2
        need(on or geom.strictly_inside(hull, p), f"vertex {x.xy} lies outside the polygon")
        if any(h.incident_point is None for e in x.connected_edges for h in (e, e.twin)):
            need(on, f"vertex {x.xy} of the border does not lie on the polygon")
    idx = {id(s): i for i, s in enumerate(v.sites)}
    want = oracle_segments(data)
    got = {}
    for e in v.edges:
        if e.incident_point is None or e.twin.incident_point is None:
            continue
        i, j = idx[id(e.incident_point)], idx[id(e.twin.incident_point)]
        need((i, j) not in got and (j, i) not in got, f"sites {data['pts'][i]} and {data['pts'][j]} share two edges")
        got[i, j] = got[j, i] = (e.origin.xy, e.twin.origin.xy)
    for k, (p, q) in want.items():
        p, q = (float(p[0]), float(p[1])), (float(q[0]), float(q[1]))
        if math.dist(p, q) <= 100 * tol:
            continue
        need(k in got, f"the edge between {data['pts'][k[0]]} and {data['pts'][k[1]]} is lost")
        a, b = got[k]
        need(min(max(math.dist(a, p), math.dist(b, q)), max(math.dist(a, q), math.dist(b, p))) <= 10 * tol,
             f"the edge between {data['pts'][k[0]]} and {data['pts'][k[1]]} is {a}-{b}, expected {p}-{q}")
    for k, (a, b) in got.items():
        need(k in want or math.dist(a, b) <= 100 * tol, f"edge {a}-{b} between sites that are not neighbours")


# ---------------------------------------------------------------------------------------------- trees

def tree_from(spec, cls=Node):
    """spec: [left, key, right] or None"""
    if spec is None:
        return None
    n = cls(spec[1])
    n.left = tree_from(spec[0], cls)
    n.right = tree_from(spec[2], cls)
    n.update_height()
    return n


def true_height(n):
    return 0 if n is None else 1 + max(true_height(n.left), true_height(n.right))


def inorder(n):
    return [] if n is None else inorder(n.left) + [n] + inorder(n.right)


def check_links(n, parent=None, heights=True, what='tree'):
    seen = set()

    def rec(n, p):
        if n is None:
            return 0
        need(id(n) not in seen, f"{what}: a node occurs twice")
        seen.add(id(n))
        need(n.parent is p, f"{what}: a node's parent is wrong")
        h = 1 + max(rec(n.left, n), rec(n.right, n))
        if heights:
            need(n.height == h, f"{what}: cached height {n.height}, real height {h}")
        return h
    return rec(n, parent)


def check_avl(n, what='tree'):
    if n is None:
        return
    for x in inorder(n):
        b = true_height(x.left) - true_height(x.right)
        need(abs(b) <= 1, f"{what}: subtree heights differ by {abs(b)}")
        need(x.balance == b, f"{what}: balance() is {x.balance}, real {b}")


def rand_shape(rng, n, lo=0):
    """[left, key, right] with n nodes, keys lo.. in order"""
    if n == 0:
        return None
    k = rng.randint(0, n - 1)
    return [rand_shape(rng, k, lo), lo + k, rand_shape(rng, n - 1 - k, lo + k + 1)]


def rand_full(rng, leaves, lo=0):
    """every inner node has two children; keys in order"""
    if leaves == 1:
        return [None, lo, None]
    k = rng.randint(1, leaves - 1)
    return [rand_full(rng, k, lo), lo + 2 * k - 1, rand_full(rng, leaves - k, lo + 2 * k)]


def avl_shape(rng, h, lo=0):
    if h <= 0:
        return None, lo
    hs = [(h - 1, h - 1), (h - 1, h - 2), (h - 2, h - 1)]
    a, b = rng.choice(hs) if h > 1 else (0, 0)
    l, k = avl_shape(rng, a, lo)
    r, e = avl_shape(rng, b, k + 1)
    return [l, k, r], e


def avl_full(rng, h, lo=0):
    if h == 1:
        return [None, lo, None], lo + 1
    if h == 2:
        hs = (1, 1)
    else:
        hs = rng.choice([(h - 1, h - 1), (h - 1, h - 2), (h - 2, h - 1)])
    l, k = avl_full(rng, hs[0], lo)
    r, e = avl_full(rng, hs[1], k + 1)
    return [l, k, r], e


def gen_rot(rng, tier):
    k = rng.randint(2, 14)
    return dict(shape=rand_shape(rng, k), pick=rng.randint(0, k - 1))


@case('C05', 'rotate', gen_rot, 5000, 120000, 'random trees of 2-14 nodes, rotation at a random node that has the needed child',
      functions=('Tree.rotate_left', 'Tree.rotate_right', 'Node.left.setter', 'Node.right.setter', 'Node.update_height', 'Node.calculate_height', 'Node.height'))
def c05_rotate(data):
    for side in ('left', 'right'):
        root = tree_from(data['shape'])
        z = inorder(root)[data['pick']]
        y = z.right if side == 'left' else z.left
        if y is None:
            continue
        order = inorder(root)
        parent = z.parent
        outside = {id(n): n._height for n in order if n is not z and n is not y}
        mid = y.left if side == 'left' else y.right
        keep_y = y.right if side == 'left' else y.left
        keep_z = z.left if side == 'left' else z.right
        r = Tree.rotate_left(z) if side == 'left' else Tree.rotate_right(z)
        need(r is y, f"rotate_{side} does not return the new subtree root")
        root2 = root if root is not z else r
        check_links(root2, None, heights=False, what='rotate_' + side)
        need([id(n) for n in inorder(root2)] == [id(n) for n in order], f"rotate_{side} changes the order of the nodes")
        need(y.parent is parent, f"rotate_{side}: new root has the wrong parent")
        if side == 'left':
            need(y.left is z and z.right is mid and y.right is keep_y and z.left is keep_z, "rotate_left moved the wrong subtree")
        else:
            need(y.right is z and z.left is mid and y.left is keep_y and z.right is keep_z, "rotate_right moved the wrong subtree")
        for n in (z, y):
            need(n.height == true_height(n), f"rotate_{side}: cached height {n.height}, real {true_height(n)}")
        for n in order:
            if id(n) in outside:
                need(n._height == outside[id(n)], "a height outside the rotation changed")


def gen_bal(rng, tier):
    h = rng.randint(1, 4)
    d = rng.choice([-2, -1, 0, 1, 2])
    hl, hr = (h + max(d, 0), h + max(-d, 0)) if d else (h, h)
    if rng.random() < .3:
        m = min(hl, hr)
        hl, hr = hl - m, hr - m
    l, k = avl_shape(rng, hl, 0)
    r, e = avl_shape(rng, hr, k + 1)
    return dict(l=l, k=k, r=r, side=rng.choice(['root', 'left', 'right']))


@case('C05', 'balance', gen_bal, 4000, 100000, 'a node whose balanced subtrees differ in height by at most two, as root or as a child',
      functions=('Tree.balance', 'Node.balance', 'Tree.rotate_left', 'Tree.rotate_right'))
def c05_balance(data):
    n = tree_from([data['l'], data['k'], data['r']])
    top = None
    if data['side'] != 'root':
        top = Node(-1 if data['side'] == 'right' else 10 ** 6)
        setattr(top, data['side'], n)
    order = [id(x) for x in inorder(n)]
    h0 = n.height
    b0 = true_height(n.left) - true_height(n.right)
    r = Tree.balance(n)
    need(r.parent is top, "balance: parent of the new root is wrong")
    if top is not None:
        need(getattr(top, data['side']) is r and getattr(top, 'left' if data['side'] == 'right' else 'right') is None, "balance: the parent's child is wrong")
    check_links(r, top, what='balance')
    check_avl(r, 'balance')
    need([id(x) for x in inorder(r)] == order, "balance changes the order of the nodes")
    need(h0 - 1 <= r.height <= h0, "balance changes the height by more than one")
    if abs(b0) <= 1:
        need(r is n, "balance rotates a balanced node")


def gen_replace(rng, tier):
    L = rng.randint(1, 9)
    sp, e = (avl_full(rng, rng.randint(1, 5)) if rng.random() < .6 else (rand_full(rng, L), 0))
    return dict(shape=sp, pick=rng.random(), mode=rng.choice(['sub3', 'sub2', 'remove', 'none', 'sub3', 'remove']))


def leaves_of(n):
    return [x for x in inorder(n) if x.left is None and x.right is None]


@case('C05', 'replace', gen_replace, 5000, 120000,
      'a leaf of a tree (every inner node with two children, balanced in most cases) replaced by a subtree, by nothing, or with its parent by its sibling; then rebalanced',
      functions=('Node.replace_leaf', 'Node.update_heights', 'Tree.balance_and_propagate', 'Node.is_left_child', 'Node.is_right_child'))
def c05_replace(data):
    root = tree_from(data['shape'])
    avl = all(abs(true_height(n.left) - true_height(n.right)) <= 1 for n in inorder(root))
    ls = leaves_of(root)
    leaf = ls[int(data['pick'] * len(ls))]
    order = [n for n in inorder(root)]
    i = [id(n) for n in order].index(id(leaf))
    mode = data['mode']
    if mode in ('sub3', 'sub2'):
        new = Node('r')
        new.left = Node('a')
        if mode == 'sub3':
            new.right = Node('s')
            new.right.left = Node('b')
            new.right.right = Node('c')
        else:
            new.right = Node('b')
        want = order[:i] + inorder(new) + order[i + 1:]
        r = leaf.replace_leaf(replacement=new, root=root)
        start = new
    elif mode == 'none':
        want = order[:i] + order[i + 1:]
        p = leaf.parent
        r = leaf.replace_leaf(None, root)
        need(r is (root if root is not leaf else None), "replace_leaf returns the wrong root")
        if r is not None:
            check_links(r, None, what='replace_leaf')
            need([id(n) for n in inorder(r)] == [id(n) for n in want], "replace_leaf changes other nodes")
        return
    else:
        p = leaf.parent
        if p is None:
            return
        sib = p.right if p.left is leaf else p.left
        want = [n for n in order if n is not leaf and n is not p]
        r = p.replace_leaf(sib, root)
        start = sib
    need(r is not None and r.parent is None, "replace_leaf: the root is wrong")
    check_links(r, None, what='replace_leaf')
    need([id(n) for n in inorder(r)] == [id(n) for n in want], "replace_leaf changes the order of the nodes")
    need(Tree.get_leaves(r) == leaves_of(r), "get_leaves differs")
    r2 = Tree.balance_and_propagate(start)
    need(r2.parent is None, "balance_and_propagate does not return the root")
    check_links(r2, None, what='balance_and_propagate')
    need([id(n) for n in inorder(r2)] == [id(n) for n in want], "balance_and_propagate changes the order of the nodes")
    if avl:
        check_avl(r2, 'balance_and_propagate')


def beach_input(rng, tier):
    r = rng.random()
    if r < .3:
        n = rng.randint(5, 40)
        y = round(rng.uniform(2, 8), 2)
        xs = sorted(set(round(rng.uniform(0.2, 9.8), 3) for _ in range(n)))
        pts = [(x, y) for x in xs]
        if rng.random() < .6:
            pts += [(round(rng.uniform(0.2, 9.8), 3), round(rng.uniform(0.2, y - .05), 3)) for _ in range(rng.randint(1, 20))]
        rng.shuffle(pts)
        return dict(poly=geom.POLYS['box'], pts=pts, noshrink=False)
    if r < .5:
        poly, pts = big_input(rng, tier)
        return dict(poly=poly, pts=pts)
    if r < .6:
        n = rng.randint(5, 40)
        pts = sorted(((round(rng.uniform(0.2, 9.8), 3), round(rng.uniform(0.2, 9.8), 3)) for _ in range(n)), key=lambda p: -p[1])
        k = rng.choice([1, -1])
        xs = sorted((p[0] for p in pts), reverse=k < 0)
        pts = [(x, p[1]) for x, p in zip(xs, pts)]
        return dict(poly=geom.POLYS['box'], pts=list(dict.fromkeys(pts)))
    return diagram_input(rng, tier)


@case('C05', 'beachline', beach_input, 200, 4000,
      'status tree after every event of constructions incl. rows of equal height and sorted chains: links, heights, balance, order of arcs and breakpoints',
      nontrivial=lambda d: len(d['pts']) > 2)
def c05_beach(data):
    small = len(data['pts']) <= 14

    def step(s, m, **kw):
        if m != Message.STEP_FINISHED:
            return
        t = s.status_tree
        check_links(t, None, what='status tree')
        check_avl(t, 'status tree')
        seq = inorder(t)
        need(len(seq) % 2 == 1, "status tree: an inner node lacks a child")
        for k, n in enumerate(seq):
            if k % 2 == 0:
                need(n.is_leaf() and isinstance(n.data, Arc), "status tree: arcs and breakpoints do not alternate")
            else:
                need(not n.is_leaf() and isinstance(n.data, Breakpoint), "status tree: arcs and breakpoints do not alternate")
                need(n.data.breakpoint[0] is seq[k - 1].data.origin and n.data.breakpoint[1] is seq[k + 1].data.origin,
                     "status tree: a breakpoint does not separate its two arcs")
        if small:
            keys = [float(n.get_key(sweep_line=s.sweep_line)) for n in seq[1::2]]
            for a, b in zip(keys, keys[1:]):
                need(a <= b + 1e-6 * max(1, abs(a)), f"status tree: breakpoints out of order {keys}")
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))


def gen_full(rng, tier):
    L = rng.randint(1, 14)
    return dict(shape=rand_full(rng, L), L=L)


@case('C06', 'neighbours', gen_full, 4000, 100000, 'random trees whose inner nodes have two children, 1-14 leaves, every node',
      functions=('Node.minimum', 'Node.maximum', 'Node.successor', 'Node.predecessor', 'Tree.get_leaves', 'Node.is_leaf'))
def c06(data):
    root = tree_from(data['shape'])
    seq = inorder(root)
    ls = leaves_of(root)
    need(root.minimum() is seq[0] and root.maximum() is seq[-1], "minimum or maximum is wrong")
    pos = {id(n): i for i, n in enumerate(seq)}
    for n in seq:
        sub = inorder(n)
        need(n.minimum() is sub[0] and n.maximum() is sub[-1], "minimum or maximum of a subtree is wrong")
        nx = [l for l in ls if pos[id(l)] > pos[id(n)]]
        pv = [l for l in ls if pos[id(l)] < pos[id(n)]]
        need(n.successor is (nx[0] if nx else None), f"successor of node {n.data} is wrong")
        need(n.predecessor is (pv[-1] if pv else None), f"predecessor of node {n.data} is wrong")
        need(n.is_leaf() == (n in ls), "is_leaf is wrong")
        need(n.is_left_child() == (n.parent is not None and n.parent.left is n), "is_left_child is wrong")
        need(n.is_right_child() == (n.parent is not None and n.parent.right is n), "is_right_child is wrong")
        need(n.grandparent is (n.parent.parent if n.parent is not None else None), "grandparent is wrong")
    got = Tree.get_leaves(root)
    need(len(got) == len(ls) and all(a is b for a, b in zip(got, ls)), "get_leaves is not the leaves from left to right")
    pre = [object()]
    got2 = Tree.get_leaves(root, pre)
    need(len(got2) == len(ls) + 1 and got2[0] is pre[0] or root.is_leaf(), "get_leaves drops the given list")


def gen_search(rng, tier):
    L = rng.randint(1, 12)
    sh = rand_full(rng, L)
    keys = sorted(rng.choice([rng.randint(0, 30), rng.uniform(0, 30)]) for _ in range(2 * L - 1))
    ks = [rng.choice(keys) if rng.random() < .5 else rng.uniform(-2, 32) for _ in range(6)]
    return dict(shape=sh, keys=keys, search=ks)


def rekey(n, keys):
    for x, k in zip(inorder(n), keys):
        x.data = k


@case('C06', 'search', gen_search, 4000, 100000, 'random search trees and keys incl. exact ties; the reached leaf against the definition',
      functions=('Tree.find_leaf_node',))
def c06_search(data):
    root = tree_from(data['shape'])
    rekey(root, data['keys'])
    for k in data['search']:
        n = root
        want = None
        while True:
            if n.left is None and n.right is None:
                want = n
                break
            if k == n.data:
                m = n.left
                while m.right is not None:
                    m = m.right
                want = m
                break
            n = n.left if k < n.data else n.right
        got = Tree.find_leaf_node(root, k)
        need(got is want, f"search for {k} ends in leaf {got and got.data}, expected {want.data}")


@case('C06', 'arc above', lambda r, t: diagram_input(r, t, 10), 200, 4000,
      'in real constructions the arc split by a site event is the lowest parabola above the site', **NT)
def c06_arc(data):
    def step(s, m, **kw):
        if m != Message.STEP_FINISHED or not isinstance(s.event, SiteEvent):
            return
        t = leaves_of(s.status_tree)
        i = [k for k, n in enumerate(t) if n.data.origin is s.event.point]
        if len(t) == 1:
            return
        need(len(i) == 1, "the new site does not have exactly one arc")
        p = s.event.point
        nb = [t[k].data.origin for k in (i[0] - 1, i[0] + 1) if 0 <= k < len(t)]
        seen = [n.data.origin for n in t]
        l = F(str(p.yd))
        if any(F(str(q.yd)) == l for q in seen if q is not p):
            return

        def h(q):
            a, b = fxy(q)
            x = F(str(p.xd))
            return ((x - a) ** 2 + b * b - l * l) / (2 * (b - l))
        low = min(h(q) for q in seen if q is not p)
        for q in nb:
            need(float(h(q) - low) <= 1e-6 * max(1, abs(float(low))), f"site {p.xy} was put under an arc that is not the lowest above it")
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))


# ---------------------------------------------------------------------------------------------- events

def gen_events(rng, tier):
    g = [rng.randint(-2, 2) for _ in range(6)] if rng.random() < .7 else [round(rng.uniform(-2, 2), 1) for _ in range(6)]
    return dict(ev=[(rng.choice(g), rng.choice(g), rng.random() < .5) for _ in range(5)])


def mk_event(x, y, circle):
    if circle:
        r = 1 + abs(y)
        return CircleEvent(Coordinate(x, Decimal(str(y)) + Decimal(str(r))), Decimal(str(r)), None)
    return SiteEvent(Point(x, y))


@case('C07', 'order', gen_events, 8000, 200000, 'five site or circle events on a small grid of positions, all pairs and their sorted order',
      functions=('Event.__lt__', 'Event.__eq__', 'Event.__ne__', 'SiteEvent.xd', 'SiteEvent.yd', 'CircleEvent.xd', 'CircleEvent.yd'))
def c07(data):
    ev = [mk_event(*e) for e in data['ev']]
    key = [(-F(str(y)), F(str(x)), 0 if c else 1) for x, y, c in data['ev']]
    for (a, ka), (b, kb) in itertools.product(list(zip(ev, key)), repeat=2):
        need(bool(a < b) == (ka < kb), f"{a} < {b} is {a < b}")
        need(bool(a == b) == (ka[:2] == kb[:2]) and bool(a != b) == (ka[:2] != kb[:2]), f"{a} == {b} is {a == b}")
    for a in ev:
        need(not (a == None) and bool(a != None), "an event equals None")
    from queue import PriorityQueue
    q = PriorityQueue()
    for e in ev:
        q.put(e)
    out = [q.get() for _ in ev]
    ks = [key[[id(x) for x in ev].index(id(e))] for e in out]
    need(ks == sorted(ks), "events leave the queue in the wrong order")


@case('C07', 'sweep', lambda r, t: diagram_input(r, t), 320, 6000, 'constructions: order of handled events, each site handled once, names by rank', **NT)
def c07_sweep(data):
    seen = []
    lines = []

    def step(s, m, **kw):
        if m == Message.STEP_FINISHED:
            seen.append(s.event)
            lines.append(s.sweep_line)
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))
    sites = [e for e in seen if isinstance(e, SiteEvent)]
    need(len(sites) == len(v.sites) and {id(e.point) for e in sites} == {id(p) for p in v.sites}, "not every site is handled exactly once")
    pts = [dec2(p) for p in T(data['pts'])]
    rank = sorted(range(len(pts)), key=lambda i: (-pts[i][1], pts[i][0]))
    for r, i in enumerate(rank):
        need(v.sites[i].name == r, f"site {data['pts'][i]} is named {v.sites[i].name}, its rank is {r}")
        need(sites[r].point is v.sites[i], "sites are handled in the wrong order")
    for a, b, la, lb in zip(seen, seen[1:], lines, lines[1:]):
        # a circle event can only be found below the sweep line; equal up to rounding
        need(float(b.yd) <= float(a.yd) + 1e-6 * max(1, abs(float(a.yd))), f"event at {b.yd} handled after one at {a.yd}")
        if isinstance(a, SiteEvent) and isinstance(b, SiteEvent):
            need((-a.yd, a.xd) < (-b.yd, b.xd), "site events out of order")
    for e, l in zip(seen, lines):
        need(l == e.yd, "sweep line is not at the handled event")


def clockwise3(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) < 0


def gen_cw(rng, tier):
    c = (rnum(rng), rnum(rng))
    R = rng.uniform(.5, 20)
    a = [rng.choice([rng.uniform(0, 360), rng.randint(0, 8) * 45]) for _ in range(3)]
    return dict(c=c, R=R, a=a)


@case('C08', 'clockwise', gen_cw, 8000, 200000, 'three directions around a centre (also equal and axis-parallel ones) against the sign of the turn',
      functions=('Algebra.check_clockwise', 'Algebra.calculate_angle'))
def c08_cw(data):
    ang = data['a']
    cx, cy = data['c']
    p = [Coordinate(cx + data['R'] * math.cos(math.radians(t)), cy + data['R'] * math.sin(math.radians(t))) for t in ang]
    got = Algebra.check_clockwise(p[0], p[1], p[2], Coordinate(cx, cy))
    t = [a % 360 for a in ang]
    for q, w in zip(p, t):
        g = Algebra.calculate_angle(q, Coordinate(cx, cy))
        d = (float(g) - w) % 360
        need(0 <= g < 360.0000001 and min(d, 360 - d) < 1e-6 * 360, f"angle {g}, expected {w}")
    d12, d13 = (t[0] - t[1]) % 360, (t[0] - t[2]) % 360
    gaps = [min(d, 360 - d) for d in (d12, d13, (t[1] - t[2]) % 360)]
    if min(gaps) < 1e-3:
        return
    # clockwise: turning clockwise from the first we meet the second before the third
    need(bool(got) == (d12 < d13), f"directions {t}: clockwise is {got}")


@case('C08', 'queue', lambda r, t: diagram_input(r, t, 14), 320, 6000,
      'after every event: an arc has a pending circle event exactly when its sites turn clockwise; split and removed arcs and their neighbours lose theirs; handled events were valid', **NT)
def c08_queue(data):
    st = dict(prev=[], handled=set(), invalid={}, keep=[])

    def pend(e):
        return e is not None and e.is_valid and id(e) not in st['handled']

    def step(s, m, **kw):
        if m != Message.STEP_FINISHED:
            return
        ev = s.event
        if isinstance(ev, CircleEvent):
            need(ev.is_valid, "an invalidated circle event was handled")
            need(id(ev) not in st['invalid'], "a circle event was handled after it was marked as a false alarm")
            st['handled'].add(id(ev))
            st['keep'].append(ev)
        ls = leaves_of(s.status_tree)
        arcs = [n.data for n in ls]
        now = {id(a) for a in arcs}
        for k, (a, e) in enumerate(st['prev']):
            if id(a) not in now and pend(e):
                raise Bad("the circle event of an arc that was split or removed is still pending")
            if id(a) not in now and isinstance(ev, CircleEvent):
                for j in (k - 1, k + 1):
                    if 0 <= j < len(st['prev']):
                        need(not pend(st['prev'][j][1]), "the circle event of a removed arc's neighbour is still pending")
        for k, n in enumerate(ls):
            a = n.data
            e = a.circle_event
            if e is not None:
                st['keep'].append(e)
                if not e.is_valid:
                    st['invalid'][id(e)] = e
            if pend(e):
                need(e.arc_pointer.data is a, "a circle event does not name the arc that holds it")
                need(e.arc_pointer is n, "a circle event points to a leaf that is not in the tree")
            if k == 0 or k == len(ls) - 1:
                need(not pend(e), "an arc at the end of the beach line has a circle event")
                continue
            tri = (arcs[k - 1].origin, a.origin, arcs[k + 1].origin)
            f = [fxy(p) for p in tri]
            want = clockwise3(*f)
            if pend(e):
                need(tuple(e.point_triple) == tri, "the pending circle event is not that of the arc and its neighbours")
                need(want, "a circle event although the breakpoints do not converge")
            elif want:
                # allowed only when a neighbour's event is at the same point
                c = geom.circumcentre(*f)
                if e is not None and id(e) in st['handled']:
                    continue
                oth = [arcs[j].circle_event for j in range(len(arcs)) if j != k and pend(arcs[j].circle_event)]
                same = any(abs(float(F(str(o.center.xd)) - c[0])) < 1e-6 and abs(float(F(str(o.center.yd)) - c[1])) < 1e-6 for o in oth)
                need(same, f"no circle event for converging sites {[p.xy for p in tri]}")
        st['prev'] = [(a, a.circle_event) for a in arcs]
        st['keep'] += arcs
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))


def gen_check_circles(rng, tier):
    g = [rng.randint(-6, 6) for _ in range(12)] if rng.random() < .6 else [round(rng.uniform(-6, 6), 2) for _ in range(12)]
    return dict(p=[(g[2 * i], g[2 * i + 1]) for i in range(6)], none=[rng.random() < .1 for _ in range(6)], share=rng.random() < .5)


@case('C08', 'schedule', gen_check_circles, 4000, 100000, 'two triples of arcs given to the scheduling step; events created, recorded and queued against the turn of the sites',
      functions=('Algorithm._check_circles', 'CircleEvent.remove'))
def c08_schedule(data):
    P = [Point(x, y, name=i) for i, (x, y) in enumerate(T(data['p']))]
    if data['share']:
        P[3] = P[2]
    N = [None if z else LeafNode(Arc(p)) for p, z in zip(P, data['none'])]
    v = Voronoi(BoundingBox(-9, 9, -9, 9))
    v.sweep_line = Decimal(-30)
    l, r = v._check_circles(tuple(N[:3]), tuple(N[3:]))
    q = []
    while not v.event_queue.empty():
        q.append(v.event_queue.get())

    def want(ns, ps):
        return all(n is not None for n in ns) and clockwise3(*[fxy(p) for p in ps])
    wl, wr = want(N[:3], P[:3]), want(N[3:], P[3:])
    same = wl and wr and (lambda a, b: float(geom.dist2(a, b)) < 1e-12)(geom.circumcentre(*[fxy(p) for p in P[:3]]), geom.circumcentre(*[fxy(p) for p in P[3:]]))
    if wl and wr and not same:
        c1, c2 = geom.circumcentre(*[fxy(p) for p in P[:3]]), geom.circumcentre(*[fxy(p) for p in P[3:]])
        r1, r2 = geom.dist2(c1, fxy(P[0])), geom.dist2(c2, fxy(P[3]))
        if c1[0] == c2[0] and abs(float(c1[1]) - math.sqrt(r1) - float(c2[1]) + math.sqrt(r2)) < 1e-9:
            return
    need((l is not None) == wl and (r is not None) == wr, f"events {l}, {r}; expected {wl}, {wr}")
    exp = ([l] if wl else []) + ([r] if wr and not same else [])
    need({id(e) for e in q} == {id(e) for e in exp} and len(q) == len(exp), "the queue does not hold the created events")
    if N[1] is not None:
        need(N[1].data.circle_event is (l if wl else None), "the left middle arc does not record its event")
    if N[4] is not None:
        need(N[4].data.circle_event is (r if wr and not same else None), "the right middle arc does not record its event")
    for e, k in ((l, 0), (r, 3)):
        if e is not None:
            need(e.arc_pointer is N[k + 1] and tuple(e.point_triple) == tuple(P[k:k + 3]), "an event names the wrong arc or points")
            x = e.remove()
            need(x is e and e.is_valid is False, "remove does not invalidate the event")


# ---------------------------------------------------------------------------------------------- observers

def gen_subject(rng, tier):
    return dict(seed=rng.randint(0, 10 ** 9), k=rng.randint(3, 20))


@case('C09', 'subject', gen_subject, 4000, 100000, 'random histories of attach, detach, inherit and notify on a parent and two children, against a model',
      functions=('Subject.attach_observer', 'Subject.detach_observer', 'Subject.notify_observers', 'Subject.inherit_observers_from', 'Subject.get_observers', 'Subject._add_child', 'Subject._update_children'))
def c09_subject(data):
    rng = random.Random(data['seed'])
    par = Subject()
    kids = [Subject(), Subject()]
    own = {id(par): []}
    linked = {}
    log = []

    class O(Observer):
        def __init__(self, i):
            self.i = i

        def update(self, s, m, **kw):
            log.append((self.i, s, m, kw))
    obs = [O(i) for i in range(4)]
    cur = []
    for _ in range(data['k']):
        op = rng.choice(['attach', 'attach', 'detach', 'notify', 'inherit', 'knotify'])
        if op == 'attach':
            o = rng.choice(obs)
            need(par.attach_observer(o) is par, "attach_observer does not return the subject")
            cur.append(o)
        elif op == 'detach':
            if not cur:
                continue
            o = rng.choice(cur)
            need(par.detach_observer(o) is par, "detach_observer does not return the subject")
            k = [id(x) for x in cur].index(id(o))
            cur.pop(k)
        elif op == 'inherit':
            k = rng.choice(kids)
            if id(k) in linked:
                continue
            k.inherit_observers_from(par)
            linked[id(k)] = k
        else:
            s = par if op == 'notify' else rng.choice(kids)
            del log[:]
            kw = dict(payload=rng.randint(0, 9)) if rng.random() < .5 else {}
            msg = rng.choice(list(Message))
            s.notify_observers(msg, **kw)
            want = cur if s is par or id(s) in linked else []
            need([l[0] for l in log] == [o.i for o in want], f"{op}: delivered to {[l[0] for l in log]}, attached are {[o.i for o in want]}")
            for l in log:
                need(l[1] is par, "the sender is not the subject the observer is attached to")
                need(l[2] is msg and l[3] == kw, "message or payload changed")
        need([id(o) for o in par.get_observers()] == [id(o) for o in cur], "get_observers is wrong")


@case('C09', 'construction', lambda r, t: dict(diagram_input(r, t, 9), late=r.random() < .5), 240, 5000,
      'two recorders on a construction (attached before or after the polygon is bound): same messages, one step per handled event, final messages once', **NT)
def c09_construction(data):
    logs = [[], []]

    def rec(i):
        def f(s, m, **kw):
            logs[i].append((s, m, kw, getattr(s, 'event', None), getattr(s, 'sweep_line', None)))
        return f
    poly = Polygon(T(data['poly']))
    v = Voronoi(poly)
    obs = [Recorder(rec(0)), Recorder(rec(1))]
    v.attach_observer(obs[0])
    v.attach_observer(obs[1])
    need([id(o) for o in poly.get_observers()] == [id(o) for o in obs], "the polygon does not use its diagram's observers")
    v2 = None
    if data['late']:
        # another diagram that gets its polygon after the observers were attached
        q = Polygon(T(data['poly']))
        q.inherit_observers_from(v)
        need([id(o) for o in q.get_observers()] == [id(o) for o in obs], "a polygon bound after attaching does not use the observers")
    v.create_diagram(T(data['pts']))
    a, b = logs
    need(len(a) == len(b) and all(x[1] is y[1] and x[2] == y[2] for x, y in zip(a, b)), "two observers got different messages")
    need(all(x[0] is v for x in a), "a message has another sender than the diagram")
    kinds = [x[1] for x in a if x[1] != Message.DEBUG]
    ns = kinds.count(Message.STEP_FINISHED)
    need(kinds == [Message.STEP_FINISHED] * ns + [Message.SWEEP_FINISHED, Message.VORONOI_FINISHED], "messages are missing, repeated or out of order")
    steps = [x for x in a if x[1] == Message.STEP_FINISHED]
    need(len({id(x[3]) for x in steps}) == len(steps), "an event was announced twice")
    need(sum(isinstance(x[3], SiteEvent) for x in steps) == len(data['pts']), "not one step per site event")
    for x in steps:
        need(x[3] is not None and x[4] == x[3].yd, "the sweep line is not at the announced event")
    handled = [x[2]['payload'] for x in a if x[1] == Message.DEBUG and str(x[2].get('payload', '')).startswith('# Handle')]
    need(len(handled) == len(steps), "not one step message per handled event")
    n = len(a)
    v.detach_observer(obs[0])
    v.create_diagram(T(data['pts']))
    need(len(logs[0]) == n, "a detached observer still gets messages")
    need(len(logs[1]) == 2 * n, "the remaining observer gets other messages in a second construction")


class Canvas:
    pass


def gen_obs(rng, tier):
    d = diagram_input(rng, tier, 6)
    d.update(steps=rng.random() < .5, result=rng.random() < .5, clip=rng.random() < .5, text=rng.random() < .5)
    return d


@case('C09', 'supplied observers', gen_obs, 120, 1500, 'DebugObserver, TreeObserver (text and graph) with random flags: callbacks per message',
      functions=('DebugObserver.update', 'TreeObserver.update'), **NT)
def c09_supplied(data):
    dbg = []
    tr = []
    raw = []
    v = Voronoi(Polygon(T(data['poly'])))
    v.attach_observer(Recorder(lambda s, m, **kw: raw.append((m, kw))))
    v.attach_observer(DebugObserver(callback=lambda x: dbg.append(x)))
    if data['text']:
        t = TreeObserver(visualize_steps=data['steps'], visualize_result=data['result'], text_based=True, callback=lambda x: tr.append(x))
    else:
        t = TreeObserver(visualize_steps=data['steps'], visualize_result=data['result'], callback=lambda o, dot: tr.append((o, dot)))
    v.attach_observer(t)
    v.create_diagram(T(data['pts']))
    need(dbg == [kw['payload'] for m, kw in raw if m == Message.DEBUG], "DebugObserver does not pass on exactly the debug messages")
    steps = sum(m == Message.STEP_FINISHED for m, kw in raw)
    want = steps if data['steps'] else (1 if data['result'] else 0)
    need(len(tr) == want and t.n_messages == want and len(t.messages) == want, f"TreeObserver drew {len(tr)} times, expected {want}")
    if not data['text']:
        need(all(x[0] is t for x in tr), "TreeObserver's callback gets another observer")


# ---------------------------------------------------------------------------------------------- independence

def fingerprint(v):
    return [([e.origin.xy for e in walk(s)], s.area(), s.name) for s in v.sites]


def rotate_norm(f):
    out = []
    for w, a, n in f:
        k = w.index(min(w))
        out.append((w[k:] + w[:k], round(a, 9), n))
    return out


@case('C10', 'reuse', lambda r, t: dict(diagram_input(r, t, 7), other=[(round(r.uniform(0, 1), 3), round(r.uniform(0, 1), 3)) for _ in range(4)], seed=r.randint(0, 9999)), 200, 4000,
      'histories of constructions on a shared polygon, a shared Voronoi object and with observers attached; cells compared with a fresh construction', **NT)
def c10(data):
    rng = random.Random(data['seed'])
    hull = sorted_hull(T(data['poly']))
    pts = T(data['pts'])
    inp = [tuple(p) for p in pts]
    fresh = build(data)
    want = rotate_norm(fingerprint(fresh))
    ex = oracle_cells(data)
    cmp_cells(fresh, data, ex)
    # an unrelated set of sites in the same polygon
    cx = sum(p[0] for p in hull) / len(hull)
    cy = sum(p[1] for p in hull) / len(hull)
    other = []
    for k, (u, w) in enumerate(T(data['other'])):
        c = hull[k % len(hull)]
        q = (round(cx + (c[0] - cx) * (.15 + .6 * u) + 0.0137 * w, 4), round(cy + (c[1] - cy) * (.15 + .6 * u) - 0.0113 * w, 4))
        other.append(q)
    other = list(dict.fromkeys(other))
    usable = not geom.degenerate(hull, other) and not geom.near_degenerate(other, 1e-6)
    hist = rng.choice(['poly', 'voronoi', 'observed', 'poly2', 'mixed'])
    poly = Polygon(T(data['poly']))
    if hist == 'poly':
        if usable:
            Voronoi(poly).create_diagram(other)
        v = Voronoi(poly)
        v.create_diagram(pts)
    elif hist == 'poly2':
        v0 = Voronoi(poly)
        v0.create_diagram(pts)
        before = fingerprint(v0)
        v = Voronoi(poly)
        v.create_diagram(other if usable else pts)
        need(fingerprint(v0) == before, "a later diagram in the same polygon changed an earlier one")
        v = Voronoi(poly)
        v.create_diagram(pts)
    elif hist == 'voronoi':
        v = Voronoi(poly)
        v.create_diagram(other if usable else pts)
        v.create_diagram(pts)
    elif hist == 'observed':
        v = Voronoi(poly)
        v.attach_observer(TreeObserver(text_based=True, callback=lambda x: None))
        v.attach_observer(DebugObserver(callback=lambda x: None))
        v.create_diagram(pts)
    else:
        v = Voronoi(poly)
        v.attach_observer(TreeObserver(callback=lambda o, d: None))
        v.create_diagram(other if usable else pts)
        v.create_diagram(pts)
    need(pts == inp, "the caller's point list was modified")
    need(rotate_norm(fingerprint(v)) == want, f"history '{hist}' gives other cells than a fresh construction")
    structure(v, True)
    cmp_cells(v, data, ex)


def gen_vis(rng, tier):
    d = diagram_input(rng, tier, 5)
    s1 = {k: rng.random() < .5 for k in rng.sample(['polygon', 'edges', 'vertices', 'sites', 'outgoing_edges', 'edge_labels', 'site_labels', 'sweep_line', 'events', 'border_to_site'], rng.randint(1, 4))}
    s2 = {k: rng.random() < .5 for k in rng.sample(['polygon', 'edges', 'vertices', 'sites', 'beach_line', 'triangles', 'sweep_line'], rng.randint(0, 3))}
    d.update(s1=s1, s2=s2, steps=rng.random() < .6, clip=rng.random() < .6, result=rng.random() < .8)
    return d


@case('C10', 'observer settings', gen_vis, 24, 300, 'two VoronoiObservers with different settings on one construction: options drawn, presets, message counts and cells',
      functions=('VoronoiObserver.update',), seconds=120, **NT)
def c10_settings(data):
    vis_observer(data)


def vis_observer(data):
    from foronoi import VoronoiObserver
    from foronoi.visualization import visualizer as vz
    from foronoi.observers import voronoi_observer as vo
    import matplotlib.pyplot as plt
    base = dict(construction=dict(polygon=True, events=True, beach_line=True, sweep_line=True), clipping=dict(polygon=True), final={})
    want = rotate_norm(fingerprint(build(data)))
    calls = []
    orig = vz.Visualizer.plot_all
    sig = inspect.signature(orig)

    def rec(self, *a, **kw):
        b = sig.bind(self, *a, **kw)
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop('self')
        calls.append((cur[0], d, self))
        return orig(self, *a, **kw)
    cur = [None]
    vz.Visualizer.plot_all = rec
    figs = []
    try:
        v = Voronoi(Polygon(T(data['poly'])))
        obs = []
        for s in (data['s1'], data['s2']):
            o = VoronoiObserver(visualize_steps=data['steps'], visualize_before_clipping=data['clip'], visualize_result=data['result'],
                                settings=dict(s), callback=lambda o, f: figs.append((o, f)), figsize=(3, 2), canvas_offset=2)
            u = o.update

            def wrapped(subject, message, _o=o, _u=u, **kw):
                cur[0] = (_o, message)
                return _u(subject, message, **kw)
            o.update = wrapped
            obs.append(o)
            v.attach_observer(o)
        kinds = []
        v.attach_observer(Recorder(lambda s, m, **kw: kinds.append(m)))
        v.create_diagram(T(data['pts']))
    finally:
        vz.Visualizer.plot_all = orig
        plt.close('all')
    defaults = {k: p.default for k, p in sig.parameters.items() if k != 'self'}
    for o, s in zip(obs, (data['s1'], data['s2'])):
        exp = [m for m in kinds if (m == Message.STEP_FINISHED and data['steps']) or (m == Message.SWEEP_FINISHED and data['clip'])
               or (m == Message.VORONOI_FINISHED and data['result'])]
        mine = [c for c in calls if c[0][0] is o]
        need([c[0][1] for c in mine] == exp, "the observer did not draw once per requested message")
        need(o.n_messages == len(exp) and o.messages == exp, "the observer's message count is wrong")
        need(sum(f[0] is o for f in figs) == len(exp), "the callback was not called once per drawing")
        for c in mine:
            preset = base[{Message.STEP_FINISHED: 'construction', Message.SWEEP_FINISHED: 'clipping', Message.VORONOI_FINISHED: 'final'}[c[0][1]]]
            d = dict(defaults)
            d.update(preset)
            d.update(s)
            need(c[1] == d, f"drawn with {c[1]}, the observer's settings give {d}")
    for o, f in figs:
        need(tuple(f.get_size_inches()) == (3, 2), "the figure size is not the one asked for")
    for k in base:
        need(getattr(vz.Presets, k) == base[k], f"the shared preset {k} was changed")
    need(rotate_norm(fingerprint(v)) == want, "observed construction gives other cells")


# ---------------------------------------------------------------------------------------------- coordinates

def gen_num(rng, tier):
    def one():
        r = rng.random()
        if r < .2:
            return ['int', rng.choice([0, 1, -1, rng.randint(-10 ** 6, 10 ** 6), 10 ** 15 + rng.randint(0, 99), -10 ** 20 - 7])]
        if r < .55:
            return ['float', rng.choice([0.1, -0.0, 1e-7, 123456789.123456, 1e22, rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), rng.gauss(0, 1) * 10 ** rng.randint(-12, 12)])]
        if r < .9:
            return ['dec', str(Decimal(rng.randint(-10 ** 9, 10 ** 9)).scaleb(rng.randint(-12, 5))) if rng.random() < .7 else '0.' + ''.join(rng.choice('0123456789') for _ in range(40))]
        return ['none', None]
    return dict(n=[one() for _ in range(4)])


def real(v):
    k, x = v
    return {'int': lambda: int(x), 'float': lambda: float(x), 'dec': lambda: Decimal(x), 'none': lambda: None}[k]()


def as_dec(x):
    if x is None:
        return None
    if isinstance(x, Decimal):
        return x
    if isinstance(x, float):
        return Decimal(repr(x))
    return Decimal(x)


@case('C11', 'coordinates', gen_num, 8000, 200000, 'ints, floats, Decimals (up to 40 digits) and None through constructor, setters, getters and subtraction',
      functions=('Coordinate.__init__', 'Coordinate._to_dec', 'Coordinate.x', 'Coordinate.y', 'Coordinate.xy', 'Coordinate.xd', 'Coordinate.yd', 'Coordinate.__sub__', 'Point.__sub__', 'Point.__init__', 'Vertex.__init__'))
def c11(data):
    a, b, c, d = [real(x) for x in data['n']]

    def chk(o, x, y, what):
        for g, w, f in ((o.xd, x, 'x'), (o.yd, y, 'y')):
            if w is None:
                need(g is None, f"{what}: {f} is {g}, expected None")
            else:
                need(isinstance(g, Decimal) and g.compare_total(as_dec(w)) in (0,) or g == as_dec(w) and F(g) == F(as_dec(w)), f"{what}: {f}d is {g!r}, expected {as_dec(w)!r}")
        if x is not None:
            need(isinstance(o.x, float) and o.x == float(as_dec(x)), f"{what}: x is {o.x!r}")
        if y is not None:
            need(isinstance(o.y, float) and o.y == float(as_dec(y)), f"{what}: y is {o.y!r}")
        if x is not None and y is not None:
            need(o.xy == (float(as_dec(x)), float(as_dec(y))), f"{what}: xy is {o.xy}")
    mk = [('Coordinate', lambda x, y: Coordinate(x, y)), ('Point', lambda x, y: Point(x, y)), ('Vertex', lambda x, y: Vertex(x, y))]
    for name, f in mk:
        o = f(a, b)
        chk(o, a, b, name)
        o.x = c
        chk(o, c, b, name + '.x=')
        o.y = d
        chk(o, c, d, name + '.y=')
        o.xd = b
        chk(o, b, d, name + '.xd=')
        o.yd = a
        chk(o, b, a, name + '.yd=')
    o = Coordinate()
    chk(o, None, None, 'Coordinate()')
    p = Point(1, 2, name='n')
    need(p.name == 'n' and p.first_edge is None, "Point attributes are wrong")
    es = [object()]
    need(Vertex(1, 2, es).connected_edges is es and Vertex(1, 2).connected_edges == [], "Vertex.connected_edges is wrong")
    v1, v2 = Vertex(1, 2), Vertex(1, 2)
    v1.connected_edges.append(1)
    need(v2.connected_edges == [], "vertices share their connected edges")
    if None not in (a, b, c, d):
        for name, f in mk[:2]:
            p, q = f(a, b), f(c, d)
            r = p - q
            need(type(r) is type(p) and r is not p and r is not q, f"{name} subtraction does not make a new {name}")
            need(r.xd == as_dec(a) - as_dec(c) and r.yd == as_dec(b) - as_dec(d), f"{name} subtraction is wrong")
            chk(p, a, b, name + ' operand')
            chk(q, c, d, name + ' operand')


# ---------------------------------------------------------------------------------------------- measurements

def gen_ring(rng, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 12])
    xy = [(rnum(rng), rnum(rng)) for _ in range(n)]
    return dict(xy=xy, closed=rng.random() < .7, fixed=[rng.random() < .9 for _ in range(n)], start=rng.random(), digits=rng.choice([None, None, 0, 1, 2, 5]), rev=rng.random() < .5)


@case('C12', 'ring', gen_ring, 6000, 150000, 'synthetic closed rings and open chains of 0-12 borders with fixed and moving origins',
      functions=('Point.borders', 'Point.vertices', 'Point.area', 'Point._get_xy', 'Point._shoelace'))
def c12(data):
    site = Point(0, 0)
    xy = T(data['xy'])
    if not xy:
        need(site.borders() == [] and site.vertices() == [] and site.area() == 0, "a site without borders has a measure")
        return
    es = []
    for p, f in zip(xy, data['fixed']):
        es.append(HalfEdge(site, origin=Vertex(*p) if f else Breakpoint((site, Point(1, 1)))))
    for a, b in zip(es, es[1:]):
        a.set_next(b)
    if data['closed']:
        es[-1].set_next(es[0])
    k = int(data['start'] * len(es))
    site.first_edge = es[k]
    want = es[k:] + (es[:k] if data['closed'] else [])
    got = site.borders()
    need(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "borders() is not the walk from the first edge")
    vs = [e.origin for e in want if isinstance(e.origin, Vertex)]
    gv = site.vertices()
    need(len(gv) == len(vs) and all(a is b for a, b in zip(gv, vs)), "vertices() is not the fixed origins in order")
    P = [dec2((v.x, v.y)) for v in vs]
    A = abs(sum(P[i][0] * P[i - 1][1] - P[i - 1][0] * P[i][1] for i in range(len(P)))) / 2
    sc = max([1.0] + [abs(float(q)) for p in P for q in p]) ** 2
    g = site.area()
    need(isinstance(g, float) and g >= 0, f"area {g!r} is not a non-negative float")
    need(abs(g - float(A)) <= 1e-9 * sc, f"area {g}, expected {float(A)}")
    if data['digits'] is not None:
        for q in (site.area(data['digits']), site.area(digits=data['digits'])):
            need(abs(float(q) - g) <= 0.5 * 10.0 ** -data['digits'] * (1 + 1e-9) + 1e-9 * sc and abs(float(q) * 10.0 ** data['digits'] - round(float(q) * 10.0 ** data['digits'])) <= 1e-6 * max(1, abs(float(q) * 10.0 ** data['digits'])), "area(digits) is not the rounded area")
    if data['closed']:
        for e in es:
            site.first_edge = e
            need(abs(site.area() - g) <= 1e-9 * sc, "area depends on the first edge")
        for e in es:
            e.next, e.prev = e.prev, e.next
        need(abs(site.area() - g) <= 1e-9 * sc, "area depends on the direction")


@case('C12', 'diagram', lambda r, t: diagram_input(r, t, 8), 160, 3000, 'sites of finished diagrams', **NT)
def c12_diagram(data):
    v = build(data)
    for s in v.sites:
        w = walk(s)
        b = s.borders()
        need(len(b) == len(w) and all(x is y for x, y in zip(b, w)), "borders() is not the walk")
        vs = s.vertices()
        need(len(vs) == len(w) and all(x is e.origin for x, e in zip(vs, w)), "vertices() is not the origins of the borders")
        P = [dec2((x.x, x.y)) for x in vs]
        A = float(abs(sum(P[i][0] * P[i - 1][1] - P[i - 1][0] * P[i][1] for i in range(len(P)))) / 2)
        need(abs(s.area() - A) <= 1e-9 * scale_of(data) ** 2, "area() is not the area of the corners")


# ---------------------------------------------------------------------------------------------- zero-length edges

def gen_cocirc(rng, tier):
    for _ in range(100):
        poly, pts = structured(rng, tier)
        if rng.random() < .3:
            poly, pts = scaled(rng, poly, pts)
        if len(pts) >= 2 and not geom.degenerate(poly, pts):
            return dict(poly=poly, pts=pts)
    return dict(poly=geom.POLYS['box'], pts=[(2, 2.5), (7, 4)])


@case('C13', 'clean-up', gen_cocirc, 320, 8000, 'gridded, co-circular and collinear sites, removal on and off',
      functions=('Algorithm.clean_up_zero_length_edges', 'HalfEdge.delete'), **NT)
def c13(data):
    ex = oracle_cells(data)
    a = build(data)
    b = build(data, remove_zero_length_edges=False)
    tol = tolerance(data)
    H = all_half_edges(a)
    ids = {id(h) for h in H}
    vid = {id(x) for x in a.vertices}
    need(len(vid) == len(a.vertices), "a vertex is listed twice")
    for e in a.edges:
        need(e.origin.xd != e.twin.origin.xd or e.origin.yd != e.twin.origin.yd, f"zero-length edge at {e.origin.xy} is left")
    pos = {}
    for x in a.vertices:
        need((x.xd, x.yd) not in pos, f"two vertices at {x.xy}")
        pos[x.xd, x.yd] = x
    for v in (a, b):
        H = all_half_edges(v)
        out = {}
        for h in H:
            out.setdefault(id(h.origin), []).append(h)
        vid = {id(x) for x in v.vertices}
        for h in H:
            need(id(h.origin) in vid, "an edge starts at a vertex that is not listed")
        for x in v.vertices:
            need(sorted(map(id, x.connected_edges)) == sorted(map(id, out.get(id(x), []))), f"connected edges of vertex {x.xy} are not the edges that start there")
        cmp_cells(v, data, ex)
        structure(v, True)
    # Euler's formula for a connected planar subdivision
    need(len(b.vertices) - len(b.edges) + len(b.sites) + 1 == 2, "with removal off an edge or vertex is missing or extra")
    need(len(a.vertices) - len(a.edges) + len(a.sites) + 1 == 2, "with removal on an edge or vertex is missing or extra")
    zero = sum(e.origin.xd == e.twin.origin.xd and e.origin.yd == e.twin.origin.yd for e in b.edges)
    need(len(a.edges) == len(b.edges) - zero, "removal dropped or kept another number of edges than the zero-length ones")


# ---------------------------------------------------------------------------------------------- polygons

def gen_poly(rng, tier):
    poly = rng.choice(list(geom.POLYS.values())) if rng.random() < .4 else geom.rand_poly(rng)
    poly = poly[:]
    rng.shuffle(poly)
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    q = []
    for _ in range(6):
        p = (round(rng.uniform(min(xs) - 1, max(xs) + 1), 3), round(rng.uniform(min(ys) - 1, max(ys) + 1), 3))
        if rng.random() < .4:
            p = (p[0], rng.choice(ys))
        if rng.random() < .2:
            p = (rng.choice(xs), p[1])
        q.append(p)
    return dict(poly=poly, q=q)


def cyclic_equal(a, b):
    if len(a) != len(b):
        return False
    if not a:
        return True
    if a[0] not in b:
        return False
    k = b.index(a[0])
    return a == b[k:] + b[:k]


@case('C14', 'corners', gen_poly, 4000, 100000, 'convex polygons with corners in random order, query points incl. heights of corners',
      functions=('Polygon.__init__', 'Polygon._order_points', 'Polygon.inside', 'Polygon.get_coordinates', 'Polygon._get_ordered_vertices', 'Polygon._get_closest_point'))
def c14(data):
    P = Polygon(T(data['poly']))
    fp = [geom.fr(p) for p in T(data['poly'])]
    xs, ys = [p[0] for p in fp], [p[1] for p in fp]
    need((F(P.min_x), F(P.max_x), F(P.min_y), F(P.max_y)) == (min(xs), max(xs), min(ys), max(ys)), "extents are wrong")
    hull = [geom.fr(p) for p in sorted_hull(T(data['poly']))][::-1]
    got = [fxy(c) for c in P.points]
    need(cyclic_equal(hull, got), f"corners are not kept once each in clockwise order: {[c.xy for c in P.points]}")
    need([(F(x), F(y)) for x, y in P.get_coordinates()] == got, "get_coordinates differs from the corners")
    need([fxy(v) for v in P.polygon_vertices] == got, "the polygon's vertices are not its corners")
    for q in T(data['q']):
        p = geom.fr(q)
        if geom.on_boundary(hull, p):
            continue
        need(bool(P.inside(Coordinate(*q))) == geom.strictly_inside(hull, p), f"inside({q}) is {P.inside(Coordinate(*q))}")
    pts = [Point(*q) for q in T(data['q'])]
    c = P._get_closest_point(P.points[0], pts)
    d = [geom.dist2(fxy(P.points[0]), fxy(x)) for x in pts]
    need(any(c is x for x in pts) and float(geom.dist2(fxy(c), fxy(P.points[0])) - min(d)) <= 1e-9 * max(1, float(min(d))), "closest point is wrong")


def gen_any_poly(rng, tier):
    n = rng.randint(3, 8)
    g = [(rng.randint(0, 8), rng.randint(0, 8)) for _ in range(n)]
    return dict(corners=g, q=[(rng.randint(0, 16) / 2, rng.randint(0, 16) / 2) for _ in range(8)])


@case('C14', 'even-odd', gen_any_poly, 4000, 100000, 'arbitrary (also non-convex, self-crossing) corner loops set directly; even-odd rule in exact arithmetic',
      functions=('Polygon.inside',))
def c14_eo(data):
    P = Polygon([(0, 0), (1, 0), (1, 1)])
    P.points = [Coordinate(*c) for c in T(data['corners'])]
    fp = [geom.fr(c) for c in T(data['corners'])]
    for q in T(data['q']):
        x, y = geom.fr(q)
        par = False
        for k in range(len(fp)):
            a, b = fp[k], fp[(k + 1) % len(fp)]
            if (a[1] > y) != (b[1] > y):
                if x < (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]) + a[0]:
                    par = not par
        need(bool(P.inside(Coordinate(*q))) == par, f"inside({q}) is {P.inside(Coordinate(*q))}, a ray crosses {'an odd' if par else 'an even'} number of sides")


@case('C14', 'box', lambda r, t: dict(b=sorted([round(r.uniform(-9, 9), 2) for _ in range(2)]) + sorted([round(r.uniform(-9, 9), 2) for _ in range(2)])), 800, 20000,
      'random boxes', functions=('BoundingBox.__init__',))
def c14_box(data):
    l, r, b, t = data['b']
    if r - l < .05 or t - b < .05:
        return
    B = BoundingBox(l, r, b, t)
    want = [geom.fr(p) for p in [(l, t), (r, t), (r, b), (l, b)]]
    need(cyclic_equal(want, [fxy(c) for c in B.points]), "a box is not the polygon of its four corners")
    need((F(B.min_x), F(B.max_x), F(B.min_y), F(B.max_y)) == tuple(F(str(x)) for x in (l, r, b, t)), "extents of the box are wrong")
    B2 = BoundingBox(left_x=l, right_x=r, bottom_y=b, top_y=t)
    need([c.xy for c in B2.points] == [c.xy for c in B.points], "keyword arguments give another box")


# ---------------------------------------------------------------------------------------------- circle

def gen_circle(rng, tier):
    cx, cy, r = rng.choice([(5., 5., 4.), (0., 0., 3.), (-20., -3000., 7.5), (1.25, 800., 2.), (0.5, -6., 40.)])
    n = rng.randint(2, 7)
    pts = []
    mode = rng.choice('frci')
    while len(pts) < n:
        x, y = rng.uniform(-r, r), rng.uniform(-r, r)
        if mode == 'i':
            x, y = round(x), round(y)
        if mode == 'r':
            y = rng.choice([0, .5, -1])
        if mode == 'c':
            x = rng.choice([0, .5, -1])
        p = (round(cx + x, 3), round(cy + y, 3))
        if (p[0] - cx) ** 2 + (p[1] - cy) ** 2 < (r - .01) ** 2 and p not in pts:
            pts.append(p)
    return dict(circle=(cx, cy, r), pts=pts)


def circle_oracle(cx, cy, r, pts):
    out = {}
    n = len(pts)
    degen = False
    for i in range(n):
        for j in range(i + 1, n):
            p, q = pts[i], pts[j]
            m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
            d = (-(q[1] - p[1]), q[0] - p[0])
            L = math.hypot(*d)
            d = (d[0] / L, d[1] / L)
            e = (m[0] - cx, m[1] - cy)
            b = e[0] * d[0] + e[1] * d[1]
            disc = b * b - (e[0] ** 2 + e[1] ** 2 - r * r)
            if abs(disc) < 1e-3:
                degen = True
            if disc <= 0:
                continue
            lo, hi = -b - math.sqrt(disc), -b + math.sqrt(disc)
            for k in range(n):
                if k in (i, j):
                    continue
                s = pts[k]
                a = 2 * ((s[0] - p[0]) * d[0] + (s[1] - p[1]) * d[1])
                rhs = (s[0] - p[0]) * (s[0] + p[0] - 2 * m[0]) + (s[1] - p[1]) * (s[1] + p[1] - 2 * m[1])
                if abs(a) < 1e-9:
                    if abs(rhs) < 1e-6:
                        degen = True
                    if rhs < 0:
                        lo, hi = 1, 0
                elif a > 0:
                    hi = min(hi, rhs / a)
                else:
                    lo = max(lo, rhs / a)
            if -1e-3 < hi - lo < 1e-3:
                degen = True
            if hi - lo > 1e-3:
                out[i, j] = ((m[0] + lo * d[0], m[1] + lo * d[1]), (m[0] + hi * d[0], m[1] + hi * d[1]))
    return out, degen


@case('C15', 'diagram', gen_circle, 480, 12000, 'circles at several places and sizes, 2-7 sites incl. rows and columns; edges against clipped bisectors (margin 1e-3)',
      functions=('BoundingCircle.finish_edges', 'BoundingCircle.trim_edge', 'BoundingCircle.cut_line', 'BoundingCircle.__init__'))
def c15(data):
    from foronoi.contrib import BoundingCircle
    cx, cy, r = data['circle']
    pts = T(data['pts'])
    ex, dg = circle_oracle(cx, cy, r, pts)
    if dg or not any(abs(math.hypot(e[k][0] - cx, e[k][1] - cy) - r) < 1e-9 for e in ex.values() for k in (0, 1)):
        return
    v = Voronoi(BoundingCircle(cx, cy, r))
    v.create_diagram(pts)
    got = {}
    idx = {id(s): i for i, s in enumerate(v.sites)}
    for e in v.edges:
        a, b = e.incident_point, e.twin.incident_point
        if a is None or b is None:
            continue
        k = tuple(sorted((idx[id(a)], idx[id(b)])))
        need(k not in got, "a bisector piece is listed twice")
        got[k] = (e.origin.xy, e.twin.origin.xy)
    need(set(got) == set(ex), f"edges between {sorted(got)}, expected {sorted(ex)}")
    for k in ex:
        p, q = ex[k]
        a, b = got[k]
        need(min(max(math.dist(a, p), math.dist(b, q)), max(math.dist(a, q), math.dist(b, p))) <= 1e-6 * max(1, r), f"edge {k} is {a}-{b}, expected {p}-{q}")


def gen_cline(rng, tier):
    return dict(c=(rng.randint(-5, 5), rng.randint(-5, 5), rng.choice([1, 2, 5, 2.5])), a=(rnum(rng), rnum(rng)), b=(rnum(rng), rnum(rng)), p=(rng.randint(-9, 9), rng.randint(-9, 9)),
                axis=rng.choice([0, 0, 1, 2]))


@case('C15', 'functions', gen_cline, 6000, 150000, 'random circles, lines (also axis-parallel) and points against exact arithmetic',
      functions=('BoundingCircle.inside', 'BoundingCircle.cut_circle', 'BoundingCircle.get_line', 'BoundingCircle.on_line'))
def c15_fn(data):
    from foronoi.contrib import BoundingCircle
    cx, cy, r = data['c']
    C = BoundingCircle(cx, cy, r)
    p = dec2(data['p'])
    need(bool(C.inside(Coordinate(*data['p']))) == (geom.dist2(p, (F(cx), F(cy))) < F(str(r)) ** 2), "inside is not distance < radius")
    A, B = list(data['a']), list(data['b'])
    if data['axis'] == 1:
        B[1] = A[1]
    if data['axis'] == 2:
        B[0] = A[0]
    if A == B:
        return
    a, b = dec2(A), dec2(B)
    ca, cb = Coordinate(*A), Coordinate(*B)
    l = C.get_line(ca, cb)
    sc = max(1, *[abs(float(q)) for q in a + b])
    for q in (a, b):
        res = F(l[0]) * q[0] + F(l[1]) * q[1] - F(l[2])
        need(abs(float(res)) <= 1e-12 * sc * max(1, abs(float(l[0]))), f"the line {l} does not contain {[float(x) for x in q]}")
    need(l[0] != 0 or l[1] != 0, "degenerate line")
    d = (b[0] - a[0], b[1] - a[1])
    w = (F(cx) - a[0], F(cy) - a[1])
    cr = d[0] * w[1] - d[1] * w[0]
    D2 = cr * cr / (d[0] ** 2 + d[1] ** 2)
    gap = float(D2 - F(str(r)) ** 2)
    got = C.cut_circle(*l)
    if abs(gap) < 1e-6:
        return
    if gap > 0:
        need(got[0] is None and got[1] is None, "points for a line that misses the circle")
    else:
        t = (w[0] * d[0] + w[1] * d[1]) / (d[0] ** 2 + d[1] ** 2)
        f = (float(a[0] + t * d[0]), float(a[1] + t * d[1]))
        L = math.hypot(float(d[0]), float(d[1]))
        k = math.sqrt(-gap)
        want = sorted([(f[0] + s * k * float(d[0]) / L, f[1] + s * k * float(d[1]) / L) for s in (1, -1)])
        need(got[0] is not None and got[1] is not None, "no points for a line that crosses the circle")
        g = sorted([got[0].xy, got[1].xy])
        if abs(want[0][0] - want[1][0]) < 1e-7:
            g, want = sorted(g, key=lambda q: q[1]), sorted(want, key=lambda q: q[1])
        need(all(math.dist(u, v) < 1e-6 * max(1, sc) for u, v in zip(g, want)), f"cut points {g}, expected {want}")
    for q in (data['p'], ((A[0] + B[0]) / 2, (A[1] + B[1]) / 2), (2 * B[0] - A[0], 2 * B[1] - A[1])):
        # on_line presumes the point is on the line through a and b
        f = dec2(q)
        if (b[0] - a[0]) * (f[1] - a[1]) == (b[1] - a[1]) * (f[0] - a[0]):
            need(bool(C.on_line(ca, cb, Coordinate(*q))) == geom.on_segment(f, a, b), f"on_line is wrong for {q}")


# ---------------------------------------------------------------------------------------------- breakpoints

def gen_bp(rng, tier):
    i, j = (rnum(rng), rnum(rng)), (rnum(rng), rnum(rng))
    if rng.random() < .2:
        j = (j[0], i[1])
    lo = min(i[1], j[1])
    l = rng.choice([lo, lo - rng.randint(0, 9), lo - round(rng.uniform(0.01, 30), 2), lo - 1000])
    if rng.random() < .2:
        l = lo
    return dict(i=i, j=j, l=float(Decimal(str(l)).quantize(Decimal('0.001'))), max_y=rng.choice([None, 5, 0, 77.5]))


def parab(s, x, l):
    return ((x - s[0]) ** 2 + s[1] ** 2 - l * l) / (2 * (s[1] - l))


@case('C16', 'breakpoint', gen_bp, 12000, 300000, 'random site pairs (also of equal height) and sweep positions at or below both',
      functions=('Breakpoint.get_intersection', 'Breakpoint.does_intersect', 'HalfEdge.get_origin'))
def c16(data):
    i, j, l = dec2(data['i']), dec2(data['j']), F(str(data['l']))
    if i == j:
        return
    P, Q = Point(*data['i'], name=0), Point(*data['j'], name=1)
    b = Breakpoint((P, Q))
    need(bool(b.does_intersect()) == (not (i[1] == j[1] and j[0] < i[0])), "does_intersect is wrong")
    if l > min(i[1], j[1]):
        return
    ld = Decimal(str(data['l']))
    my = None if data['max_y'] is None else Decimal(str(data['max_y']))
    c = b.get_intersection(ld, max_y=my)
    e = HalfEdge(P, origin=b)
    o = e.get_origin(ld, my)
    need(o.xd == c.xd and o.yd == c.yd, "an edge's moving origin is not its breakpoint")
    need(e.get_origin() is None and e.get_origin(max_y=my) is None, "a moving origin without a sweep line")
    if i[1] == j[1]:
        need(abs(float(F(str(c.xd)) - (i[0] + j[0]) / 2)) <= 1e-9 * max(1, abs(float(i[0]))), "breakpoint of equally high sites is not in the middle")
        if j[0] < i[0]:
            need(c.yd == (my if my is not None else Decimal('inf')), "the breakpoint that does not exist is not at the clipping height")
        elif l == i[1]:
            need(c.yd == Decimal('inf'), "the breakpoint of two sites on the sweep line is not infinitely high")
        if j[0] < i[0] or l == i[1]:
            return
    sc = max(1.0, *[abs(float(q)) for q in i + j + (l,)])
    x, y = float(c.xd), float(c.yd)
    if i[1] == l or j[1] == l:
        on, oth = (i, j) if i[1] == l else (j, i)
        need(abs(x - float(on[0])) <= 1e-9 * sc, "a site on the sweep line has its breakpoint elsewhere")
        w = float(parab(oth, on[0], l))
        need(abs(y - w) <= 1e-7 * max(sc, abs(w)), f"the breakpoint is at height {y}, the arc above the site at {w}")
        return
    xf, yf = F(str(c.xd)), F(str(c.yd))
    big = max(sc, abs(x), abs(y))
    u, v = 2 * (i[1] - l), 2 * (j[1] - l)
    cond = float(1 / min(abs(u), abs(v))) if i[1] == j[1] else float(max(1 / abs(u), 1 / abs(v), 1 / abs(u - v)))
    if cond > 1e3 or big > 1e6:
        return
    di, dj, dl = math.sqrt(float(geom.dist2((xf, yf), i))), math.sqrt(float(geom.dist2((xf, yf), j))), float(yf - l)
    need(abs(di - dj) <= 1e-6 * big and abs(di - dl) <= 1e-6 * big, f"breakpoint ({x},{y}) has distances {di}, {dj} to its sites and {dl} to the sweep line")
    # the first site's arc is the lower one immediately to the left: slope of difference
    hdiff = lambda t: parab(i, t, l) - parab(j, t, l)
    eps = F(1, 1000) * F(str(max(1e-2, min(1.0, abs(float(u) - float(v)) if u != v else 1.0))))
    lft = float(hdiff(xf - eps))
    disc = float((i[0] - j[0]) ** 2 + (i[1] - j[1]) ** 2) * float(u) * float(v)
    if abs(lft) > 1e-9 * big * big and disc > 1e-3:
        need(lft < 0, f"left of the breakpoint ({x},{y}) the second site's arc is the lower one")


def gen_arc(rng, tier):
    s = (rnum(rng), rnum(rng))
    return dict(s=s, l=s[1] - rng.choice([0, 1, 2.5, 10, 0.25]), x=[rnum(rng) for _ in range(3)])


@case('C16', 'arc', gen_arc, 4000, 100000, 'random sites, sweep positions and x; scalar and array arguments', functions=('Arc.get_plot',))
def c16_arc(data):
    import numpy as np
    s = dec2(data['s'])
    a = Arc(Point(*data['s'], name='q'))
    l = F(str(data['l']))
    for form in (Decimal(str(data['l'])), float(data['l'])):
        for x in data['x']:
            g = a.get_plot(float(x), form)
            if l == s[1]:
                need(g is None, "an arc on the sweep line has a plot")
                continue
            w = float(parab(s, F(str(x)), l))
            sc = max(1.0, *[abs(float(q)) for q in s + (l, x)]) ** 2 / abs(float(s[1] - l))
            need(g is not None and abs(float(g) - w) <= 1e-8 * sc, f"the arc is at height {g} at x={x}, expected {w}")
        arr = a.get_plot(np.array([float(x) for x in data['x']]), form)
        if l != s[1]:
            for q, x in zip(arr, data['x']):
                w = float(a.get_plot(float(x), form))
                sc = max(1.0, *[abs(float(t)) for t in s + (l, x)]) ** 2 / abs(float(s[1] - l))
                need(abs(float(q) - w) <= 1e-9 * sc, "array and scalar plots differ")
    v = Vertex(1, 2)
    e = HalfEdge(None, origin=v)
    need(e.get_origin() is v and e.get_origin(Decimal(1), 3) is v, "a fixed origin is not returned")
    need(HalfEdge(None, origin=Vertex(None, None)).get_origin(Decimal(1)) is None, "an undefined vertex is an origin")


# ---------------------------------------------------------------------------------------------- ordered map

def gen_map(rng, tier):
    k = rng.randint(1, 40)
    dom = rng.choice([5, 12, 100])
    ops = []
    for _ in range(k):
        ops.append([rng.choice('iiid'), rng.randint(0, dom)])
    return dict(ops=ops, dom=dom, scale=rng.choice([1, 1, 3]))


class KNode(Node):
    """a node whose key depends on keyword arguments, as the beach line's do"""

    def get_key(self, scale=1, **kwargs):
        return self.data * scale


@case('C18', 'history', gen_map, 1600, 40000, 'random histories of up to 40 inserts and deletes with repeated keys, against a multiset; links, order, balance after each',
      functions=('Tree.insert', 'Tree.delete', 'Tree.find', 'Tree.balance'))
def c18(data):
    kw = {} if data['scale'] == 1 else dict(scale=data['scale'])
    cls = Node if data['scale'] == 1 else KNode
    f = data['scale']
    root = None
    bag = []
    for op, k in data['ops']:
        if op == 'i':
            n = cls(k)
            before = {id(x) for x in inorder(root)}
            root = Tree.insert(root, n, **kw)
            after = {id(x) for x in inorder(root)}
            need(after == before | {id(n)}, "insert does not add exactly the new node")
            bag.append(k)
        else:
            root = Tree.delete(root, k * f, **kw)
            if k in bag:
                bag.remove(k)
        seq = inorder(root)
        need(sorted(bag) == [x.data for x in seq], f"after {op}{k} the keys are {[x.data for x in seq]}, expected {sorted(bag)}")
        check_links(root, None, what=op + str(k))
        check_avl(root, op + str(k))
        for q in {k, 0, data['dom'] // 2}:
            g = Tree.find(root, q * f, **kw)
            need((g is not None) == (q in bag), f"find({q}) is {g}")
            if g is not None:
                need(g.data == q and any(g is x for x in seq), "find returns another node")


def gen_fv(rng, tier):
    n = rng.randint(0, 12)
    keys = sorted(rng.randint(0, 6) for _ in range(n))
    return dict(shape=rand_shape(rng, n), keys=keys, tags=[rng.randint(0, 3) for _ in range(n)], q=(rng.randint(0, 6), rng.randint(0, 3)), shuffle=rng.random() < .3, seed=rng.randint(0, 999))


class VNode(Node):
    def get_key(self, **kwargs):
        return self.data[0]


@case('C18', 'value search', gen_fv, 5000, 120000, 'trees with repeated keys (sometimes out of order, as after rounding) searched for a value; found exactly when present',
      functions=('Tree.find_value', 'Tree.find'))
def c18_fv(data):
    root = tree_from(data['shape'], VNode)
    keys = list(data['keys'])
    if data['shuffle']:
        random.Random(data['seed']).shuffle(keys)
    for n, k, t in zip(inorder(root), keys, data['tags']):
        n.data = (k, t)
    q = VNode(tuple(data['q']))
    got = Tree.find_value(root, q, lambda x, y: x == y)
    want = [n for n in inorder(root) if n.data == q.data]
    need((got is not None) == bool(want), f"value search finds {got and got.data}, matching nodes: {len(want)}")
    if got is not None:
        need(any(got is n for n in want), "value search returns a node that does not match")
    got = Tree.find_value(root, q, lambda x, y: x[1] == y[1])
    w2 = [n for n in inorder(root) if n.data[1] == q.data[1]]
    if got is not None:
        need(any(got is n for n in w2), "value search returns a node that does not match")
    if not data['shuffle']:
        g = Tree.find(root, data['q'][0])
        need((g is not None) == (data['q'][0] in keys) and (g is None or g.data[0] == data['q'][0]), "find is wrong")


import vis_cases  # noqa: E402  (registers C17)
