"""Arc, Breakpoint, events, Algebra"""
from .base import *
from pyvc.builtin import ATAN2, DEG, FMOD
from .graph import bp_ok, bp_at, bp_sites


def register(reg):
    reg.lemmas.append(("order of events", ["C07", "C08", "C01"], order_lemmas))
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    # ---- Arc, Breakpoint
    add("Breakpoint.does_intersect", {}, "bool", props=["C16"],
        requires=lambda c: [("the sites have coordinates", z3.And(*[hasxy(c, p) for p in bp_sites(c, c["self"])]))],
        ensures=lambda c: (lambda i, j: [("only a pair at equal height in right-to-left order does not meet",
                                          c.result == z3.Not(z3.And(c.o(YD, i) == c.o(YD, j), c.o(XD, j) < c.o(XD, i))))])(*bp_sites(c, c["self"])))
    add("Breakpoint.get_intersection", {"l": "real", "max_y": "real?"}, "Coordinate", props=["C16", "C01"], allocs=["Coordinate"], effort=3,
        requires=lambda c: [("both sites are on or above the sweep line", bp_ok(c, c["self"], c["l"]))],
        ensures=lambda c: [("a new point", z3.Not(c.alive(c.result, old=True))), ("with both coordinates", z3.And(z3.Not(c.f(XN, c.result)), z3.Not(c.f(YN, c.result)))),
                           ("is where the arcs meet", bp_at(c, c["self"], c["l"], opt(c.val("max_y")), c.f(XD, c.result), c.f(YD, c.result)))])
    add("Arc.get_plot", {"x": "real", "sweep_line": "real"}, "union[none,real]", props=["C16"],
        requires=lambda c: [("the site has coordinates", hasxy(c, c.o("Arc.origin", c["self"])))],
        ensures=arc_plot)

    # ---- events
    add("CircleEvent.__init__", {"center": "Coordinate", "radius": "real", "arc_node": "LeafNode", "point_triple": "tuple[Point,Point,Point]?", "arc_triple": "tuple[Arc,Arc,Arc]?"},
        "none", props=["C08"], modifies=lambda c: {"CircleEvent." + f: [c["self"]] for f in ("center", "radius", "arc_pointer", "is_valid", "point_triple", "arc_triple")},
        ensures=lambda c: [("fields", z3.And(c.f("CircleEvent.center", c["self"]) == c["center"], c.f("CircleEvent.radius", c["self"]) == c["radius"],
                                             c.f("CircleEvent.arc_pointer", c["self"]) == c["arc_node"])), ("starts valid", c.f("CircleEvent.is_valid", c["self"]))])
    add("CircleEvent.xd", {}, "real", props=["C07"], inline=True, requires=lambda c: [("has a centre", hasxy(c, c.o("CircleEvent.center", c["self"])))],
        ensures=lambda c: [("x of the centre", c.result == evx(c, c["self"]))])
    add("CircleEvent.yd", {}, "real", props=["C07"], inline=True, requires=lambda c: [("has a centre", hasxy(c, c.o("CircleEvent.center", c["self"])))],
        ensures=lambda c: [("bottom of the circle", c.result == evy(c, c["self"]))])
    add("SiteEvent.xd", {}, "real", props=["C07"], inline=True, requires=lambda c: [("the site is set", hasxy(c, c.o("SiteEvent.point", c["self"])))],
        ensures=lambda c: [("x of the site", c.result == evx(c, c["self"]))])
    add("SiteEvent.yd", {}, "real", props=["C07"], inline=True, requires=lambda c: [("the site is set", hasxy(c, c.o("SiteEvent.point", c["self"])))],
        ensures=lambda c: [("y of the site", c.result == evy(c, c["self"]))])
    add("CircleEvent.remove", {}, "CircleEvent", props=["C08"], modifies=lambda c: {"CircleEvent.is_valid": [c["self"]]},
        ensures=lambda c: [("marked as a false alarm", z3.Not(c.f("CircleEvent.is_valid", c["self"]))), ("returns itself", c.result == c["self"])])
    kinds = lambda c, *es: [("site or circle events with coordinates", z3.And(*[z3.And(c.isa(e, "SiteEvent", "CircleEvent"), evok(c, e)) for e in es]))]
    add("Event.__lt__", {"self": "SiteEvent|CircleEvent", "other": "SiteEvent|CircleEvent"}, "bool", props=["C07"], requires=lambda c: kinds(c, c["self"], c["other"]),
        ensures=lambda c: [("higher first, then left, then circles", c.result == before(c, c["self"], c["other"]))])
    add("Event.__eq__", {"self": "SiteEvent|CircleEvent", "other": "SiteEvent|CircleEvent?"}, "union[none,bool]", props=["C07", "C08"],
        requires=lambda c: [("coordinates", z3.And(evok(c, c["self"]), imp(c["other"] != null, evok(c, c["other"]))))],
        ensures=lambda c: [("same position", z3.And(c["other"] == null) if isinstance(c.rv, NoneV) else z3.And(c["other"] != null, c.result == samepos(c, c["self"], c["other"])))])
    add("Event.__ne__", {"self": "SiteEvent|CircleEvent", "other": "SiteEvent|CircleEvent?"}, "bool", props=["C07", "C08"],
        requires=lambda c: [("coordinates", z3.And(evok(c, c["self"]), imp(c["other"] != null, evok(c, c["other"]))))],
        ensures=lambda c: [("another position or no event", c.result == z3.Or(c["other"] == null, z3.Not(samepos(c, c["self"], c["other"]))))])

    # ---- circles
    add("CircleEvent.create_circle", {"a": "Coordinate", "b": "Coordinate", "c": "Coordinate"}, "union[false,tuple[real,real,real]]", props=["C08", "C01"], effort=3,
        requires=lambda c: [("coordinates", z3.And(*[hasxy(c, c[p]) for p in "abc"]))], ensures=lambda c: circle_geometry(c) + circle_post(c), ghost=circle_ghost)
    add("CircleEvent.create_circle_event", {"left_node": "LeafNode?", "middle_node": "LeafNode?", "right_node": "LeafNode?", "sweep_line": "real"}, "CircleEvent?", props=["C08", "C01"],
        allocs=["CircleEvent", "Coordinate"], requires=lambda c: [("sites of the arcs have coordinates", z3.And(*[imp(c[n + "_node"] != null, hasxy(c, site(c, c[n + "_node"]))) for n in ("left", "middle", "right")]))],
        ensures=circle_event_post)

    # ---- Algebra
    xy2 = lambda c, p: z3.And(hasxy(c, c[p]))
    add("Algebra.distance", {"point_a": "Coordinate", "point_b": "Coordinate"}, "real", props=["C04", "C14"],
        requires=lambda c: [("coordinates", z3.And(xy2(c, "point_a"), xy2(c, "point_b")))],
        ensures=lambda c: [("the distance", c.result == dist(c, xy(c, c["point_a"]), xy(c, c["point_b"])))])
    add("Algebra.magnitude", {"vector": "vec[real,real]"}, "real", props=["C04"],
        ensures=lambda c: [("not negative", c.result >= 0), ("square of the length", c.result * c.result == sq(c["vector"][0]) + sq(c["vector"][1]))])
    add("Algebra.norm", {"vector": "vec[real,real]"}, "vec[real,real]", props=["C04"],
        ensures=lambda c: (lambda v, r: [("same direction", z3.And(cross(v, r) == 0, dot(v, r) >= 0)),
                                         ("length one unless zero", z3.If(z3.And(v[0] == 0, v[1] == 0), z3.And(r[0] == 0, r[1] == 0), sq(r[0]) + sq(r[1]) == 1))])(c["vector"], c.result))
    add("Algebra.line_ray_intersection_point", {"ray_orig": "vec[real,real]", "ray_end": "vec[real,real]", "point_1": "vec[real,real]", "point_2": "vec[real,real]"}, "list[vec[real,real]]",
        props=["C04"], effort=3, allocs=["list"], logical={"s": R, "t": R}, ensures=ray_post)
    add("Algebra.get_intersection", {"orig": "Coordinate?", "end": "Coordinate?", "p1": "Coordinate", "p2": "Coordinate"}, "Coordinate?", props=["C04"], effort=2, allocs=["Coordinate", "list"],
        logical={"qx": R, "qy": R}, before={"Algebra.line_ray_intersection_point": gi_hint}, ghost=gi_ghost,
        requires=lambda c: [("coordinates", z3.And(*[imp(c[p] != null, hasxy(c, c[p])) for p in ("orig", "end", "p1", "p2")]))], ensures=gi_post)
    add("Algebra.calculate_angle", {"point": "Coordinate", "center": "Coordinate"}, "real", props=["C08", "C14"],
        requires=lambda c: [("coordinates", z3.And(xy2(c, "point"), xy2(c, "center")))],
        ensures=lambda c: [("between 0 and 360", z3.And(c.result >= 0, c.result < 360)), ("the direction's angle", c.result == ang(c, c["point"], c["center"]))])
    add("Algebra.check_clockwise", {"a": "Coordinate", "b": "Coordinate", "c": "Coordinate", "center": "Coordinate"}, "bool", props=["C08"],
        requires=lambda c: [("coordinates", z3.And(*[hasxy(c, c[p]) for p in ("a", "b", "c", "center")]))],
        ensures=lambda c: [("turning clockwise from a one meets b before c", clockwise_post(c))])


def sq(a):
    return a * a


def d2(p, q):
    return sq(q[0] - p[0]) + sq(q[1] - p[1])


def cross(p, q):
    return p[0] * q[1] - p[1] * q[0]


def dot(p, q):
    return p[0] * q[0] + p[1] * q[1]


def sub(p, q):
    return p[0] - q[0], p[1] - q[1]


def arc_plot(c):
    fx, fy = xy(c, c.o("Arc.origin", c["self"]))
    l, x = c["sweep_line"], c["x"]
    if isinstance(c.rv, NoneV):
        return [("no parabola only when the site is on the sweep line", fy == l)]
    y = c.result
    return [("point of the parabola", z3.And(fy != l, sq(x - fx) + sq(y - fy) == sq(y - l)))]


def evx(c, e, old=True):
    f = c.o if old else c.f
    return z3.If(c.isa(e, "CircleEvent"), f(XD, f("CircleEvent.center", e)), f(XD, f("SiteEvent.point", e)))


def evy(c, e, old=True):
    f = c.o if old else c.f
    return z3.If(c.isa(e, "CircleEvent"), f(YD, f("CircleEvent.center", e)) - f("CircleEvent.radius", e), f(YD, f("SiteEvent.point", e)))


def evok(c, e, old=True):
    f = c.o if old else c.f
    return z3.And(imp(c.isa(e, "CircleEvent"), hasxy(c, f("CircleEvent.center", e), old)), imp(c.isa(e, "SiteEvent"), hasxy(c, f("SiteEvent.point", e), old)))


def samepos(c, e, g):
    return z3.And(evx(c, e) == evx(c, g), evy(c, e) == evy(c, g))


def order(a, b):
    """the order of events, given as (x, y, is a circle event)"""
    return z3.Or(a[1] > b[1], z3.And(a[1] == b[1], a[0] < b[0]), z3.And(a[0] == b[0], a[1] == b[1], a[2], z3.Not(b[2])))


def before(c, e, g):
    return order(*[(evx(c, v), evy(c, v), c.isa(v, "CircleEvent")) for v in (e, g)])


def order_lemmas():
    """a queue that returns some least element needs an order"""
    a, b, d = [(z3.Real(n + "x"), z3.Real(n + "y"), z3.Bool(n + "c")) for n in "abd"]
    same = lambda p, q: z3.And(z3.Not(order(p, q)), z3.Not(order(q, p)))
    yield "irreflexive", [], z3.Not(order(a, a))
    yield "transitive", [order(a, b), order(b, d)], order(a, d)
    yield "events in the same place of the order are exchangeable", [same(a, b), same(b, d)], same(a, d)
    yield "two events in the same place are at one point and of one kind", [same(a, b)], z3.And(a[0] == b[0], a[1] == b[1], a[2] == b[2])


def site(c, n):
    return c.deref("Arc.origin", c.deref("LeafNode.data", n))


def circle_ghost(x, c):
    """there is one circle through three points"""
    a, b, d = [xy(c, c[p]) for p in "abc"]
    coll, m, rad = circumcircle_def(c, a, b, d)
    if isinstance(c.rv, Tup):
        cx, cy, r = c.result
        lin = lambda p, q: 2 * dot(sub(q, a), sub(p, a)) == dot(sub(q, a), sub(q, a))
        x.oblige("hint: not on one line", z3.Not(coll), "hint")
        for nm, q in (("second", b), ("third", d)):
            x.oblige_from(f"hint: on the bisector with the {nm}", [d2((cx, cy), a) == sq(r), d2((cx, cy), q) == sq(r)], lin((cx, cy), q), [cx, cy, r])
        for k in (0, 1):
            x.oblige_from(f"hint: the centre is unique {k}", [lin((cx, cy), b), lin((cx, cy), d), lin(m, b), lin(m, d), cross(sub(b, a), sub(d, a)) != 0], (cx, cy)[k] == m[k], [*a, *b, *d, cx, cy, *m])
        x.oblige_from("hint: the radius", [r >= 0, d2((cx, cy), a) == sq(r), rad >= 0, sq(rad) == d2(m, a), cx == m[0], cy == m[1]], r == rad, [*a, cx, cy, r, *m, rad])


def circle_post(c):
    a, b, d = [xy(c, c[p]) for p in "abc"]
    coll, m, rad = circumcircle(a, b, d)
    if not isinstance(c.rv, Tup):
        return [("no circle only for points on one line", coll)]
    x, y, r = c.result
    return [("no circle through points on one line", z3.Not(coll)), ("the radius is not negative", r >= 0), ("the circumcircle", z3.And(x == m[0], y == m[1], r == rad))]


def circle_geometry(c):
    """what the circumcircle is: proved where it is made, and not needed by the callers"""
    if not isinstance(c.rv, Tup):
        return []
    x, y, r = c.result
    return [(f"through the {nm} point", d2((x, y), xy(c, c[p])) == sq(r)) for nm, p in (("first", "a"), ("second", "b"), ("third", "c"))]


def circle_event_post(c):
    ns = [c[n + "_node"] for n in ("left", "middle", "right")]
    none = z3.Or(*[n == null for n in ns])
    coll, m, rad = circumcircle(*[xy(c, site(c, n)) for n in ns])
    r = c.result
    cen = c.f("CircleEvent.center", r)
    return [("none exactly when a neighbour is missing or the sites are on one line", (r == null) == z3.Or(none, coll)),
            ("a new valid event", imp(r != null, z3.And(z3.Not(c.alive(r, old=True)), c.isa(r, "CircleEvent"), c.f("CircleEvent.is_valid", r)))),
            ("with a new centre", imp(r != null, z3.And(c.alive(r), c.alive(cen), z3.Not(c.alive(cen, old=True)), hasxy(c, cen, False)))),
            ("for the middle arc", imp(r != null, c.f("CircleEvent.arc_pointer", r) == ns[1])),
            ("the circumcircle of the three sites", imp(r != null, z3.And(c.f("CircleEvent.radius", r) == rad, rad >= 0, c.f(XD, cen) == m[0], c.f(YD, cen) == m[1])))]


def ray_post(c):
    o, e, p1, p2 = c["ray_orig"], c["ray_end"], c["point_1"], c["point_2"]
    r = c.rv
    d, v2 = sub(e, o), sub(p2, p1)
    P = (c.el(c.result, z3.IntVal(0), R, ".0"), c.el(c.result, z3.IntVal(0), R, ".1"))
    n = c.len(c.result)
    s, t = c["s"], c["t"]
    meets = z3.And(s > 0, t >= 0, t <= 1, o[0] + s * d[0] == p1[0] + t * v2[0], o[1] + s * d[1] == p1[1] + t * v2[1])
    return [("at most one point", z3.And(n >= 0, n <= 1)), ("a new list", z3.Not(c.alive(c.result, old=True))),
            ("on the ray's line", imp(n == 1, cross(d, sub(P, o)) == 0)), ("ahead of the ray's start", imp(n == 1, dot(d, sub(P, o)) > 0)),
            ("on the side's line", imp(n == 1, cross(v2, sub(P, p1)) == 0)), ("between the side's ends", imp(n == 1, z3.And(dot(v2, sub(P, p1)) >= 0, dot(v2, sub(P, p1)) <= dot(v2, v2)))),
            ("a forward crossing with a side that is not parallel is found", imp(z3.And(cross(d, v2) != 0, meets), n == 1))]


def gi_terms(c):
    o, e, p1, p2 = [xy(c, c[p]) for p in ("orig", "end", "p1", "p2")]
    q = (c["qx"], c["qy"])
    return o, e, p1, p2, q, sub(e, o), sub(p2, p1)


def gi_hint(x, c, args):
    """a crossing q is ahead by some s along the ray and t along the side"""
    o, e, p1, p2, q, d, v = gi_terms(c)
    some = z3.And(crossing(c, o, e, p1, p2, q), slant(c, o, e, p1, p2))
    s, t = x.fresh("s", R), x.fresh("t", R)
    w, u = sub(q, o), sub(q, p1)
    if x.decide(some):
        x.oblige("hint: the ray has a direction", dot(d, d) > 0, "hint")
        x.oblige("hint: the side has a length", dot(v, v) > 0, "hint")
        x.assume(z3.And(s * dot(d, d) == dot(d, w), t * dot(v, v) == dot(v, u)))
        for nm, f, k, b in [("ray", s, d, w), ("side", t, v, u)]:
            hyps = [f * dot(k, k) == dot(k, b), dot(k, k) > 0]
            if nm == "ray":
                x.oblige_from("hint: s > 0", hyps + [dot(k, b) > 0], f > 0, [dot(k, k), dot(k, b)])
            else:
                x.oblige_from("hint: t >= 0", hyps + [dot(k, b) >= 0], f >= 0, [dot(k, k), dot(k, b)])
                x.oblige_from("hint: t <= 1", hyps + [dot(k, b) <= dot(k, k)], f <= 1, [dot(k, k), dot(k, b)])
            for n in (0, 1):
                x.oblige_from(f"hint: on the {nm} {n}", hyps + [k[0] * b[1] - k[1] * b[0] == 0], b[n] == f * k[n], [k[0], k[1], b[0], b[1]])
    x.logical_args = {"s": s, "t": t}


def gi_ghost(x, c):
    """two points on both lines are one"""
    o, e, p1, p2, q, d, v = gi_terms(c)
    r = c.result
    P = (c.f(XD, r), c.f(YD, r))
    if x.decide(z3.And(r != null, c["orig"] != null, c["end"] != null)) and x.decide(z3.And(crossing(c, o, e, p1, p2, q), slant(c, o, e, p1, p2), crossing(c, o, e, p1, p2, P))):
        for n in (0, 1):
            x.oblige_from(f"hint: one point {n}", [cross(d, sub(q, o)) == 0, cross(v, sub(q, p1)) == 0, cross(d, sub(P, o)) == 0, cross(v, sub(P, p1)) == 0, cross(d, v) != 0], P[n] == q[n], [*o, *e, *p1, *p2, *q, *P])


def gi_post(c):
    r = c.result
    ps = [xy(c, c[p]) for p in ("orig", "end", "p1", "p2")]
    P, q = (c.f(XD, r), c.f(YD, r)), (c["qx"], c["qy"])
    some = z3.And(c["orig"] != null, c["end"] != null)
    meets = z3.And(some, crossing(c, *ps, q), slant(c, *ps))
    return [("nothing without two ends", imp(z3.Not(some), r == null)), ("a new point", imp(r != null, z3.And(z3.Not(c.alive(r, old=True)), z3.Not(c.f(XN, r)), z3.Not(c.f(YN, r))))),
            ("ahead on the ray and on the side", imp(r != null, crossing(c, *ps, P))),
            ("a forward crossing with a side that is not parallel is found", imp(meets, r != null)),
            ("there is no other one", imp(meets, P[0] == q[0], P[1] == q[1]))]


def ang(c, p, q, old=True):
    """angle of the direction from q to p, in degrees, at least 0 and less than 360"""
    (px, py), (qx, qy) = xy(c, p, old), xy(c, q, old)
    return FMOD(DEG(ATAN2(py - qy, px - qx)), z3.RealVal(360))


def clockwise_post(c):
    a, b, d = [ang(c, c[p], c["center"]) for p in "abc"]
    m = lambda e: z3.If(e < 0, e + 360, e)      # differences of angles in [0, 360)
    t1, t2 = m(a - b), m(b - d)
    return imp(z3.And(a != b, b != d, a != d), c.result == (t1 + t2 < 360))
