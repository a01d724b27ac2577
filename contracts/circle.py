"""BoundingCircle: inside test, the line through two points, its crossings with the circle, the cut of one edge."""
from .base import *

K = "BoundingCircle."


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))

    def circ(c):
        s = c["self"]
        return (c.o(K + "xd", s), c.o(K + "yd", s)), c.o(K + "radius", s)

    def off(c, p):
        """squared distance from the circle's centre"""
        m, r = circ(c)
        return (p[0] - m[0]) * (p[0] - m[0]) + (p[1] - m[1]) * (p[1] - m[1])

    add("BoundingCircle.inside", {"point": "Coordinate"}, "bool", props=["C15"], requires=lambda c: [("the point has coordinates", hasxy(c, c["point"]))],
        ensures=lambda c: [("nearer to the centre than the radius", c.result == (off(c, xy(c, c["point"])) < circ(c)[1] * circ(c)[1]))])

    def line_post(c):
        a, b, k = [v.e for v in c.rv.items]
        A, Bp = xy(c, c["A"]), xy(c, c["B"])
        return [("the first point is on the line", a * A[0] + b * A[1] == k), ("the second point is on the line", a * Bp[0] + b * Bp[1] == k), ("it is a line", z3.Or(a != 0, b != 0))]
    add("BoundingCircle.get_line", {"A": "Coordinate", "B": "Coordinate"}, "tuple[real,real,real]", props=["C15"],
        requires=lambda c: [("the points have coordinates", z3.And(hasxy(c, c["A"]), hasxy(c, c["B"])))], ensures=line_post)

    # ---- the two crossings of a line with the circle: each is on both, there are no others; none exactly when there is no crossing
    def on(c, p):
        (a, b, k), (m, r) = (c["a"], c["b"], c["c"]), circ(c)
        return z3.And(a * p[0] + b * p[1] == k, off(c, p) == r * r)

    def misses(c):
        """the centre is further from the line than the radius"""
        (a, b, k), (m, r) = (c["a"], c["b"], c["c"]), circ(c)
        d = k - a * m[0] - b * m[1]
        return r * r * (a * a + b * b) - d * d < 0

    def cut_post(c):
        p, q = [v.e if isinstance(v, RefV) else null for v in c.rv.items]
        g = (c["qx"], c["qy"])
        at = lambda o: (c.f(XD, o), c.f(YD, o))
        new = lambda o: z3.And(o != null, c.alive(o), z3.Not(c.alive(o, old=True)), c.isa(o, "Point"), hasxy(c, o, False))
        return [("no point when the line misses the circle", imp(misses(c), z3.And(p == null, q == null))),
                ("two new points otherwise", imp(z3.Not(misses(c)), z3.And(new(p), new(q)))),
                ("the first is on the line and on the circle", imp(p != null, on(c, at(p)))), ("the second is on the line and on the circle", imp(q != null, on(c, at(q)))),
                ("a line that meets the circle does not miss it", imp(on(c, g), z3.And(p != null, q != null))),
                ("every crossing is one of them", imp(z3.And(on(c, g), p != null, q != null), z3.Or(z3.And(at(p)[0] == g[0], at(p)[1] == g[1]), z3.And(at(q)[0] == g[0], at(q)[1] == g[1]))))]
    def cut_ghost(x, c):
        """a point on the line is where its position along the line, b*u - a*v, is; on the circle there are only two such positions"""
        p, q = [v.e if isinstance(v, RefV) else null for v in c.rv.items]
        if z3.eq(p, null) or z3.eq(q, null):
            return
        (a, b, k), (m, r), g = (c["a"], c["b"], c["c"]), circ(c), (c["qx"], c["qy"])
        if not x.decide(z3.And(p != null, q != null, on(c, g))):
            return
        P, Q = [(c.f(XD, o), c.f(YD, o)) for o in (p, q)]
        t = lambda p: b * (p[0] - m[0]) - a * (p[1] - m[1])
        line, ring = (lambda p: a * p[0] + b * p[1] == k), (lambda p: off(c, p) == r * r)
        gen = [a, b, k, *m, r, *g, *P, *Q]
        x.oblige("hint: the two crossings lie on opposite sides", t(Q) == -t(P), "hint")
        x.oblige_from("hint: two positions only", [line(g), ring(g), line(P), ring(P)], t(g) * t(g) == t(P) * t(P), gen)
        x.oblige_from("hint: one of the two", [t(g) * t(g) == t(P) * t(P), t(Q) == -t(P)], z3.Or(t(g) == t(P), t(g) == t(Q)), [t(g), t(P), t(Q)])
        for nm, o in (("first", P), ("second", Q)):
            if x.decide(t(g) == t(o)):
                for n in (0, 1):
                    x.oblige_from(f"hint: it is the {nm} {n}", [line(g), line(o), t(g) == t(o), z3.Or(a != 0, b != 0)], o[n] == g[n], gen)
                return
    add("BoundingCircle.cut_circle", {"a": "real", "b": "real", "c": "real"}, "tuple[Point?,Point?]", props=["C15"], allocs=["Point"], logical={"qx": R, "qy": R}, effort=3,
        requires=lambda c: [("a line", z3.Or(c["a"] != 0, c["b"] != 0)), ("a circle", circ(c)[1] >= 0)], ensures=cut_post, ghost=cut_ghost)

    def between(c, A, Bp, p):
        w = lambda a, m, b: z3.Or(z3.And(a <= m, m <= b), z3.And(b <= m, m <= a))
        return z3.If(A[0] != Bp[0], w(A[0], p[0], Bp[0]), w(A[1], p[1], Bp[1]))
    add("BoundingCircle.on_line", {"A": "Coordinate", "B": "Coordinate", "C": "Coordinate"}, "bool", props=["C15"],
        requires=lambda c: [("coordinates", z3.And(*[hasxy(c, c[p]) for p in "ABC"]))],
        ensures=lambda c: [("between the ends", c.result == between(c, xy(c, c["A"]), xy(c, c["B"]), xy(c, c["C"])))])
