"""Polygon, BoundingBox: extents, order of the corners, inside test, clipping of one edge."""
from .base import *
from pyvc.builtin import SUM
from .nodes import d2, cross, dot, sub, sq, ang
from pyvc.builtin import FMOD

PAR = z3.Function("PAR", R, R, z3.ArraySort(I, Ref), z3.ArraySort(Ref, R), z3.ArraySort(Ref, R), I, I, B)     # an odd number of the first sides is crossed

P = "Polygon."


def perm(c, l, src, n):
    """the n elements of l are those of src, each once (ghost $src: where each one was; $inv: where each one went)"""
    i = z3.Const("i", I)
    p, q = (lambda k: c.el(l, k, I, "$src")), (lambda k: c.el(l, k, I, "$inv"))
    dom = lambda k: z3.And(0 <= k, k < n)
    return [("as many", c.len(l) == n),
            ("each element was in the list", fa(i, imp(dom(i), dom(p(i)), q(p(i)) == i, c.el(l, i) == src(p(i))), c.el(l, i), p(i))),
            ("each element of the list is kept once", fa(i, imp(dom(i), dom(q(i)), p(q(i)) == i, c.el(l, q(i)) == src(i)), src(i), q(i)))]


def turn(c, p, q, old=False):
    """degrees clockwise from the direction west, of p seen from q"""
    return FMOD(z3.RealVal(-180) - ang(c, p, q, old), z3.RealVal(360))


def clockwise(c, l, cen):
    i, j = V("i", "j", sort=I)
    return ("clockwise around the centre", fa([i, j], imp(z3.And(0 <= i, i < j, j < c.len(l)), turn(c, c.el(l, i), cen) <= turn(c, c.el(l, j), cen)), (c.el(l, i), c.el(l, j))))


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    i, j = V("i", "j", sort=I)
    MOD = lambda c: {P + f: [c["self"]] for f in ("points", "polygon_vertices", "min_x", "min_y", "max_x", "max_y", "center")} | {"Subject." + f: [c["self"]] for f in ("_observers", "_children", "_root_sender", "_child_sender")}

    def order_pre(c):
        l = c["points"]
        return [("the centre has coordinates", hasxy(c, c.o(P + "center", c["self"]))), ("the points have coordinates", fa(i, imp(z3.And(0 <= i, i < c.len(l)), hasxy(c, c.el(l, i))), c.el(l, i)))]
    add("Polygon._order_points", {"points": "list[Coordinate]"}, "list[Coordinate]", props=["C14"], allocs=["list"], requires=order_pre,
        ensures=lambda c: (lambda l, r: [("a new list", z3.And(z3.Not(c.alive(r, old=True)), c.alive(r)))] + perm(c, r, lambda k: c.el(l, k, old=True), c.len(l, old=True))
                           + [clockwise(c, r, c.o(P + "center", c["self"]))])(c["points"], c.result))

    def corner_lists(c):
        s = c["self"]
        return c.f(P + "points", s), c.f(P + "polygon_vertices", s)

    def is_corner(c, r, k):
        """point r has the coordinates of the k-th corner given"""
        t = c["tuples"]
        return z3.And(hasxy(c, r, False), c.f(XD, r) == c.el(t, k, R, ".0", old=True), c.f(YD, r) == c.el(t, k, R, ".1", old=True))

    def extents(c):
        s, t = c["self"], c["tuples"]
        n = c.len(t, old=True)
        ext = []
        for fld, sfx in (("x", ".0"), ("y", ".1")):
            g = lambda k: c.el(t, k, R, sfx, old=True)
            for what, lo in (("min", True), ("max", False)):
                v = c.f(P + f"{what}_{fld}", s)
                ext.append((f"{what}_{fld} is some corner's {fld}", z3.Exists([i], z3.And(0 <= i, i < n, g(i) == v), patterns=[g(i)])))
                ext.append((f"{what}_{fld} is the {'least' if lo else 'greatest'} {fld} of the corners", fa(i, imp(z3.And(0 <= i, i < n), v <= g(i) if lo else v >= g(i)), g(i))))
        return ext

    def corners(c):
        """the points are the corners given, each once"""
        l, pv = corner_lists(c)
        n = c.len(c["tuples"], old=True)
        p, q = (lambda k: c.el(l, k, I, "$src")), (lambda k: c.el(l, k, I, "$inv"))
        dom = lambda k: z3.And(0 <= k, k < n)
        return [("as many points as corners", z3.And(c.len(l) == n, c.alive(l))),
                ("each point is a corner", fa(i, imp(dom(i), dom(p(i)), q(p(i)) == i, is_corner(c, c.el(l, i), p(i))), c.el(l, i))),
                ("each corner is a point", fa(i, imp(dom(i), dom(q(i)), p(q(i)) == i), q(i))),
                clockwise(c, l, c.f(P + "center", c["self"]))]

    def init_post(c):
        l, pv = corner_lists(c)
        at = lambda k: c.el(pv, k)
        return extents(c) + corners(c) + [
            ("a vertex for each point, in the same order", z3.And(c.len(pv) == c.len(l), fa(i, imp(z3.And(0 <= i, i < c.len(l)), c.isa(at(i), "Vertex"), hasxy(c, at(i), False),
                                                                  c.f(XD, at(i)) == c.f(XD, c.el(l, i)), c.f(YD, at(i)) == c.f(YD, c.el(l, i))), at(i))))]

    def ext_hint(x, c, args):
        for nm, g in sorted(extents(c), key=lambda e: "corner's" in e[0]):
            x.oblige("hint: " + nm, g, "hint")

    def pv_inv(c):
        l, pv = corner_lists(c)
        at = lambda k: c.el(pv, k)
        return z3.And(c.len(pv) == c.k, pv != l, fa(i, imp(z3.And(0 <= i, i < c.k), c.isa(at(i), "Vertex"), c.alive(at(i)), hasxy(c, at(i), False),
                                                   c.f(XD, at(i)) == c.f(XD, c.el(l, i)), c.f(YD, at(i)) == c.f(YD, c.el(l, i))), at(i)))
    add("Polygon.__init__", {"tuples": "list[tuple[real,real]]"}, "none", props=["C14"], allocs=["list", "Coordinate", "Vertex"], modifies=MOD,
        before={"Polygon._order_points": ext_hint}, inv=[Inv("other lists are as they were", {}, lambda c: others(c, corner_lists(c)[1])), Inv("vertices so far", {}, pv_inv), Inv("the vertex list is new", {}, lambda c: z3.Not(c.alive(corner_lists(c)[1], old=True)))],
        requires=lambda c: [("at least one corner", c.len(c["tuples"]) >= 1)], ensures=init_post)

    # ---- the bounding box is the polygon of its four corners
    def box_post(c):
        s = c["self"]
        l, r, b, t = c["left_x"], c["right_x"], c["bottom_y"], c["top_y"]
        pts = c.f(P + "points", s)
        k = z3.Const("k", I)
        has = lambda x, y: z3.Exists([k], z3.And(0 <= k, k < 4, c.f(XD, c.el(pts, k)) == x, c.f(YD, c.el(pts, k)) == y))
        lo, hi = (lambda a, b: z3.If(a < b, a, b)), (lambda a, b: z3.If(a < b, b, a))
        return [("four corners", c.len(pts) == 4), ("extents", z3.And(c.f(P + "min_x", s) == lo(l, r), c.f(P + "max_x", s) == hi(l, r), c.f(P + "min_y", s) == lo(b, t), c.f(P + "max_y", s) == hi(b, t)))] + \
               [(f"{n} corner", has(x, y)) for n, x, y in (("upper left", l, t), ("upper right", r, t), ("lower right", r, b), ("lower left", l, b))]
    add("BoundingBox.__init__", {"left_x": "real", "right_x": "real", "bottom_y": "real", "top_y": "real"}, "none", props=["C14"], allocs=["list", "Coordinate", "Vertex"], modifies=MOD, ensures=box_post)

    # ---- inside: the number of sides a ray to the left crosses is odd
    def poly_ok(c, old=True):
        l = c.o(P + "points", c["self"])
        c.typed(l, ["Coordinate"])
        return [("at least one corner", c.len(l, old=True) >= 1), ("the corners have coordinates", fa(i, imp(z3.And(0 <= i, i < c.len(l, old=True)), hasxy(c, c.el(l, i, old=True))), c.el(l, i, old=True)))]

    def crosses(c, l, k, x, y):
        """the side from corner k to the next one has a point at height y (its lower end counts) that is right of x"""
        n = c.len(l, old=True)
        nk = z3.If(k == n - 1, z3.IntVal(0), k + 1)
        (xi, yi), (xj, yj) = xy(c, c.el(l, k, old=True)), xy(c, c.el(l, nk, old=True))
        return z3.And((yi > y) != (yj > y), x < (xj - xi) * (y - yi) / (yj - yi) + xi)

    def parity(c, k):
        s = c["self"]
        l = c.o(P + "points", s)
        x, y = xy(c, c["point"])
        return PAR(c.O(XD)(c["point"]), y, c.elarr(l, old=True), c.arr(XD, True), c.arr(YD, True), c.len(l, old=True), k)

    def par_inv(c, inside):
        l = c.o(P + "points", c["self"])
        x, y = xy(c, c["point"])
        # definition of the parity, unfolded here
        c.x.assume(parity(c, z3.IntVal(0)) == z3.BoolVal(False))
        c.x.assume(imp(z3.And(c.k >= 0, c.k < c.len(l, old=True)), parity(c, c.k + 1) == z3.Xor(parity(c, c.k), crosses(c, l, c.k, x, y))))
        return inside == parity(c, c.k)
    add("Polygon.inside", {"point": "Coordinate"}, "bool", props=["C14", "C01"], allocs=["list"], self_classes=["Polygon", "BoundingBox"],
        requires=lambda c: poly_ok(c) + [("the point has coordinates", hasxy(c, c["point"]))], inv=[Inv("parity", {"inside": "bool"}, par_inv)],
        ensures=lambda c: [("an odd number of sides is crossed", c.result == parity(c, c.len(c.o(P + "points", c["self"]), old=True)))])


    # ---- the end of an edge: the furthest crossing with a side that is not beyond the edge's end
    def side(c, k, old=True):
        """the ends of the k-th side"""
        l = c.o(P + "points", c["self"])
        n = c.len(l, old=True)
        a, b = c.el(l, k, old=True), c.el(l, z3.If(k == n - 1, z3.IntVal(0), k + 1), old=True)
        return (c.f(XD, a), c.f(YD, a)), (c.f(XD, b), c.f(YD, b))

    def ends(c):
        return xy(c, c["orig"]), xy(c, c["end"])

    def meets(c, k, q):
        """the point q is ahead of orig on the ray to end, and on side k"""
        l = c.o(P + "points", c["self"])
        o, e = ends(c)
        a, b = side(c, k)
        return z3.And(0 <= k, k < c.len(l, old=True), CROSSING(*o, *e, *a, *b, *q))

    def given(c):
        """side K is not parallel to the ray and meets it in q"""
        o, e = ends(c)
        a, b = side(c, c["K"])
        return z3.And(c["orig"] != null, c["end"] != null, meets(c, c["K"], (c["qx"], c["qy"])), SLANT(*o, *e, *a, *b))

    def copy_inv(c, p):
        """p is the list of corners, with the first one again at the end"""
        l = c.o(P + "points", c["self"])
        n = c.len(l, old=True)
        return z3.And(c.alive(c.el(l, z3.IntVal(0), old=True), old=True), c.len(p) == n + 1, c.el(p, n) == c.el(l, z3.IntVal(0), old=True), fa(i, imp(z3.And(0 <= i, i < n), c.el(p, i) == c.el(l, i, old=True), c.alive(c.el(p, i), old=True)), c.el(p, i)))

    def gip_inv(c, points):
        n = c.len(points)
        i, k = V("i", "k", sort=I)
        at = lambda m: c.el(points, m)
        pos = lambda m: (c.f(XD, at(m)), c.f(YD, at(m)))
        l = c.o(P + "points", c["self"])
        return z3.And(n >= 0, n <= c.k, imp(z3.Or(c["orig"] == null, c["end"] == null), n == 0),
                      fa(i, imp(z3.And(0 <= i, i < n), at(i) != null, c.isa(at(i), "Coordinate"), c.alive(at(i)), z3.Not(c.alive(at(i), old=True)), hasxy(c, at(i), False),
                                some(c, k, z3.And(k < c.k, meets(c, k, pos(i))), c.k)), at(i)))

    def gip_found(c, points):
        n = c.len(points)
        i = z3.Const("i", I)
        at = lambda m: c.el(points, m)
        return imp(z3.And(given(c), c["K"] < c.k), some(c, i, z3.And(0 <= i, i < n, c.f(XD, at(i)) == c["qx"], c.f(YD, at(i)) == c["qy"]), n - 1))

    def gip_before(x, c, args):
        x.logical_args = {"qx": c["qx"], "qy": c["qy"]}

    def gip_post(c):
        r = c.result
        k = z3.Const("k", I)
        o, e = ends(c)
        pos, q = (c.f(XD, r), c.f(YD, r)), (c["qx"], c["qy"])
        l = c.o(P + "points", c["self"])
        both = z3.And(c["orig"] != null, c["end"] != null)
        return [("nothing without two ends", imp(z3.Not(both), r == null)),
                ("a new point", imp(r != null, z3.And(c.alive(r), z3.Not(c.alive(r, old=True)), c.isa(r, "Coordinate"), hasxy(c, r, False)))),
                ("on the ray and on a side", imp(r != null, some(c, k, meets(c, k, pos)))),
                ("not beyond the end", imp(r != null, DIST(*o, *pos) <= DIST(*o, *e))),
                ("no crossing that is not beyond the end is further", imp(z3.And(given(c), DIST(*o, *q) <= DIST(*o, *e)), z3.And(r != null, DIST(*o, *pos) >= DIST(*o, *q))))]
    add("Polygon._get_intersection_point", {"orig": "Coordinate?", "end": "Coordinate?"}, "Coordinate?", props=["C04"], allocs=["Coordinate", "list"], logical={"K": I, "qx": R, "qy": R},
        self_classes=["Polygon", "BoundingBox"], before={"Algebra.get_intersection": gip_before},
        requires=lambda c: poly_ok(c) + [("coordinates", z3.And(*[imp(c[p] != null, hasxy(c, c[p])) for p in ("orig", "end")]))],
        inv=[Inv("a new list", {"points": "listref"}, lambda c, points: z3.And(points != null, c.alive(points), z3.Not(c.alive(points, old=True)))),
             Inv("other lists are as they were", {"points": "listref"}, lambda c, points: others(c, points)),
             Inv("the corners, and the first again", {"p": "listref"}, copy_inv), Inv("crossings so far", {"points": "listref"}, gip_inv), Inv("the crossing is among them", {"points": "listref"}, gip_found)], ensures=gip_post)
