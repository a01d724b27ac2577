"""Coordinate, Vertex, Point, HalfEdge"""
from .base import *


def coord_is(c, s, xv, yv, new=True):
    (nx, ex), (ny, ey) = xv, yv
    return [("x holds the value given for x", z3.And(c.f(XN, s) == nx, imp(z3.Not(nx), c.f(XD, s) == short(c, ex)))),
            ("y holds the value given for y", z3.And(c.f(YN, s) == ny, imp(z3.Not(ny), c.f(YD, s) == short(c, ey))))]


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    # ---- Coordinate
    add("Coordinate._to_dec", {"value": "real?"}, "real?", fp=True, props=["C11"],
        ensures=lambda c: [("None stays None", opt(c.rv)[0] == opt(c.val("value"))[0]),
                           ("decimal of the shortest form", imp(z3.Not(opt(c.rv)[0]), opt(c.rv)[1] == short(c, opt(c.val("value"))[1])))])
    add("Coordinate.__init__", {"x": "real?", "y": "real?"}, "none", fp=True, props=["C11"],
        modifies=lambda c: {XD: [c["self"]], YD: [c["self"]]},
        ensures=lambda c: coord_is(c, c["self"], opt(c.val("x")), opt(c.val("y"))))
    for ax, K, N in (("x", XD, XN), ("y", YD, YN)):
        def mk(ax=ax, K=K, N=N):
            add(f"Coordinate.{ax}", {}, "real", fp=True, props=["C11"],
                requires=lambda c: [(f"{ax} is set", z3.Not(c.o(N, c["self"])))],
                ensures=lambda c: [("nearest float of the stored value", c.result == flt(c, c.o(K, c["self"])))])
            add(f"Coordinate.{ax}d", {}, "real?", fp=True, props=["C11"],
                ensures=lambda c: [("the stored value itself", z3.And(opt(c.rv)[0] == c.o(N, c["self"]), imp(z3.Not(c.o(N, c["self"])), opt(c.rv)[1] == c.o(K, c["self"]))))],
                inline=True)
            for sfx in ("", "d"):
                add(f"Coordinate.{ax}{sfx}.setter", {"value": "real?"}, "none", fp=True, props=["C11"],
                    modifies=lambda c: {f"Coordinate._{ax}d": [c["self"]]},
                    ensures=lambda c: [("stores the value", z3.And(c.f(N, c["self"]) == opt(c.val("value"))[0],
                                                                   imp(z3.Not(opt(c.val("value"))[0]), c.f(K, c["self"]) == short(c, opt(c.val("value"))[1]))))])
        mk()
    add("Coordinate.xy", {}, "tuple[real,real]", fp=True, props=["C11"],
        requires=lambda c: [("both are set", hasxy(c, c["self"]))],
        ensures=lambda c: [("x then y", z3.And(c.result[0] == flt(c, c.o(XD, c["self"])), c.result[1] == flt(c, c.o(YD, c["self"]))))])
    for cls in ("Coordinate", "Point"):
        add(f"{cls}.__sub__", {"other": "Coordinate"}, cls, props=["C11"], allocs=[cls],
            requires=lambda c: [("both operands are set", z3.And(hasxy(c, c["self"]), hasxy(c, c["other"])))],
            ensures=lambda c: [("new object", z3.Not(c.alive(c.result, old=True))),
                               ("difference of x", z3.And(z3.Not(c.f(XN, c.result)), c.f(XD, c.result) == c.o(XD, c["self"]) - c.o(XD, c["other"]))),
                               ("difference of y", z3.And(z3.Not(c.f(YN, c.result)), c.f(YD, c.result) == c.o(YD, c["self"]) - c.o(YD, c["other"])))])

    # ---- Vertex, Point
    add("Vertex.__init__", {"x": "real?", "y": "real?", "connected_edges": "none"}, "none", props=["C11", "C02"], allocs=["list"],
        modifies=lambda c: {XD: [c["self"]], YD: [c["self"]], "Vertex.connected_edges": [c["self"]]},
        ensures=lambda c: coord_is(c, c["self"], opt(c.val("x")), opt(c.val("y"))) + [
            ("a new empty list of edges", z3.And(z3.Not(c.alive(c.f("Vertex.connected_edges", c["self"]), old=True)), c.alive(c.f("Vertex.connected_edges", c["self"])),
                                                 c.len(c.f("Vertex.connected_edges", c["self"])) == 0))])
    add("Point.__init__", {"x": "real?", "y": "real?", "name": "int?", "first_edge": "HalfEdge?"}, "none", props=["C11", "C12"],
        modifies=lambda c: {XD: [c["self"]], YD: [c["self"]], "Point.name": [c["self"]], "Point.first_edge": [c["self"]]},
        ensures=lambda c: coord_is(c, c["self"], opt(c.val("x")), opt(c.val("y"))) + [
            ("first edge as given", c.f("Point.first_edge", c["self"]) == c["first_edge"])])

    # ---- HalfEdge
    H = "HalfEdge."
    add("HalfEdge.__init__", {"incident_point": "Point?", "twin": "HalfEdge?", "origin": "Breakpoint|Vertex?"}, "none", props=["C02", "C03"],
        requires=lambda c: [("the twin is another edge", c["twin"] != c["self"])],
        modifies=lambda c: {H + "origin": [c["self"]], H + "incident_point": [c["self"]], H + "_twin": [c["self"], c["twin"]], H + "next": [c["self"]],
                            H + "prev": [c["self"]], H + "removed": [c["self"]]},
        ensures=lambda c: [("origin and face as given", z3.And(c.f(H + "origin", c["self"]) == c["origin"], c.f(H + "incident_point", c["self"]) == c["incident_point"])),
                           ("twins point at each other", z3.And(c.f(H + "_twin", c["self"]) == c["twin"], imp(c["twin"] != null, c.f(H + "_twin", c["twin"]) == c["self"]))),
                           ("not linked yet", z3.And(c.f(H + "next", c["self"]) == null, c.f(H + "prev", c["self"]) == null))])
    add("HalfEdge.twin", {}, "HalfEdge?", props=["C02"], inline=True,
        ensures=lambda c: [("the twin", c.result == c.o(H + "_twin", c["self"]))])
    add("HalfEdge.twin.setter", {"twin": "HalfEdge?"}, "none", props=["C02", "C03"],
        modifies=lambda c: {H + "_twin": [c["self"], c["twin"]]},
        ensures=lambda c: [("twins point at each other", z3.And(c.f(H + "_twin", c["self"]) == c["twin"], imp(c["twin"] != null, c.f(H + "_twin", c["twin"]) == c["self"])))])
    add("HalfEdge.target", {}, "Breakpoint|Vertex?", props=["C02"],
        ensures=lambda c: [("origin of the twin", c.result == z3.If(c.o(H + "_twin", c["self"]) == null, null, c.o(H + "origin", c.o(H + "_twin", c["self"]))))])
    add("HalfEdge.set_next", {"next": "HalfEdge?"}, "none", props=["C02", "C03"],
        modifies=lambda c: {H + "next": [c["self"]], H + "prev": [c["next"]]},
        ensures=lambda c: [("next of this edge", c.f(H + "next", c["self"]) == c["next"]),
                           ("and its prev is this edge", imp(c["next"] != null, c.f(H + "prev", c["next"]) == c["self"]))])

    def get_origin_post(c):
        o = c.o(H + "origin", c["self"])
        y, my = opt(c.val("y")), opt(c.val("max_y"))
        isv = z3.And(o != null, c.isa(o, "Vertex"))
        ok = hasxy(c, o)
        return [("a vertex with coordinates is the origin", imp(z3.And(isv, ok), c.result == o)),
                ("a vertex without coordinates is none", imp(z3.And(isv, z3.Not(ok)), c.result == null)),
                ("nothing without a sweep line", imp(z3.And(z3.Not(isv), y[0]), c.result == null)),
                ("a breakpoint at its current position", imp(z3.And(z3.Not(isv), z3.Not(y[0])), z3.And(c.result != null, z3.Not(c.alive(c.result, old=True)), z3.Not(c.f(XN, c.result)), z3.Not(c.f(YN, c.result)),
                                                             bp_at(c, o, y[1], my, c.f(XD, c.result), c.f(YD, c.result)))))]

    def get_origin_pre(c):
        o = c.o(H + "origin", c["self"])
        y = opt(c.val("y"))
        return [("there is an origin or no sweep line", z3.Or(y[0], o != null)),
                ("a breakpoint's sites are not below the sweep line", imp(z3.And(o != null, c.isa(o, "Breakpoint"), z3.Not(y[0])), bp_ok(c, o, y[1])))]
    add("HalfEdge.get_origin", {"y": "real?", "max_y": "real?"}, "Coordinate?", props=["C16", "C04", "C03"], allocs=["Coordinate"],
        requires=get_origin_pre, ensures=get_origin_post)

    def delete_pre(c):
        s = c["self"]
        o, ip, nx = c.o(H + "origin", s), c.o(H + "incident_point", s), c.o(H + "next", s)
        i = z3.Const("i", I)
        l = c.o("Vertex.connected_edges", o)
        k = z3.Const("at", I)
        return [("a vertex at its origin knows it", imp(z3.And(o != null, c.isa(o, "Vertex")), z3.Exists([k], z3.And(0 <= k, k < c.len(l, old=True), c.el(l, k, old=True) == s), patterns=[c.el(l, k, old=True)]))),
                ("the next edge belongs to the same face", imp(z3.And(ip != null, c.o("Point.first_edge", ip) == s, nx != null), c.o(H + "incident_point", nx) == ip))]

    def delete_post(c):
        s = c["self"]
        o, ip, nx, pv = c.o(H + "origin", s), c.o(H + "incident_point", s), c.o(H + "next", s), c.o(H + "prev", s)
        l = c.o("Vertex.connected_edges", o)
        n = c.len(l, old=True)
        i, j, w = V("i", "j", "w", sort=I)
        el = lambda k: c.el(l, k)
        ol = lambda k: c.el(l, k, old=True)
        isv = z3.And(o != null, c.isa(o, "Vertex"))
        gone = z3.Exists([w], z3.And(0 <= w, w < n, ol(w) == s, fa(i, imp(z3.And(0 <= i, i < w), z3.And(el(i) == ol(i), ol(i) != s))),
                                     fa(i, imp(z3.And(w <= i, i < n - 1), el(i) == ol(i + 1)))), patterns=[ol(w)])
        return [("removed once from the origin's edges", imp(isv, z3.And(c.len(l) == n - 1, gone))),
                ("previous and next are joined", imp(pv != null, z3.And(c.f(H + "next", pv) == nx, imp(nx != null, c.f(H + "prev", nx) == pv)))),
                ("the face gets another first edge", imp(ip != null, c.f("Point.first_edge", ip) == z3.If(c.o("Point.first_edge", ip) == s, nx, c.o("Point.first_edge", ip))))]

    def delete_mod(c):
        s = c["self"]
        o = c.o(H + "origin", s)
        l = c.o("Vertex.connected_edges", o)
        isv = z3.And(o != null, c.isa(o, "Vertex"))
        on = lambda r: z3.And(isv, r == l)
        hasprev = c.o(H + "prev", s) != null
        return {"$len": on, "$E:Ref": on, H + "next": [c.o(H + "prev", s)], H + "prev": lambda r: z3.And(hasprev, r == c.o(H + "next", s)), "Point.first_edge": [c.o(H + "incident_point", s)]}
    add("HalfEdge.delete", {}, "none", props=["C13", "C02"], requires=delete_pre, ensures=delete_post, modifies=delete_mod)


def bp_sites(c, b):
    return c.o("Breakpoint.breakpoint.0", b), c.o("Breakpoint.breakpoint.1", b)


def bp_ok(c, b, l):
    """both sites have coordinates and are on or above the sweep line"""
    i, j = bp_sites(c, b)
    return z3.And(hasxy(c, i), hasxy(c, j), c.o(YD, i) >= l, c.o(YD, j) >= l)


def bp_at(c, b, l, my, x, y):
    """(x, y) is where the arcs of the two sites meet, the first site's arc being the lower one to the left"""
    i, j = bp_sites(c, b)
    (a, bb), (cc, d) = xy(c, i), xy(c, j)
    eq = lambda px, py: (x - px) * (x - px) + (y - py) * (y - py) == (y - l) * (y - l)
    top = z3.And(2 * x == a + cc, y == z3.If(my[0], INF, my[1]))
    return z3.And(imp(z3.And(bb == d, cc < a), top),
                  imp(z3.And(bb == d, cc >= a, bb > l), z3.And(2 * x == a + cc, eq(a, bb), eq(cc, d))),
                  imp(z3.And(bb == l, d > l), z3.And(x == a, eq(cc, d))),
                  imp(z3.And(d == l, bb > l), z3.And(x == cc, eq(a, bb))),
                  imp(z3.And(bb > l, d > l, bb != d), z3.And(eq(a, bb), eq(cc, d), (d - l) * (x - a) - (bb - l) * (x - cc) >= 0)))
