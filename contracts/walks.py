"""Site measurements: borders, vertices, area.

Ghost fields: Point.$borders / $vertices / $xs / $ys - the lists last computed for the site; HalfEdge.$ok - an arbitrary set
of edges that contains the site's first edge and is closed under next (used to speak about "every edge of the walk")."""
from .base import *
from pyvc.builtin import DOT, ROUND

H = "HalfEdge."


def walk(c, s, l):
    """l is the walk along next from the first edge of s"""
    i = z3.Const("i", I)
    first, n = c.f("Point.first_edge", s), c.len(l)
    el, nxt = (lambda k: c.el(l, k)), (lambda e: c.f(H + "next", e))
    return [("a list", z3.And(l != null, c.alive(l), n >= 0)), ("no borders without a first edge", imp(first == null, n == 0)),
            ("starts at the first edge", imp(first != null, n >= 1, el(z3.IntVal(0)) == first)),
            ("each border is followed by its next edge", imp(first != null, fa(i, imp(z3.And(1 <= i, i < n), el(i) == nxt(el(i - 1)), el(i) != first), el(i)))),
            ("ends back at the first edge or at the end of an open chain", imp(first != null, z3.Or(nxt(el(n - 1)) == first, nxt(el(n - 1)) == null))),
            ("only edges", fa(i, imp(z3.And(0 <= i, i < n), el(i) != null, c.isa(el(i), "HalfEdge"), c.alive(el(i))), el(i)))]


def closed(c, s):
    """the edges in $ok include the first edge and are closed under next"""
    e = z3.Const("e", Ref)
    ok, nxt, first = (lambda r: c.o(H + "$ok", r)), (lambda r: c.o(H + "next", r)), c.o("Point.first_edge", s)
    return [("the first edge is in", imp(first != null, ok(first))), ("with an edge its next one is in", fa(e, imp(z3.And(ok(e), nxt(e) != null), ok(nxt(e))), nxt(e)))]


def allin(c, l):
    i = z3.Const("i", I)
    return ("every border is in any set that is closed under next", fa(i, imp(z3.And(0 <= i, i < c.len(l)), c.f(H + "$ok", c.el(l, i))), c.el(l, i)))


def fixed(c, b, l):
    """l holds the fixed origins of the borders b, in order"""
    i, j = V("i", "j", sort=I)
    n, m = c.len(l), c.len(b)
    src, inv = (lambda k: c.el(l, k, I, "$src")), (lambda k: c.el(l, k, I, "$inv"))
    org = lambda k: c.f(H + "origin", c.el(b, k))
    isv = lambda r: z3.And(r != null, c.isa(r, "Vertex"))
    return [("a list of vertices", z3.And(l != null, c.alive(l), n >= 0)), ("each is the fixed origin of a border", fa(i, imp(z3.And(0 <= i, i < n), 0 <= src(i), src(i) < m, isv(org(src(i))), c.el(l, i) == org(src(i))), c.el(l, i))),
            ("in the order of the borders", fa([i, j], imp(z3.And(0 <= i, i < j, j < n), src(i) < src(j)), (src(i), src(j)))),
            ("none is left out", fa(j, imp(z3.And(0 <= j, j < m, isv(org(j))), 0 <= inv(j), inv(j) < n, src(inv(j)) == j), c.el(b, j)))]


def setghost(f):
    def g(x, c):
        a = x.get(f"Point.{f}")
        x.put(f"Point.{f}", z3.Store(a, c["self"], c.result))
    return g


def shoelace(f, n):
    return f


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))

    def b_inv(c, edges, edge):
        i = z3.Const("i", I)
        s = c["self"]
        first, n = c.f("Point.first_edge", s), c.len(edges)
        el, nxt = (lambda k: c.el(edges, k)), (lambda e: c.f(H + "next", e))
        return z3.And(first != null, n >= 1, el(z3.IntVal(0)) == first, el(n - 1) == edge,
                      fa(i, imp(z3.And(1 <= i, i < n), el(i) == nxt(el(i - 1)), el(i) != first), el(i)),
                      fa(i, imp(z3.And(0 <= i, i < n), el(i) != null, c.isa(el(i), "HalfEdge"), c.alive(el(i))), el(i)))
    add("Point.borders", {}, "list[HalfEdge]", props=["C12", "C02"], allocs=["list"], modifies=lambda c: {"Point.$borders": [c["self"]]}, ghost=setghost("$borders"),
        requires=lambda c: closed(c, c["self"]),
        inv=[Inv("walk so far", {"edges": "listref", "edge": "ref:HalfEdge"}, b_inv), Inv("inside the closed set", {"edges": "listref"}, lambda c, edges: allin(c, edges)[1]),
             Inv("a new list", {"edges": "listref"}, lambda c, edges: z3.Not(c.alive(edges, old=True)))],
        ensures=lambda c: [("a new list", z3.Not(c.alive(c.result, old=True)))] + walk(c, c["self"], c.result) + [allin(c, c.result), ("recorded", c.f("Point.$borders", c["self"]) == c.result)])

    def ghosts(*fs):
        return lambda c: {f"Point.{f}": [c["self"]] for f in fs}
    add("Point.vertices", {}, "list[Vertex]", props=["C12"], allocs=["list"], modifies=ghosts("$borders", "$vertices"), ghost=setghost("$vertices"),
        requires=lambda c: closed(c, c["self"]),
        ensures=lambda c: (lambda b: [("a new list", z3.Not(c.alive(c.result, old=True)))] + walk(c, c["self"], b) + fixed(c, b, c.result) + [allin(c, b), ("recorded", c.f("Point.$vertices", c["self"]) == c.result)])(c.f("Point.$borders", c["self"])))

    def setv(c):
        e = z3.Const("e", Ref)
        o = c.o(H + "origin", e)
        return closed(c, c["self"]) + [("the fixed origins have coordinates", fa(e, imp(z3.And(c.o(H + "$ok", e), o != null, c.isa(o, "Vertex")), hasxy(c, o)), o))]

    def coords(c, l, xs, ys):
        i = z3.Const("i", I)
        g = lambda a: (lambda k: c.el(a, k, R))
        return [("two lists", z3.And(xs != null, ys != null, c.alive(xs), c.alive(ys), xs != ys)), ("one of each per vertex", z3.And(c.len(xs) == c.len(l), c.len(ys) == c.len(l))),
                ("x of each vertex", fa(i, imp(z3.And(0 <= i, i < c.len(l)), g(xs)(i) == c.f(XD, c.el(l, i))), g(xs)(i))),
                ("y of each vertex", fa(i, imp(z3.And(0 <= i, i < c.len(l)), g(ys)(i) == c.f(YD, c.el(l, i))), g(ys)(i)))]

    def xyghost(x, c):
        for f, l in zip(("$xs", "$ys"), c.result):
            x.put(f"Point.{f}", z3.Store(x.get(f"Point.{f}"), c["self"], l))
    rec = lambda c: tuple(c.f(f"Point.{f}", c["self"]) for f in ("$borders", "$vertices", "$xs", "$ys"))
    add("Point._get_xy", {}, "tuple[list[real],list[real]]", props=["C12"], allocs=["list"], modifies=ghosts("$borders", "$vertices", "$xs", "$ys"), ghost=xyghost, requires=setv,
        ensures=lambda c: (lambda b, l, xs, ys: walk(c, c["self"], b) + fixed(c, b, l) + coords(c, l, *c.result) + [("recorded", z3.And(xs == c.result[0], ys == c.result[1]))])(*rec(c)))

    def shoe(c, xs, ys, result):
        """result is half the absolute value of the cyclic sum of x(i) y(i-1) - y(i) x(i-1)"""
        i = z3.Const("i", I)
        n = c.len(xs)
        X, Y = c.elarr(xs, R), c.elarr(ys, R)
        rx, ry = ROLL(X, n), ROLL(Y, n)
        d = DOT(X, ry, n) - DOT(Y, rx, n)
        return result == z3.RealVal("1/2") * z3.If(d >= 0, d, -d)
    add("Point._shoelace", {"x": "list[real]", "y": "list[real]"}, "real", props=["C12"], local=True,
        requires=lambda c: [("as many x as y", c.len(c["x"]) == c.len(c["y"]))], ensures=lambda c: [("shoelace area", shoe(c, c["x"], c["y"], c.result)), ("not negative", c.result >= 0)])
    add("Point.area", {"digits": "int?"}, "real", props=["C12"], allocs=["list"], modifies=ghosts("$borders", "$vertices", "$xs", "$ys"), requires=setv,
        ensures=lambda c: (lambda b, l, xs, ys: walk(c, c["self"], b) + fixed(c, b, l) + coords(c, l, xs, ys) + area_is(c, xs, ys))(*rec(c)))

    def area_is(c, xs, ys):
        a = z3.Real("a")
        n, d = opt(c.val("digits"))
        d = z3.ToInt(d) if d.sort() == R else d
        return [("the shoelace area, rounded only to the digits asked for", z3.Exists([a], z3.And(shoe(c, xs, ys, a), a >= 0, c.result == z3.If(n, a, ROUND(a, d)))))]


from pyvc.builtin import ROLL
