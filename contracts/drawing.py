"""Visualizer: the positions drawn, and that drawing changes nothing (matplotlib itself is foreign code)."""
from .base import *
from .nodes import *
from .graph import *
from pyvc.values import Unsupported

Z, PL, AL = "Visualizer.", "Polygon.", "Algorithm."


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    i = z3.Const("i", I)

    def canvas_post(c):
        p, d = c["bounding_polygon"], c["offset"]
        a, b, e, f = [v.e for v in c.rv.items]
        return [("the extents of the polygon and the offset on each side", z3.And(a == c.o(PL + "min_x", p) - d, b == c.o(PL + "max_x", p) + d, e == c.o(PL + "min_y", p) - d, f == c.o(PL + "max_y", p) + d))]
    add("Visualizer._canvas_size", {"bounding_polygon": "Polygon", "offset": "real"}, "tuple[real,real,real,real]", props=["C17"], ensures=canvas_post)

    def outline_pre(c):
        l = c.o(PL + "points", c["self"])
        return [("the corners have coordinates", fa(i, imp(z3.And(0 <= i, i < c.len(l)), hasxy(c, c.el(l, i))), c.el(l, i)))]

    def outline_post(c):
        l, r = c.o(PL + "points", c["self"]), c.result
        n = c.len(l, old=True)
        return [("as many as corners", c.len(r) == n),
                ("the corners in order", fa(i, imp(z3.And(0 <= i, i < n), c.el(r, i, R, ".0") == c.o(XD, c.el(l, i, old=True)), c.el(r, i, R, ".1") == c.o(YD, c.el(l, i, old=True))), c.el(l, i, old=True)))]
    add("Polygon.get_coordinates", {}, "list[tuple[real,real]]", props=["C17"], self_classes=["Polygon", "BoundingBox"], allocs=["list"], requires=outline_pre, ensures=outline_post)

    # ---- plot_all: one call per layer whose flag is set, with that layer's options
    LAYERS = [("sweep_line", "plot_sweep_line", {}), ("polygon", "plot_polygon", {}), ("edges", "plot_edges", {"show_labels": "edge_labels"}), ("border_to_site", "plot_border_to_site", {}),
              ("vertices", "plot_vertices", {}), ("sites", "plot_sites", {"show_labels": "site_labels"}), ("outgoing_edges", "plot_outgoing_edges", {"scale": "scale"}),
              ("events", "plot_event", {"triangles": "triangles"}), ("beach_line", "plot_arcs", {"plot_arcs": "arcs", "show_labels": "arc_labels"})]

    def e(v):
        return v.e if hasattr(v, "e") else None

    def all_ghost(x, c):
        calls = [(t[0].split(".")[-1], t[2]) for t in c.trace if t[0].startswith("Visualizer.plot_")]
        for flag, name, opts in LAYERS:
            mine = [a for n, a in calls if n == name]
            if len(mine) > 1:
                raise Unsupported("a layer drawn in several calls")
            x.oblige(f"post: {name} is called once when {flag} is set, not otherwise", c[flag] if len(mine) == 1 else z3.Not(c[flag]), "post")
            for a in mine:
                x.oblige(f"post: {name} draws this diagram", a["self"].e == c["self"], "post")
                for o, p in opts.items():
                    x.oblige(f"post: {name} gets its option {o}", e(a[o]) == c[p], "post")
                for d in ("vertices", "points", "edges", "event", "arcs", "sweep_line"):
                    if d in a:
                        v = a[d]
                        own = {"edges": AL + "edges", "points": AL + "sites"}.get(d)
                        if not isinstance(v, (NoneV, OptV)) and own:
                            x.oblige(f"post: {name} draws the diagram's own {d}", z3.Or(e(v) == null, e(v) == c.o(own, c.o(Z + "voronoi", c["self"]))), "post")
                            continue
                        if not isinstance(v, (NoneV, OptV)) and not z3.eq(e(v), null):
                            raise Unsupported(f"explicit {d}")
                        x.oblige(f"post: {name} draws the diagram's own {d}", z3.BoolVal(True) if isinstance(v, NoneV) else v.n if isinstance(v, OptV) else e(v) == null, "post")
    add("Visualizer.plot_all", {**{k: "bool" for k in ("polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels", "triangles", "arcs", "sweep_line", "events", "arc_labels", "beach_line")}, "scale": "real"},
        "Visualizer", props=["C17"], max_paths=700, allocs=["list", "Coordinate"], ghost=all_ghost, ensures=lambda c: [("itself", c.result == c["self"])])

    me = lambda c: [("itself", c.result == c["self"])]
    LAY = dict(props=["C17"], trace=True, allocs=["list", "Coordinate"])
    TR = dict(LAY, trusted=True, note="draws on the canvas and changes nothing else (executed, not proved)")

    def drawn(c, what):
        """the calls of the canvas method `what`"""
        return [(t[2], t[3]) for t in c.trace if t[0] == "call" and t[1].endswith("." + what)]

    def one_scatter(c, default, given):
        """exactly one scatter call, with the coordinates of the items"""
        calls = drawn(c, "scatter")
        if len(calls) != 1:
            raise Unsupported("not one scatter call")
        xs, ys = calls[0][0][:2]
        xs, ys = xs.e, ys.e
        g = c[given]
        out = []
        for nm, l, cond in (("the given items", g, g != null), ):
            n = c.len(l, old=True)
            out += [(f"as many positions as {nm}", imp(cond, c.len(xs) == n, c.len(ys) == n)),
                    (f"at the coordinates of {nm}", imp(cond, fa(i, imp(z3.And(0 <= i, i < n), c.el(xs, i, R) == c.o(XD, c.el(l, i, old=True)), c.el(ys, i, R) == c.o(YD, c.el(l, i, old=True))), c.el(l, i, old=True))))]
        return out + default(c, xs, ys)

    def own_sites(c, xs, ys):
        l = c.o(AL + "sites", c.o(Z + "voronoi", c["self"]))
        n = c.len(l, old=True)
        none = c["points"] == null
        return [("by default as many as the diagram's sites", imp(none, c.len(xs) == n, c.len(ys) == n)),
                ("by default at the diagram's sites", imp(none, fa(i, imp(z3.And(0 <= i, i < n), c.el(xs, i, R) == c.o(XD, c.el(l, i, old=True)), c.el(ys, i, R) == c.o(YD, c.el(l, i, old=True))), c.el(l, i, old=True))))]

    def sweep_post(c):
        if not hasattr(c, "trace"):
            return me(c)
        calls = drawn(c, "plot")
        if len(calls) != 1:
            raise Unsupported("not one line")
        s = c["self"]
        v = opt(c.val("sweep_line"))
        y = z3.If(v[0], c.o(AL + "sweep_line", c.o(Z + "voronoi", s)), v[1])
        a, b = calls[0][0][:2]
        at = lambda l, k: opt(l.items[k])[1] if isinstance(l, CList) else c.el(l.e, k, R)
        return me(c) + [("across the canvas, at the sweep line", z3.And(at(a, 0) == c.o(Z + "min_x", s), at(a, 1) == c.o(Z + "max_x", s), at(b, 0) == y, at(b, 1) == y))]
    add("Visualizer.plot_sweep_line", {"sweep_line": "real?"}, "Visualizer", ensures=sweep_post, **LAY)
    add("Visualizer.plot_polygon", {}, "Visualizer", ensures=me, **TR)
    add("Visualizer.plot_edges", {"edges": "list[HalfEdge]?", "sweep_line": "real?", "show_labels": "bool", "color": "opq"}, "Visualizer", ensures=me, **TR)
    add("Visualizer.plot_border_to_site", {"edges": "list[HalfEdge]?", "sweep_line": "real?"}, "Visualizer", ensures=me, **TR)
    add("Visualizer.plot_vertices", {"vertices": "list[Vertex]?"}, "Visualizer", ensures=lambda c: me(c) + (one_scatter(c, lambda *a: [], "vertices") if hasattr(c, "trace") else []), **LAY)
    add("Visualizer.plot_sites", {"points": "list[Point]?", "show_labels": "bool", "color": "opq", "zorder": "opq"}, "Visualizer", ensures=lambda c: me(c) + (one_scatter(c, own_sites, "points") if hasattr(c, "trace") else []), **LAY)
    add("Visualizer.plot_outgoing_edges", {"vertices": "list[Vertex]?", "scale": "real"}, "Visualizer", ensures=me, **TR)
    add("Visualizer.plot_event", {"event": "Event?", "triangles": "bool"}, "Visualizer", ensures=me, **TR)
    add("Visualizer.plot_arcs", {"arcs": "set[Arc]?", "sweep_line": "real?", "plot_arcs": "bool", "show_labels": "bool"}, "Visualizer", ensures=me, **TR)
