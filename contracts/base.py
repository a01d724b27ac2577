"""Types of the fields of every class, and the vocabulary the contracts share."""
import z3
from pyvc.solve import Ref, null, rsqrt
from pyvc.engine import Contract, Inv, C, tag, INF
from pyvc.values import Num, Bool, RefV, OptV, NoneV, ListV, CList, Tup, Vec, I, R, B, wrap, unwrap, T, NONE, OpqV, StrV

SCHEMA = {
    "Coordinate": {"_xd": "real?", "_yd": "real?"},
    "Vertex": {"connected_edges": "list[HalfEdge]"},
    "Point": {"name": "int?", "first_edge": "HalfEdge?", "$ev": "SiteEvent", "$ix": "int", "$borders": "list[HalfEdge]", "$vertices": "list[Vertex]", "$xs": "list[real]", "$ys": "list[real]"},
    "HalfEdge": {"origin": "Breakpoint|Vertex?", "incident_point": "Point?", "_twin": "HalfEdge?", "next": "HalfEdge?", "prev": "HalfEdge?", "removed": "bool", "$ok": "bool"},
    "Arc": {"origin": "Point", "circle_event": "CircleEvent?", "$leaf": "LeafNode?"},
    "Breakpoint": {"breakpoint": "tuple[Point,Point]", "_edge": "opq", "edge": "HalfEdge?"},
    "Node": {"data": "real", "_left": "Node?", "_right": "Node?", "_height": "int?", "parent": "Node?",
             "$in": "bool", "$pos": "real", "$lo": "real", "$hi": "real", "$H": "int", "$OH": "int", "$key": "real", "$gone": "Node?", "$hit": "Node?", "$src": "Node?"},
    "LeafNode": {"data": "Arc"},
    "InternalNode": {"data": "Breakpoint"},
    "SiteEvent": {"point": "Point"},
    "CircleEvent": {"center": "Coordinate", "radius": "real", "arc_pointer": "LeafNode", "is_valid": "bool", "$wl": "Node?", "$wr": "Node?",
                    "point_triple": "tuple[Point,Point,Point]?", "arc_triple": "tuple[Arc,Arc,Arc]?"},
    "Subject": {"_observers": "list[Observer]", "_children": "list[Subject]", "_root_sender": "Subject", "_child_sender": "Subject", "$n": "int"},
    "Log": {"$n": "int"},
    "Polygon": {"points": "list[Coordinate]", "polygon_vertices": "list[Vertex]", "min_x": "real", "min_y": "real", "max_x": "real", "max_y": "real", "center": "Coordinate"},
    "BoundingCircle": {"xd": "real", "yd": "real", "radius": "real", "sweep_line": "real", "voronoi": "Algorithm"},
    "Visualizer": {"voronoi": "Algorithm", "min_x": "real", "max_x": "real", "min_y": "real", "max_y": "real", "canvas": "opq"},
    "Algorithm": {"bounding_poly": "Polygon", "event_queue": "queue[Event]", "event": "Event?", "status_tree": "Node?", "doubly_connected_edge_list": "opq",
                  "sweep_line": "real", "_arcs": "set[Arc]", "sites": "list[Point]", "edges": "list[HalfEdge]", "_vertices": "set[Vertex]", "remove_zero_length_edges": "bool", "$hn": "int", "$split": "Node?"},
}

XD, YD, XN, YN = "Coordinate._xd", "Coordinate._yd", "Coordinate._xd#n", "Coordinate._yd#n"
SHORT = z3.Function("SHORT", R, R)      # shortest decimal form of a float (a Decimal is its own)
FLT = z3.Function("FLT", R, R)          # nearest float
EXACT = z3.Function("EXACT", R, R)      # binary value of a float as a decimal


def imp(a, *b):
    return z3.Implies(a, z3.And(*b) if len(b) != 1 else b[0])


def fa(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.ForAll(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats]) if pats else z3.ForAll(vs, body)


def V(*names, sort=Ref):
    return [z3.Const(n, sort) for n in names]


def hasxy(c, p, old=True):
    f = c.o if old else c.f
    return z3.And(z3.Not(f(XN, p)), z3.Not(f(YN, p)))


def xy(c, p, old=True):
    f = c.o if old else c.f
    return f(XD, p), f(YD, p)


def opt(v):
    """(is None, value) of an optional value"""
    if isinstance(v, OptV):
        return v.n, v.val.e
    if isinstance(v, NoneV):
        return z3.BoolVal(True), z3.RealVal(0)
    e = v.e
    return z3.BoolVal(False), (z3.ToReal(e) if e.sort() == I else e)


def short(c, e):
    return SHORT(e) if getattr(c.x, "fp", False) else e


def flt(c, e):
    return FLT(e) if getattr(c.x, "fp", False) else e


def others(c, *lists, sorts=(Ref,)):
    """(in an invariant) the lists that existed when the loop started are as they were, but for those named"""
    r = z3.Const("r", Ref)
    e = c.entry
    out = []
    for a, b in [(c.F("$len"), e.F("$len"))] + [(c.F(f"$E:{s}"), e.F(f"$E:{s}")) for s in sorts]:
        out.append(fa(r, imp(z3.And(e.alive(r), *[r != l for l in lists]), a(r) == b(r)), a(r)))
    return z3.And(out)


DIST = z3.Function("DIST", R, R, R, R, R)               # distance of two points
CROSSING = z3.Function("CROSSING", *[R] * 10, B)        # (origin, end, side's ends, point): the point is ahead of the origin on the ray and on the side
SLANT = z3.Function("SLANT", *[R] * 8, B)               # the ray and the side are not parallel


def dist(c, p, q):
    """DIST of the points p and q (pairs), with its definition"""
    d = DIST(*p, *q)
    c.x.assume(z3.And(d >= 0, d * d == (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])))
    return d


def crossing(c, o, e, p1, p2, q):
    """CROSSING, with its definition"""
    r = CROSSING(*o, *e, *p1, *p2, *q)
    d, v = (e[0] - o[0], e[1] - o[1]), (p2[0] - p1[0], p2[1] - p1[1])
    w, u = (q[0] - o[0], q[1] - o[1]), (q[0] - p1[0], q[1] - p1[1])
    parts = [d[0] * w[1] - d[1] * w[0] == 0, d[0] * w[0] + d[1] * w[1] > 0, v[0] * u[1] - v[1] * u[0] == 0, v[0] * u[0] + v[1] * u[1] >= 0, v[0] * u[0] + v[1] * u[1] <= v[0] * v[0] + v[1] * v[1]]
    c.x.assume(r == z3.And(parts))
    return r


def slant(c, o, e, p1, p2):
    r = SLANT(*o, *e, *p1, *p2)
    c.x.assume(r == ((e[0] - o[0]) * (p2[1] - p1[1]) - (e[1] - o[1]) * (p2[0] - p1[0]) != 0))
    return r


AT = z3.Function("AT", I, B)                            # true of every integer; guides the search for witnesses


def some(c, i, body, *witnesses):
    """there is an integer i with body; the witnesses are tried"""
    for w in witnesses:
        c.x.assume(AT(w))
    return z3.Exists([i], z3.And(AT(i), body), patterns=[AT(i)])


# the circle through three points that are not on one line (left, middle, right)
COLL = z3.Function("COLL", *[R] * 6, B)                 # on one line
CCX, CCY, CRAD = [z3.Function(n, *[R] * 7) for n in ("CCX", "CCY", "CRAD")]


def circumcircle(a, b, d):
    """(on one line, (centre x, y), radius), without their definition"""
    t = (*a, *b, *d)
    return COLL(*t), (CCX(*t), CCY(*t)), CRAD(*t)


def circumcircle_def(c, a, b, d):
    """... with their definition: the centre as the solution of two linear equations with a determinant other than 0"""
    coll, m, r = circumcircle(a, b, d)
    u, v, o = (b[0] - a[0], b[1] - a[1]), (d[0] - a[0], d[1] - a[1]), (m[0] - a[0], m[1] - a[1])
    c.x.assume(coll == (u[0] * v[1] - u[1] * v[0] == 0))
    c.x.assume(z3.Implies(z3.Not(coll), z3.And(2 * (u[0] * o[0] + u[1] * o[1]) == u[0] * u[0] + u[1] * u[1], 2 * (v[0] * o[0] + v[1] * o[1]) == v[0] * v[0] + v[1] * v[1],
                                               r >= 0, r * r == o[0] * o[0] + o[1] * o[1])))
    return coll, m, r
