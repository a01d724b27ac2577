"""The sweep: scheduling circle events, handling events, the main loop."""
from .base import *
from .nodes import d2, cross, dot, sub, sq, evx, evy, evok, samepos, before, site
from .observers import DELIVERED, SENT, LOG, silent, debug, same_list, sent
from .beach import here, state, STATE
from pyvc.builtin import ATAN2, DEG, FMOD

A, P = "Algorithm.", "Polygon."


def angle(p, q):
    """degrees of the direction from q to p"""
    return FMOD(DEG(ATAN2(p[1] - q[1], p[0] - q[0])), z3.RealVal(360))


def clockwise(a, b, d, cen):
    """turning clockwise from a one meets b before d, seen from cen (for three different directions)"""
    a, b, d = [angle(p, cen) for p in (a, b, d)]
    m = lambda e: z3.If(e < 0, e + 360, e)
    return z3.And(a != b, b != d, a != d), m(a - b) + m(b - d) < 360


def queue_put(x, q, e):
    """events in the queue can be compared; (ghost) a site's event is remembered"""
    c = here(x)
    x.oblige("the queued event has coordinates", evok(c, e.e), "safety")
    if set(e.classes) == {"SiteEvent"}:
        x.put("Point.$ev", z3.Store(x.get("Point.$ev"), c.o("SiteEvent.point", e.e), e.e))


def queue_get(x, q, v, mem):
    """PriorityQueue.get: no event in the queue comes before the one returned (trusted; the order is a strict weak order: lemma)"""
    r = z3.Const("r?", Ref)
    x.assume(z3.ForAll([r], z3.Implies(z3.Select(mem, r), z3.Not(before(here(x), r, v.e))), patterns=[z3.Select(mem, r)]))


def register(reg):
    reg.ext["queue.put"], reg.ext["queue.get"] = queue_put, queue_get
    add = lambda *a, **k: reg.add(Contract(*a, **k))

    # ---- the two triples around a change of the beach line
    def triples(c):
        for nm in ("triple_left", "triple_right"):
            ns = c[nm]
            ps = [xy(c, site(c, n)) for n in ns]
            coll, m, r = circumcircle(*ps)
            diff, cw = clockwise(*ps, m)
            yield nm.split("_")[1], ns, z3.And(*[n != null for n in ns], z3.Not(coll)), m, r, diff, cw

    def cc_pre(c):
        c.typed_set(c.o(A + "event_queue", c["self"]), ["SiteEvent", "CircleEvent"])
        b, e = c["triple_left"][1], c["triple_right"][1]
        some = [n for nm in ("triple_left", "triple_right") for n in c[nm]]
        return [("the arcs' sites have coordinates", z3.And(*[imp(n != null, hasxy(c, site(c, n))) for n in some])),
                ("two different arcs in the middle", imp(z3.And(b != null, e != null), c.o("LeafNode.data", b) != c.o("LeafNode.data", e))), ("the log has a length", c.o("Log.$n", LOG) >= 0)]

    def cc_post(c):
        out = []
        q = c.o(A + "event_queue", c["self"])
        le, re = c.result
        b, e = c["triple_left"][1], c["triple_right"][1]
        ev = "Arc.circle_event"
        shared = z3.And(le != null, re != null, samepos2(c, le, re))
        r = z3.Const("r", Ref)
        for (side, ns, circle, m, rad, diff, cw), v in zip(triples(c), (le, re)):
            f = c.f
            cen = f("CircleEvent.center", v)
            out += [(f"{side}: no event without a circle", imp(z3.Not(circle), v == null)),
                    (f"{side}: an event exactly when the sites are met clockwise", imp(z3.And(circle, diff), (v != null) == cw)),
                    (f"{side}: a new valid event for the middle arc", imp(v != null, z3.And(c.alive(v), z3.Not(c.alive(v, old=True)), c.isa(v, "CircleEvent"), f("CircleEvent.is_valid", v), f("CircleEvent.arc_pointer", v) == ns[1]))),
                    (f"{side}: at the bottom of the circle through the sites", imp(v != null, z3.And(c.alive(cen), z3.Not(c.alive(cen, old=True)), hasxy(c, cen, False), f(XD, cen) == m[0], f(YD, cen) == m[1], f("CircleEvent.radius", v) == rad, rad >= 0)))]
        recb, rece = le != null, z3.And(re != null, z3.Not(shared))
        out += [("queued: the left event, and the right one unless it is at the same point", fa(r, c.member(q, r) == z3.Or(c.member(q, r, old=True), z3.And(recb, r == le), z3.And(rece, r == re)), c.member(q, r), c.member(q, r, old=True))),
                ("the left middle arc records its event", imp(b != null, c.f(ev, c.o("LeafNode.data", b)) == z3.If(recb, le, c.o(ev, c.o("LeafNode.data", b))))),
                ("the right middle arc records its event", imp(e != null, c.f(ev, c.o("LeafNode.data", e)) == z3.If(rece, re, c.o(ev, c.o("LeafNode.data", e))))),
                ("nothing but debug messages", silent(c, c["self"])), ("the log has a length", c.f("Log.$n", LOG) >= 0)]
        return out

    def samepos2(c, a, b):
        return z3.And(evx(c, a, False) == evx(c, b, False), evy(c, a, False) == evy(c, b, False))

    def cc_mod(c):
        b, e = c["triple_left"][1], c["triple_right"][1]
        return {"$set": [c.o(A + "event_queue", c["self"])], "Arc.circle_event": lambda r: z3.Or(z3.And(b != null, r == c.o("LeafNode.data", b)), z3.And(e != null, r == c.o("LeafNode.data", e))),
                **{k: [LOG] for k in DELIVERED}, **{k: [c["self"]] for k in SENT}}
    add("Algorithm._check_circles", {"triple_left": "tuple[LeafNode?,LeafNode?,LeafNode?]", "triple_right": "tuple[LeafNode?,LeafNode?,LeafNode?]"}, "tuple[CircleEvent?,CircleEvent?]", props=["C08", "C01"],
        allocs=["CircleEvent", "Coordinate"], requires=cc_pre, modifies=cc_mod, ensures=cc_post)

    # ---- the queue of events
    def sites(c, old=False):
        return (c.o if old else c.f)(A + "sites", c["self"])

    def queue(c, old=False):
        return (c.o if old else c.f)(A + "event_queue", c["self"])
    EV, IX, PT = "Point.$ev", "Point.$ix", "SiteEvent.point"
    k, r = z3.Const("k", I), z3.Const("r", Ref)

    def indexed(c, l):
        """(ghost) every site of the list knows its place in it"""
        at = lambda n: c.el(l, n)
        return fa(k, imp(z3.And(0 <= k, k < c.len(l)), at(k) != null, c.alive(at(k)), c.isa(at(k), "Point"), c.f(IX, at(k)) == k, hasxy(c, at(k), False)), at(k))

    def site_of(c, l, p, n):
        """p is one of the first n sites"""
        i = c.f(IX, p)
        return z3.And(0 <= i, i < n, c.el(l, i) == p)

    def is_event_of(c, e, p):
        return z3.And(e != null, c.alive(e), c.isa(e, "SiteEvent"), c.f(PT, e) == p)

    def fresh_state(c):
        s, o = c["self"], c.o
        q = o(A + "event_queue", s)
        none = lambda st: fa(r, z3.Not(c.member(st, r, old=True)), c.member(st, r, old=True))
        return [("an empty queue", none(q)), ("no arcs and no vertices", z3.And(none(o(A + "_arcs", s)), none(o(A + "_vertices", s)))), ("no beach line", o(A + "status_tree", s) == null),
                ("no edges", c.len(o(A + "edges", s), old=True) == 0), ("nothing handled", o(A + "event", s) == null), ("the sweep line above everything", o(A + "sweep_line", s) == INF),
                ("queue, arcs, vertices apart", z3.Distinct(q, o(A + "_arcs", s), o(A + "_vertices", s)))]

    def queued(c, n):
        """the first n sites have an event in the queue, and nothing else is there"""
        l, q = sites(c), queue(c)
        p = c.el(l, k)
        ev = c.f(EV, p)
        pr = c.f(PT, r)
        return [("an event for every site", fa(k, imp(z3.And(0 <= k, k < n), is_event_of(c, ev, p), c.member(q, ev)), p)),
                ("nothing but the sites' events", fa(r, imp(c.member(q, r), is_event_of(c, r, pr), site_of(c, l, pr, n), c.f(EV, pr) == r), c.member(q, r)))]
    add("Algorithm.initialize", {"points": "list[Point]"}, "queue[Event]", props=["C07", "C10"], allocs=["SiteEvent", "list"],
        requires=lambda c: fresh_state(c) + [("the sites are all different and have coordinates", indexed(c, c["points"]))],
        modifies=lambda c: {A + "sites": [c["self"]], "$set": [c.o(A + "event_queue", c["self"])], EV: True},
        inv=[Inv("an event for each of the first sites", {}, lambda c: queued(c, c.k)[0][1]), Inv("nothing else is queued", {}, lambda c: queued(c, c.k)[1][1]),
             Inv("the sites are as given", {}, lambda c: indexed(c, sites(c)))],
        ensures=lambda c: [("the sites are those given", sites(c) == c["points"]), ("returns the queue", c.result == queue(c))] + queued(c, c.len(c["points"], old=True)))

    # ---- a new diagram
    SUBJ = ("_observers", "_children", "_root_sender", "_child_sender")
    add("Algorithm.__init__", {"bounding_poly": "Polygon", "remove_zero_length_edges": "bool"}, "none", props=["C09", "C10", "C13"], allocs=["list", "set", "queue"],
        modifies=lambda c: {**{A + f: [c["self"]] for f in ("bounding_poly", "event_queue", "event", "status_tree", "doubly_connected_edge_list", "sweep_line", "_arcs", "sites", "edges", "_vertices", "remove_zero_length_edges")},
                            **{"Subject." + f: [c["self"], c["bounding_poly"]] for f in SUBJ}},
        ensures=lambda c: (lambda s, f, p: [("the bounding polygon", f(A + "bounding_poly", s) == p), ("removal of zero-length edges as asked", f(A + "remove_zero_length_edges", s) == c["remove_zero_length_edges"]),
                                            ("messages of the polygon come from the diagram", f("Subject._root_sender", p) == s), ("it has the diagram's observers", same_list(c, f("Subject._observers", p), f("Subject._observers", s))),
                                            ("nobody is attached", c.len(f("Subject._observers", s)) == 0), ("the polygon is a child", z3.And(c.len(f("Subject._children", s)) == 1, c.el(f("Subject._children", s), z3.IntVal(0)) == p)),
                                            ("messages come from the diagram itself", f("Subject._root_sender", s) == s)])(c["self"], c.f, c["bounding_poly"]))

    # ---- handling one event: beach.py
    TREE, EDGES = reg.frames

    # ---- finishing (the bodies are not verified as a whole)
    VL = lambda c: {"$len": True, "$E:Ref": True}
    add("Polygon.finish_edges", {"edges": "list[HalfEdge]", "vertices": "set[Vertex]", "points": "list[Point]", "event_queue": "queue[Event]"}, "list[HalfEdge]", trusted=True, virtual=True,
        note="frame of the clipping of the edges", allocs=["list", "Vertex", "Coordinate"], requires=lambda c: [("the log has a length", c.o("Log.$n", LOG) >= 0)],
        modifies=lambda c: {**EDGES, P + "polygon_vertices": [c["self"]], "Vertex.connected_edges": True, **{kk: [LOG] for kk in DELIVERED}, **{kk: [c["self"]] for kk in SENT}}, ensures=lambda c: [("the log has a length", c.f("Log.$n", LOG) >= 0), ("a list of its own", z3.Not(c.alive(c.result, old=True)))])
    add("Polygon.finish_polygon", {"edges": "list[HalfEdge]", "existing_vertices": "set[Vertex]", "points": "list[Point]"}, "tuple[list[HalfEdge],set[Vertex]]", trusted=True, virtual=True,
        note="frame of the border of the polygon", allocs=["list", "HalfEdge", "set"],
        modifies=lambda c: {**EDGES, "$len": [c["edges"]], "$E:Ref": [c["edges"]]}, ensures=lambda c: [("the same list of edges", c.result[0] == c["edges"]), ("a set of its own", z3.Not(c.alive(c.result[1], old=True)))])
    add("Algorithm.clean_up_zero_length_edges", {}, "none", props=["C13"], trusted=True, note="frame of the removal of zero-length edges", allocs=["list"],
        modifies=lambda c: {**EDGES, A + "edges": [c["self"]], "$set": [c.o(A + "_vertices", c["self"])]}, requires=lambda c: [("removal was asked for", c.o(A + "remove_zero_length_edges", c["self"]))])

    # ---- the main loop
    AT_, HN, HE = "$at", A + "$hn", "$he"
    m = z3.Const("m", I)
    NAME, NONAME = "Point.name", "Point.name#n"

    def above(c, p, q):
        """the site p comes before the site q"""
        return z3.Or(c.f(YD, p) > c.f(YD, q), z3.And(c.f(YD, p) == c.f(YD, q), c.f(XD, p) < c.f(XD, q)))

    def pending(c, p):
        return c.member(queue(c), c.f(EV, p))

    def in_queue(c):
        q, l = queue(c), sites(c)
        pr = c.f(PT, r)
        return fa(r, imp(c.member(q, r), r != null, c.alive(r), z3.Or(z3.And(c.isa(r, "CircleEvent"), c.alive(c.f("CircleEvent.center", r)), hasxy(c, c.f("CircleEvent.center", r), False)),
                                                       z3.And(c.isa(r, "SiteEvent"), c.alive(pr), site_of(c, l, pr, c.len(l)), c.f(EV, pr) == r))), c.member(q, r))

    def of_sites(c):
        """the events of the sites"""
        l = sites(c)
        p = c.el(l, k)
        return fa(k, imp(z3.And(0 <= k, k < c.len(l)), is_event_of(c, c.f(EV, p), p)), p)

    def named(c, n):
        l = sites(c)
        p, q2 = c.el(l, k), c.el(l, m)
        rng = lambda i: z3.And(0 <= i, i < c.len(l))
        w = c.el(c["self"], k, Ref, AT_)
        return [("a site that is not waiting has a name below the next one", fa(k, imp(z3.And(rng(k), z3.Not(pending(c, p))), z3.Not(c.f(NONAME, p)), 0 <= c.f(NAME, p), c.f(NAME, p) < n), p)),
                ("every name is used once", fa([k, m], imp(z3.And(rng(k), rng(m), z3.Not(pending(c, p)), z3.Not(pending(c, q2)), c.f(NAME, p) == c.f(NAME, q2)), k == m), (p, q2))),
                ("names follow the order of the sites", fa([k, m], imp(z3.And(rng(k), rng(m), z3.Not(pending(c, p)), z3.Not(pending(c, q2)), above(c, p, q2)), c.f(NAME, p) < c.f(NAME, q2)), (p, q2))),
                ("no waiting site comes before one that was handled", fa([k, m], imp(z3.And(rng(k), rng(m), z3.Not(pending(c, p)), pending(c, q2)), z3.Not(above(c, q2, p))), (p, q2))),
                ("every name was given", fa(k, imp(z3.And(0 <= k, k < n), site_of(c, l, w, c.len(l)), z3.Not(pending(c, w)), c.f(NAME, w) == k), w))]

    def steps(c):
        """one message for each handled event, sent with that event and the sweep line at it"""
        s = c["self"]
        n0, h0 = c.o("Subject.$n", s), c.o(HN, s)
        n = c.f(HN, s) - h0
        e = c.el(s, h0 + (k - n0), Ref, HE)
        return z3.And(n >= 0, c.f("Subject.$n", s) == n0 + n,
                      fa(k, imp(z3.And(n0 <= k, k < n0 + n), c.el(s, k, I, "$sm") == c.x.enum_value("Message", "STEP_FINISHED"), c.el(s, k, Ref, "$se") == e, c.alive(e), z3.Or(z3.And(c.isa(e, "CircleEvent"), c.alive(c.f("CircleEvent.center", e))), z3.And(c.isa(e, "SiteEvent"), c.alive(c.f(PT, e)))), c.el(s, k, R, "$sw") == evy(c, e, False)), c.el(s, k, I, "$sm")))

    def on_handle(x, c, args, named=False):
        """(ghost) the event is handled now"""
        s, e = c["self"], args["event"].e
        n = x.get(HN)[s]
        a = x.get("$E$he:Ref")
        x.put("$E$he:Ref", z3.Store(a, s, z3.Store(a[s], n, e)))
        x.put(HN, z3.Store(x.get(HN), s, n + 1))
        if named:
            p = x.get(PT)[e]
            a = x.get("$E$at:Ref")
            x.put("$E$at:Ref", z3.Store(a, s, z3.Store(a[s], x.get(NAME)[p], p)))

    def on_init(x, c, args):
        """(ghost) the new sites learn their places; they are all different"""
        l = args["points"].e
        n = c.len(l)
        x.oblige("the sites are all different", fa([k, m], imp(z3.And(0 <= k, k < m, m < n), c.el(l, k) != c.el(l, m)), (c.el(l, k), c.el(l, m))), "hint")
        a = x.fresh("ix", z3.ArraySort(Ref, I))
        x.assume(fa(k, imp(z3.And(0 <= k, k < n), a[c.el(l, k)] == k), c.el(l, k)))
        x.put(IX, a)
        # no node is on the (empty) beach line
        a = x.fresh("ghost", z3.ArraySort(Ref, B))
        x.assume(fa(r, z3.Not(a[r]), a[r]))
        x.put("Node.$in", a)

    def new_sites(c):
        l, t = sites(c), c["points"]
        p = c.el(l, k)
        return [("a new site for every point, in the order given", z3.And(z3.Not(c.alive(l, old=True)), c.len(l) == c.len(t, old=True), fa(k, imp(z3.And(0 <= k, k < c.len(l)), z3.Not(c.alive(p, old=True)), hasxy(c, p, False),
                 c.f(XD, p) == c.el(t, k, R, ".0", old=True), c.f(YD, p) == c.el(t, k, R, ".1", old=True)), p)))]

    loopinv = [Inv("events in the queue", {}, in_queue), Inv("events of the sites", {}, of_sites), Inv("the sites are as given", {}, lambda c: indexed(c, sites(c))),
               Inv("one message per event", {}, steps), Inv("the log has a length", {}, lambda c: c.f("Log.$n", LOG) >= 0), Inv("the sites are new", {}, lambda c: (lambda p: fa(k, imp(z3.And(0 <= k, k < c.len(sites(c))), z3.Not(c.alive(p, old=True))), p))(c.el(sites(c), k))),
               Inv("only sites are queued before the first event", {"g": "ref:Point"}, lambda c, g: z3.Or(g != null, fa(r, imp(c.member(queue(c), r), c.isa(r, "SiteEvent")), c.member(queue(c), r))))]
    loopinv += [Inv("sites keep the coordinates of the points", {}, lambda c: new_sites(c)[0][1])]
    loopinv += [Inv(f"names {i}", {"n": "int"}, lambda c, n, i=i: z3.And(n >= 0, named(c, n)[i][1])) for i in range(5)]
    loopinv += [Inv("beach line: " + nm, {}, lambda c, i=i: state(c, c["self"])[i][1]) for i, nm in enumerate(STATE)]

    def cd_post(c):
        s, l = c["self"], sites(c)
        p, q2 = c.el(l, k), c.el(l, m)
        rng = lambda i: z3.And(0 <= i, i < c.len(l))
        n0, h0 = c.o("Subject.$n", s), c.o(HN, s)
        n = c.f(HN, s) - h0
        e = c.el(s, h0 + (k - n0), Ref, HE)
        msg = lambda i: c.el(s, i, I, "$sm")
        M = lambda nm: c.x.enum_value("Message", nm)
        return new_sites(c) + [
            ("every site is named", fa(k, imp(rng(k), z3.Not(c.f(NONAME, p)), c.f(NAME, p) >= 0), p)),
            ("names are all different", fa([k, m], imp(z3.And(rng(k), rng(m), c.f(NAME, p) == c.f(NAME, q2)), k == m), (p, q2))),
            ("a site above another, or at its height and left of it, has the lower name", fa([k, m], imp(z3.And(rng(k), rng(m), above(c, p, q2)), c.f(NAME, p) < c.f(NAME, q2)), (p, q2))),
            ("no name is left out", fa([k, m], imp(z3.And(rng(k), 0 <= m, m < c.f(NAME, p)), (lambda w: z3.And(site_of(c, l, w, c.len(l)), c.f(NAME, w) == m))(c.el(s, m, Ref, AT_))), (p, c.el(s, m, Ref, AT_)))),
            ("one step per handled event, then the sweep is finished, then the diagram", z3.And(n >= 0, c.f("Subject.$n", s) == n0 + n + 2, msg(n0 + n) == M("SWEEP_FINISHED"), msg(n0 + n + 1) == M("VORONOI_FINISHED"),
                fa(k, imp(z3.And(n0 <= k, k < n0 + n), msg(k) == M("STEP_FINISHED"), c.el(s, k, Ref, "$se") == e, c.el(s, k, R, "$sw") == evy(c, e, False)), msg(k))))]

    def cd_mod(c):
        s = c["self"]
        return {**TREE, A + "status_tree": [s], A + "$split": [s], **EDGES, **{A + f: [s] for f in ("event_queue", "event", "sweep_line", "_arcs", "sites", "edges", "_vertices")}, P + "polygon_vertices": [c.o(A + "bounding_poly", s)], "Vertex.connected_edges": True,
                **{kk: [LOG] for kk in DELIVERED}, **{kk: [s, c.o(A + "bounding_poly", s)] for kk in SENT}, "Point.$ev": True, "Point.$ix": True, HN: [s], "$E$he:Ref": [s], "$E$at:Ref": [s]}
    add("Algorithm.create_diagram", {"points": "list[tuple[real,real]]"}, "none", props=["C07", "C08", "C09", "C10", "C13"], allocs=["list", "set", "queue", "Point", "SiteEvent", "Arc", "LeafNode", "InternalNode", "Breakpoint", "HalfEdge", "Vertex", "CircleEvent", "Coordinate"],
        requires=lambda c: [("the log has a length", z3.And(c.o("Log.$n", LOG) >= 0, c.o("Subject.$n", c["self"]) >= 0))], modifies=cd_mod, inv=loopinv,
        before={"Algorithm.initialize": on_init, "Algorithm.handle_site_event": lambda x, c, args: on_handle(x, c, args, True), "Algorithm.handle_circle_event": on_handle}, ensures=cd_post, effort=3)
