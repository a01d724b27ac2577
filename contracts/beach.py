"""The beach line during the sweep: handling of site and circle events.

Ghost state, beside that of the tree: Arc.$leaf - the leaf that holds the arc; CircleEvent.$wl, $wr - a node of the tree to the
left and one to the right of the event's leaf; Algorithm.$split - the leaf a site event replaced; Node.$OH - heights before a change."""
from .base import *
from .tree import Tr, wf, full, isfull, everywhere, alls, elsewhere, avl_pre, relinked, N
from .nodes import evx, evy, evok, site
from .observers import DELIVERED, SENT, LOG, silent

A, P = "Algorithm.", "Polygon."
n, m, r = V("n", "m", "r")
LD, ND, BK, BE, TW, CE, AP, OK_ = "LeafNode.data", "InternalNode.data", "Breakpoint.breakpoint", "Breakpoint.edge", "HalfEdge._twin", "Arc.circle_event", "CircleEvent.arc_pointer", "CircleEvent.is_valid"
LEAF, WL, WR = "Arc.$leaf", "CircleEvent.$wl", "CircleEvent.$wr"


def here(x):
    return C(x, {}, x.heap, x.heap)


def point_ok(c, p, old):
    return z3.And(p != null, c.alive(p, old), c.isa(p, "Point"), hasxy(c, p, old))


def is_leaf(c, q):
    return c.isa(q, "LeafNode")


def beach(c, old=False):
    """every node of the tree holds what it should"""
    t, f = Tr(c, old), (c.o if old else c.f)
    al = lambda q: c.alive(q, old)
    arc, bp = f(LD, n), f(ND, n)
    e = f(BE, bp)
    return [("leaves and inner nodes", fa(n, imp(t.IN(n), c.isa(n, "LeafNode", "InternalNode"), is_leaf(c, n) == (t.L(n) == null)), t.IN(n))),
            ("leaves hold arcs, each its own", fa(n, imp(z3.And(t.IN(n), is_leaf(c, n)), arc != null, al(arc), f(LEAF, arc) == n, point_ok(c, f("Arc.origin", arc), old)), t.IN(n))),
            ("inner nodes hold breakpoints", fa(n, imp(z3.And(t.IN(n), z3.Not(is_leaf(c, n))), bp != null, al(bp), c.isa(bp, "Breakpoint"), point_ok(c, f(BK + ".0", bp), old), point_ok(c, f(BK + ".1", bp), old),
                                                       e != null, al(e), f(TW, e) != null, al(f(TW, e))), t.IN(n)))]


def shape(c, old=False):
    """a well-formed, full, balanced tree whose heights are right"""
    t = Tr(c, old)
    return wf(t) + full(t) + [("heights are right", everywhere(t)), ("balanced", alls(t, t.avl))]


def top(c, root, old=False):
    t = Tr(c, old)
    return z3.And(imp(root == null, fa(n, z3.Not(t.IN(n)), t.IN(n))), imp(root != null, t.IN(root), t.P(root) == null))


def live(c, e, old=False):
    """the event's arc is on the beach line, with something on either side, and knows the event"""
    t, f = Tr(c, old), (c.o if old else c.f)
    l, a, b = f(AP, e), f(WL, e), f(WR, e)
    return z3.And(e != null, l != null, t.IN(l), is_leaf(c, l), f(CE, f(LD, l)) == e, t.IN(a), t.POS(a) < t.POS(l), t.IN(b), t.POS(l) < t.POS(b))


def pending(c, s, old=False):
    f = c.o if old else c.f
    q = f(A + "event_queue", s)
    return fa(r, imp(z3.And(c.member(q, r, old), c.isa(r, "CircleEvent"), f(OK_, r)), live(c, r, old), c.alive(r, old)), c.member(q, r, old))


def state(c, s, old=False):
    """what holds between two events"""
    f = c.o if old else c.f
    q, arcs, vs = f(A + "event_queue", s), f(A + "_arcs", s), f(A + "_vertices", s)
    return shape(c, old) + beach(c, old) + [("the root of the beach line", top(c, f(A + "status_tree", s), old)), ("valid circle events are of arcs on the beach line", pending(c, s, old)),
                                            ("queue, arcs, vertices apart", z3.Distinct(q, arcs, vs)), ("lists and sets exist", z3.And(*[z3.And(z != null, c.alive(z, old)) for z in (q, arcs, vs, f(A + "edges", s))]))]


STATE = ("members are nodes", "left links", "right links", "parent links", "order", "nothing missing on the left", "nothing missing on the right", "subtrees nest on the left", "subtrees nest on the right", "subtrees do not cross",
         "the root covers all", "one place each", "two children", "heights", "balanced", "leaves and inner nodes", "leaves", "inner nodes", "root", "valid circle events", "apart", "exist")


def remap(x, key, when):
    """a ghost field gets new values: when(e, old value) -> new value"""
    e = z3.Const("e", Ref)
    a = x.get(key)
    na = x.fresh("ghost", a.sort())
    x.assume(z3.ForAll([e], z3.Select(na, e) == when(e, z3.Select(a, e)), patterns=[z3.Select(na, e)]))
    x.put(key, na)


def put(x, key, at, v):
    x.put(key, z3.Store(x.get(key), at, v))


def holds(x, *which):
    """(hint) what the nodes hold, at this point"""
    h = here(x)
    for i in which:
        nm, g = beach(h)[i]
        x.oblige(f"hint: {nm}", g, "hint")


def before_balance(x, c, args):
    """the tree was balanced before the change"""
    t = Tr(here(x))
    for nm, g in zip(("off the way", "on the way", "the height here"), avl_pre(t, args["node"].e, split=True)):
        x.oblige(f"hint: before the change, {nm}", g, "hint")


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    PT = "SiteEvent.point"

    # ---- frames
    NODE = ("_left", "_right", "_height", "parent", "$in", "$pos", "$lo", "$hi", "$H", "$OH", "$key")
    TREE = {**{N + f: True for f in NODE}, BK: True, BE: True, CE: True, OK_: True, LEAF: True, WL: True, WR: True}
    EDGES = {"HalfEdge." + f: True for f in ("origin", "incident_point", "_twin", "next", "prev", "removed")} | {"Point.first_edge": True}
    reg.frames = TREE, EDGES

    def handle_mod(c):
        s, o = c["self"], c.o
        own = [o(A + "event_queue", s), o(A + "_arcs", s), o(A + "_vertices", s)]
        l = o(A + "edges", s)
        return {**TREE, **EDGES, A + "status_tree": [s], A + "$split": [s], "$set": own, "$len": [l], "$E:Ref": [l], **{kk: [LOG] for kk in DELIVERED}, **{kk: [s] for kk in SENT}}

    def queue(c, old=False):
        return (c.o if old else c.f)(A + "event_queue", c["self"])

    def more_events(c):
        """the queue has all it had, and new circle events"""
        q = queue(c)
        new = z3.And(r != null, c.alive(r), z3.Not(c.alive(r, old=True)), c.isa(r, "CircleEvent"), c.alive(c.f("CircleEvent.center", r)), hasxy(c, c.f("CircleEvent.center", r), False))
        return [("events are only added", fa(r, imp(c.member(q, r, old=True), c.member(q, r)), c.member(q, r, old=True))),
                ("new circle events only", fa(r, imp(z3.And(c.member(q, r), z3.Not(c.member(q, r, old=True))), new), c.member(q, r))),
                ("nothing but debug messages", silent(c, c["self"])), ("the log has a length", c.f("Log.$n", LOG) >= 0)]
    now = lambda c: [("the sweep line is at the event", c.o(A + "sweep_line", c["self"]) == evy(c, c["event"])), ("the log has a length", c.o("Log.$n", LOG) >= 0)]
    ALLOC = ["list", "Arc", "LeafNode", "InternalNode", "Breakpoint", "HalfEdge", "Vertex", "CircleEvent", "Coordinate"]

    def still(x, c, args):
        """the valid events are still of arcs on the beach line"""
        h = here(x)
        x.oblige("hint: valid circle events are of arcs on the beach line", pending(h, c["self"]), "hint")

    def middles(x, c, args):
        """the new arcs are of no event yet"""
        before_balance(x, c, {"node": x._top})
        h = here(x)
        holds(x, 0, 2)
        x._mark = len(x.facts)
        holds(x, 1)
        still(x, c, args)
        no_events(x, c, args)

    def no_events(x, c, args):
        h = here(x)
        q = h.f(A + "event_queue", c["self"])
        b, d = (args[k].items[1].e for k in ("triple_left", "triple_right"))
        x.oblige("hint: no event of the arcs in the middle", fa(r, imp(z3.And(c.x.get("$set")[q][r], c.isa(r, "CircleEvent"), h.f(OK_, r)), h.f(AP, r) != b, h.f(AP, r) != d, h.f(LD, h.f(AP, r)) != h.f(LD, b), h.f(LD, h.f(AP, r)) != h.f(LD, d)), c.x.get("$set")[q][r]), "hint")

    # ---- a site event
    def split(x, c, args):
        """(ghost) the new nodes take the place of the leaf"""
        al, ro = args["self"].e, args["replacement"].e
        h = here(x)
        t = Tr(h)
        x._top = args["replacement"]
        lo, hi = t.LO(al), t.HI(al)
        x.oblige("hint: nothing else is at the place of the leaf", fa(m, imp(t.IN(m), z3.Or(m == al, t.POS(m) <= lo, t.POS(m) >= hi)), t.IN(m)), "hint")
        q = h.f(A + "event_queue", c["self"])
        x.oblige("hint: no valid event is of the leaf that goes", fa(r, imp(z3.And(c.member(q, r, True), c.isa(r, "CircleEvent"), h.f(OK_, r)), h.f(AP, r) != al, live(h, r)), c.member(q, r, True)), "hint")
        p = [x.fresh("place", R) for _ in range(5)]
        x.assume(z3.And(lo < p[0], *[a < b for a, b in zip(p, p[1:])], p[4] < hi))
        L, M = t.L(ro), t.R(ro)
        if x.decide(t.L(M) != null):
            new = [(ro, 1, lo, hi, 3), (L, 0, lo, p[1], 1), (M, 3, p[1], hi, 2), (t.L(M), 2, p[1], p[3], 1), (t.R(M), 4, p[3], hi, 1)]
        else:
            new = [(ro, 1, lo, hi, 2), (L, 0, lo, p[1], 1), (M, 3, p[1], hi, 1)]
        x.put(N + "$OH", z3.Store(x.get(N + "$H"), ro, z3.IntVal(1)))
        for q, k, a, b, hh in new:
            for key, v in (("$in", z3.BoolVal(True)), ("$pos", p[k]), ("$lo", a), ("$hi", b), ("$H", z3.IntVal(hh))):
                put(x, N + key, q, v)
            if hh == 1:
                put(x, LEAF, h.f(LD, q), q)
        put(x, N + "$in", al, z3.BoolVal(False))
        for key in (WL, WR):
            remap(x, key, lambda e, v: z3.If(v == al, ro, v))
        put(x, A + "$split", c["self"], al)

    def witnesses(x, c, args, ctx):
        """(ghost) the neighbours are to the left and right of the new events' arcs"""
        for tri, e in zip(("triple_left", "triple_right"), ctx.result):
            l, _, rr = ctx[tri]
            put(x, WL, e, l)
            put(x, WR, e, rr)
        x.oblige_since("hint: the valid circle events are still of arcs on the beach line", pending(here(x), c["self"]), x._mark)

    def first_leaf(x, ctx):
        """(ghost) the first site is a tree of its own"""
        s = ctx["self"]
        if x.decide(ctx.o(A + "status_tree", s) == null):
            q = x.get(A + "status_tree")[s]
            lo, p, hi = (x.fresh("place", R) for _ in range(3))
            x.assume(z3.And(lo < p, p < hi))
            for key, v in (("$in", z3.BoolVal(True)), ("$pos", p), ("$lo", lo), ("$hi", hi), ("$H", z3.IntVal(1))):
                put(x, N + key, q, v)
            put(x, LEAF, x.get(LD)[q], q)

    def site_post(c):
        s = c["self"]
        t, o = Tr(c), Tr(c, True)
        al = c.f(A + "$split", s)
        old = c.o(CE, c.o(LD, al))
        first = c.o(A + "status_tree", s) == null
        return state(c, s) + more_events(c) + [
            ("another leaf of the beach line is replaced", imp(z3.Not(first), o.IN(al), is_leaf(c, al), z3.Not(t.IN(al)))),
            ("the circle event of the arc that is split is a false alarm now", imp(z3.And(z3.Not(first), old != null), z3.Not(c.f(OK_, old)))),
            ("everything else stays on the beach line", fa(n, imp(z3.And(o.IN(n), z3.Or(first, n != al)), t.IN(n), t.POS(n) == o.POS(n)), o.IN(n)))]
    add("Algorithm.handle_site_event", {"event": "SiteEvent"}, "none", props=["C05", "C08"], requires=lambda c: now(c) + [("the site has coordinates", point_ok(c, c.o(PT, c["event"]), True))] + state(c, c["self"], True),
        modifies=handle_mod, allocs=ALLOC, before={"Node.replace_leaf": split, "Tree.balance_and_propagate": before_balance, "Algorithm._check_circles": middles}, after={"Algorithm._check_circles": witnesses}, ghost=first_leaf, ensures=site_post, quant=True, effort=2)

    # ---- the breakpoints around an arc that disappears
    def spine(x, c, args):
        """(ghost) the sibling's subtree takes over the place of the parent"""
        p, sib, g = args["self"].e, args["replacement"].e, c["arc_node"]
        t = Tr(here(x))
        x.put(N + "$OH", z3.Store(x.get(N + "$H"), sib, t.H(p)))
        lo, at, hi = t.LO(p), t.POS(p), t.HI(p)
        if x.decide(t.L(p) == g):
            remap(x, N + "$lo", lambda e, v: z3.If(v == at, lo, v))
        else:
            remap(x, N + "$hi", lambda e, v: z3.If(v == at, hi, v))
        put(x, N + "$in", g, z3.BoolVal(False))
        put(x, N + "$in", p, z3.BoolVal(False))

    def ub_req(c):
        t, g = Tr(c, True), c["arc_node"]
        nb = lambda q: z3.And(t.IN(q), is_leaf(c, q))
        return shape(c, True) + beach(c, True) + [("the root", z3.And(t.IN(c["root"]), t.P(c["root"]) == null)), ("a leaf below an inner node", z3.And(t.IN(g), is_leaf(c, g), t.P(g) != null)),
                                                   ("neighbouring leaves", z3.And(nb(c["predecessor"]), nb(c["successor"])))]

    def ub_post(c):
        t, o, g = Tr(c), Tr(c, True), c["arc_node"]
        p = o.P(g)
        root, upd, rem, left, right = c.result
        og = lambda q: c.o("Arc.origin", c.o(LD, q))
        e = c.f(BE, upd)
        lc = o.L(p) == g
        return shape(c) + beach(c) + [
            ("the root", z3.And(root != null, t.IN(root), t.P(root) == null)),
            ("the leaf and its parent are gone, the others stay", fa(n, z3.And(t.IN(n) == z3.And(o.IN(n), n != g, n != p), t.POS(n) == o.POS(n)), t.IN(n), o.IN(n))),
            ("the breakpoint of the parent is removed", z3.And(rem == c.o(ND, p), rem != null)),
            ("the other breakpoint is between the neighbours now", imp(upd != null, c.alive(upd, True), c.isa(upd, "Breakpoint"), c.f(BK + ".0", upd) == og(c["predecessor"]), c.f(BK + ".1", upd) == og(c["successor"]),
                                                                       e != null, c.alive(e, True), c.f(TW, e) != null, c.alive(c.f(TW, e), True))),
            ("left and right", z3.And(imp(lc, left == upd, right == rem), imp(z3.Not(lc), left == rem, right == upd)))]
    BAL = ("_left", "_right", "_height", "parent", "$in", "$lo", "$hi", "$H", "$OH", "$key")
    add("Algorithm._update_breakpoints", {"root": "Node", "sweep_line": "real", "arc_node": "LeafNode", "predecessor": "LeafNode", "successor": "LeafNode"},
        "tuple[Node,Breakpoint?,Breakpoint,Breakpoint?,Breakpoint?]", props=["C05", "C08"], requires=ub_req, ensures=ub_post, quant=True, effort=2,
        modifies=lambda c: {**{N + f: True for f in BAL}, BK: True}, allocs=["InternalNode", "Breakpoint"],
        before={"Node.replace_leaf": spine, "Tree.balance_and_propagate": before_balance})

    # ---- a circle event
    def gone(x, c, args):
        """(ghost) nodes that stay on either side, for the events that spoke of the leaf or its parent"""
        x._nb = (("left", args["predecessor"].e), ("right", args["successor"].e))
        g, t = args["arc_node"].e, Tr(here(x))
        p = t.P(g)
        lc = t.L(p) == g
        was = lambda v: z3.Or(v == g, v == p)
        remap(x, WL, lambda e, v: z3.If(was(v), z3.If(lc, args["predecessor"].e, t.L(p)), v))
        remap(x, WR, lambda e, v: z3.If(was(v), z3.If(lc, t.R(p), args["successor"].e), v))

    def alarms(x, c):
        """the pending events of the two neighbours of the arc are false alarms now"""
        if not getattr(x, "_checked", False):
            return
        for nm, q in x._nb:
            e = c.o(CE, c.o(LD, q))
            x.oblige(f"post: the circle event of the arc to the {nm} is a false alarm", imp(e != null, z3.Not(c.f(OK_, e))), "post")

    def checked(x, c, args, ctx):
        x._checked = True
        witnesses(x, c, args, ctx)

    def updated(x, c, args, ctx):
        """the neighbours stay; so do the valid events"""
        h = here(x)
        t = Tr(h)
        a, b = args["predecessor"].e, args["successor"].e
        ok = lambda q: z3.And(q != null, t.IN(q), is_leaf(h, q))
        x.oblige("hint: the neighbours stay on the beach line", z3.And(ok(a), ok(b)), "hint")
        still(x, c, args)

    def neighbours(x, c, args):
        x._mark = len(x.facts)
        holds(x, 1)
        still(x, c, args)
        no_events(x, c, args)

    def circle_post(c):
        s, e = c["self"], c["event"]
        t, o = Tr(c), Tr(c, True)
        g = c.o(AP, e)
        p = o.P(g)
        vs = c.o(A + "_vertices", s)
        cen = c.o("CircleEvent.center", e)
        return state(c, s) + more_events(c) + [
            ("the arc leaves the beach line, with one breakpoint", fa(n, z3.And(t.IN(n) == z3.And(o.IN(n), n != g, n != p), t.POS(n) == o.POS(n)), t.IN(n), o.IN(n))),
            ("a new vertex is at the centre of the circle", fa(r, imp(c.member(vs, r), z3.Or(c.member(vs, r, True), z3.And(r != null, z3.Not(c.alive(r, True)), c.isa(r, "Vertex"), c.f(XD, r) == c.o(XD, cen), c.f(YD, r) == c.o(YD, cen)))), c.member(vs, r))),
            ("vertices stay", fa(r, imp(c.member(vs, r, True), c.member(vs, r)), c.member(vs, r, True)))]
    add("Algorithm.handle_circle_event", {"event": "CircleEvent"}, "none", props=["C05", "C08", "C03"], quant=True,
        requires=lambda c: now(c) + [("not a false alarm", c.o(OK_, c["event"])), ("no longer in the queue", z3.Not(c.member(queue(c, True), c["event"], True))), ("its arc is on the beach line", live(c, c["event"], True)),
                                     ("the centre has coordinates", z3.And(c.alive(c.o("CircleEvent.center", c["event"]), True), hasxy(c, c.o("CircleEvent.center", c["event"]), True)))] + state(c, c["self"], True),
        modifies=handle_mod, allocs=ALLOC, before={"Algorithm._update_breakpoints": gone, "Algorithm._check_circles": neighbours}, after={"Algorithm._check_circles": checked, "Algorithm._update_breakpoints": updated}, ghost=alarms, ensures=circle_post)
