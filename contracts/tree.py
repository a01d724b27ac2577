"""Node, Tree: order, links and heights.

Ghost fields of a node (they exist only in the proofs): $in - it belongs to the tree; $pos - its place in the
left-to-right order (a real number); ($lo, $hi) - the open interval of places its subtree covers; $H - its true height;
$key - its key at the current sweep position (for nodes whose key is not their data)."""
from .base import *
from pyvc.values import PredV, FuncV
from .graph import bp_ok, bp_at

N = "Node."


class Tr:
    """the tree fields of one heap"""

    def __init__(self, c, old=False):
        f = c.o if old else c.f
        self.array = lambda k: c.arr(k, old)
        g = lambda k: (lambda r: f(N + k, r))
        self.L, self.R, self.P = g("_left"), g("_right"), g("parent")
        self.IN, self.POS, self.LO, self.HI, self.H = g("$in"), g("$pos"), g("$lo"), g("$hi"), g("$H")
        self.OH = g("$OH")
        self.HN, self.HV = g("_height#n"), g("_height")
        self.KEY = lambda r: z3.If(c.isa(r, "LeafNode", "InternalNode"), f(N + "$key", r), f(N + "data", r))
        self.al = lambda r: c.alive(r, old)
        self.c = c

    def hh(self, r):
        return z3.If(r == null, z3.IntVal(0), self.H(r))

    def eqn(self, m):
        return z3.And(self.H(m) >= 1, self.H(m) == 1 + z3.If(self.hh(self.L(m)) > self.hh(self.R(m)), self.hh(self.L(m)), self.hh(self.R(m))),
                      z3.Or(self.HN(m), self.HV(m) == self.H(m)))

    def inside(self, m, n):
        """m is in the subtree of n"""
        return z3.And(self.LO(n) < self.POS(m), self.POS(m) < self.HI(n))

    def bal(self, m):
        return self.hh(self.L(m)) - self.hh(self.R(m))

    def avl(self, m):
        return z3.And(self.bal(m) <= 1, self.bal(m) >= -1)

    def leaf(self, m):
        return z3.And(self.L(m) == null, self.R(m) == null)


def wf(t):
    n, m = V("n", "m")
    IN, L, R_, P, POS, LO, HI = t.IN, t.L, t.R, t.P, t.POS, t.LO, t.HI
    return [
        ("members are nodes", fa(n, imp(IN(n), n != null, t.al(n), t.c.isa(n, "Node")), IN(n))),
        ("left links", fa(n, imp(z3.And(IN(n), L(n) != null), IN(L(n)), P(L(n)) == n, LO(L(n)) == LO(n), HI(L(n)) == POS(n)), L(n))),
        ("right links", fa(n, imp(z3.And(IN(n), R_(n) != null), IN(R_(n)), P(R_(n)) == n, LO(R_(n)) == POS(n), HI(R_(n)) == HI(n)), R_(n))),
        ("parent links", fa(n, imp(z3.And(IN(n), P(n) != null), IN(P(n)), z3.Or(L(P(n)) == n, R_(P(n)) == n)), P(n))),
        ("order", fa(n, imp(IN(n), LO(n) < POS(n), POS(n) < HI(n)), IN(n))),
        ("nothing missing on the left", fa([n, m], imp(z3.And(IN(n), IN(m), L(n) == null), z3.Or(POS(m) <= LO(n), POS(m) >= POS(n))), (L(n), IN(m)))),
        ("nothing missing on the right", fa([n, m], imp(z3.And(IN(n), IN(m), R_(n) == null), z3.Or(POS(m) <= POS(n), POS(m) >= HI(n))), (R_(n), IN(m)))),
        ("subtrees nest on the left", fa([n, m], imp(z3.And(IN(n), IN(m), LO(n) < POS(m), POS(m) < POS(n)), LO(n) <= LO(m), HI(m) <= POS(n)), (IN(n), IN(m)))),
        ("subtrees nest on the right", fa([n, m], imp(z3.And(IN(n), IN(m), POS(n) < POS(m), POS(m) < HI(n)), POS(n) <= LO(m), HI(m) <= HI(n)), (IN(n), IN(m)))),
        ("subtrees do not cross", fa([n, m], imp(z3.And(IN(n), IN(m), POS(m) <= LO(n), HI(m) <= POS(n)), HI(m) <= LO(n)), (IN(n), IN(m)))),
        ("the root covers all", fa([n, m], imp(z3.And(IN(n), P(n) == null, IN(m)), LO(n) < POS(m), POS(m) < HI(n)), (IN(n), IN(m)))),
        ("one place each", fa([n, m], imp(z3.And(IN(n), IN(m), POS(n) == POS(m)), n == m), (IN(n), IN(m)))),
    ]


def trig(t, m):
    """facts about m and its children apply once the children (or the stored height) are spoken of"""
    return t.L(m), t.R(m), t.HV(m)


def full(t):
    n = z3.Const("n", Ref)
    return [("inner nodes have two children", fa(n, imp(t.IN(n), (t.L(n) == null) == (t.R(n) == null)), t.L(n), t.R(n)))]


def relinked(t, s, rep, now=None):
    """the tree as it is now, with the place s had in t given to rep (s may be outside)"""
    q = Tr(t.c)
    now = now or t
    q.__dict__.update(now.__dict__)
    g = t.P(s)
    x = t.c.x
    cache = x.__dict__.setdefault("_relinked", {})
    key = (s.get_id(), rep.get_id(), t.array(N + "_left").get_id(), t.array(N + "parent").get_id(), *[now.array(N + k).get_id() for k in ("_left", "_right", "parent")])
    if key not in cache:
        new = []
        for k, at, v in ((N + "_left", g, z3.If(t.L(g) == s, rep, now.L(g))), (N + "_right", g, z3.If(t.L(g) != s, rep, now.R(g))), (N + "parent", rep, g)):
            a = x.fresh("relinked", x.sort_of(k))
            x.assume(a == z3.If(at == null, now.array(k), z3.Store(now.array(k), at, v)))
            new.append(a)
        cache[key] = (new, s, rep)      # (keeps the terms alive)
    new = cache[key][0]
    q.L, q.R, q.P = [(lambda a: (lambda m: z3.Select(a, m)))(a) for a in new]
    return q


def keeps_full(t, o):
    """inner nodes still have two children, and leaves are the same nodes"""
    n = z3.Const("n", Ref)
    return fa(n, imp(o.IN(n), (t.L(n) == null) == (t.R(n) == null), (t.L(n) == null) == (o.L(n) == null)), t.L(n), t.R(n), o.L(n), o.R(n))


def isfull(t):
    return full(t)[0][1]


def below(t, n, *but):
    """heights are right in the subtree of n, except at the nodes but"""
    m = z3.Const("m", Ref)
    who = z3.And(t.IN(m), t.inside(m, n), *[m != b for b in but])
    return z3.And(fa(m, imp(who, t.eqn(m)), *trig(t, m)), fa(m, imp(who, t.H(m) >= 1), t.H(m)))


def avlbelow(t, n, *but):
    m = z3.Const("m", Ref)
    return fa(m, imp(z3.And(t.IN(m), t.inside(m, n), *[m != b for b in but]), t.avl(m)), *trig(t, m))


def cache_frame(t, o, n, *but):
    """cached heights only change in the subtree of n, to the true height"""
    m = z3.Const("m", Ref)
    return fa(m, z3.Or(*[m == b for b in but], z3.And(t.HN(m) == o.HN(m), t.HV(m) == o.HV(m)), z3.And(o.IN(m), o.inside(m, n), z3.Not(t.HN(m)), t.HV(m) == t.H(m))), t.HN(m), t.HV(m))


def cache_frame_in(t, o, n):
    """stored heights outside the subtree of n are as before"""
    m = z3.Const("m", Ref)
    return fa(m, z3.Or(z3.And(t.HN(m) == o.HN(m), t.HV(m) == o.HV(m)), z3.And(o.IN(m), o.inside(m, n))), t.HN(m), t.HV(m))


def member(c, *names):
    t = Tr(c, True)
    return [(f"{n} is in the tree", t.IN(c[n])) for n in names]


def once(x, f, c):
    """run the ghost code f once on this path"""
    if not getattr(x, "_done", False):
        x._done = True
        f(x, c)


def elsewhere(t, n):
    """heights are right wherever n is not in the subtree"""
    m = z3.Const("m", Ref)
    who = z3.And(t.IN(m), z3.Not(t.inside(n, m)))
    return z3.And(fa(m, imp(who, t.eqn(m)), *trig(t, m)), fa(m, imp(who, t.H(m) >= 1), t.H(m)))


def everywhere(t):
    m = z3.Const("m", Ref)
    return z3.And(fa(m, imp(t.IN(m), t.eqn(m)), *trig(t, m)), fa(m, imp(t.IN(m), t.H(m) >= 1), t.H(m)))


def avl_pre(t, n, split=False):
    """the tree was balanced before its subtree n changed height by at most one (or from a leaf to three levels)"""
    m = z3.Const("m", Ref)
    oh = lambda q: z3.If(q == null, z3.IntVal(0), z3.If(t.inside(n, q), t.OH(q), t.H(q)))
    mx = lambda a, b: z3.If(a > b, a, b)
    hl, hr, S = t.hh(t.L(n)), t.hh(t.R(n)), t.OH(n)
    was = lambda a, b: z3.And(S == 1 + mx(a, b), a - b <= 1, b - a <= 1, a >= 0, b >= 0)
    grew = lambda q, other, h: z3.And(h == 3, q != null, t.bal(q) != 0, other >= 1)
    parts = (fa(m, imp(z3.And(t.IN(m), z3.Not(t.inside(n, m))), t.avl(m)), *trig(t, m)),
                  fa(m, imp(z3.And(t.IN(m), t.inside(n, m), m != n), t.OH(m) == 1 + mx(oh(t.L(m)), oh(t.R(m))), oh(t.L(m)) - oh(t.R(m)) <= 1, oh(t.R(m)) - oh(t.L(m)) <= 1), *trig(t, m)),
                  z3.Or(was(hl, hr), was(hl + 1, hr), was(hl - 1, hr), was(hl, hr + 1), was(hl, hr - 1),
                        z3.And(was(1, hr), grew(t.L(n), hr, hl)), z3.And(was(hl, 1), grew(t.R(n), hl, hr)),
                        z3.And(S == 1, z3.Or(z3.And(hl == 1, hr == 2), z3.And(hl == 2, hr == 1), z3.And(hl == 1, hr == 1)), *[imp(z3.And(t.IN(t.P(n)), t.P(n) != null), t.L(t.P(n)) != null, t.R(t.P(n)) != null)])))
    return parts if split else z3.And(*parts)


def alls(t, f):
    m = z3.Const("m", Ref)
    return fa(m, imp(t.IN(m), f(m)), *trig(t, m))


def T_child(t, o, p, n):
    return z3.If(o.L(p) == n, t.L(p), t.R(p))


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    inv_of = lambda *n: None

    def pre(c, *more):
        return wf(Tr(c, True)) + member(c, "self") + list(more)

    # ---- Node: links
    for nm, side, far in (("minimum", "L", "R"), ("maximum", "R", "L")):
        def mk(nm=nm, left=(nm == "minimum")):
            def inv(c, cur):
                t, s = Tr(c, True), c["self"]
                return z3.And(cur != null, t.IN(cur), t.inside(cur, s), (t.LO(cur) == t.LO(s)) if left else (t.HI(cur) == t.HI(s)))

            def post(c):
                t, s, r = Tr(c, True), c["self"], c.result
                m = z3.Const("m", Ref)
                return [("a node of the subtree", z3.And(r != null, t.IN(r), t.inside(r, s))),
                        ("with no child on that side", (t.L(r) if left else t.R(r)) == null),
                        ("at the end of the subtree", (t.LO(r) == t.LO(s)) if left else (t.HI(r) == t.HI(s))),
                        ("no node of the subtree beyond it", fa(m, imp(z3.And(t.IN(m), t.inside(m, s)), (t.POS(m) >= t.POS(r)) if left else (t.POS(m) <= t.POS(r))), t.IN(m)))]
            add(f"Node.{nm}", {}, "Node", props=["C06"], requires=pre, ensures=post, inv=[Inv("walk", {"cur": "ref:Node"}, inv)])
        mk()
    for nm in ("successor", "predecessor"):
        def mk(nm=nm, right=(nm == "successor")):
            def inv(c, cur):
                t, s = Tr(c, True), c["self"]
                return z3.And(cur != null, t.IN(cur), (t.HI(cur) == t.HI(s)) if right else (t.LO(cur) == t.LO(s)))

            def post(c):
                t, s, r = Tr(c, True), c["self"], c.result
                m = z3.Const("m", Ref)
                after = lambda a, b: (t.POS(a) > t.POS(b)) if right else (t.POS(a) < t.POS(b))
                return [("a leaf of the tree on that side", imp(r != null, t.IN(r), t.leaf(r), after(r, s))),
                        ("no leaf in between", imp(r != null, fa(m, imp(z3.And(t.IN(m), after(m, s), after(r, m)), z3.Not(t.leaf(m))), t.IN(m)))),
                        ("None only at the end", imp(r == null, fa(m, imp(t.IN(m), z3.Not(after(m, s))), t.IN(m))))]
            add(f"Node.{nm}", {}, "Node?", props=["C06"], requires=lambda c: pre(c, *full(Tr(c, True))), ensures=post, inv=[Inv("climb", {"cur": "ref:Node"}, inv)])
        mk()

    # ---- Node: heights
    def hpost(c):
        t, o = Tr(c), Tr(c, True)
        return [("the true height", c.result == t.H(c["self"])), ("stored heights change only to true ones", cache_frame(t, o, c["self"])),
                ("stored heights stay right", below(t, c["self"]))]
    HM = lambda c: {N + "_height": True}
    add("Node.height", {}, "int", props=["C05"], requires=lambda c: pre(c, ("heights below are right", below(Tr(c, True), c["self"]))), modifies=HM, ensures=hpost)
    subs = lambda c: ("heights of the subtrees are right", below(Tr(c, True), c["self"], c["self"]))

    def sub_frame(c):
        t, o = Tr(c), Tr(c, True)
        return [("stored heights change only to true ones", cache_frame(t, o, c["self"])), ("stored heights of the subtrees stay right", below(t, c["self"], c["self"]))]
    add("Node.balance", {}, "int", props=["C05"], requires=lambda c: pre(c, subs(c)), modifies=HM,
        ensures=lambda c: [("height of the left subtree minus height of the right one", c.result == Tr(c).bal(c["self"]))] + sub_frame(c))
    add("Node.calculate_height", {}, "int", props=["C05"], requires=lambda c: pre(c, subs(c)), modifies=HM,
        ensures=lambda c: (lambda t, s: [("one more than the higher subtree", z3.And(c.result >= 1, c.result == 1 + z3.If(t.hh(t.L(s)) > t.hh(t.R(s)), t.hh(t.L(s)), t.hh(t.R(s)))))])(Tr(c), c["self"])
        + [("the node's own stored height is unchanged", z3.And(c.f(N + "_height#n", c["self"]) == c.o(N + "_height#n", c["self"]), c.f(N + "_height", c["self"]) == c.o(N + "_height", c["self"])))]
        + sub_frame(c))
    def uh_ghost(x, c):
        t, s = Tr(c), c["self"]
        h = x.fresh("height", z3.IntSort())
        x.assume(h == 1 + z3.If(t.hh(t.L(s)) > t.hh(t.R(s)), t.hh(t.L(s)), t.hh(t.R(s))))
        x.put(N + "$H", z3.Store(x.get(N + "$H"), s, h))
    add("Node.update_height", {}, "none", props=["C05"], requires=lambda c: pre(c, subs(c)), modifies=lambda c: {N + "_height": True, N + "$H": [c["self"]]},
        ghost=uh_ghost,
        ensures=lambda c: (lambda t, o, s: [("the stored height is the true one", z3.And(z3.Not(t.HN(s)), t.HV(s) == t.H(s))),
                                            ("stored heights below are right", below(t, s)), ("stored heights change only to true ones", cache_frame(t, o, s, s))])(Tr(c), Tr(c, True), c["self"]))

    # ---- rotations
    def rot(nm, left):
        def y_of(c):
            o = Tr(c, True)
            return (o.R if left else o.L)(c["z"])

        def req(c):
            t, z = Tr(c, True), c["z"]
            y = (t.R if left else t.L)(z)
            return wf(t) + member(c, "z") + [("there is a child to rotate up", y != null), ("heights below are right", below(t, z, z, y))]

        def mod(c):
            o, z = Tr(c, True), c["z"]
            y = y_of(c)
            mid = (o.L if left else o.R)(y)
            g = o.P(z)
            return {N + "_left": [z, y, g], N + "_right": [z, y, g], N + "parent": [z, y, mid], N + "_height": True, N + "$H": [z, y], N + "$lo": [z, y], N + "$hi": [z, y]}

        def ghost(x, c, end=True):
            o, z = Tr(c, True), c["z"]
            y = y_of(c)
            for k, a, b in (("$lo", o.LO(z), o.LO(z) if left else o.POS(y)), ("$hi", o.HI(z), o.POS(y) if left else o.HI(z))):
                x.put(N + k, z3.Store(z3.Store(x.get(N + k), y, a), z, b))
        hook = {"Node.update_height": lambda x, c, args: once(x, ghost, c)}

        def post(c):
            t, o, z = Tr(c), Tr(c, True), c["z"]
            y = y_of(c)
            g = o.P(z)
            return [("the child comes up", z3.And(c.result == y, (t.L if left else t.R)(y) == z, (t.R if left else t.L)(y) == (o.R if left else o.L)(y))),
                    ("the middle subtree changes sides", z3.And((t.R if left else t.L)(z) == (o.L if left else o.R)(y), (t.L if left else t.R)(z) == (o.L if left else o.R)(z))),
                    ("the parent points to the new root of the subtree", z3.And(t.P(y) == g, imp(g != null, t.L(g) == z3.If(o.L(g) == z, y, o.L(g)), t.R(g) == z3.If(o.L(g) == z, o.R(g), y)))),
                    ("it covers the same interval", z3.And(t.LO(y) == o.LO(z), t.HI(y) == o.HI(z))),
                    ("heights of the subtree are right", below(t, y)), ("stored heights change only to true ones", cache_frame(t, o, z, z, y)),
                    ("inner nodes keep two children", imp(z3.And(isfull(o), (o.L if left else o.R)(y) != null), keeps_full(t, o)))] + wf(t)
        add(f"Tree.{nm}", {"z": "Node"}, "Node", props=["C05", "C18"], requires=req, modifies=mod, ghost=lambda x, c: once(x, ghost, c), before=hook, ensures=post)
    rot("rotate_left", True)
    rot("rotate_right", False)

    # ---- rebalancing
    def bal_mod(c, n, up=False):
        o = Tr(c, True)
        s = c[n]
        ins = lambda r: z3.And(o.IN(r), o.inside(r, s))
        anc = lambda r: z3.And(o.IN(r), o.inside(s, r))
        if up:      # also everything on the way to the root and beside it
            return {N + "_left": lambda r: o.IN(r), N + "_right": lambda r: o.IN(r), N + "parent": lambda r: o.IN(r), N + "_height": True, N + "$H": lambda r: o.IN(r),
                    N + "$lo": lambda r: o.IN(r), N + "$hi": lambda r: o.IN(r)}
        return {N + "_left": lambda r: z3.Or(ins(r), r == o.P(s)), N + "_right": lambda r: z3.Or(ins(r), r == o.P(s)), N + "parent": ins, N + "_height": True,
                N + "$H": ins, N + "$lo": ins, N + "$hi": ins}

    def bal_post(c):
        t, o, s, r = Tr(c), Tr(c, True), c["node"], c.result
        m = z3.Const("m", Ref)
        ob = o.bal(s)
        pre = z3.And(avlbelow(o, s, s), ob <= 2, ob >= -2)
        heavy = z3.If(ob > 0, o.L(s), o.R(s))
        drop = z3.And(z3.Or(ob == 2, ob == -2), o.bal(heavy) != 0)
        return [("the new root of the subtree", z3.And(r != null, t.IN(r), t.P(r) == o.P(s), t.LO(r) == o.LO(s), t.HI(r) == o.HI(s))),
                ("heights of the subtree are right", below(t, r)), ("stored heights change only to true ones", cache_frame_in(t, o, s)),
                ("it is balanced if it was nearly so", imp(pre, avlbelow(t, r))),
                ("inner nodes keep two children", imp(isfull(o), keeps_full(t, o))),
                ("nothing to do", imp(z3.And(ob <= 1, ob >= -1), r == s, t.bal(r) == ob)),
                ("its height", imp(pre, t.H(r) == z3.If(drop, o.H(s) - 1, o.H(s))))] + wf(t)
    add("Tree.balance", {"node": "Node"}, "Node", props=["C05", "C18"],
        requires=lambda c: wf(Tr(c, True)) + member(c, "node") + [("heights are right", below(Tr(c, True), c["node"]))],
        modifies=lambda c: bal_mod(c, "node"), ensures=bal_post)

    add("Node.update_heights", {}, "none", props=["C05"], requires=lambda c: pre(c, ("heights are right except on the way to the root", elsewhere(Tr(c, True), c["self"]))),
        modifies=lambda c: (lambda o, s: {N + "_height": True, N + "$H": lambda r: z3.And(o.IN(r), o.inside(s, r))})(Tr(c, True), c["self"]),
        ensures=lambda c: [("all heights are right", everywhere(Tr(c)))])

    def bp_hint(x, c, args):
        o, t = Tr(c, True), Tr(c)
        P, r, n = avl_pre(o, c["node"]), T_child(t, o, args["node"].e, c["node"]), c["node"]
        x.oblige("hint: height of the balanced subtree", imp(P, z3.Or(t.H(r) == o.OH(n), t.H(r) == o.OH(n) - 1, t.H(r) == o.OH(n) + 1, z3.And(o.OH(n) == 1, t.H(r) == 3, t.bal(r) != 0))), "hint")
        for nm, g in zip(("off the way", "on the way", "the height at the next node"), avl_pre(t, args["node"].e, split=True)):
            x.oblige(f"hint: {nm}", imp(P, g), "hint")

    def b_hint(x, c, args):
        o, t = Tr(c, True), Tr(c)
        P, n = avl_pre(o, c["node"]), args["node"].e
        x.oblige("hint: balanced below", imp(P, avlbelow(t, n, n), t.bal(n) <= 2, t.bal(n) >= -2), "hint")
        x.oblige("hint: height changed by at most one", imp(P, z3.Or(t.H(n) == t.OH(n), t.H(n) == t.OH(n) - 1, t.H(n) == t.OH(n) + 1, z3.And(t.OH(n) == 1, t.H(n) == 3, t.bal(n) != 0),
                                                                              z3.And(t.H(n) == t.OH(n) + 2, z3.Or(t.bal(n) == 2, t.bal(n) == -2), t.bal(z3.If(t.bal(n) > 0, t.L(n), t.R(n))) != 0))), "hint")
    add("Tree.balance_and_propagate", {"node": "Node"}, "Node", props=["C05", "C18"],
        requires=lambda c: wf(Tr(c, True)) + member(c, "node") + [("heights are right except on the way to the root", elsewhere(Tr(c, True), c["node"]))],
        modifies=lambda c: bal_mod(c, "node", True), before={"Tree.balance_and_propagate": bp_hint, "Tree.balance": b_hint},
        ensures=lambda c: (lambda t, o: [("the root of the tree", z3.And(c.result != null, t.IN(c.result), t.P(c.result) == null)), ("all heights are right", everywhere(t)),
                                         ("balanced if the change was small", imp(avl_pre(o, c["node"]), alls(t, t.avl))),
                                         ("inner nodes keep two children", imp(isfull(o), keeps_full(t, o)))] + wf(t))(Tr(c), Tr(c, True)))

    def rl_req(c):
        t, s, rep = Tr(c, True), c["self"], c["replacement"]
        q = relinked(t, s, rep)
        g = t.P(s)
        return [("the place of the node is known", imp(g != null, t.IN(g), z3.Or(t.L(g) == s, t.R(g) == s), t.L(g) != t.R(g))),
                ("replacement is not the parent", z3.And(imp(rep != null, rep != g, t.IN(rep)), s != rep, s != null)),
                ("heights are right except on the way to the root", imp(z3.Or(rep != null, g != null), elsewhere(q, z3.If(rep != null, rep, g))))] + [("(after replacement) " + n, f) for n, f in wf(q)]

    def rl_post(c):
        t, o, s, rep = Tr(c), Tr(c, True), c["self"], c["replacement"]
        g = o.P(s)
        q = relinked(o, s, rep)
        m = z3.Const("m", Ref)
        return [("the root", c.result == z3.If(g == null, rep, c["root"])),
                ("the parent points to the replacement", imp(g != null, t.L(g) == q.L(g), t.R(g) == q.R(g))),
                ("the replacement points to the parent", imp(rep != null, t.P(rep) == g)),
                ("all heights are right", imp(z3.Or(rep != null, g != null), everywhere(t))), ("inner nodes have two children if they would", imp(isfull(q), isfull(t)))] + [("(afterwards) " + n, f) for n, f in wf(t)]
    add("Node.replace_leaf", {"replacement": "Node?", "root": "Node?"}, "Node?", props=["C05"], requires=rl_req, ensures=rl_post,
        modifies=lambda c: (lambda o, s, rep: (lambda g: {N + "_left": [g], N + "_right": [g], N + "parent": [rep], N + "_height": True,
                                                          N + "$H": lambda r: z3.And(o.IN(r), o.inside(z3.If(rep != null, rep, g), r))})(o.P(s)))(Tr(c, True), c["self"], c["replacement"]))

    # ---- look-up by key
    add("Node.get_key", {}, "real", virtual=True, trusted=True, note="get_key is a function of the node and the sweep position (the bodies of InternalNode.get_key and LeafNode.get_key are proved not to change anything)",
        ensures=lambda c: [("the key", c.result == Tr(c, True).KEY(c["self"]))])
    add("InternalNode.get_key", {"sweep_line": "real"}, "real", props=["C06", "C16"], allocs=["Coordinate"],
        requires=lambda c: (lambda b: [("sites on or above the sweep line", bp_ok(c, b, c["sweep_line"]))])(c.o("InternalNode.data", c["self"])),
        ensures=lambda c: (lambda b: [("x of the breakpoint", z3.Exists([z3.Const("by", R)], bp_at(c, b, c["sweep_line"], (z3.BoolVal(True), z3.RealVal(0)), c.result, z3.Const("by", R))))])(c.o("InternalNode.data", c["self"])))
    add("LeafNode.get_key", {"sweep_line": "real?"}, "real?", props=["C06"],
        ensures=lambda c: (lambda s: [("x of the site", z3.And(opt(c.rv)[0] == c.o(XN, s), opt(c.rv)[1] == c.o(XD, s)))])(c.o("Arc.origin", c.o("LeafNode.data", c["self"]))))

    def sub(t, root, m):
        return z3.And(t.IN(m), t.inside(m, root))

    def look_req(c):
        t, root = Tr(c, True), c["root"]
        n, m = V("n", "m")
        return wf(t) + [("the root is in the tree", imp(root != null, t.IN(root)))]

    def mono(t, inner=False):
        n, m = V("n", "m")
        ok = (lambda q: z3.Not(t.leaf(q))) if inner else (lambda q: z3.BoolVal(True))
        return ("keys are in order", fa([n, m], imp(z3.And(t.IN(n), t.IN(m), ok(n), ok(m), t.POS(n) < t.POS(m)), t.KEY(n) <= t.KEY(m)), (t.IN(n), t.IN(m))))

    def find_inv(c, node):
        t, root = Tr(c, True), c["root"]
        m = z3.Const("m", Ref)
        return z3.And(imp(node != null, root != null, sub(t, root, node), t.LO(root) <= t.LO(node), t.HI(node) <= t.HI(root)),
                      fa(m, imp(z3.And(root != null, sub(t, root, m), z3.Not(z3.And(node != null, t.inside(m, node)))), t.KEY(m) != c["key"]), t.IN(m)))
    add("Tree.find", {"root": "Node?", "key": "real"}, "Node?", props=["C18"], requires=lambda c: look_req(c) + [mono(Tr(c, True))],
        inv=[Inv("walk", {"node": "ref:Node"}, find_inv)],
        ensures=lambda c: (lambda t, m: [("a node with that key", imp(c.result != null, c["root"] != null, sub(t, c["root"], c.result), t.KEY(c.result) == c["key"])),
                                         ("None only if there is none", imp(z3.And(c["root"] != null, c.result == null), fa(m, imp(sub(t, c["root"], m), t.KEY(m) != c["key"]), t.IN(m))))])(Tr(c, True), z3.Const("m", Ref)))

    def leaf_inv(c, node):
        t, root = Tr(c, True), c["root"]
        return z3.And(imp(node != null, root != null, sub(t, root, node), t.LO(root) <= t.LO(node), t.HI(node) <= t.HI(root)), imp(root != null, node != null))

    def leaf_keys(c, node):
        t, root = Tr(c, True), c["root"]
        m = z3.Const("m", Ref)
        return imp(mono(t, True)[1], fa(m, imp(z3.And(sub(t, root, m), z3.Not(t.leaf(m)), t.POS(m) <= t.LO(node)), t.KEY(m) < c["key"]), *trig(t, m)),
                   fa(m, imp(z3.And(sub(t, root, m), z3.Not(t.leaf(m)), t.POS(m) >= t.HI(node)), t.KEY(m) > c["key"]), *trig(t, m)))

    def leaf_post(c):
        t, root, r, key = Tr(c, True), c["root"], c.result, c["key"]
        m, k = V("m", "k")
        inner = lambda q: z3.And(sub(t, root, q), z3.Not(t.leaf(q)))
        ordered = mono(t, True)[1]
        return [("a leaf of the tree", imp(root != null, r != null, sub(t, root, r), t.leaf(r))),
                ("left of every larger key", imp(z3.And(root != null, ordered), fa(m, imp(z3.And(inner(m), t.KEY(m) > key), t.POS(r) < t.POS(m)), t.IN(m)))),
                ("right of every smaller key", imp(z3.And(root != null, ordered), fa(m, imp(z3.And(inner(m), t.KEY(m) < key), t.POS(r) > t.POS(m)), t.IN(m)))),
                ("directly left of the breakpoint on a tie", imp(z3.And(root != null, ordered), fa(m, imp(z3.And(inner(m), t.KEY(m) == key), z3.Exists([k], z3.And(inner(k), t.KEY(k) == key, t.HI(r) == t.POS(k)))), t.IN(m))))]
    add("Tree.find_leaf_node", {"root": "Node?", "key": "real"}, "Node?", props=["C06"], requires=lambda c: look_req(c) + full(Tr(c, True)),
        inv=[Inv("walk", {"node": "ref:Node"}, leaf_inv), Inv("keys beside the walk", {"node": "ref:Node"}, leaf_keys)], ensures=leaf_post)

    def plain(c, m):
        return tag(m) == c.x.prog.class_ids["Node"]

    def fv_match(c, m):
        p, q = c.val("compare"), c["query"]
        data = lambda k: z3.If(c.isa(k, "LeafNode"), c.o("LeafNode.data", k), c.o("InternalNode.data", k))
        return z3.If(plain(c, q), p.at(c.o(N + "data", m), c.o(N + "data", q)), p.at(data(m), data(q)))
    def fv_return(x, c):
        """the node found is one that matches: for a function of the caller's, what it says of that node holds"""
        f = c.val("compare")
        if isinstance(f, FuncV) and x.decide(c.result != null):
            t = x.truth(x.call(f, [x.getattr(c.rv, "data"), x.getattr(c.val("query"), "data")], {}))
            x.assume(t if z3.is_expr(t) else z3.BoolVal(bool(t)))
    if True:
        def fv_post(c):
            t, root, r, q, w = Tr(c, True), c["root"], c.result, c["query"], c["w"]
            if not isinstance(c.val("compare"), PredV):
                return [("a node of the subtree", imp(r != null, root != null, sub(t, root, r)))]
            return [("a node with the key that matches", imp(r != null, root != null, sub(t, root, r), t.KEY(r) == t.KEY(q), fv_match(c, r))),
                    ("found if there is one", imp(z3.And(root != null, w != null, sub(t, root, w), t.KEY(w) == t.KEY(q), fv_match(c, w)), r != null))]
        add("Tree.find_value", {"root": "Node?", "query": "Node", "compare": "pred"}, "Node?", props=["C18"], logical={"w": Ref},
            requires=lambda c: look_req(c) + [("all plain nodes or all beach-line nodes", (lambda t, m: fa(m, imp(t.IN(m), plain(c, m) == plain(c, c["query"])), t.IN(m)))(Tr(c, True), z3.Const("m", Ref)))],
            ensures=fv_post, on_return=fv_return)

    # ---- insert and delete (trees of plain nodes, whose key is their data)
    def plainset(t, *more):
        m = z3.Const("m", Ref)
        return ("plain nodes", z3.And(fa(m, imp(t.IN(m), plain(t.c, m)), t.IN(m)), *[plain(t.c, q) for q in more]))

    def link_new(x, c, args=None):
        """ghost: the new node, just linked below root, gets its place in the order"""
        t, root, n = Tr(c), c["root"], c["node"]
        if getattr(x, "_linked", False):
            return
        x._linked = True
        for left in (True, False):
            ch = (t.L if left else t.R)(root)
            if x.decide(z3.And(root != null, ch == n, z3.Not(t.IN(n)))):
                lo, hi = (t.LO(root), t.POS(root)) if left else (t.POS(root), t.HI(root))
                for k, v in (("$in", z3.BoolVal(True)), ("$pos", (lo + hi) / 2), ("$lo", lo), ("$hi", hi), ("$H", z3.IntVal(1))):
                    x.put(N + k, z3.Store(x.get(N + k), n, v))
                return

    def ins_req(c):
        t, root, n = Tr(c, True), c["root"], c["node"]
        m = z3.Const("m", Ref)
        return wf(t) + [("the root is in the tree", imp(root != null, t.IN(root))), plainset(t, n), mono(t),
                        ("a new node", z3.And(z3.Not(t.IN(n)), t.L(n) == null, t.R(n) == null, z3.Or(t.HN(n), t.HV(n) == 1))),
                        ("its key belongs into this subtree", imp(root != null, fa(m, imp(z3.And(t.IN(m), t.POS(m) <= t.LO(root)), t.KEY(m) <= t.KEY(n)), t.IN(m)),
                                                                  fa(m, imp(z3.And(t.IN(m), t.POS(m) >= t.HI(root)), t.KEY(m) >= t.KEY(n)), t.IN(m)))),
                        ("heights are right", imp(root != null, below(t, root)))]

    def ins_hint(x, c, args):
        t, o, root = Tr(c), Tr(c, True), c["root"]
        for side, ch in (("left", t.L(root)), ("right", t.R(root))):
            och = (o.L if side == "left" else o.R)(root)
            x.oblige(f"hint: {side} subtree", imp(avlbelow(o, root), imp(ch != null, avlbelow(t, ch)), z3.Or(t.hh(ch) == o.hh(och), t.hh(ch) == o.hh(och) + 1)), "hint")
        x.oblige("hint: one side grew", imp(avlbelow(o, root), z3.Or(t.hh(t.L(root)) == o.hh(o.L(root)), t.hh(t.R(root)) == o.hh(o.R(root)))), "hint")
        x.oblige("hint: balanced below", imp(avlbelow(o, root), avlbelow(t, root, root)), "hint")
        x.oblige("hint: root", imp(avlbelow(o, root), z3.Or(t.H(root) == o.H(root), t.H(root) == o.H(root) + 1), t.bal(root) <= 2, t.bal(root) >= -2,
                                   imp(z3.Or(t.bal(root) == 2, t.bal(root) == -2), t.H(root) == o.H(root) + 1)), "hint")

    def ins_post(c):
        t, o, root, n, r = Tr(c), Tr(c, True), c["root"], c["node"], c.result
        m = z3.Const("m", Ref)
        some = lambda *a: imp(root != null, *a)
        return [("into the empty tree", imp(root == null, r == n, fa(m, t.IN(m) == o.IN(m), t.IN(m)))),
                ("exactly the node is added", some(fa(m, t.IN(m) == z3.Or(o.IN(m), m == n), t.IN(m), o.IN(m)))),
                ("in this subtree", some(t.inside(n, root) if False else z3.And(o.LO(root) < t.POS(n), t.POS(n) < o.HI(root)))),
                ("root of the subtree", some(r != null, t.IN(r), t.P(r) == o.P(root), t.LO(r) == o.LO(root), t.HI(r) == o.HI(root))),
                ("stored heights elsewhere are as before", fa(m, z3.Or(z3.And(t.HN(m) == o.HN(m), t.HV(m) == o.HV(m)), z3.And(root != null, z3.Or(m == n, z3.And(o.IN(m), o.inside(m, root))))), t.HN(m), t.HV(m))),
                ("heights are right", some(below(t, r))), ("keys are in order", some(mono(t)[1])),
                ("stays balanced", some(imp(avlbelow(o, root), avlbelow(t, r), z3.Or(t.H(r) == o.H(root), t.H(r) == o.H(root) + 1))))] + [(a, some(b)) for a, b in wf(t)]

    def sub_mod(c, node=None, extra=()):
        o, root = Tr(c, True), c["root"]
        ins = lambda r: z3.And(root != null, o.IN(r), o.inside(r, root))
        up = lambda r: z3.And(root != null, r == o.P(root))
        me = (lambda r: z3.And(root != null, r == node)) if node is not None else (lambda r: z3.BoolVal(False))
        return {N + "_left": lambda r: z3.Or(ins(r), up(r)), N + "_right": lambda r: z3.Or(ins(r), up(r)), N + "parent": lambda r: z3.Or(ins(r), me(r)), N + "_height": True,
                N + "$H": lambda r: z3.Or(ins(r), me(r)), N + "$lo": lambda r: z3.Or(ins(r), me(r)), N + "$hi": lambda r: z3.Or(ins(r), me(r)),
                N + "$in": me if node is not None else ins, N + "$pos": me}
    add("Tree.insert", {"root": "Node?", "node": "Node"}, "Node", props=["C18", "C05"], requires=ins_req, modifies=lambda c: ins_mod(c),
        before={"Node.update_height": link_new, "Tree.balance": ins_hint}, ensures=ins_post)

    def ins_mod(c):
        n = c["node"]
        m = sub_mod(c, n)
        w = lambda f: (lambda r: z3.Or(f(r), z3.And(c["root"] != null, r == n)))
        return {k: (v if v is True or k in (N + "$in", N + "$pos") else w(v)) for k, v in m.items()}

    def del_req(c):
        t, root = Tr(c, True), c["root"]
        return wf(t) + [("the root is in the tree", imp(root != null, t.IN(root))), plainset(t), mono(t), ("heights are right", imp(root != null, below(t, root)))]

    def SRC(c):
        return lambda r: c.f(N + "$src", r)

    def del_post(c):
        o, root, r, key = Tr(c, True), c["root"], c.result, c["key"]
        now = Tr(c)
        t = relinked(o, root, r, now)
        gone, hit, src = c.f(N + "$gone", null), c.f(N + "$hit", null), SRC(c)
        m, n = V("m", "n")
        insub = lambda q: z3.And(o.IN(q), o.inside(q, root))
        some = lambda *a: imp(root != null, *a)
        has = gone != null
        return [("empty", imp(root == null, r == null, gone == null)),
                ("nothing removed only if no node has the key", some(imp(gone == null, fa(m, imp(insub(m), o.KEY(m) != key), o.IN(m))))),
                ("exactly one node is removed", some(fa(m, t.IN(m) == z3.And(o.IN(m), m != gone), t.IN(m), o.IN(m)), imp(has, insub(gone)))),
                ("it held the key, or its key moved up", some(imp(has, insub(hit), o.KEY(hit) == key))),
                ("every other key stays", some(fa(m, imp(z3.And(insub(m), m != gone), insub(src(m)), t.KEY(m) == o.KEY(src(m)), imp(has, src(m) != hit)), src(m)))),
                ("and is kept by one node only", some(fa([m, n], imp(z3.And(insub(m), insub(n), m != gone, n != gone, src(m) == src(n)), m == n), (src(m), src(n))))),
                ("root of what is left", some(imp(r != null, t.IN(r), t.P(r) == o.P(root), t.LO(r) == o.LO(root), t.HI(r) == o.HI(root)),
                                              imp(r == null, fa(m, imp(t.IN(m), z3.Not(z3.And(o.LO(root) < t.POS(m), t.POS(m) < o.HI(root)))), t.IN(m))))),
                ("stored heights elsewhere are as before", fa(m, z3.Or(z3.And(t.HN(m) == o.HN(m), t.HV(m) == o.HV(m)), z3.And(root != null, insub(m))), t.HN(m), t.HV(m))),
                ("the new root is linked upwards", some(imp(r != null, now.P(r) == o.P(root)))),
                ("keys are in order", some(mono(t)[1])), ("keys elsewhere are as before", fa(m, imp(z3.Not(z3.And(root != null, insub(m))), t.KEY(m) == o.KEY(m)), c.f(N + "data", m))),
                ("heights are right", some(imp(r != null, below(t, r)))),
                ("stays balanced", some(imp(avlbelow(o, root), imp(r != null, avlbelow(t, r)), z3.Or(t.hh(r) == o.H(root), t.hh(r) == o.H(root) - 1))))] + [("(once linked) " + a, some(b)) for a, b in wf(t)]

    def del_ghost(x, c):
        o, root, key = Tr(c, True), c["root"], c["key"]
        if x.decide(root == null):
            x.put(N + "$gone", z3.Store(x.get(N + "$gone"), null, null))
            return
        m = z3.Const("m", Ref)
        ident = lambda cond, other: src_set(x, cond, other)
        if x.decide(o.KEY(root) == key):
            if x.decide(z3.Or(o.L(root) == null, o.R(root) == null)):
                # removed here: the only child takes over
                lo, hi = x.get(N + "$lo"), x.get(N + "$hi")
                for k, a, v in (("$lo", lo, o.LO(root)), ("$hi", hi, o.HI(root))):
                    na = x.fresh("spine", a.sort())
                    x.assume(z3.ForAll([m], z3.Select(na, m) == z3.If(z3.And(o.IN(m), o.inside(m, root), m != root, z3.Select(a, m) == o.POS(root)), v, z3.Select(a, m)), patterns=[z3.Select(na, m)]))
                    x.put(N + k, na)
                x.put(N + "$in", z3.Store(x.get(N + "$in"), root, z3.BoolVal(False)))
                x.put(N + "$gone", z3.Store(x.get(N + "$gone"), null, root))
                x.put(N + "$hit", z3.Store(x.get(N + "$hit"), null, root))
                src_set(x, lambda q: z3.BoolVal(False), None)
                return
            # the key of the next node moved up to the root
            h = z3.Select(x.get(N + "$hit"), null)
            insub = lambda q: z3.And(o.IN(q), o.LO(o.R(root)) < o.POS(q), o.POS(q) < o.HI(o.R(root)))
            src_set(x, insub, {root: h})
            x.put(N + "$hit", z3.Store(x.get(N + "$hit"), null, root))
            return
        ch = o.L(root) if x.decide(key < o.KEY(root)) else o.R(root)
        src_set(x, lambda q: z3.And(ch != null, o.IN(q), o.LO(ch) < o.POS(q), o.POS(q) < o.HI(ch)), None)

    def src_set(x, keep, more):
        """$src: as the recursive call left it where keep, else the node itself"""
        m = z3.Const("m", Ref)
        a = x.get(N + "$src")
        na = x.fresh("src", a.sort())
        e = z3.If(keep(m), z3.Select(a, m), m)
        for k, v in (more or {}).items():
            e = z3.If(m == k, v, e)
        x.assume(z3.ForAll([m], z3.Select(na, m) == e, patterns=[z3.Select(na, m)]))
        x.put(N + "$src", na)

    def linked(x, arrays, what, cond=True):
        x.oblige("hint: linked" + what, imp(cond, *[a == x.get(N + k) for a, k in zip(arrays, ("_left", "_right", "parent"))]), "hint")

    def del_hook(x, c, args):
        rs = list(x.__dict__.get("_relinked", {}).values())
        if rs and not getattr(x, "_adopted", False):
            x._adopted = True
            if x.decide(rs[-1][1] != null):
                linked(x, rs[-1][0], " to the new subtree")
                # the arrays are proved equal: go on with the ones the callee's contract speaks of
                for k, a in zip(("_left", "_right", "parent"), rs[-1][0]):
                    x.put(N + k, a)

    def del_hint(x, c, args):
        t, o, root = Tr(c), Tr(c, True), c["root"]
        A = avlbelow(o, root)
        for side, ch in (("left", t.L(root)), ("right", t.R(root))):
            och = (o.L if side == "left" else o.R)(root)
            x.oblige(f"hint: {side} subtree", imp(A, imp(ch != null, avlbelow(t, ch)), z3.Or(t.hh(ch) == o.hh(och), t.hh(ch) == o.hh(och) - 1)), "hint")
        x.oblige("hint: one side shrank", imp(A, z3.Or(t.hh(t.L(root)) == o.hh(o.L(root)), t.hh(t.R(root)) == o.hh(o.R(root)))), "hint")
        x.oblige("hint: balanced below", imp(A, avlbelow(t, root, root)), "hint")
        x.oblige("hint: root", imp(A, z3.Or(t.H(root) == o.H(root), t.H(root) == o.H(root) - 1), t.bal(root) <= 2, t.bal(root) >= -2,
                                   imp(z3.Or(t.bal(root) == 2, t.bal(root) == -2), t.H(root) == o.H(root))), "hint")
        x._balanced = True

    def del_end(x, c):
        del_ghost(x, c)
        if getattr(x, "_balanced", False):
            q = relinked(Tr(c, True), c["root"], c.result, Tr(c))
            key, ent = list(x._relinked.items())[-1]
            linked(x, ent[0], " already")
            x._relinked[key] = ([x.get(N + k) for k in ("_left", "_right", "parent")],) + tuple(ent[1:])

    def del_mod(c):
        m = sub_mod(c)
        o, root = Tr(c, True), c["root"]
        m[N + "data"] = lambda r: z3.And(root != null, o.IN(r), o.inside(r, root))
        m.update({N + "$gone": True, N + "$hit": True, N + "$src": True})
        m.pop(N + "$pos")
        return m
    add("Tree.delete", {"root": "Node?", "key": "real"}, "Node?", props=["C18", "C05"], requires=del_req, modifies=del_mod, ghost=del_end, before={"Node.update_height": del_hook, "Tree.balance": del_hint}, ensures=del_post, quant=True)
