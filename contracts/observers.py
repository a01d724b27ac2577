"""Subjects and observers: who gets a message, and in which order.

Ghost state. The log LOG: Log.$n messages were delivered; the i-th one reached observer $E$lo[LOG][i], from sender $E$ls[LOG][i],
with message $E$lm[LOG][i]. What a subject s sent (debug messages left out): Subject.$n of them, the i-th being message $E$sm[s][i],
while s was handling the event $E$se[s][i] at the sweep position $E$sw[s][i]."""
from .base import *

S = "Subject."
LOG = z3.Const("LOG", Ref)
DELIVERED = ["Log.$n", "$E$lo:Ref", "$E$ls:Ref", "$E$lm:Int"]
SENT = ["Subject.$n", "$E$sm:Int", "$E$se:Ref", "$E$sw:Real"]


def debug(c):
    return c.x.enum_value("Message", "DEBUG")


def same_list(c, a, b, old_b=False):
    """the lists a (now) and b hold the same observers"""
    i = z3.Const("i", I)
    return z3.Or(a == b, z3.And(c.len(a) == c.len(b, old_b), fa(i, imp(z3.And(0 <= i, i < c.len(a)), c.el(a, i) == c.el(b, i, old=old_b)), c.el(a, i))))


def agree(c, s):
    """every child of s has the observers of s"""
    j = z3.Const("j", I)
    l = c.f(S + "_children", s)
    return fa(j, imp(z3.And(0 <= j, j < c.len(l)), same_list(c, c.f(S + "_observers", c.el(l, j)), c.f(S + "_observers", s))), c.el(l, j))


def delivered(c, n, k, obs, sender, msg, old=True):
    """n + k messages were delivered, the last k to the first k of obs"""
    i = z3.Const("i", I)
    out = [c.f("Log.$n", LOG) == n + k]
    for key, val in [("$lo", lambda m: c.el(obs, m - n, old=old)), ("$ls", lambda m: sender), ("$lm", lambda m: msg)]:
        srt = I if key == "$lm" else Ref
        g = lambda m: c.el(LOG, m, srt, key)
        out.append(fa(i, imp(z3.And(n <= i, i < n + k), g(i) == val(i)), g(i)))
        out.append(fa(i, imp(z3.And(0 <= i, i < n), g(i) == c.el(LOG, i, srt, key, old=True)), g(i)))
    return z3.And(out)


def sent(c, s, msg):
    """(ghost) what s has sent is one message longer"""
    n = c.o("Subject.$n", s)
    i = z3.Const("i", I)
    alg = c.isa(s, "Algorithm")
    out = [c.f("Subject.$n", s) == n + 1, c.el(s, n, I, "$sm") == msg]
    if c.x.prog.classes.get("Algorithm"):
        out += [imp(alg, z3.And(c.el(s, n, Ref, "$se") == c.o("Algorithm.event", s), c.el(s, n, R, "$sw") == c.o("Algorithm.sweep_line", s)))]
    for key, srt in (("$sm", I), ("$se", Ref), ("$sw", R)):
        out.append(fa(i, imp(z3.And(0 <= i, i < n), c.el(s, i, srt, key) == c.el(s, i, srt, key, old=True)), c.el(s, i, srt, key)))
    return z3.And(out)


def silent(c, s):
    """(ghost) what s has sent is unchanged"""
    return z3.And(c.f("Subject.$n", s) == c.o("Subject.$n", s), *[c.elarr(s, srt, key) == c.elarr(s, srt, key, old=True) for key, srt in (("$sm", I), ("$se", Ref), ("$sw", R))])


def register(reg):
    add = lambda *a, **k: reg.add(Contract(*a, **k))
    kids = lambda c, s: c.o(S + "_children", s)

    add("Observer.update", {"subject": "Subject", "message": "int"}, "none", virtual=True, trusted=True,
        note="an observer may do anything but change the diagram, the subject or its lists of observers (ghost: the delivery is logged)",
        modifies=lambda c: {k: [LOG] for k in DELIVERED},
        ensures=lambda c: [("logged", z3.And(c.f("Log.$n", LOG) == c.o("Log.$n", LOG) + 1, *[c.elarr(LOG, srt, key) == z3.Store(c.elarr(LOG, srt, key, old=True), c.o("Log.$n", LOG), v)
                                             for key, srt, v in (("$lo", Ref, c["self"]), ("$ls", Ref, c["subject"]), ("$lm", I, c["message"]))]))])

    # ---- one message to every observer
    def n_post(c):
        s = c["self"]
        obs = c.o(S + "_observers", s)
        m = c["message"]
        n = c.o("Log.$n", LOG)
        return [("the log has a length", c.f("Log.$n", LOG) >= 0), ("delivered once to every observer, in order, from the root sender", delivered(c, n, c.len(obs, old=True), obs, c.o(S + "_root_sender", s), m)),
                ("returns the subject", c.result == s),
                ("recorded as sent, debug messages left out", z3.And(imp(m != debug(c), sent(c, s, m)), imp(m == debug(c), silent(c, s))))]

    def n_ghost(x, c):
        s, m = c["self"], c["message"]
        if x.decide(m == debug(c)):
            return
        n = x.get("Subject.$n")[s]
        x.put("Subject.$n", z3.Store(x.get("Subject.$n"), s, n + 1))
        for k, v in (("$E$sm:Int", m), ("$E$se:Ref", c.o("Algorithm.event", s)), ("$E$sw:Real", c.o("Algorithm.sweep_line", s))):
            a = x.get(k)
            x.put(k, z3.Store(a, s, z3.Store(a[s], n, v)))

    def n_inv(c):
        s = c["self"]
        obs = c.o(S + "_observers", s)
        n = c.o("Log.$n", LOG)
        return z3.And(delivered(c, n, c.k, obs, c.o(S + "_root_sender", s), c["message"]))
    add("Subject.notify_observers", {"message": "int"}, "Subject", props=["C09"], self_classes=None,
        requires=lambda c: [("the log has a length", c.o("Log.$n", LOG) >= 0)],
        modifies=lambda c: {**{k: [LOG] for k in DELIVERED}, **{k: [c["self"]] for k in SENT}},
        ghost=n_ghost, inv=[Inv("delivered so far", {}, n_inv)], ensures=n_post)

    # ---- who is attached
    def uc_inv(c):
        j = z3.Const("j", I)
        s = c["self"]
        l = kids(c, s)
        return fa(j, imp(z3.And(0 <= j, j < c.k), same_list(c, c.f(S + "_observers", c.el(l, j)), c.f(S + "_observers", s))), c.el(l, j))
    iskid = lambda c, s, r: (lambda j: z3.Exists([j], z3.And(0 <= j, j < c.len(kids(c, s), old=True), c.el(kids(c, s), j, old=True) == r)))(z3.Const("jj", I))

    def observers_same(c, s):
        return same_list(c, c.f(S + "_observers", s), c.o(S + "_observers", s), old_b=True)
    add("Subject._update_children", {}, "none", props=["C09"],
        modifies=lambda c: {S + "_observers": lambda r: iskid(c, c["self"], r)}, allocs=[],
        inv=[Inv("the first children agree", {}, uc_inv), Inv("own observers kept", {}, lambda c: observers_same(c, c["self"]))],
        ensures=lambda c: [("every child has the subject's observers", agree(c, c["self"])), ("its own observers are kept", observers_same(c, c["self"]))])

    def appended(c, l, v, old):
        i = z3.Const("i", I)
        n = c.len(old, old=True)
        return z3.And(c.len(l) == n + 1, c.el(l, n) == v, fa(i, imp(z3.And(0 <= i, i < n), c.el(l, i) == c.el(old, i, old=True)), c.el(l, i)))

    def removed(c, l, v, old):
        i, w = V("i", "w", sort=I)
        n = c.len(old, old=True)
        o, e = (lambda k: c.el(old, k, old=True)), (lambda k: c.el(l, k))
        return z3.And(c.len(l) == n - 1, z3.Exists([w], z3.And(0 <= w, w < n, o(w) == v, fa(i, imp(z3.And(0 <= i, i < w), e(i) == o(i), o(i) != v), e(i)), fa(i, imp(z3.And(w <= i, i < n - 1), e(i) == o(i + 1)), e(i))), patterns=[o(w)]))
    lists = lambda c: c.o(S + "_observers", c["self"])
    own = lambda c: {"$len": [lists(c)], "$E:Ref": [lists(c)], S + "_observers": lambda r: z3.Or(r == c["self"], iskid(c, c["self"], r))}
    apart = lambda c: [("the lists of observers and of children are two", c.o(S + "_observers", c["self"]) != c.o(S + "_children", c["self"]))]
    add("Subject.attach_observer", {"observer": "Observer"}, "Subject", props=["C09"], requires=apart, modifies=own,
        ensures=lambda c: [("attached last", appended(c, c.f(S + "_observers", c["self"]), c["observer"], lists(c))), ("every child has the subject's observers", agree(c, c["self"])), ("returns the subject", c.result == c["self"])])
    add("Subject.detach_observer", {"observer": "Observer"}, "Subject", props=["C09"], modifies=own,
        requires=lambda c: apart(c) + [("it is attached", (lambda k: z3.Exists([k], z3.And(0 <= k, k < c.len(lists(c), old=True), c.el(lists(c), k, old=True) == c["observer"]), patterns=[c.el(lists(c), k, old=True)]))(z3.Const("at", I)))],
        ensures=lambda c: [("removed once", removed(c, c.f(S + "_observers", c["self"]), c["observer"], lists(c))), ("every child has the subject's observers", agree(c, c["self"])), ("returns the subject", c.result == c["self"])])

    def kidmod(c, p, ch):
        return {"$len": [kids(c, p)], "$E:Ref": [kids(c, p)], S + "_observers": lambda r: z3.Or(r == ch, iskid(c, p, r))}
    def pap(c, p):
        c.typed(kids(c, p), ["Subject"])
        return apart2(c, p)
    apart2 = lambda c, p: [("the lists of observers and of children are two", c.o(S + "_observers", p) != c.o(S + "_children", p))]
    add("Subject._add_child", {"child": "Subject"}, "none", props=["C09"], requires=lambda c: pap(c, c["self"]), modifies=lambda c: kidmod(c, c["self"], c["child"]),
        ensures=lambda c: [("one more child", appended(c, c.f(S + "_children", c["self"]), c["child"], kids(c, c["self"]))), ("every child has the subject's observers", agree(c, c["self"])),
                           ("its own observers are kept", observers_same(c, c["self"]))])
    add("Subject.inherit_observers_from", {"parent": "Subject"}, "none", props=["C09"], requires=lambda c: pap(c, c["parent"]),
        modifies=lambda c: kidmod(c, c["parent"], c["self"]) | {S + f: [c["self"]] for f in ("_root_sender", "_child_sender")},
        ensures=lambda c: [("a child of the parent", appended(c, c.f(S + "_children", c["parent"]), c["self"], kids(c, c["parent"]))), ("the parent is the sender", c.f(S + "_root_sender", c["self"]) == c["parent"]),
                           ("every child has the parent's observers", agree(c, c["parent"])), ("the parent's observers are kept", observers_same(c, c["parent"])),
                           ("it has the parent's observers", same_list(c, c.f(S + "_observers", c["self"]), c.f(S + "_observers", c["parent"])))])
    add("Subject.__init__", {}, "none", props=["C09"], allocs=["list"], modifies=lambda c: {S + f: [c["self"]] for f in ("_observers", "_children", "_root_sender", "_child_sender")},
        ensures=lambda c: (lambda o, k: [("nobody is attached", z3.And(z3.Not(c.alive(o, old=True)), c.alive(o), c.len(o) == 0)), ("no children", z3.And(z3.Not(c.alive(k, old=True)), c.alive(k), c.len(k) == 0, o != k)),
                                         ("its own sender", c.f(S + "_root_sender", c["self"]) == c["self"])])(c.f(S + "_observers", c["self"]), c.f(S + "_children", c["self"])))
