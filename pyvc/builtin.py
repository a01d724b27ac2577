"""Built-in and library functions: what the generator assumes about Python, decimal and numpy (trusted)."""
import z3
from .solve import Ref, null, rsqrt, Str, is_nonlinear
from .values import *
from .engine import INF, PyExc, PathEnd, tag, FMOD

TRUSTED = {}


def reg(*names, note=""):
    def d(f):
        for n in names:
            TRUSTED[n] = f
        f.note = note
        return f
    return d


def call(x, f, args, kwargs):
    if isinstance(f, BoundExt):
        return method(x, f.obj, f.name, args, kwargs)
    name = f.name
    if name in x.reg.ext:
        x.exts.add(name)
        return x.reg.ext[name](x, args, kwargs)
    if name.startswith("numpy."):
        name = "np." + name[6:]
    if name not in TRUSTED and name.startswith("builtins."):
        raise Unsupported("function " + name)
    if name not in TRUSTED:
        if name.split(".")[0] in ("matplotlib", "graphviz", "uuid", "warnings"):
            x.trace.append(("call", name, list(args), dict(kwargs)))
            return OpqV(name + "()")
        raise Unsupported("function " + name)
    x.exts.add(name)
    return TRUSTED[name](x, args, kwargs)


@reg("builtins.len")
def _len(x, a, k):
    return Num(x.length(a[0]))


@reg("builtins.isinstance")
def _isinstance(x, a, k):
    v, cls = a
    names = [c.name for c in (cls.items if isinstance(cls, Tup) else [cls])]
    if isinstance(v, OptV):
        v = v.val if isinstance(v.val, RefV) else v
    if isinstance(v, NoneV):
        return Bool(False)
    if not isinstance(v, RefV):
        if isinstance(v, OpqV):
            return Bool(x.fresh("isinst", B))
        raise Unsupported("isinstance of " + type(v).__name__)
    if all(n in x.prog.classes for n in names):
        poss = set(x.ids(v.classes))
        want = set(x.ids(names))
        if not v.nullable and poss <= want:
            return Bool(True)
        if not poss & want:
            return Bool(False)
        return Bool(z3.And(v.e != null, z3.Or([tag(v.e) == i for i in sorted(poss & want)])))
    return Bool(x.fresh("isinst", B))


@reg("builtins.hasattr")
def _hasattr(x, a, k):
    v, n = a
    if isinstance(v, RefV):
        ids = []
        for c in v.classes:
            for s in x.prog.subclasses(c):
                if x.prog.lookup(s, n.s) is not None or x.schema_field(s, n.s):
                    ids.append(x.prog.class_ids[s])
        return Bool(z3.And(v.e != null, z3.Or([tag(v.e) == i for i in ids] or [z3.BoolVal(False)])))
    raise Unsupported("hasattr")


@reg("builtins.range")
def _range(x, a, k):
    es = [x.num(v).e for v in a]
    if len(es) == 1:
        return RangeV(z3.IntVal(0), es[0])
    st = 1
    if len(es) == 3:
        s = z3.simplify(es[2])
        if not z3.is_int_value(s):
            raise Unsupported("range step")
        st = s.as_long()
    return RangeV(es[0], es[1], st)


@reg("builtins.enumerate")
def _enumerate(x, a, k):
    return IterV("enumerate", a)


@reg("builtins.zip")
def _zip(x, a, k):
    return IterV("zip", a)


@reg("builtins.reversed")
def _reversed(x, a, k):
    return IterV("reversed", a)


@reg("builtins.list")
def _list(x, a, k):
    if not a:
        return x.new_clist([], ("list()", x.line))
    v = a[0]
    if isinstance(v, (Tup,)):
        return x.new_clist(v.items, None)
    if isinstance(v, (CList, ListV)):
        return x.copy_list(v)
    ln, at = x.sequence(v)
    if isinstance(v, SetV):
        res = x.new_list(v.etype, ln)
        i = z3.Const("i?", I)
        na = x.fresh("fromset", z3.ArraySort(I, Ref))
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Select(na, i) == at.pattern(i)), patterns=[z3.Select(na, i)]))
        x.put("$E:Ref", z3.Store(x.get("$E:Ref"), res.e, na))
        return res
    raise Unsupported("list()")


@reg("builtins.set")
def _set(x, a, k):
    if a:
        raise Unsupported("set(...)")
    r = x.alloc("set")
    x.put("$set", z3.Store(x.get("$set"), r, z3.K(Ref, z3.BoolVal(False))))
    return SetV(r, T("opq"), "set")


@reg("queue.PriorityQueue")
def _pq(x, a, k):
    r = x.alloc("queue")
    x.put("$set", z3.Store(x.get("$set"), r, z3.K(Ref, z3.BoolVal(False))))
    return SetV(r, T("ref", ("Event",), False), "queue")


@reg("builtins.dict")
def _dict(x, a, k):
    d = {}
    op = None
    if a:
        if isinstance(a[0], DictV):
            d.update(a[0].d)
            op = a[0].open
        else:
            return OpqV("dict")
    k = dict(k)
    op = k.pop("**", op)
    d.update(k)
    return DictV(d, op)


@reg("builtins.float")
def _float(x, a, k):
    v = a[0]
    if isinstance(v, StrV) and v.s is not None:
        if v.s in ("inf", "Infinity"):
            return Num(INF)
        return Num(z3.RealVal(v.s))
    return Num(FLT(toreal(x.num(v).e)) if x.fp else toreal(x.num(v).e))


SHORT = z3.Function("SHORT", R, R)      # shortest decimal form of a float (a Decimal is its own)
FLT = z3.Function("FLT", R, R)          # nearest float
EXACT = z3.Function("EXACT", R, R)      # binary value of a float, as a decimal


@reg("decimal.Decimal")
def _decimal(x, a, k):
    if not a:
        return Num(z3.RealVal(0))
    v = a[0]
    if isinstance(v, StrV):
        if v.s is not None:
            return Num(z3.RealVal(v.s))
        src = getattr(v, "num", None)
        if src is None:
            raise Unsupported("Decimal of a string")
        return Num(src)
    return Num(EXACT(toreal(x.num(v).e)) if x.fp else toreal(x.num(v).e))


@reg("builtins.str")
def _str(x, a, k):
    s = StrV()
    v = a[0]
    if isinstance(v, OptV) and isinstance(v.val, Num):
        # str(None) is not a number
        x.safe(z3.Not(v.n), "InvalidOperation", "decimal of None")
        v = v.val
    if isinstance(v, Num):
        s.num = SHORT(toreal(v.e)) if x.fp else toreal(v.e)
    return s


@reg("builtins.repr", "builtins.format")
def _repr(x, a, k):
    return StrV()


@reg("builtins.print")
def _print(x, a, k):
    x.trace.append(("call", "print", list(a), dict(k)))
    return NONE


@reg("builtins.abs", "np.abs", "np.absolute", "math.fabs")
def _abs(x, a, k):
    e = x.num(a[0]).e
    return Num(z3.If(e >= 0, e, -e))


def two(x, a):
    es = [x.num(v).e for v in a]
    if any(e.sort() != es[0].sort() for e in es):
        es = [toreal(e) for e in es]
    return es


@reg("builtins.max")
def _max(x, a, k):
    return extreme(x, a, k, True)


@reg("builtins.min")
def _min(x, a, k):
    return extreme(x, a, k, False)


def numbers(x, l, what):
    """elements of a list of numbers (none of them None) as an array, and its length"""
    fl = flatten(l.etype)
    n = x.length(l)
    if l.etype.kind not in ("real", "int"):
        raise Unsupported(f"{what} of a list of {l.etype}")
    if len(fl) == 2:
        (sn, bn), (sv, so) = fl if fl[0][1] == B else fl[::-1]
        i = z3.Const("i?", I)
        isn = z3.Select(x.get(f"$E{sn}:{bn}"), l.e)
        x.safe(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.Select(isn, i))), patterns=[z3.Select(isn, i)]), "TypeError", f"{what} of numbers")
    else:
        sv, so = fl[0]
    return z3.Select(x.get(f"$E{sv}:{so}"), l.e), n, so


def extreme(x, a, k, big):
    if k:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        l = a[0]
        items = x.concrete_items(l)
        if items is None:
            l = x.norm(l)
            n = x.length(l)
            x.safe(n > 0, "ValueError", "min/max of an empty list")
            el, n, so = numbers(x, l, "min/max")
            m = x.fresh("ext", so)
            w = x.fresh("extidx", I)
            i = z3.Const("i?", I)
            x.assume(z3.And(0 <= w, w < n, z3.Select(el, w) == m))
            x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(el, i) <= m if big else z3.Select(el, i) >= m), patterns=[z3.Select(el, i)]))
            return Num(m)
        a = items
        if not a:
            x.safe(z3.BoolVal(False), "ValueError", "min/max of an empty list")
            raise PathEnd()
    es = two(x, a)
    r = es[0]
    if is_nonlinear(es):
        # one case per candidate: conditions on polynomials inside terms defeat the arithmetic back ends
        for e in es[1:]:
            if x.decide(e > r if big else e < r):
                r = e
        return Num(r)
    for e in es[1:]:
        r = z3.If(e > r, e, r) if big else z3.If(e < r, e, r)
    return Num(r)


SUM = z3.Function("SUM", z3.ArraySort(I, R), I, R)


@reg("builtins.sum", "np.sum")
def _sum(x, a, k):
    items = x.concrete_items(a[0])
    if items is not None:
        r = Num(z3.IntVal(0))
        for v in items:
            es = two(x, [r, v])
            r = Num(es[0] + es[1])
        return r
    el, n, so = numbers(x, x.norm(a[0]), "sum")
    if so != R:
        raise Unsupported("sum of integers")
    return Num(SUM(el, n))


@reg("decimal.Decimal.sqrt")
def _dsqrt(x, a, k):
    e = toreal(x.num(a[0]).e)
    x.safe(e >= 0, "InvalidOperation", "square root of a negative number")
    return sqrt(x, e)


def sqrt(x, e):
    s = rsqrt(e)
    x.assume(z3.Implies(e >= 0, z3.And(s >= 0, s * s == e)))
    return Num(s)


@reg("np.sqrt", "math.sqrt")
def _npsqrt(x, a, k):
    e = toreal(x.num(a[0]).e)
    x.safe(e >= 0, "ValueError", "square root of a negative number")
    return sqrt(x, e)


@reg("np.array", "np.asarray")
def _nparray(x, a, k):
    v = a[0]
    if isinstance(v, (Tup, CList)) and getattr(v, "sym", None) is None:
        return Vec([Num(toreal(i.e)) if isinstance(i, Num) else i for i in v.items])
    if isinstance(v, ListV):
        return v
    raise Unsupported("np.array")


@reg("np.dot")
def _dot(x, a, k):
    p, q = a
    if isinstance(p, Tup) and isinstance(q, Tup):
        r = None
        for u, v in zip(p.items, q.items):
            e = toreal(x.num(u).e) * toreal(x.num(v).e)
            r = e if r is None else r + e
        return Num(r)
    p, q = x.norm(p), x.norm(q)
    if isinstance(p, ListV) and isinstance(q, ListV):
        x.safe(x.length(p) == x.length(q), "ValueError", "np.dot of different lengths")
        E = x.get("$E:Real")
        return Num(DOT(z3.Select(E, p.e), z3.Select(E, q.e), x.length(p)))
    raise Unsupported("np.dot")


DOT = z3.Function("DOT", z3.ArraySort(I, R), z3.ArraySort(I, R), I, R)


@reg("np.roll")
def _roll(x, a, k):
    l = x.norm(a[0])
    s = z3.simplify(x.num(a[1]).e)
    if not isinstance(l, ListV) or not z3.is_int_value(s) or s.as_long() not in (1, -1):
        raise Unsupported("np.roll")
    n = x.length(l)
    res = x.new_list(l.etype, n)
    el = z3.Select(x.get("$E:Real"), l.e)
    x.put("$E:Real", z3.Store(x.get("$E:Real"), res.e, (ROLL if s.as_long() == 1 else ROLLB)(el, n)))
    return res


# the elements of a list of n, each moved one place on (the last one first), and one place back
ROLL = z3.Function("ROLL", z3.ArraySort(I, R), I, z3.ArraySort(I, R))
ROLLB = z3.Function("ROLLB", z3.ArraySort(I, R), I, z3.ArraySort(I, R))


@reg("np.cross")
def _cross(x, a, k):
    p, q = a
    (a0, a1), (b0, b1) = [x.num(v).e for v in p.items], [x.num(v).e for v in q.items]
    return Num(a0 * b1 - a1 * b0)


def arg_ext(big):
    def f(x, a, k):
        l = x.norm(a[0])
        if not isinstance(l, ListV):
            raise Unsupported("argmax")
        n = x.length(l)
        x.safe(n > 0, "ValueError", "argmax of an empty list")
        w = x.fresh("arg", I)
        i = z3.Const("i?", I)
        el = z3.simplify(z3.Select(x.get("$E:Real"), l.e))
        m = z3.Select(el, w)
        x.assume(z3.And(0 <= w, w < n))
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(el, i) <= m if big else z3.Select(el, i) >= m), patterns=[z3.Select(el, i)]))
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Select(el, i) < m if big else z3.Select(el, i) > m), patterns=[z3.Select(el, i)]))
        return Num(w)
    return f


TRUSTED["np.argmax"] = arg_ext(True)
TRUSTED["np.argmin"] = arg_ext(False)

ROUND = z3.Function("ROUND", R, I, R)


@reg("builtins.round", "np.round")
def _round(x, a, k):
    v = toreal(x.num(a[0]).e)
    d = x.num(a[1]).e if len(a) > 1 else z3.IntVal(0)
    return Num(ROUND(v, d))


ATAN2 = z3.Function("ATAN2", R, R, R)      # (y, x)
DEG = z3.Function("DEG", R, R)


@reg("np.math.atan2", "math.atan2", "np.arctan2")
def _atan2(x, a, k):
    return Num(ATAN2(toreal(x.num(a[0]).e), toreal(x.num(a[1]).e)))


@reg("np.math.degrees", "math.degrees", "np.degrees")
def _degrees(x, a, k):
    return Num(DEG(toreal(x.num(a[0]).e)))


@reg("builtins.sorted")
def _sorted(x, a, k):
    """a permutation of the argument in ascending order of the key (stability is not used)"""
    l = x.norm(a[0])
    if not isinstance(l, ListV) or set(k) - {"key"}:
        raise Unsupported("sorted")
    n = x.length(l)
    i, i2 = z3.Const("i?", I), z3.Const("i2?", I)
    pa, qa = x.fresh("perm", z3.ArraySort(I, I)), x.fresh("permi", z3.ArraySort(I, I))
    p, q = (lambda e: z3.Select(pa, e)), (lambda e: z3.Select(qa, e))
    res = x.new_list(l.etype, n)
    for s, so in flatten(l.etype):
        key = f"$E{s}:{so}"
        na = x.fresh("sorted", z3.ArraySort(I, so))
        src = z3.Select(x.get(key), l.e)
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i, z3.Select(na, i) == z3.Select(src, p(i)))), patterns=[z3.Select(na, i), p(i)]))
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i, z3.Select(na, q(i)) == z3.Select(src, i))), patterns=[z3.Select(src, i), q(i)]))
        x.put(key, z3.Store(x.get(key), res.e, na))
    # ghost: where each element comes from, and where it went
    for key, a2 in (("$E$src:Int", pa), ("$E$inv:Int", qa)):
        x.put(key, z3.Store(x.get(key), res.e, a2))
    if "key" in k:
        j = x.fresh("j", I)

        def thunk():
            x.assume(z3.And(0 <= j, j < n))
            return x.call(k["key"], [x.get_el(res, j)], {})
        cases, _, al = x.explore(thunk)
        if al:
            raise Unsupported("sort key creates objects")
        if any(not isinstance(q.v, Num) for q in cases):
            raise Unsupported("sort key")
        _, at = x.sequence(res)
        sub = x.per_element(cases, j, n, at)
        e = toreal(cases[-1].v.e)
        for q in cases[:-1]:
            e = z3.If(q.pc, toreal(q.v.e), e)
        keya = x.fresh("KEY", z3.ArraySort(I, R))
        KEY = lambda t: z3.Select(keya, t)
        x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), KEY(i) == sub(e, i)), patterns=[KEY(i), at.pattern(i)]))
        x.assume(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < n), KEY(i) <= KEY(i2)), patterns=[z3.MultiPattern(KEY(i), KEY(i2))]))
    return res


def method(x, o, name, a, k):
    if isinstance(o, (CList, ListV)):
        if name == "append":
            x.append(o, a[0])
            return NONE
        if name == "extend":
            x.extend(o, a[0])
            return NONE
        if name == "copy":
            return x.copy_list(o)
        if name == "remove":
            return list_remove(x, o, a[0])
        if name == "pop" and isinstance(o, CList) and o.sym is None and not x.loops:
            return o.items.pop(*[z3.simplify(x.num(v).e).as_long() for v in a])
        if name == "insert" and isinstance(o, CList) and o.sym is None and not x.loops:
            o.items.insert(z3.simplify(x.num(a[0]).e).as_long(), a[1])
            return NONE
        raise Unsupported("list." + name)
    if isinstance(o, SetV):
        mem = z3.Select(x.get("$set"), o.e)
        if o.kind == "set":
            if name == "add":
                x.put("$set", z3.Store(x.get("$set"), o.e, z3.Store(mem, a[0].e, z3.BoolVal(True))))
                return NONE
            if name in ("remove", "discard"):
                if name == "remove":
                    x.safe(z3.Select(mem, a[0].e), "KeyError", "set.remove")
                x.put("$set", z3.Store(x.get("$set"), o.e, z3.Store(mem, a[0].e, z3.BoolVal(False))))
                return NONE
        else:
            if name == "put":
                # (the queue is modelled as a set)
                x.oblige("an event is queued once", z3.Not(z3.Select(mem, a[0].e)), "safety")
                x.put("$set", z3.Store(x.get("$set"), o.e, z3.Store(mem, a[0].e, z3.BoolVal(True))))
                x.trace.append(("put", "queue", [o, a[0]], {}))
                hook = x.reg.ext.get("queue.put")
                if hook:
                    hook(x, o, a[0])
                return NONE
            if name == "empty":
                e = x.fresh("empty", B)
                r, w = z3.Const("r?", Ref), x.fresh("some", Ref)
                x.assume(z3.Implies(e, z3.ForAll([r], z3.Not(z3.Select(mem, r)), patterns=[z3.Select(mem, r)])))
                x.assume(z3.Implies(z3.Not(e), z3.Select(mem, w)))
                return Bool(e)
            if name == "get":
                v = x.fresh_value(o.etype, "popped")
                x.assume(z3.Select(mem, v.e))
                x.put("$set", z3.Store(x.get("$set"), o.e, z3.Store(mem, v.e, z3.BoolVal(False))))
                x.trace.append(("get", "queue", [o, v], {}))
                hook = x.reg.ext.get("queue.get")
                if hook:
                    hook(x, o, v, mem)
                return v
        raise Unsupported(f"{o.kind}.{name}")
    if isinstance(o, DictV):
        if name == "update":
            for v in a:
                if isinstance(v, DictV):
                    o.d.update(v.d)
                    o.open = v.open or o.open
                else:
                    o.open = v
            o.d.update(k)
            return NONE
        if name == "get" and isinstance(a[0], StrV) and o.open is None:
            return o.d.get(a[0].s, a[1] if len(a) > 1 else NONE)
        if name == "copy":
            return DictV(o.d, o.open)
    if isinstance(o, Num) and name == "sqrt":
        return _dsqrt(x, [o], k)
    if isinstance(o, SuperV) and name == "__init__":
        return NONE
    if isinstance(o, StrV):
        return StrV()
    raise Unsupported(f"method {name} of {type(o).__name__}")


def list_remove(x, o, v):
    """removes the first element equal (identical, for objects without __eq__) to v"""
    l = x.norm(o)
    if not isinstance(v, RefV) or l.etype.kind != "ref":
        raise Unsupported("list.remove")
    n = x.length(l)
    el = z3.Select(x.get("$E:Ref"), l.e)
    isin = x.contains(v, l)
    x.safe(isin, "ValueError", "list.remove")
    w = x.fresh("at", I)
    i = z3.Const("i?", I)
    x.assume(z3.And(0 <= w, w < n, z3.Select(el, w) == v.e))
    x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Select(el, i) != v.e), patterns=[z3.Select(el, i)]))
    na = x.fresh("removed", z3.ArraySort(I, Ref))
    x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Select(na, i) == z3.Select(el, i)), patterns=[z3.Select(na, i), z3.Select(el, i)]))
    x.assume(z3.ForAll([i], z3.Implies(z3.And(w <= i, i < n - 1), z3.Select(na, i) == z3.Select(el, i + 1)), patterns=[z3.Select(na, i)]))
    x.assume(z3.ForAll([i], z3.Implies(z3.And(w < i, i < n), z3.Select(na, i - 1) == z3.Select(el, i)), patterns=[z3.Select(el, i)]))
    x.put("$E:Ref", z3.Store(x.get("$E:Ref"), l.e, na))
    x.put("$len", z3.Store(x.get("$len"), l.e, n - 1))
    return NONE
