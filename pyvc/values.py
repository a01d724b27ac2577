"""Values, types and the typed heap of the verification-condition generator."""
import z3
from .solve import Ref, Str, null

Opq = z3.DeclareSort("Opaque")
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


class Val:
    pass


class NoneV(Val):
    def __repr__(self):
        return "None"


NONE = NoneV()


class Num(Val):
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Num({self.e})"


class Bool(Val):
    def __init__(self, e):
        self.e = z3.BoolVal(e) if isinstance(e, bool) else e

    def __repr__(self):
        return f"Bool({self.e})"


class RefV(Val):
    """classes: names of the possible static classes (with their subclasses)"""

    def __init__(self, e, classes, nullable=True):
        self.e, self.classes, self.nullable = e, tuple(classes), nullable

    def __repr__(self):
        return f"Ref({self.e}:{'|'.join(self.classes)})"


class OptV(Val):
    def __init__(self, isnone, val):
        self.n, self.val = isnone, val


class Tup(Val):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Vec(Tup):
    """small numpy vector"""


class StrV(Val):
    def __init__(self, s=None, e=None):
        self.s, self.e = s, e

    def __repr__(self):
        return f"Str({self.s!r})"


class CList(Val):
    """a list whose elements are known one by one"""

    def __init__(self, items, site=None):
        self.items, self.site = list(items), site


class ListV(Val):
    def __init__(self, ref, etype):
        self.e, self.etype = ref, etype


class SetV(Val):
    def __init__(self, ref, etype, kind="set"):
        self.e, self.etype, self.kind = ref, etype, kind


class FuncV(Val):
    def __init__(self, fi, self_val=None, closure=None, node=None):
        self.fi, self.self_val, self.closure, self.node = fi, self_val, closure, node


class ClassV(Val):
    def __init__(self, name):
        self.name = name


class ExtV(Val):
    def __init__(self, name):
        self.name = name


class BoundExt(Val):
    """method of a built-in value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class OpqV(Val):
    def __init__(self, name, e=None):
        self.name, self.e = name, e


class PredV(Val):
    """an unknown but fixed two-place predicate (a comparison function)"""

    def at(self, a, b):
        return z3.Function("CMP_" + str(a.sort()) + "_" + str(b.sort()), a.sort(), b.sort(), B)(a, b)


class DictV(Val):
    def __init__(self, d, open_=None):
        self.d, self.open = dict(d), open_


class SuperV(Val):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class RangeV(Val):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class IterV(Val):
    """enumerate / zip / reversed over lists"""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


# ---- types -----------------------------------------------------------------------------------------------------
class T:
    def __init__(self, kind, args=(), nullable=False):
        self.kind, self.args, self.nullable = kind, tuple(args), nullable

    def key(self):
        return (self.kind, self.args if self.kind == "ref" else tuple(a.key() for a in self.args), self.nullable)

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        a = "|".join(self.args) if self.kind == "ref" else self.kind + (str(list(self.args)) if self.args else "")
        return a + ("?" if self.nullable else "")


PRIM = ("real", "int", "bool", "str", "opq", "none", "false")


def parse_type(s):
    if isinstance(s, T):
        return s
    s = s.strip()
    nullable = s.endswith("?")
    if nullable:
        s = s[:-1].strip()
    if s == "pred":
        return T("pred")
    if s in PRIM:
        return T(s, (), nullable)
    for g in ("list", "set", "queue", "tuple", "union", "vec"):
        if s.startswith(g + "["):
            inner, depth, parts, cur = s[len(g) + 1:-1], 0, [], ""
            for ch in inner:
                if ch == "[":
                    depth += 1
                if ch == "]":
                    depth -= 1
                if ch == "," and depth == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            parts.append(cur)
            return T(g, [parse_type(p) for p in parts], nullable)
    return T("ref", [x.strip() for x in s.split("|")], nullable)


def flatten(t):
    """[(suffix, sort)]"""
    k = t.kind
    if k in ("real", "int", "bool", "str", "opq"):
        srt = {"real": R, "int": I, "bool": B, "str": Str, "opq": Opq}[k]
        return ([("#n", B)] if t.nullable else []) + [("", srt)]
    if k in ("ref", "list", "set", "queue"):
        return [("", Ref)]
    if k in ("tuple", "vec"):
        return ([("#n", B)] if t.nullable else []) + [(f".{i}{s}", so) for i, a in enumerate(t.args) for s, so in flatten(a)]
    if k in ("none", "false"):
        return []
    raise Unsupported(f"cannot store a value of type {t}")


def wrap(t, es):
    """z3 expressions -> value"""
    k = t.kind
    if k in ("real", "int", "bool", "str", "opq"):
        if t.nullable:
            return OptV(es[0], wrap(T(k), es[1:]))
        return {"real": Num, "int": Num, "bool": Bool}[k](es[0]) if k in ("real", "int", "bool") else \
            (StrV(None, es[0]) if k == "str" else OpqV("value", es[0]))
    if k == "ref":
        return RefV(es[0], t.args, t.nullable)
    if k == "list":
        return ListV(es[0], t.args[0])
    if k in ("set", "queue"):
        return SetV(es[0], t.args[0], k)
    if k in ("tuple", "vec"):
        n = es[0] if t.nullable else None
        out, i = [], 1 if t.nullable else 0
        for a in t.args:
            m = len(flatten(a))
            out.append(wrap(a, es[i:i + m]))
            i += m
        v = (Vec if k == "vec" else Tup)(out)
        return OptV(n, v) if n is not None else v
    if k == "none":
        return NONE
    if k == "false":
        return Bool(False)
    raise Unsupported(f"type {t}")


def default(sort):
    return {R: z3.RealVal(0), I: z3.IntVal(0), B: z3.BoolVal(False)}.get(sort, null if sort == Ref else z3.Const("dflt!" + str(sort), sort))


def toreal(e):
    if e.sort() == I:
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def type_of(v):
    """structural type of a value (for lists created by the program and for loop variables)"""
    if isinstance(v, Num):
        return T("int" if v.e.sort() == I else "real")
    if isinstance(v, Bool):
        return T("bool")
    if isinstance(v, RefV):
        return T("ref", v.classes, v.nullable)
    if isinstance(v, NoneV):
        return T("none")
    if isinstance(v, OptV):
        t = type_of(v.val)
        return T(t.kind, t.args, True)
    if isinstance(v, Vec):
        return T("vec", [type_of(x) for x in v.items])
    if isinstance(v, Tup):
        return T("tuple", [type_of(x) for x in v.items])
    if isinstance(v, ListV):
        return T("list", [v.etype])
    if isinstance(v, SetV):
        return T(v.kind, [v.etype])
    if isinstance(v, StrV):
        return T("str")
    if isinstance(v, OpqV):
        return T("opq")
    raise Unsupported(f"no static type for {type(v).__name__}")


def join(a, b):
    if a == b:
        return a
    if a.kind == "none" and b.kind == "none":
        return a
    if a.kind == "none":
        a, b = b, a
    if b.kind == "none":
        if a.kind in ("list", "set", "queue"):
            raise Unsupported("optional list")
        return T(a.kind, a.args, True)
    n = a.nullable or b.nullable
    if a.kind == b.kind == "ref":
        return T("ref", list(a.args) + [x for x in b.args if x not in a.args], n)
    if {a.kind, b.kind} <= {"int", "real"}:
        return T("real", (), n) if a.kind != b.kind else T(a.kind, (), n)
    if a.kind == b.kind and a.kind in ("tuple", "vec") and len(a.args) == len(b.args):
        return T(a.kind, [join(x, y) for x, y in zip(a.args, b.args)], n)
    if a.kind == b.kind and a.kind == "list":
        return T("list", [join(a.args[0], b.args[0])], n)
    if a.kind == b.kind:
        return T(a.kind, a.args, n)
    raise Unsupported(f"cannot join types {a} and {b}")


def unwrap(t, v):
    """value -> z3 expressions of the sorts of flatten(t); raises TypeError when the value does not fit"""
    k = t.kind
    if k in ("real", "int", "bool", "str", "opq", "tuple", "vec") and t.nullable:
        base = T(k, t.args)
        if isinstance(v, NoneV):
            return [z3.BoolVal(True)] + [default(s) for _, s in flatten(base)]
        if isinstance(v, OptV):
            return [v.n] + unwrap(base, v.val)
        return [z3.BoolVal(False)] + unwrap(base, v)
    if isinstance(v, OptV):
        raise TypeError("optional value where a value is needed")
    if k == "real":
        if isinstance(v, Num):
            return [toreal(v.e)]
    elif k == "int":
        if isinstance(v, Num) and v.e.sort() == I:
            return [v.e]
    elif k == "bool":
        if isinstance(v, Bool):
            return [v.e]
    elif k == "str":
        if isinstance(v, StrV):
            return [v.e if v.e is not None else z3.Const(f"str!{v.s!r}" if v.s is not None else "str!any", Str)]
    elif k == "opq":
        e = getattr(v, "e", None)
        if isinstance(v, OpqV) and e is not None:
            return [e]
        return [z3.FreshConst(Opq, "opq")]
    elif k == "ref":
        if isinstance(v, NoneV):
            return [null]
        if isinstance(v, RefV):
            return [v.e]
    elif k == "list":
        if isinstance(v, ListV):
            return [v.e]
        if isinstance(v, NoneV):
            return [null]
    elif k in ("set", "queue"):
        if isinstance(v, SetV):
            return [v.e]
        if isinstance(v, NoneV):
            return [null]
    elif k in ("tuple", "vec"):
        if isinstance(v, Tup) and len(v.items) == len(t.args):
            return [e for a, x in zip(t.args, v.items) for e in unwrap(a, x)]
    elif k == "none":
        if isinstance(v, NoneV):
            return []
    raise TypeError(f"{type(v).__name__} does not fit {t}")
