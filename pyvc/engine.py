"""Symbolic execution of the real function bodies; generates the proof obligations of one function against its contract.

A function is executed once per path: a run follows a list of decisions (its prefix) and queues the other side of every
new decision.  Loops are cut by invariants (candidates from the contract, dropped when they are not inductive), calls
are replaced by the callee's contract, or executed in place when the callee has none."""
import ast, time
import z3
from .solve import Ref, Str, null, rsqrt, prove, has_quant, is_nonlinear, Result
from .values import *
from .program import Program, FuncInfo

tag = z3.Function("tag", Ref, z3.IntSort())


class Restart(Exception):
    def __init__(self, why=""):
        self.why = why


class PathEnd(Exception):
    pass


class PyExc(Exception):
    def __init__(self, name, line=None):
        self.name, self.line = name, line


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


INF = z3.Real("inf")
FMOD, FMODK = z3.Function("FMOD", z3.RealSort(), z3.RealSort(), z3.RealSort()), z3.Function("FMODK", z3.RealSort(), z3.RealSort(), z3.IntSort())
EXC_PARENTS = {"InvalidOperation": ("DecimalException", "ArithmeticError", "Exception"), "ZeroDivisionError": ("ArithmeticError", "Exception"),
               "ValueError": ("Exception",), "AssertionError": ("Exception",), "AttributeError": ("Exception",), "KeyError": ("LookupError", "Exception"),
               "IndexError": ("LookupError", "Exception"), "TypeError": ("Exception",)}


class Frame:
    def __init__(self, fi, parent=None, cls=None):
        self.fi, self.vars, self.parent, self.cls = fi, {}, parent, cls
        self.module = fi.module if fi else None

    def get(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        return None


class LoopInfo:
    def __init__(self):
        self.fields, self.types, self.mat, self.dropped = set(), {}, set(), set()
        self.reason = {}


class Table:
    """what earlier runs of the same function learned; survives restarts"""

    def __init__(self):
        self.loops, self.etypes = {}, {}
        self.scout, self.dirty = True, False    # scouting: finding out what the loops modify; nothing is proved yet

    def loop(self, lid):
        return self.loops.setdefault(lid, LoopInfo())


class Obl:
    def __init__(self, name, facts, goal, kind, line=None, path=None):
        self.name, self.facts, self.goal, self.kind, self.line, self.path = name, facts, goal, kind, line, path
        self.result = None


class Case:
    def __init__(self, pc, side, v, heap, created):
        self.pc, self.side, self.v, self.heap, self.created = pc, side, v, heap, created


def consts(e, seen=None):
    """uninterpreted constants of a term"""
    out, todo, seen = [], [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        else:
            todo += t.children()
    return out


class SpecOpt:
    def __init__(self, n, v):
        self.n, self.v = n, v


def spec(v):
    if isinstance(v, (Num, Bool, RefV, ListV, SetV)):
        return v.e
    if isinstance(v, CList):
        if getattr(v, "sym", None) is not None:
            return v.sym.e
        return [spec(x) for x in v.items]
    if isinstance(v, Tup):
        return tuple(spec(x) for x in v.items)
    if isinstance(v, NoneV):
        return null
    if isinstance(v, OptV):
        return SpecOpt(v.n, spec(v.val))
    if isinstance(v, (StrV, OpqV)):
        return v.e if v.e is not None else v
    return v


class C:
    """what a contract clause can talk about"""

    def __init__(self, x, args, old, new, result=None, extra=None):
        self.x, self.args, self.oldh, self.newh, self._result = x, args, old, new, result
        self.__dict__.update(extra or {})

    def __getitem__(self, n):
        return spec(self.args[n])

    def has(self, n):
        return n in self.args

    def val(self, n):
        return self.args[n]

    @property
    def result(self):
        return spec(self._result)

    @property
    def rv(self):
        return self._result

    def arr(self, key, old=False):
        return self.x.heap_get(self.oldh if old else self.newh, key)

    def f(self, key, r):
        return z3.Select(self.arr(key), r)

    def o(self, key, r):
        return z3.Select(self.arr(key, True), r)

    def F(self, key):
        a = self.arr(key)
        return lambda r: z3.Select(a, r)

    def O(self, key):
        a = self.arr(key, True)
        return lambda r: z3.Select(a, r)

    def isa(self, r, *cls):
        return self.x.isa(r, cls)

    def alive(self, r, old=False):
        return z3.Select(self.arr("$alive", old), r)

    def len(self, l, old=False):
        return z3.Select(self.arr("$len", old), l)

    def el(self, l, i, sort=Ref, suffix="", old=False):
        return z3.Select(z3.Select(self.arr(f"$E{suffix}:{sort}", old), l), i)

    def elarr(self, l, sort=Ref, suffix="", old=False):
        return z3.Select(self.arr(f"$E{suffix}:{sort}", old), l)

    def typed(self, l, classes, old=True):
        """(assumes) the elements of a list read from a field have their declared type in this heap, as every read of one does"""
        i = z3.Const("i", I)
        e = self.el(l, i, old=old)
        self.x.assume(z3.And(l != null, self.alive(l, old), self.len(l, old) >= 0))
        self.x.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len(l, old)), z3.And(e != null, self.alive(e, old), self.isa(e, *classes))), patterns=[e]))

    def typed_set(self, s, classes, old=True):
        """(assumes) the members of a set or queue have their declared type in this heap"""
        r = z3.Const("r", Ref)
        m = self.member(s, r, old)
        self.x.assume(z3.And(s != null, self.alive(s, old)))
        self.x.assume(z3.ForAll([r], z3.Implies(m, z3.And(r != null, self.alive(r, old), self.isa(r, *classes))), patterns=[m]))

    def deref(self, key, r, old=True):
        """the value of a reference field, (assuming) of its declared type when r is an object of this heap, as every read of it is"""
        cname, attr = key.split(".")
        _, t = self.x.schema_field(cname, attr)
        v = z3.Select(self.arr(key, old), r)
        w = wrap(t, [v])
        ok = z3.And(v != null, self.alive(v, old))
        if isinstance(w, RefV):
            ok = z3.And(ok, self.isa(v, *w.classes))
            if w.nullable:
                ok = z3.Or(v == null, ok)
        self.x.assume(z3.Implies(z3.And(r != null, self.alive(r, old)), ok))
        return v

    def member(self, s, r, old=False):
        return z3.Select(z3.Select(self.arr("$set", old), s), r)

    def setarr(self, s, old=False):
        return z3.Select(self.arr("$set", old), s)


class Contract:
    def __init__(self, fn, params=None, ret="none", requires=None, ensures=None, modifies=None, allocs=(), inv=(), ghost=None,
                 logical=None, raises=None, props=(), trace=False, virtual=False, inline=False, trusted=False, pure=False, note="", body_post=None,
                 self_classes=None, ensures_raise=None, hints=None, loop_init=None, max_paths=400, effort=1, result_fn=None, keep_self=None, model=None, fp=False, quant=False, before=None, local=False, after=None, on_return=None):
        self.fn, self.params, self.ret = fn, {k: parse_type(v) for k, v in (params or {}).items()}, parse_type(ret)
        self.requires, self.ensures, self.modifies = requires, ensures, modifies
        self.allocs, self.inv, self.ghost, self.logical = tuple(allocs), list(inv), ghost, {k: v for k, v in (logical or {}).items()}
        self.raises, self.props, self.trace, self.virtual, self.inline, self.trusted = raises or {}, tuple(props), trace, virtual, inline, trusted
        self.pure, self.note, self.body_post, self.self_classes = pure, note, body_post, self_classes
        self.ensures_raise, self.hints, self.loop_init, self.max_paths, self.effort = ensures_raise, hints, loop_init, max_paths, effort
        self.result_fn = result_fn
        self.model, self.fp, self.quant = model, fp, quant
        # ghost code that runs just before a call: {callee: f(x, ctx, args of the call)}
        self.before = before or {}
        # ... just after a call: {callee: f(x, ctx, args, context of the call)}; and, in the callee's contract, at every call
        self.after, self.on_return = after or {}, on_return
        # creates objects that nothing reachable points to when it returns (and so no caller sees)
        self.local = local


class Inv:
    """candidate loop invariant; holes: name -> type kind string ('ref:Node', 'int', 'real', 'list', 'bool')"""

    def __init__(self, name, holes, f, loops=("while", "for")):
        self.name, self.holes, self.f, self.loops = name, holes, f, loops


class Registry:
    def __init__(self):
        self.contracts, self.schema, self.ext, self.lemmas = {}, {}, {}, []
        self.assumptions = []

    def add(self, c):
        self.contracts[c.fn] = c
        return c


class Exec:
    """one path"""
    MAXDEPTH = 40

    def __init__(self, prog, reg, fi, contract, table, prefix, variant=None):
        self.prog, self.reg, self.fi, self.contract, self.table = prog, reg, fi, contract, table
        self.prefix, self.pos, self.taken = prefix, 0, []
        self.pending = []
        self.facts, self.qf, self.known = [], [], {}
        self.heap, self.obls, self.n = {}, [], {}
        self.frames, self.loops, self.handlers = [], [], []
        self.clists, self.trace = [], []
        self.fs = z3.Solver()
        self.fs.set("rlimit", 400000)
        self.fs.set("timeout", 1500)
        self.callees, self.inlined, self.exts = set(), set(), set()
        self.call_stack = []
        self.notes = []
        self.subdepth = 0
        self.decs, self.created = [], None
        self.line = None
        self.fp = contract.fp

    # ---- names and facts
    def fresh(self, base, sort):
        k = self.n.get(base, 0)
        self.n[base] = k + 1
        r = z3.Const(f"{base}!{k}", sort)
        if self.created is not None:
            self.created.append(r)
        return r

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if f.get_id() in self.known:
            return
        self.known[f.get_id()] = f
        self.facts.append(f)
        if not has_quant(f):
            self.fs.add(f)

    def feasible(self, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        self.fs.push()
        self.fs.add(cond)
        r = self.fs.check()
        self.fs.pop()
        return r != z3.unsat

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if t and f:
                v = True
                self.pending.append(self.taken + [False])
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise PathEnd()
            self.pos += 1
            self.prefix = self.prefix + [v]
        self.taken.append(v)
        d = cond if v else z3.Not(cond)
        self.decs.append(d)
        self.assume(d)
        return v

    def live(self):
        """obligations are generated only once per shared prefix"""
        return self.pos >= self.fixed

    def oblige(self, name, goal, kind):
        g = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        if self.live() and not (z3.is_true(g) and kind == "safety"):
            self.obls.append(Obl(name, list(self.facts), goal if z3.is_expr(goal) else g, kind, self.line, list(self.taken)))
        if not z3.is_true(g):
            self.assume(goal if z3.is_expr(goal) else g)

    def oblige_from(self, name, hyps, goal, terms=()):
        """goal from the hypotheses alone (each an obligation itself); the given terms are replaced by fresh constants"""
        for n, h in enumerate(hyps):
            self.oblige(f"{name}, hypothesis {n}", h, "hint")
        sub = [(t, z3.FreshConst(t.sort())) for t in terms]
        gen = lambda e: z3.substitute(e, *sub) if sub else e
        if self.live():
            self.obls.append(Obl(name, [gen(h) for h in hyps], gen(goal), "hint", self.line, list(self.taken)))
        self.assume(goal)

    def oblige_since(self, name, goal, mark):
        """goal from the facts without quantifiers and those learnt since"""
        if self.live():
            self.obls.append(Obl(name, [f for i, f in enumerate(self.facts) if i >= mark or not has_quant(f)], goal, "hint", self.line, list(self.taken)))
        self.assume(goal)

    def safe(self, cond, exc, what):
        """cond must hold, or the exception exc is raised"""
        if any(self.caught(exc, h) for h in self.handlers) or exc in self.contract.raises:
            if not self.decide(cond):
                raise PyExc(exc, self.line)
            return
        self.oblige(f"no {exc}: {what}", cond, "safety")

    def caught(self, exc, names):
        return any(n == exc or n in EXC_PARENTS.get(exc, ()) or n == "*" for n in names)

    # ---- heap
    def sort_of(self, key):
        if key == "$alive":
            return z3.ArraySort(Ref, B)
        if key == "$len":
            return z3.ArraySort(Ref, I)
        if key == "$set":
            return z3.ArraySort(Ref, z3.ArraySort(Ref, B))
        if key.startswith("$E"):
            s = {"Ref": Ref, "Real": R, "Int": I, "Bool": B, "Str": Str, "Opaque": Opq}[key.split(":")[1]]
            return z3.ArraySort(Ref, z3.ArraySort(I, s))
        base, suf = key, ""
        cls, fld = key.split(".", 1)
        name = fld.split("#")[0].split(".")[0]
        t = parse_type(self.reg.schema[cls][name])
        suf = fld[len(name):]
        for s, so in flatten(t):
            if s == suf:
                return z3.ArraySort(Ref, so)
        raise Unsupported("heap key " + key)

    def heap_get(self, h, key):
        if key not in h:
            a = z3.Const(key + "@0", self.sort_of(key))
            for hh in self.all_heaps:
                hh.setdefault(key, a)
            h.setdefault(key, a)
        return h[key]

    def get(self, key):
        return self.heap_get(self.heap, key)

    def put(self, key, arr):
        self.get(key)
        for li in self.loops:
            if key not in li.fields:
                li.fields.add(key)
                self.table.dirty = True
                if not self.table.scout:
                    raise Restart(f"loop modifies {key}")
        self.heap[key] = arr

    def schema_field(self, cname, attr):
        for c in self.prog.mro(cname) or [cname]:
            if c in self.reg.schema and attr in self.reg.schema[c]:
                return c, parse_type(self.reg.schema[c][attr])
        if cname not in self.prog.classes and cname in self.reg.schema and attr in self.reg.schema[cname]:
            return cname, parse_type(self.reg.schema[cname][attr])
        return None

    def ids(self, classes):
        out = set()
        for c in classes:
            for s in self.prog.subclasses(c):
                out.add(self.prog.class_ids[s])
        return sorted(out)

    def isa(self, r, classes):
        ids = self.ids(classes)
        return z3.Or([tag(r) == i for i in ids]) if ids else z3.BoolVal(False)

    def typefact(self, v):
        """a value read from the heap or received has its declared type"""
        if isinstance(v, RefV):
            ok = z3.And(z3.Select(self.get("$alive"), v.e), self.isa(v.e, v.classes))
            self.assume(z3.Or(v.e == null, ok) if v.nullable else z3.And(v.e != null, ok))
        elif isinstance(v, (ListV, SetV)):
            self.assume(z3.And(v.e != null, z3.Select(self.get("$alive"), v.e)))
            if isinstance(v, ListV):
                self.assume(z3.Select(self.get("$len"), v.e) >= 0)
        elif isinstance(v, Tup):
            for x in v.items:
                self.typefact(x)
        elif isinstance(v, OptV):
            if isinstance(v.val, (RefV, Tup)):
                self.typefact(v.val)
        return v

    def load(self, r, cname, attr):
        c, t = self.schema_field(cname, attr)
        es = [z3.Select(self.get(f"{c}.{attr}{s}"), r) for s, _ in flatten(t)]
        return self.typefact(wrap(t, es))

    def store(self, r, cname, attr, v):
        c, t = self.schema_field(cname, attr)
        v = self.coerce(v, t)
        if t.kind == "opq":
            es = [getattr(v, "e", None) if isinstance(v, OpqV) and v.e is not None else self.fresh("opq", Opq)]
        else:
            try:
                es = unwrap(t, v)
            except TypeError as e:
                raise Unsupported(f"storing {v} into {c}.{attr}: {t}")
        if t.kind == "ref" and not isinstance(v, NoneV):
            ok = self.isa(es[0], t.args)
            if not t.nullable:
                self.oblige(f"{c}.{attr} is never None", es[0] != null, "type")
            if not set(self.ids(v.classes)) <= set(self.ids(t.args)):
                self.oblige(f"{c}.{attr} holds a {t}", z3.Or(es[0] == null, ok), "type")
        for (s, _), e in zip(flatten(t), es):
            k = f"{c}.{attr}{s}"
            self.put(k, z3.Store(self.get(k), r, e))

    def alloc(self, what):
        r = self.fresh("new_" + what, Ref)
        al = self.get("$alive")
        self.assume(z3.And(r != null, z3.Not(z3.Select(al, r))))
        self.put("$alive", z3.Store(al, r, z3.BoolVal(True)))
        return r

    def new_object(self, cname):
        r = self.alloc(cname)
        if cname in self.prog.class_ids:
            self.assume(tag(r) == self.prog.class_ids[cname])
        return RefV(r, (cname,), False)

    # ---- lists
    def new_clist(self, items, site):
        l = CList(items, site)
        l.sym = None
        l.t0 = len(self.clists)
        self.clists.append(l)
        return l

    def materialise(self, l, etype=None):
        if l.sym is not None:
            return l.sym
        t = etype
        if t is None:
            for v in l.items:
                tv = type_of(self.norm(v))
                t = tv if t is None else join(t, tv)
            if l.site in self.table.etypes:
                t = self.table.etypes[l.site] if t is None else join(t, self.table.etypes[l.site])
        if t is None:
            t = T("opq")
        r = self.alloc("list")
        l.sym = ListV(r, t)
        self.put("$len", z3.Store(self.get("$len"), r, z3.IntVal(len(l.items))))
        for i, v in enumerate(l.items):
            self.set_el(l.sym, z3.IntVal(i), v)
        return l.sym

    def norm(self, v):
        if isinstance(v, CList):
            return self.materialise(v)
        return v

    def set_el(self, lv, i, v):
        v = self.coerce(v, lv.etype)
        try:
            es = unwrap(lv.etype, v)
        except TypeError:
            raise Unsupported(f"list of {lv.etype} gets {v}")
        for (s, so), e in zip(flatten(lv.etype), es):
            k = f"$E{s}:{so}"
            a = self.get(k)
            self.put(k, z3.Store(a, lv.e, z3.Store(z3.Select(a, lv.e), i, e)))

    def get_el(self, lv, i):
        es = [z3.Select(z3.Select(self.get(f"$E{s}:{so}"), lv.e), i) for s, so in flatten(lv.etype)]
        return self.typefact(wrap(lv.etype, es))

    def length(self, l):
        if isinstance(l, CList):
            if l.sym is None:
                return z3.IntVal(len(l.items))
            l = l.sym
        if isinstance(l, (Tup,)):
            return z3.IntVal(len(l.items))
        if isinstance(l, ListV):
            return z3.Select(self.get("$len"), l.e)
        raise Unsupported(f"len of {type(l).__name__}")

    def append(self, l, v):
        if isinstance(l, CList):
            if l.sym is None:
                t = type_of(self.norm(v)) if not isinstance(v, (FuncV,)) else T("opq")
                for li in self.loops:
                    if l.t0 < li.t0 and l.site not in li.mat:
                        li.mat.add(l.site)
                        old = self.table.etypes.get(l.site)
                        self.table.etypes[l.site] = t if old is None else join(old, t)
                        raise Restart("list grows in a loop")
                l.items.append(v)
                return
            l0, l = l, l.sym
            t = type_of(self.norm(v))
            if l0.site is not None:
                old = self.table.etypes.get(l0.site)
                nt = t if old is None else join(old, t)
                if l.etype != nt and (old is None or nt != old):
                    self.table.etypes[l0.site] = nt
                    raise Restart("element type")
        if isinstance(l, ListV):
            n = self.length(l)
            self.set_el(l, n, v)
            self.put("$len", z3.Store(self.get("$len"), l.e, n + 1))
            return
        raise Unsupported("append to " + type(l).__name__)

    def new_list(self, etype, length, what="list"):
        r = self.alloc(what)
        self.put("$len", z3.Store(self.get("$len"), r, length))
        return ListV(r, etype)

    # ---- coercion
    def coerce(self, v, t):
        if isinstance(v, CList):
            if t.kind == "list":
                return self.materialise(v, t.args[0] if v.sym is None and all(self.fits(x, t.args[0]) for x in v.items) else None)
            if t.kind == "opq":
                return OpqV("list")
            if t.kind in ("tuple", "vec") and v.sym is None:
                return self.coerce(Tup(v.items), t)
            return self.materialise(v)
        if isinstance(v, OptV) and not t.nullable and t.kind not in ("union",):
            self.safe(z3.Not(v.n), "TypeError", "value is not None")
            return v.val
        if t.kind == "real" and isinstance(v, Num):
            return Num(toreal(v.e))
        if t.kind == "real" and isinstance(v, Bool):
            return Num(z3.If(v.e, z3.RealVal(1), z3.RealVal(0)))
        if t.kind == "bool" and isinstance(v, (Num, RefV, OptV)):
            return v
        if t.kind in ("tuple",) and isinstance(v, Tup) and len(v.items) == len(t.args):
            return Tup([self.coerce(x, a) for x, a in zip(v.items, t.args)])
        if t.kind == "vec" and isinstance(v, Tup) and len(v.items) == len(t.args):
            return Vec([self.coerce(x, a) for x, a in zip(v.items, t.args)])
        return v

    def fits(self, v, t):
        try:
            unwrap(t, v if not isinstance(v, Num) or t.kind != "real" else Num(toreal(v.e)))
            return True
        except (TypeError, Unsupported):
            return False

    def truth(self, v):
        """-> z3 Bool or python bool"""
        if isinstance(v, Bool):
            return v.e
        if isinstance(v, NoneV):
            return False
        if isinstance(v, RefV):
            r = self.lookup_classes(v.classes, "__bool__")
            return v.e != null
        if isinstance(v, Num):
            return v.e != 0
        if isinstance(v, OptV):
            inner = self.truth(v.val)
            return z3.And(z3.Not(v.n), inner)
        if isinstance(v, CList):
            return self.length(v) != 0 if v.sym is not None else len(v.items) > 0
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, ListV):
            return self.length(v) != 0
        if isinstance(v, StrV):
            if v.s is not None:
                return bool(v.s)
            return self.fresh("strtruth", B)
        if isinstance(v, (FuncV, ClassV, ExtV)):
            return True
        if isinstance(v, DictV):
            return len(v.d) > 0 if v.open is None else self.fresh("dicttruth", B)
        if isinstance(v, OpqV):
            return self.fresh("opqtruth", B)
        raise Unsupported("truth of " + type(v).__name__)

    def lookup_classes(self, classes, attr):
        return None

    # ---- attributes
    def members(self, v, attr):
        """{resolution: [class ids]} for an attribute of an object"""
        groups = {}
        for c in v.classes:
            if c not in self.prog.classes:
                f = self.schema_field(c, attr)
                groups.setdefault(("field", c) if f else None, []).append(c)
                continue
            for s in self.prog.subclasses(c):
                r = self.prog.lookup(s, attr)
                f = self.schema_field(s, attr)
                if r is not None and not (isinstance(r, tuple) and f):
                    k = r if isinstance(r, FuncInfo) else ("const", r[1].name, attr)
                elif f:
                    k = ("field", f[0])
                else:
                    k = None
                groups.setdefault(k, [])
                if s not in groups[k]:
                    groups[k].append(s)
        return groups

    def nonnull(self, v, what):
        if isinstance(v, OptV):
            self.safe(z3.Not(v.n), "AttributeError", f"{what} of None")
            return v.val
        if isinstance(v, NoneV):
            self.safe(z3.BoolVal(False), "AttributeError", f"{what} of None")
            raise PathEnd()
        if isinstance(v, RefV) and v.nullable:
            self.safe(v.e != null, "AttributeError", f"{what} of None")
            return RefV(v.e, v.classes, False)
        return v

    def pick(self, v, groups):
        """choose the resolution by the object's class"""
        ks = list(groups)
        if self.contract.quant and len(ks) > 1:
            # a quantified fact may settle the class
            for k in ks[:]:
                ids = [self.prog.class_ids[s] for s in groups[k] if s in self.prog.class_ids]
                if len(ks) > 1 and prove(self.facts, z3.Not(z3.Or([tag(v.e) == i for i in ids])), .2).status == "proved":
                    ks.remove(k)
            self.assume(z3.Or([tag(v.e) == self.prog.class_ids[s] for k in ks for s in groups[k] if s in self.prog.class_ids]))
        for k in ks[:-1]:
            ids = [self.prog.class_ids[s] for s in groups[k] if s in self.prog.class_ids]
            if self.decide(z3.Or([tag(v.e) == i for i in ids])):
                return k, groups[k]
        return ks[-1], groups[ks[-1]]

    def getattr(self, v, attr):
        if isinstance(v, (OptV, NoneV)):
            v = self.nonnull(v, attr)
        if isinstance(v, RefV):
            v = self.nonnull(v, attr)
            groups = self.members(v, attr)
            # an abstract contract on a base class stands for all overriding methods
            vc = self.virtual(v, attr)
            if vc is not None:
                return FuncV(vc, v) if vc.kind != "property" else self.call_fi(vc, [v], {}, v)
            if None in groups and len(groups) > 1:
                bad = groups.pop(None)
                ids = [self.prog.class_ids[s] for s in bad if s in self.prog.class_ids]
                self.safe(z3.Not(z3.Or([tag(v.e) == i for i in ids])), "AttributeError", f"no attribute {attr}")
            if list(groups) == [None]:
                if any(c not in self.prog.classes for c in v.classes) or True:
                    raise Unsupported(f"attribute {attr} of {v.classes}")
            k, classes = self.pick(v, groups)
            v = RefV(v.e, classes, False)
            if isinstance(k, tuple) and k[0] == "field":
                return self.load(v.e, k[1], attr)
            if isinstance(k, tuple):
                ci = self.prog.classes[k[1]]
                return self.eval_const(ci.consts[attr], ci.module)
            if k.kind == "property":
                return self.call_fi(k, [v], {}, v)
            if k.kind == "static":
                return FuncV(k)
            if k.kind == "classmethod":
                raise Unsupported("classmethod")
            return FuncV(k, v)
        if isinstance(v, ClassV):
            r = self.prog.lookup(v.name, attr)
            if isinstance(r, FuncInfo):
                return FuncV(r)
            if r is not None:
                return self.eval_const(r[2], r[1].module)
            if self.is_enum(v.name):
                raise Unsupported("enum member " + attr)
            raise Unsupported(f"{v.name}.{attr}")
        if isinstance(v, ExtV):
            return ExtV(v.name + "." + attr)
        if isinstance(v, SuperV):
            mro = self.prog.mro(v.obj.classes[0])
            for s in mro[mro.index(v.cls) + 1:]:
                ci = self.prog.classes[s]
                if attr in ci.methods:
                    return FuncV(ci.methods[attr], v.obj)
            return BoundExt(v, attr)
        if isinstance(v, Num) and attr == "real":
            return v
        if isinstance(v, OpqV):
            return OpqV(v.name + "." + attr)
        if isinstance(v, FuncV):
            raise Unsupported("attribute of function")
        return BoundExt(v, attr)

    def is_enum(self, cname):
        return "Enum" in self.prog.classes[cname].base_names

    def virtual(self, v, attr):
        for c in v.classes:
            for m in self.prog.mro(c):
                q = f"{m}.{attr}"
                k = self.reg.contracts.get(q)
                if k is not None and k.virtual:
                    return self.prog.funcs.get(q)
        return None

    def eval_const(self, expr, module):
        fi = FuncInfo("<const>", None, module)
        self.frames.append(Frame(fi))
        try:
            return self.eval(expr)
        finally:
            self.frames.pop()

    def setattr(self, v, attr, val):
        v = self.nonnull(v, attr)
        if isinstance(v, OpqV):
            self.trace.append(("setattr", v.name + "." + attr, [val], {}))
            return
        if not isinstance(v, RefV):
            raise Unsupported("attribute assignment on " + type(v).__name__)
        groups = {}
        for c in v.classes:
            for s in (self.prog.subclasses(c) if c in self.prog.classes else [c]):
                st = self.prog.lookup_setter(s, attr) if s in self.prog.classes else None
                f = self.schema_field(s, attr)
                k = st if st is not None else (("field", f[0]) if f else None)
                groups.setdefault(k, []).append(s)
        if None in groups:
            if len(groups) == 1:
                raise Unsupported(f"attribute {attr} of {v.classes}")
            ids = [self.prog.class_ids[s] for s in groups.pop(None)]
            self.safe(z3.Not(z3.Or([tag(v.e) == i for i in ids])), "AttributeError", f"no attribute {attr}")
        k, classes = self.pick(v, groups)
        v = RefV(v.e, classes, False)
        if isinstance(k, tuple):
            self.store(v.e, k[1], attr, val)
        else:
            self.call_fi(k, [v, val], {}, v)

    # ---- calls
    def bind(self, fi, args, kwargs):
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out, rest = {}, list(args)
        for n in names:
            if rest:
                out[n] = rest.pop(0)
        if a.vararg:
            out[a.vararg.arg] = Tup(rest)
        elif rest:
            self.safe(z3.BoolVal(False), "TypeError", f"too many arguments for {fi.qualname}")
            raise PathEnd()
        kw = dict(kwargs)
        op = kw.pop("**", None)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        if a.kwarg:
            out[a.kwarg.arg] = DictV(kw, op)
        elif kw:
            self.safe(z3.BoolVal(False), "TypeError", f"unexpected argument {list(kw)} for {fi.qualname}")
            raise PathEnd()
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in out:
                if n in ds:
                    out[n] = self.eval_const(ds[n], fi.module)
                else:
                    self.safe(z3.BoolVal(False), "TypeError", f"missing argument {n} for {fi.qualname}")
                    raise PathEnd()
        return out

    def call_fi(self, fi, args, kwargs, self_val=None, closure=None):
        c = self.reg.contracts.get(fi.qualname)
        bound = self.bind(fi, args, kwargs)
        if c is not None and not c.inline:
            return self.apply_contract(fi, c, bound)
        if fi in self.call_stack or len(self.call_stack) > self.MAXDEPTH or (fi is self.fi and self.subdepth == 0 and False):
            raise Unsupported(f"recursive call of {fi.qualname} without a contract")
        self.inlined.add(fi.qualname)
        return self.run_body(fi, bound, closure)

    def run_body(self, fi, bound, closure=None):
        fr = Frame(fi, closure, fi.cls)
        fr.vars.update(bound)
        self.frames.append(fr)
        self.call_stack.append(fi)
        ln = self.line
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body)
            self.block(fi.node.body)
            return NONE
        except Return as r:
            return r.v
        finally:
            self.frames.pop()
            self.call_stack.pop()
            self.line = ln

    def mods_of(self, c, ctx):
        out = {}
        for k, v in (c.modifies(ctx) if c.modifies else {}).items():
            for key in self.expand(k):
                out[key] = v
        return out

    def expand(self, k):
        if k == "$list":
            return ["$len"] + sorted(x for x in set(self.heap) | set(self.reg_elkeys()) if x.startswith("$E"))
        if k.startswith("$"):
            return [k]
        cls, fld = k.split(".", 1)
        t = parse_type(self.reg.schema[cls][fld])
        return [k + s for s, _ in flatten(t)]

    def reg_elkeys(self):
        return ["$E:Ref", "$E:Real"]

    def alloc_keys(self, classes):
        out = []
        for c in classes:
            if c in ("list", "$list"):
                out += self.expand("$list")
                continue
            if c == "set":
                out.append("$set")
                continue
            for m in self.prog.mro(c) or [c]:
                for fld in self.reg.schema.get(m, {}):
                    out += self.expand(f"{m}.{fld}")
        return out

    def apply_contract(self, fi, c, bound):
        self.callees.add(fi.qualname)
        args = {}
        for n, v in bound.items():
            t = c.params.get(n)
            if t is None:
                args[n] = v
                continue
            v = self.coerce(v, t) if t.kind != "pred" else v
            if t.kind not in ("opq", "union", "pred") and not isinstance(v, (DictV, FuncV, PredV)):
                try:
                    es = unwrap(t, v)
                except TypeError:
                    raise Unsupported(f"argument {n} of {fi.qualname}: {v} is not {t}")
                if t.kind == "ref":
                    if not t.nullable and (isinstance(v, NoneV) or v.nullable):
                        self.oblige(f"{fi.qualname}: argument {n} is not None", es[0] != null, "pre")
                    if isinstance(v, RefV) and not set(self.ids(v.classes)) <= set(self.ids(t.args)) and t.args[0] in self.prog.classes:
                        self.oblige(f"{fi.qualname}: argument {n} is a {t}", z3.Or(es[0] == null, self.isa(es[0], t.args)), "pre")
                    v = RefV(es[0], t.args if not isinstance(v, RefV) else v.classes, t.nullable)
                elif not isinstance(v, (CList,)):
                    v = wrap(t, es)
            args[n] = v
        if c.trace:
            self.trace.append((fi.qualname, [], dict(args), {}))
        hook = self.contract.before.get(fi.qualname)
        if hook:
            hook(self, C(self, self.args0, self.old, self.heap), args)
        for n, srt in c.logical.items():
            # the contract holds for every value of its logical variables: take the caller's own where it has one
            v = self.args0.get(n)
            own = getattr(self, "logical_args", {}).get(n)
            args[n] = OpqV(n, own) if own is not None else v if v is not None and n in self.contract.logical else (OpqV(n, self.fresh(n, srt)) if not isinstance(srt, str) else self.fresh_value(parse_type(srt), n))
        ctx = C(self, args, dict(self.heap), self.heap)
        self.all_heaps.append(ctx.oldh)
        if c.model:
            return c.model(self, ctx)
        if c.requires:
            for nm, g in c.requires(ctx):
                self.oblige(f"{fi.qualname} requires {nm}", g, "pre")
        for exc, cond in c.raises.items():
            g = cond(ctx) if cond else self.fresh("raises_" + exc, B)
            if any(self.caught(exc, h) for h in self.handlers) or exc in self.contract.raises:
                if self.decide(g):
                    raise PyExc(exc, self.line)
            else:
                self.oblige(f"no {exc}: {fi.qualname}", z3.Not(g), "safety")
        mods = self.mods_of(c, ctx)
        keys = list(mods)
        if c.allocs:
            keys += [k for k in self.alloc_keys(c.allocs) if k not in keys]
            al = self.get("$alive")
            na = self.fresh("alive", al.sort())
            r = z3.Const("r?", Ref)
            self.assume(z3.ForAll([r], z3.Implies(z3.Select(al, r), z3.Select(na, r)), patterns=[z3.Select(al, r), z3.Select(na, r)]))
            self.put("$alive", na)
        olda = ctx.oldh.get("$alive")
        for k in keys:
            a = self.get(k)
            m = mods.get(k, [])
            if not c.allocs and isinstance(m, (list, tuple)):
                for r in m:
                    a = z3.Store(a, r, self.fresh(k, a.sort().range()))
                self.put(k, a)
                continue
            na = self.fresh(k, a.sort())
            if m is not True:
                r = z3.Const("r?", Ref)
                keep = []
                if c.allocs:
                    keep.append(z3.Select(olda, r))
                if callable(m):
                    keep.append(z3.Not(m(r)))
                else:
                    keep += [r != x for x in m]
                body = z3.Implies(z3.And(keep), z3.Select(na, r) == z3.Select(a, r))
                self.assume(z3.ForAll([r], body, patterns=[z3.Select(na, r)]))
            self.put(k, na)
        res = self.fresh_value(c.ret, "ret_" + fi.name)
        if c.result_fn:
            res = c.result_fn(self, ctx)
        ctx._result = res
        if c.ensures:
            for nm, g in c.ensures(ctx):
                self.assume(g)
        if c.on_return:
            c.on_return(self, ctx)
        hook = self.contract.after.get(fi.qualname)
        if hook:
            hook(self, C(self, self.args0, self.old, self.heap), args, ctx)
        return res

    def fresh_value(self, t, base, facts=True):
        if t.kind == "none":
            return NONE
        if t.kind == "pred":
            return PredV()
        if t.kind == "union":
            for a in t.args[:-1]:
                if self.decide(self.fresh("case", B)):
                    return self.fresh_value(a, base, facts)
            return self.fresh_value(t.args[-1], base, facts)
        v = wrap(t, [self.fresh(base + s, so) for s, so in flatten(t)])
        return self.typefact(v) if facts else v

    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            if f.self_val is not None:
                args = [f.self_val] + list(args)
            if f.fi.qualname in self.reg.ext:
                self.exts.add(f.fi.qualname)
                return self.reg.ext[f.fi.qualname](self, args, kwargs)
            return self.call_fi(f.fi, args, kwargs, f.self_val, f.closure)
        if isinstance(f, ClassV):
            return self.construct(f.name, args, kwargs)
        if isinstance(f, (ExtV, BoundExt)):
            from . import builtin
            return builtin.call(self, f, args, kwargs)
        if isinstance(f, PredV):
            a, b = [v.val if isinstance(v, OptV) else v for v in args]
            return Bool(f.at(a.e, b.e))
        if isinstance(f, OpqV):
            self.trace.append(("call", f.name, list(args), dict(kwargs)))
            return OpqV(f.name + "()")
        if isinstance(f, RefV):
            raise Unsupported("call of an object")
        raise Unsupported("call of " + type(f).__name__)

    def construct(self, cname, args, kwargs):
        if cname not in self.prog.classes:
            raise Unsupported("constructor " + cname)
        o = self.new_object(cname)
        init = self.prog.lookup(cname, "__init__")
        if isinstance(init, FuncInfo):
            # contracts of constructors are stated for the class that defines them
            self.call_fi(init, [o] + list(args), kwargs, o)
        return o

    # ---- expressions
    def eval(self, n):
        if hasattr(n, "lineno"):
            self.line = n.lineno
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Bool(v)
        if isinstance(v, int):
            return Num(z3.IntVal(v))
        if isinstance(v, float):
            from decimal import Decimal
            return Num(z3.RealVal(str(Decimal(repr(v)))))
        if isinstance(v, str):
            return StrV(v)
        raise Unsupported("constant " + repr(v))

    def e_JoinedStr(self, n):
        return StrV()

    def e_Name(self, n):
        fr = self.frames[-1]
        v = fr.get(n.id)
        if v is not None:
            return v
        r = self.prog.resolve(fr.module, n.id)
        if r is None:
            return ExtV("builtins." + n.id)
        if r[0] == "class":
            return ClassV(r[1])
        if r[0] == "func":
            return FuncV(r[1])
        if r[0] == "ext":
            return ExtV(r[1])
        if r[0] == "const":
            return self.eval_const(r[2], r[1])
        raise Unsupported("name " + n.id)

    def e_Attribute(self, n):
        v = self.eval(n.value)
        self.line = n.lineno
        if isinstance(v, ClassV) and self.is_enum(v.name) and n.attr in self.prog.classes[v.name].consts:
            return Num(self.enum_value(v.name, n.attr))
        return self.getattr(v, n.attr)

    def enum_value(self, cname, attr):
        c = self.prog.classes[cname].consts
        e = c[attr]
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return z3.IntVal(e.value)
        return z3.IntVal(1000 + list(c).index(attr))

    def e_Tuple(self, n):
        return Tup([self.eval(x) for x in n.elts])

    def e_List(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                raise Unsupported("starred list")
            out.append(self.eval(x))
        return self.new_clist(out, self.site(n))

    def site(self, n):
        return (tuple(f.fi.qualname for f in self.frames if f.fi), getattr(n, "lineno", 0), getattr(n, "col_offset", 0), type(n).__name__)

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict expansion")
            kv = self.eval(k)
            if not isinstance(kv, StrV) or kv.s is None:
                raise Unsupported("dict key")
            d[kv.s] = self.eval(v)
        return DictV(d)

    def e_IfExp(self, n):
        return self.eval(n.body) if self.decide(self.truth(self.eval(n.test))) else self.eval(n.orelse)

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        v = self.eval(n.values[0])
        for x in n.values[1:]:
            t = self.truth(v)
            if isinstance(v, Bool) and self.simple(x) and z3.is_expr(t):
                # no side effect and no exception: keep as one formula
                w = self.eval(x)
                if isinstance(w, Bool):
                    v = Bool(z3.And(v.e, w.e) if is_and else z3.Or(v.e, w.e))
                    continue
            if isinstance(v, RefV) and not is_and and self.plain_field(x) and not z3.is_true(t) and not z3.is_false(t):
                w = self.eval(x)
                if isinstance(w, RefV):
                    v = RefV(z3.If(t, v.e, w.e), sorted(set(v.classes) | set(w.classes)), w.nullable)
                    continue
                raise Unsupported("alternative of a different kind")
            if self.decide(t) != is_and:
                return v
            v = self.eval(x)
        return v

    def plain_field(self, n):
        """a field of a local variable that is certainly an object: reading it has no effect and no decision"""
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)):
            return False
        v = self.frames[-1].get(n.value.id)
        if not isinstance(v, RefV) or v.nullable or self.virtual(v, n.attr) is not None:
            return False
        groups = list(self.members(v, n.attr))
        return len(groups) == 1 and isinstance(groups[0], tuple) and groups[0][0] == "field"

    def simple(self, n):
        """cannot raise or change anything: names, constants and comparisons of them"""
        for x in ast.walk(n):
            if not isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context, ast.BinOp, ast.Add, ast.Sub, ast.Mult)):
                return False
            if isinstance(x, ast.Name):
                v = self.frames[-1].get(x.id)
                if not isinstance(v, (Num, Bool, NoneV)):
                    return False
        return True

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return Bool(z3.Not(t) if z3.is_expr(t) else not t)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Vec):
                return Vec([Num(z3.simplify(-x.e)) for x in v.items])
            v = self.num(v)
            return Num(-v.e) if not (z3.is_int_value(v.e) or z3.is_rational_value(v.e)) else Num(z3.simplify(-v.e))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def num(self, v):
        if isinstance(v, OptV):
            self.safe(z3.Not(v.n), "TypeError", "arithmetic on None")
            v = v.val
        if isinstance(v, Bool):
            return Num(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, NoneV):
            self.safe(z3.BoolVal(False), "TypeError", "arithmetic on None")
            raise PathEnd()
        if not isinstance(v, Num):
            raise Unsupported("number expected, got " + type(v).__name__)
        return v

    def e_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right), n)

    def binop(self, op, a, b, n=None):
        self.line = getattr(n, "lineno", self.line)
        if isinstance(a, Vec) or isinstance(b, Vec):
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    raise Unsupported("vectors of different length")
                return Vec([self.binop(op, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, Vec):
                return Vec([self.binop(op, x, b) for x in a.items])
            return Vec([self.binop(op, a, y) for y in b.items])
        if isinstance(op, ast.Add) and isinstance(a, (CList, ListV)) and isinstance(b, (CList, ListV)):
            return self.concat(a, b, n)
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, StrV) or isinstance(b, StrV):
            return StrV()
        if isinstance(a, (RefV,)) or (isinstance(a, OptV) and isinstance(a.val, RefV)):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(op))
            if nm:
                return self.call(self.getattr(a, nm), [b], {})
        if isinstance(a, OpqV) or isinstance(b, OpqV):
            return OpqV("op")
        if isinstance(a, ListV) or isinstance(b, ListV) or isinstance(a, CList) or isinstance(b, CList):
            raise Unsupported("list arithmetic")
        a, b = self.num(a), self.num(b)
        x, y = a.e, b.e
        if isinstance(op, ast.Pow):
            k = z3.simplify(y)
            if z3.is_int_value(k) and 0 <= k.as_long() <= 4:
                k = k.as_long()
                r = x
                for _ in range(k - 1):
                    r = r * x
                return Num(r if k else z3.IntVal(1))
            raise Unsupported("power")
        if isinstance(op, ast.Mod):
            if x.sort() == I and y.sort() == I and z3.is_int_value(y):
                return Num(x % y)
            x, y = toreal(x), toreal(y)
            self.safe(y != 0, "ZeroDivisionError", "modulo")
            return Num(self.fmod(x, y))
        if isinstance(op, ast.FloorDiv):
            if x.sort() == I and y.sort() == I and z3.is_int_value(y) and y.as_long() > 0:
                return Num(x / y)
            raise Unsupported("floor division")
        if isinstance(op, ast.Div):
            x, y = toreal(x), toreal(y)
            self.safe(y != 0, "ZeroDivisionError", "division")
            return Num(x / y)
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        if isinstance(op, ast.Add):
            r = x + y
        elif isinstance(op, ast.Sub):
            r = x - y
        elif isinstance(op, ast.Mult):
            r = x * y
        else:
            raise Unsupported("operator " + type(op).__name__)
        if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            r = z3.simplify(r)
        return Num(r)

    def fmod(self, x, y):
        """Python's modulo for a positive modulus: r = x - k*y, 0 <= r < y"""
        r, k = FMOD(x, y), FMODK(x, y)
        self.assume(z3.And(r == x - z3.ToReal(k) * y, z3.Implies(y > 0, z3.And(r >= 0, r < y)), z3.Implies(y < 0, z3.And(r <= 0, r > y))))
        return r

    def concat(self, a, b, n):
        if isinstance(a, CList) and isinstance(b, CList) and a.sym is None and b.sym is None:
            return self.new_clist(a.items + b.items, self.site(n) if n is not None else None)
        if isinstance(b, CList) and b.sym is None:
            la = self.norm(a)
            res = self.copy_list(la)
            for v in b.items:
                self.append(res, v)
            return res
        la, lb = self.norm(a), self.norm(b)
        et = join(la.etype, lb.etype)
        n1, n2 = self.length(la), self.length(lb)
        res = self.new_list(et, n1 + n2)
        i = z3.Const("i?", I)
        for s, so in flatten(et):
            k = f"$E{s}:{so}"
            arr = self.get(k)
            na = self.fresh("concat", z3.ArraySort(I, so))
            A1, A2 = z3.Select(arr, la.e), z3.Select(arr, lb.e)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), z3.Select(na, i) == z3.Select(A1, i)), patterns=[z3.Select(na, i)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(n1 <= i, i < n1 + n2), z3.Select(na, i) == z3.Select(A2, i - n1)), patterns=[z3.Select(na, i)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n2), z3.Select(na, i + n1) == z3.Select(A2, i)), patterns=[z3.Select(A2, i)]))
            self.put(k, z3.Store(arr, res.e, na))
        return res

    def copy_list(self, l):
        if isinstance(l, CList) and l.sym is None:
            return self.new_clist(l.items, None)
        l = self.norm(l)
        res = self.new_list(l.etype, self.length(l))
        for s, so in flatten(l.etype):
            k = f"$E{s}:{so}"
            arr = self.get(k)
            self.put(k, z3.Store(arr, res.e, z3.Select(arr, l.e)))
        return res

    def e_Compare(self, n):
        l = self.eval(n.left)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            r = self.eval(rn)
            c = self.compare(op, l, r)
            acc = c if acc is None else z3.And(acc, c)
            l = r
        return Bool(acc)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return z3.Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, isinstance(op, ast.NotEq))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, RefV) and isinstance(b, RefV):
            nm = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
            t = self.truth(self.call(self.getattr(a, nm), [b], {}))
            return t if z3.is_expr(t) else z3.BoolVal(t)
        a, b = self.num(a), self.num(b)
        x, y = a.e, b.e
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def identical(self, a, b):
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return z3.BoolVal(True)
        if isinstance(b, NoneV):
            a, b = b, a
        if isinstance(a, NoneV):
            if isinstance(b, OptV):
                return b.n
            if isinstance(b, (RefV, ListV, SetV)):
                return b.e == null if not isinstance(b, RefV) or b.nullable else z3.BoolVal(False)
            if isinstance(b, OpqV):
                return self.fresh("opqnone", B)
            return z3.BoolVal(False)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return a.e == b.e
        if isinstance(a, CList) or isinstance(b, CList):
            if isinstance(a, CList) and isinstance(b, CList) and a.sym is None and b.sym is None:
                return z3.BoolVal(a is b)
            a, b = self.norm(a), self.norm(b)
        if hasattr(a, "e") and hasattr(b, "e") and isinstance(a, (RefV, ListV, SetV)) and isinstance(b, (RefV, ListV, SetV)):
            return a.e == b.e
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.equal(a, b)
        raise Unsupported(f"identity of {type(a).__name__} and {type(b).__name__}")

    def equal(self, a, b, neg=False):
        r = self._equal(a, b, neg)
        return r

    def _equal(self, a, b, neg):
        N = (lambda x: z3.Not(x)) if neg else (lambda x: x)
        if isinstance(a, RefV) and not isinstance(b, OpqV):
            # classes with their own equality
            nm = "__ne__" if neg else "__eq__"
            own = [s for c in a.classes if c in self.prog.classes for s in self.prog.subclasses(c) if self.prog.lookup(s, "__eq__") is not None]
            if own:
                if not a.nullable or self.decide(a.e != null):
                    a2 = RefV(a.e, a.classes, False)
                    t = self.truth(self.call(self.getattr(a2, nm if all(self.prog.lookup(s, nm) for s in own) else "__eq__"), [b], {}))
                    t = t if z3.is_expr(t) else z3.BoolVal(t)
                    return t if all(self.prog.lookup(s, nm) for s in own) else N(t)
                return N(self.identical(NONE, b))
            if isinstance(b, (NoneV, RefV)):
                return N(self.identical(a, b))
        if isinstance(b, RefV) and isinstance(a, NoneV):
            return N(self.identical(a, b))
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return N(self.identical(a, b))
        if isinstance(a, OptV) or isinstance(b, OptV):
            ao = a if isinstance(a, OptV) else OptV(z3.BoolVal(False), a)
            bo = b if isinstance(b, OptV) else OptV(z3.BoolVal(False), b)
            return N(z3.Or(z3.And(ao.n, bo.n), z3.And(z3.Not(ao.n), z3.Not(bo.n), self._equal(ao.val, bo.val, False))))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return N(z3.BoolVal(False))
            return N(z3.And([self._equal(x, y, False) for x, y in zip(a.items, b.items)] or [z3.BoolVal(True)]))
        if isinstance(a, Bool) and isinstance(b, Bool):
            return N(a.e == b.e)
        if isinstance(a, (Num, Bool)) and isinstance(b, (Num, Bool)):
            x, y = self.num(a).e, self.num(b).e
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            return N(x == y)
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.s is not None and b.s is not None:
                return N(z3.BoolVal(a.s == b.s))
            return self.fresh("streq", B)
        if isinstance(a, OpqV) or isinstance(b, OpqV):
            return self.fresh("opqeq", B)
        if isinstance(a, ListV) and isinstance(b, ListV) or isinstance(a, CList) or isinstance(b, CList):
            raise Unsupported("list equality")
        if type(a) is not type(b):
            return N(z3.BoolVal(False))
        return N(self.identical(a, b))

    def contains(self, a, b):
        if isinstance(b, SetV):
            if not isinstance(a, RefV):
                raise Unsupported("in set")
            return z3.Select(z3.Select(self.get("$set"), b.e), a.e)
        if isinstance(b, CList) and b.sym is None or isinstance(b, Tup):
            return z3.Or([self._equal(a, x, False) for x in b.items] or [z3.BoolVal(False)])
        if isinstance(b, DictV) and isinstance(a, StrV) and a.s is not None and b.open is None:
            return z3.BoolVal(a.s in b.d)
        lb = self.norm(b)
        if isinstance(lb, ListV) and isinstance(a, RefV) and lb.etype.kind == "ref":
            k = self.fresh("idx", I)
            res = self.fresh("isin", B)
            el = z3.Select(self.get("$E:Ref"), lb.e)
            n = self.length(lb)
            i = z3.Const("i?", I)
            self.assume(z3.Implies(res, z3.And(0 <= k, k < n, z3.Select(el, k) == a.e)))
            self.assume(z3.Implies(z3.Not(res), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(el, i) != a.e), patterns=[z3.Select(el, i)])))
            return res
        raise Unsupported("in")

    def e_Subscript(self, n):
        v = self.eval(n.value)
        if isinstance(v, OptV):
            v = self.nonnull(v, "item")
        if isinstance(n.slice, ast.Slice):
            return self.slice(v, n.slice, n)
        i = self.eval(n.slice)
        self.line = n.lineno
        if isinstance(v, DictV):
            if isinstance(i, StrV) and i.s is not None and i.s in v.d:
                return v.d[i.s]
            if v.open is not None:
                return OpqV("item")
            self.safe(z3.BoolVal(False), "KeyError", "dict item")
            raise PathEnd()
        if isinstance(v, OpqV):
            return OpqV(v.name + "[]")
        i = self.num(i)
        k = z3.simplify(i.e)
        if isinstance(v, (Tup, CList)) and getattr(v, "sym", None) is None:
            if z3.is_int_value(k):
                k = k.as_long()
                if not -len(v.items) <= k < len(v.items):
                    self.safe(z3.BoolVal(False), "IndexError", "index out of range")
                    raise PathEnd()
                return v.items[k]
            if isinstance(v, Tup):
                for j, x in enumerate(v.items):
                    if self.decide(i.e == j):
                        return x
                self.safe(z3.BoolVal(False), "IndexError", "index out of range")
                raise PathEnd()
        l = self.norm(v)
        if isinstance(l, ListV):
            ln = self.length(l)
            if z3.is_int_value(k) and k.as_long() < 0:
                self.safe(ln + k >= 0, "IndexError", "index out of range")
                return self.get_el(l, ln + k)
            if z3.is_int_value(k):
                self.safe(k < ln, "IndexError", "index out of range")
                return self.get_el(l, i.e)
            self.safe(z3.And(-ln <= i.e, i.e < ln), "IndexError", "index out of range")
            if not self.feasible(i.e < 0):
                return self.get_el(l, i.e)
            return self.get_el(l, z3.If(i.e < 0, i.e + ln, i.e))
        raise Unsupported("subscript of " + type(v).__name__)

    def slice(self, v, s, n):
        lo = self.eval(s.lower) if s.lower is not None else None
        hi = self.eval(s.upper) if s.upper is not None else None
        if s.step is not None:
            raise Unsupported("slice step")
        conc = lambda x: x is None or z3.is_int_value(z3.simplify(self.num(x).e))
        val = lambda x: None if x is None else z3.simplify(self.num(x).e).as_long()
        if isinstance(v, (Tup, CList)) and getattr(v, "sym", None) is None and conc(lo) and conc(hi):
            items = v.items[val(lo):val(hi)]
            return type(v)(items) if isinstance(v, Tup) else self.new_clist(items, self.site(n))
        l = self.norm(v)
        if not isinstance(l, ListV) or not conc(lo) or not conc(hi):
            raise Unsupported("slice")
        ln = self.length(l)

        def clip(x, dflt):
            if x is None:
                return dflt
            k = val(x)
            if k < 0:
                return z3.If(ln + k < 0, z3.IntVal(0), ln + k)
            return z3.If(ln < k, ln, z3.IntVal(k))
        a, b = clip(lo, z3.IntVal(0)), clip(hi, ln)
        n2 = z3.If(b < a, z3.IntVal(0), b - a)
        res = self.new_list(l.etype, n2)
        i = z3.Const("i?", I)
        for sfx, so in flatten(l.etype):
            k = f"$E{sfx}:{so}"
            arr = self.get(k)
            if lo is None or val(lo) == 0:
                na = z3.Select(arr, l.e)
            else:
                na = self.fresh("slice", z3.ArraySort(I, so))
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n2), z3.Select(na, i) == z3.Select(z3.Select(arr, l.e), i + a)), patterns=[z3.Select(na, i)]))
            self.put(k, z3.Store(arr, res.e, na))
        return res

    def e_Lambda(self, n):
        fi = FuncInfo("<lambda>", n, self.frames[-1].module, self.frames[-1].cls)
        return FuncV(fi, None, self.frames[-1])

    def e_Starred(self, n):
        raise Unsupported("starred")

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.frames[-1].vars[n.target.id] = v
        return v

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            while fr is not None and fr.cls is None:
                fr = fr.parent
            s = fr.get(fr.fi.node.args.args[0].arg)
            return SuperV(s, fr.cls.name)
        f = self.eval(n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                if isinstance(v, (Tup, CList)) and getattr(v, "sym", None) is None:
                    args += v.items
                else:
                    raise Unsupported("starred argument")
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, a.elt))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, DictV):
                    kwargs.update(v.d)
                    if v.open is not None:
                        kwargs["**"] = v.open
                elif isinstance(v, OpqV):
                    kwargs["**"] = v
                else:
                    raise Unsupported("** argument")
            else:
                kwargs[k.arg] = v
        self.line = n.lineno
        return self.call(f, args, kwargs)

    # ---- comprehensions
    def e_ListComp(self, n):
        return self.comp(n, n.elt)

    def e_GeneratorExp(self, n):
        return self.comp(n, n.elt)

    def e_SetComp(self, n):
        raise Unsupported("set comprehension")

    def comp(self, n, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        seq = self.eval(g.iter)
        conc = self.concrete_items(seq)
        fr = Frame(self.frames[-1].fi, self.frames[-1], self.frames[-1].cls)
        fr.module = self.frames[-1].module
        if conc is not None:
            out = []
            self.frames.append(fr)
            try:
                for x in conc:
                    self.assign(g.target, x)
                    if all(self.decide(self.truth(self.eval(c))) for c in g.ifs):
                        out.append(self.eval(elt))
            finally:
                self.frames.pop()
            return self.new_clist(out, self.site(n))
        # symbolic sequence
        ln, at = self.sequence(seq)
        j = self.fresh("j", I)
        self.frames.append(fr)
        try:
            def thunk():
                self.assume(z3.And(0 <= j, j < ln))
                self.assign(g.target, at(j))
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c))):
                        return None
                return self.eval(elt)
            cases, sidefacts, allocs = self.explore(thunk)
        finally:
            self.frames.pop()
        keep = [(k.pc, k.v) for k in cases if k.v is not None]
        et = None
        for pc, v in keep:
            t = type_of(v)
            et = t if et is None else join(et, t)
        if et is None:
            return self.new_clist([], self.site(n))
        vals = [(pc, unwrap(et, self.coerce(v, et))) for pc, v in keep]
        if allocs:
            return self.comp_alloc(n, ln, at, j, cases, et, allocs)
        exprs = []
        for idx, (s, so) in enumerate(flatten(et)):
            e = vals[-1][1][idx]
            for pc, es in reversed(vals[:-1]):
                e = z3.If(pc, es[idx], e)
            exprs.append(e)
        cond = z3.simplify(z3.Or([pc for pc, _ in vals]))
        i, i2 = z3.Const("i?", I), z3.Const("i2?", I)
        sub = self.per_element(cases, j, ln, at)
        if not g.ifs:
            res = self.new_list(et, ln)
            for (s, so), e in zip(flatten(et), exprs):
                k = f"$E{s}:{so}"
                na = self.fresh("map", z3.ArraySort(I, so))
                ax = z3.Select(na, i) == sub(e, i)
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), ax), patterns=[z3.Select(na, i)]))
                pats = at.patterns(i) if getattr(at, "patterns", None) else []
                if pats:
                    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), ax), patterns=pats))
                self.put(k, z3.Store(self.get(k), res.e, na))
            return res
        m = self.fresh("count", I)
        srca, inva = self.fresh("src", z3.ArraySort(I, I)), self.fresh("inv", z3.ArraySort(I, I))
        src, inv = (lambda e: z3.Select(srca, e)), (lambda e: z3.Select(inva, e))
        self.assume(z3.And(m >= 0, m <= ln))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= src(i), src(i) < ln, sub(cond, src(i)), inv(src(i)) == i)), patterns=[src(i)]))
        self.assume(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m), src(i) < src(i2)), patterns=[z3.MultiPattern(src(i), src(i2))]))
        pats = (at.patterns(i) if getattr(at, "patterns", None) else []) + [inv(i)]
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln, sub(cond, i)), z3.And(0 <= inv(i), inv(i) < m, src(inv(i)) == i)), patterns=pats))
        res = self.new_list(et, m)
        for (s, so), e in zip(flatten(et), exprs):
            k = f"$E{s}:{so}"
            na = self.fresh("filter", z3.ArraySort(I, so))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Select(na, i) == sub(e, src(i))), patterns=[z3.Select(na, i)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln, sub(cond, i)), z3.Select(na, inv(i)) == sub(e, i)), patterns=[inv(i)]))
            self.put(k, z3.Store(self.get(k), res.e, na))
        # ghost: where in the sequence each element comes from
        for k, a in (("$E$src:Int", srca), ("$E$inv:Int", inva)):
            self.put(k, z3.Store(self.get(k), res.e, a))
        return res

    def comp_alloc(self, n, ln, at, j, cases, et, allocs):
        """[Cls(...) for x in seq]: one new object per element, all different"""
        if len(cases) != 1 or n.generators[0].ifs or et.kind != "ref":
            raise Unsupported("comprehension with several cases creates objects")
        v, heap2 = cases[0].v, cases[0].heap
        if len(allocs) != 1 or not v.e.eq(allocs[0]):
            raise Unsupported("comprehension creates helper objects")
        obj = z3.Function(f"obj!{len(self.facts)}", I, Ref)
        pos = z3.Function(f"objpos!{len(self.facts)}", Ref, I)
        i = z3.Const("i?", I)
        r = z3.Const("r?", Ref)
        dom = z3.And(0 <= i, i < ln)
        olda = self.get("$alive")
        res = self.new_list(et, ln)
        al = self.get("$alive")
        na = self.fresh("alive", al.sort())
        ids = [self.prog.class_ids[c] for c in et.args]
        self.assume(z3.ForAll([i], z3.Implies(dom, z3.And(obj(i) != null, z3.Not(z3.Select(al, obj(i))), z3.Select(na, obj(i)), pos(obj(i)) == i,
                                                         z3.Or([tag(obj(i)) == k for k in ids]))), patterns=[obj(i)]))
        self.assume(z3.ForAll([r], z3.Implies(z3.Select(al, r), z3.Select(na, r)), patterns=[z3.Select(al, r), z3.Select(na, r)]))
        sub = self.per_element(cases, j, ln, at, [(v.e, obj)])
        k = "$E:Ref"
        arr = self.get(k)
        lst = self.fresh("map", z3.ArraySort(I, Ref))
        self.assume(z3.ForAll([i], z3.Implies(dom, z3.Select(lst, i) == obj(i)), patterns=[z3.Select(lst, i)] + (at.patterns(i) if getattr(at, "patterns", None) else [])))
        self.put(k, z3.Store(arr, res.e, lst))
        self.put("$alive", na)
        for key, a2 in heap2.items():
            if key in ("$alive",):
                continue
            if a2.eq(self.comp_base.get(key, self.get(key))):
                continue
            nf = self.fresh(key, a2.sort())
            e = sub(z3.simplify(z3.Select(a2, v.e)), i)
            self.assume(z3.ForAll([i], z3.Implies(dom, z3.Select(nf, obj(i)) == e), patterns=[obj(i)]))
            self.assume(z3.ForAll([r], z3.Implies(z3.Not(z3.And(0 <= pos(r), pos(r) < ln, obj(pos(r)) == r)), z3.Select(nf, r) == z3.Select(self.get(key), r)), patterns=[z3.Select(nf, r)]))
            self.put(key, nf)
        return res

    def per_element(self, cases, j, ln, at, preset=()):
        """assume, for every element, the facts each case came with; -> substitution of an index into an expression
        (a constant introduced for element j becomes a function of the index)"""
        self.nper = getattr(self, "nper", 0) + 1
        fn = {c.get_id(): (c, f) for c, f in preset}
        for k in cases:
            for c in k.created:
                if not c.eq(j):
                    fn.setdefault(c.get_id(), (c, z3.Function(f"{c}@{self.nper}of{len(self.taken)}", I, c.sort())))
        i = z3.Const("i?", I)

        def sub(e, idx):
            return z3.substitute(e, (j, idx), *[(c, f(idx)) for c, f in fn.values()])
        for k in cases:
            side = [f for f in k.side if any(c.eq(q) for q in consts(f) for c in [j] + [c for c, _ in fn.values()])]
            if not side:
                continue
            flat = []
            while side:
                f = side.pop(0)
                side, flat = (f.children() + side, flat) if z3.is_and(f) else (side, flat + [f])
            ps = at.patterns(i) if getattr(at, "patterns", None) else []
            ps += [f(i) for c, f in fn.values()]
            ps = list({q.get_id(): q for q in ps}.values())
            # nonlinear facts apart: the solver leaves them out where it can
            for part in ([f for f in flat if not is_nonlinear([f])], [f for f in flat if is_nonlinear([f])]):
                if part:
                    body = z3.Implies(z3.And(0 <= i, i < ln, sub(k.pc, i)), z3.And([sub(f, i) for f in part]))
                    self.assume(z3.ForAll([i], body, patterns=ps) if ps else z3.ForAll([i], body))
        return sub

    def explore(self, thunk):
        """all paths of a side-effect-free computation -> cases with .pc (decisions), .side (other facts), .v, .heap, .created"""
        out, work = [], [[]]
        save = (self.prefix, self.pos, self.taken, self.pending, self.facts, self.fixed, self.heap, self.trace)
        base_n = dict(self.n)
        keep_dc = (self.decs, self.created, self.known)
        allocs = []
        self.comp_base = dict(self.heap)
        keep_obls = len(self.obls)
        was_live = self.live()
        first = True
        maxn = {}
        while work:
            pre = work.pop()
            self.prefix, self.pos, self.taken, self.pending, self.fixed = pre, 0, [], [], len(pre)
            self.facts, self.heap, self.trace = list(save[4]), dict(save[6]), []
            self.all_heaps.append(self.heap)
            self.n = dict(base_n)
            self.decs, self.created, self.known = [], [], dict(keep_dc[2])
            self.fs.push()
            nf = len(self.facts)
            ob = len(self.obls)
            self.subdepth += 1
            try:
                v = thunk()
                if self.trace:
                    raise Unsupported("call with an effect in a comprehension")
                changed = [k for k in self.heap if k in save[6] and not self.heap[k].eq(save[6][k])]
                al = []
                if changed:
                    if "$alive" not in changed:
                        raise Unsupported("comprehension changes objects")
                    a = self.heap["$alive"]
                    while not a.eq(save[6]["$alive"]):
                        if not z3.is_store(a):
                            raise Unsupported("comprehension creates objects through a contract")
                        al.append(a.arg(1))
                        a = a.arg(0)
                    for k in changed:
                        if k == "$alive":
                            continue
                        x = self.heap[k]
                        while z3.is_store(x) and not x.eq(save[6][k]):
                            if not any(x.arg(1).eq(q) for q in al):
                                raise Unsupported("comprehension changes objects")
                            x = x.arg(0)
                        if not x.eq(save[6][k]):
                            raise Unsupported("comprehension changes objects")
                    allocs = al
                ds = {d.get_id() for d in self.decs}
                out.append(Case(z3.And(self.decs) if self.decs else z3.BoolVal(True), [f for f in self.facts[nf + 2:] if f.get_id() not in ds], v, dict(self.heap), list(self.created)))
            except PathEnd:
                pass
            finally:
                self.subdepth -= 1
                work += self.pending
                self.fs.pop()
            if not was_live:
                del self.obls[ob:]
            for k, c in self.n.items():
                maxn[k] = max(maxn.get(k, 0), c)
        self.decs, self.created, self.known = keep_dc
        if self.created is not None:
            self.created += [c for k in out for c in k.created]
        self.prefix, self.pos, self.taken, self.pending, self.facts, self.fixed, self.heap, self.trace = save
        self.n.update(maxn)
        return out, [], allocs

    # ---- sequences
    def concrete_items(self, s):
        if isinstance(s, CList) and s.sym is None:
            return list(s.items)
        if isinstance(s, Tup):
            return list(s.items)
        if isinstance(s, RangeV):
            lo, hi = z3.simplify(s.lo), z3.simplify(s.hi)
            if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 12:
                return [Num(z3.IntVal(k)) for k in range(lo.as_long(), hi.as_long(), s.step)]
            return None
        if isinstance(s, IterV):
            inner = [self.concrete_items(a) for a in s.args]
            if any(x is None for x in inner):
                return None
            if s.kind == "enumerate":
                return [Tup([Num(z3.IntVal(i)), x]) for i, x in enumerate(inner[0])]
            if s.kind == "zip":
                return [Tup(list(t)) for t in zip(*inner)]
            if s.kind == "reversed":
                return inner[0][::-1]
        return None

    def sequence(self, s):
        """-> length, function from index to element (re-reads the list each time)"""
        if isinstance(s, RangeV):
            if s.step != 1:
                raise Unsupported("range step")
            n = z3.If(s.hi > s.lo, s.hi - s.lo, z3.IntVal(0))
            return n, lambda i: Num(z3.simplify(s.lo + i) if z3.is_int_value(s.lo) else s.lo + i)
        if isinstance(s, IterV):
            parts = [self.sequence(a) for a in s.args]
            if s.kind == "enumerate":
                return parts[0][0], lambda i: Tup([Num(i), parts[0][1](i)])
            if s.kind == "zip":
                n = parts[0][0]
                for p in parts[1:]:
                    n = z3.If(p[0] < n, p[0], n)
                return n, lambda i: Tup([p[1](i) for p in parts])
            if s.kind == "reversed":
                n = parts[0][0]
                return n, lambda i: parts[0][1](n - 1 - i)
        l = self.norm(s)
        if isinstance(l, ListV):
            def at(i):
                return self.get_el(l, i)
            parts = [(s0, so0) for s0, so0 in flatten(l.etype) if not s0.endswith("#n")]
            at.patterns = lambda i: [z3.simplify(z3.Select(z3.Select(self.get(f"$E{s0}:{so0}"), l.e), i)) for s0, so0 in parts]
            at.pattern = lambda i: at.patterns(i)[0]
            at.list = l
            return self.length(l), at
        if isinstance(l, SetV):
            # a set is walked in some order, each member once
            n = self.fresh("card", I)
            el = self.fresh("order", z3.ArraySort(I, Ref))
            self.assume(n >= 0)
            i, i2, r = z3.Const("i?", I), z3.Const("i2?", I), z3.Const("r?", Ref)
            mem = z3.Select(self.get("$set"), l.e)
            ix = z3.Function(f"ix!{self.n['card']}", Ref, I)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(mem, z3.Select(el, i)), ix(z3.Select(el, i)) == i)), patterns=[z3.Select(el, i)]))
            self.assume(z3.ForAll([r], z3.Implies(z3.Select(mem, r), z3.And(0 <= ix(r), ix(r) < n, z3.Select(el, ix(r)) == r)), patterns=[z3.Select(mem, r)]))

            def at(i):
                return self.typefact(wrap(l.etype, [z3.Select(el, i)]))
            at.pattern = lambda i: z3.Select(el, i)
            at.patterns = lambda i: [at.pattern(i)]
            return n, at
        raise Unsupported("iteration over " + type(s).__name__)

    # ---- statements
    def block(self, body):
        for s in body:
            self.line = s.lineno
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement " + type(s).__name__)
            m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise Return(self.eval(s.value) if s.value is not None else NONE)

    def s_Break(self, s):
        raise Break()

    def s_Continue(self, s):
        raise Continue()

    def s_Import(self, s):
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name.split(".")[0]] = ExtV(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            if s.module in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[s.module], a.name)
                if r and r[0] == "class":
                    self.frames[-1].vars[a.asname or a.name] = ClassV(r[1])
                    continue
            self.frames[-1].vars[a.asname or a.name] = ExtV(f"{s.module}.{a.name}")

    def s_Global(self, s):
        raise Unsupported("global")

    def s_Nonlocal(self, s):
        raise Unsupported("nonlocal")

    def s_FunctionDef(self, s):
        fi = FuncInfo(s.name, s, self.frames[-1].module, self.frames[-1].cls)
        fi.qualname = self.frames[-1].fi.qualname + ".<locals>." + s.name
        self.frames[-1].vars[s.name] = FuncV(fi, None, self.frames[-1])

    def s_Assert(self, s):
        v = self.truth(self.eval(s.test))
        self.line = s.lineno
        self.safe(v if z3.is_expr(v) else z3.BoolVal(v), "AssertionError", "assert")

    def s_Raise(self, s):
        if s.exc is None:
            raise PyExc("Exception", s.lineno)
        e = s.exc
        f = e.func if isinstance(e, ast.Call) else e
        name = f.id if isinstance(f, ast.Name) else f.attr
        raise PyExc(name, s.lineno)

    def s_Delete(self, s):
        raise Unsupported("del")

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.line = s.lineno
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            self.line = s.lineno
            self.assign(s.target, v)

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.e_Name(s.target)
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value)
            cur = self.getattr(obj, s.target.attr)
        else:
            raise Unsupported("augmented assignment")
        v = self.eval(s.value)
        if isinstance(cur, (CList, ListV)) and isinstance(s.op, ast.Add):
            self.extend(cur, v)
            return
        r = self.binop(s.op, cur, v, s)
        if isinstance(s.target, ast.Name):
            self.assign(s.target, r)
        else:
            self.setattr(obj, s.target.attr, r)

    def extend(self, l, v):
        items = self.concrete_items(v) if isinstance(v, (CList, Tup)) else None
        if items is not None:
            for x in items:
                self.append(l, x)
            return
        if isinstance(l, CList) and l.sym is None:
            for li in self.loops:
                if l.t0 < li.t0 and l.site not in li.mat:
                    li.mat.add(l.site)
                    raise Restart("list grows in a loop")
            if not l.items:
                l.sym = self.copy_list(v)
                return
        lv, vv = self.norm(l), self.norm(v)
        n1, n2 = self.length(lv), self.length(vv)
        i = z3.Const("i?", I)
        for s, so in flatten(lv.etype):
            k = f"$E{s}:{so}"
            arr = self.get(k)
            A1, A2 = z3.Select(arr, lv.e), z3.Select(arr, vv.e)
            na = self.fresh("ext", z3.ArraySort(I, so))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), z3.Select(na, i) == z3.Select(A1, i)), patterns=[z3.Select(na, i)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(n1 <= i, i < n1 + n2), z3.Select(na, i) == z3.Select(A2, i - n1)), patterns=[z3.Select(na, i)]))
            self.put(k, z3.Store(arr, lv.e, na))
        self.put("$len", z3.Store(self.get("$len"), lv.e, n1 + n2))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, OptV):
                v = self.nonnull(v, "unpack")
            if isinstance(v, (Tup, CList)) and getattr(v, "sym", None) is None:
                if len(v.items) != len(t.elts):
                    self.safe(z3.BoolVal(False), "ValueError", "unpack")
                    raise PathEnd()
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y)
            else:
                if isinstance(v, (Bool, NoneV, Num)):
                    self.safe(z3.BoolVal(False), "TypeError", "unpack")
                    raise PathEnd()
                raise Unsupported("unpacking of " + type(v).__name__)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            if isinstance(o, DictV):
                if not isinstance(i, StrV) or i.s is None:
                    raise Unsupported("dict key")
                o.d[i.s] = v
                return
            i = self.num(i)
            k = z3.simplify(i.e)
            if isinstance(o, CList) and o.sym is None and z3.is_int_value(k) and not self.loops:
                o.items[k.as_long()] = v
                return
            l = self.norm(o)
            if not isinstance(l, ListV):
                raise Unsupported("item assignment")
            self.safe(z3.And(0 <= i.e, i.e < self.length(l)), "IndexError", "item assignment")
            self.set_el(l, i.e, v)
        else:
            raise Unsupported("assignment target")

    def s_If(self, s):
        if self.decide(self.truth(self.eval(s.test))):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported("finally")
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(["*"])
            elif isinstance(h.type, ast.Tuple):
                names.append([x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts])
            else:
                names.append([h.type.id if isinstance(h.type, ast.Name) else h.type.attr])
        self.handlers.append([n for g in names for n in g])
        depth = len(self.frames)
        try:
            try:
                self.block(s.body)
            finally:
                self.handlers.pop()
        except PyExc as e:
            for h, ns in zip(s.handlers, names):
                if self.caught(e.name, ns):
                    if h.name:
                        self.frames[-1].vars[h.name] = OpqV("exception")
                    self.block(h.body)
                    return
            raise
        self.block(s.orelse)

    def s_With(self, s):
        raise Unsupported("with")

    # ---- loops
    def assigned(self, body):
        out = []
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                    out.append(x.id)
        return out

    def loop_id(self, s):
        return (tuple(f.fi.qualname for f in self.frames if f.fi), s.lineno, s.col_offset)

    def s_While(self, s):
        self.loop(s, None)

    def s_For(self, s):
        seq = self.eval(s.iter)
        items = self.concrete_items(seq)
        if items is not None:
            # a list that is known element by element is walked element by element
            if isinstance(seq, CList):
                k = 0
                try:
                    while seq.sym is None and k < len(seq.items):
                        self.assign(s.target, seq.items[k])
                        k += 1
                        if k > 24:
                            raise Unsupported("concrete loop too long")
                        try:
                            self.block(s.body)
                        except Continue:
                            pass
                except Break:
                    return
                self.block(s.orelse)
                return
            try:
                for x in items:
                    self.assign(s.target, x)
                    try:
                        self.block(s.body)
                    except Continue:
                        pass
            except Break:
                return
            self.block(s.orelse)
            return
        self.loop(s, seq)

    def loop(self, s, seq):
        lid = self.loop_id(s)
        info = self.table.loop(lid)
        info.t0 = len(self.clists)
        fr = self.frames[-1]
        kind = "for" if seq is not None else "while"
        for l in self.clists:
            if l.sym is None and l.site in info.mat:
                self.materialise(l)
        entry_heap = dict(self.heap)
        self.all_heaps.append(entry_heap)
        names = self.assigned(s.body + ([s.target] if seq is not None else []))
        if seq is not None:
            if isinstance(seq, CList):
                seq = self.norm(seq)
            ln0, at = self.sequence(seq)
        # types of the variables at the head of the loop
        for nme in names:
            v = fr.vars.get(nme)
            if v is None:
                continue
            if isinstance(v, (FuncV, DictV, ExtV, ClassV)):
                raise Unsupported(f"loop variable {nme}")
            v = self.norm(v)
            t = type_of(v)
            if nme in info.types:
                info.types[nme] = join(info.types[nme], t)
            else:
                info.types[nme] = t
        entry_vars = dict(fr.vars)
        extra = dict(k=z3.IntVal(0), seq=seq, kind=kind, entry_vars=entry_vars, entryh=entry_heap)
        cands = self.candidates(lid, info, fr, kind)
        self.check_cands(cands, info, "initially", extra, entry_heap)
        # an arbitrary iteration
        for k in sorted(info.fields):
            a = self.get(k)
            na = self.fresh(k, a.sort())
            if k == "$alive":
                r = z3.Const("r?", Ref)
                self.assume(z3.ForAll([r], z3.Implies(z3.Select(a, r), z3.Select(na, r)), patterns=[z3.Select(a, r), z3.Select(na, r)]))
            self.put(k, na)
        for nme in names:
            if nme in fr.vars:
                fr.vars[nme] = self.fresh_value(info.types[nme], nme)
        idx = None
        if seq is not None:
            idx = self.fresh("k", I)
            ln = ln0
            if isinstance(seq, (ListV,)):
                ln = self.length(seq)
            self.assume(z3.And(idx >= 0, idx <= ln))
            extra["k"] = idx
        head_vars = dict(fr.vars)
        cands = self.candidates(lid, info, fr, kind)
        self.assume_cands(cands, extra, entry_heap)
        head_heap = dict(self.heap)
        self.all_heaps.append(head_heap)
        ntrace = len(self.trace)
        if seq is not None:
            go = self.decide(idx < ln)
        else:
            go = self.decide(self.truth(self.eval(s.test)))
        if not go:
            self.block(s.orelse)
            return
        self.loops.append(info)
        try:
            try:
                if seq is not None:
                    self.assign(s.target, at(idx))
                self.block(s.body)
            except Continue:
                pass
            # end of the iteration
            for nme in names:
                if nme in info.types:
                    v = fr.vars.get(nme)
                    t = join(info.types[nme], type_of(self.norm(v)))
                    if t != info.types[nme]:
                        info.types[nme] = t
                        raise Restart(f"type of {nme}")
                    fr.vars[nme] = wrap(t, unwrap(t, self.coerce(self.norm(v), t)))
            extra2 = dict(extra)
            if seq is not None:
                extra2["k"] = idx + 1
            cands = self.candidates(lid, info, fr, kind)
            self.check_cands(cands, info, "preserved", extra2, entry_heap)
            if self.contract.body_post and len(self.call_stack) == 1:
                cx = C(self, self.args0, self.old, self.heap, None, dict(k=idx, head=C(self, self.args0, head_heap, head_heap), headh=head_heap, seq=seq, vars=fr.vars, head_vars=head_vars, itrace=self.trace[ntrace:], kind=kind, iter_no=None))
                for nm, g in self.contract.body_post(cx) or []:
                    self.oblige(nm, g, "body")
            raise PathEnd()
        except Break:
            pass
        except (Return, PyExc):
            raise
        finally:
            self.loops.pop()

    def hole_ok(self, v, t):
        if v is None:
            return False
        if t.startswith("ref:"):
            want = t[4:].split("|")
            return isinstance(v, RefV) and any(c in self.prog.mro(x) or x in self.prog.mro(c) or c == x for c in want for x in v.classes)
        if t == "int":
            return isinstance(v, Num) and v.e.sort() == I
        if t == "real":
            return isinstance(v, Num) and v.e.sort() == R
        if t == "bool":
            return isinstance(v, Bool)
        if t == "list":
            return isinstance(v, ListV) or (isinstance(v, CList) and v.sym is not None)
        if t == "listref":
            v = v.sym if isinstance(v, CList) and v.sym is not None else v
            return isinstance(v, ListV) and v.etype.kind == "ref"
        return False

    def candidates(self, lid, info, fr, kind):
        import itertools
        out = []
        con = self.contract if len(self.call_stack) == 1 else self.reg.contracts.get(fr.fi.qualname, self.contract)
        for inv in con.inv:
            if kind not in inv.loops:
                continue
            names = list(inv.holes)
            pools = [[n for n, v in fr.vars.items() if self.hole_ok(v, inv.holes[h])] for h in names]
            combos = list(itertools.islice(itertools.product(*pools), 60))
            for combo in combos:
                if len(set(combo)) < len(combo):
                    continue
                key = (inv.name, combo)
                if key in info.dropped:
                    continue
                out.append((key, inv, {h: fr.vars[n] for h, n in zip(names, combo)}))
        # frame of every field the loop changes
        for f in sorted(info.fields):
            if f == "$alive":
                continue
            key = ("frame", f)
            if key not in info.dropped:
                out.append((key, None, f))
            key = ("same", f)
            if key not in info.dropped and self.mods0.get(f) is not True:
                out.append((key, None, f))
        return out

    def cand_formula(self, key, inv, arg, extra, entry_heap):
        cx = C(self, self.args0, self.old, self.heap, None, dict(extra, entry=C(self, self.args0, entry_heap, entry_heap)))
        if inv is None:
            f = arg
            r = z3.Const("r?", Ref)
            if key[0] == "same":
                a, b = self.get(f), self.heap_get(entry_heap, f)
                if a.eq(b):
                    return z3.BoolVal(True)
                return z3.ForAll([r], z3.Implies(z3.Select(self.heap_get(entry_heap, "$alive"), r), z3.Select(a, r) == z3.Select(b, r)), patterns=[z3.Select(a, r)])
            m = self.mods0.get(f, [])
            if m is True:
                return z3.BoolVal(True)
            a, b = self.get(f), self.heap_get(self.old, f)
            if a.eq(b):
                return z3.BoolVal(True)
            keep = [z3.Select(self.heap_get(self.old, "$alive"), r)]
            keep += [z3.Not(m(r))] if callable(m) else [r != x for x in m]
            return z3.ForAll([r], z3.Implies(z3.And(keep), z3.Select(a, r) == z3.Select(b, r)), patterns=[z3.Select(a, r)])
        try:
            return inv.f(cx, **{h: spec(v) for h, v in arg.items()})
        except (KeyError, AttributeError, z3.Z3Exception):
            return None

    def check_cands(self, cands, info, when, extra, entry_heap):
        if self.table.scout:
            return
        failed, todo = [], []
        for key, inv, arg in cands:
            g = self.cand_formula(key, inv, arg, extra, entry_heap)
            if g is None:
                info.dropped.add(key)
                raise Restart("invariant not expressible")
            # a field is left alone by the loop: plain to see, or not so
            todo.append((key, Obl(f"invariant {key[0]}{list(key[1]) if inv is not None else ' of ' + key[1]} {when}", self.facts, g, "invariant", self.line)))
        if not todo or not self.live():
            return
        for same in (True, False):
            prove_all([o for key, o in todo if (key[0] == "same") == same], (0.15 if same else 0.5) * self.contract.effort, self.deadline, self.workers if len(todo) > 12 else 1, self.sem)
        # once more, with more time, for those that were stated
        again = [o for key, o in todo if key[0] != "same" and o.result is not None and o.result.status == "unknown"]
        if again:
            prove_all(again, 2 * self.contract.effort, self.deadline, self.workers, self.sem)
        for key, o in todo:
            r = o.result
            if r is None:
                raise Unsupported("time limit")
            if r.status != "proved":
                if DEBUG and key[0] != "same":
                    print(f"  invariant {key} {when}: {r.status} line {self.line} path {self.taken}")
                    explain(self.facts, o.goal)
                info.dropped.add(key)
                info.reason[key] = f"{when}: {r.status}"
                failed.append(key)
                continue
            o.facts = None
            self.obls.append(o)
        if failed:
            # all were assumed when the loop was entered, so what fails now fails with fewer of them too
            raise Restart(f"invariants {failed} {when}")

    def assume_cands(self, cands, extra, entry_heap):
        for key, inv, arg in cands:
            g = self.cand_formula(key, inv, arg, extra, entry_heap)
            if g is not None:
                self.assume(g)


def param_value(x, n, t):
    return x.fresh_value(t, n)


class FunctionReport:
    def __init__(self, fn):
        self.fn, self.obls, self.status, self.error, self.paths, self.seconds = fn, [], "proved", None, 0, 0.0
        self.callees, self.inlined, self.exts = set(), set(), set()
        self.cover = None
        self.dropped = {}


import os
DEBUG = os.environ.get("PYVC_DEBUG")


def explain(facts, g, path=""):
    """which part of a goal is not proved (for development)"""
    if z3.is_and(g):
        for i, c in enumerate(g.children()):
            explain(facts, c, path + f".{i}")
            facts = facts + [c]
    elif z3.is_implies(g):
        explain(facts + [g.arg(0)], g.arg(1), path + ">")
    elif z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(f"sk_{g.var_name(i)}", g.var_sort(i)) for i in range(g.num_vars())]
        explain(facts, z3.substitute_vars(g.body(), *reversed(vs)), path + "A")
    else:
        r = prove(facts, g, 2)
        print("     ", path, r.status, str(g)[:400].replace("\n", " ") if r.status != "proved" else "", flush=True)


def prove_all(todo, effort, deadline, workers, sem):
    """prove the obligations, in forked children when workers > 1"""
    groups = {}
    for o in todo:
        groups.setdefault((tuple(f.get_id() for f in o.facts), o.goal.get_id()), []).append(o)
    groups = list(groups.values())

    def one(o):
        if time.time() > deadline:
            return None
        if sem is None:
            return prove(o.facts, o.goal, effort)
        with sem:
            return prove(o.facts, o.goal, effort)
    if workers <= 1 or len(groups) < 4:
        for g in groups:
            r = one(g[0])
            for o in g:
                o.result = r
        return
    import pickle
    from . import solve
    for g in groups:
        for f in g[0].facts:
            # (remembered before the work is shared out)
            solve.has_quant(f), solve.is_nonlinear([f]), solve.symbols(f)
    kids = []
    for w in range(workers):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, 9)   # die with the parent
                os.close(rd)
                out = []
                for i in range(w, len(groups), workers):
                    r = one(groups[i][0])
                    out.append((i, None if r is None else (r.status, r.backend, r.seconds, r.detail, str(r.model)[:3000] if r.model is not None else None)))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((out, dict(solve.TIME)), f)
                os._exit(0)
            except BaseException:
                os._exit(1)
        os.close(wr)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            continue
        out, times = pickle.loads(data)
        for k, v in times.items():
            solve.TIME[k] += v
        for i, r in out:
            for o in groups[i]:
                o.result = None if r is None else Result(r[0], r[1], r[2], r[4], r[3])


def verify(prog, reg, fn, max_seconds=300, verbose=False, workers=1, sem=None):
    rep = FunctionReport(fn)
    t0 = time.time()
    c = reg.contracts[fn]
    fi = prog.funcs.get(fn)
    if fi is None:
        rep.status, rep.error = "missing", f"{fn} is not defined in the sources"
        return rep
    table = Table()
    for attempt in range(120):
        try:
            rep.obls, rep.paths = [], 0
            rep.callees, rep.inlined, rep.exts = set(), set(), set()
            rep.reached = 0
            work = [[]]
            while work:
                pre = work.pop()
                if time.time() - t0 > max_seconds:
                    raise Unsupported(f"time limit of {max_seconds} s")
                if rep.paths > c.max_paths:
                    raise Unsupported("too many paths")
                x = Exec(prog, reg, fi, c, table, list(pre))
                x.fixed = len(pre)
                x.deadline, x.workers, x.sem = t0 + max_seconds, workers, sem
                try:
                    run_path(x, rep)
                finally:
                    rep.callees |= x.callees
                    rep.inlined |= x.inlined
                    rep.exts |= x.exts
                rep.paths += 1
                work += x.pending
                rep.obls += x.obls
            if table.scout and table.loops:
                table.scout, table.dirty = table.dirty, False
                if verbose:
                    print("   scouted")
                continue
            break
        except Restart as r:
            if verbose:
                print("   restart:", r.why)
            continue
        except (Unsupported, RecursionError, z3.Z3Exception, TypeError, KeyError, AttributeError, IndexError, NotImplementedError) as e:
            if verbose:
                import traceback
                traceback.print_exc()
            rep.status, rep.error = "unsupported", f"{type(e).__name__}: {e}"
            rep.seconds = time.time() - t0
            rep.obls = []
            return rep
    else:
        rep.status, rep.error = "unsupported", "no fixed point of the loop candidates"
        return rep
    for li, info in table.loops.items():
        for k, why in info.reason.items():
            rep.dropped[str(k)] = why
    prove_all([o for o in rep.obls if o.result is None], c.effort, t0 + max_seconds, workers, sem)
    for o in rep.obls:
        if o.result is None:
            rep.status, rep.error = "timeout", "time limit"
        else:
            o.facts = None if o.result.status == "proved" else o.facts
    bad = [o for o in rep.obls if o.result is None or o.result.status != "proved"]
    if bad:
        rep.status = "failed" if rep.status == "proved" else rep.status
    if not rep.obls:
        rep.status, rep.error = "vacuous", "no obligations were generated"
    if rep.reached == 0 and rep.status == "proved" and not c.raises:
        rep.status, rep.error = "vacuous", "no path reaches the end of the function"
    rep.seconds = time.time() - t0
    return rep


def run_path(x, rep):
    c, fi = x.contract, x.fi
    x.all_heaps = [x.heap]
    args = {}
    a = fi.node.args
    pnames = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    try:
        for i, n in enumerate(pnames):
            t = c.params.get(n)
            if t is None and i == 0 and fi.cls is not None and fi.kind in ("method", "property", "setter"):
                own = c.self_classes or [s for s in x.prog.subclasses(fi.cls.name) if (x.prog.lookup_setter(s, fi.name) if fi.kind == "setter" else x.prog.lookup(s, fi.name)) is fi or fi.name == "__init__"]
                # subclasses of a listed class are added by isa(); restrict explicitly
                v = RefV(x.fresh(n, Ref), (fi.cls.name,), False)
                x.assume(z3.And(v.e != null, z3.Select(x.get("$alive"), v.e), z3.Or([tag(v.e) == x.prog.class_ids[s] for s in own])))
                v.classes = tuple(own) if len(own) == 1 else (fi.cls.name,)
                args[n] = v
                continue
            if t is None:
                d = dict(zip([p.arg for p in a.args][len(a.args) - len(a.defaults):], a.defaults))
                if n in d:
                    t = T("opq")
                    args[n] = OpqV("param " + n, x.fresh(n, Opq))
                    continue
                raise Unsupported(f"no type for parameter {n}")
            args[n] = x.fresh_value(t, n)
        if a.kwarg:
            t = c.params.get(a.kwarg.arg)
            args[a.kwarg.arg] = DictV({}, OpqV("kwargs"))
        if a.vararg:
            raise Unsupported("*args")
        x.args0 = dict(args)
        for n, srt in c.logical.items():
            x.args0[n] = OpqV(n, z3.Const(n, srt)) if not isinstance(srt, str) else x.fresh_value(parse_type(srt), n)
        x.old = dict(x.heap)
        x.all_heaps.append(x.old)
        ctx = C(x, x.args0, x.old, x.heap)
        if c.requires:
            for nm, g in c.requires(ctx):
                x.assume(g)
        x.mods0 = x.mods_of(c, ctx)
        if fi.name == "__init__":
            s = args[pnames[0]].e
            # nothing about the new object's fields is known before
        try:
            res = x.run_body(fi, dict(args))
        except PyExc as e:
            if e.name in c.raises:
                cond = c.raises[e.name]
                if cond is not None:
                    x.oblige(f"raises {e.name} only when allowed", cond(C(x, x.args0, x.old, x.old)), "raise")
                if c.ensures_raise:
                    for nm, g in c.ensures_raise(C(x, x.args0, x.old, x.heap)):
                        x.oblige(f"post after {e.name}: {nm}", g, "post")
                return
            x.line = e.line
            x.oblige(f"no {e.name}: raised", z3.BoolVal(False), "safety")
            return
        x.line = fi.node.lineno
        rt = c.ret
        if rt.kind == "union":
            ok = False
            res = x.norm(res) if isinstance(res, CList) else res
            for t in rt.args:
                if t.kind == "false":
                    if isinstance(res, Bool) and z3.is_false(z3.simplify(res.e)):
                        ok = True
                        break
                    continue
                try:
                    v2 = x.coerce(res, t)
                    unwrap(t, v2)
                    res, ok = v2, True
                    break
                except (TypeError, Unsupported):
                    continue
            if not ok:
                x.oblige(f"post: result is a {rt}", z3.BoolVal(False), "post")
                return
        elif rt.kind == "opq":
            pass
        else:
            v2 = x.coerce(res, rt)
            if rt.kind == "none" and not isinstance(v2, NoneV):
                pass
            else:
                try:
                    es = unwrap(rt, v2)
                except TypeError:
                    if rt.kind == "bool":
                        t = x.truth(v2)
                        es = [t if z3.is_expr(t) else z3.BoolVal(t)]
                        v2 = Bool(es[0])
                    else:
                        x.oblige(f"post: result is a {rt}", z3.BoolVal(False), "post")
                        return
                if rt.kind == "ref":
                    if not rt.nullable:
                        x.oblige("post: result is not None", es[0] != null, "post")
                    if isinstance(v2, RefV) and not set(x.ids(v2.classes)) <= set(x.ids(rt.args)):
                        x.oblige(f"post: result is a {rt}", z3.Or(es[0] == null, x.isa(es[0], rt.args)), "post")
                elif rt.kind not in ("none",):
                    v2 = wrap(rt, es) if not isinstance(v2, (ListV, SetV)) else v2
            res = v2
        rep.reached += 1
        ctx = C(x, x.args0, x.old, x.heap, res, dict(trace=x.trace))
        if c.ghost:
            c.ghost(x, ctx)
        if c.ensures:
            for nm, g in c.ensures(ctx):
                x.oblige(f"post: {nm}", g if z3.is_expr(g) else z3.BoolVal(g), "post")
        # frame
        r = z3.Const("r?", Ref)
        allowed = set(x.alloc_keys(c.allocs)) if c.allocs else set()
        isinit = fi.name == "__init__"
        for k in sorted(x.heap):
            a1, a0 = x.heap[k], x.heap_get(x.old, k)
            if a1.eq(a0) or k == "$alive":
                if k == "$alive" and not a1.eq(a0) and not c.allocs:
                    x.local_allocs = True
                    if not c.local:
                        x.oblige("frame: creates objects", z3.BoolVal(False), "frame")
                continue
            m = x.mods0.get(k)
            if m is True:
                continue
            keep = [z3.Select(x.heap_get(x.old, "$alive"), r), r != null]
            if m is None and k not in allowed and not c.allocs:
                # objects created and dropped inside are invisible to the caller
                pass
            if callable(m):
                keep.append(z3.Not(m(r)))
            elif m:
                keep += [r != q for q in m]
            x.oblige(f"frame: {k}", z3.ForAll([r], z3.Implies(z3.And(keep), z3.Select(a1, r) == z3.Select(a0, r))), "frame")
    except PathEnd:
        return
