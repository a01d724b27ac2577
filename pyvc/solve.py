"""Back ends that decide one obligation: facts |= goal."""
import time, itertools
import z3

Ref = z3.DeclareSort("Ref")
Str = z3.DeclareSort("Str")
null = z3.Const("null", Ref)
rsqrt = z3.Function("rsqrt", z3.RealSort(), z3.RealSort())

STATS = dict(z3=0, nlsat=0, algebra=0, cvc5=0, simplifier=0)
TIME = dict(z3=0.0, nlsat=0.0, algebra=0.0, cvc5=0.0, simplifier=0.0)


class Result:
    def __init__(self, status, backend, seconds, model=None, detail=""):
        self.status, self.backend, self.seconds, self.model, self.detail = status, backend, seconds, model, detail


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq:
        return _hq[k][1]
    seen, todo, res = set(), [e], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _hq[k] = (e, res)       # (the expression is kept, so that the number stays its own)
    return res


def walk(es):
    seen, todo = set(), list(es)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if not z3.is_quantifier(x):
            todo.extend(x.children())


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL}
BOOLK = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}
CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}


_nl = {}


def is_nonlinear(es):
    if len(es) == 1:
        k = es[0].get_id()
        if k not in _nl:
            _nl[k] = (es[0], _is_nonlinear(es))
        return _nl[k][1]
    return any(is_nonlinear([e]) for e in es)


def _is_nonlinear(es):
    for x in walk(es):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            if k == z3.Z3_OP_POWER:
                return True
            if x.decl().name() == "rsqrt":
                return True
    return False


def sqrt_facts(es):
    out = []
    for x in walk(es):
        if z3.is_app(x) and x.decl().name() == "rsqrt":
            out.append(x)
    return out


class Abstract:
    """array reads, uninterpreted terms -> fresh reals (forgets congruence between syntactically different terms: sound
    for proving)"""

    def __init__(self):
        self.map, self.n = {}, 0

    def real(self, x):
        if z3.is_rational_value(x) or z3.is_algebraic_value(x):
            return x
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        k = x.decl().kind()
        if k in ARITH:
            cs = [self.real(c) for c in x.children()]
            if k == z3.Z3_OP_ADD:
                return z3.Sum(cs)
            if k == z3.Z3_OP_MUL:
                return z3.Product(cs)
            if k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
                return r
            if k == z3.Z3_OP_UMINUS:
                return -cs[0]
            if k == z3.Z3_OP_DIV:
                return cs[0] / cs[1]
            if k == z3.Z3_OP_TO_REAL:
                return cs[0]
            return cs[0] ** cs[1]
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(x.arg(0)), self.real(x.arg(1)), self.real(x.arg(2)))
        return self.atom(x, z3.RealSort())

    def atom(self, x, sort):
        key = x.get_id()
        if key not in self.map:
            self.n += 1
            self.map[key] = (x, z3.Const(f"a!{self.n}", sort))
        return self.map[key][1]

    def bool(self, x):
        if z3.is_quantifier(x):
            return self.atom(x, z3.BoolSort())
        k = x.decl().kind()
        if k in BOOLK:
            return x.decl()(*[self.bool(c) for c in x.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else \
                (z3.And if k == z3.Z3_OP_AND else z3.Or)([self.bool(c) for c in x.children()])
        if k in CMP:
            a, b = self.real(x.arg(0)), self.real(x.arg(1))
            return {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_GT: lambda: a > b}[k]()
        if k == z3.Z3_OP_EQ and z3.is_arith(x.arg(0)):
            return self.real(x.arg(0)) == self.real(x.arg(1))
        if k == z3.Z3_OP_EQ and z3.is_bool(x.arg(0)):
            return self.bool(x.arg(0)) == self.bool(x.arg(1))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(x.arg(0)), self.bool(x.arg(1)), self.bool(x.arg(2)))
        return self.atom(x, z3.BoolSort())


def nlsat(facts, goal, ms):
    ab = Abstract()
    qf = [f for f in facts if not has_quant(f)]
    sq = sqrt_facts(qf + [goal])
    ax = []
    for s in sq:
        ax += [z3.Implies(s.arg(0) >= 0, z3.And(s >= 0, s * s == s.arg(0)))]
    # only facts that talk about the reals of the goal (transitively)
    s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "qfnra-nlsat").solver()
    s.set("timeout", int(ms))
    fs = [ab.bool(z3.simplify(f)) for f in qf + ax]
    s.add(fs)
    s.add(z3.Not(ab.bool(z3.simplify(goal))))
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown
    return r


# ---- preparation -----------------------------------------------------------------------------------------------
class Prep:
    """facts and goal with reads of written arrays, conditional terms and implications resolved where the resolution follows
    from the facts"""

    def __init__(self, facts):
        self.s = z3.Solver()
        self.s.set("timeout", 400)
        self.s.set("rlimit", 200000)
        self.cache, self.memo = {}, {}
        fs, todo = [], [f for f in facts if not has_quant(f)]
        fs = list(self.flat(todo))
        self.lin = [f for f in fs if not is_nonlinear([f])]
        self.s.add(self.lin)
        out = fs
        for _ in range(3):
            nxt, changed = [], False
            for f in out:
                g = z3.simplify(self.rw(f))
                if z3.is_implies(g) or (z3.is_or(g) and g.num_args() <= 4):
                    g2 = self.ponens(g)
                    changed = changed or not g2.eq(g)
                    g = g2
                nxt += list(self.flat([g]))
            out = nxt
            if not changed:
                break
        self.facts = [f for f in out if not z3.is_true(f)]

    def flat(self, fs):
        for f in fs:
            if z3.is_and(f):
                yield from self.flat(f.children())
            elif z3.is_not(f) and z3.is_or(f.arg(0)):
                yield from self.flat([z3.Not(c) for c in f.arg(0).children()])
            else:
                yield f

    def ponens(self, g):
        parts = [z3.Not(g.arg(0)), g.arg(1)] if z3.is_implies(g) else g.children()
        left = []
        for p in parts:
            if is_nonlinear([p]):
                left.append(p)
                continue
            if self.entails(z3.Not(p)):
                continue
            left.append(p)
        if len(left) == 1:
            return z3.simplify(left[0])
        return g if len(left) == len(parts) else z3.Or(left)

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k not in self.cache:
            self.s.push()
            self.s.add(z3.Not(c))
            self.cache[k] = (self.s.check() == z3.unsat, c)
            self.s.pop()
        return self.cache[k][0]

    def rw(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        r = self._rw(e)
        self.memo[k] = (r, e)
        return r

    def _rw(self, e):
        if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
            return e
        cs = [self.rw(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_SELECT and len(cs) == 2:
            a, j = cs
            while z3.is_store(a):
                if a.arg(1).eq(j) or self.entails(a.arg(1) == j):
                    return self.rw(a.arg(2))
                if self.entails(a.arg(1) != j):
                    a = a.arg(0)
                    continue
                break
            return z3.Select(a, j)
        if k == z3.Z3_OP_ITE and (z3.is_arith(cs[1]) or cs[1].sort() == Ref):
            if not is_nonlinear([cs[0]]):
                if self.entails(cs[0]):
                    return cs[1]
                if self.entails(z3.Not(cs[0])):
                    return cs[2]
        return rebuild(e, cs)


def rebuild(e, cs):
    if all(a.eq(b) for a, b in zip(cs, e.children())):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(cs)
    if k == z3.Z3_OP_OR:
        return z3.Or(cs)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(cs)
    if k == z3.Z3_OP_MUL:
        return z3.Product(cs)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(cs)
    return e.decl()(*cs)


# ---- polynomial identities -------------------------------------------------------------------------------------
def algebra(prep, goal):
    """goal is an equality of rational functions; decided by normalising numerators, squares of roots and using
    equalities among the facts as definitions.  Every divisor met must be nonzero by the facts."""
    import sympy as sp
    goal = z3.simplify(prep.rw(goal), som=False) if False else prep.rw(goal)
    if not (z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(goal.arg(0))):
        return False
    atoms, roots, divisors = {}, {}, []
    memo = {}

    def conv(x):
        k = x.get_id()
        if k not in memo:
            memo[k] = conv1(x)
        return memo[k]

    def conv1(x):
        if z3.is_rational_value(x):
            return sp.Rational(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_int_value(x):
            return sp.Integer(x.as_long())
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            return sp.Add(*[conv(c) for c in x.children()])
        if k == z3.Z3_OP_MUL:
            return sp.Mul(*[conv(c) for c in x.children()])
        if k == z3.Z3_OP_SUB:
            cs = [conv(c) for c in x.children()]
            return cs[0] - sp.Add(*cs[1:])
        if k == z3.Z3_OP_UMINUS:
            return -conv(x.arg(0))
        if k == z3.Z3_OP_DIV:
            divisors.append(x.arg(1))
            return conv(x.arg(0)) / conv(x.arg(1))
        if k == z3.Z3_OP_TO_REAL:
            return conv(x.arg(0))
        if k == z3.Z3_OP_POWER:
            return conv(x.arg(0)) ** conv(x.arg(1))
        key = x.get_id()
        if key not in atoms:
            atoms[key] = (sp.Symbol(f"v{len(atoms)}"), x)
            if z3.is_app(x) and x.decl().name() == "rsqrt":
                roots[atoms[key][0]] = (conv(x.arg(0)), x.arg(0))
        return atoms[key][0]

    lhs = conv(goal.arg(0)) - conv(goal.arg(1))
    defs = {}
    for f in prep.facts:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(f.arg(0)):
            l, r = conv(f.arg(0)), conv(f.arg(1))
            for a, b in ((l, r), (r, l)):
                if a.is_Symbol and a not in b.free_symbols and a not in roots and a not in defs:
                    defs[a] = b
                    break
            else:
                # linear in some symbol with a constant coefficient
                n = sp.expand(l - r) if not (l - r).atoms(sp.Pow) or (l - r).is_polynomial() else None
                if n is None:
                    continue
                for s in sorted(n.free_symbols, key=lambda t: -int(t.name[1:])):
                    if s in roots or s in defs or sp.degree(n, s) != 1:
                        continue
                    co = n.coeff(s, 1)
                    if co.is_number and co != 0:
                        defs[s] = sp.expand(-(n - co * s) / co)
                        break
    # substitute definitions until none is left (cycles are cut)
    used = set()

    def expand(e, depth=0):
        for _ in range(40):
            fs = [s for s in e.free_symbols if s in defs]
            if not fs:
                return e
            e = e.subs({s: defs[s] for s in fs}, simultaneous=True)
            used.update(fs)
        return None
    for s in list(defs):
        # a definition that depends on itself through others is dropped
        seen, todo = set(), [s]
        while todo:
            t = todo.pop()
            for u in defs.get(t, sp.Integer(0)).free_symbols:
                if u == s:
                    defs.pop(s, None)
                    todo = []
                    break
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
    lhs = expand(lhs)
    if lhs is None:
        return False
    rt = {}
    for k, (v, z) in roots.items():
        w = expand(v)
        if w is None:
            return False
        rt[k] = w
    for d in divisors:
        if z3.is_rational_value(d) or z3.is_int_value(d):
            continue
        if not nonzero(prep, d):
            return False
    for s in [k for k in rt if k in lhs.free_symbols]:
        # the square of a root is its argument only where that is not negative
        if not nonneg(prep, roots[s][1]):
            return False
    for _ in range(4):
        num, den = sp.together(lhs).as_numer_denom()
        num = sp.expand(num)
        if num == 0:
            return True
        changed = False
        for s, d in rt.items():
            if s in num.free_symbols and sp.degree(num, s) >= 2:
                p = sp.Poly(num, s)
                acc = 0
                for (e,), co in p.terms():
                    acc += co * d ** (e // 2) * s ** (e % 2)
                num = acc
                changed = True
        lhs = num
        if not changed:
            return False
    return False


def nonzero(prep, d):
    z = z3.simplify(d != 0)
    for f in prep.facts:
        if f.eq(z):
            return True
    if not is_nonlinear([d]) and prep.entails(d != 0):
        return True
    return nlsat(prep.facts, d != 0, 3000) == z3.unsat


def nonneg(prep, d):
    for f in prep.facts:
        if f.eq(z3.simplify(d >= 0)) or f.eq(z3.simplify(d > 0)):
            return True
    return nlsat(prep.facts, d >= 0, 3000) == z3.unsat


def _cvc5(facts, goal, ms):
    s = z3.Solver()
    s.add(facts)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    import subprocess, tempfile, os
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", f"--tlimit={ms}", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


CVC5 = True
_cache = {}
_preps = {}


def get_prep(facts):
    key = tuple(f.get_id() for f in facts)
    if key not in _preps:
        if len(_preps) > 50:
            _preps.clear()
        _preps[key] = (Prep(facts), facts)
    return _preps[key][0]




_syms = {}
import os
RELEVANCE = int(os.environ.get('RELEVANCE', '1'))


def symbols(e):
    """the uninterpreted constants of an expression (heap arrays and values)"""
    k = e.get_id()
    if k in _syms:
        return _syms[k][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    _syms[k] = (e, out)
    return out


def relevant(facts, goal, rounds):
    """quantified facts about heaps close to the goal's; all facts without quantifiers"""
    arr = lambda ss: {s for s in ss if not s.startswith("$alive") and ("." in s or s.startswith("$") or s.startswith("relinked") or s.startswith("spine") or s.startswith("ghost"))}
    S = arr(symbols(goal))
    if not rounds:
        # nothing but the goal's fields, whatever the heap
        base = lambda s: s.split("@")[0].split("!")[0]
        B = {base(s) for s in S}
        return [f for f in facts if not has_quant(f) or all(base(s) in B for s in arr(symbols(f)))]
    if rounds == 3:
        # nothing about trees, for goals that are not
        tree = lambda e: any(s.startswith("Node.") or s.startswith("relinked") for s in symbols(e))
        return facts if tree(goal) else [f for f in facts if not has_quant(f) or not tree(f)]
    for _ in range(rounds - 1):
        # what the goal's arrays are related to directly
        S = S.union(*[a for a in (arr(symbols(f)) for f in facts if has_quant(f)) if len(a) <= 3 and any(s in S and not s.endswith("@0") for s in a)])
    return [f for f in facts if not has_quant(f) or all(s in S or s.endswith("@0") for s in arr(symbols(f)))]


# the plain solver: the default one preprocesses in ways that keep quantifiers from being instantiated
NEW = z3.Solver if os.environ.get('PYVC_SOLVER') == 'old' else z3.SimpleSolver


def prove(facts, goal, effort=1):
    """-> Result with status proved | refuted | unknown"""
    t0 = time.time()

    def done(st, be, model=None, detail=""):
        dt = time.time() - t0
        if st == "proved":
            STATS[be] += 1
        TIME[be] += dt
        return Result(st, be, dt, model, detail)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return done("proved", "simplifier")
    key = (hash(tuple(f.hash() for f in facts)), tuple(f.get_id() for f in facts), goal.get_id(), effort)
    if key in _cache:
        return _cache[key][0]

    def keep(r):
        _cache[key] = (r, facts, goal)
        return r
    gi = goal.get_id()
    if any(f.get_id() == gi for f in facts):
        return keep(done("proved", "simplifier"))
    # conjunctive goals are split
    if z3.is_and(goal) and goal.num_args() > 1:
        be, m, worst = "z3", None, None
        fs = list(facts)
        for c in goal.children():
            r = prove(fs, c, effort)
            if r.status != "proved":
                return keep(Result(r.status, r.backend, time.time() - t0, r.model, r.detail))
            be = r.backend
            fs = fs + [c]
        return keep(Result("proved", be, time.time() - t0))
    if z3.is_implies(goal):
        return keep(prove(list(facts) + [goal.arg(0)], goal.arg(1), effort))
    prep = None
    if is_nonlinear([goal]):
        prep = get_prep(facts)
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(goal.arg(0)):
            if algebra(prep, goal):
                return keep(done("proved", "algebra"))
    q = any(has_quant(f) for f in facts) or has_quant(goal)
    nl = is_nonlinear(facts + [goal])
    ax = []
    for s in sqrt_facts([f for f in facts if not has_quant(f)] + [goal]):
        ax.append(z3.Implies(s.arg(0) >= 0, z3.And(s >= 0, s * s == s.arg(0))))
    res, model, reason = z3.unknown, None, ""
    if nl and is_nonlinear([goal]):
        r = nlsat(prep.facts, prep.rw(goal), 8000 * effort)
        if r == z3.unsat:
            return keep(done("proved", "nlsat"))
    if q and len(facts) > 60 and RELEVANCE:
        # few facts first, and a short try of each selection before the long ones
        lin = [f for f in facts if not nl or not is_nonlinear([f])]
        sets, had = [], []
        for share, rounds in ((1, 0), (.2, 3), (.2, 1), (.2, 2), (.2, None), (1, 3), (1, 1), (1, 2)):
            if rounds is None:
                fs = lin
                if is_nonlinear([goal]):
                    continue
            elif share < 1 or not rounds:
                fs = relevant(lin, goal, rounds)
                if (len(fs) >= .85 * len(facts) and rounds) or len(fs) in had:
                    continue
                had.append(len(fs))
                sets.append((rounds, fs))
            else:
                fs = dict(sets).get(rounds)
            for _ in (1,):
                few = share
                if fs is None:
                    continue
                for mk in (NEW, z3.Solver):
                    s = mk()
                    s.set("random_seed", 0)
                    s.set("auto_config", False)
                    s.set("mbqi", False)
                    s.set("rlimit", int(800000 * effort * few))
                    s.set("timeout", int(2000 * effort * few))
                    s.add(fs)
                    s.add(z3.Not(goal))
                    if s.check() == z3.unsat:
                        return keep(done("proved", "z3"))
    # without nonlinear facts first (they slow the search for goals that do not need them)
    for variant in (-1, 0, 1, 2):
        if variant == -1:
            # a short try, then the other solver: matching loops in one are often none in the other
            if not q or is_nonlinear([goal]):
                continue
            lin = [f for f in facts if not is_nonlinear([f])] if nl else list(facts)
            for mk in (NEW, z3.Solver):
                s = mk()
                s.set("random_seed", 0)
                s.set("auto_config", False)
                s.set("mbqi", False)
                s.set("rlimit", int(2500000 * effort))
                s.set("timeout", int(2500 * effort))
                s.add(lin + ([] if nl else ax))
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    return keep(done("proved", "z3"))
            if CVC5 and _cvc5(lin + ([] if nl else ax), goal, int(2500 * effort)) == "unsat":
                return keep(done("proved", "cvc5"))
            # a conclusion of several parts, for all: one part at a time
            if z3.is_quantifier(goal) and goal.is_forall() and len(facts) > 60:
                vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
                body = z3.substitute_vars(goal.body(), *reversed(vs))
                hyp = []
                while z3.is_implies(body):
                    hyp, body = hyp + [body.arg(0)], body.arg(1)
                if z3.is_and(body) and body.num_args() > 1:
                    fs, be = list(facts) + hyp, "z3"
                    for g in body.children():
                        r = prove(fs, g, effort)
                        if r.status != "proved":
                            return keep(Result(r.status, r.backend, time.time() - t0, r.model, r.detail))
                        be, fs = r.backend, fs + [g]
                    return keep(Result("proved", be, time.time() - t0))
            continue
        if variant == 0 and not nl:
            continue
        if variant == 2 and not q:
            continue
        s = z3.Solver()
        s.set("random_seed", 0)
        if q:
            s.set("auto_config", False)
            s.set("mbqi", variant == 2)
        s.set("rlimit", int({0: 1500000, 1: 12000000, 2: 3000000}[variant] * effort))
        s.set("timeout", int({0: 3000, 1: 15000, 2: 5000}[variant] * effort))
        fs = [f for f in facts if not is_nonlinear([f])] if variant == 0 else list(facts) + ax
        s.add(fs)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return keep(done("proved", "z3"))
        if r == z3.sat and variant > 0:
            model = s.model()
            return keep(done("refuted", "z3", model))
        reason = s.reason_unknown() if r == z3.unknown else "sat"
    if nl and not is_nonlinear([goal]):
        r = nlsat(facts, goal, 8000 * effort)
        if r == z3.unsat:
            return keep(done("proved", "nlsat"))
    if effort >= 1 and CVC5:
        r = _cvc5(list(facts) + ax, goal, 6000)
        if r == "unsat":
            return keep(done("proved", "cvc5"))
    return keep(done("unknown", "z3", None, reason))
