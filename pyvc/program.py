"""Reads the real sources of /repo/foronoi on every run (nothing is dropped except docstrings, annotations and
f-string contents)."""
import ast, os, hashlib


class Unsupported(Exception):
    pass


class FuncInfo:
    def __init__(self, name, node, module, cls=None, kind="func"):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.qualname = (cls.name + "." if cls else module.name + ":") + name + (".setter" if kind == "setter" else "")

    def __repr__(self):
        return f"<{self.qualname}>"


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.base_names = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.base_names.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.base_names.append(b.attr)
        self.methods, self.setters, self.consts = {}, {}, {}

    def __repr__(self):
        return f"<class {self.name}>"


class ModuleInfo:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.names, self.stars = {}, []


def _deco(d):
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return d.attr
    return ""


class Program:
    """Every module of the package except its tests."""

    def __init__(self, root="/repo", package="foronoi"):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds.sort()
            if "tests" in ds:
                ds.remove("tests")
            if "__pycache__" in ds:
                ds.remove("__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        self.modules[name] = ModuleInfo(name, p, src)
        for m in self.modules.values():
            self._index(m)
        self._mro_cache = {}
        self.class_ids = {c: i + 10 for i, c in enumerate(sorted(self.classes))}

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode())
        return h.hexdigest()

    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("ext", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("ext", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(s.module)
                    else:
                        m.names[a.asname or a.name] = ("from", s.module, a.name)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s.name, s, m)
                self.classes.setdefault(s.name, c)
                m.names[s.name] = ("class", s.name)
                for t in s.body:
                    if isinstance(t, ast.FunctionDef):
                        ds = [_deco(d) for d in t.decorator_list]
                        kind = "method"
                        if "property" in ds:
                            kind = "property"
                        elif "setter" in ds:
                            kind = "setter"
                        elif "staticmethod" in ds:
                            kind = "static"
                        elif "classmethod" in ds:
                            kind = "classmethod"
                        fi = FuncInfo(t.name, t, m, c, kind)
                        if kind == "setter":
                            c.setters[t.name] = fi
                        else:
                            c.methods[t.name] = fi
                        self.funcs[fi.qualname] = fi
                    elif isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name):
                        c.consts[t.targets[0].id] = t.value
                    elif isinstance(t, ast.AnnAssign) and t.value is not None and isinstance(t.target, ast.Name):
                        c.consts[t.target.id] = t.value
            elif isinstance(s, ast.FunctionDef):
                fi = FuncInfo(s.name, s, m, None, "func")
                self.funcs[fi.qualname] = fi
                m.names[s.name] = ("func", fi)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                m.names[s.targets[0].id] = ("const", s.value)
            elif isinstance(s, ast.If):
                pass

    def mro(self, cname):
        if cname in self._mro_cache:
            return self._mro_cache[cname]
        out = []
        if cname in self.classes:
            out = [cname]
            for b in self.classes[cname].base_names:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        self._mro_cache[cname] = out
        return out

    def subclasses(self, cname):
        return [c for c in self.classes if cname in self.mro(c)]

    def lookup(self, cname, attr):
        for c in self.mro(cname):
            ci = self.classes[c]
            if attr in ci.methods:
                return ci.methods[attr]
            if attr in ci.consts:
                return ("const", ci, ci.consts[attr])
        return None

    def lookup_setter(self, cname, attr):
        for c in self.mro(cname):
            ci = self.classes[c]
            if attr in ci.setters:
                return ci.setters[attr]
            if attr in ci.methods:
                return None
        return None

    def resolve(self, m, name, depth=0):
        """-> ('class', name) | ('func', FuncInfo) | ('ext', dotted) | ('const', module, expr) | None"""
        if depth > 8:
            return None
        e = m.names.get(name)
        if e is None:
            for s in m.stars:
                if s in self.modules:
                    r = self.resolve(self.modules[s], name, depth + 1)
                    if r:
                        return r
                elif s == "decimal" and name in ("Decimal", "InvalidOperation", "getcontext", "DivisionByZero"):
                    return ("ext", "decimal." + name)
                elif s == "math":
                    return ("ext", "math." + name)
            return None
        if e[0] == "class":
            return e
        if e[0] == "func":
            return e
        if e[0] == "const":
            return ("const", m, e[1])
        if e[0] == "ext":
            return ("ext", e[1])
        if e[0] == "from":
            mod, nm = e[1], e[2]
            if mod in self.modules:
                r = self.resolve(self.modules[mod], nm, depth + 1)
                if r:
                    return r
                if mod + "." + nm in self.modules:
                    return ("module", mod + "." + nm)
                return None
            if nm in self.classes and mod and mod.startswith(self.package):
                return ("class", nm)
            return ("ext", (mod or "") + "." + nm)
        return None
