"""Source model of /repo: modules, classes, functions, resolved names.

Everything is read from the working tree on every run; nothing is imported or
executed from /repo."""
import ast
import builtins
import os

REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis lost its footing (an anchor vanished, a form is unknown).
    Ends the check with a code that is neither 'holds' nor 'violated'."""


class Func:
    def __init__(self, module, qual, node, cls=None, outer=None):
        self.module, self.qual, self.node, self.cls, self.outer = module, qual, node, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        self.full = module.name + "." + qual
        self.decorators = []
        for d in getattr(node, "decorator_list", ()):
            self.decorators.append(ast.unparse(d))
        if isinstance(node, ast.Lambda):
            self.is_gen = False
        else:
            self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def kind(self):
        if "staticmethod" in self.decorators:
            return "static"
        if "classmethod" in self.decorators:
            return "class"
        if any(d == "property" or d.endswith("propertydoc") or d == "abstractproperty" for d in self.decorators):
            return "property"
        return "plain"

    def loc(self, node=None):
        n = node if node is not None else self.node
        return "%s:%d" % (self.module.rel, getattr(n, "lineno", 0))

    def __repr__(self):
        return "<Func %s>" % self.full


def walk_own(fn):
    """Nodes of a function body without those of nested functions/classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            # decorators and defaults belong to the enclosing scope
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            if isinstance(n, ast.ClassDef):
                stack.extend(n.bases)
                stack.extend(k.value for k in n.keywords)
            else:
                stack.extend(n.args.defaults)
                stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, module, qual, node):
        self.module, self.qual, self.node = module, qual, node
        self.full = module.name + "." + qual
        self.name = node.name
        self.methods = {}      # name -> Func (last definition)
        self.variants = {}     # name -> every definition, in order
        self.assigns = {}      # name -> [value nodes]
        self.properties = {}   # name -> dict(fget=Func,fset=Func,fdel=Func) where resolvable
        self.bases = []        # dotted names (resolved lazily)

    def __repr__(self):
        return "<Class %s>" % self.full


class Module:
    def __init__(self, name, path, rel, is_pkg):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        with open(path, "rb") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.bindings = {}     # name -> list of ('import', dotted) / ('func', Func) / ('class', Class) / ('value', node)
        self.star = []         # modules star-imported
        self.funcs = {}        # qual -> Func
        self.classes = {}      # qual -> Class
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._collect()

    def _resolve_rel(self, level, mod):
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def import_bindings(self, node):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    yield a.asname, a.name
                else:
                    yield a.name.split(".")[0], a.name.split(".")[0]
        else:
            base = self._resolve_rel(node.level, node.module)
            for a in node.names:
                if a.name == "*":
                    yield "*", base
                else:
                    yield a.asname or a.name, (base + "." + a.name) if base else a.name

    def _bind(self, name, b):
        self.bindings.setdefault(name, []).append(b)

    def _collect(self):
        self._scan_block(self.tree.body, "", None, top=True)

    def _scan_block(self, body, prefix, cls, top):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(n, prefix, cls, top)
            elif isinstance(n, ast.ClassDef):
                c = Class(self, prefix + n.name, n)
                self.classes[c.qual] = c
                if top:
                    self._bind(n.name, ("class", c))
                elif cls is not None:
                    cls.assigns.setdefault(n.name, []).append(n)
                self._scan_block(n.body, prefix + n.name + ".", c, False)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for nm, tgt in self.import_bindings(n):
                    if nm == "*":
                        self.star.append(tgt)
                    elif top:
                        self._bind(nm, ("import", tgt))
                    elif cls is not None:
                        cls.assigns.setdefault(nm, []).append(("import", tgt))
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tgts:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            if top:
                                self._bind(nm.id, ("value", n))
                            elif cls is not None:
                                cls.assigns.setdefault(nm.id, []).append(n)
                # lambdas in assignments are functions too
            elif isinstance(n, (ast.For, ast.With, ast.If, ast.Try, ast.While)):
                if isinstance(n, ast.For):
                    for nm in ast.walk(n.target):
                        if isinstance(nm, ast.Name) and top:
                            self._bind(nm.id, ("value", n))
                if isinstance(n, ast.With):
                    for it in n.items:
                        if it.optional_vars is not None:
                            for nm in ast.walk(it.optional_vars):
                                if isinstance(nm, ast.Name) and top:
                                    self._bind(nm.id, ("value", n))
                for fld in ("body", "orelse", "finalbody"):
                    self._scan_block(getattr(n, fld, []) or [], prefix, cls, top)
                for h in getattr(n, "handlers", []):
                    if h.name and top:
                        self._bind(h.name, ("value", h))
                    self._scan_block(h.body, prefix, cls, top)

    def _add_func(self, n, prefix, cls, top, outer=None):
        q = prefix + n.name
        f = Func(self, q, n, cls, outer)
        key = q
        k = 2
        while key in self.funcs:       # property setters and redefinitions
            key = "%s#%d" % (q, k)
            k += 1
        f.key = key
        self.funcs[key] = f
        n._func = f
        if outer is None:
            if top:
                self._bind(n.name, ("func", f))
            elif cls is not None:
                setter = [d for d in f.decorators if d.endswith(".setter") or d.endswith(".deleter")]
                if setter:
                    cls.properties.setdefault(n.name, {})["fset" if setter[0].endswith(".setter") else "fdel"] = f
                else:
                    if f.kind == "property":
                        cls.properties.setdefault(n.name, {})["fget"] = f
                    cls.methods[n.name] = f
                    vs = cls.variants.setdefault(n.name, [])
                    vs.append(f)
                    if len(vs) > 1:
                        f.full = self.name + "." + key
        # nested functions
        for m in walk_own(n):
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m is not n:
                self._add_func(m, q + ".<locals>.", cls, False, outer=f)
            elif isinstance(m, ast.ClassDef):
                c = Class(self, q + ".<locals>." + m.name, m)
                self.classes[c.qual] = c
                for x in m.body:
                    if isinstance(x, ast.FunctionDef):
                        self._add_func(x, c.qual + ".", c, False)


class Program:
    def __init__(self, repo=None, package="postgresql", skip_tests=True):
        self.repo = repo or REPO
        self.package = package
        self.modules = {}
        root = os.path.join(self.repo, package)
        for d, dirs, files in os.walk(root):
            dirs.sort()
            relp = os.path.relpath(d, self.repo).replace(os.sep, ".")
            if skip_tests and (relp + ".").startswith(package + ".test."):
                continue
            if "sphinx" in relp.split("."):
                continue
            if "__pycache__" in d:
                continue
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, self.repo)
                if fn == "__init__.py":
                    name, pk = relp, True
                else:
                    name, pk = relp + "." + fn[:-3], False
                try:
                    self.modules[name] = Module(name, p, rel, pk)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        if not self.modules:
            raise AnalysisBroken("no modules under " + root)

    # -- lookups ---------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken("module %s not found" % name)
        return m

    def func(self, full, missing_ok=False):
        """'postgresql.a.b:Class.meth'"""
        mod, q = full.split(":")
        m = self.module(mod)
        f = m.funcs.get(q)
        if f is None and "." in q:
            # maybe inherited or moved: look through the MRO
            cq, meth = q.rsplit(".", 1)
            c = m.classes.get(cq)
            if c is not None:
                f = self.find_method(c, meth)
        if f is None:
            b = m.bindings.get(q)
            if b:
                t = self.canon(mod + "." + q)
                f = self.func_by_dotted(t)
        if f is None and not missing_ok:
            raise AnalysisBroken("anchor %s not found" % full)
        return f

    def cls(self, full, missing_ok=False):
        mod, q = full.split(":")
        c = self.module(mod).classes.get(q)
        if c is None:
            t = self.canon(mod + "." + q)
            c = self.class_by_dotted(t)
        if c is None and not missing_ok:
            raise AnalysisBroken("class anchor %s not found" % full)
        return c

    def split_dotted(self, dotted):
        """-> (Module, rest) for the longest module prefix, or (None, dotted)"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                return m, ".".join(parts[i:])
        return None, dotted

    def func_by_dotted(self, dotted):
        m, rest = self.split_dotted(dotted)
        if m is None or not rest:
            return None
        return m.funcs.get(rest)

    def class_by_dotted(self, dotted):
        m, rest = self.split_dotted(dotted)
        if m is None or not rest:
            return None
        return m.classes.get(rest)

    def resolve_in_module(self, m, name, _seen=None):
        """canonical dotted name for a module-level name, or None"""
        b = m.bindings.get(name)
        if b:
            kinds = [x[0] for x in b]
            last = b[-1]
            if "func" in kinds or "class" in kinds:
                # when a class redefines an imported name, the last binding wins
                pass
            if last[0] == "import":
                return self.canon(last[1], _seen)
            if last[0] == "func":
                return m.name + "." + name
            if last[0] == "class":
                return m.name + "." + name
            return m.name + "." + name
        sub = m.name + "." + name
        if sub in self.modules:
            return sub
        for s in m.star:
            sm = self.modules.get(s)
            if sm is not None:
                r = self.resolve_in_module(sm, name, _seen)
                if r:
                    return r
        return None

    def canon(self, dotted, _seen=None):
        """Follow re-exports: 'postgresql.api.X' -> defining dotted name."""
        _seen = _seen or set()
        if dotted in _seen:
            return dotted
        _seen.add(dotted)
        if dotted in self.modules:
            return dotted
        m, rest = self.split_dotted(dotted)
        if m is None:
            return dotted
        head, _, tail = rest.partition(".")
        if not head:
            return m.name
        b = m.bindings.get(head)
        if b and b[-1][0] == "import":
            t = self.canon(b[-1][1], _seen)
            return t + ("." + tail if tail else "")
        if b is None:
            r = self.resolve_in_module(m, head, _seen)
            if r and r != m.name + "." + head:
                return r + ("." + tail if tail else "")
        return dotted

    # -- classes -----------------------------------------------------------
    def base_names(self, c):
        out = []
        for b in c.node.bases:
            d = self.expr_dotted(c.module, b, before=c.node)
            out.append(d or ast.unparse(b))
        return out

    def expr_dotted(self, module, e, before=None):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        nm = e.id
        base = None
        if before is not None and getattr(before, "name", None) == nm:
            # class X(X): refers to the previous binding
            for b in reversed(module.bindings.get(nm, [])):
                if b[0] == "import":
                    base = self.canon(b[1])
                    break
                if b[0] == "class" and b[1].node is not before:
                    base = b[1].full
                    break
                if b[0] == "value" and isinstance(b[1], ast.Assign) and b[1].lineno < before.lineno:
                    break
            if base is None and hasattr(builtins, nm):
                base = "builtins." + nm
        if base is None:
            base = self.resolve_in_module(module, nm)
            if base is not None and base == module.name + "." + nm:
                b = (module.bindings.get(nm) or [("submodule",)])[-1]
                if b[0] == "value" and isinstance(b[1], ast.Assign) and isinstance(b[1].value, (ast.Name, ast.Attribute)):
                    if not (isinstance(b[1].value, ast.Name) and b[1].value.id == nm):
                        r = self.expr_dotted(module, b[1].value)
                        if r:
                            base = r
        if base is None and hasattr(builtins, nm):
            base = "builtins." + nm
        if base is None:
            return None
        return self.canon(".".join([base] + parts[::-1]))

    def mro(self, c):
        """Linearised list of Class objects / dotted names (depth-first, good
        enough for this code base's hierarchies)."""
        out, seen = [], set()

        def visit(x):
            k = x.full if isinstance(x, Class) else x
            if k in seen:
                return
            seen.add(k)
            out.append(x)
            if isinstance(x, Class):
                for b in self.base_names(x):
                    bc = self.class_by_dotted(b)
                    visit(bc if bc is not None else b)
        visit(c)
        # depth-first with diamond bases last: move 'object'-likes to the end
        tail = [x for x in out if x in ("builtins.object", "object")]
        return [x for x in out if x not in tail] + tail

    def find_method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def find_property(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                if name in k.properties:
                    return k.properties[name]
                if name in k.methods or name in k.assigns:
                    return None
        return None

    def is_subclass(self, a, b):
        """dotted names; True/False/None(unknown)"""
        if a == b:
            return True
        ca = self.class_by_dotted(a)
        if ca is not None:
            r = False
            for x in self.mro(ca):
                xn = x.full if isinstance(x, Class) else x
                if xn == b:
                    return True
                if not isinstance(x, Class):
                    s = self.is_subclass(xn, b)
                    if s:
                        return True
                    if s is None:
                        r = None
            return r
        pa, pb = py_class(a), py_class(b)
        if pa is not None and pb is not None:
            return issubclass(pa, pb)
        if pa is not None and self.class_by_dotted(b) is not None:
            return False
        return None

    def subclasses(self, dotted):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if self.is_subclass(c.full, dotted) is True:
                    out.append(c)
        return out

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f


_PYMODS = {}


def py_class(dotted):
    """A builtin/stdlib exception or type by dotted name (never repo code)."""
    import importlib
    if dotted.startswith("builtins."):
        o = getattr(builtins, dotted[9:], None)
    else:
        mod, _, nm = dotted.rpartition(".")
        if not mod or mod.split(".")[0] not in ("socket", "select", "struct", "ssl", "subprocess", "os", "io", "codecs", "collections", "abc", "errno", "datetime", "decimal", "types", "warnings"):
            return None
        try:
            m = importlib.import_module(mod)
        except ImportError:
            return None
        o = getattr(m, nm, None)
    return o if isinstance(o, type) else None
