"""P27: what code refers to exists.  Scopes by the compiler's own symbol tables, definite binding along exception edges,
attributes of modules / own instances / own classes / locally made instances, arity and keywords of in-repository calls,
raised and caught classes, format strings against their arguments - in every function of the library."""
import ast
import builtins
import importlib
import string
from sa.program import *
from sa.program import AnalysisBroken, Class, Func, walk_own
from checks.p27_flow import unbound

# deliberate: names that only exist on other platforms or interpreters
SKIP_STDLIB = {"msvcrt", "_winreg", "winreg", "nt", "postgresql"}


def run(ck, p):
    ck.rule("name", "every name read is bound in its scope, an enclosing scope, the module or the builtins")
    ck.rule("bound", "a local name read in a handler, a finally clause or after a handled exception is bound on that path")
    ck.rule("module", "an attribute of a module exists")
    ck.rule("self", "an attribute of self is assigned or defined by its class, a base or a subclass")
    ck.rule("class", "an attribute of a class, of super() or of an instance made in the same function exists")
    ck.rule("attribute", "an attribute name exists somewhere: in the library, the builtins or an imported module")
    ck.rule("call", "an in-repository function, method or constructor accepts the arguments it is called with")
    ck.rule("raise", "what is raised or caught is an exception")
    ck.rule("format", "a format string consumes exactly the arguments it is given")
    A = Analysis(ck, p)
    A.run()
    ck.at_least("names resolved", 10000)
    ck.at_least("attributes of self", 1200)
    ck.at_least("calls checked", 500)
    ck.at_least("raises", 100)
    ck.at_least("format strings", 60)


class Scope:
    def __init__(self, table, parent):
        self.table, self.parent = table, parent


class Analysis:
    def __init__(self, ck, p):
        self.ck, self.p = ck, p
        self.mods = [m for m in p.modules.values()]
        self.globals_ = {}
        self.instance_attrs = {}
        self.stored = {}          # attribute name -> set of classes whose methods store it through something else than self
        self.known = None

    # ------------------------------------------------------------ tables
    def run(self):
        self.collect()
        for m in self.mods:
            self.names(m)
            self.walk_module(m)
        for f in self.p.all_funcs():
            if isinstance(f.node, ast.Lambda):
                continue
            n = unbound(self.ck, self.p, f)
            self.ck.count("functions with bindings followed", n)
            self.ck.func(f)

    def module_names(self, m):
        if m.name in self.globals_:
            return self.globals_[m.name]
        names = set(m.bindings)
        self.globals_[m.name] = names
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names.update(n.names)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                if in_function(n):
                    continue
                for nm, t in m.import_bindings(n):
                    if nm != "*":
                        names.add(nm)
            elif isinstance(n, ast.NamedExpr) and not in_function(n):
                names.add(n.target.id)
            elif isinstance(n, ast.comprehension):
                pass
        for s in m.star:
            sm = self.p.modules.get(s)
            if sm is not None:
                exported = all_of(sm)
                names.update(exported if exported is not None else {x for x in self.module_names(sm) if not x.startswith("_")})
            else:
                o = stdlib(s)
                if o is not None:
                    names.update(getattr(o, "__all__", None) or [x for x in dir(o) if not x.startswith("_")])
                else:
                    names.add("*")
        names.update(("__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__dict__"))
        return names

    def collect(self):
        stores = {}
        other = {}
        for m in self.mods:
            for f in m.funcs.values():
                cls = f.cls
                first = self_name(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        if isinstance(n.ctx, ast.Del):
                            continue
                        if cls is not None and first and isinstance(n.value, ast.Name) and n.value.id == first:
                            stores.setdefault(cls.full, set()).add(n.attr)
                        else:
                            other.setdefault(n.attr, set()).add((f.module.name, cls.full if cls is not None else None, isinstance(n.value, ast.Name)))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            other.setdefault(n.args[1].value, set()).add((f.module.name, cls.full if cls is not None else None, True))
                        elif cls is not None and first and isinstance(n.args[0], ast.Name) and n.args[0].id == first:
                            stores.setdefault(cls.full, set()).add("*")
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not in_function(n):
                    other.setdefault(n.attr, set()).add((m.name, None, True))
        self.stores, self.other = stores, other

    def class_attrs(self, c, subs=True):
        """names an instance of c (or of a subclass) may have; None when unknown"""
        key = (c.full, subs)
        if key in self.instance_attrs:
            return self.instance_attrs[key]
        self.instance_attrs[key] = None
        names = set()
        todo = [c]
        if subs:
            todo += [x for x in self.p.subclasses(c.full) if x is not c]
        unknown = False
        for k in todo:
            for b in self.p.mro(k):
                if isinstance(b, Class):
                    names |= set(b.methods) | set(b.assigns) | set(b.properties) | {x.split(".")[-1] for x in b.module.classes if x.startswith(b.qual + ".")}
                    names |= self.stores.get(b.full, set())
                    names |= class_names(b.node)
                    if "__getattr__" in b.methods or "__getattribute__" in b.methods:
                        unknown = True
                    for a in b.assigns.get("__slots__", ()):
                        v = getattr(a, "value", None)
                        for x in ast.walk(v) if v is not None else ():
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                names.add(x.value)
                    if any(k2.arg == "metaclass" for k2 in b.node.keywords):
                        mc = [k2.value for k2 in b.node.keywords if k2.arg == "metaclass"][0]
                        d = self.p.expr_dotted(b.module, mc)
                        if d not in ("abc.ABCMeta",) and not (d or "").startswith("postgresql.python.element") and d != "builtins.type":
                            mcl = self.p.class_by_dotted(d or "")
                            if mcl is None or "__new__" in mcl.methods or "__init__" in mcl.methods:
                                pass
                else:
                    o = pyobj(b)
                    if o is None:
                        unknown = True
                    else:
                        names |= set(dir(o))
                        for k3 in getattr(o, "__mro__", ()):
                            names |= assigned_in(k3.__module__)
        names |= {"__dict__", "__class__", "__doc__", "__module__", "__name__", "__slots__", "__qualname__", "__mro__", "__bases__"} | set(dir(object))
        if "*" in names:
            unknown = True
        r = None if unknown else names
        self.instance_attrs[key] = r
        return r

    # ------------------------------------------------------------ names
    def names(self, m):
        known = self.module_names(m)
        if "*" in known:
            self.ck.count("modules with an unknown star import")
            return
        self.ck.ok("name", m.name)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                continue
            self.ck.count("names resolved")
            if n.id in known or hasattr(builtins, n.id) or n.id in ("__class__", "__annotations__"):
                continue
            if self.scope_binds(n, n.id) or in_class_body(n) or guarded_name(n):
                continue
            self.ck.finding("name", "%s.%s %s" % (m.name, qual(enclosing(n)), n.id), "%s:%d" % (m.rel, n.lineno), "the name %s is not bound anywhere" % n.id)

    # ------------------------------------------------------------ expressions
    def walk_module(self, m):
        self.known_attrs()
        for n in ast.walk(m.tree):
            f = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(m, n)
            elif isinstance(n, ast.Call):
                self.call(m, n)
            elif isinstance(n, ast.Raise) and n.exc is not None:
                self.raised(m, n)
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                self.caught(m, n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.percent(m, n)

    def where(self, m, n):
        return "%s:%d" % (m.rel, n.lineno)

    def scope_binds(self, n, name):
        """name is local to a function around n"""
        s = enclosing(n)
        while s is not None:
            if name in local_names(s):
                return True
            s = enclosing(s)
        return False

    def resolve(self, m, e, site=None):
        """module-level or builtin object an expression denotes: ('module', name) / ('class', Class) / ('func', Func) / ('py', object) / None"""
        if isinstance(e, ast.Name):
            if self.scope_binds(e, e.id):
                d = self.local_import(m, e)
                if d is None:
                    return None
                return self.obj(d)
            b = m.bindings.get(e.id)
            if b is not None:
                if len({x[0] for x in b}) > 1 or any(x[0] == "value" for x in b):
                    return None
                if b[-1][0] == "import" and len({x[1] for x in b}) > 1:
                    return None
                if b[-1][0] == "class" and len(b) > 1 or b[-1][0] == "func" and len(b) > 1:
                    return None
                if b[-1][0] == "class":
                    return ("class", b[-1][1])
                if b[-1][0] == "func":
                    return ("func", b[-1][1])
                return self.obj(b[-1][1])
            if in_class_body(e):
                return None
            d = self.p.resolve_in_module(m, e.id)
            if d is not None:
                return self.obj(d)
            if hasattr(builtins, e.id):
                return ("py", getattr(builtins, e.id))
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value)
            if b is None:
                return None
            if b[0] == "module":
                return self.obj(b[1] + "." + e.attr)
            if b[0] == "py":
                if hasattr(b[1], e.attr):
                    return ("py", getattr(b[1], e.attr))
                return None
            if b[0] == "class":
                f = self.p.find_method(b[1], e.attr)
                if f is not None and f.kind == "plain" and not f.decorators:
                    return ("func", f)
        return None

    def local_import(self, m, e):
        """a name bound in the enclosing function only by one import"""
        s = enclosing(e)
        while s is not None:
            if e.id in local_names(s):
                tg = []
                for n in ast.walk(s):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        tg += [t for nm, t in m.import_bindings(n) if nm == e.id]
                    elif isinstance(n, ast.Name) and n.id == e.id and not isinstance(n.ctx, ast.Load):
                        return None
                    elif isinstance(n, ast.arg) and n.arg == e.id:
                        return None
                return tg[0] if len(set(tg)) == 1 else None
            s = enclosing(s)
        return None

    def obj(self, dotted):
        p = self.p
        d = p.canon(dotted)
        if d in p.modules:
            return ("module", d)
        c = p.class_by_dotted(d)
        mod, rest = p.split_dotted(d)
        if mod is not None:
            if rest and "." not in rest:
                b = mod.bindings.get(rest) or []
                if len(b) == 1 and b[0][0] == "class":
                    return ("class", b[0][1])
                if len(b) == 1 and b[0][0] == "func":
                    return ("func", b[0][1])
                if len(b) == 1 and b[0][0] == "import":
                    return self.obj(b[0][1]) if b[0][1] != d else None
            return None
        o = pyobj(d)
        return ("py", o) if o is not None else None

    def attribute(self, m, n):
        ck, p = self.ck, self.p
        if n.attr not in self.known and not self.foreign(m, n.value):
            ck.ok("attribute")
            if not guarded_attr(n):
                ck.finding("attribute", "%s.%s .%s" % (m.name, qual(enclosing(n)), n.attr), self.where(m, n), "nothing has an attribute %s" % n.attr)
            return
        b = self.resolve(m, n.value)
        if b is not None and b[0] == "module":
            mod = p.modules[b[1]]
            ck.ok("module", "%s.%s" % (b[1], n.attr))
            ck.count("attributes of modules")
            names = self.module_names(mod)
            if n.attr not in names and "*" not in names and (b[1] + "." + n.attr) not in p.modules and n.attr not in self.other:
                ck.finding("module", "%s.%s %s.%s" % (m.name, qual(enclosing(n)), b[1], n.attr), self.where(m, n), "the module %s has no %s" % (b[1], n.attr))
            return
        if b is not None and b[0] == "py":
            ck.ok("module")
            ck.count("attributes of modules")
            if not hasattr(b[1], n.attr) and not self.submodule(b[1], n.attr) and not guarded_attr(n):
                ck.finding("module", "%s.%s %s.%s" % (m.name, qual(enclosing(n)), getattr(b[1], "__name__", "?"), n.attr), self.where(m, n), "%s has no %s" % (getattr(b[1], "__name__", b[1]), n.attr))
            return
        if b is not None and b[0] == "class":
            names = self.class_attrs(b[1], subs=False)
            if names is not None:
                ck.ok("class", "%s.%s" % (b[1].full, n.attr))
                if n.attr not in names | set(dir(type)) | self.class_extra(b[1]) and n.attr not in self.other:
                    ck.finding("class", "%s.%s %s.%s" % (m.name, qual(enclosing(n)), b[1].name, n.attr), self.where(m, n), "the class %s has no %s" % (b[1].full, n.attr))
            return
        if not isinstance(n.value, ast.Name):
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
                self.superattr(m, n)
            return
        c, kind = self.receiver(m, n.value)
        if c is None:
            return
        if kind in ("self", "cls"):
            names = self.class_attrs(c)
            if names is None:
                return
            ck.ok("self", "%s.%s" % (c.full, n.attr))
            ck.count("attributes of self")
            extra = set(dir(type)) | self.class_extra(c) if kind == "cls" or self.p.is_subclass(c.full, "builtins.type") else set()
            if n.attr not in names | extra and not self.stored_elsewhere(c, n.attr) and not guarded_attr(n):
                ck.finding("self", "%s.%s .%s" % (m.name, qual(enclosing(n)), n.attr), self.where(m, n), "no %s has an attribute %s" % (c.name, n.attr))
        elif kind == "inst":
            names = self.class_attrs(c)
            if names is None:
                return
            ck.ok("class", "%s.%s" % (c.full, n.attr))
            ck.count("attributes of local instances")
            given = {x.attr for x in ast.walk(enclosing(n)) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == n.value.id}
            if n.attr not in names | given and not self.stored_elsewhere(c, n.attr):
                ck.finding("class", "%s.%s %s().%s" % (m.name, qual(enclosing(n)), c.name, n.attr), self.where(m, n), "the instance of %s has no attribute %s" % (c.name, n.attr))

    def foreign(self, m, e):
        """rooted in an import that cannot be resolved here (another platform, a compiled module)"""
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.value if not isinstance(e, ast.Call) else e.func
        if not isinstance(e, ast.Name):
            return False
        for b in m.bindings.get(e.id, ()):
            if b[0] == "import":
                d = self.p.canon(b[1])
                if d not in self.p.modules and self.p.split_dotted(d)[0] is None and pyobj(d) is None or d.startswith("postgresql.port.optimized"):
                    return True
        return False

    def stored_elsewhere(self, c, attr):
        """something that is not self gets the attribute: could be an instance of c"""
        if attr not in self.other:
            return False
        related = {k.full for k in self.p.mro(c) if isinstance(k, Class)} | {k.full for k in self.p.subclasses(c.full)}
        mods = {k.module.name for k in self.p.mro(c) if isinstance(k, Class)} | {k.module.name for k in self.p.subclasses(c.full)}
        return any(m in mods and (plain or k not in related) for m, k, plain in self.other[attr])

    def class_extra(self, c):
        """attributes a metaclass gives"""
        r = set()
        for b in self.p.mro(c):
            if isinstance(b, Class):
                for k in b.node.keywords:
                    if k.arg == "metaclass":
                        d = self.p.expr_dotted(b.module, k.value)
                        mc = self.p.class_by_dotted(d or "")
                        if mc is not None:
                            r |= self.class_attrs(mc) or set()
                        else:
                            r |= set(dir(pyobj(d))) if pyobj(d or "") is not None else set()
        return r

    def submodule(self, o, attr):
        if not hasattr(o, "__path__"):
            return False
        try:
            importlib.import_module(o.__name__ + "." + attr)
            return True
        except Exception:
            return False

    def superattr(self, m, n):
        fn = enclosing(n)
        f = getattr(fn, "_func", None)
        if f is None or f.cls is None:
            return
        names = set()
        for sub in [f.cls] + self.p.subclasses(f.cls.full):
            mro = self.p.mro(sub)
            ix = [i for i, k in enumerate(mro) if isinstance(k, Class) and k.full == f.cls.full]
            for k in mro[ix[0] + 1:] if ix else ():
                if isinstance(k, Class):
                    names |= set(k.methods) | set(k.assigns) | set(k.properties) | class_names(k.node)
                else:
                    o = pyobj(k)
                    if o is None:
                        return
                    names |= set(dir(o))
        names |= set(dir(object))
        self.ck.ok("class", "super().%s in %s" % (n.attr, f.full))
        if n.attr not in names:
            self.ck.finding("class", "%s super().%s" % (f.full, n.attr), self.where(m, n), "no base of %s has %s" % (f.cls.name, n.attr))

    def receiver(self, m, e):
        """(class, 'self'/'cls'/'inst') of a name"""
        fn = enclosing(e)
        s = fn
        while s is not None:
            f = getattr(s, "_func", None)
            if e.id in local_names(s):
                if f is not None and f.cls is not None and self_name(f) == e.id and not rebound(s, e.id):
                    return f.cls, ("cls" if f.kind == "class" or f.name == "__new__" else "self")
                if s is fn and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    v = single_assign(s, e.id)
                    if isinstance(v, ast.Call):
                        b = self.resolve(m, v.func)
                        if b is not None and b[0] == "class" and not self.custom_new(b[1]):
                            return b[1], "inst"
                return None, None
            s = enclosing(s)
        return None, None

    def custom_new(self, c):
        for b in self.p.mro(c):
            if isinstance(b, Class) and "__new__" in b.methods:
                return True
            if isinstance(b, Class) and any(k.arg == "metaclass" for k in b.node.keywords):
                d = [self.p.expr_dotted(b.module, k.value) for k in b.node.keywords if k.arg == "metaclass"][0]
                mc = self.p.class_by_dotted(d or "")
                if mc is not None and "__call__" in mc.methods:
                    return True
        return False

    # ------------------------------------------------------------ known attribute names
    def known_attrs(self):
        if self.known is not None:
            return self.known
        k = set(self.other)
        mods = set()
        for o in vars(builtins).values():
            k.update(dir(o))
        for s in self.stores.values():
            k |= s
        for m in self.mods:
            k |= set(m.bindings)
            k.update(m.name.split("."))
            for c in m.classes.values():
                k |= set(c.methods) | set(c.assigns) | set(c.properties) | class_names(c.node)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    k.add(n.name)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    k.add(n.value)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for nm, t in list(m.import_bindings(n)) + [("", a.name) for a in n.names if isinstance(n, ast.Import)]:
                        o = pyobj(t)
                        if o is None:
                            o = stdlib(t)
                        if o is not None:
                            mods.add(getattr(o, "__module__", None) if not isinstance(o, type(ast)) else o.__name__)
                            k.update(dir(o))
                            for v in list(vars(o).values()) if hasattr(o, "__dict__") else ():
                                if isinstance(v, type):
                                    k.update(dir(v))
        # types that library functions return
        import types, struct, subprocess, socket, ssl, datetime, decimal, io, re, threading
        for o in (types.FunctionType(compile("0", "", "eval"), {}), types.CodeType, types.FrameType, types.TracebackType, types.ModuleType, types.GeneratorType,
                  types.MethodType, struct.Struct, subprocess.Popen, socket.socket, ssl.SSLSocket, ssl.SSLContext, datetime.datetime, datetime.timedelta,
                  datetime.timezone, decimal.Decimal, decimal.Decimal(0).as_tuple(), __import__("hashlib").md5(), io.BufferedReader, io.TextIOWrapper, io.StringIO, io.BytesIO, re.compile(""), re.match("", ""), OSError(), SystemExit(),
                  StopIteration(), UnicodeDecodeError("utf8", b"", 0, 0, ""), ImportError(), threading.Thread, threading.current_thread(), __import__("os").stat_result, __import__("array").array):
            k.update(dir(o))
        k.update(self.dynamic_names())
        for nm in mods:
            k |= assigned_in(nm)
        self.known = k
        return k

    def dynamic_names(self):
        """names of library symbols ([name:...] in the SQL libraries) are attributes of bound libraries"""
        import os
        import re
        r = set()
        root = os.path.join(self.p.repo, self.p.package)
        for d, _, files in os.walk(root):
            for fn in files:
                if fn.endswith(".sql"):
                    with open(os.path.join(d, fn), encoding="utf-8", errors="replace") as fh:
                        r.update(re.findall(r"^\[([^:\]]+)", fh.read(), re.M))
        # namedtuple fields
        for m in self.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("namedtuple"):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            r.update(x.value.replace(",", " ").split())
        return r

    # ------------------------------------------------------------ calls
    def call(self, m, n):
        ck, p = self.ck, self.p
        f, skip, what = None, 0, None
        b = None
        if isinstance(n.func, (ast.Name, ast.Attribute)):
            b = self.resolve(m, n.func)
        if b is not None and b[0] == "func":
            f, what = b[1], b[1].full
            if isinstance(n.func, ast.Attribute):
                o = self.resolve(m, n.func.value)
                skip = 0
        elif b is not None and b[0] == "class":
            f = self.constructor(b[1])
            skip, what = 1, b[1].full
            if f is None:
                return
        elif isinstance(n.func, ast.Attribute):
            e = n.func
            if isinstance(e.value, ast.Name):
                c, kind = self.receiver(m, e.value)
                if c is not None and kind in ("self", "inst"):
                    if any(e.attr in self.stores.get(k.full, ()) for k in p.mro(c) if isinstance(k, Class)) or e.attr in self.other and kind == "inst":
                        return
                    f = p.find_method(c, e.attr)
                    if f is not None and p.find_property(c, e.attr):
                        return
                    skip, what = 1, "%s.%s" % (c.full, e.attr)
                    if f is not None and f.kind == "static":
                        skip = 0
            elif isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and not e.value.args:
                g = getattr(enclosing(n), "_func", None)
                if g is not None and g.cls is not None:
                    mro = p.mro(g.cls)[1:]
                    for k in mro:
                        if isinstance(k, Class) and e.attr in k.methods:
                            f = k.methods[e.attr]
                            break
                        if not isinstance(k, Class) and k != "builtins.object" and (pyobj(k) is None or hasattr(pyobj(k), e.attr)):
                            return
                    skip, what = 1, "super().%s" % e.attr
                    if f is not None and f.kind == "static":
                        skip = 0
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            self.strformat(m, n)
        if f is None or f.kind == "property":
            return
        if any(d not in ("staticmethod", "classmethod") for d in f.decorators):
            return
        ck.ok("call", what)
        ck.count("calls checked")
        msg = mismatch(f.node.args, n, skip)
        if msg:
            ck.finding("call", "%s.%s %s" % (m.name, qual(enclosing(n)), what), self.where(m, n), "%s() %s" % (what, msg))

    def constructor(self, c):
        for k in self.p.mro(c):
            if isinstance(k, Class):
                if any(x.arg == "metaclass" for x in k.node.keywords):
                    d = [self.p.expr_dotted(k.module, x.value) for x in k.node.keywords if x.arg == "metaclass"][0]
                    mc = self.p.class_by_dotted(d or "")
                    if mc is None and d not in ("abc.ABCMeta", "builtins.type") or mc is not None and "__call__" in mc.methods:
                        return None
                if "__new__" in k.methods:
                    return None if "__init__" in k.methods else k.methods["__new__"]
                if "__init__" in k.methods:
                    return k.methods["__init__"]
            elif k != "builtins.object":
                return None
        return None

    # ------------------------------------------------------------ raise / except
    def exc_ok(self, b):
        if b is None:
            return None
        if b[0] == "class":
            r = self.p.is_subclass(b[1].full, "builtins.BaseException")
            return r
        if b[0] == "py":
            o = b[1]
            if isinstance(o, type):
                return issubclass(o, BaseException)
            if isinstance(o, tuple):
                return all(isinstance(x, type) and issubclass(x, BaseException) for x in o)
            if callable(o):
                return None
            return isinstance(o, BaseException)
        if b[0] == "module":
            return False
        return None

    def raised(self, m, n):
        self.ck.count("raises")
        e = n.exc
        self.ck.ok("raise")
        if isinstance(e, ast.Call):
            r = self.exc_ok(self.resolve(m, e.func))
        elif isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.BinOp)):
            r = False
        else:
            b = self.resolve(m, e)
            r = self.exc_ok(b) if b is None or b[0] != "func" else False
        if r is False:
            self.ck.finding("raise", "%s.%s %s" % (m.name, qual(enclosing(n)), ast.unparse(e)[:60]), self.where(m, n), "what is raised is no exception: %s" % ast.unparse(e)[:80])

    def caught(self, m, h):
        for e in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
            self.ck.ok("raise")
            self.ck.count("handlers")
            r = False if isinstance(e, ast.Constant) else self.exc_ok(self.resolve(m, e))
            if r is False:
                self.ck.finding("raise", "%s.%s except %s" % (m.name, qual(enclosing(h)), ast.unparse(e)[:60]), self.where(m, h), "what is caught is no exception: %s" % ast.unparse(e)[:80])

    # ------------------------------------------------------------ format strings
    def percent(self, m, n):
        v = n.left.value if isinstance(n.left, ast.Constant) else None
        if not isinstance(v, (str, bytes)):
            return
        spec = percent_spec(v if isinstance(v, str) else v.decode("latin1"))
        if spec is None:
            return
        count, names = spec
        self.ck.count("format strings")
        self.ck.ok("format")
        msg = None
        if names:
            if isinstance(n.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in n.right.keys):
                miss = names - {k.value for k in n.right.keys}
                if miss:
                    msg = "the key %s is not given" % sorted(miss)[0]
            elif isinstance(n.right, (ast.Tuple, ast.Constant)):
                msg = "it needs a mapping"
        elif isinstance(n.right, ast.Tuple):
            if not any(isinstance(x, ast.Starred) for x in n.right.elts) and len(n.right.elts) != count:
                msg = "it takes %d arguments and gets %d" % (count, len(n.right.elts))
        elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.Attribute, ast.Name, ast.Call, ast.Subscript)) and count != 1:
            if isinstance(n.right, (ast.Constant, ast.JoinedStr)) or isinstance(n.right, ast.Call) and isinstance(n.right.func, ast.Name) and n.right.func.id in ("repr", "str", "len", "int"):
                msg = "it takes %d arguments and gets 1" % count
            elif count == 0:
                msg = "it takes no argument"
        if msg:
            self.ck.finding("format", "%s.%s %r" % (m.name, qual(enclosing(n)), v[:40]), self.where(m, n), "the format %r: %s" % (v[:60], msg))

    def strformat(self, m, n):
        v = n.func.value.value
        self.ck.count("format strings")
        self.ck.ok("format")
        try:
            fields = [x for x in string.Formatter().parse(v) if x[1] is not None]
        except ValueError as e:
            self.ck.finding("format", "%s.%s %r" % (m.name, qual(enclosing(n)), v[:40]), self.where(m, n), "the format is malformed: %s" % e)
            return
        star = any(isinstance(a, ast.Starred) for a in n.args)
        kstar = any(k.arg is None for k in n.keywords)
        kws = {k.arg for k in n.keywords}
        auto = 0
        for _, name, spec, conv in fields:
            head = name.replace("[", ".").split(".")[0]
            if head == "":
                ix, auto = auto, auto + 1
            elif head.isdigit():
                ix = int(head)
            else:
                if head not in kws and not kstar:
                    self.ck.finding("format", "%s.%s %r" % (m.name, qual(enclosing(n)), v[:40]), self.where(m, n), "the format's field %r is not given" % head)
                continue
            if ix >= len(n.args) and not star:
                self.ck.finding("format", "%s.%s %r" % (m.name, qual(enclosing(n)), v[:40]), self.where(m, n), "the format refers to argument %d of %d" % (ix, len(n.args)))


# ---------------------------------------------------------------- helpers
def percent_spec(s):
    i, count, names = 0, 0, set()
    while True:
        i = s.find("%", i)
        if i < 0:
            return count, names
        i += 1
        if i >= len(s):
            return None
        if s[i] == "%":
            i += 1
            continue
        if s[i] == "(":
            j = s.find(")", i)
            if j < 0:
                return None
            names.add(s[i + 1:j])
            i = j + 1
        while i < len(s) and s[i] in "#0- +":
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in ".*"):
            if s[i] == "*":
                count += 1
            i += 1
        if i >= len(s) or s[i] not in "diouxXeEfFgGcrsab":
            return None
        if not names:
            count += 1
        i += 1


def mismatch(a, call, skip):
    pos = [x.arg for x in a.posonlyargs + a.args]
    names = pos[skip:]
    ndef = len(a.defaults)
    required = [x for x in pos[:len(pos) - ndef]][skip:]
    kwonly = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    kstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if skip > len(pos) and a.vararg is None:
        return "takes no receiver"
    if n > len(names) and a.vararg is None:
        return "takes at most %d arguments, %d given" % (len(names), n)
    posonly = {x.arg for x in a.posonlyargs}
    for k in kws:
        if k not in names and k not in kwonly and a.kwarg is None or k in posonly and a.kwarg is None:
            return "has no parameter %s" % k
        if k in names and names.index(k) < n:
            return "gets %s twice" % k
    if not star and not kstar:
        for i, r in enumerate(required):
            if i >= n and r not in kws:
                return "needs %s" % r
    if not kstar:
        for r in kwreq:
            if r not in kws:
                return "needs %s" % r
    return None


_LOCALS = {}


def local_names(fn):
    r = getattr(fn, "_p27_locals", None)
    if r is None:
        from sa.absint import collect_locals
        loc, g, nl = set(), set(), set()
        if isinstance(fn, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in fn.generators:
                for x in ast.walk(c.target):
                    if isinstance(x, ast.Name):
                        loc.add(x.id)
        elif isinstance(fn, ast.ClassDef):
            loc = set()
        else:
            collect_locals(fn, loc, g, nl)
        r = fn._p27_locals = loc - g - nl
    return r


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def enclosing(n):
    """the innermost function or comprehension whose body contains n"""
    prev, x = n, getattr(n, "_parent", None)
    while x is not None:
        if isinstance(x, FUNCS):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if prev in x.body:
                    return x
            elif isinstance(x, ast.Lambda):
                if prev is x.body:
                    return x
            else:
                return x
        prev, x = x, getattr(x, "_parent", None)
    return None


def qual(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        n = enclosing(n)
    f = getattr(n, "_func", None)
    return f.qual if f is not None else getattr(n, "name", "<module>")


def in_function(n):
    return enclosing(n) is not None


def in_class_body(n):
    x = getattr(n, "_parent", None)
    while x is not None and not isinstance(x, FUNCS):
        if isinstance(x, ast.ClassDef):
            names = {t.id for s in x.body for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | {s.name for s in x.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            if getattr(n, "id", None) in names:
                return True
        x = getattr(x, "_parent", None)
    return False


def in_slots(n):
    x = getattr(n, "_parent", None)
    while x is not None and not isinstance(x, FUNCS):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in x.targets):
            return True
        x = getattr(x, "_parent", None)
    return False


def class_names(node):
    """everything a class body binds, also in nested blocks and by unpacking"""
    r = set()
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.add(x.name)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            r.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                r.add((al.asname or al.name).split(".")[0])
        if not isinstance(x, ast.Lambda):
            stack.extend(ast.iter_child_nodes(x))
    return r


def self_name(f):
    if f.cls is None or f.outer is not None or isinstance(f.node, ast.Lambda) or f.kind == "static" and f.name != "__new__":
        return None
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if a else None


def rebound(fn, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in walk_own(fn))


def single_assign(fn, name):
    """the value of the only binding of a local name, a plain assignment"""
    v, k = None, 0
    if name in {x.arg for x in ast.walk(fn.args) if isinstance(x, ast.arg)}:
        return None
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
            k += 1
            par = x._parent
            v = par.value if isinstance(par, ast.Assign) and x in par.targets else None
        elif isinstance(x, ast.ExceptHandler) and x.name == name:
            return None
    return v if k == 1 else None


def guarded_name(n):
    """inside a try that catches NameError or a handler of ImportError (another interpreter)"""
    prev, x = n, getattr(n, "_parent", None)
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
        if isinstance(x, ast.Try) and prev in x.body and any(h.type is not None and "NameError" in ast.unparse(h.type) for h in x.handlers):
            return True
        if isinstance(x, ast.ExceptHandler) and x.type is not None and "ImportError" in ast.unparse(x.type):
            return True
        prev, x = x, getattr(x, "_parent", None)
    return False


def guarded_attr(n):
    """inside a try that catches AttributeError, or under hasattr"""
    prev, x = n, getattr(n, "_parent", None)
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
        if isinstance(x, ast.Try) and prev in x.body:
            for h in x.handlers:
                t = ast.unparse(h.type) if h.type is not None else ""
                if not t or "AttributeError" in t or "NameError" in t or t == "Exception":
                    return True
        if isinstance(x, (ast.If, ast.IfExp)) and prev is not x.test and "hasattr(" in ast.unparse(x.test):
            return True
        if isinstance(x, ast.BoolOp) and "hasattr(" in ast.unparse(x):
            return True
        prev, x = x, getattr(x, "_parent", None)
    return False


def all_of(m):
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            try:
                return set(ast.literal_eval(n.value))
            except Exception:
                return None
    return None


def assigned_in(modname):
    """attribute names a standard library module assigns"""
    import importlib.util
    r = set()
    if not modname or modname.split(".")[0] in SKIP_STDLIB:
        return r
    try:
        sp = importlib.util.find_spec(modname)
        if sp is None or not sp.origin or not sp.origin.endswith(".py"):
            return r
        with open(sp.origin, "rb") as f:
            t = ast.parse(f.read())
    except Exception:
        return r
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            r.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
    return r


_STD = {}


def stdlib(name):
    if name.split(".")[0] in SKIP_STDLIB or name.startswith("."):
        return None
    if name not in _STD:
        try:
            _STD[name] = importlib.import_module(name)
        except BaseException:
            _STD[name] = None
    return _STD[name]


def pyobj(dotted):
    """an object of the standard library by its dotted name"""
    if not dotted or dotted.split(".")[0] in SKIP_STDLIB:
        return None
    if dotted.startswith("builtins."):
        o = builtins
        for x in dotted.split(".")[1:]:
            o = getattr(o, x, None)
        return o
    import sys
    parts = dotted.split(".")
    if parts[0] not in sys.stdlib_module_names:
        return None
    for i in range(len(parts), 0, -1):
        m = stdlib(".".join(parts[:i]))
        if m is not None:
            o = m
            for x in parts[i:]:
                if not hasattr(o, x):
                    return None
                o = getattr(o, x)
            return o
    return None
