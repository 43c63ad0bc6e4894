"""P11: a password reaches no display string, no message and no trace.

Terms of the abstract interpreter are inspected for password leaves wherever a text becomes visible: what a display
method returns or yields, what an exception, a warning, a prompt, a stream or a tracer is given."""
import ast
from sa.rules import *
from sa.program import walk_own

SELF = ("p", "self")
PW = ("p", "$password")
MASKED = ("p", "$masked")
ATTRS = {"password", "_password", "passwd", "_passwd", "pw"}
PARAMS = {"password", "passwd", "pw"}
CONTAINERS = {"kw", "kwargs", "params", "parameters", "iri_params", "std_params", "cond", "cpd", "x", "d"}
SCOPE = ("postgresql", "postgresql.api", "postgresql.cluster", "postgresql.iri", "postgresql.pgpassfile", "postgresql.clientparameters",
         "postgresql.resolved.riparse", "postgresql.driver", "postgresql.driver.pq3", "postgresql.driver.dbapi20", "postgresql.driver",
         "postgresql.bin.pg_python", "postgresql.bin.pg_dotconf", "postgresql.protocol.xact3", "postgresql.protocol.client3",
         "postgresql.python.socket", "postgresql.temporal", "postgresql.installation", "postgresql.lib", "postgresql.sys", "postgresql.message",
         "postgresql.exceptions", "postgresql.python.element")
DISPLAY = ("__repr__", "__str__", "_e_metas", "_e_label", "_pq_iri", "__format__")
IRI = {"postgresql.iri.serialize", "postgresql.iri.construct", "postgresql.iri:serialize", "postgresql.iri:construct"}
# the modules whose objects hold a password or what holds one
HOLDING = ("postgresql.driver.pq3", "postgresql.api", "postgresql.cluster", "postgresql.protocol.xact3", "postgresql.protocol.client3",
           "postgresql.protocol.element3", "postgresql.driver.dbapi20", "postgresql.python.socket")
QUIET = {"len", "isinstance", "type", "id", "hash", "bool", "callable", "hasattr", "keys", "__len__", "issubclass", "set_password"}


class Leak:
    """Does a term show a password?"""

    def __init__(self, eng, st, containers=()):
        self.eng, self.st, self.containers = eng, st, containers
        self.seen = set()

    def falsy(self, t):
        return (t, False) in self.st.facts or ("cmp", "is", t, NONE) in [x for x, v in self.st.facts if v]

    def secret(self, t):
        if t == PW:
            return not self.falsy(t)
        if t[0] == "attr" and t[2] in ATTRS:
            return not self.falsy(t)
        if t[0] == "attr" and t[1] == SELF and t[2] == "__dict__":
            return True
        if t[0] == "sub" and t[2] == C("password"):
            return not self.falsy(t)
        return False

    def __call__(self, t, shown=True):
        if not isinstance(t, (tuple, frozenset)) or not t:
            return None
        if isinstance(t, frozenset):
            return self.any(t)
        if t in self.seen:
            return None
        self.seen.add(t)
        k = t[0]
        if not isinstance(k, str):
            return self.any(t)
        if k in ("c", "g", "fn"):
            return None
        if self.secret(t):
            return t
        if k == "p":
            return t if t in self.containers else None
        if k == "attr":
            return None
        if k == "obj":
            items = self.eng.hget(self.st, (t, "$items"))
            if items is not None:
                return self.any(items)
            a = self.st.heap.get((t, "$args"))
            return self.any(a) if a is not None else None
        if k == "sub":
            if t[1] in self.containers:
                return t if not is_const(t[2]) else None
            return self(t[1])
        if k in ("cmp", "not", "isinst"):
            return None
        cp = call_parts(t)
        if cp is not None:
            f, args, kws = cp
            recv, name = callee(f)
            if name in QUIET or name in IRI:
                return None
            if f == G("builtins.getattr") and len(args) > 1:
                return t if args[1][0] == "c" and args[1][2] in ATTRS and not self.falsy(t) else None
            if name in ("get", "pop", "setdefault") and recv is not None:
                if args and args[0] == C("password"):
                    return None if self.falsy(t) else t
                if args and is_const(args[0]):
                    return self.any(args[1:])
                if recv in self.containers:
                    return t
            if name in ("join", "sorted", "list", "tuple", "set", "iter", "min", "max", "__iter__") and all(a in self.containers for a in args) and args:
                return None             # the keys of a mapping
            r = self(recv) if recv is not None else self(f)
            if r is None and name not in ("fromkeys",):
                r = self.any(args) or self.any([v for _, v in kws])
            return r
        if k == "elem":
            # iterating over a mapping gives its keys
            if t[1] in self.containers:
                return None
            return self.any(t[1:])
        return self.any(t[1:])

    def any(self, ts):
        for x in ts:
            if isinstance(x, (tuple, frozenset)):
                r = self(x)
                if r is not None:
                    return r
        return None


class Base(EventRule):
    max_depth = 4
    initial = ()

    def may_raise(self, eng, f, node, st):
        return False

    def iri_call(self, eng, node, f, args, kws, st):
        _, name = callee(f)
        if f[0] == "g" and f[1].replace(":", ".") in ("postgresql.iri.serialize", "postgresql.iri.construct"):
            flag = arg(args, kws, 1, "obscure_password", FALSE)
            return [Out("v", st, MASKED if flag == TRUE else PW)]
        return None


class D(Base):
    """display methods: the instance's dictionary holds the password"""
    def __init__(self, holder):
        self.holder = holder
        self.out = []

    def inline(self, eng, func):
        return func.module is eng.root.module and eng.root.module.name in HOLDING and func.name not in ("construct", "serialize", "__init__")

    def getattr(self, eng, node, base, attr, st, fr):
        if base == SELF and attr == "__dict__" and self.holder:
            ob = ("obj", "dict", ("holder", 0), 0)
            keys = ("user", "password", "_password", "host", "settings")
            vals = [(C(k), ("attr", SELF, k)) for k in keys]
            st = st.hset((ob, "$items"), ("D", tuple(vals)))
            return [Out("v", st, ob)]
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if f == G("builtins.vars") and args == (SELF,):
            return self.getattr(eng, node, SELF, "__dict__", st, fr)
        return self.iri_call(eng, node, f, args, kws, st)

    def on_yield(self, eng, node, val, st, fr):
        self.out.append((node, val, st))
        return None


class M(Base):
    """messages: everything a stream, prompt, exception or tracer is given"""
    max_depth = 2
    widen_after = 2
    state_cap = 24

    def __init__(self, p, containers):
        self.p, self.containers, self.bad, self.sinks = p, containers, [], set()

    def inline(self, eng, func):
        return False

    def sink(self, eng, f):
        recv, name = callee(f)
        if f[0] == "g":
            n = f[1]
            if n in ("builtins.print", "warnings.warn", "pprint.pprint", "pprint.pp", "logging.warning", "getpass.getpass", "builtins.input") or n.startswith("logging."):
                return n.rsplit(".", 1)[1]
            if n.startswith("builtins.") and n[9:].endswith(("Error", "Warning", "Exit", "Exception")):
                return n[9:]
            c = self.p.classes.get(n) if hasattr(self.p, "classes") else None
            try:
                if self.p.is_subclass(n, "builtins.BaseException"):
                    return n.rsplit(".", 1)[1]
            except Exception:
                pass
        if name in ("write", "writelines") and recv is not None and ("stderr" in show(recv) or "stdout" in show(recv)):
            return "write"
        if name in ("tracer", "_tracer") or f[0] == "p" and f[1] in ("getpass", "tracer"):
            return name or f[1]
        if name in ("raise_client_error", "emit_client_message", "ClientError", "ClientNotice"):
            return name
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        r = self.iri_call(eng, node, f, args, kws, st)
        if r is not None:
            return r
        s = self.sink(eng, f)
        if s is None:
            return None
        self.sinks.add((fr.func.loc(node), s))
        for a in tuple(args) + tuple(v for k, v in kws if k not in ("creator", "cause", "file")):
            leak = Leak(eng, st, self.containers)(a)
            if leak is not None:
                self.bad.append((fr.func, node, s, leak, st.trace))
        return None


def displays(p):
    for m in p.modules.values():
        if not m.name.startswith("postgresql") or ".test" in m.name:
            continue
        for c in m.classes.values():
            for n in DISPLAY:
                f = c.methods.get(n)
                if f is not None:
                    yield m, c, f


def run(ck, p):
    ck.rule("display", "no text a display method returns or yields contains a password")
    ck.rule("iri", "the IRI made with obscure_password shows a fixed mask in the place of the password and the password nowhere else")
    ck.rule("callers", "every IRI the library makes for display is made with obscure_password")
    ck.rule("messages", "no exception, warning, prompt, stream or tracer is given a password")
    ck.rule("trace", "the protocol trace masks the password message")
    ck.rule("startup", "the startup parameters, which are displayed, contain no password")
    # -------------------------------------------------------------- display
    connector = p.cls("postgresql.api:Connector")
    n = 0
    for m, c, f in displays(p):
        holders = bool(p.is_subclass(c.full, connector.full))
        rule = D(holders)
        eng = Engine(p, rule)
        outs = eng.run(f, {}, self_class=c.full, keep_defaults=True)
        ck.func(f)
        n += 1
        pw_class = c.name == "Password"
        vals = [(o.node, o.val, o.st) for o in outs if o.kind in ("v", "return")] + rule.out
        for node, v, st in vals:
            lk = Leak(eng, st)
            leak = lk(v)
            if leak is None and pw_class and v is not None:
                leak = next((t for t in walk_term(v) if t == ("attr", SELF, "data") or t == SELF and False), None)
            if leak is None and v is not None and not isinstance(v, str):
                leak = next((t for t in walk_term(v) if t == PW), None)
            ck.judge(leak is None, "display", c.name + "." + f.name, f.loc(node) if hasattr(node, "lineno") else f.loc(),
                     "the text contains %s" % (show(leak) if leak else ""), st.trace)
    ck.count("display methods", n)
    ck.at_least("display methods", 40)
    # the classes that hold a password override what would show it
    own = p.cls("postgresql.protocol.element3:Password")
    f = p.find_method(own, "__repr__")
    ck.judge(f is not None and (f.cls.name == "Password" or not shows_data(p, f)), "display", "Password.__repr__", f.loc() if f else own.full,
             "the password message is displayed by %s, which shows its data" % (f.full if f else "nothing"))
    # a class that holds one must not be a tuple or dict that shows it
    iri(ck, p)
    callers(ck, p)
    messages(ck, p)
    trace(ck, p)
    startup(ck, p)


def shows_data(p, f):
    return any(isinstance(x, ast.Attribute) and x.attr in ("data", "serialize", "bytes") or isinstance(x, ast.Name) and x.id == "tuple" or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f.node))


class R(Base):
    max_depth = 5

    def inline(self, eng, func):
        return func.module.name in ("postgresql.iri", "postgresql.resolved.riparse") and not func.name.startswith("re_")

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name == "unsplit_netloc" and f[0] == "g":
            return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        if name in ("split_ident", "construct_path", "path_comp") and f[0] == "g":
            return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        return None


def iri(ck, p):
    m = p.module("postgresql.iri")
    for fname in ("construct", "serialize"):
        f = p.func("postgresql.iri:" + fname)
        ck.func(f)
        for extra in ((), (("ssl", TRUE),), (("unix", ("p", "$unix")),), (("x_opt", ("p", "$opt")), ("path", ("p", "$path")), ("database", ("p", "$db")))):
            rule = R()
            eng = Engine(p, rule)
            ob = ("obj", "dict", ("given", 0), 0)
            items = (("user", ("p", "$user")), ("password", PW), ("host", ("p", "$host")), ("port", ("p", "$port"))) + extra
            st = State(ts=()).hset((ob, "$items"), ("D", tuple((C(k), v) for k, v in items))).fact(PW, True)
            st = st.fact(("cmp", "is", PW, NONE), False)
            outs = eng.run(f, {"x": ob, "obscure_password": TRUE}, st=st)
            rets = [o for o in outs if o.kind == "return"]
            ck.judge(bool(rets), "iri", fname, f.loc(), "makes no IRI")
            for o in rets:
                leak = Leak(eng, o.st, (ob,))(o.val)
                if leak is None and contains(o.val, PW):
                    leak = PW
                ck.judge(leak is None, "iri", fname, f.loc(), "with obscure_password the result contains %s" % (show(leak) if leak else ""), o.st.trace)
                if fname == "construct" and leak is None:
                    masks = [t for t in walk_term(o.val) if is_const(t) and isinstance(t[2], str) and t[2] and set(t[2]) <= set("*x•")]
                    ck.judge(bool(masks), "iri", fname + " mask", f.loc(), "nothing shows that a password was given: %s" % show(o.val)[:160])


def callers(ck, p):
    """every call of iri.serialize/construct in the library"""
    n = 0
    for f in p.all_funcs():
        mod = f.module
        if ".test" in mod.name or mod.name in ("postgresql.iri", "postgresql.resolved.riparse"):
            continue
        for x in walk_own(f.node):
            if not isinstance(x, ast.Call):
                continue
            d = dotted(mod, x.func)
            if d not in ("postgresql.iri.serialize", "postgresql.iri.construct", "postgresql.resolved.riparse.construct"):
                continue
            n += 1
            if d.startswith("postgresql.resolved"):
                ok = False
            else:
                flag = next((k.value for k in x.keywords if k.arg == "obscure_password"), x.args[1] if len(x.args) > 1 else None)
                ok = isinstance(flag, ast.Constant) and flag.value is True
                if not ok and isinstance(flag, ast.Name):
                    ok = const_true(f, flag.id)
            ck.judge(ok, "callers", f.full, f.loc(x), "an IRI is made without obscure_password")
    ck.count("iri calls", n)
    ck.at_least("iri calls", 2)


def const_true(f, name):
    vals = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name) and t.id == name]
    return bool(vals) and all(isinstance(v, ast.Constant) and v.value is True for v in vals)


def dotted(mod, e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    base = mod.name + "." + e.id
    for kind, v in mod.bindings.get(e.id, ()):
        if kind == "import":
            base = v
    return ".".join([base] + parts[::-1])


def messages(ck, p):
    total = 0
    for f in p.all_funcs():
        if f.module.name not in SCOPE or f.name in ("<lambda>",):
            continue
        if any(isinstance(x, ast.If) and "__name__" in ast.dump(x.test) for x in ast.walk(f.node)):
            continue
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs] + ([f.node.args.kwarg.arg] if f.node.args.kwarg else [])
        env, cont = {}, []
        for a in names:
            if a in PARAMS:
                env[a] = PW
        kwarg = f.node.args.kwarg.arg if f.node.args.kwarg else None
        takes = f.module.name in ("postgresql", "postgresql.iri", "postgresql.clientparameters", "postgresql.pgpassfile", "postgresql.driver.dbapi20",
                                  "postgresql.resolved.riparse") or f.cls is not None and (
            f.cls.name == "Cluster" or f.cls.name.endswith("Driver") or bool(p.is_subclass(f.cls.full, "postgresql.api.Connector")))
        for a in names:
            if takes and not PARAMS & set(names) and (a == kwarg or a in ("parameters", "params", "iri_params", "d", "x", "clientparams")):
                cont.append(("p", a))
                env[a] = ("p", a)
        if f.module.name == "postgresql" and f.name == "open" and "iri" in names:
            cont.append(("p", "iri"))
        if f.module.name == "postgresql.driver.pq3" and f.name == "connect":
            continue        # explored under P05; what it reports is judged by syntax below
        if not env and not cont and not any(isinstance(x, ast.Attribute) and x.attr in ATTRS or isinstance(x, ast.Constant) and x.value == "password"
                                            for x in ast.walk(f.node)):
            continue        # no password comes here
        rule = M(p, tuple(cont))
        eng = Engine(p, rule)
        try:
            eng.run(f, env, self_class=f.cls.full if f.cls else None)
        except AnalysisBroken:
            ck.count("functions too large to explore")
            continue
        ck.func(f)
        total += len(rule.sinks)
        for where, s in sorted(rule.sinks):
            ck.ok("messages", "%s %s" % (f.full, s))
        for g, node, s, leak, tr in rule.bad:
            ck.finding("messages", "%s %s" % (g.full, s), g.loc(node), "%s is given %s" % (s, show(leak)), tr)
    ck.count("message sinks", total)
    ck.at_least("message sinks", 15)


class T(Base):
    max_depth = 2
    cls_name = "Password"

    def __init__(self):
        self.out = []

    def inline(self, eng, func):
        return func.name not in ("standard_write_messages", "write_messages", "_tracer")

    def getattr(self, eng, node, base, attr, st, fr):
        if base == ("p", "$msg"):
            if attr == "__class__":
                return [Out("v", st, G("postgresql.protocol.element3.Password"))]
            if attr == "type":
                return [Out("v", st, C(b"p"))]
        return None

    def decide(self, eng, t, st):
        cp = call_parts(t)
        if t[0] == "isinst" and t[1] == ("p", "$msg") or cp and cp[0] == G("builtins.isinstance") and cp[1][0] == ("p", "$msg"):
            return any(x == G("postgresql.protocol.element3.Password") for x in walk_term(t))
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        msg = ("p", "$msg")
        if name in ("_tracer", "tracer") or f == ("p", "$tracer"):
            self.out.append((node, tuple(args), st, fr))
            return [Out("v", st, NONE)]
        if f == G("builtins.isinstance") and args[:1] == (msg,):
            return [Out("v", st, TRUE if any(t == G("postgresql.protocol.element3.Password") for t in walk_term(args[1])) else FALSE)]
        if f == G("builtins.type") and args == (msg,):
            return [Out("v", st, G("postgresql.protocol.element3.Password"))]
        if f == G("builtins.getattr") and args[:2] == (msg, C("type")):
            return [Out("v", st, C(b"p"))]
        if f == G("builtins.len") and args and contains(args[0], msg):
            return [Out("v", st, ("p", "$length"))]
        if f == G("builtins.repr") and args == (msg,):
            return [Out("v", st, MASKED)]       # decided by rule "display"
        if name == "bytes" and recv == msg or name in ("serialize", "__bytes__") and recv == msg or f == G("builtins.bytes") and args == (msg,):
            return [Out("v", st, PW)]
        return None


def trace(ck, p):
    cls = p.cls("postgresql.protocol.client3:Connection")
    f = p.find_method(cls, "traced_write_messages")
    ck.func(f)
    rule = T()
    eng = Engine(p, rule)
    st = State(ts=())
    name = [a.arg for a in f.node.args.args][1]
    eng.run(f, {name: ("tuple", ("p", "$msg"))}, self_class=cls.full, st=st)
    ck.judge(bool(rule.out), "trace", "traced_write_messages", f.loc(), "the tracer is never called")
    for node, args, st, fr in rule.out:
        bad = Leak(eng, st).any(args) is not None or any(t == ("attr", ("p", "$msg"), "data") for a in args for t in walk_term(a))
        ck.judge(not bad, "trace", "traced_write_messages", fr.func.loc(node), "the trace of a password message contains it: %s" % show(("tuple",) + tuple(args))[:200], st.trace)


class S(Base):
    def __init__(self):
        self.stores = []

    def setattr(self, eng, node, base, attr, val, st, fr):
        if base == SELF and attr == "_startup_parameters":
            self.stores.append((node, val, st, fr))
        return None


def startup(ck, p):
    cls = p.cls("postgresql.driver.pq3:Connector")
    n = 0
    for f in p.all_funcs():
        if f.module is not cls.module or f.cls is None or not any(
                isinstance(x, ast.Attribute) and x.attr == "_startup_parameters" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        rule = S()
        eng = Engine(p, rule)
        eng.run(f, {}, self_class=cls.full, st=State(ts=()).fact(("attr", SELF, "password"), True))
        ck.func(f)
        for node, val, st, fr in rule.stores:
            n += 1
            leak = Leak(eng, st)(val)
            ck.judge(leak is None, "startup", f.full, fr.func.loc(node), "the startup parameters contain %s" % (show(leak) if leak else ""), st.trace)
    ck.count("startup parameter stores", n)
    ck.at_least("startup parameter stores", 1)
