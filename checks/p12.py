"""P12: what is opened is closed, removed or handed to an owner on every path, each exception included.

Every function with an acquiring call (found over the whole library, together with the functions that hand a fresh
resource on) is interpreted with the resource's obligations as typestate; the owners of a connection's socket
(protocol connect, the driver's attempts, close) are interpreted for every outcome of each step."""
import ast
from sa.rules import *
from sa.program import walk_own, Func, Class
from sa.absint import contains, transients

MOD = "postgresql.protocol.client3"
PQ3 = "postgresql.driver.pq3"
SELF = ("p", "self")
FILES = {"builtins.open", "io.open", "os.fdopen", "codecs.open", "io.FileIO", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile"}
TEMPS = {"tempfile.NamedTemporaryFile"}
SOCKETS = {"socket.socket", "socket.create_connection", "socket.socketpair", "_socket.socket"}
FDS = {"os.open", "os.dup", "tempfile.mkstemp", "os.pipe"}
DIRS = {"tempfile.mkdtemp"}
ATTRS = {"socket_factory": "socket", "_open": "file", "_socketcreator": "socket"}
SKIP = ("postgresql.test.", "postgresql.documentation", "postgresql.release.")
CALM = {"os.path.join", "os.path.exists", "os.path.abspath", "os.path.basename", "builtins.print"}


def kind_of(dotted):
    for k, s in (("file", FILES), ("tempfile", TEMPS), ("socket", SOCKETS), ("fd", FDS), ("dir", DIRS)):
        if dotted in s:
            return k
    return None


FORGET = {"ret", "call", "elem", "cat", "fmt", "slice", "item", "attr", "obj", "w"}


def with_facts(st, facts):
    s = st._cp()
    s.facts = facts
    return s


def is_res(t):
    return t[0] == "p" and str(t[1]).startswith("$")


class Found:
    """acquiring call sites by function, and the functions that return a fresh resource"""

    def __init__(self, p):
        self.p = p
        self.producers = {}       # full name of a function -> (kind, keeps: must be removed)
        self.sites = {}
        changed = True
        funcs = [f for f in p.all_funcs() if not f.module.name.startswith(SKIP) and not isinstance(f.node, ast.Lambda)]
        while changed:
            changed = False
            for f in funcs:
                s = [n for n in walk_own(f.node) if isinstance(n, ast.Call) and self.kind(f.module, n, f)]
                if s:
                    self.sites[f.full] = (f, s)
                if f.full in self.producers:
                    continue
                names = {}
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                        k = self.kind(f.module, n.value, f)
                        if k:
                            names[n.targets[0].id] = k
                for n in walk_own(f.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        k = self.kind(f.module, n.value, f) if isinstance(n.value, ast.Call) else names.get(n.value.id) if isinstance(n.value, ast.Name) else None
                        if k:
                            self.producers[f.full] = k
                            changed = True

    def kind(self, m, call, f):
        """(what, must it be removed too) for an acquiring call, or None"""
        p = self.p
        d = p.expr_dotted(m, call.func)
        if isinstance(call.func, ast.Name) and self.local(f, call.func.id):
            d = None
        if d:
            d = p.canon(d)
            k = kind_of(d)
            if k is None and isinstance(call.func, ast.Name) and call.func.id == "open" and d == "builtins.open":
                k = "file"
            if k:
                keep = k in ("dir",) or d == "tempfile.mkstemp" or k == "tempfile" and any(
                    x.arg == "delete" and not (isinstance(x.value, ast.Constant) and x.value.value is True) for x in call.keywords)
                return ("file" if k == "tempfile" else k, keep)
        if isinstance(call.func, ast.Attribute) and call.func.attr in ATTRS and isinstance(call.func.value, ast.Name) and call.func.value.id == "self":
            return (ATTRS[call.func.attr], False)
        if isinstance(call.func, ast.Name):
            fs = [b[1] for b in m.bindings.get(call.func.id, ()) if b[0] == "func"]
            ks = [self.producers[x.full] for x in fs if x.full in self.producers]
            if ks and not self.local(f, call.func.id):
                return (ks[0][0], any(k[1] for k in ks))
        elif isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls", "typ") and f.cls is not None:
            g = p.find_method(f.cls, call.func.attr)
            if isinstance(g, Func) and g.full in self.producers:
                return self.producers[g.full]
        return None

    def local(self, f, name):
        from sa.absint import collect_locals
        x = f
        while x is not None:
            loc, g, nl = set(), set(), set()
            collect_locals(x.node, loc, g, nl)
            if name in loc:
                return not self.default_open(x, name)
            x = x.outer
        return False

    def default_open(self, f, name):
        a = f.node.args
        ps = a.posonlyargs + a.args
        for q, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(q, d) for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if q.arg == name and isinstance(d, (ast.Name, ast.Attribute)) and self.p.expr_dotted(f.module, d) == "builtins.open":
                return True
        return False


class E(Engine):
    """all unknown exceptions are one"""

    def opaque_exc(self, n, fr, cls="?"):
        return ("exc", cls, ("excval", cls, ("", 0, 0)))


class R(EventRule):
    """ts: frozenset of (token, obligation, owner); obligation: close / remove; owner: None or (object, attribute)"""
    initial = frozenset()
    max_depth = 4
    state_cap = 3000
    widen_after = 6

    def __init__(self, found, ids):
        self.found, self.ids, self.seen, self.bad = found, ids, set(), []

    def inline(self, eng, func):
        return func.module is eng.root.module and func is not eng.root and (func.full in self.found.sites or func.full in self.found.producers or self.takes(func))

    def takes(self, func):
        """a helper that may close what it is given"""
        return not isinstance(func.node, ast.Lambda) and any(isinstance(n, ast.Attribute) and n.attr in ("close", "unlink", "remove", "closing") for n in walk_own(func.node))

    def may_raise(self, eng, f, node, st):
        return not (f[0] == "g" and f[1] in CALM) and bool(st.ts)

    def token(self, node, fr):
        return ("p", "$res:%s:%d:%d" % (fr.module.rel, node.lineno, node.col_offset))

    def interleave(self, eng, node, st, fr):
        """what results of calls and containers are does not matter here, unless they hold a resource"""
        toks = [x[0] for x in st.ts]
        keep = frozenset(x for x in st.facts if not transients(x[0]) and "'top'" not in repr(x[0]))
        env = {}
        for k, v in st.env.items():
            if v[0] in FORGET and (v[0] != "obj" or v[1] in ("list", "dict", "set")) and transients(v) and not any(contains(v, t) for t in toks):
                env[k] = ("top", k)
        used = set()
        gone = []
        for k, v in st.heap.items():
            if isinstance(k[0], tuple) and k[0][0] == "obj" and k[0][1] in ("list", "dict", "set") and not any(contains(v, t) for t in toks) and not any(contains(v2, k[0]) for v2 in env.values()):
                gone.append(k)
        if not env and not gone and len(keep) == len(st.facts):
            return None
        s = with_facts(st, keep)
        if env:
            s.env = dict(st.env)
            s.env.update(env)
        if gone:
            s.heap = {k: v for k, v in st.heap.items() if k not in set(gone)}
        return [s]

    def decide(self, eng, t, st):
        if is_res(t):
            return True
        if t[0] == "cmp" and t[1] == "is" and any(is_res(x) for x in t[2:4]) and any(is_const(x) for x in t[2:4]):
            return False
        return None

    def held(self, st, t):
        return [x for x in st.ts if contains(t, x[0])]

    def drop(self, st, tok, ob):
        return st.with_ts(frozenset(x for x in st.ts if not (x[0] == tok and x[1] == ob)))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if id(node) in self.ids:
            kind, keep = self.ids[id(node)]
            tok = self.token(node, fr)
            self.seen.add(id(node))
            obs = {(tok, "close", None)} if kind != "dir" else set()
            if keep:
                obs.add((tok, "remove", None))
            s = st.with_ts(st.ts | obs)
            if any(x[0] == tok for x in st.ts):
                self.bad.append((fr.func.loc(node), "it is opened again while an earlier one is still open", st.trace))
            # what was wrapped is closed with the wrapper
            for a in args:
                for x in st.ts:
                    if a == x[0]:
                        s = self.drop(s, x[0], "close")
            val = tok
            if f[0] == "g" and f[1] in ("tempfile.mkstemp",):
                val = ("tuple", tok, ("attr", tok, "name"))
            elif f[0] == "g" and f[1] in ("os.pipe", "socket.socketpair"):
                val = ("tuple", tok, tok)
            return [V(val, s), Out("raise", st, eng.opaque_exc(node, fr), node)]
        toks = {x[0] for x in st.ts}
        if recv in toks and name in ("close", "detach", "__exit__"):
            return [V(NONE, self.drop(st, recv, "close"))]
        if recv in toks and name == "__enter__":
            return [V(recv)]
        if f[0] == "g" and f[1] in ("os.close", "socket.close") and args and args[0] in toks:
            return [V(NONE, self.drop(st, args[0], "close"))]
        path = lambda a: next((t for t in toks if a == ("attr", t, "name") or a == t), None)
        if f[0] == "g" and f[1] in ("os.unlink", "os.remove", "shutil.rmtree", "os.rmdir") and args and path(args[0]):
            s = self.drop(st, path(args[0]), "remove")
            return [V(NONE, s), Out("raise", s, eng.opaque_exc(node, fr), node)]
        if f[0] == "g" and f[1] in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir") and args and path(args[0]):
            return [V(TRUE), V(FALSE, self.drop(st, path(args[0]), "remove"))]
        if name == "secure" and args and args[0] in toks:
            # the wrapped socket takes the other's place; when it raises nothing was taken
            return [V(args[0]), Out("raise", st, eng.opaque_exc(node, fr), node)]
        if f[0] == "g" and (f[1] in ("contextlib.closing",) or f[1].endswith(".closing")) and args and args[0] in toks:
            return [V(("closing", args[0]))]
        if name in ("append", "add", "put", "enter_context", "callback", "push") and any(self.held(st, a) for a in args):
            return [V(args[0] if name == "enter_context" else NONE, self.own(st, args, (recv, name)))]
        if f[0] == "g" and eng.prog.class_by_dotted(f[1]) is not None and any(a in toks for a in list(args) + [v for _, v in kws]):
            return [V(("ret", (fr.module.rel, node.lineno, node.col_offset), f, tuple(args), tuple(kws))), Out("raise", st, eng.opaque_exc(node, fr), node)]
        return None

    def own(self, st, vals, owner):
        ts = set()
        for x in st.ts:
            ts.add((x[0], x[1], owner) if any(contains(v, x[0]) for v in vals) else x)
        return st.with_ts(frozenset(ts))

    def setattr(self, eng, node, base, attr, val, st, fr):
        s = st
        lost = [x for x in s.ts if x[2] == (base, attr) and not contains(val, x[0])]
        if lost:
            s = s.with_ts(frozenset((x[0], x[1], None) if x in lost else x for x in s.ts))
        if self.held(s, val):
            s = self.own(s, [val], (base, attr))
        if s is not st:
            return [Out("next", s.hset((base, attr), val))]
        return None

    def delete(self, eng, node, base, key, st, fr):
        if key and key[0] == "attr":
            lost = [x for x in st.ts if x[2] == (base, key[1])]
            if lost:
                return [Out("next", st.with_ts(frozenset((x[0], x[1], None) if x in lost else x for x in st.ts)).hdel((base, key[1])))]
        return None

    def setitem(self, eng, node, base, idx, val, st, fr):
        if self.held(st, val):
            return [Out("next", self.own(st, [val], (base, idx)))]
        return None

    def on_yield(self, eng, node, val, st, fr):
        return None

    def on_with(self, eng, node, ctx, st, fr):
        if ctx in {x[0] for x in st.ts}:
            return [Out("v", st, ctx)]
        if ctx[0] == "closing":
            return [Out("v", st, ctx[1])]
        return None

    def on_with_exit(self, eng, node, ctx, kind, val, st, fr):
        t = ctx[1] if ctx[0] == "closing" else ctx
        if t in {x[0] for x in st.ts} or t[0] == "p" and str(t[1]).startswith("$res:"):
            return [Out(kind, self.drop(st, t, "close"), val, node)]
        return None


def run(ck, p):
    ck.rule("release", "what a function opens is closed on every path, or belongs to what it returns or to an attribute")
    ck.rule("remove", "a temporary file that does not remove itself is removed on every path")
    ck.rule("attempt", "an attempt to connect that fails leaves no socket open")
    ck.rule("close", "closing a connection closes its socket")
    found = Found(p)
    ids = {id(n): found.kind(f.module, n, f) for f, s in found.sites.values() for n in s}
    for f, s in sorted(found.sites.values(), key=lambda x: x[0].full):
        one(ck, p, found, ids, f, s)
    ck.count("functions that open something", len(found.sites))
    ck.count("functions that hand it on", len(found.producers))
    ck.at_least("functions that open something", 14)
    ck.at_least("paths", 60)
    owners(ck, p)
    ck.assumptions.append("a call that fails to open acquires nothing; close() itself does not fail; wrapping a socket in TLS either takes it over or leaves it as it was; an object that was handed a resource (an attribute, a container, the result) owns it")


def in_func(n):
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return True
        n = getattr(n, "_parent", None)
    return False


def label(tok):
    return tok[1].split(":", 1)[1]


def one(ck, p, found, ids, f, sites):
    ck.func(f)
    rule = R(found, ids)
    eng = E(p, rule)
    outs = eng.run(f, {}, self_class=f.cls.full if f.cls is not None else None)
    for n in sites:
        if id(n) not in rule.seen:
            raise AnalysisBroken("%s: the opening call was not reached" % f.loc(n))
    for where, msg, tr in rule.bad:
        ck.finding("release", "%s again" % f.full, where, msg, tr)
    done = set()
    for o in outs:
        ck.count("paths")
        for tok, ob, owner in sorted(o.st.ts, key=str):
            if owner is not None and not dropped_local(eng, o, owner, f):
                continue
            if o.kind == "return" and o.val is not None and (contains(o.val, tok) or inside(eng, o, tok)):
                continue
            rn = "release" if ob == "close" else "remove"
            key = (f.full, ob, label(tok), o.kind)
            if key in done:
                continue
            done.add(key)
            at = f.loc(o.node) if hasattr(o.node, "lineno") else f.loc()
            ck.finding(rn, "%s %s %s" % (f.full, ob, "when it raises" if o.kind == "raise" else "when it returns"), at,
                       "what %s opens is not %s when the function %s" % (label(tok), "closed" if ob == "close" else "removed", "is left by an exception" if o.kind == "raise" else "returns"), o.st.trace)
    for n in sites:
        ck.ok("release", "%s %d" % (f.full, n.lineno))
        if ids[id(n)][1]:
            ck.ok("remove", "%s %d" % (f.full, n.lineno))


def dropped_local(eng, o, owner, f):
    """owned only by a container of this function that does not leave it"""
    base = owner[0]
    if not (isinstance(base, tuple) and base and base[0] == "obj" and base[1] in ("list", "dict", "set", "deque")):
        return False
    return not any(v is not None and contains(v, base) for v in [o.val] if o.kind == "return") and not any(contains(v, base) for k, v in o.st.heap.items() if k[0] != base)


def inside(eng, o, tok):
    """the token is in a container the result refers to"""
    seen, todo = set(), [o.val]
    while todo:
        t = todo.pop()
        for k, v in o.st.heap.items():
            if isinstance(k[0], tuple) and k[0] not in seen and contains(t, k[0]):
                seen.add(k[0])
                if contains(v, tok):
                    return True
                todo.append(v)
    return False


# ------------------------------------------------------------------ the owners of a connection's socket
PQ = ("p", "$pq")
SOCK = ("p", "$res:socket")
XACT = ("p", "$xact")


class A(R):
    """_establish(): one protocol connection per attempt"""
    max_depth = 3
    state_cap = 6000

    def __init__(self):
        self.bad, self.connects = [], 0

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.name.startswith("_") and func.name not in ("_receive_async", "_pq_push", "_pq_complete", "_establish") and func.cls is not None and func.cls.name == "Connection"

    def may_raise(self, eng, f, node, st):
        recv, name = callee(f)
        if name in ("getattr", "hasattr", "append", "close", "isinstance", "len", "pop", "interlace", "zip", "repeat"):
            return False
        return self.open_(st)

    def open_(self, st):
        return any(x[0] == SOCK and x[2] != (SELF, "pq") for x in st.ts)

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if f == G(MOD + ".Connection"):
            if self.open_(st):
                self.bad.append((fr.func.loc(node), "the next attempt begins while the socket of the failed one is open", st.trace))
            return [V(PQ, st.with_ts(frozenset()).hset((PQ, "xact"), ("p", "$neg")))]
        if recv == PQ and name == "connect":
            self.connects += 1
            good = st.hset((PQ, "xact"), NONE).hset((PQ, "socket"), SOCK).with_ts(frozenset([(SOCK, "close", None)]))
            failed = st.hset((PQ, "xact"), XACT)
            return [V(NONE, good),
                    V(NONE, failed.hset((PQ, "socket"), SOCK).with_ts(frozenset([(SOCK, "close", None)]))),
                    V(NONE, failed.hset((PQ, "socket"), NONE))]
        if recv == SOCK and name == "close":
            return [V(NONE, self.drop(st, SOCK, "close"))]
        if name == "raise_error" or name == "raise_client_error":
            return [Out("raise", st, ("exc", "?:builtins.Exception", ("excval", "error", node.lineno)), node)]
        if recv == SELF and name == "close":
            return None
        return None

    def setattr(self, eng, node, base, attr, val, st, fr):
        if base == SELF and attr == "pq":
            s = st
            if val == PQ:
                s = s.with_ts(frozenset((x[0], x[1], (SELF, "pq")) for x in s.ts))
            elif val == NONE and s.ts:
                s = s.with_ts(frozenset((x[0], x[1], None) for x in s.ts))
            return [Out("next", s.hset((base, attr), val))]
        return None


class CloseRule(R):
    """Connection.close(): the socket of self.pq, whatever became of the protocol"""
    max_depth = 3
    state_cap = 3000

    def __init__(self):
        self.bad = []

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.cls.name == "Connection" and not func.name.startswith("_pq") and func.name not in ("_establish",)

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if recv == PQ and name in ("complete", "push", "step", "synchronize"):
            outs = []
            for x in (NONE, XACT):
                outs.append(V(NONE, st.hset((PQ, "xact"), x)))
            return outs
        if recv == SOCK and name == "close":
            return [V(NONE, self.drop(st, SOCK, "close"))]
        return None


class C3(R):
    """the protocol's connect(): a socket it made stays its socket, or is closed"""
    max_depth = 4

    def __init__(self, found, ids):
        R.__init__(self, found, ids)

    def inline(self, eng, func):
        return func.module.name == MOD and func.name in ("negotiate_ssl",) or R.inline(self, eng, func)


def owners(ck, p):
    pc = p.cls(PQ3 + ":Connection")
    f = p.find_method(pc, "_establish")
    ck.func(f)
    rule = A()
    eng = E(p, rule)
    outs = eng.run(f, {}, self_class=pc.full)
    done = set()
    for where, msg, tr in rule.bad:
        if msg not in done:
            done.add(msg)
            ck.finding("attempt", "_establish, next attempt", where, msg, tr)
    for o in outs:
        ck.ok("attempt", "%s %s" % (o.kind, sorted(x[1:] for x in o.st.ts)))
        if rule.open_(o.st) and o.kind not in done:
            done.add(o.kind)
            ck.finding("attempt", "_establish %s" % o.kind, f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(),
                       "the socket of an attempt is left open and is not the connection's when _establish %s" % ("raises" if o.kind == "raise" else "returns"), o.st.trace)
    ck.count("attempts", rule.connects)
    ck.at_least("attempts", 1)
    # ---- the driver's connect closes what a failure left
    g = p.find_method(pc, "connect")
    ck.func(g)

    class K(EventRule):
        initial = ("start",)
        max_depth = 2

        def inline(self, eng, func):
            return func.module.name == PQ3 and func.cls is not None and func.cls.name == "Connection" and func.name not in ("_establish", "close", "closed")

        def may_raise(self, eng, f2, node, st):
            return False

        def call(self, eng, node, f2, args, kws, st, fr):
            recv, name = callee(f2)
            if recv == SELF and name == "_establish":
                return [Out("v", st.with_ts(("up",)), NONE), Out("raise", st.with_ts(("failed",)), eng.opaque_exc(node, fr), node)]
            if recv == SELF and name == "close":
                return [Out("v", st.with_ts(("closed",)), NONE)]
            return None
    n = 0
    for o in Engine(p, K()).run(g, {}, self_class=pc.full):
        n += o.st.ts != ("start",)
        ck.judge(o.st.ts != ("failed",), "attempt", "Connection.connect", g.loc(), "a failed attempt is not closed", o.st.trace)
    ck.judge(n > 0, "attempt", "Connection.connect, reaches the attempt", g.loc(), "no path attempts to connect")
    # ---- close
    h = p.find_method(pc, "close")
    ck.func(h)
    for x in (NONE, XACT):
        st = State(ts=frozenset([(SOCK, "close", (PQ, "socket"))])).hset((SELF, "pq"), PQ).hset((PQ, "socket"), SOCK).hset((PQ, "xact"), x)
        outs = E(p, CloseRule()).run(h, {}, self_class=pc.full, st=st)
        for o in outs:
            left = any(y[0] == SOCK for y in o.st.ts)
            ck.judge(not left, "close", "Connection.close, request %s" % ("none" if x == NONE else "running"), h.loc(o.node) if hasattr(o.node, "lineno") else h.loc(),
                     "the socket is left open when close %s" % ("raises" if o.kind == "raise" else "returns"), o.st.trace)
            if o.kind == "return":
                ck.judge(o.st.heap.get((PQ, "socket")) == NONE, "close", "Connection.close, forgotten", h.loc(), "the connection still refers to its closed socket", o.st.trace)
    # ---- leaving a connection's block
    e = p.find_method(pc, "__exit__")
    ck.func(e)
    for exc in (NONE, G("builtins.ValueError"), G("postgresql.exceptions.Error")):
        class X(EventRule):
            initial = ()
            max_depth = 1

            def inline(self, eng, func):
                return False

            def may_raise(self, eng, f2, node, st):
                return False

            def event(self, eng, node, f2, args, kws, st, fr):
                recv, name = callee(f2)
                if recv == SELF and name == "close":
                    return ("close",), [("v", NONE)]
                if name == "issubclass" and args and args[0] == exc and exc != NONE:
                    return None, [("v", TRUE)]
                return None
        names = [a.arg for a in e.node.args.args]
        for o in Engine(p, X()).run(e, {names[1]: exc}, self_class=pc.full):
            ck.judge(o.st.ts == (("close",),), "close", "Connection.__exit__, %s" % show(exc), e.loc(), "the connection is not closed when its block ends", o.st.trace)
