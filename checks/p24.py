"""P24: the DB-API layer: transactions, closed cursors, placeholders, row delivery, error hierarchy.

The connection is interpreted as a machine over the server's transaction state with every outcome of every call, from each
of its states; cursor methods from open and closed; placeholder conversion over every sequence of quoted and unquoted parts
with every sequence of placeholders in each; fetching over every split of rows into chunks."""
import ast
import itertools
import re
from sa.rules import *

MOD = "postgresql.driver.dbapi20"
SELF = ("p", "self")
ERR = "?:postgresql.exceptions.Error"


def P(n):
    return ("p", "$" + n)


def T(*xs):
    return ("tuple",) + tuple(xs)


# ------------------------------------------------------------ connection


class ConnRule(EventRule):
    """ts: (server: I/T/E/X, ((xact, state),...), events)"""
    initial = ("I", (), ())
    max_depth = 5
    fresh = 64

    def inline(self, eng, func):
        return func.module.name == MOD

    def may_raise(self, eng, f, node, st):
        return False

    def setattr(self, eng, node, base, attr, val, st, fr):
        if base == SELF and attr == "autocommit":
            f = self.prop["set"]
            return [Out("next", o.st) if o.kind == "v" else o for o in eng.call_func(node, f, [SELF, val], (), st, fr)]

    def getattr(self, eng, node, base, attr, st, fr):
        if base == SELF and attr == "closed":
            return [Out("v", st, C(st.ts[0] == "X"))]
        if base == SELF and attr == "autocommit":
            return [Out("v", o.st, o.val) for o in eng.call_func(node, self.prop["get"], [SELF], (), st, fr)]
        if attr == "state" and base == ("attr", SELF, "pq") and st.ts[0] != "X":
            return [Out("v", st, C(st.ts[0].encode()))]
        if attr == "state" and self.xact(base) is not None:
            return [Out("v", st, C({"new": "initialized"}.get(dict(st.ts[1])[base[1]], dict(st.ts[1])[base[1]])))]

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if self.xact(a) and is_const(b):
                    return False
        if self.xact(t):
            return True

    def xact(self, t):
        if t and t[0] == "p" and str(t[1]).startswith("$xact"):
            return t[1]

    def to(self, st, server=None, xs=None, ev=None):
        s, x, e = st.ts
        x = dict(x)
        x.update(xs or {})
        return st.with_ts((server or s, tuple(sorted(x.items())), e + ((ev,) if ev else ())))

    def bad(self, node, st):
        return Out("raise", st, ("exc", ERR, ("excval", node.lineno)), node)

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        s, xs, evs = st.ts
        if f[0] == "supm" and name in ("connect", "close"):
            if name == "close":
                return [Out("v", self.to(st, "X", ev=("close",)), NONE)]
            if s != "X":
                return [Out("v", self.to(st, ev=("connect",)), NONE)]
            return [Out("v", self.to(st, "I", ev=("connect",)), NONE), self.bad(node, self.to(st, ev=("connect", "!")))]
        if recv == SELF and name in ("xact", "transaction"):
            n = "$xact%d" % len(xs)
            return [Out("v", self.to(st, xs={n: "new"}), ("p", n))]
        x = self.xact(recv) if recv else None
        if x is None:
            return None
        if recv == NONE:
            return [Out("raise", st, ("exc", "builtins.AttributeError", ("site", node.lineno)), node)]
        state = dict(xs).get(x)
        if name in ("start", "begin"):
            if state == "open":
                return [Out("v", st, NONE)]
            if state != "new" or s == "X":
                return [self.bad(node, self.to(st, ev=("start", x, "!")))]
            return [Out("v", self.to(st, "T", {x: "open" if s == "I" else "nested"}, ("start", x)), NONE),
                    self.bad(node, self.to(st, "X", ev=("start", x, "!")))]
        if name == "commit":
            if state == "committed":
                return [Out("v", st, NONE)]
            if s == "X" or state not in ("open", "nested"):
                return [self.bad(node, self.to(st, ev=("commit", x, "!")))]
            return [Out("v", self.to(st, "I" if state == "open" else "T", {x: "committed"}, ("commit", x)), NONE),
                    self.bad(node, self.to(st, "I", {x: "open"}, ("commit", x, "!"))),         # refused, and rolled back
                    self.bad(node, self.to(st, "E", ev=("commit", x, "!"))),                    # refused
                    self.bad(node, self.to(st, "X", ev=("commit", x, "!")))]                    # lost
        if name in ("rollback", "abort"):
            if state == "aborted":
                return [Out("v", st, NONE)]
            if s == "X" or state not in ("open", "nested"):
                return [self.bad(node, self.to(st, ev=("rollback", x, "!")))]
            return [Out("v", self.to(st, "I" if state == "open" else "T", {x: "aborted"}, ("rollback", x)), NONE),
                    self.bad(node, self.to(st, "X", ev=("rollback", x, "!")))]
        return None


def connection(ck, p):
    cls = p.cls(MOD + ":Connection")
    body = {f.name: f for f in p.all_funcs() if f.cls is cls}
    ast_fns = {x.name: x for x in cls.node.body if isinstance(x, ast.FunctionDef)}
    prop = autocommit_property(p, cls)
    for f in prop.values():
        ck.func(f)

    def judge(name, f, o, before):
        """the invariant between the server, the flag and the transaction kept"""
        s, xs, ev = o.st.ts
        xs = dict(xs)
        x = o.st.heap.get((SELF, "_xact"), NONE)
        if s == "X":
            ck.ok("always", name)
            return
        if x == NONE:
            ck.judge(s == "I", "always", name, f.loc(), "is in autocommit with the server in state %s" % s, o.st.trace)
            return
        state = xs.get(x[1]) if x[0] == "p" else None
        if s in ("T", "E") and state == "open":
            ck.ok("always", name)
            return
        ck.finding("always", name, f.loc(), "ends by %s %s" % (o.kind, {
            "nested": "in a transaction nested in another: committing it makes nothing durable",
            "new": "with a transaction that was not started",
            "open": "with the server out of the transaction that the connection counts as open"}.get(state, "with a transaction that has ended (%s)" % state)), o.st.trace)

    def starts():
        base = State(ts=("T", (("$xact0", "open"),), ())).hset((SELF, "_xact"), P("xact0")).hset((SELF, "_dbapi_connected_flag"), TRUE)
        yield "in a transaction", base
        yield "in a failed transaction", base.with_ts(("E",) + base.ts[1:])
        yield "in autocommit", base.with_ts(("I", (("$xact0", "aborted"),), ())).hset((SELF, "_xact"), NONE)
        yield "not connected", State(ts=("X", (), ())).hset((SELF, "_dbapi_connected_flag"), FALSE)
        yield "closed", base.with_ts(("X",) + base.ts[1:])

    fns = {m: p.find_method(cls, m) for m in ("connect", "commit", "rollback", "close")}
    jobs = [(m, fns[m], {}) for m in ("connect", "commit", "rollback", "close")]
    jobs += [("autocommit = True", prop["set"], TRUE), ("autocommit = False", prop["set"], FALSE), ("autocommit", prop["get"], None)]
    if "del" in prop:
        jobs.append(("del autocommit", prop["del"], None))
    for what, st in starts():
        for m, f, a in jobs:
            if f is None:
                raise AnalysisBroken("P24: Connection.%s vanished" % m)
            ck.func(f)
            if what == "closed" and m == "connect" or what == "not connected" and m not in ("connect", "close"):
                continue
            rule = ConnRule()
            rule.prop = prop
            names = [x.arg for x in f.node.args.args]
            args = {names[0]: SELF}
            if isinstance(a, tuple):
                args[names[1]] = a
            outs = Engine(p, rule).run(f, args, self_class=cls.full, st=st)
            ck.count("runs")
            ck.count("exits", len(outs))
            nm = "%s, %s" % (m, what)
            x0 = st.heap.get((SELF, "_xact"), NONE)
            good = 0
            for o in outs:
                ev = o.st.ts[2]
                judge(nm, f, o, st)
                x1 = o.st.heap.get((SELF, "_xact"), NONE)
                did = [e[0] for e in ev if e[-1] != "!" and len(e) > 1 and e[1] == x0[1]]
                fail = any(e[-1] == "!" for e in ev)
                if m in ("commit", "rollback"):
                    if what == "in autocommit":
                        ck.judge(o.kind == "raise" and not ev and is_error(p, o.val), "autocommit", nm, f.loc(),
                                 "ends by %s instead of raising an error" % o.kind, o.st.trace)
                    elif o.kind != "raise":
                        ck.judge(did[:1] == [m] and not fail, "ends", nm, f.loc(), "returns without a successful %s" % m, o.st.trace)
                        good += 1
                    else:
                        ck.judge(fail, "ends", nm, f.loc(), "raises %s although nothing failed" % show(o.val), o.st.trace)
                elif m.startswith("autocommit ="):
                    on = a == TRUE
                    if o.kind != "raise":
                        ck.judge((x1 == NONE) == on, "autocommit", nm, f.loc(), "leaves autocommit %s" % ("off" if on else "on"), o.st.trace)
                        ck.judge(not (on and x0 != NONE) or did == ["rollback"], "autocommit", nm + ", the open transaction", f.loc(),
                                 "the transaction that was open is ended by %s" % (", ".join(did) or "nothing"), o.st.trace)
                        ck.judge((x0 == NONE) != on or not ev, "autocommit", nm + ", unchanged", f.loc(), "does something although nothing changes", o.st.trace)
                        good += 1
                    else:
                        ck.judge(fail, "autocommit", nm, f.loc(), "raises %s although nothing failed" % show(o.val), o.st.trace)
                elif m == "autocommit":
                    ck.judge(o.kind == "return" and o.val == C(x0 == NONE), "autocommit", nm, f.loc(), "gives %s" % show(o.val), o.st.trace)
                    good += 1
                elif m == "connect":
                    good += o.kind != "raise"
                    ck.judge(o.kind != "raise" or fail, "ends", nm, f.loc(), "raises although nothing failed", o.st.trace)
                    if what.startswith("in"):
                        ck.judge(x1 == x0 and not did, "ends", nm, f.loc(), "another connect changes the transaction of the connection", o.st.trace)
                elif m == "close":
                    if what == "closed":
                        ck.judge(o.kind == "raise" and is_error(p, o.val), "ends", nm, f.loc(), "closing again ends by %s" % o.kind, o.st.trace)
                    else:
                        ck.judge(o.kind != "raise" and o.st.ts[0] == "X" and not any(e[0] == "commit" for e in ev), "ends", nm, f.loc(), "ends by %s, %s" % (o.kind, ev), o.st.trace)
                    good += 1
                else:
                    good += 1
            if not (m in ("commit", "rollback") and what in ("in autocommit", "closed")) and not (what == "closed"):
                ck.judge(bool(good), "ends", nm, f.loc(), "no path succeeds")
    # the transaction is stored nowhere else
    for f in p.all_funcs():
        if f.module.name == MOD:
            for x in walk_own(f.node):
                if isinstance(x, ast.Attribute) and x.attr == "_xact" and isinstance(x.ctx, (ast.Store, ast.Del)):
                    ck.count("xact_stores")
    ck.at_least("xact_stores", 4, "stores of the transaction")


def autocommit_property(p, cls):
    """the functions of the autocommit property, by role"""
    r = {}
    fns = {}
    for x in cls.node.body:
        if isinstance(x, ast.FunctionDef):
            fns.setdefault(x.name, []).append(x)
            for d in x.decorator_list:
                if isinstance(d, ast.Name) and d.id == "property" and x.name == "autocommit":
                    r["get"] = x
                if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") and isinstance(d.value, ast.Name) and d.value.id == "autocommit":
                    r[{"setter": "set", "deleter": "del"}[d.attr]] = x
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "autocommit" for t in x.targets) and isinstance(x.value, ast.Call):
            c = x.value
            pos = dict(zip(("fget", "fset", "fdel"), c.args))
            pos.update({k.arg: k.value for k in c.keywords})
            for k, role in (("fget", "get"), ("fset", "set"), ("fdel", "del")):
                v = pos.get(k)
                if isinstance(v, ast.Name) and v.id in fns:
                    r[role] = fns[v.id][-1]
    byn = {f.node: f for f in p.all_funcs() if f.cls is not None and f.cls.full == cls.full}
    out = {k: byn[v] for k, v in r.items() if v in byn}
    if "get" not in out or "set" not in out:
        raise AnalysisBroken("P24: the autocommit property is not recognised")
    return out


def is_error(p, exc):
    """an exception of a subclass of Error"""
    if exc[0] != "exc":
        return False
    n = exc[1].split(":", 1)[-1] if exc[1].startswith("?:") else exc[1]
    c = p.class_by_dotted(p.canon(n)) if hasattr(p, "canon") else p.class_by_dotted(n)
    c = c or p.class_by_dotted(n)
    e = p.cls("postgresql.exceptions:Error")
    return c is not None and p.is_subclass(c.full, e.full)


# ------------------------------------------------------------ cursor


class CurRule(EventRule):
    """ts: events"""
    initial = ()
    max_depth = 8
    recursion = 6
    fresh = 64
    widen_after = 12
    state_cap = 2000

    def __init__(self, p, props, chunks=(), output=None, inputs=None, stub=True):
        self.p, self.props, self.chunks, self.output, self.inputs, self.stub = p, props, chunks, output, inputs, stub

    def inline(self, eng, func):
        return func.module.name == MOD

    def may_raise(self, eng, f, node, st):
        return False

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "p" and str(a[1])[:1] == "$" and is_const(b):
                    return False
        c = call_parts(t)
        if c and c[0] == G("builtins.isinstance") and len(c[1]) == 2 and c[1][0][0] == "p" and str(c[1][0][1]).startswith("$text") and c[1][1][0] == "g":
            return c[1][1] == G("builtins.str")
        if t[0] == "p" and str(t[1])[:1] == "$":
            return True
        return None

    def prop(self, eng, node, base, attr, role, st, fr):
        f = self.props.get(attr, {}).get(role) if base == SELF else None
        return eng.call_func(node, f, [base], (), st, fr) if f is not None else None

    def getattr(self, eng, node, base, attr, st, fr):
        r = self.prop(eng, node, base, attr, "get", st, fr)
        if r is not None:
            return r
        if base == P("statement"):
            if attr in ("_output", "_input"):
                v = self.output if attr == "_output" else self.inputs
                return [Out("v", st, NONE if v is None else T(*[T(*[P("col%d %d" % (i, j)) for j in range(7)]) for i in range(v)]))]
        if attr == "__class__" and base[0] == "p" and str(base[1]).startswith("$text"):
            return [Out("v", st, G("builtins.str"))]
        if attr == "__class__" and base[0] == "tuple":
            return [Out("v", st, G("builtins.tuple"))]

    def delete(self, eng, node, base, key, st, fr):
        if key[0] == "attr" and len(key) == 2:
            r = self.prop(eng, node, base, key[1], "del", st, fr)
            if r is not None:
                return [Out("next", o.st) if o.kind == "v" else o for o in r]

    def served(self, st, ch):
        return sum(1 for e in st.ts if e == ("next", ch))

    def iterate(self, eng, it, st):
        if it[0] == "p" and str(it[1]).startswith("$chunks"):
            n = self.served(st, it)
            rest = range(n, len(self.chunks))
            for i in rest:
                st = self.chunk(eng, i, st)[1]
            return [self.chunk(eng, i, st)[0] for i in rest], st.with_ts(st.ts + (("next", it),) * len(rest))
        return None

    def chunk(self, eng, i, st):
        ob = ("obj", "list", ("$chunk", i), 0)
        return ob, st.hset((ob, "$items"), ("L", self.chunks[i]))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        args = tuple(args)
        if f == G("builtins.next") and args and args[0][0] == "p" and str(args[0][1]).startswith("$chunks"):
            n = self.served(st, args[0])
            if n >= len(self.chunks):
                if len(args) > 1:
                    return [Out("v", st, args[1])]
                return [Out("raise", st, ("exc", "builtins.StopIteration", ("excval", node.lineno)), node)]
            ob, st = self.chunk(eng, n, st)
            return [Out("v", st.with_ts(st.ts + (("next", args[0]),)), ob)]
        if f == G("builtins.next") and args and args[0][0] == "obj":
            c = self.p.class_by_dotted(eng.cls_of(args[0])) if isinstance(eng.cls_of(args[0]), str) else eng.cls_of(args[0])
            fn = self.p.find_method(c, "__next__") if c is not None else None
            if fn is not None:
                outs = eng.call_func(node, fn, [args[0]], (), st, fr)
                if len(args) > 1:
                    outs = [Out("v", o.st, args[1]) if o.kind == "raise" and o.val[1].endswith("StopIteration") else o for o in outs]
                return outs
        if name == "count" and recv and recv[0] in ("tuple", "obj") and len(args) == 1 and is_const(args[0]):
            its = eng.exact_items(recv, st)
            if its is not None and all(is_const(x) for x in its):
                return [Out("v", st, C(list(its).count(args[0])))]
        if name == "_convert_query" and self.stub:
            return [Out("v", st.with_ts(st.ts + (("convert", args),)), T(P("sql"), P("pxf"), C(2)))]
        if f == P("pxf"):
            return [Out("v", st, T(P("conv"), *(eng.exact_items(args[0], st) or (args[0],))))]
        if name == "prepare":
            e = ("prepare", args)
            return [Out("v", st.with_ts(st.ts + (e,)), P("statement")),
                    Out("raise", st.with_ts(st.ts + (e + ("!",),)), ("exc", ERR, ("excval", node.lineno)), node)]
        if recv == P("statement") and name in ("chunks", "load_rows", "load_chunks", "rows", "column", "first", "__call__"):
            if name == "load_rows" and args and not any(a[0] == "star" for a in args):
                c = call_parts(args[0])
                if c and c[0] == G("builtins.map") and len(c[1]) == 2:
                    its = eng.exact_items(c[1][1], st)
                    its = its and [o.val for x in its for o in eng.call(node, c[1][0], [x], (), st, fr)]
                else:
                    its, st = eng.iterated(args[0], st)
                args = (T(*its),) if its is not None else args
            e = (name, args, tuple(kws))
            return [Out("v", st.with_ts(st.ts + (e,)), P("chunks new") if name == "chunks" else NONE),
                    Out("raise", st.with_ts(st.ts + (e + ("!",),)), ("exc", ERR, ("excval", node.lineno)), node)]
        if name == "count" and recv and recv[0] == "p":
            return [Out("v", st, NONE), Out("v", st, C(7))]
        if recv is not None and contains(recv, P("database")) and name not in ("decode", "fileno"):
            return [Out("v", st.with_ts(st.ts + (("database", name, args),)), ("p", "$result"))]
        return None


def nested_properties(p, cls):
    """property functions by attribute name and role, for name = property(**name()) and decorated ones"""
    r = {}
    fns = [f for f in p.all_funcs() if f.module is cls.module and f.full.startswith(cls.full.replace(":", ".") + ".")]
    for f in fns:
        parts = f.full[len(cls.full):].strip(".:").split(".")
        parts = [x for x in parts if x != "<locals>"]
        if len(parts) == 2 and parts[1] in ("fget", "fset", "fdel"):
            r.setdefault(parts[0], {})[parts[1][1:]] = f
        for d in f.node.decorator_list:
            if isinstance(d, ast.Name) and d.id == "property":
                r.setdefault(f.name, {})["get"] = f
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                r.setdefault(f.name, {})[{"setter": "set", "deleter": "del"}[d.attr]] = f
    return r


CLOSED = [("setinputsizes", (P("a"),)), ("setoutputsize", (P("a"),)), ("callproc", (P("a"), T(P("b")))), ("fetchone", ()), ("fetchmany", ()),
          ("fetchall", ()), ("nextset", ()), ("execute", (P("a"), T(P("b")))), ("executemany", (P("a"), T(P("b")))), ("close", ()), ("__next__", ()), ("next", ())]


def cursor(ck, p):
    cls = p.cls(MOD + ":Cursor")
    props = nested_properties(p, cls)

    def method(m):
        f = p.find_method(cls, m)
        if f is None and m == "next":
            f = p.find_method(cls, "__next__")
        if f is None:
            raise AnalysisBroken("P24: Cursor.%s vanished" % m)
        ck.func(f)
        return f

    def go(m, args, st, **kw):
        f = method(m)
        names = [x.arg for x in f.node.args.args]
        a = dict(zip(names, (SELF,) + tuple(args)))
        for n, d in zip(names[::-1], f.node.args.defaults[::-1]):
            if n not in a:
                try:
                    v = ast.literal_eval(d)
                    a[n] = T() if v == () else C(v)
                except ValueError:
                    pass
        eng = Engine(p, CurRule(p, props, **kw))
        salts[0] += 1
        outs = eng.run(f, a, self_class=cls.full, st=st, salt=(salts[0],) if m in ("execute", "callproc") else ())
        ck.count("runs")
        ck.count("exits", len(outs))
        return f, eng, outs
    salts = [0]

    f, _, outs = go("__init__", (P("database"),), State(ts=()))
    if len(outs) != 1 or outs[0].kind == "raise":
        raise AnalysisBroken("P24: Cursor.__init__ has %d exits" % len(outs))
    fresh = outs[0].st.with_ts(())
    # ---- closed
    f, _, outs = go("close", (), fresh)
    ck.judge(bool(outs) and all(o.kind != "raise" and not [e for e in o.st.ts if e[0] != "next"] for o in outs), "closed", "close", f.loc(), "closing a cursor fails or reaches the server")
    for c in [o.st for o in outs if o.kind != "raise"]:
        for m, a in CLOSED:
            f, _, o2 = go(m, a, c.with_ts(()))
            for o in o2:
                ck.judge(o.kind == "raise" and is_error(p, o.val), "closed", m, f.loc(), "a closed cursor: ends by %s %s" % (o.kind, show(o.val)), o.st.trace)
                ck.judge(not o.st.ts, "closed", m + ", server", f.loc(), "a closed cursor: reaches the server", o.st.trace)
    # ---- execute and the rows it leaves to fetch
    after = {}
    ROW = P("row")
    starts = [("nothing before", fresh)]
    for depth in (1, 2):
        st = starts[-1][1]
        nx = []
        f, _, outs = go("execute", (P("old sql"), T(P("v1"), P("v2"))), st, output=1)
        nx = [o.st.with_ts(()) for o in outs if o.kind != "raise"]
        if not nx:
            raise AnalysisBroken("P24: execute never succeeds")
        # the earlier rows come from another stream
        s = nx[0]
        heap = {k: P("chunks old%d" % depth) if v == P("chunks new") else v for k, v in s.heap.items()}
        s2 = State(ts=())
        s2.heap = heap
        starts.append(("%d earlier results" % depth, s2))
    for what, st in starts:
        for n in (0, 1, 2, 3):
            for out in (None, 0, 1, 2):
                vals = T(*[P("v%d" % i) for i in range(n)])
                f, eng, outs = go("execute", (P("query"), vals), st, output=out)
                nm = "execute with %d of 2 parameters, %s columns, %s" % (n, out, what)
                good = 0
                for o in outs:
                    ev = o.st.ts
                    sent = [e for e in ev if e[0] in ("chunks", "load_rows", "rows", "database")]
                    if n != 2:
                        ck.judge(o.kind == "raise" and not sent, "parameters", nm, f.loc(),
                                 "ends by %s%s" % (o.kind, ", after executing" if sent else ""), o.st.trace)
                        continue
                    fail = any(e[-1] == "!" for e in ev)
                    if o.kind == "raise":
                        ck.judge(fail, "parameters", nm, f.loc(), "raises %s although nothing failed" % show(o.val), o.st.trace)
                        continue
                    good += 1
                    ok = [e[0] for e in ev] == ["convert", "prepare", "chunks"] and ev[0][1][-1:] == (P("query"),) and ev[1][1] == (P("sql"),) \
                        and ev[2][1] == (P("conv"), P("v0"), P("v1")) and not ev[2][2] and not fail
                    ck.judge(ok, "parameters", nm + ", the statement", f.loc(),
                             "does %s instead of executing the converted statement with the converted parameters" % (ev,), o.st.trace)
                    d = o.st.heap.get((SELF, "description"), NONE)
                    if out:
                        its = eng.exact_items(d, o.st) or ()
                        cols = [eng.exact_items(x, o.st) or () for x in its]
                        ck.judge(len(cols) == out and all(len(c) == 7 and contains(c[0], P("col%d 0" % i)) for i, c in enumerate(cols)), "rows", nm + ", description", f.loc(),
                                 "the description is %s" % show(d), o.st.trace)
                    else:
                        ck.judge(d == NONE, "rows", nm + ", description", f.loc(), "a statement without columns leaves the description %s" % show(d), o.st.trace)
                    fetches(ck, p, go, nm, o.st.with_ts(()), bool(out), ROW)
                ck.judge(n != 2 or good, "parameters", nm, f.loc(), "no path executes")
        for inp in (None, 2):
            f, eng, outs = go("executemany", (P("query"), T(T(P("a"), P("b")), T(P("c"), P("d")))), st, inputs=inp)
            nm = "executemany%s, %s" % ("" if inp else " without parameters", what)
            good = 0
            for o in outs:
                ev = o.st.ts
                fail = any(e[-1] == "!" for e in ev)
                if o.kind == "raise":
                    ck.judge(fail, "parameters", nm, f.loc(), "raises %s although nothing failed" % show(o.val), o.st.trace)
                    continue
                good += 1
                conv = (T(T(P("conv"), P("a"), P("b")), T(P("conv"), P("c"), P("d"))),)
                raw = (T(T(P("a"), P("b")), T(P("c"), P("d"))),)
                ok = [e[0] for e in ev] == ["convert", "prepare", "load_rows"] and ev[1][1] == (P("sql"),) and not fail
                ok = ok and (ev[2][1] == conv or not inp and ev[2][1] == raw)
                ck.judge(ok, "parameters", nm, f.loc(), "does %s instead of loading every converted parameter set" % (ev,), o.st.trace)
                fetches(ck, p, go, nm, o.st.with_ts(()), False, ROW)
            ck.judge(bool(good), "parameters", nm, f.loc(), "no path executes")
    # ---- callproc
    for n in (0, 1, 2):
        a = T(*[P("v%d" % i) for i in range(n)])
        f, eng, outs = go("callproc", (C("proc"), a), fresh)
        for o in outs:
            ev = o.st.ts
            if o.kind == "raise":
                ck.judge(any(e[-1] == "!" for e in ev), "parameters", "callproc", f.loc(), "raises although nothing failed", o.st.trace)
                continue
            want = re.compile(r"\s*select\s+(\*\s+from\s+)?proc\s*\(\s*%s\s*\)\s*" % r"\s*,\s*".join(r"\$%d" % (i + 1) for i in range(n)), re.I)
            ok = [e[0] for e in ev] == ["prepare", "chunks"] and is_const(ev[0][1][0]) and want.fullmatch(ev[0][1][0][2]) and ev[1][1] == a[1:]
            ck.judge(bool(ok), "parameters", "callproc with %d arguments" % n, f.loc(), "does %s" % (ev,), o.st.trace)
            fetches(ck, p, go, "callproc", o.st.with_ts(()), True, ROW)
    return cls, props, go, fresh


def fetches(ck, p, go, nm, st, rows, ROW):
    """what a fetch right after gives"""
    for m in ("fetchone", "fetchmany", "fetchall"):
        f, eng, outs = go(m, (), st, chunks=((ROW,),))
        for o in outs:
            if not rows:
                ck.judge(o.kind == "raise" and is_error(p, o.val), "rows", "%s after %s" % (m, nm.split(" with ")[0]), f.loc(),
                         "after %s: ends by %s %s instead of raising an error" % (nm, o.kind, show(o.val)), o.st.trace)
                continue
            got = o.val if m == "fetchone" else eng.exact_items(o.val, o.st) if o.kind != "raise" else None
            want = ROW if m == "fetchone" else [ROW]
            ck.judge(o.kind != "raise" and (got == want or m != "fetchone" and list(got or ()) == want) and all(e == ("next", P("chunks new")) for e in o.st.ts), "rows",
                     "%s after %s" % (m, nm.split(" with ")[0]), f.loc(),
                     "after %s: gives %s of %s" % (nm, show(o.val), ", ".join(sorted({show(e[1]) for e in o.st.ts if len(e) > 1})) or "nothing"), o.st.trace)


OPS = [("fetchone", ()), ("fetchmany", (C(1),)), ("fetchmany", (C(2),)), ("fetchmany", ()), ("fetchall", ()), ("__next__", ())]


def delivery(ck, p, cls, props, go, fresh, deep):
    f, _, outs = go("execute", (P("query"), T(P("v1"), P("v2"))), fresh, output=1)
    sts = [o.st.with_ts(()) for o in outs if o.kind != "raise"]
    sizes = [s for n in range(0, 4 if deep else 3) for s in itertools.product((0, 1, 2), repeat=n)]
    for size in sizes:
        k = 0
        chunks = []
        for s in size:
            chunks.append(tuple(P("row%d" % (k + i)) for i in range(s)))
            k += s
        rows = [r for c in chunks for r in c]
        nm = "rows in chunks of %s" % ("/".join(map(str, size)) or "none")
        for arraysize in (1, 2):
            level = [(st.hset((SELF, "arraysize"), C(arraysize)), 0, ()) for st in sts]
            for depth in range(3):
                nx = []
                for st, pos, hist in level:
                    for m, a in OPS:
                        f, eng, outs = go(m, a, st, chunks=tuple(chunks))
                        h = hist + (m + ("(%s)" % a[0][2] if a else ""),)
                        n = a[0][2] if a else arraysize
                        want = rows[pos:pos + 1] if m in ("fetchone", "__next__") else rows[pos:pos + n] if m == "fetchmany" else rows[pos:]
                        if not outs:
                            raise AnalysisBroken("P24: %s has no exit" % m)
                        for o in outs:
                            if m == "fetchone":
                                ok = o.kind != "raise" and o.val == (want[0] if want else NONE)
                            elif m == "__next__":
                                ok = o.kind != "raise" and o.val == want[0] if want else o.kind == "raise" and o.val[1] == "builtins.StopIteration"
                            else:
                                ok = o.kind != "raise" and list(eng.exact_items(o.val, o.st) or ()) == want and (bool(want) or eng.exact_items(o.val, o.st) is not None)
                            ck.judge(ok, "delivery", "%s, %s" % (m, nm), f.loc(),
                                     "%s with arraysize %d: %s ends by %s %s instead of %s" % (nm, arraysize, ", ".join(h), o.kind, show_list(eng, o), ", ".join(show(x) for x in want) or "nothing"), o.st.trace)
                            if ok and depth < 2:
                                nx.append((o.st, pos + len(want), h))
                seen, level = set(), []
                for st, pos, h in nx:
                    k2 = (pos, st.ts, tuple(sorted(((repr(a), repr(b)) for a, b in st.heap.items()))))
                    if k2 not in seen:
                        seen.add(k2)
                        level.append((st, pos, h))


def show_list(eng, o):
    if o.kind == "raise":
        return show(o.val)
    i = eng.exact_items(o.val, o.st)
    return show(o.val) if i is None else "[%s]" % ", ".join(show(x) for x in i)


# ------------------------------------------------------------ placeholders


class TextRule(CurRule):
    def __init__(self, p, props, parts):
        CurRule.__init__(self, p, props, stub=False)
        self.parts = parts

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name == "split" and f[0] == "g":
            return [Out("v", st, T(*[q if k is None else q for q, k in self.parts]))]
        if name == "unsplit" and f[0] == "g":
            return [Out("v", st, ("call", G("unsplit"), (T(*(eng.exact_items(args[0], st) or (("top", 0),))),), ()))]
        if name in ("findall", "percent_parameters") and args and args[-1][0] == "p" and str(args[-1][1]).startswith("$text"):
            toks = dict((q, k) for q, k in self.parts)[args[-1]]
            if name == "findall":
                toks = ("",) + toks + ("",)
            return [Out("v", st, T(*[C(t) for t in toks]))]
        return CurRule.call(self, eng, node, f, args, kws, st, fr)


def placeholders(ck, p, cls, props, deep):
    f = p.find_method(cls, "_convert_query")
    if f is None:
        raise AnalysisBroken("P24: Cursor._convert_query vanished")
    ck.func(f)
    toks = [t for n in range(3) for t in itertools.product(("s", "(a)s", "(b)s"), repeat=n)]
    kinds = [None] + toks
    for n in (0, 1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            if n == 3 and not deep and sum(1 for c in combo if c) and (combo[1] is not None or len(combo[0] or ()) + len(combo[2] or ()) > 3):
                continue
            parts = [(T(C("'"), P("quoted%d" % i)), None) if k is None else (P("text%d" % i), k) for i, k in enumerate(combo)]
            flat = [t for k in combo if k for t in k]
            pos = [t for t in flat if t == "s"]
            keys = []
            for t in flat:
                if t != "s" and t[1:-2] not in keys:
                    keys.append(t[1:-2])
            rule = TextRule(p, props, parts)
            eng = Engine(p, rule)
            outs = eng.run(f, {"self": SELF, "string": P("query")}, self_class=cls.full, st=State(ts=()))
            ck.count("conversions")
            nm = " + ".join("quoted" if k is None else "text[%s]" % " ".join("%" + t for t in k) for k in combo) or "nothing"
            if not outs:
                raise AnalysisBroken("P24: _convert_query has no exit")
            for o in outs:
                if pos and keys:
                    # mixed in one part the formatting itself raises
                    ck.judge(o.kind == "raise" or any(k and "s" in k and any(t != "s" for t in k) for k in combo), "placeholders", nm, f.loc(),
                             "positional and named placeholders are mixed without an error", o.st.trace)
                    continue
                if o.kind == "raise":
                    ck.finding("placeholders", nm, f.loc(), "raises %s" % show(o.val), o.st.trace)
                    continue
                r = eng.exact_items(o.val, o.st)
                if r is None or len(r) != 3:
                    raise AnalysisBroken("P24: _convert_query gives %s" % show(o.val))
                why = text_ok(eng, o.st, r[0], parts, keys, p)
                ck.judge(why is None, "placeholders", nm, f.loc(), "%s: %s" % (nm, why), o.st.trace)
                ck.judge(r[2] == C(len(keys) or len(pos)), "placeholders", nm + ", count", f.loc(), "%s: counts %s parameters" % (nm, show(r[2])), o.st.trace)
                # what the transformer makes of parameters
                if keys:
                    ob = ("obj", "dict", "$given", 0)
                    given = tuple((C(k), P("value " + k)) for k in ("b", "a"))
                    st = o.st.hset((ob, "$items"), ("D", given))
                    want = [P("value " + k) for k in keys]
                else:
                    st, ob = o.st, T(*[P("value%d" % i) for i in range(len(pos))])
                    want = [P("value%d" % i) for i in range(len(pos))]
                c2 = [x for x in eng.call(f.node, r[1], [ob], (), st, eng_frame(eng, f))]
                for x in c2:
                    got = eng.exact_items(x.val, x.st) if x.kind == "v" else None
                    ck.judge(got is not None and list(got) == want, "placeholders", nm + ", values", f.loc(),
                             "%s: the parameters are sent as %s" % (nm, show(x.val)), x.st.trace)
    ck.at_least("conversions", 100, "shapes of statements")


def eng_frame(eng, f):
    from sa.absint import Frame
    return Frame(("root", f.full, "post"), f, None)


def text_ok(eng, st, t, parts, keys, p):
    if not any(k for _, k in parts):
        if t == P("query"):
            return None
    c = call_parts(t)
    if t == P("query") and not parts:
        return None
    if not c or c[0] != G("unsplit"):
        return "the statement is %s" % show(t)
    its = eng.exact_items(c[1][0], st)
    if its is None or len(its) != len(parts):
        return "the statement is put together of %s" % show(c[1][0])
    n = 0
    for x, (part, toks) in zip(its, parts):
        if not toks:
            if x != part:
                return "a part without placeholders becomes %s" % show(x)
            continue
        if x[0] == "cat" and len(x[1]) == 1:
            x = x[1][0]
        if x[0] != "op" or x[1] != "%" or x[2] != part:
            if x == part:
                return "the placeholders of a part are left"
            return "a part with placeholders becomes %s" % show(x)
        if toks[0] == "s":
            vals = eng.exact_items(x[3], st)
            want = [C("$%d" % (n + i + 1)) for i in range(len(toks))]
            n += len(toks)
            if vals is None or list(vals) != want:
                return "its placeholders become %s instead of %s" % (", ".join(show(v) for v in vals or ()) or show(x[3]), ", ".join(v[2] for v in want))
        else:
            c = eng.hget(st, (x[3], "$items")) if x[3][0] == "obj" else None
            if c is None or c[0] != "D":
                return "its placeholders are taken from %s" % show(x[3])
            m = {k[2]: v for k, v in c[1] if is_const(k)}
            for t in toks:
                k = t[1:-2]
                if m.get(k) != C("$%d" % (keys.index(k) + 1)):
                    return "%%(%s)s becomes %s instead of $%d" % (k, show(m.get(k, NONE)), keys.index(k) + 1)
    return None


def reference(s):
    """the placeholders of a text, left to right"""
    r, i = [], 0
    while i < len(s):
        if s[i] == "%":
            if s.startswith("%%", i):
                i += 2
                continue
            m = re.match(r"%(s|\([^)]*\)s)", s[i:])
            if m:
                r.append(m.group(1))
                i += m.end()
                continue
        i += 1
    return r


def tokens(ck, p):
    mod = p.module(MOD)
    f = p.func(MOD + ":percent_parameters") if hasattr(p, "func") else None
    if f is None:
        raise AnalysisBroken("P24: percent_parameters vanished")
    ck.func(f)
    pats = []
    for x in mod.tree.body:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "compile" and x.value.args:
            try:
                flags = 0
                if len(x.value.args) > 1 or x.value.keywords:
                    raise AnalysisBroken("P24: the pattern of placeholders has flags")
                pats.append((x.targets[0].id, ast.literal_eval(x.value.args[0]), x.lineno))
            except ValueError:
                pass
    used = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    pats = [q for q in pats if q[0] in used]
    if len(pats) != 1:
        raise AnalysisBroken("P24: the pattern of placeholders is not recognised")
    name, pat, line = pats[0]
    rx = re.compile(pat)
    if rx.groups != 1:
        raise AnalysisBroken("P24: the pattern of placeholders has %d groups" % rx.groups)
    n = 0
    for k in range(0, 8):
        for s in map("".join, itertools.product("%s()", repeat=k)):
            got = [x for x in rx.findall(s) if x]
            n += 1
            if got != reference(s):
                ck.ok("pattern", "placeholders")
                ck.finding("pattern", "placeholders", "%s:%d" % (mod.rel, line), "finds %s in %r instead of %s" % (got, s, reference(s)))
                break
        else:
            continue
        break
    else:
        ck.ok("pattern", "placeholders")
    ck.count("pattern_texts", n)

    class F(EventRule):
        def may_raise(self, eng, f, node, st):
            return False

        def call(self, eng, node, f, args, kws, st, fr):
            if callee(f)[1] == "findall":
                return [Out("v", st, T(*[C(x) for x in ("", "s", "", "(a)s", "s")]))]
    eng = Engine(p, F())
    outs = eng.run(f, {f.node.args.args[0].arg: P("text")}, st=State(ts=()))
    for o in outs:
        its = eng.exact_items(o.val, o.st) if o.kind != "raise" else None
        ck.judge(its is not None and [x[2] for x in its if is_const(x)] == ["s", "(a)s", "s"], "pattern", "percent_parameters", f.loc(),
                 "gives %s of the placeholders %%s, %%(a)s, %%s" % show(o.val), o.st.trace)


# ------------------------------------------------------------ module


NAMES = {"InterfaceError": "Error", "DatabaseError": "Error", "DataError": "DatabaseError", "OperationalError": "DatabaseError", "IntegrityError": "DatabaseError",
         "InternalError": "DatabaseError", "ProgrammingError": "DatabaseError", "NotSupportedError": "DatabaseError"}
GLOBALS = ("apilevel", "threadsafety", "paramstyle", "connect", "Date", "Time", "Timestamp", "DateFromTicks", "TimeFromTicks", "TimestampFromTicks", "Binary",
           "STRING", "BINARY", "NUMBER", "DATETIME", "ROWID", "Warning", "Error")


def module(ck, p):
    m = p.module(MOD)
    conn = p.cls(MOD + ":Connection")

    def resolve(expr_name, scope=None):
        d = m.name + "." + expr_name
        seen = set()
        while d not in seen:
            seen.add(d)
            d = p.canon(d)
            c = p.class_by_dotted(d)
            if c is not None:
                return c
            mod, rest = p.split_dotted(d)
            v = None
            if mod is not None:
                for x in mod.tree.body:
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == rest for t in x.targets) and isinstance(x.value, (ast.Name, ast.Attribute)):
                        v = p.resolve_in_module(mod, x.value.id) if isinstance(x.value, ast.Name) else None
            if v is None:
                return None
            d = v
        return None
    cl = {}
    for n in list(NAMES) + ["Error", "Warning"]:
        cl[n] = resolve(n)
        ck.judge(cl[n] is not None, "errors", n, m.rel + ":1", "the module exports no class %s" % n)
    line = "%s:%d" % (m.rel, 1)
    for n, up in NAMES.items():
        if cl[n] and cl[up]:
            ck.judge(p.is_subclass(cl[n].full, cl[up].full) is True, "errors", "%s under %s" % (n, up), line, "%s (%s) is not a subclass of %s (%s)" % (n, cl[n].full, up, cl[up].full))
    if cl["Error"]:
        ck.judge(any(isinstance(x, str) and x in ("builtins.Exception", "Exception") or getattr(x, "full", None) in ("builtins.Exception", "postgresql.exceptions.Exception") for x in p.mro(cl["Error"])),
                 "errors", "Error", line, "Error is not an exception")
    # the connection has them as attributes
    for n in list(NAMES) + ["Error", "Warning"]:
        v = class_attr(p, m, conn, n)
        ck.judge(v is not None and cl[n] is not None and v == cl[n].full, "errors", "Connection.%s" % n, line, "Connection.%s is %s, not the %s of the module" % (n, v, n))
    for n in GLOBALS:
        ck.judge(n in m.bindings or p.resolve_in_module(m, n) is not None, "module", n, line, "the module has no %s" % n)
    for n, good in (("apilevel", ("2.0",)), ("threadsafety", (0, 1)), ("paramstyle", ("pyformat", "format"))):
        vals = [x.value for x in m.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)]
        ok = len(vals) == 1 and isinstance(vals[0], ast.Constant) and vals[0].value in good
        ck.judge(ok, "module", n + " value", line, "%s is not one of %s" % (n, good))


def class_attr(p, m, cls, n):
    for x in cls.node.body:
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                if (a.asname or a.name) == n:
                    base = x.module if not x.level else None
                    if base is None:
                        parts = m.name.split(".")[:-x.level]
                        base = ".".join(parts + ([x.module] if x.module else []))
                    d = p.canon(base + "." + a.name)
                    c = p.class_by_dotted(d)
                    if c is not None:
                        return c.full
                    # an alias within the exceptions module
                    mod, rest = p.split_dotted(d)
                    return resolve_alias(p, mod, rest)
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets) and isinstance(x.value, ast.Name):
            return resolve_alias(p, m, x.value.id)
    return None


def resolve_alias(p, mod, name, n=0):
    if mod is None or n > 5:
        return None
    d = p.canon(mod.name + "." + name)
    c = p.class_by_dotted(d)
    if c is not None:
        return c.full
    m2, rest = p.split_dotted(d)
    for x in (m2.tree.body if m2 is not None else ()):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == rest for t in x.targets) and isinstance(x.value, ast.Name):
            return resolve_alias(p, m2, x.value.id, n + 1)
    return None


def run(ck, p):
    ck.rule("always", "outside autocommit an open connection is in the one transaction it will commit, whatever was called and whatever failed")
    ck.rule("ends", "commit and rollback end that transaction and report a failure; closing twice raises")
    ck.rule("autocommit", "switching autocommit on rolls the open transaction back, off starts one; commit and rollback then raise")
    ck.rule("closed", "every method of a closed cursor raises Error and reaches no server")
    ck.rule("parameters", "execute refuses a wrong number of parameters and executes the converted statement with the converted parameters; executemany loads every set")
    ck.rule("rows", "fetching gives the rows of the last statement, or raises when it has none")
    ck.rule("delivery", "every mix of fetches delivers each row once, in order, whatever the chunks")
    ck.rule("placeholders", "placeholders of unquoted parts become the parameter of their position or name, quoted parts stay")
    ck.rule("pattern", "the pattern finds exactly the placeholders, doubled percent signs apart")
    ck.rule("errors", "the error classes form the hierarchy of PEP 249, on the module and the connection")
    ck.rule("module", "the module has the globals of PEP 249")
    deep = ck.tier == "thorough"
    connection(ck, p)
    cls, props, go, fresh = cursor(ck, p)
    delivery(ck, p, cls, props, go, fresh, deep)
    placeholders(ck, p, cls, props, deep)
    tokens(ck, p)
    module(ck, p)
