"""P09: parameter counts, per-column formats and NULLs.

_fini() and the cursor's initialisation are interpreted with exact descriptors and every outcome of type resolution;
every execution method with every small number of arguments against every small number of parameters; every Bind of the
library is checked for what it binds; the item processors are interpreted over exact tuples with NULLs and failing items."""
import ast
import itertools
from sa.rules import *
from checks.p01 import wire
from sa.program import walk_own
from sa.absint import contains

PQ3 = "postgresql.driver.pq3"
E3 = "postgresql.protocol.element3"
SELF = ("p", "self")
DB = ("attr", SELF, "database")
TYPIO = ("attr", DB, "typio")
BIN, STR = G(E3 + ".BinaryFormat"), G(E3 + ".StringFormat")
X = ("attr", SELF, "_xact")


def T(*xs):
    return ("tuple",) + tuple(xs)


def P(n):
    return ("p", "$" + n)


class Base(EventRule):
    max_depth = 5
    fresh = 3
    state_cap = 6000
    widen_after = 12

    def may_raise(self, eng, f, node, st):
        return False


# ------------------------------------------------------------------ which format goes with which processor
class Resolve(Base):
    """ts: ((oid, how it resolved), ...)"""
    initial = ()
    PACK = {"none": NONE, "neither": 0, "both": 0, "pack": 0, "unpack": 0}

    def __init__(self, td, args):
        self.td, self.args = td, args

    def types(self, eng):
        return {TYPIO: PQ3 + ".TypeIO", ("attr", ("p", "database"), "typio"): PQ3 + ".TypeIO"}

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.name not in ("resolve", "_pq_complete", "_pq_push", "_pq_step", "encode", "decode", "attribute_map", "RowTypeFactory", "raise_error")

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if name == "resolve":
            oid = args[0]
            if oid[0] != "p":
                return None
            for o, how in st.ts:
                if o == oid:
                    return [V(self.term(oid, how))]
            return [V(self.term(oid, how), st.with_ts(st.ts + ((oid, how),))) for how in self.PACK]
        if name == "messages_received":
            if self.args is None:
                return [V(T(P("closed"), P("described"), self.td))]
            return [V(T(P("parsed"), self.args, self.td, P("ready")))]
        if name in ("_pq_complete", "_pq_push"):
            return [V(NONE)]
        return None

    def term(self, oid, how):
        n = oid[1]
        if how == "none":
            return NONE
        return T(("p", n + ".pack") if how in ("both", "pack") else NONE, ("p", n + ".unpack") if how in ("both", "unpack") else NONE, ("p", n + ".type"))

    def decide(self, eng, t, st):
        if t[0] == "p" and str(t[1]).startswith("$"):
            return None if t[1].startswith("$oid") and "." not in t[1] else True
        if t[0] == "cmp" and P("type of the result") in t[2:4] and P("type of something else") in t[2:4]:
            return False
        if t[0] == "cmp" and t[1] in ("is", "==") and self.td in t[2:4] and self.td != NONE:
            return False
        if t[0] == "attr" and t[2] in ("encode", "decode"):
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and any(x[0] == "p" and str(x[1]).startswith("$") or x[0] == "attr" and x[2] in ("encode", "decode") for x in t[2:4]) and any(is_const(x) for x in t[2:4]):
            return False
        return None


def fmt_of(eng, t, st):
    if t == BIN or is_const(t) and t[2] == eng_const(eng, "BinaryFormat"):
        return "binary"
    if t == STR or is_const(t) and t[2] == eng_const(eng, "StringFormat"):
        return "text"
    return None


def eng_const(eng, name):
    m = eng.prog.module(E3)
    for b in m.bindings.get(name, ()):
        if b[0] == "value" and isinstance(b[1], ast.Assign) and isinstance(b[1].value, ast.Constant):
            return b[1].value.value
    return ("?", name)


def formats(ck, p):
    st_cls, cur = p.cls(PQ3 + ":Statement"), p.cls(PQ3 + ":Cursor")
    fini = p.find_method(st_cls, "_fini")
    ck.func(fini)
    cols = lambda n: T(*[T(P("name%d" % i), P("rel%d" % i), P("att%d" % i), P("oid%d" % i), P("len%d" % i), P("mod%d" % i), P("fmt%d" % i)) for i in range(n)])
    for n in (0, 1, 2):
        # parameters
        args = T(*[P("oid%d" % i) for i in range(n)])
        for o, eng in runs(p, fini, st_cls, Resolve(NONE, args)):
            if o.kind == "raise":
                continue
            ck.count("resolutions")
            compare(ck, eng, o, fini, n, "_input_io", "_input_formats", "pack", "encode", "parameter")
            ck.judge(o.st.heap.get((SELF, "_output_formats"), NONE) == NONE and o.st.heap.get((SELF, "_output_io"), NONE) == NONE, "format", "no result", fini.loc(), "a statement without a result gets output formats", o.st.trace)
            ck.judge(eng.exact_items(o.st.heap.get((SELF, "_input"), NONE), o.st) == eng.exact_items(args, o.st), "count", "_fini, announced parameters", fini.loc(), "_input is not what the server announced", o.st.trace)
        if n == 0:
            continue
        for o, eng in runs(p, fini, st_cls, Resolve(cols(n), T())):
            if o.kind != "raise":
                ck.count("resolutions")
                compare(ck, eng, o, fini, n, "_output_io", "_output_formats", "unpack", "decode", "column")
    init = p.find_method(cur, "_init")
    ck.func(init)

    for n in (1, 2):
        td = cols(n)
        described = 0
        rule = Resolve(td, None)

        def ga(eng, node, base, attr, st, fr, td=td):
            if attr == "type":
                return [Out("v", st, P("type of the result") if base == td else P("type of something else"))]
            return None
        rule.getattr = ga
        st = State(ts=()).hset((SELF, "statement"), NONE)
        for o, eng in runs(p, init, cur, rule, st, {init.node.args.args[1].arg: P("type of the result")} if len(init.node.args.args) > 1 else {}):
            if o.kind != "raise" and o.st.heap.get((SELF, "_output")) == td:
                ck.count("resolutions")
                described += 1
                compare(ck, eng, o, init, n, "_output_io", "_output_formats", "unpack", "decode", "column")
        ck.judge(described, "format", "a cursor's own description", init.loc(), "the description of a named cursor's columns is not used")
    taken_over(ck, p)


def taken_over(ck, p):
    """an output of a statement has that statement's processors with that statement's formats"""
    out = p.cls(PQ3 + ":Output")
    f = p.find_method(out, "__init__")
    ck.func(f)

    class R(Base):
        initial = ()

        def decide(self, eng, t, st):
            return True if t == P("stmt") else False if t[0] == "cmp" and P("stmt") in t[2:4] and NONE in t[2:4] else None

        def inline(self, eng, func):
            return func.cls is not None and func.cls.full == out.full and func.name != "_init"
    eng = Engine(p, R())
    n = 0
    for o in eng.run(f, {}, self_class=out.full, st=State(ts=()).hset((SELF, "statement"), P("stmt"))):
        if o.kind == "raise":
            continue
        n += 1
        for a in ("_output", "_output_io", "_output_formats", "_output_attmap", "_row_constructor"):
            v = o.st.heap.get((SELF, a), NONE)
            ok = v == ("attr", P("stmt"), a) or a == "_output_formats" and (("attr", P("stmt"), a), False) in o.st.facts and eng.exact_items(v, o.st) == ()
            ck.judge(ok, "format", "Output.__init__, %s" % a, f.loc(), "%s of the result is %s" % (a, show(v)), o.st.trace)
    ck.judge(n, "format", "Output.__init__", f.loc(), "no path initializes a result")



def runs(p, f, cls, rule, st=None, args=None):
    eng = Engine(p, rule)
    for o in eng.run(f, args or {}, self_class=cls.full, st=st or State(ts=()).hset((SELF, "_xact"), P("xact"))):
        yield o, eng


def compare(ck, eng, o, f, n, io, fm, side, plain, what):
    ios = eng.exact_items(o.st.heap.get((SELF, io), NONE), o.st)
    fms = eng.exact_items(o.st.heap.get((SELF, fm), NONE), o.st)
    how = dict(o.st.ts)
    label = "%s %s" % (f.qual, ", ".join(how[k] for k in sorted(how)))
    if ios is None or fms is None or len(ios) != n or len(fms) != n:
        ck.finding("format", "%s, one per %s" % (f.qual, what), f.loc(), "%s or %s does not have one entry per %s (%d)" % (io, fm, what, n), o.st.trace)
        return
    for i in range(n):
        oid = P("oid%d" % i)
        fmt = fmt_of(eng, fms[i], o.st)
        h = how.get(oid)
        own = ("p", oid[1] + "." + side)
        has = h in ("both", side)
        ok_io = ios[i] == own if has else ios[i][0] == "attr" and ios[i][2] == plain or ios[i][0] == "bm" and ios[i][2].endswith("." + plain)
        ck.judge(ok_io, "format", "%s %d, %s, resolved to %s" % (f.qual, i, what, h), f.loc(), "%s %d is processed by %s" % (what, i, show(ios[i])), o.st.trace)
        ck.judge(fmt == ("binary" if has else "text"), "format", "%s %d, %s format, resolved to %s" % (f.qual, i, what, h), f.loc(),
                 "%s %d has %s format although it is processed by %s" % (what, i, fmt or show(fms[i]), show(ios[i])), o.st.trace)


# ------------------------------------------------------------------ the number of arguments
class Count(Base):
    """ts: ('fini', 'send', ...)"""
    initial = ()

    def __init__(self, m, prog):
        self.m = m
        self.outs = {c.full for c in [prog.cls(PQ3 + ":Output")] + prog.subclasses(PQ3 + ".Output")}

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.cls.name == "Statement" and func.name not in ("_fini", "_init") and func.cls.full == PQ3 + ".Statement"

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if recv == SELF and name == "_fini":
            s = st.with_ts(st.ts + ("fini",)).hset((SELF, "_input"), T(*[P("in%d" % i) for i in range(self.m)])).hset((SELF, "closed"), FALSE)
            return [Out("v", s, NONE)]
        if f[0] == "g" and f[1] in self.outs:
            r = [Out("v", st.with_ts(st.ts + ("send",)), P("output"))]
            return r
        if name in ("_pq_push", "_pq_complete", "_pq_step"):
            return [Out("v", st.with_ts(st.ts + ("send",)), NONE)]
        return None


def counts(ck, p):
    cls = p.cls(PQ3 + ":Statement")
    ms = [f for f in cls.methods.values() if f.node.args.vararg is not None and f.kind == "plain" and not f.name.startswith("_") or f.name == "__call__"]
    ck.count("execution methods", len(ms))
    ck.at_least("execution methods", 5)
    for f in ms:
        ck.func(f)
        va = f.node.args.vararg.arg
        first = [a.arg for a in f.node.args.args[1:]]
        if first:        # load_chunks: the rows are checked one by one when they are packed
            continue
        for m, n, closed in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (NONE, FALSE)):
            if closed == NONE and (m > 1 or n > 2):
                continue
            rule = Count(m, p)
            st = State(ts=()).hset((SELF, "closed"), closed)
            # before _fini nothing is known of the parameters
            st = st.hset((SELF, "_input"), NONE if closed == NONE else T(*[P("in%d" % i) for i in range(m)]))
            sent = 0
            for o in Engine(p, rule).run(f, {va: T(*[P("arg%d" % i) for i in range(n)])}, self_class=cls.full, st=st):
                te = o.kind == "raise" and "TypeError" in str(o.val[1])
                sent += "send" in o.st.ts
                title = "%s, %d arguments for %d parameters%s" % (f.name, n, m, ", unfinished" if closed == NONE else "")
                if n != m:
                    ck.judge(te, "count", title, f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(), "no TypeError is raised", o.st.trace)
                    ck.judge("send" not in o.st.ts, "count", title + ", sent", f.loc(), "something is sent to the server", o.st.trace)
                else:
                    ck.judge(not te, "count", title, f.loc(), "TypeError is raised for the right number of arguments", o.st.trace)
                if closed == NONE:
                    ck.judge("fini" in o.st.ts, "count", title + ", announced", f.loc(), "the parameters are not asked for before the statement is used", o.st.trace)
            ck.judge(n != m or sent > 0, "count", "%s, %d arguments are accepted" % (f.name, n), f.loc(), "nothing is ever sent")


# ------------------------------------------------------------------ what is bound
class Binds(Base):
    initial = ()
    max_depth = 3
    fresh = 0

    def __init__(self, roots):
        self.seen, self.roots = [], roots

    def types(self, eng):
        return {P("stmt"): PQ3 + ".Statement"}

    def decide(self, eng, t, st):
        return True if t == P("stmt") else None

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.full not in self.roots and not func.name.startswith(("_init", "_fini", "__init__", "_raise", "raise_", "encode"))

    def call(self, eng, node, f, args, kws, st, fr):
        if f == G(E3 + ".Bind") or f[0] in ("attr", "p") and (f[2] if f[0] == "attr" else f[1]) == "Bind":
            self.seen.append((node, fr, args, kws, st))
            return [Out("v", st, P("bind"))]
        if f[0] == "g" and f[1].startswith(E3 + "."):
            s = st.with_ts(tuple(args)) if f[1].endswith(".Parse") else st
            return [Out("v", s, ("call", f, tuple(args), tuple(kws)))]
        return None


def binds(ck, p):
    sites, roots = {}, []
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda) or f.module.name.startswith("postgresql.test"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and f.outer is None:
                d = p.expr_dotted(f.module, n.func)
                if d == E3 + ".Bind" or isinstance(n.func, ast.Name) and n.func.id == "Bind":
                    sites[id(n)] = (f, n)
                    if f not in roots:
                        roots.append(f)
    names = {f.name for f in roots}
    for f in p.all_funcs():
        if f.module.name == PQ3 and f.cls is not None and f not in roots and not isinstance(f.node, ast.Lambda) and any(
                isinstance(n, ast.Attribute) and n.attr in names and n.attr.startswith("_") for n in walk_own(f.node)) and any(
                a.arg not in ("self",) for r in roots if r.name in {n.attr for n in walk_own(f.node) if isinstance(n, ast.Attribute)} for a in r.node.args.args):
            roots.append(f)
    judged = set()
    outs = {c.full for c in [p.cls(PQ3 + ":Output")] + p.subclasses(PQ3 + ".Output")}
    for f in roots:
        if f.module.name not in (PQ3, "postgresql.copyman"):
            continue
        ck.func(f)
        rule = Binds(set())
        eng = Engine(p, rule)
        st = State(ts=())
        if f.cls is not None and f.cls.full in outs:
            st = st.hset((SELF, "statement"), P("stmt")).hset((SELF, "parameters"), P("given"))
        eng.run(f, {}, self_class=f.cls.full if f.cls is not None else None, st=st)
        params = {a.arg for a in f.node.args.args[1:]}
        for node, fr, args, kws, st in rule.seen:
            if one_bind(ck, eng, f, params, node, fr, args, kws, st):
                judged.add(id(node))
    for k, (f, n) in sites.items():
        if f.module.name == PQ3:
            ck.judge(k in judged, "bind", "%s is reached" % f.qual, f.loc(n), "what this Bind binds cannot be told")
    ck.count("bind sites", len(sites))
    ck.at_least("bind sites", 7)


def one_bind(ck, eng, f, params, node, fr, args, kws, st):
    names = ("name", "statement", "aformats", "arguments", "rformats")
    a = [arg(args, kws, i, n) for i, n in enumerate(names)]
    if any(x is None for x in a) or len(args) + len(kws) != 5:
        ck.finding("bind", "%s, arguments" % f.qual, fr.func.loc(node), "Bind is not given its five parts", st.trace)
        return True
    portal, stmt, infmt, par, outfmt = a
    symbolic = lambda t: t[0] == "p" and t[1] in params
    if any(symbolic(x) for x in (stmt, infmt, par, outfmt)):
        return False
    empty = lambda t: eng.exact_items(t, st) == [] or eng.exact_items(t, st) == ()
    where = fr.func.loc(node)
    owner = stmt[1] if stmt[0] == "attr" and stmt[2] == "_pq_statement_id" else None
    text = is_const(stmt) and stmt[2] == b""
    ck.judge(owner is not None or text, "bind", "%s, statement" % f.qual, where, "binds the statement %s" % show(stmt), st.trace)
    io = None
    if empty(par):
        none = [t[1] for t, tr in st.facts if not tr and t[0] == "attr" and t[2] == "_input_io"]
        ck.judge(empty(infmt) or any(infmt == ("attr", x, "_input_formats") for x in none), "bind", "%s, no parameters" % f.qual, where, "declares the formats %s for no parameters" % show(infmt), st.trace)
    else:
        c = call_parts(par)
        io = c[1][0] if c and callee(c[0])[1] == "process_tuple" and c[1] else None
        x = io[1] if io is not None and io[0] == "attr" and io[2] == "_input_io" else None
        ck.judge(x is not None, "bind", "%s, parameters are packed" % f.qual, where, "the parameters are %s" % show(par), st.trace)
        ck.judge(x is None or infmt == ("attr", x, "_input_formats"), "bind", "%s, formats of the parameters" % f.qual, where, "the parameters packed by %s are declared as %s" % (show(io or NONE), show(infmt)), st.trace)
        ck.judge(x is None or owner is None or owner == x, "bind", "%s, statement of the parameters" % f.qual, where, "the parameters packed for %s are bound to %s" % (show(x or NONE), show(stmt)), st.trace)
    rows = c[1][1] if not empty(par) and call_parts(par) and len(c[1]) > 1 else None
    per_row = rows is not None and "elem" in repr(rows)
    if empty(outfmt) and not outformats_known_none(st):
        fetch = text and "FETCH" in repr(st.ts[1:2])
        ok = text and not fetch or not text and (empty(par) or per_row)
        ck.judge(ok, "bind", "%s, formats of the columns" % f.qual, where, "the columns are requested as text although they are read with the statement's processors", st.trace)
    else:
        x = outfmt
        ok = x[0] == "attr" and x[2] == "_output_formats" and (x[1] == SELF or x[1] == owner) or empty(outfmt)
        ck.judge(ok, "bind", "%s, formats of the columns" % f.qual, where, "the columns are requested as %s" % show(outfmt), st.trace)
    return True


def outformats_known_none(st):
    return any(not tr and t[0] == "attr" and t[2] == "_output_formats" for t, tr in st.facts)


# ------------------------------------------------------------------ items
class Items(Base):
    """ts: ((processor, item, outcome), ...)"""
    initial = ()
    fail = True

    def inline(self, eng, func):
        return func.module.name in ("postgresql.python.functools", PQ3) and not func.name.startswith(("_raise", "raise_", "_pq", "_fini"))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if f[0] == "g" and f[1].endswith((".process_tuple", ".process_chunk")):
            return eng.call_func(node, python_twin(eng.prog, name), list(args), tuple(kws), st, fr)
        if f[0] == "p" and str(f[1]).startswith("$f"):
            s = st.with_ts(st.ts + ((f, tuple(args)),))
            outs = [Out("v", s, ("call", f, tuple(args), ()))]
            if self.fail:
                outs.append(Out("raise", st.with_ts(st.ts + ((f, tuple(args), "!"),)), ("exc", "?:builtins.Exception", ("excval", "failed", node.lineno)), node))
            return outs
        if f == ("p", "$handler") or name in ("_raise_column_tuple_error", "_raise_parameter_tuple_error"):
            s = st.with_ts(st.ts + (("handler",) + tuple(args),))
            return [Out("raise", s, ("exc", "postgresql.exceptions.Error", ("excval", "reported", node.lineno)), node)]
        if name in ("_pq_push", "_pq_complete"):
            return [Out("v", st, NONE)]
        if f == ("p", "$row"):
            return [Out("v", st, ("call", f, tuple(args), ()))]
        return None

    def decide(self, eng, t, st):
        if t[0] == "p" and str(t[1]).startswith(("$f", "$row", "$handler")):
            return True
        if t[0] == "call" and t[1][0] == "p":
            return None
        if t[0] == "cmp" and t[1] == "is" and any(x[0] == "p" and str(x[1]).startswith(("$f", "$x")) for x in t[2:4]) and any(is_const(x) for x in t[2:4]):
            return False
        if t[0] == "cmp" and t[1] == "is" and any(x[0] == "excval" for x in t[2:4]) and any(is_const(x) for x in t[2:4]):
            return False
        return None


def python_twin(p, name):
    """the Python definition of a function that also exists in C"""
    m = p.module("postgresql.python.functools")
    fs = [b[1] for b in m.bindings.get(name, ()) if b[0] == "func"]
    if not fs:
        raise AnalysisBroken("postgresql.python.functools has no %s" % name)
    return fs[-1]


def items(ck, p):
    f = python_twin(p, "process_tuple")
    ck.func(f)
    names = [a.arg for a in f.node.args.args]
    H = ("p", "$handler")
    for n, m in itertools.product((0, 1, 2, 3), (0, 1, 2, 3)):
        for nulls in itertools.product((True, False), repeat=m) if n == m else [(False,) * m]:
            procs = T(*[P("f%d" % i) for i in range(n)])
            tup = T(*[NONE if nulls[i] else P("x%d" % i) for i in range(m)])
            rule = Items()
            eng = Engine(p, rule)
            for o in eng.run(f, {names[0]: procs, names[1]: tup, names[2]: H}, st=State(ts=()), keep_defaults=True):
                ck.count("tuples")
                title = "%d processors, items %s" % (n, "".join("N" if x else "v" for x in nulls))
                loc = f.loc(o.node) if hasattr(o.node, "lineno") else f.loc()
                if n != m:
                    ck.judge(o.kind == "raise" and "TypeError" in str(o.val[1]) and not o.st.ts, "item", "process_tuple, %d for %d" % (m, n), loc, "items are processed although their number is wrong", o.st.trace)
                    continue
                failed = [e for e in o.st.ts if e[-1] == "!"]
                done = [e for e in o.st.ts if e[0] != "handler" and e[-1] != "!"]
                handled = [e for e in o.st.ts if e[0] == "handler"]
                if failed:
                    i = int(failed[0][0][1][2:])
                    ok = len(failed) == 1 and len(handled) == 1 and len(handled[0]) == 5 and handled[0][4] == C(i) and handled[0][2:4] == (procs, tup) and handled[0][1][0] == "excval" and o.kind == "raise"
                    ck.judge(ok, "item", "process_tuple, %s, item %d fails" % (title, i), loc, "the failure of item %d is reported as %s" % (i, ", ".join(show(x) for x in handled[0][1:]) if handled else o.kind), o.st.trace)
                    ok = all(e[1] == (P("x" + e[0][1][2:]),) for e in failed)
                    ck.judge(ok, "item", "process_tuple, %s, processor of item %d" % (title, i), loc, "an item goes to another item's processor", o.st.trace)
                    continue
                want = [NONE if nulls[i] else ("call", P("f%d" % i), (P("x%d" % i),), ()) for i in range(n)]
                got = eng.exact_items(o.val, o.st) if o.kind == "return" else None
                ck.judge(got is not None and list(got) == want and not handled, "item", "process_tuple, " + title, loc, "the result is %s" % (show(o.val) if o.kind == "return" else "an exception"), o.st.trace)
    chunks(ck, p)
    first(ck, p)


def chunks(ck, p):
    out = p.cls(PQ3 + ":Output")
    for name, ncol in (("_process_tuple_chunk_Column", 2), ("_process_tuple_chunk_Row", 2), ("_process_tuple_chunk", 2)):
        f = p.find_method(out, name)
        ck.func(f)
        for nrow in (0, 1, 2):
            for nulls in itertools.product((False, True), repeat=nrow):
                rows = T(*[T(NONE if nulls[r] else P("x%d0" % r), P("x%d1" % r)) for r in range(nrow)])
                rule = Items()
                eng = Engine(p, rule)
                st = State(ts=()).hset((SELF, "_output_io"), T(P("f0"), P("f1"))).hset((SELF, "_row_constructor"), P("row"))
                eng.optimized = False
                pc = python_twin(p, "process_chunk")
                given = {f.node.args.args[1].arg: rows}
                for a in f.node.args.args[2:]:
                    d = f.node.args.defaults[-1] if f.node.args.defaults else None
                    if a.arg == "proc":
                        given[a.arg] = G(pc.full)
                for o in eng.run(f, given, self_class=out.full, st=st):
                    ck.count("chunks")
                    loc = f.loc(o.node) if hasattr(o.node, "lineno") else f.loc()
                    title = "%s, %d rows %s" % (name, nrow, "".join("N" if x else "v" for x in nulls))
                    handled = [e for e in o.st.ts if e[0] == "handler"]
                    failed = [e for e in o.st.ts if e[-1] == "!"]
                    bad = [e for e in o.st.ts if e[0] != "handler" and not (len(e[1]) == 1 and e[1][0][0] == "p" and e[1][0][1][-1] == e[0][1][-1])]
                    ck.judge(not bad, "item", title + ", own processor", loc, "a column goes to another column's processor", o.st.trace)
                    if failed:
                        i = int(failed[0][0][1][2:])
                        ok = o.kind == "raise" and len(handled) == 1 and len(handled[0]) == 5 and handled[0][4] == C(i) and contains(handled[0][3], failed[0][1][0])
                        ck.judge(ok, "item", title + ", a failing item", loc, "the failure of column %d is reported as %s" % (i, ", ".join(show(x) for x in handled[0][1:]) if handled else o.kind), o.st.trace)
                        continue
                    v = lambda r, c: NONE if c == 0 and nulls[r] else ("call", P("f%d" % c), (P("x%d%d" % (r, c)),), ())
                    got = eng.exact_items(o.val, o.st) if o.kind == "return" else None
                    if name.endswith("Column"):
                        ok = got is not None and list(got) == [v(r, 0) for r in range(nrow)]
                    else:
                        ok = got is not None and len(got) == nrow
                        for r in range(nrow) if ok else ():
                            x = got[r]
                            if name.endswith("Row"):
                                c = call_parts(x)
                                ok = ok and c is not None and c[0] == P("row") and len(c[1]) == 1
                                x = c[1][0] if ok else NONE
                            it = eng.exact_items(x, o.st)
                            ok = ok and it is not None and list(it) == [v(r, 0), v(r, 1)]
                    ck.judge(ok, "item", title, loc, "the result is %s" % (show(o.val) if o.kind == "return" else "an exception"), o.st.trace)
    # a column that cannot be read: what is reported
    f = p.find_method(out, "_raise_column_tuple_error")
    ck.func(f)


def first(ck, p):
    cls = p.cls(PQ3 + ":Statement")
    f = p.find_method(cls, "first")
    for ncol in (1, 2):
        for nulls in itertools.product((False, True), repeat=ncol):
            row = T(*[NONE if nulls[i] else P("x%d" % i) for i in range(ncol)])

            class F(Items):
                fail = False

                def call(self, eng, node, f2, args, kws, st, fr):
                    recv, name = callee(f2)
                    if name == "messages_received":
                        return [Out("v", st, T(P("message"), row, P("more")))]
                    return Items.call(self, eng, node, f2, args, kws, st, fr)

                def inline(self, eng, func):
                    return func.full == f.full or func.module.name == "postgresql.python.functools" or func.module.name == PQ3 and func.cls is not None and func.cls.name == "Statement" and not func.name.startswith(("_raise", "_fini", "_init"))

                def decide(self, eng, t, st):
                    if t[0] == "cmp" and t[1] in ("is", "==") and P("class of a message") in t[2:4]:
                        return False
                    if t[0] == "cmp" and t[1] == "is" and any(x[0] == "attr" and x[2] == "__class__" for x in t[2:4]):
                        x = [y for y in t[2:4] if y[0] == "attr"][0]
                        return x[1][0] == "tuple"
                    return Items.decide(self, eng, t, st)

                def getattr(self, eng, node, base, attr, st, fr):
                    if attr == "__class__" and base in (P("message"), P("more")):
                        return [Out("v", st, P("class of a message"))]
                    if attr == "__class__" and base == row:
                        return [Out("v", st, G("builtins.tuple"))]
                    return None

            rule = F()
            eng = Engine(p, rule)
            st = State(ts=()).hset((SELF, "closed"), FALSE).hset((SELF, "_input"), T()).hset((SELF, "_input_io"), T()).hset((SELF, "_input_formats"), T())
            st = st.hset((SELF, "_output_io"), T(*[P("f%d" % i) for i in range(ncol)])).hset((SELF, "_row_constructor"), P("row"))
            n = 0
            for o in eng.run(f, {f.node.args.vararg.arg: T()}, self_class=cls.full, st=st):
                if o.kind != "return":
                    continue
                n += 1
                want = [NONE if nulls[i] else ("call", P("f%d" % i), (P("x%d" % i),), ()) for i in range(ncol)]
                if ncol == 1:
                    ok = o.val == want[0]
                else:
                    c = call_parts(o.val)
                    it = eng.exact_items(c[1][0], o.st) if c and c[0] == P("row") and c[1] else None
                    ok = it is not None and list(it) == want
                ck.judge(ok, "item", "first, %d columns %s" % (ncol, "".join("N" if x else "v" for x in nulls)), f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(), "the result is %s" % show(o.val), o.st.trace)
            ck.judge(n > 0, "item", "first, %d columns" % ncol, f.loc(), "no path returns the row")


def run(ck, p):
    wire(ck, p, "Bind", "Parse", "AttributeTypes")
    ck.rule("format", "a parameter or column is declared binary exactly if its type has a packer or unpacker; otherwise it is encoded or decoded text")
    ck.rule("count", "a wrong number of arguments raises TypeError before anything is sent; the right number never does")
    ck.rule("bind", "a Bind takes the packed parameters, their formats and the column formats of one and the same statement")
    ck.rule("item", "each item goes through the processor of its own position, NULL stays None, and a failure is reported for its own item")
    formats(ck, p)
    counts(ck, p)
    binds(ck, p)
    items(ck, p)
    ck.at_least("resolutions", 60)
    ck.at_least("tuples", 30)
    ck.at_least("chunks", 20)
    ck.assumptions.append("what the server announces for the statement is read under P01; the C twin of process_tuple is compared under P16")
