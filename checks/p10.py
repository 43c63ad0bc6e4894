"""P10: what the library splices into SQL is quoted for the place where it stands.

Every SQL text that reaches a sink (execute, prepare, Query, Parse) is reconstructed as literal pieces and holes; a
scanner for SQL's lexical structure runs over the literal pieces and says in which context each hole stands."""
import ast
from sa.rules import *
from sa.program import walk_own

SELF = ("p", "self")
PQ3 = "postgresql.driver.pq3"
STR = "postgresql.string"
DQ, SQ = (C('"'), C('""')), (C("'"), C("''"))
NUMERIC = {"hex", "len", "int", "getpid", "id", "ord"}
# SQL the caller gives as SQL, and what the server has already quoted
RAW = {
    "query", "sql_statement_string", "statement_string", "operation", "proname", "description", "sql", "symbol",
}
RAW_ATTRS = {"string"}
# documented numbers
NUMBERS = {"quantity", "offset", "chunksize"}


class Lex:
    """plain / "identifier" / 'literal' / E'literal' / $tag$ body $tag$ / comments"""

    def __init__(self):
        self.state, self.tag, self.prev, self.last = "plain", None, "", ""

    def feed(self, text):
        i = 0
        while i < len(text):
            c = text[i]
            if self.state == "plain":
                if c == '"':
                    self.state = "dq"
                elif c == "'":
                    self.state = "esc" if self.last in "eE" and not (self.prev.isalnum() or self.prev == "_") and self.last else "sq"
                elif c == "$":
                    j = text.find("$", i + 1)
                    if j != -1 and text[i + 1:j].replace("_", "a").isalnum() and not text[i + 1].isdigit() or j == i + 1:
                        self.state, self.tag = "dollar", text[i:j + 1]
                        i = j
                elif text.startswith("--", i):
                    self.state = "line"
                elif text.startswith("/*", i):
                    self.state = "block"
            elif self.state == "dq" and c == '"' or self.state == "sq" and c == "'":
                self.state = "plain"
            elif self.state == "esc":
                if c == "\\":
                    i += 1
                elif c == "'":
                    self.state = "plain"
            elif self.state == "dollar" and text.startswith(self.tag, i):
                i += len(self.tag) - 1
                self.state = "plain"
            elif self.state == "line" and c == "\n" or self.state == "block" and text.startswith("*/", i):
                self.state = "plain"
            self.prev, self.last = self.last, c
            i += 1

    def hole(self):
        self.prev, self.last = self.last, "x"


class Sql:
    """judges one SQL term"""

    def __init__(self, eng, st, raw=(), known=()):
        self.eng, self.st, self.raw, self.known = eng, st, raw, known
        self.bad, self.holes, self.complaints = [], [], []

    def strip(self, t):
        """through encodings and str()"""
        while True:
            cp = call_parts(t)
            if cp:
                f, args, kws = cp
                recv, name = callee(f)
                if name == "encode" and recv is not None and is_text(recv) and not (args and not is_const(args[0])):
                    t = recv
                    continue
                if name in ("encode", "_encode") and args:
                    t = args[0]
                    continue
                if f == G("builtins.str") and len(args) == 1:
                    t = args[0]
                    continue
            if t[0] == "sub" and is_const(t[2]) and t[2][2] == 0 and call_parts(t[1]) and callee(call_parts(t[1])[0])[1] == "_encode":
                t = call_parts(t[1])[1][0]
                continue
            if t[0] == "s":
                t = t[1]
                continue
            return t

    def flat(self, t):
        t = self.strip(t)
        if is_const(t) and t[1] in ("str", "bytes"):
            v = t[2]
            return [("lit", v.decode("latin-1") if isinstance(v, bytes) else v)]
        if t[0] == "cat":
            return [y for x in t[1] for y in self.flat(x)]
        if t[0] == "fmt":
            if t[1] in ("d", "i", "x", "u"):
                return [("num", t)]
            return self.flat(t[2]) if t[1] in ("s", "") else [("hole", t)]
        if t[0] == "joined":
            alts = [self.flat(x) for x in t[2]]
            r = []
            for a in sorted(alts, key=str):
                r += a + self.flat(t[1])
            return r
        cp = call_parts(t)
        if cp:
            f, args, kws = cp
            recv, name = callee(f)
            if name == "join" and recv is not None and args:
                items = self.eng.exact_items(args[0], self.st)
                if items is not None:
                    r = []
                    for i, x in enumerate(items):
                        r += (self.flat(recv) if i else []) + self.flat(x)
                    return r
                c = self.eng.hget(self.st, (args[0], "$items")) if args[0][0] == "obj" else None
                if c is not None and len(c) > 1 and isinstance(c[1], (tuple, frozenset)):
                    r = []
                    for x in sorted(c[1], key=str):
                        r += self.flat(x) + self.flat(recv)
                    return r
        return [("hole", t)]

    def escaped(self, t, pair):
        cp = call_parts(t)
        if not cp:
            return False
        recv, name = callee(cp[0])
        return name == "replace" and recv is not None and tuple(cp[1][:2]) == pair and len(cp[1]) == 2

    def tame(self, t):
        t = self.strip(t)
        if is_const(t):
            return t[1] in ("int", "str", "bytes", "NoneType") and not (t[1] in ("str", "bytes") and any(x in repr(t[2])[1:-1] for x in "\"';"))
        cp = call_parts(t)
        if cp:
            recv, name = callee(cp[0])
            if name in NUMERIC:
                return True
            if name == "replace" and recv is not None:
                return self.tame(recv)
            if name in ("upper", "lower", "strip"):
                return recv is not None and self.tame(recv)
        if t[0] in ("op",) and (t[1] == "u-" or t[1] in ("-", "+", "*", "neg")):
            return all(self.number(x) for x in t[2:] if isinstance(x, tuple))
        if t[0] == "neg" or t[0] == "usub":
            return self.number(t[1])
        return self.number(t)

    def number(self, t):
        t = self.strip(t)
        if is_const(t) and t[1] == "int":
            return True
        if t[0] == "p" and t[1] in NUMBERS or t[0] == "attr" and t[2] in NUMBERS:
            return True
        if is_num(t):
            return True
        if t[0] == "elem" and call_parts(t[1]) and callee(call_parts(t[1])[0])[1] in ("range", "count", "enumerate"):
            return True
        if t[0] in ("op", "neg", "usub", "uop", "un"):
            return all(self.number(x) for x in t[1:] if isinstance(x, tuple))
        return False

    def allowed(self, t):
        t = self.strip(t)
        return t in self.raw or any(k(t, self.st) for k in self.known)

    def judge(self, t):
        """-> list of complaints"""
        lex = Lex()
        for kind, *v in self.flat(t):
            if kind == "lit":
                lex.feed(v[0])
                continue
            if kind == "num":
                lex.hole()
                continue
            h = v[0]
            self.holes.append((lex.state, h))
            if lex.state == "dq":
                ok = self.escaped(h, DQ) or self.tame(h)
            elif lex.state == "sq":
                ok = self.escaped(h, SQ) or self.tame(h)
            elif lex.state == "plain":
                ok = self.tame(h) or self.allowed(h)
            else:
                ok = self.tame(h)
            if not ok:
                self.complaints.append((lex.state, h))
                self.bad.append("%s stands %s" % (show(h)[:140], {
                    "dq": "inside an identifier without its quotes doubled", "sq": "inside a literal without its quotes doubled",
                    "plain": "unquoted in the SQL text", "dollar": "inside a dollar quoted text it can end",
                    "esc": "inside an escape string"}.get(lex.state, "in a comment")))
            lex.hole()
        if lex.state not in ("plain", "line"):
            self.bad.append("the text ends inside a quoted part")
        return self.bad


def is_text(t):
    return True


class Q(EventRule):
    """collects what reaches the sinks"""
    max_depth = 5
    initial = ()
    widen_after = 3
    state_cap = 60

    def __init__(self, cls=None):
        self.sinks = []
        self.cls = cls

    def inline(self, eng, func):
        if func.module.name == STR:
            return True
        if func.module is not eng.root.module:
            return False
        if func.cls is None:
            return True
        # helpers of the class that compose text
        return eng.root.cls is not None and func.name not in (
            "_convert_query", "execute", "prepare", "_init", "connect", "_pq_push", "_pq_complete", "__init__", "_fetch", "start", "commit", "rollback")

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        t = None
        if name in ("execute", "prepare", "_prepare", "query") and recv is not None and not (name == "query" and not args):
            t = arg(args, kws, 0, "query") or arg(args, kws, 0, "sql_statement_string")
        elif f[0] == "g" and f[1].endswith("element3.Query"):
            t = arg(args, kws, 0, "data")
        elif f[0] == "g" and f[1].endswith("element3.Parse"):
            t = arg(args, kws, 1, "statement")
        if t is not None:
            self.sinks.append((node, t, st, fr))
            if name in ("execute", "prepare", "_prepare"):
                return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        return None

    def setitem(self, eng, node, base, idx, val, st, fr):
        if idx == C("search_path"):
            self.sinks.append((node, val, st, fr))
        return None


SEEN_SQL = ("execute", "prepare", "_prepare", "Query", "Parse")


def run(ck, p):
    ck.rule("splice", "every hole in a composed SQL text stands in quotes with those quotes doubled, is a number, or is SQL the caller gave as SQL")
    ck.rule("primitives", "the quoting functions put the quotes around the text with every quote in it doubled")
    ck.rule("stored", "identifiers kept ready for use were quoted when they were stored")
    ck.rule("guard", "transaction options are spliced only after it was checked that they cannot end the statement")
    primitives(ck, p)
    quoted_attrs = stored(ck, p)
    sinks(ck, p, quoted_attrs)
    typename(ck, p, quoted_attrs)


def primitives(ck, p):
    X = ("p", "text")
    dq = ("cat", (C('"'), ("call", ("attr", X, "replace"), DQ, ()), C('"')))
    sq = ("cat", (C("'"), ("call", ("attr", X, "replace"), SQ, ()), C("'")))
    want = {
        "escape_literal": [dq_of(X, SQ, "", "")], "escape_ident": [dq_of(X, DQ, "", "")],
        "quote_literal": [sq], "quote_ident": [dq],
    }
    for name in ("escape_literal", "escape_ident", "quote_literal", "quote_ident", "quote_ident_if_needed"):
        f = p.func(STR + ":" + name)
        ck.func(f)
        rule = Q()
        eng = Engine(p, rule)
        par = f.node.args.args[0].arg
        outs = [o for o in eng.run(f, {par: X}) if o.kind != "raise"]
        ck.judge(bool(outs), "primitives", name, f.loc(), "returns nothing")
        for o in outs:
            s = Sql(eng, o.st)
            fl = s.flat(o.val)
            if name == "quote_ident_if_needed" and o.val == X:
                # left as it is: only where the path has established that it reads back as itself
                known = frozenset(t for t, v in o.st.facts if v)
                notn = frozenset(t for t, v in o.st.facts if not v)
                ev = " ".join(sorted(show(t) for t in known)) + " NOT " + " ".join(sorted(show(t) for t in notn))
                alnum = any("isalnum" in show(t) or "isidentifier" in show(t) or "match" in show(t) for t in known)
                lower = any(t[0] == "cmp" and "lower" in show(t) for t in known) or any("islower" in show(t) or "match" in show(t) for t in known) or any(
                    t[0] == "cmp" and t[1] in ("!=", "<>") and "lower" in show(t) for t in notn)
                ck.judge(alnum, "primitives", name + " characters", f.loc(), "the text is left unquoted although it may hold any character (%s)" % ev[:200], o.st.trace)
                ck.judge(lower, "primitives", name + " case", f.loc(), "the text is left unquoted although it may have upper case letters", o.st.trace)
                continue
            q = "'" if "literal" in name else '"'
            pair = SQ if q == "'" else DQ
            form = [("lit", q), ("hole", None), ("lit", q)] if name.startswith("quote") else [("hole", None)]
            ok = len(fl) == len(form) and all(a[0] == b[0] and (b[1] is None or a[1] == b[1]) for a, b in zip(fl, form)) and all(
                s.escaped(a[1], pair) and callee(call_parts(a[1])[0])[0] == X for a in fl if a[0] == "hole")
            ck.judge(ok, "primitives", name, f.loc(), "returns %s" % show(o.val)[:200], o.st.trace)
    for name in ("qname", "qname_if_needed"):
        f = p.func(STR + ":" + name)
        ck.func(f)
        eng = Engine(p, Q())
        a, b = ("p", "$a"), ("p", "$b")
        va = f.node.args.vararg.arg
        for o in eng.run(f, {va: ("tuple", a, b)}):
            if o.kind == "raise":
                continue
            s = Sql(eng, o.st, raw=(a, b) if name.endswith("needed") else ())
            fl = s.flat(o.val)
            lits = "".join(x[1] if x[0] == "lit" else "\0" for x in fl)
            bad = s.judge(o.val)
            ok = not bad and lits.replace('"', "") == "\0.\0"
            ck.judge(ok, "primitives", name, f.loc(), "joins to %s%s" % (show(o.val)[:160], "; " + bad[0] if bad else ""), o.st.trace)


def dq_of(x, pair, a, b):
    return ("call", ("attr", x, "replace"), pair, ())


def stored(ck, p):
    """attributes that hold a quoted identifier: all stores in the program"""
    good = set()
    m = p.module(PQ3)
    names = {}
    for f in p.all_funcs():
        if f.module is not m or f.cls is None:
            continue
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and "quoted" in x.attr:
                names.setdefault(x.attr, []).append(f)
    for n, fs in names.items():
        ok = True
        for f in fs:
            rule = St(n)
            eng = Engine(p, rule)
            eng.run(f, {}, self_class=f.cls.full)
            ck.func(f)
            ck.judge(bool(rule.out), "stored", n, f.loc(), "the store is not reached")
            for node, val, st, fr in rule.out:
                bad = Sql(eng, st).judge(val)
                ok &= ck.judge(not bad, "stored", "%s.%s" % (f.cls.name, n), fr.func.loc(node), "; ".join(bad), st.trace)
        if ok:
            good.add(n)
    return good


class St(Q):
    def __init__(self, name):
        Q.__init__(self)
        self.name, self.out = name, []

    def setattr(self, eng, node, base, attr, val, st, fr):
        if attr == self.name:
            self.out.append((node, val, st, fr))
        return None


def has_sink(f):
    for x in walk_own(f.node):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
            if n in SEEN_SQL and x.args:
                return True
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant) and x.slice.value == "search_path":
            return True
    return False


def sinks(ck, p, quoted):
    scope = ("postgresql.driver.pq3", "postgresql.driver.dbapi20", "postgresql.notifyman", "postgresql.alock", "postgresql.cluster", "postgresql.sys",
             "postgresql.lib", "postgresql.copyman")
    n = 0
    funcs = [f for f in p.all_funcs() if f.module.name in scope]
    todo = [f for f in funcs if has_sink(f)]
    done = set()
    while todo:
        f = todo.pop(0)
        if f.full in done:
            continue
        done.add(f.full)
        a = f.node.args
        env = {}
        if a.vararg is not None and f.name not in ("__init__",):
            env[a.vararg.arg] = ("tuple", ("p", "$" + a.vararg.arg + "1"), ("p", "$" + a.vararg.arg + "2"))
        rule = Q()
        eng = Engine(p, rule)
        st = State(ts=())
        if a.kwarg is not None:
            ob = ("obj", "dict", ("kwargs", 0), 0)
            st = st.hset((ob, "$items"), ("D", ((("p", "$key"), ("p", "$value")),)))
            env[a.kwarg.arg] = ob
        cls = f.cls
        if f.cls is not None and f.cls.name == "Output":
            cls = p.cls(PQ3 + ":Cursor")
        eng.run(f, env, self_class=cls.full if cls else None, st=st)
        ck.func(f)
        for node, t, s, fr in rule.sinks:
            n += 1
            raw = [("p", x) for x in RAW] + [("attr", ("p", x), "string") for x in RAW]
            sql = Sql(eng, s, raw=raw, known=(lambda u, st: known(u, st, quoted), guarded))
            bad = sql.judge(t)
            ck.ok("splice", "%s: %s" % (f.full, show(t)[:60]))
            if bad and f.name.startswith("_") and not f.name.startswith("__"):
                # a helper: judged where it is called with what it is called with
                users = [g for g in funcs if g.module is f.module and g is not f and any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name for x in walk_own(g.node))]
                if users and all(any(x[0] == "p" and x != SELF for x in walk_term(h)) for _, h in sql.complaints):
                    todo += users
                    continue
            for b in bad:
                ck.finding("splice", f.full, fr.func.loc(node), b, s.trace)
    ck.count("SQL texts", n)
    ck.at_least("SQL texts", 30)


def known(t, st, quoted):
    if t[0] == "attr" and t[2] in quoted:
        return True
    if t[0] == "attr" and t[2] in RAW_ATTRS:
        return True         # the statement's own SQL
    cp = call_parts(t)
    if cp:
        recv, name = callee(cp[0])
        # decided by the rule on type names; SQL with its parameter marks rewritten
        if name in ("sql_type_from_oid", "_convert_query"):
            return True
        # regproc and regtype texts are quoted by the server
    if t[0] == "sub" and t[2] == C("_proid"):
        return True
    if t[0] == "sub" and t[2] == C(0) and call_parts(t[1]) and callee(call_parts(t[1])[0])[1] == "_convert_query":
        return True
    if t[0] == "elem" or t[0] == "sub" or t[0] == "attr":
        # an element of what the caller gave as SQL
        return any(x == ("p", "description") for x in walk_term(t)) or t[0] == "sub" and t[2] == C("search_path") or (
            t[0] == "elem" and any(x[0] == "p" and x[1] in RAW for x in walk_term(t)))
    return t[0] == "p" and (t[1] in RAW) or t[0] == "p" and t[1].startswith("$") and False


def guarded(t, st):
    """isolation/mode: the path knows that there is no semicolon in it; whence: the path knows it is one of the table"""
    for k, v in st.facts:
        if k[0] == "cmp" and k[1] in ("in", "not in") and contains(k, t) and (v is False) == (k[1] == "in") and k[2] == C(";"):
            return True
        if k[0] == "cmp" and v is True and k[2] == t and (k[1] == "==" or k[1] == "in"):
            # one of some fixed words
            words = [k[3]] if k[1] == "==" else list(k[3][1:]) if k[3][0] == "tuple" else [x for x in walk_term(k[3]) if is_const(x)]
            if words and all(is_const(x) and x[1] in ("str", "bytes") and (x[2] if x[1] == "str" else x[2].decode("latin-1")).replace("_", "").isalnum() for x in words):
                return True
    return False


def typename(ck, p, quoted):
    """the SQL name of a type: every form it is returned in"""
    f = p.find_method(p.cls(PQ3 + ":TypeIO"), "sql_type_from_oid")
    ck.func(f)
    eng = Engine(p, Q())
    n = 0
    for o in eng.run(f, {}, self_class=f.cls.full, keep_defaults=True):
        if o.kind == "raise" or o.val == NONE:
            continue
        n += 1
        def fixed(t, st):
            cp = call_parts(t)
            base = callee(cp[0])[0] if cp and callee(cp[0])[1] in ("get", "__getitem__") else t[1] if t[0] == "sub" else None
            if base is not None and base[0] == "obj":
                c = eng.hget(st, (base, "$items"))
                return c is not None and len(c) > 1 and all(is_const(v) and set(v[2]) <= set("abcdefghijklmnopqrstuvwxyz0123456789_ ()[]") for k, v in c[1] if v != NONE)
            return base is not None and base[0] == "g" and base[1].startswith("postgresql.types")
        bad = Sql(eng, o.st, known=(fixed,)).judge(o.val)
        ck.judge(not bad, "splice", f.full, f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(), "; ".join(bad), o.st.trace)
    ck.judge(n > 1, "splice", f.full, f.loc(), "gives no names")
