"""P26: every catalog statement the library names exists and fits its use.

The SQL library is parsed into its sections; every reference to a symbol in the program is looked up in it, its
arguments counted against the parameters of the text, and what the caller does with the result is interpreted with the
shape that the execution method and the select list give.  The parsing and binding code is interpreted for every kind
of section and symbol."""
import ast
import re
from sa.rules import *
from sa.symlib import sections

LIB = "postgresql/lib/libsys.sql"
LM = "postgresql.lib"
SELF = ("p", "self")
EAGER = ("first", "", "all", "load_rows", "load_chunks")
# what is handed to callers outside: (shape, columns at least)
CONTRACT = {
    "postgresql.driver.pq3.Settings.items": ("rows", 2, "pairs of name and setting"),
    "postgresql.driver.pq3.Settings.__len__": ("scalar", 1, "a number"),
    "postgresql.driver.pq3.Connection.listening_channels": ("column", 1, "channel names"),
    "postgresql.driver.pq3.TypeIO.lookup_type_info": ("row", 9, "one description"),
    "postgresql.driver.pq3.TypeIO.lookup_composite_type_info": ("rows", 3, "one row per attribute"),
}
# positions that code and text agree on
COLUMNS = {
    "lookup_type": ["namespace", "typname", "typtype", "typlen", "typelem", "typrelid", "ae_typid", "ae_hasbin_input", "ae_hasbin_output"],
    "lookup_composite": ["atttypid", "attname", "is_domain"],
    "setting_items": ["name", "setting"], "setting_mget": ["name", "setting"], "setting_item": ["name", "setting"],
    "setting_update": ["key", "value"],
    "setting_get": ["setting"], "setting_keys": ["name"], "setting_values": ["setting"],
    "listening_channels": ["channel"], "listening_relations": ["channel"],
}
for _s in ("startup_data", "startup_data_92", "startup_data_only_version", "startup_data_no_start"):
    COLUMNS[_s] = ["version", "backend_start", "client_addr", "client_port"]
# catalog features by server version: (pattern, first version or None, last version or None)
FEATURES = [
    (r"\bprocpid\b", None, (9, 1)),
    (r"(?<![\w.])pid\b(?=.*\bpg_stat_activity\b)|\bpg_stat_activity\b.*(?<![\w.])pid\b", (9, 2), None),
    (r"\bbackend_start\b(?!.*null::text as backend_start limit)(?<!as backend_start)", (8, 1), None),
    (r"\bpg_listening_channels\b", (9, 0), None),
    (r"\bpg_listener\b", None, (8, 4)),
    (r"\bwith recursive\b", (8, 4), None),
    (r"\bpg_terminate_backend\b", (8, 0), None),
    (r"\bpg_notify\b", (9, 0), None),
    (r"\bpg_stat_activity\b", (7, 2), None),
]
VERSIONS = [(8, 0), (8, 1), (8, 2), (8, 3), (8, 4), (9, 0), (9, 1), (9, 2), (9, 6), (10, 0), (14, 2), (16, 1)]


# ------------------------------------------------------------ SQL texts
def strip_sql(sql):
    """comments and the contents of literals out"""
    out, i = [], 0
    while i < len(sql):
        c = sql[i]
        if sql.startswith("--", i):
            j = sql.find("\n", i)
            i = len(sql) if j < 0 else j
            continue
        if sql.startswith("/*", i):
            j = sql.find("*/", i)
            if j < 0:
                return None
            i = j + 2
            out.append(" ")
            continue
        if c in "'\"":
            j = sql.find(c, i + 1)
            while j >= 0 and sql[j:j + 2] == c * 2:
                j = sql.find(c, j + 2)
            if j < 0:
                return None
            out.append("''" if c == "'" else sql[i:j + 1])
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def columns(sql):
    """names of the result columns of a SELECT; None in the list for *"""
    toks = re.findall(r'"[^"]*"|\'\'|[A-Za-z_]\w*|\$\d+|\d+(?:\.\d+)?|::|[^\s\w]', sql)
    depth, cols, cur, started = 0, [], [], False
    for t in toks + [";"]:
        low = t.lower()
        if not started:
            if low == "select" and depth == 0:
                started = True
            elif t == "(":
                depth += 1
            elif t == ")":
                depth -= 1
            continue
        if t in "([":
            depth += 1
        elif t in ")]":
            depth -= 1
        if depth == 0 and (t in (",", ";") or low in ("from", "union", "limit", "where", "order")):
            cols.append(cur)
            cur = []
            if t != ",":
                break
            continue
        cur.append(t)
    r = []
    for c in cols:
        if not c:
            continue
        if c[-1] == "*":
            r.append(None)
            continue
        if len(c) > 2 and c[-2].lower() == "as":
            r.append(c[-1].strip('"'))
            continue
        # drop trailing casts
        while len(c) > 2 and c[-2] == "::":
            c = c[:-2]
        if re.match(r'[A-Za-z_"]', c[-1]):
            r.append(c[-1].strip('"').lower())
        else:
            n = [x for i, x in enumerate(c) if re.match(r"[A-Za-z_]", x) and i + 1 < len(c) and c[i + 1] == "("]
            r.append(n[0].lower() if n else "?column?")
    return r


class Sym:
    def __init__(self, sec):
        self.sec, self.name = sec, sec.name
        self.clean = strip_sql(sec.text)
        self.params = sorted({int(x) for x in re.findall(r"\$(\d+)", self.clean or "")})
        self.cols = columns(self.clean or "")

    @property
    def open(self):
        return None in self.cols

    @property
    def shape(self):
        m = self.sec.method
        if m == "first":
            return "scalar" if len(self.cols) == 1 and not self.open else "row"
        return {"column": "column", "": "rows", "all": "rows", "rows": "rowiter", "chunks": "chunks", "declare": "cursor"}.get(m, "count")


# ------------------------------------------------------------ uses
class U(EventRule):
    initial = ()
    max_depth = 5
    widen_after = 2
    state_cap = 3000

    def __init__(self, syms, wrappers, version=None):
        self.syms, self.wrappers, self.version = syms, wrappers, version
        self.bad, self.called = [], {}

    def inline(self, eng, func):
        return func.full in self.wrappers

    def may_raise(self, eng, f, node, st):
        return False

    def getattr(self, eng, node, base, attr, st, fr):
        if attr == "version_info" and self.version:
            return [Out("v", st, ("tuple", C(self.version[0]), C(self.version[1]), C(0)))]
        if attr == "sys" and base[0] != "g":
            return [Out("v", st, ("attr", base, attr))]
        if attr == "sslmode":       # the attempts to connect come before the first statement
            return [Out("v", st, C("disable"))]

    def decide(self, eng, t, st):
        if self.version and t[0] == "cmp" and t[1] in ("<", "<=", ">", ">=", "=="):
            a, b = eng.exact_items(t[2], st), eng.exact_items(t[3], st)
            if a and b and all(is_const(x) for x in a + b):
                a, b = tuple(x[2] for x in a), tuple(x[2] for x in b)
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[t[1]]

    def tag(self, t):
        if t[0] == "p" and isinstance(t[1], str) and t[1].startswith("$sym:"):
            return t[1][5:].split(":")
        return None

    def row(self, s):
        return ("p", "$sym:%s:row" % s)

    def field(self, s, c):
        return ("p", "$sym:%s:field:%s" % (s, c))

    def shaped(self, name):
        s = self.syms[name]
        return self.field(name, s.cols[0]) if s.shape == "scalar" else ("p", "$sym:%s:%s" % (name, s.shape))

    def note(self, fr, node, msg, st):
        self.bad.append((fr.func.loc(node) if hasattr(node, "lineno") else fr.func.loc(), msg, st.trace))

    def iterate(self, eng, it, st):
        g = self.tag(it)
        if g is None:
            return ([], st) if it[0] == "attr" and it[2] == "asyncs" else None
        if g[1] in ("rows", "rowiter"):
            return [self.row(g[0])], st
        if g[1] == "column":
            return [self.field(g[0], self.syms[g[0]].cols[0])], st
        if g[1] == "row":
            return ([self.field(g[0], c) for c in self.syms[g[0]].cols], st) if not self.syms[g[0]].open else None
        return None

    def on_unpack(self, eng, elts, v, st, fr):
        g = self.tag(v)
        if g is None:
            return None
        node = elts[0]
        n = len(elts)
        star = any(isinstance(e, ast.Starred) for e in elts)
        s = self.syms[g[0]]
        if g[1] == "row":
            if not s.open and (len(s.cols) != n if not star else len(s.cols) < n - 1):
                self.note(fr, node, "%d names for the %d columns of %s" % (n, len(s.cols), g[0]), st)
                return None
            return ("tuple",) + tuple(self.field(g[0], c) for c in s.cols) if not s.open else None
        if g[1] == "field":
            self.note(fr, node, "the value of column %s of %s is taken for a row" % (g[2], g[0]), st)
        elif not star and g[1] != "rows":
            self.note(fr, node, "the %s of %s is taken for one row" % (g[1], g[0]), st)
        return None

    def subscript(self, eng, node, base, idx, st, fr):
        g = self.tag(base)
        if g is None:
            return None
        s = self.syms[g[0]]
        if g[1] == "rows":
            if is_const(idx) and idx[1] == "int":
                return [Out("v", st, self.row(g[0]))]
            if is_const(idx):
                self.note(fr, node, "the rows of %s are asked for %s" % (g[0], show(idx)), st)
            return None
        if g[1] == "row":
            if is_const(idx) and idx[1] == "int":
                if s.open:
                    if idx[2] == 0 and s.cols[0]:
                        return [Out("v", st, self.field(g[0], s.cols[0]))]
                    self.note(fr, node, "position %d of a row of %s, whose columns the text leaves open" % (idx[2], g[0]), st)
                    return None
                if not -len(s.cols) <= idx[2] < len(s.cols):
                    self.note(fr, node, "position %d of the %d columns of %s" % (idx[2], len(s.cols), g[0]), st)
                    return None
                return [Out("v", st, self.field(g[0], s.cols[idx[2]]))]
            if is_const(idx) and idx[1] == "str":
                if idx[2] not in s.cols and not (s.open and re.match(r"pro[a-z]+$", idx[2])):
                    self.note(fr, node, "%s has no column %s" % (g[0], idx[2]), st)
                return [Out("v", st, self.field(g[0], idx[2]))]
            return None
        if g[1] == "field":
            # an array-valued or text column may be indexed; the name of a column says no more
            if not (len(g) > 2 and g[2] in ("proargtypes", "proargnames", "proallargtypes")) and s.shape == "scalar":
                self.note(fr, node, "%s gives a single value, which is taken for a row or a list of them" % g[0], st)
            elif not (len(g) > 2 and g[2] in ("proargtypes", "proargnames", "proallargtypes")) and is_const(idx) and s.shape in ("rows", "column", "row") and fr.func.module.name.endswith("pq3"):
                self.note(fr, node, "the value of column %s of %s is taken for a row" % (g[2], g[0]), st)
            return None
        self.note(fr, node, "the %s of %s is indexed" % (g[1], g[0]), st)
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        args = tuple(args)
        V = lambda t: [Out("v", st, t)]
        if f[0] == "attr" and f[1][0] == "attr" and f[1][2] == "sys" and f[1][1] != G("postgresql"):
            self.called.setdefault(name, set()).add(fr.func.loc(node))
            s = self.syms.get(name)
            if s is None:
                return None
            if s.shape == "row":
                return [Out("v", st, self.row(name))] + ([Out("v", st, NONE)] if not re.match(r"startup_data", name) else [])
            return V(self.shaped(name))
        if f == G("postgresql.protocol.client3.Connection"):
            pq = ("p", "$pq")
            return [Out("v", st.hset((pq, "xact"), NONE), pq)]
        if name == "socket_factory_sequence":
            return V(("tuple", ("p", "$factory")))
        if f[0] == "g" and f[1] == "postgresql.version.normalize" and self.version:
            return V(("tuple", C(self.version[0]), C(self.version[1]), C(0)))
        tags = [(self.tag(a), a) for a in args]
        for g, a in tags:
            if g is None:
                continue
            s = self.syms[g[0]]
            if name in ("update", "dict") or f == G("builtins.dict"):
                if g[1] not in ("rows", "rowiter") or s.open or len(s.cols) != 2:
                    self.note(fr, node, "a dictionary is updated by the %s of %s with columns %s" % (g[1], g[0], s.cols), st)
            elif g[1] == "field" and s.shape == "scalar" and f[0] == "g" and f[1].rsplit(".", 1)[1] in ("list", "tuple", "set", "zip", "sorted", "enumerate", "reversed", "iter", "frozenset"):
                self.note(fr, node, "%s gives a single value, which is taken for a list of them" % g[0], st)
            elif f == G("builtins.next"):
                if g[1] in ("rows", "row", "field"):
                    self.note(fr, node, "next() is asked of the %s of %s" % (g[1], g[0]), st)
                elif g[1] == "column":
                    return V(self.field(g[0], s.cols[0]))
                else:
                    return V(self.row(g[0]))
            elif f == G("builtins.len"):
                if g[1] not in ("rows", "row", "field"):
                    self.note(fr, node, "len() is asked of the %s of %s" % (g[1], g[0]), st)
            elif f == G("builtins.map") and a == args[-1] and len(args) == 2:
                if g[1] == "column" and args[0] == G("postgresql.driver.pq3.get0"):
                    self.note(fr, node, "the first item of each value of %s is taken" % g[0], st)
                elif g[1] in ("field", "row"):
                    self.note(fr, node, "map() runs over the %s of %s" % (g[1], g[0]), st)
        if recv is not None:
            g = self.tag(recv)
            if g is not None and g[1] == "row":
                s = self.syms[g[0]]
                if name == "get" and args and is_const(args[0]):
                    if args[0][2] not in s.cols and not s.open:
                        self.note(fr, node, "%s has no column %s" % (g[0], args[0][2]), st)
                    return V(self.field(g[0], args[0][2]))
            elif g is not None and g[1] in ("rows", "column", "scalar") and name in ("get", "keys", "values", "items"):
                self.note(fr, node, "%s() is asked of the %s of %s" % (name, g[1], g[0]), st)
        return None


def sym_refs(p):
    """(function, node, name, call or None) for every x.sys.NAME of a bound library"""
    r = []
    for fn in p.all_funcs():
        if fn.module.name.startswith(("postgresql.test", "postgresql.documentation", "postgresql.release")):
            continue
        calls = {id(n.func): n for n in ast.walk(fn.node) if isinstance(n, ast.Call)}
        own = [n for n in ast.walk(fn.node)]
        inner = set()
        for n in own:
            if n is not fn.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                inner |= {id(x) for x in ast.walk(n)} if not isinstance(n, ast.Lambda) else set()
        for n in own:
            if id(n) in inner:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == "sys":
                d = p.expr_dotted(fn.module, n.value) if hasattr(p, "expr_dotted") else None
                if d and not d.startswith("?") and d.startswith("postgresql."):
                    continue
                r.append((fn, n, n.attr, calls.get(id(n))))
    return r


def run(ck, p):
    ck.rule("exists", "every symbol the program names is a section of the library")
    ck.rule("arguments", "it is called with as many arguments as its text has parameters")
    ck.rule("result", "what the caller does with the result fits the execution method and the columns of the text")
    ck.rule("section", "every section has a known type and method, one name, resolved references, and one whole statement with parameters numbered from 1")
    ck.rule("columns", "the columns that code addresses by position have their places")
    ck.rule("version", "the statement chosen for a server version names only what that version's catalog has")
    ck.rule("parse", "name, type, method and text of a section come from its own header and lines")
    ck.rule("bind", "a symbol binds to the method it declares, or to the call of the prepared statement or procedure")
    ck.rule("cache", "a bound symbol is prepared once unless transient; a missing one raises")
    lib = sections(p, LIB)
    secs = lib["*order"]
    types, methods = tables(p)
    syms = {}
    for s in secs:
        where = "%s:%d" % (LIB, s.line)
        syms[s.name] = y = Sym(s)
        ck.judge(not s.type or s.type in types, "section", s.name, where, "type %r is none of %s" % (s.type, sorted(types)))
        ck.judge(s.method in ("", "all") or s.method in methods, "section", s.name, where, "method %r is none of %s" % (s.method, sorted(methods)))
        ck.judge(re.match(r"[A-Za-z_]\w*$", s.name), "section", s.name, where, "the name %r cannot be an attribute" % s.name)
        un = [x for x in s.extra if x.startswith("*")]
        ck.judge(not un, "section", s.name, where, "refers to %s, which is not defined before" % ", ".join(u[1:] for u in un))
        if s.type == "proc":
            continue
        ck.judge(y.clean is not None, "section", s.name, where, "a quote or comment is not closed")
        c = y.clean or ""
        ck.judge(c.strip() != "", "section", s.name, where, "has no statement")
        ck.judge(c.count("(") == c.count(")") and c.count("[") == c.count("]"), "section", s.name, where, "brackets do not match")
        ck.judge(";" not in c.strip().rstrip(";"), "section", s.name, where, "more than one statement")
        ck.judge(y.params == list(range(1, len(y.params) + 1)), "section", s.name, where, "parameters are numbered %s" % y.params)
        if s.name in COLUMNS:
            ck.judge(y.cols == COLUMNS[s.name], "columns", s.name, where, "columns are %s instead of %s" % (y.cols, COLUMNS[s.name]))
        ck.count("sections")
    for d in lib["*dups"]:
        ck.judge(False, "section", d.name, "%s:%d" % (LIB, d.line), "the name is defined twice")
    ck.at_least("sections", 40)

    # ---- references
    refs = sym_refs(p)
    roots = {}
    for fn, node, name, call in refs:
        where = fn.loc(node)
        ck.count("references")
        if not ck.judge(name in syms, "exists", "%s: %s" % (fn.full, name), where, "the library has no symbol %s" % name):
            continue
        if call is None and fn.module.name != "postgresql.alock":
            roots[fn.full] = fn
            continue
        if call is not None:
            roots[fn.full] = fn
            star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
            n = len(call.args) + len(call.keywords)
            ck.judge(not star and not call.keywords and n == len(syms[name].params), "arguments", "%s: %s" % (fn.full, name), where,
                     "%d arguments for the %d parameters of %s" % (n, len(syms[name].params), name))
    ck.at_least("references", 25)
    # the lock object keeps its statements: rows of one value for try, at once for all
    for fn, node, name, call in refs:
        if fn.module.name == "postgresql.alock":
            y = syms.get(name)
            if y is None:
                continue
            ck.judge(len(y.params) == 2, "arguments", "alock: %s" % name, fn.loc(node), "2 arguments for the %d parameters of %s" % (len(y.params), name))
            ck.judge(y.shape == "rows" if name.startswith("try") else y.sec.method in EAGER or y.shape == "rows", "result", "alock: %s" % name, fn.loc(node),
                     "method %r of %s does not give the rows the lock object reads" % (y.sec.method, name))

    # ---- use of results
    wrappers, done = {}, {}
    while True:
        new = {}
        for full, fn in sorted(roots.items()):
            if full in done and not (done[full] & 1):
                continue
            done[full] = 0
            ck.func(fn)
            rule = U(syms, set(wrappers))
            eng = Engine(p, rule)
            cls = None
            if fn.cls is not None:
                cls = fn.cls.full
            outs = eng.run(fn, {}, self_class=cls)
            ck.count("exits", len(outs))
            for where, msg, tr in rule.bad:
                ck.finding("result", full, where, msg, tr)
            ck.ok("result", full)
            for o in outs:
                if o.kind == "raise":
                    continue
                g = rule.tag(o.val)
                if g is not None and full not in wrappers:
                    new[full] = fn
                want = CONTRACT.get(full)
                if want:
                    s = syms[g[0]] if g else None
                    shape = None if g is None else "scalar" if g[1] == "field" else g[1]
                    if o.val == NONE and want[0] == "row":
                        continue
                    if g is None and o.val != NONE and o.val[0] in ("call", "ret"):
                        continue        # a conversion of it
                    ck.judge(shape == want[0] and (s.open or len(s.cols) >= want[1]) or shape == "column" and want[0] == "rows" and False, "result", full, fn.loc(),
                             "gives the %s of %s instead of %s" % (shape, g and g[0], want[2]))
        if not new:
            break
        wrappers.update(new)
        names = {f.name for f in new.values()}
        for fn in p.all_funcs():
            if fn.full in wrappers or fn.module.name != "postgresql.driver.pq3" or fn.cls is None:
                continue
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" \
                        and any(f.cls is not None and f.name == n.func.attr and p.find_method(fn.cls, f.name) is f for f in new.values()):
                    roots[fn.full] = fn
                    done.pop(fn.full, None)
    ck.count("functions_using_results", len(roots))
    ck.at_least("functions_using_results", 15)

    # ---- versions
    for full, fn in sorted(roots.items()):
        src = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)}
        if "version_info" not in src:
            continue
        for v in VERSIONS:
            rule = U(syms, set(wrappers), v)
            Engine(p, rule).run(fn, {}, self_class=fn.cls.full if fn.cls is not None else None)
            for name in rule.called:
                if name not in syms:
                    continue
                text = re.sub(r"\s+", " ", syms[name].clean or "").lower()
                for pat, lo, hi in FEATURES:
                    if re.search(pat, text, re.S):
                        ck.judge((lo is None or v >= lo) and (hi is None or v <= hi), "version", "%s: %s" % (full, name), sorted(rule.called[name])[0],
                                 "on server %d.%d %s is used, whose %s exists %s" % (v + (name, pat, "since %s" % (lo,) if lo and v < lo else "up to %s" % (hi,))))
            ck.count("version_runs")
    ck.at_least("version_runs", 24)
    parse(ck, p)
    bind(ck, p)
    ck.assumptions += ["the names of pg_proc's columns are those PostgreSQL documents (lookup_procedures selects them all)",
                       "what each catalog version has is the table in the check"]


def tables(p):
    lc = p.cls(LM + ":SymbolCollection")
    sc = p.cls(LM + ":Symbol")
    types, methods = None, None
    for c, n in ((lc, "symtypes"), (sc, "execution_methods")):
        for x in c.node.body:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets):
                v = x.value
                if isinstance(v, ast.Call) and v.args:
                    v = v.args[0]
                v = set(ast.literal_eval(v))
                if n == "symtypes":
                    types = v
                else:
                    methods = v
    if types is None or methods is None:
        raise AnalysisBroken("P26: no table of symbol types or methods")
    return types, methods


# ------------------------------------------------------------ parsing a library
HEADS = {       # header line -> (fields, refers)
    "h1": 1, "h2": 2, "h3": 3, "h4": 3,
}
LINES = ["pre", "h1", "com1", "q1", "com2", "q2", "h2", "q3", "h3", "ref1", "q4", "h4", "com3", "ref3", "q5"]
REFS = {"ref1": "h1", "ref3": "h3"}


def L(n):
    return ("p", "$line:" + n)


class F(EventRule):
    initial = ()
    max_depth = 5
    widen_after = 40
    recursion = 0
    fresh = 64

    def __init__(self, proc=None, amp=None):
        self.proc, self.amp, self.made = proc, amp, []

    def inline(self, eng, func):
        return func.module.name == LM and func.name not in ("__init__",)

    def may_raise(self, eng, f, node, st):
        return False

    def line(self, t):
        if t[0] == "p" and isinstance(t[1], str) and t[1].startswith("$line:"):
            return t[1][6:]

    def field(self, t):
        if t[0] == "p" and isinstance(t[1], str) and t[1].startswith("$field:"):
            return t[1][7:].split(":")

    def decide(self, eng, t, st):
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op == "in" and self.line(b) and a == C("]"):
                return self.line(b)[:1] == "h" or self.line(b)[:3] == "ref"
            for x, y in ((a, b), (b, a)):
                c = call_parts(x)
                ob = x[1] if x[0] in ("attr", "type") and (x[0] == "type" or x[2] == "__class__") else c[1][0] if c and c[0] == G("builtins.type") and len(c[1]) == 1 else None
                if op in ("is", "==") and ob is not None and y[0] == "g":
                    if ob[0] == "tuple":
                        return y == G("builtins.tuple")
                    if self.line(ob) or contains_line(ob, self):
                        return y == G("builtins.str")
                fx = self.field(x[1] if x[0] == "slice" and x[2:] == (C(1), NONE, NONE) else x)
                if op == "==" and fx:
                    if is_const(y):
                        return y == C("proc") and fx == [self.proc, "1"]
                    if y[0] == "slice" and self.line(y[1]) in ():
                        return None
                    fy = self.field(y)
                    if fy and fy[0] == "ref":
                        return fx == [REFS[fy[1]], "0"]
                    if fy:
                        return fx == fy
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        args = tuple(args)
        V = lambda t: [Out("v", st, t)]
        if recv is not None:
            n = self.line(recv)
            if n:
                a = args[0] if args else None
                if name in ("strip", "rstrip", "lstrip"):
                    if n.startswith("h") and (not args or a == C("[]")):
                        return V(recv)
                    if not args:
                        return V(recv)
                    return V(("p", "$odd"))
                if name == "startswith":
                    if a == C("["):
                        return V(C(n.startswith("h")))
                    if a == C("*["):
                        return V(C(n.startswith("ref")))
                    if a in (C("-- "), C("--")):
                        return V(C(n.startswith("com")))
                    return V(FALSE)
                if name == "endswith":
                    return V(C(a == C("]") and n.startswith("h")))
                if name == "split" and n.startswith("h") and a == C(":") and len(args) == 1:
                    return V(("tuple",) + tuple(("p", "$field:%s:%d" % (n, i)) for i in range(HEADS[n])))
                if name in ("split", "partition") and n.startswith("ref") and a == C("]"):
                    if name == "split" and len(args) == 2 and args[1] == C(1):
                        return V(("tuple", ("p", "$refpre:" + n), ("p", "$line:tail_" + n)))
                    if name == "partition":
                        return V(("tuple", ("p", "$refpre:" + n), C("]"), ("p", "$line:tail_" + n)))
            if recv[0] == "cat" and name == "startswith" and self.line(recv[1][0]):
                return V(C(args[0] in (C("-- "), C("--")) and self.line(recv[1][0]).startswith("com")))
            g = self.field(recv)
            if g and name == "startswith" and args == (C("&"),):
                return V(C(g == [self.amp, "0"]))
            if name == "strip" and not args and recv[0] in ("cat", "call", "ret", "p"):
                return V(recv)
            if recv[0] == "p" and recv[1] == "$line:" and name == "strip":
                return V(recv)
        if f[0] == "g" and f[1].rsplit(".", 1)[1] == "find" and len(args) == 2:
            items, s = eng.iterated(args[0], st)
            if items is None:
                return None
            for it in items:
                x = eng.exact_items(it, st)
                for o in eng.call(node, args[1], [it], (), st, fr):
                    if o.kind == "v" and o.val == TRUE:
                        return [Out("v", st, it)]
                    if o.kind == "v" and o.val != FALSE:
                        return None
            return V(NONE)
        if f == ("p", "typ") or f == ("p", "cls"):
            syms = args[0] if args else arg(args, kws, 0, "symbols", NONE)
            items = eng.exact_items(syms, st)
            self.made.append((items, st, eng))
            return V(("p", "$library"))
        return None


def contains_line(t, rule):
    return any(rule.line(x) for x in walk_term(t))


def subst_slices(rule, t):
    return t


def lines_of(rule, t):
    """the lines a text is made of, in order"""
    n = rule.line(t)
    if n:
        return [n]
    r = []
    if t[0] == "cat":
        for x in t[1]:
            r += lines_of(rule, x)
        return r
    if is_const(t):
        return [] if t[2] == "" else ["?" + str(t[2])]
    if t[0] == "s":
        return lines_of(rule, t[1])
    return ["?" + show(t)]


class FF(F):
    def subscript(self, eng, node, base, idx, st, fr):
        if base[0] == "p" and str(base[1]).startswith("$refpre:") and idx == ("slice_obj", C(2), NONE, NONE):
            return [Out("v", st, ("p", "$field:ref:" + base[1][8:]))]
        return None


def parse(ck, p):
    cls = p.cls(LM + ":ILF")
    f = p.find_method(cls, "from_lines")
    if f is None:
        raise AnalysisBroken("P26: ILF.from_lines vanished")
    ck.func(f)
    # what every section's text is made of
    TEXT = {"h1": ["q1", "com2", "q2"], "h2": ["q3"], "h3": ["q1", "com2", "q2", "tail_ref1", "q4"],
            "h4": ["q1", "com2", "q2", "tail_ref1", "q4", "tail_ref3", "q5"]}
    for proc, amp, skip in [(a, b, 0) for a in (None, "h2") for b in (None, "h2", "h3")] + [(None, None, 1)]:
        if True:
            rule = FF(proc, amp)
            eng = Engine(p, rule)
            a = {f.node.args.args[1].arg: ("tuple",) + tuple(L(n) for n in LINES[skip:])} if len(f.node.args.args) > 1 else {}
            typ = f.node.args.args[0].arg
            rule.typ = typ
            outs = eng.run(f, dict(a, **{typ: ("p", "typ")}), self_class=None)
            name = "from_lines%s%s" % (", procedure" if proc else "", ", reference" if amp else ", no preface" if skip else "")
            if not rule.made:
                ck.judge(False, "parse", name, f.loc(), "makes no library of the lines")
                continue
            for items, st, e in rule.made:
                if items is None:
                    raise AnalysisBroken("P26: from_lines makes its symbols in a way that is not followed")
                if not ck.judge(len(items) == 4, "parse", name, f.loc(), "%d symbols of 4 sections" % len(items)):
                    continue
                for h, it in zip(("h1", "h2", "h3", "h4"), items):
                    x = e.exact_items(it, st)
                    y = e.exact_items(x[1], st) if x and len(x) == 2 else None
                    if not ck.judge(y is not None and len(y) == 5, "parse", name, f.loc(), "a section gives %s" % show(it)):
                        continue
                    want = [("p", "$field:%s:%d" % (h, i)) if i < HEADS[h] else NONE for i in range(3)]
                    nm, ref = want[0], FALSE
                    if amp == h:
                        nm, ref = ("slice", want[0], C(1), NONE, NONE), TRUE
                    ck.judge(x[0] == nm and y[0] == ref, "parse", "%s, name" % name, f.loc(), "the header's name gives %s, reference %s" % (show(x[0]), show(y[0])))
                    ck.judge(y[1] == want[1], "parse", "%s, type" % name, f.loc(), "with %d fields in the header, the type is %s" % (HEADS[h], show(y[1])))
                    ck.judge(y[2] == want[2], "parse", "%s, method" % name, f.loc(), "with %d fields in the header, the method is %s" % (HEADS[h], show(y[2])))
                    got = lines_of(rule, y[4])
                    ck.judge(got == TEXT[h], "parse", "%s, text" % name, f.loc(), "lines %s are taken for the section's text %s" % (got, TEXT[h]))
            for o in outs:
                ck.judge(o.kind == "return" and o.val == ("p", "$library"), "parse", name, f.loc(), "ends by %s %s" % (o.kind, show(o.val)))
    ck.count("parsed_headers", 24)
    # ---- the collection
    cc = p.cls(LM + ":SymbolCollection")
    init = p.find_method(cc, "__init__")
    ck.func(init)
    types, methods = tables(p)
    Q, N = ("p", "$query"), C("name")

    class S(EventRule):
        initial = ()
        max_depth = 4
        widen_after = 8

        def inline(self, eng, func):
            return func.module.name == LM and func.cls is not None and func.cls.full == cc.full

        def may_raise(self, eng, f, node, st):
            return False

        def call(self, eng, node, f, args, kws, st, fr):
            if f == G(LM + ".Symbol"):
                return [Out("v", st.with_ts(st.ts + (("symbol", tuple(args), kws),)), ("p", "$symbol"))]
    for typ in sorted(types) + [None, "", "bogus"]:
        for isref in (TRUE, FALSE):
            for exe in (C("first"), NONE):
                rule = S()
                eng = Engine(p, rule)
                sym = ("tuple", N, ("tuple", isref, C(typ), exe, C(""), Q))
                outs = eng.run(init, {"symbols": ("tuple", sym), "preface": NONE}, self_class=cc.full, st=State(ts=()))
                nm = "collection, type %s" % typ
                for o in outs:
                    if typ == "bogus":
                        ck.judge(o.kind == "raise", "parse", nm, init.loc(), "is accepted")
                        continue
                    if o.kind == "raise":
                        ck.judge(False, "parse", nm, init.loc(), "is refused")
                        continue
                    ev = [e for e in o.st.ts if e[0] == "symbol"]
                    if not ck.judge(len(ev) == 1, "parse", nm, init.loc(), "makes %d symbols" % len(ev)):
                        continue
                    a, k = ev[0][1], ev[0][2]
                    sig = ["library", "source", "name", "method", "type", "parameters", "reference"]
                    got = {s: arg(a, k, i, s, FALSE if s == "reference" else NONE) for i, s in enumerate(sig)}
                    want = {"library": SELF, "source": Q, "name": N, "method": exe, "reference": isref}
                    for s, v in want.items():
                        ck.judge(got[s] == v, "parse", "%s, %s" % (nm, s), init.loc(), "the symbol's %s is %s" % (s, show(got[s])))
                    wt = NONE if typ == "preload" else C(typ)
                    ck.judge(got["type"] in (wt, C(typ)) or not typ and got["type"] in (NONE, C("")), "parse", nm + ", type kept", init.loc(),
                             "the symbol's type is %s" % show(got["type"]))
                    pre = o.st.heap.get((SELF, "preload"))
                    items = eng.exact_items(pre, o.st) if pre else None
                    ck.judge(items is not None and (N in items) == (typ == "preload"), "parse", nm + ", preload", init.loc(), "preloaded: %s" % (items,))


# ------------------------------------------------------------ binding
class B(EventRule):
    initial = ()
    max_depth = 4
    widen_after = 8
    recursion = 0

    def __init__(self, what=None, hit=False, missing=False):
        self.what, self.hit, self.missing = what, hit, missing

    def inline(self, eng, func):
        return func.module.name == LM and func.name not in ("get_symbol",)

    def may_raise(self, eng, f, node, st):
        return False

    def d(self, key):
        return {"__symbol_cache__": ("p", "$cache"), "__database__": ("p", "$db"), "__symbol_library__": ("p", "$lib")}.get(key)

    def getattr(self, eng, node, base, attr, st, fr):
        if base == SELF and self.what == "binding" and self.d(attr):
            return [Out("v", st, self.d(attr))]

    def subscript(self, eng, node, base, idx, st, fr):
        if base == ("attr", SELF, "__dict__") and is_const(idx) and self.d(idx[2]):
            return [Out("v", st, self.d(idx[2]))]
        if base == ("p", "$cache"):
            if self.hit:
                return [Out("v", st, ("p", "$hit"))]
            return [Out("raise", st, ("exc", "builtins.KeyError", ("excval", "KeyError", node.lineno)), node)]

    def setitem(self, eng, node, base, idx, val, st, fr):
        if base == ("p", "$cache"):
            return [Out("next", st.with_ts(st.ts + (("cached", idx, val),)))]

    def decide(self, eng, t, st):
        c = call_parts(t)
        if c and c[0] == G("builtins.isinstance") and c[1][0] == ("p", "$sym"):
            return True
        if t[0] == "cmp" and t[1] == "in" and t[3] == ("p", "$cache"):
            return self.hit
        if t[0] == "p" and t[1] in ("$sym", "$hit", "$bs", "$ref", "$ps"):
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and NONE in (t[2], t[3]):
            x = t[2] if t[3] == NONE else t[3]
            if x[0] == "p" and x[1] in ("$sym", "$hit", "$bs", "$ref", "$ps", "$result"):
                return False
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        args = tuple(args)
        V = lambda t, ev=None: [Out("v", st if ev is None else st.with_ts(st.ts + (ev,)), t)]
        if name == "prepare":
            return V(("p", "$ps"), ("prepare", recv, args))
        if name == "proc":
            return V(("p", "$proc"), ("proc", recv, args))
        if self.what == "binding":
            if recv == ("p", "$cache") and name == "get":
                return V(("p", "$hit") if self.hit else arg(args, kws, 1, "default", NONE))
            if recv == ("p", "$cache") and name in ("setdefault", "__setitem__") and len(args) == 2:
                return V(args[1], ("cached", args[0], args[1]))
            if name == "get_symbol":
                return V(NONE if self.missing else ("p", "$sym"), ("lookup", args))
            if f == G(LM + ".BoundSymbol"):
                return V(("p", "$bs"), ("bound", tuple(args)))
            if f == G(LM + ".BoundReference"):
                return V(("p", "$ref"), ("boundref", args))
            if f == ("p", "$bs"):
                return V(("p", "$result"), ("called", args))
            if f == ("p", "$ref"):
                return V(("p", "$bs"), ("resolved", args))
            if f in (G("builtins.list"), G("builtins.tuple")) and args == (("p", "$result"),):
                return V(("p", "$list"))
        return None


def bind(ck, p):
    types, methods = tables(p)
    bs = p.cls(LM + ":BoundSymbol")
    init = p.find_method(bs, "__init__")
    SY, DB = ("p", "$sym"), ("p", "$db")
    ck.func(init)
    a0 = [x.arg for x in init.node.args.args[1:3]]
    for typ in ("proc", None, "static", "transient", "const"):
        for m in [None] + sorted(methods):
            rule = B()
            st = State(ts=()).hset((SY, "type"), C(typ)).hset((SY, "method"), C(m))
            for o in Engine(p, rule).run(init, dict(zip(a0, (SY, DB))), self_class=bs.full, st=st):
                got = o.st.heap.get((SELF, "method"), NONE)
                if typ == "proc":
                    want = [("attr", ("p", "$proc"), "__call__"), ("p", "$proc")]
                    ev = ("proc", DB, (SY,))
                elif m is None:
                    want = [("attr", ("p", "$ps"), "__call__"), ("p", "$ps")]
                    ev = ("prepare", DB, (SY,))
                else:
                    want = [("attr", ("p", "$ps"), m)]
                    ev = ("prepare", DB, (SY,))
                ck.judge(o.kind == "return" and got in want and o.st.ts == (ev,), "bind", "type %s, method %s" % (typ, m), init.loc(),
                         "binds %s after %s" % (show(got), [e[0] for e in o.st.ts]))
                ck.count("bindings")
    call = p.find_method(bs, "__call__")
    ck.func(call)

    class K(B):
        def call(self, eng, node, f, args, kws, st, fr):
            return [Out("v", st.with_ts(st.ts + ((f, tuple(args), kws),)), ("p", "$result"))]
    for c in (bs,):
        for o in Engine(p, K()).run(call, {}, self_class=c.full, st=State(ts=())):
            ok = o.kind == "return" and o.val == ("p", "$result") and len(o.st.ts) == 1 and o.st.ts[0][0] == ("attr", SELF, "method") \
                and len(o.st.ts[0][1]) == 1 and o.st.ts[0][1][0][0] == "star" and len(o.st.ts[0][2]) == 1
            ck.judge(ok, "bind", "BoundSymbol.__call__", call.loc(), "calls %s" % [(show(e[0]), [show(x) for x in e[1]]) for e in o.st.ts])
    # ---- Symbol keeps its method
    sc = p.cls(LM + ":Symbol")
    si = p.find_method(sc, "__init__")
    ck.func(si)
    for m in [None, "", "all", "bogus"] + sorted(methods):
        for o in Engine(p, B()).run(si, {"method": C(m), "type": C("transient"), "reference": TRUE, "source": ("p", "$q"), "library": ("p", "$lib"),
                                         "name": C("n"), "parameters": NONE}, self_class=sc.full, st=State(ts=())):
            if m == "bogus":
                ck.judge(o.kind == "raise", "bind", "Symbol, method %s" % m, si.loc(), "an unknown method is accepted")
                continue
            got = o.st.heap.get((SELF, "method"))
            ck.judge(o.kind != "raise" and got == C(None if m in ("", "all") else m), "bind", "Symbol, method %s" % m, si.loc(), "the method kept is %s" % show(got or NONE))
            for k, v in (("type", C("transient")), ("reference", TRUE), ("source", ("p", "$q"))):
                ck.judge(o.st.heap.get((SELF, k)) == v, "bind", "Symbol, %s" % k, si.loc(), "the %s is not kept" % k)
    # ---- references
    rc = p.cls(LM + ":BoundReference")
    for mname in ("__init__", "__call__"):
        f = p.find_method(rc, mname)
        ck.func(f)

        class RR(B):
            def call(self, eng, node, f, args, kws, st, fr):
                if f == G(LM + ".Symbol"):
                    return [Out("v", st.with_ts(st.ts + (("symbol", tuple(args), kws),)), ("p", "$new"))]
                if f == G(LM + ".BoundSymbol"):
                    return [Out("v", st.with_ts(st.ts + (("bound", tuple(args)),)), ("p", "$bs"))]
                if f == ("attr", SELF, "method"):
                    return [Out("v", st.with_ts(st.ts + (("run", tuple(args), kws),)), ("p", "$chunks"))]
                return B.call(self, eng, node, f, args, kws, st, fr)
        st = State(ts=())
        args = {}
        if mname == "__init__":
            args = dict(zip([x.arg for x in f.node.args.args[1:3]], (SY, DB)))
        for o in Engine(p, RR()).run(f, args, self_class=rc.full, st=st):
            if mname == "__init__":
                ck.judge(o.st.heap.get((SELF, "symbol")) == SY and o.st.heap.get((SELF, "database")) == DB and o.st.heap.get((SELF, "method")) == ("attr", ("p", "$ps"), "chunks"),
                         "bind", "BoundReference", f.loc(), "keeps %s" % show(o.st.heap.get((SELF, "method"), NONE)))
                continue
            if o.kind == "raise":
                continue
            ev = [e for e in o.st.ts if e[0] == "symbol"]
            s = ("attr", SELF, "symbol")
            sig = ["library", "source", "name", "method", "type", "parameters", "reference"]
            ok = len(ev) == 1 and o.val == ("p", "$bs") and any(e[0] == "run" for e in o.st.ts)
            if ok:
                got = {k: arg(ev[0][1], ev[0][2], i, k, FALSE if k == "reference" else NONE) for i, k in enumerate(sig)}
                ok = got["reference"] == FALSE and all(got[k] == ("attr", s, k) for k in ("library", "name", "method", "type"))
                ok = ok and any(e[0] == "bound" and e[1] == (("p", "$new"), ("attr", SELF, "database")) for e in o.st.ts)
            ck.judge(ok, "bind", "BoundReference.__call__", f.loc(), "does not bind the symbol its result makes up, with the method and type of its own symbol")
    # ---- Binding
    bc = p.cls(LM + ":Binding")
    g = p.find_method(bc, "__getattr__")
    ck.func(g)
    N = C("name")
    na = g.node.args.args[1].arg

    def go(rule, ref=FALSE, typ=None, m=None):
        st = State(ts=()).hset((SY, "reference"), ref).hset((SY, "type"), C(typ)).hset((SY, "method"), C(m))
        rule.what = "binding"
        ck.count("lookups")
        return Engine(p, rule).run(g, {na: N}, self_class=bc.full, st=st)
    for o in go(B(hit=True)):
        ck.judge(o.kind == "return" and o.val == ("p", "$hit") and not [e for e in o.st.ts if e[0] != "lookup"], "cache", "bound before", g.loc(), "is bound again")
    for o in go(B(missing=True)):
        ck.judge(o.kind == "raise" and "AttributeError" in o.val[1], "cache", "missing symbol", g.loc(), "ends by %s" % o.kind)
    for ref in (TRUE, FALSE):
        for typ in (None, "static", "const", "proc", "transient"):
            for m in (None, "first", "rows", "chunks", "column"):
                nm = "%s of type %s, method %s" % ("reference" if ref == TRUE else "symbol", typ, m)
                for o in go(B(), ref, typ, m):
                    ev = [e for e in o.st.ts if e[0] != "lookup"]
                    if ref == TRUE:
                        val = ("p", "$bs") if typ == "const" else ("p", "$ref")
                        want = [("boundref", (SY, DB))] + ([("resolved", ())] if typ == "const" else [])
                    elif typ == "const":
                        val = ("p", "$list") if m in ("rows", "chunks", "column") else ("p", "$result")
                        want = [("bound", (SY, DB)), ("called", ())]
                    else:
                        val, want = ("p", "$bs"), [("bound", (SY, DB))]
                    cached = [e for e in ev if e[0] == "cached"]
                    ck.judge(o.kind == "return" and o.val == val and [e for e in ev if e[0] != "cached"] == want, "bind", nm, g.loc(),
                             "gives %s after %s" % (show(o.val), [e[0] for e in ev]))
                    ck.judge(bool(cached) == (typ != "transient") and all(e == ("cached", N, val) for e in cached), "cache", nm, g.loc(),
                             "is %s" % ("kept" if cached else "not kept") if bool(cached) != (typ != "transient") else "keeps %s" % ", ".join(show(e[2]) for e in cached))
    ck.at_least("bindings", 35)
    ck.at_least("lookups", 50)
