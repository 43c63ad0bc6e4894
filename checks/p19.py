"""P19: advisory locks: what is held matches the object's count, and a partial acquisition is undone.

Every method of the lock object is interpreted from every count (0, 1, more), for 1 to 3 identifiers of either form, for
each subset of them the server grants, with a failure injected at each call of a lock statement; the statements the
object uses are read from the library file and matched with their role, mode and form of key."""
import itertools
import re
from sa.rules import *

MOD = "postgresql.alock"
SELF = ("p", "self")
DB = ("p", "$database")
CNT = (SELF, "_count")
INT = G("builtins.int")
STMT = {"try": ("p", "$try"), "acquire": ("p", "$acquire"), "release": ("p", "$release")}
NAME = {v: k for k, v in STMT.items()}


class R(EventRule):
    widen_after = 12
    max_depth = 6
    initial = ()
    fresh = 64

    def __init__(self, kinds=()):
        self.kinds = kinds          # per identifier: 'id' or 'pair'
        self.odd = []

    def inline(self, eng, func):
        return func.module.name == MOD

    def may_raise(self, eng, f, node, st):
        return False

    def ident(self, t):
        if t[0] == "p" and isinstance(t[1], str) and t[1].startswith("$id"):
            return int(t[1][3:])

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "=="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                x = None
                if a[0] == "attr" and a[2] == "__class__":
                    x = a[1]
                c = call_parts(a)
                if c and c[0] == G("builtins.type") and len(c[1]) == 1:
                    x = c[1][0]
                if x is not None and self.ident(x) is not None and b[0] == "g":
                    return (self.kinds[self.ident(x)] == "id") if b == INT else (self.kinds[self.ident(x)] == "pair") if b[1] in ("builtins.tuple", "builtins.list") else None
                if self.ident(a) is not None and b == NONE:
                    return False
        c = call_parts(t)
        if c and c[0] == G("builtins.isinstance") and len(c[1]) == 2 and self.ident(c[1][0]) is not None and c[1][1] == INT:
            return self.kinds[self.ident(c[1][0])] == "id"
        return None

    def getattr(self, eng, node, base, attr, st, fr):
        if attr == "__class__" and self.ident(base) is not None and self.kinds[self.ident(base)] == "id":
            return [Out("v", st, INT)]

    def iterate(self, eng, it, st):
        i = self.ident(it)
        if i is not None:
            return [("sub", it, C(0)), ("sub", it, C(1))], st

    def subscript(self, eng, node, base, idx, st, fr):
        if base[0] == "p" and base[1] == "$row" and is_const(idx):
            return None

    def keys(self, eng, pairs, ids, st):
        """the keys a call names: list of ('pair'|'id', identifier index) or None with a reason"""
        a, b = eng.exact_items(pairs, st), eng.exact_items(ids, st)
        if a is None or b is None:
            return None, "the arrays of keys are not built of the identifiers (%s, %s)" % (show(pairs), show(ids))
        if len(a) != len(b):
            return None, "the arrays of keys differ in length"
        r = []
        for x, y in zip(a, b):
            px = eng.exact_items(x, st)
            if px is None:
                c = call_parts(x)
                if c and c[0] in (G("builtins.list"), G("builtins.tuple")) and len(c[1]) == 1:
                    x = c[1][0]
                if self.ident(x) is not None:
                    px = [("sub", x, C(0)), ("sub", x, C(1))]
            if y == NONE and px and len(px) == 2 and all(q[0] == "sub" and self.ident(q[1]) is not None and q[1] == px[0][1] for q in px) \
                    and [q[2] for q in px] == [C(0), C(1)]:
                r.append(("pair", self.ident(px[0][1])))
            elif self.ident(y) is not None and px is not None and all(q == NONE for q in px) and len(px) == 2:
                r.append(("id", self.ident(y)))
            else:
                return None, "position %d names the key by %s and %s" % (len(r), show(x), show(y))
        return r, None

    def call(self, eng, node, f, args, kws, st, fr):
        role = NAME.get(f)
        if role is None:
            recv, name = callee(f)
            if name == "__call__" and recv in NAME:
                role = NAME[recv]
        if role is None:
            return None
        if kws or len(args) != 2:
            self.odd.append((fr.func.loc(node), "the %s statement is called with %d parameters" % (role, len(args)), st.trace))
            return [Out("v", st, NONE)]
        keys, why = self.keys(eng, args[0], args[1], st)
        if keys is None:
            self.odd.append((fr.func.loc(node), why, st.trace))
            keys = ()
        keys = tuple(keys)
        c = st.heap.get(CNT)
        ev = (role, keys, c)
        bad = Out("raise", st.with_ts(st.ts + (ev + ("!",),)), ("exc", "?:postgresql.exceptions.Error", ("excval", role, node.lineno)), node)
        if role != "try":
            return [Out("v", st.with_ts(st.ts + (ev,)), ("p", "$result")), bad]
        outs = [bad]
        for grant in itertools.product((True, False), repeat=len(keys)):
            s = st.with_ts(st.ts + (ev + (grant,),))
            outs.append(Out("v", s, ("tuple",) + tuple(("tuple", C(g)) for g in grant)))
        return outs


def run(ck, p):
    ck.rule("count", "only the outermost acquire and the outermost release talk to the server, before the count changes, and a failure leaves the count")
    ck.rule("keys", "the locks acquired, tried and released are exactly the identifiers of the object, each by its own form of key")
    ck.rule("partial", "in non-blocking mode what was obtained of a partial success is released before failure is reported")
    ck.rule("context", "entering acquires and gives the object, leaving releases and suppresses nothing")
    ck.rule("unheld", "releasing an unheld lock raises and reaches no server")
    ck.rule("state", "locked() is true exactly when the count is positive and the connection open")
    ck.rule("statements", "try, acquire and release are the statements of one mode, that of the class")
    ck.rule("sql", "each statement locks every key by the function of its role and mode: pairs by two int4, others by one int8")
    ck.rule("stores", "the count is stored nowhere else")
    base_cls = p.cls(MOD + ":ALock")
    subs = [c for c in p.subclasses(base_cls.full) if c.full != base_cls.full]
    if len(subs) < 2:
        raise AnalysisBroken("P19: only %d lock classes" % len(subs))
    init = p.find_method(base_cls, "__init__")
    ck.func(init)

    def bad(rule, name, f, o, msg):
        if isinstance(f, str):
            where = f
        else:
            where = f.loc(o.node) if hasattr(o.node, "lineno") and o.node is not None and o.kind == "raise" else f.loc()
        ck.finding(rule, name, where, msg, o.st.trace)

    # ---- the statements of each class
    roles = {}
    for c in subs:
        f = p.find_method(c, "__select_statements__")
        if f is None:
            raise AnalysisBroken("P19: %s has no statements" % c.full)
        ck.func(f)
        outs = Engine(p, R()).run(f, {}, self_class=c.full)
        for o in outs:
            items = eng_items(p, o)
            names = [x[2] if x[0] == "attr" and x[1] == ("attr", ("attr", SELF, a), "sys") else None
                     for x in items or () for a in ("database", "connection") if x[0] == "attr" and x[1] == ("attr", ("attr", SELF, a), "sys")]
            ck.judge(o.kind == "return" and len(names) == 3, "statements", c.full.split(":")[-1], f.loc(),
                     "gives %s instead of three statements of the connection's library" % show(o.val))
            if len(names) == 3:
                roles[c.full] = (dict(zip(("try", "acquire", "release"), names)), f, c)

    # ---- the object
    def start(kinds):
        rule = R(kinds)
        eng = Engine(p, rule)
        sup = tuple(("p", "$id%d" % i) for i in range(len(kinds)))
        st = State(ts=())

        class RI(R):
            def call(self, eng, node, f, args, kws, st, fr):
                recv, name = callee(f)
                if name == "__select_statements__":
                    return [Out("v", st, ("tuple", STMT["try"], STMT["acquire"], STMT["release"]))]
                return R.call(self, eng, node, f, args, kws, st, fr)
        eng = Engine(p, RI(kinds))
        outs = [o for o in eng.run(init, {"database": DB, "identifiers": ("tuple",) + sup}, self_class=base_cls.full, st=st)]
        if len(outs) != 1 or outs[0].kind == "raise":
            raise AnalysisBroken("P19: ALock.__init__ has %d exits" % len(outs))
        return outs[0].st

    def go(meth, base, kinds, count, closed=False, args=None):
        f = p.find_method(base_cls, meth)
        if f is None:
            raise AnalysisBroken("P19: ALock.%s vanished" % meth)
        ck.func(f)
        st = State(ts=())
        st.heap = dict(base.heap)
        st = st.hset(CNT, count)
        for a in ("database", "connection"):
            st = st.hset((SELF, a), DB)
        st = st.hset((DB, "closed"), C(closed))
        rule = R(kinds)
        outs = Engine(p, rule).run(f, dict({"self": SELF}, **(args or {})), self_class=base_cls.full, st=st)
        for where, msg, tr in rule.odd:
            ck.finding("keys", meth, where, msg, tr)
        ck.count("runs")
        ck.count("exits", len(outs))
        return f, outs

    def name_of(meth, kinds, count, more=""):
        return "%s, count %s, keys %s%s" % (meth, count, "/".join(kinds), more)

    KINDS = [k for n in (1, 2, 3) for k in itertools.product(("id", "pair"), repeat=n)]
    for kinds in KINDS:
        base = start(kinds)
        ck.judge(base.heap.get(CNT) == C(0), "count", "__init__", init.loc(), "a new lock starts with count %s" % show(base.heap.get(CNT, NONE)))
        full = tuple((k, i) for i, k in enumerate(kinds))
        same = lambda ks: tuple(sorted(ks, key=lambda x: x[1])) == full
        for meth, blocking in (("acquire", TRUE), ("acquire", None), ("acquire", FALSE), ("__enter__", TRUE)):
            for count in (0, 1, 2):
                a = {}
                if meth == "acquire":
                    a["blocking"] = default_of(p.find_method(base_cls, meth), "blocking") if blocking is None else blocking
                wait = blocking != FALSE
                f, outs = go(meth, base, kinds, C(count), args=a)
                nm = name_of(meth, kinds, count, "" if wait else ", not blocking")
                done = False
                for o in outs:
                    ck.ok("count", nm)
                    ev, c = o.st.ts, o.st.heap.get(CNT)
                    good = {"__enter__": SELF}.get(meth, TRUE)
                    rule = "context" if meth == "__enter__" else "count"
                    if any(e[2] != C(count) for e in ev):
                        bad("count", nm, f, o, "the count changes before the server is asked")
                        continue
                    if count:
                        if ev:
                            bad("count", nm, f, o, "the server is asked (%s) although the lock is held" % ev[0][0])
                        elif o.kind == "raise" or o.val != good or c != C(count + 1):
                            bad(rule, nm, f, o, "ends by %s %s with count %s" % (o.kind, show(o.val), show(c)))
                        done = True
                        continue
                    if not ev:
                        bad("count", nm, f, o, "ends by %s without asking the server, count %s" % (o.kind, show(c)))
                        continue
                    first = ev[0]
                    if first[0] != ("acquire" if wait else "try"):
                        bad("count", nm, f, o, "the %s statement is used" % first[0])
                        continue
                    if first[1] != full and not (same(first[1])):
                        bad("keys", nm, f, o, "asks for the keys %s" % (first[1],))
                        continue
                    if first[-1] == "!":
                        if o.kind != "raise" or c != C(0) or len(ev) > 1:
                            bad("count", nm, f, o, "the statement failed, yet it ends by %s with count %s" % (o.kind, show(c)))
                        continue
                    granted = first[1] if wait else tuple(k for k, g in zip(first[1], first[3]) if g)
                    if len(granted) == len(kinds):
                        if len(ev) > 1:
                            bad("count", nm, f, o, "everything was acquired, yet it goes on with %s" % ev[1][0])
                        elif o.kind == "raise" or o.val != good or c != C(1):
                            bad(rule, nm, f, o, "everything was acquired, yet it ends by %s %s with count %s" % (o.kind, show(o.val), show(c)))
                        done = True
                        continue
                    ck.ok("partial", nm)
                    rel = [e for e in ev[1:] if e[0] == "release"]
                    if len(rel) != len(ev) - 1:
                        bad("partial", nm, f, o, "after a partial success it goes on with %s" % ev[1][0])
                        continue
                    keys = [k for e in rel for k in e[1]]
                    failed = any(e[-1] == "!" for e in rel)
                    if failed:
                        if o.kind != "raise" or c != C(0):
                            bad("partial", nm, f, o, "the release of a partial success failed, yet it ends by %s with count %s" % (o.kind, show(c)))
                        continue
                    if sorted(keys) != sorted(granted):
                        bad("partial", nm, f, o, "granted %s, released %s" % (list(granted), keys))
                    elif o.kind == "raise" or o.val != FALSE or c != C(0):
                        bad("partial", nm, f, o, "not everything was acquired, yet it ends by %s %s with count %s" % (o.kind, show(o.val), show(c)))
                ck.judge(done, "count", nm, f.loc(), "no path acquires the lock")
        for meth in ("release", "__exit__"):
            for count in (0, 1, 2, 3):
                for closed in (False, True):
                    f, outs = go(meth, base, kinds, C(count), closed)
                    nm = name_of(meth, kinds, count, ", connection closed" if closed else "")
                    done = False
                    for o in outs:
                        ck.ok("count" if count else "unheld", nm)
                        ev, c = o.st.ts, o.st.heap.get(CNT)
                        if any(e[2] != C(count) for e in ev):
                            bad("count", nm, f, o, "the count changes before the server is asked")
                            continue
                        if not count:
                            if ev or o.kind != "raise" or c != C(0):
                                bad("unheld", nm, f, o, "ends by %s with count %s%s" % (o.kind, show(c), " after asking the server" if ev else ""))
                            done = True
                            continue
                        due = count == 1 and not closed
                        if due:
                            if len(ev) != 1 or ev[0][0] != "release":
                                bad("count", nm, f, o, "the last release asks the server for %s" % ([e[0] for e in ev] or "nothing"))
                                continue
                            if not same(ev[0][1]):
                                bad("keys", nm, f, o, "releases the keys %s" % (ev[0][1],))
                                continue
                            if ev[0][-1] == "!":
                                if o.kind != "raise" or c != C(count):
                                    bad("count", nm, f, o, "the release failed, yet it ends by %s with count %s" % (o.kind, show(c)))
                                continue
                        elif ev:
                            bad("count", nm, f, o, "the server is asked (%s) although %s" % (ev[0][0], "the connection is closed" if closed else "the lock stays held"))
                            continue
                        if o.kind == "raise" or c != C(count - 1):
                            bad("count", nm, f, o, "ends by %s with count %s" % (o.kind, show(c)))
                        elif meth == "__exit__" and o.val not in (NONE, FALSE):
                            bad("context", nm, f, o, "the exception is suppressed: %s is returned" % show(o.val))
                        done = True
                    ck.judge(done, "count", nm, f.loc(), "no path releases the lock")
    base = start(("id",))
    for count in (0, 1, 2):
        for closed in (False, True):
            f, outs = go("locked", base, ("id",), C(count), closed)
            want = C(bool(count) and not closed)
            for o in outs:
                ck.judge(o.kind != "raise" and o.val == want and not o.st.ts, "state", "locked, count %d%s" % (count, ", closed" if closed else ""),
                         f.loc(), "gives %s" % show(o.val), o.st.trace)

    # ---- stores of the count
    allowed = {x.full for x in (p.find_method(base_cls, m) for m in ("__init__", "acquire", "release")) if x}
    n = 0
    import ast
    for fn in p.all_funcs():
        if fn.module.name != MOD:
            continue
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Attribute) and node.attr == "_count" and isinstance(node.ctx, (ast.Store, ast.Del)):
                n += 1
    ck.count("count_stores", n)
    ck.at_least("count_stores", 3)

    # ---- SQL
    from sa.symlib import sections
    lib = sections(p, "postgresql/lib/libsys.sql")
    for full, (names, f, c) in sorted(roles.items()):
        cname = full.split(":")[-1].split(".")[-1]
        mode = c.node and mode_of(p, c)
        want_shared = "share" in cname.lower()
        ck.judge(mode is not None and mode.startswith("share") == want_shared, "statements", cname + ".mode", f.loc(), "the mode of %s is %s" % (cname, mode))
        for role in ("try", "acquire", "release"):
            n = names[role]
            sec = lib.get(n)
            if sec is None:
                ck.judge(False, "statements", "%s %s" % (cname, role), f.loc(), "the library has no statement %s" % n)
                continue
            where = "postgresql/lib/libsys.sql:%d" % sec.line
            msg = lock_sql(sec.text, role, want_shared)
            ck.judge(msg is None, "sql", n if names[role] else role, where, "as %s statement of %s: %s" % (role, cname, msg))
            ck.count("lock_statements")
    ck.at_least("lock_statements", 6)
    ck.assumptions += ["pg_advisory functions of PostgreSQL: session locks nest per call; one unlock undoes one lock",
                       "symbols are called as their text says (decided by P26)"]


def eng_items(p, o):
    e = Engine(p, R())
    return e.exact_items(o.val, o.st)


def default_of(f, name):
    import ast
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if name in names:
        i = names.index(name) - (len(names) - len(a.defaults))
        if i >= 0 and isinstance(a.defaults[i], ast.Constant):
            return C(a.defaults[i].value)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name and isinstance(d, ast.Constant):
            return C(d.value)
    raise AnalysisBroken("P19: %s has no constant default for %s" % (f.full, name))


def mode_of(p, c):
    import ast
    for n in c.node.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "mode" for t in n.targets) and isinstance(n.value, ast.Constant):
            return n.value.value
    return None


FUNC = {"try": "pg_try_advisory_lock", "acquire": "pg_advisory_lock", "release": "pg_advisory_unlock"}


def norm(sql):
    sql = re.sub(r"--[^\n]*", " ", sql)
    sql = re.sub(r"/\*.*?\*/", " ", sql, flags=re.S)
    sql = re.sub(r"\s+", " ", sql).strip().rstrip(";").lower()
    sql = sql.replace("pg_catalog.", "")
    types = re.findall(r"\$(\d+)\s*::\s*([a-z0-9_]+)\s*\[\]", sql)
    sql = re.sub(r"(\$\d+)\s*::\s*[a-z0-9_]+\s*\[\]", r"\1", sql)
    prev = None
    while prev != sql:
        prev = sql
        sql = re.sub(r"(?<![a-z0-9_])\(\s*(\$\d+)\s*\)", r"\1", sql)
    sql = re.sub(r"\s*([,=])\s*", r"\1", sql)
    sql = re.sub(r"([\[(])\s+", r"\1", re.sub(r"\s+([\])\[])", r"\1", sql))
    return sql, types


def lock_sql(text, role, shared):
    """None, or what is wrong with a lock statement"""
    sql, types = norm(text)
    for n, t in types:
        want = {"1": ("int4", "integer", "int"), "2": ("int8", "bigint")}.get(n)
        if want is None or t not in want:
            return "$%s is of type %s[]" % (n, t)
    fn = FUNC[role] + ("_shared" if shared else "")
    calls = re.findall(r"([a-z_0-9]*advisory[a-z_0-9]*)\(([^()]*)\)", sql)
    if not calls:
        raise AnalysisBroken("P19: no lock function in a lock statement")
    for n, a in calls:
        if n != fn:
            return "calls %s instead of %s" % (n, fn)
    args = sorted(a for n, a in calls)
    m = re.search(r" as ([a-z_]\w*)\((\w+)\)", sql) or re.search(r"generate_series\(.*\) (?:as )?([a-z_]\w*)\((\w+)\)", sql)
    if not m:
        raise AnalysisBroken("P19: no series in a lock statement")
    i = re.escape(m.group(2))
    q = "(?:%s\\.)?" % re.escape(m.group(1)) + i
    pair, single = r"\$1\[%s\]\[1\],\$1\[%s\]\[2\]" % (q, q), r"\$2\[%s\]" % q
    if len(args) != 2 or not re.fullmatch(pair, args[0]) or not re.fullmatch(single, args[1]):
        return "the keys are (%s)" % ") and (".join(args)
    fn_ = re.escape(fn)
    c1 = r"case when %s is null then %s\(%s\) else %s\(%s\) end" % (single, fn_, pair, fn_, single)
    c2 = r"case when %s is not null then %s\(%s\) else %s\(%s\) end" % (single, fn_, single, fn_, pair)
    m = re.search(c1, sql) or re.search(c2, sql)
    if not m:
        return "the form of a key is not chosen by whether its int8 is NULL"
    rest = sql[:m.start()] + "@" + sql[m.end():]
    al = r"array_(?:upper|length)\(%s,1\)"
    up = r"(?:coalesce\(%s,%s\)|coalesce\(%s,%s\)|%s|%s)" % (al % r"\$2", al % r"\$1", al % r"\$1", al % r"\$2", al % r"\$2", al % r"\$1")
    series = r" from generate_series\(1,%s\) (?:as )?\w+\(\w+\)" % up
    if role == "acquire":
        head = r"select (?:count\(\(*@\)* is null\)|count\(\(*@\)*\)|\(*@\)*)(?: as \w+|)"
    else:
        head = r"select \(*@\)*(?: as \w+|)"
    if not re.fullmatch(head + series, rest):
        return "does not run over every position, in order: %s" % rest
    return None
