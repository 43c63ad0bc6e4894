"""P08: Transaction objects issue the right SQL and never lie about their state.

Every method of pq3.Transaction is interpreted from every abstract state of the object (state x type x server state x
closed), with a failure injected at each call that reaches the server; each exit is compared with the transition table
below.  SQL is compared after normalisation (keywords upper-cased, blanks and empty statements dropped, synonyms)."""
import re
from sa.rules import *

CLS = "postgresql.driver.pq3.Transaction"
SELF = ("p", "self")
DB = ("p", "$database")
PQ = ("p", "$pq")
SYN = {
    "END": "COMMIT", "COMMIT TRANSACTION": "COMMIT", "COMMIT WORK": "COMMIT", "END TRANSACTION": "COMMIT",
    "ABORT": "ROLLBACK", "ROLLBACK TRANSACTION": "ROLLBACK", "ABORT TRANSACTION": "ROLLBACK", "ROLLBACK WORK": "ROLLBACK",
    "BEGIN": "START TRANSACTION", "BEGIN TRANSACTION": "START TRANSACTION", "BEGIN WORK": "START TRANSACTION",
}


def norm_sql(t):
    """-> tuple of statements; a statement is a tuple of text and ('hole', kind, term)"""
    out, cur = [], []

    def flush():
        nonlocal cur
        if any(isinstance(x, tuple) or x.strip() for x in cur):
            st = []
            for x in cur:
                if isinstance(x, str):
                    q = re.split(r'(")', x)
                    x = re.sub(r"\s+", " ", x)
                st.append(x)
            if isinstance(st[0], str):
                st[0] = st[0].lstrip()
            if isinstance(st[-1], str):
                st[-1] = st[-1].rstrip()
            out.append(tuple(x for x in st if x != ""))
        cur = []
    for p in pieces(t):
        if p[0] == "hole":
            cur.append(p)
            continue
        parts = p[1].split(";")
        for i, s in enumerate(parts):
            if i:
                flush()
            if cur and isinstance(cur[-1], str):
                cur[-1] += s
            elif s:
                cur.append(s)
    flush()
    r = []
    for s in out:
        head = s[0]
        if isinstance(head, str):
            m = re.match(r'([A-Za-z ]*)(.*)$', head, re.S)
            kw = m.group(1).upper()
            rest = m.group(2)
            k = kw.strip()
            for a in sorted(SYN, key=len, reverse=True):
                if k == a or k.startswith(a + " "):
                    if not (SYN[a] == "ROLLBACK" and k.startswith(a + " TO")):
                        k = SYN[a] + k[len(a):]
                        break
            k = re.sub(r"^ROLLBACK( TRANSACTION| WORK)? TO( SAVEPOINT)?$", "ROLLBACK TO", k)
            k = re.sub(r"^RELEASE SAVEPOINT$", "RELEASE", k)
            head = k + (" " if kw.endswith(" ") and (rest or len(s) > 1) else "") + rest
            s = (head,) + s[1:]
        r.append(tuple(s))
    return tuple(r)


def show_sql(sql):
    return "; ".join("".join(x if isinstance(x, str) else "{%s}" % show(x[2]) for x in s) for s in sql)


class R(EventRule):
    def inline(self, eng, func):
        return func.module.name in ("postgresql.driver.pq3", "postgresql.string") and (
            func.cls is None or func.cls.full == CLS)

    def may_raise(self, eng, f, node, st):
        return False

    def event(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in ("execute",) and recv == DB:
            q = arg(args, kws, 0, "query")
            return ("sql", norm_sql(q)), [("v", NONE), ("raise", "postgresql.exceptions.ActiveTransactionError"),
                                          ("raise", "?:postgresql.exceptions.Error")]
        if name in ("query", "prepare", "do") and recv == DB:
            return ("othersql", name), [("v", ("top", "q"))]
        if name in ("raise_client_error", "raise_error", "raise_server_error"):
            return ("client-error",), [("raise", "?:postgresql.exceptions.Error")]
        if name == "close" and recv == DB:
            return ("close",), [("v", NONE)]
        return None


def ident_of(stmt, head):
    """the hole-bearing identifier of SAVEPOINT "<..>" like statements"""
    if not stmt or not isinstance(stmt[0], str) or not stmt[0].startswith(head):
        return None
    return (stmt[0][len(head):].strip(),) + tuple(x if isinstance(x, str) else ("hole", "", x[2]) for x in stmt[1:])


def run(ck, p):
    ck.rule("transition", "each exit of each method, from each abstract state, is in the transition table")
    ck.rule("savepoint", "one quoted savepoint name, derived from the object only, is shared by SAVEPOINT, RELEASE and ROLLBACK TO")
    ck.rule("start-sql", "START TRANSACTION carries the isolation level and mode given, unquoted text with ';' refused")
    ck.rule("alias", "begin/abort/xact name the same operations and the factory passes isolation and mode on")
    ck.assumptions += ["Connection.execute raises iff the server refused the statement (decided by P07)",
                       "pq.state is b'I', b'T' or b'E' (the ReadyForQuery states)"]
    cls = p.cls("postgresql.driver.pq3:Transaction")
    init = p.find_method(cls, "__init__")

    def initial():
        eng = Engine(p, R())
        outs = [o for o in eng.run(init, {"database": DB}) if o.kind == "return"]
        if len(outs) != 1:
            raise AnalysisBroken("Transaction.__init__ has %d exits" % len(outs))
        return outs[0].st

    base = initial()
    ck.func(init)
    ck.judge(base.heap.get((SELF, "state")) == C("initialized"), "transition", "__init__", init.loc(),
             "a new transaction starts in %s" % show(base.heap.get((SELF, "state"), ("undef", "state"))))
    for a in ("isolation", "mode"):
        ck.judge(base.heap.get((SELF, a)) == ("p", a), "alias", "__init__:" + a, init.loc(),
                 "the %s given is not what the object keeps" % a)
    sp_names = {}

    def go(meth, state, typ=None, pq=b"I", closed=False, iso=None, mode=None, args=None):
        f = p.find_method(cls, meth)
        if f is None:
            raise AnalysisBroken("Transaction.%s vanished" % meth)
        ck.func(f)
        st = State(ts=())
        st.heap = dict(base.heap)
        for k, v in (("state", C(state)), ("type", C(typ)), ("database", DB)):
            st = st.hset((SELF, k), v)
        st = st.hset((SELF, "isolation"), iso if iso is not None else NONE)
        st = st.hset((SELF, "mode"), mode if mode is not None else NONE)
        for x in (iso, mode):
            if x is not None:
                st = st.fact(("cmp", "is", x, NONE), False).fact(x, True)
        st = st.hset((DB, "pq"), PQ).hset((PQ, "state"), C(pq)).hset((DB, "closed"), C(closed))
        eng = Engine(p, R())
        a = {"self": SELF}
        a.update(args or {})
        outs = eng.run(f, a, self_class=cls.full, st=st)
        for x in eng.inlined:
            ck.func(x)
        ck.count("runs")
        ck.count("exits", len(outs))
        return f, outs

    def summary(o):
        sqls = tuple(e for e in o.st.ts if e[0] in ("sql", "othersql"))
        return sqls, o.st.heap.get((SELF, "state")), o.st.heap.get((SELF, "type"))

    def bad(name, f, o, msg):
        sqls, s, t = summary(o)
        ck.finding("transition", name, f.loc(), "%s; on this path SQL=[%s], ends %s, state=%s" % (
            msg, " | ".join(show_sql(e[1]) + ("(fails)" if e[-1] == "!" else "") if e[0] == "sql" else "?" for e in sqls),
            "by exception" if o.kind == "raise" else "normally", show(s)), o.st.trace)

    def check_sql(name, f, o, want, fail_state, ok_state, ok_kind="return"):
        """exactly one statement `want`; state ok_state iff it was accepted"""
        sqls, s, t = summary(o)
        ck.ok("transition", name)
        if len(sqls) != 1 or sqls[0][0] != "sql":
            return bad(name, f, o, "exactly one statement batch is due here")
        if not want(sqls[0][1]):
            return bad(name, f, o, "wrong SQL")
        if sqls[0][-1] == "!":
            if o.kind != "raise":
                return bad(name, f, o, "the failure of the statement is swallowed")
            if s != C(fail_state):
                return bad(name, f, o, "the statement failed, yet the state changed from '%s'" % fail_state)
        else:
            if o.kind != ok_kind:
                return bad(name, f, o, "the statement was accepted, yet the method does not %s" % ok_kind)
            if s != C(ok_state):
                return bad(name, f, o, "the statement was accepted; the state should be '%s'" % ok_state)

    def check_none(name, f, o, kind, state):
        sqls, s, t = summary(o)
        ck.ok("transition", name)
        if sqls:
            return bad(name, f, o, "no SQL is due in this state")
        if o.kind != kind:
            return bad(name, f, o, "should %s here" % ("raise" if kind == "raise" else "return"))
        if s != C(state):
            return bad(name, f, o, "the state should stay '%s'" % state)

    def need(name, f, outs, pred, what):
        ck.ok("transition", name)
        if not any(pred(o) for o in outs):
            ck.finding("transition", name, f.loc(), "no path does this: " + what)

    is_stmt = lambda txt: (lambda sql: sql == ((txt,),))

    def is_savepoint(sql):
        if len(sql) != 1:
            return False
        i = ident_of(sql[0], "SAVEPOINT ")
        if i is None:
            return False
        sp_names.setdefault("SAVEPOINT", set()).add(i)
        return True

    def is_release(sql):
        i = ident_of(sql[0], "RELEASE ") if len(sql) == 1 else None
        if i is None:
            return False
        sp_names.setdefault("RELEASE", set()).add(i)
        return True

    def is_rollback_to(sql):
        i = ident_of(sql[0], "ROLLBACK TO ") if sql else None
        # ROLLBACK TO alone leaves the savepoint established in the block around
        j = ident_of(sql[1], "RELEASE ") if len(sql) == 2 else None
        if i is None or j is None:
            return False
        sp_names.setdefault("ROLLBACK TO", set()).update((i, j))
        return True

    ISO, MODE = ("p", "$iso"), ("p", "$mode")

    def is_start(iso, mode):
        def ok(sql):
            if len(sql) != 1:
                return False
            want = ["START TRANSACTION"]
            s = sql[0]
            flat = []
            for x in s:
                if isinstance(x, str):
                    flat += [w for w in x.split(" ") if w]
                else:
                    flat.append(x[2])
            exp = ["START", "TRANSACTION"]
            if iso:
                exp += ["ISOLATION", "LEVEL", ISO]
            if mode:
                e2 = [MODE]
            else:
                e2 = []
            flat = [x.upper() if isinstance(x, str) else x for x in flat]
            if iso and mode:
                return flat in (exp + [MODE], exp + [",", MODE], ["START", "TRANSACTION", MODE, "ISOLATION", "LEVEL", ISO])
            return flat == exp + e2
        return ok

    # ---- start
    for pq in (b"I", b"T", b"E"):
        for meth in ("start", "__enter__"):
            for st in ("open", "committed", "aborted"):
                for typ in ("block", "savepoint"):
                    f, outs = go(meth, st, typ, pq)
                    for o in outs:
                        check_none("%s in state %s" % (meth, st), f, o, "return" if st == "open" else "raise", st)
            for iso in (None, ISO):
                for mode in (None, MODE):
                    f, outs = go(meth, "initialized", None, pq, iso=iso, mode=mode)
                    name = "%s initially, server %s%s" % (meth, pq.decode(), " configured" if iso or mode else "")
                    typ = "block" if pq == b"I" else "savepoint"
                    if pq != b"I" and (iso or mode):
                        for o in outs:
                            check_none(name, f, o, "raise", "initialized")
                        continue
                    seen = False
                    for o in outs:
                        if o.kind == "raise" and not summary(o)[0]:
                            # refusal of text that could end the statement
                            sub = o.st.facts
                            if pq == b"I" and any(C(";") in walk_term(t) for t, v in sub if v):
                                ck.ok("start-sql", name)
                                if summary(o)[1] != C("initialized"):
                                    bad(name, f, o, "refused, yet the state changed")
                                seen = True
                                continue
                            bad(name, f, o, "raises instead of starting")
                            continue
                        check_sql(name, f, o, is_start(iso, mode) if pq == b"I" else is_savepoint, "initialized", "open")
                        if o.kind == "return" and summary(o)[2] != C(typ):
                            bad(name, f, o, "type should be '%s' but is %s" % (typ, show(summary(o)[2])))
                    if meth == "__enter__":
                        for o in outs:
                            if o.kind == "return":
                                ck.judge(o.val == SELF, "transition", "__enter__ result", f.loc(), "the context is not the transaction")
                    need(name, f, outs, lambda o: o.kind == "return", "a successful start")
                    if pq == b"I" and (iso or mode):
                        for o in outs:
                            if o.kind == "return":
                                checked = {x for t, v in o.st.facts if C(";") in walk_term(t) for x in walk_term(t)}
                                for x in (iso, mode):
                                    if x:
                                        ck.judge(x in checked, "start-sql", "%s is searched for ';'" % x[1][1:], f.loc(),
                                                 "caller text goes into START TRANSACTION without the ';' test", o.st.trace)

    # ---- commit
    for pq in (b"T", b"E", b"I"):
        for typ in ("block", "savepoint"):
            for st in ("committed", "initialized", "aborted"):
                f, outs = go("commit", st, typ, pq)
                for o in outs:
                    check_none("commit in state %s" % st, f, o, "return" if st == "committed" else "raise", st)
            f, outs = go("commit", "open", typ, pq)
            for o in outs:
                check_sql("commit of %s" % typ, f, o, is_stmt("COMMIT") if typ == "block" else is_release, "open", "committed")
            need("commit of %s" % typ, f, outs, lambda o: o.kind == "return", "a successful commit")
            # ---- rollback
            for st in ("aborted", "initialized", "committed"):
                f, outs = go("rollback", st, typ, pq)
                for o in outs:
                    check_none("rollback in state %s" % st, f, o, "return" if st == "aborted" else "raise", st)
            f, outs = go("rollback", "open", typ, pq)
            for o in outs:
                check_sql("rollback of %s" % typ, f, o, is_stmt("ROLLBACK") if typ == "block" else is_rollback_to, "open", "aborted")
            need("rollback of %s" % typ, f, outs, lambda o: o.kind == "return", "a successful rollback")

    # ---- __exit__
    exc_ok = [G("builtins.ValueError"), G("postgresql.exceptions.UniqueError"), G("postgresql.exceptions.Error")]
    for typ in ("block", "savepoint"):
        undo = is_stmt("ROLLBACK") if typ == "block" else is_rollback_to
        do = is_stmt("COMMIT") if typ == "block" else is_release
        for closed in (False, True):
            for pq in (b"T", b"E", b"I"):
                # exceptions leave by rollback, are not swallowed
                for e in exc_ok:
                    f, outs = go("__exit__", "open", typ, pq, closed, args={"typ": e})
                    for o in outs:
                        name = "__exit__ with exception%s" % (", closed" if closed else "")
                        if closed:
                            check_none(name, f, o, "return", "open")
                        else:
                            check_sql(name, f, o, undo, "open", "aborted")
                        if o.kind == "return":
                            ck.judge(eng_false(o.val), "transition", name + " result", f.loc(),
                                     "the exception leaving the block is swallowed (returns %s)" % show(o.val))
                for e in (G("builtins.KeyboardInterrupt"), G("builtins.GeneratorExit"), G("builtins.SystemExit")):
                    f, outs = go("__exit__", "open", typ, pq, closed, args={"typ": e})
                    for o in outs:
                        if o.kind == "return":
                            ck.judge(eng_false(o.val), "transition", "__exit__ result", f.loc(), "a BaseException is swallowed")
                        s = summary(o)[1]
                        ck.judge(s != C("committed") and not any(e2[0] == "sql" and do(e2[1]) for e2 in o.st.ts),
                                 "transition", "__exit__ with BaseException", f.loc(), "commits although an exception leaves the block")
                # normal exit
                f, outs = go("__exit__", "open", typ, pq, closed, args={"typ": NONE, "value": NONE, "tb": NONE})
                for o in outs:
                    sqls, s, t = summary(o)
                    name = "__exit__ without exception, server %s" % pq.decode()
                    ck.ok("transition", name)
                    if pq == b"E":
                        if o.kind != "raise":
                            bad(name, f, o, "leaving a failed block without an exception must raise")
                        elif closed:
                            if sqls:
                                bad(name, f, o, "SQL on a closed connection")
                        elif len(sqls) != 1 or not undo(sqls[0][1]):
                            bad(name, f, o, "a failed block must be rolled back, nothing else")
                        elif (sqls[0][-1] != "!") != (s == C("aborted")):
                            bad(name, f, o, "state does not match what the server accepted")
                        continue
                    if not sqls or not do(sqls[0][1]):
                        bad(name, f, o, "the block must be committed")
                        continue
                    if sqls[0][-1] != "!":
                        if len(sqls) != 1 or o.kind != "return" or s != C("committed"):
                            bad(name, f, o, "the commit was accepted: must end here, committed")
                        continue
                    # failed commit
                    if o.kind != "raise":
                        bad(name, f, o, "the failed commit is swallowed")
                        continue
                    rest = sqls[1:]
                    if rest and not (len(rest) == 1 and undo(rest[0][1]) and not closed):
                        bad(name, f, o, "after a failed commit only a rollback on an open connection may follow")
                        continue
                    if s == C("committed") or (s == C("aborted")) != (bool(rest) and rest[0][-1] != "!"):
                        bad(name, f, o, "state does not match what the server accepted")
                need("__exit__ %s" % pq.decode(), f, outs, lambda o: o.kind == ("raise" if pq == b"E" else "return"), "its normal ending")

    # ---- savepoint names
    allnames = set()
    for k in ("SAVEPOINT", "RELEASE", "ROLLBACK TO"):
        ck.judge(len(sp_names.get(k, ())) == 1, "savepoint", k, init.loc(), "%d different names in %s" % (len(sp_names.get(k, ())), k))
        allnames |= sp_names.get(k, set())
    ck.judge(len(allnames) == 1, "savepoint", "name", init.loc(),
             "SAVEPOINT, RELEASE and ROLLBACK TO name different savepoints: %s" % sorted(map(repr, allnames)))
    for n in allnames:
        text = "".join(x if isinstance(x, str) else "\0" for x in n)
        holes = [x for x in n if not isinstance(x, str)]
        ck.judge(text.startswith('"') and text.endswith('"') and text.count('"') == 2 and bool(holes), "savepoint", "quoted name", init.loc(),
                 "the savepoint name is not one quoted identifier naming the object: %r" % (text,))
        ids = [t for h in holes for t in walk_term(h[2]) if t[0] == "call" and t[1] == G("builtins.id") and t[2] == (SELF,)]
        ck.judge(bool(ids), "savepoint", "own name", init.loc(), "the savepoint name does not identify this transaction object")
        strange = [t for h in holes for t in walk_term(h[2]) if t[0] == "ret" or (t[0] == "attr" and t[1][0] in ("p", "attr"))]
        ck.judge(not strange, "savepoint", "stable name", init.loc(), "the savepoint name depends on mutable state: %s" % [show(x) for x in strange])

    # ---- aliases and factory
    eng = Engine(p, R())
    for a, b in (("begin", "start"), ("abort", "rollback")):
        owner, v = eng.class_attr(cls, a)
        m = p.find_method(cls, b)
        ma = p.find_method(cls, a)
        same = (v is not None and v == G(m.full)) or ma is m
        if not same and ma is not None:
            # a forwarding method
            outs = Engine(p, AliasRule(b)).run(ma, {})
            same = bool(outs) and all(o.st.ts == ((b,),) or (o.kind == "raise" and o.st.ts == ((b, "!"),)) for o in outs)
        ck.judge(same, "alias", a, cls.module.rel, "%s is not %s" % (a, b))
    con = p.cls("postgresql.driver.pq3:Connection")
    f = p.find_method(con, "transaction")
    ck.func(f)
    for o in Engine(p, FactoryRule()).run(f, {}):
        if o.kind != "return":
            continue
        a = inst_fields(o.st, o.val) if o.val[0] == "obj" else None
        ok = False
        if a:
            names = [x.arg for x in init.node.args.args][1:]
            got = dict(zip(names, a[0]))
            got.update(dict(a[1]))
            ok = got.get("database") == SELF and got.get("isolation") == ("p", "isolation") and got.get("mode") == ("p", "mode")
        ck.judge(ok, "alias", "Connection.transaction", f.loc(), "isolation and mode are not passed on as given: %s" % (a,))
    ck.at_least("runs", 80)


def eng_false(v):
    return v == NONE or v == C(False)


class AliasRule(EventRule):
    def __init__(self, name):
        self.name = name

    def inline(self, eng, func):
        return False

    def may_raise(self, eng, f, node, st):
        return False

    def event(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if recv == SELF:
            return (name,), [("v", NONE), ("raise", "?")]


class FactoryRule(Rule):
    def inline(self, eng, func):
        return False

    def may_raise(self, eng, f, node, st):
        return False
