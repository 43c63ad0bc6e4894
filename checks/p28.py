"""P28: streams and cursors deliver every row once, in order.

The steps of every stream and cursor are interpreted over exact result messages: every number of rows against every
chunk size, other messages in between, batches already received or still to come; scrolling is computed for every
whence, direction and sign, and compared with what the interface documents."""
import ast
import itertools
import re
from sa.rules import *
from checks.p01 import wire
from sa.program import AnalysisBroken

PQ3 = "postgresql.driver.pq3"
E3 = "postgresql.protocol.element3"
SELF = ("p", "self")
DB = ("attr", SELF, "database")
PQ = ("attr", DB, "pq")
XA = ("p", "$xact")
LIST = ("obj", "list", ("batches",), ("root", "batches"))
TYPES = {"complete": b"C", "null": b"I", "bind": b"2", "parse": b"1", "copy": b"H", "suspended": b"s"}


def T(*xs):
    return ("tuple",) + tuple(xs)


def P(n):
    return ("p", "$" + n)


def row(n):
    return T(P("value%s" % n))


def msg(kind, n=0):
    return P("msg %s %s" % (kind, n))


class Base(EventRule):
    initial = ()
    max_depth = 6
    fresh = 3
    state_cap = 4000
    widen_after = 10
    own = ()

    def may_raise(self, eng, f, node, st):
        return False

    def inline(self, eng, func):
        return func.module.name == PQ3 and not func.name.startswith(("_pq_complete", "_pq_push", "_pq_step", "_process", "raise_", "_raise", "_init", "encode"))

    def getattr(self, eng, node, base, attr, st, fr):
        if base[0] == "p" and str(base[1]).startswith("$msg "):
            if attr == "type":
                return [Out("v", st, C(TYPES[base[1].split()[1]]))]
            if attr == "__class__":
                return [Out("v", st, P("a message class"))]
        if base[0] == "tuple" and attr == "__class__":
            return [Out("v", st, G("builtins.tuple"))]
        if base[0] == "tuple" and attr == "type":
            return [Out("raise", st, ("exc", "builtins.AttributeError", ("site", node.lineno)), node)]
        return None

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "==") and P("a message class") in t[2:4]:
            return False
        if t[0] == "cmp" and t[1] == "in" and t[2] == P("a message class"):
            return False
        if t[0] == "call" and t[1] == G("builtins.isinstance") and t[2][0][0] == "p" and str(t[2][0][1]).startswith("$msg "):
            return False
        if t[0] == "cmp" and t[1] in ("is", "==") and XA in t[2:4] and NONE in t[2:4]:
            return False
        if t[0] == "cmp" and t[1] in ("is", "==") and XA in t[2:4] and P("another") in t[2:4]:
            return False
        if t == XA:
            return True
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        ev = lambda e, v=NONE, s=None: [Out("v", (s or st).with_ts(st.ts + (e,)), v)]
        if name == "getattr" and len(args) == 3 and args[0][0] in ("p", "tuple") and is_const(args[1]):
            if args[0][0] == "tuple":
                return [Out("v", st, args[2])]
            r = self.getattr(eng, node, args[0], args[1][2], st, fr)
            if r is not None:
                return r
        if name == "_pq_push":
            return ev(("push",) + tuple(args[:1]))
        if name == "_pq_complete":
            return self.complete(eng, st)
        if name == "raise_error" or name == "raise_client_error":
            return [Out("raise", st.with_ts(st.ts + (("raised",),)), ("exc", "postgresql.exceptions.Error", ("excval", "server", 0)), node)]
        if f == P("process"):
            return ev(("process", eng.exact_items(args[0], st) if args else None), ("call", f, tuple(eng.exact_items(args[0], st) or (P("unknown"),)), ()))
        if name == "close" and recv == SELF:
            return ev(("close",))
        if name == "Instruction":
            items = eng.exact_items(args[0], st)
            return [Out("v", st, ("call", P("instruction"), tuple(items) if items is not None else (P("unknown"),), ()))]
        return None

    def complete(self, eng, st):
        return [Out("v", st.with_ts(st.ts + (("finish",),)), NONE)]


def mro_attr(p, cls, name):
    """what a class has under a name: a function, an expression, or None"""
    for c in p.mro(cls):
        if isinstance(c, str):
            continue
        for n in reversed(c.node.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                return n
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return n.value
    return None


# ------------------------------------------------------------------ streams over several requests
class Stream(Base):
    def __init__(self, messages):
        self.messages = messages

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name == "messages_received":
            return [Out("v", st, self.messages if recv == XA else P("messages of something else"))]
        return Base.call(self, eng, node, f, args, kws, st, fr)


def streams(ck, p):
    base = p.cls(PQ3 + ":MultiXactStream")
    kinds = [c for c in p.subclasses(PQ3 + ".MultiXactStream") if c is not base]
    ck.count("request streams", len(kinds))
    ck.at_least("request streams", 2)
    for cls in kinds:
        nxt = p.find_method(cls, "__next__")
        ck.func(nxt)
        for k, n in [(k, n) for k in (1, 2, 3) for n in range(k + 1)]:
            for active in (True, False):
                rows = [row(i) for i in range(n)]
                for noise in (0, 1):
                    ms = T(*(([msg("bind")] if noise else []) + rows[:1] + ([msg("parse", 1)] if noise and n > 1 else []) + rows[1:] + [msg("suspended" if n == k else "complete")]))
                    rule = Stream(ms)
                    st = State(ts=()).hset((SELF, "_xact"), XA).hset((SELF, "chunksize"), C(k)).hset((SELF, "_process_chunk"), P("process")).hset((SELF, "_command"), T(P("fetch"), P("sync")))
                    st = st.hset((PQ, "xact"), XA if active else P("another")).hset((XA, "fatal"), NONE)
                    outs = Engine(p, rule).run(nxt, {}, self_class=cls.full, st=st, keep_defaults=True)
                    ck.count("requests")
                    label = "%s.__next__, %d of %d%s" % (cls.name, n, k, "" if active else ", already complete")
                    for o in outs:
                        loc = nxt.loc(o.node) if hasattr(o.node, "lineno") else nxt.loc()
                        ev = o.st.ts
                        done = [e for e in ev if e[0] == "process"]
                        pushes = [e for e in ev if e[0] == "push"]
                        if n == 0:
                            ck.judge(o.kind == "raise" and "StopIteration" in str(o.val[1]) and ("close",) in ev, "stream", label, loc, "an exhausted stream does not end", o.st.trace)
                        else:
                            want = ("call", P("process"), tuple(rows), ())
                            ck.judge(o.kind == "return" and o.val == want, "stream", label, loc, "delivers %s" % (show(o.val) if o.kind == "return" else "an exception") + " instead of the rows received", o.st.trace)
                        x = o.st.heap.get((SELF, "_xact"), XA)
                        if n == k:
                            ok = len(pushes) == 1 and len(pushes[0]) > 1 and pushes[0][1] == ("call", P("instruction"), (P("fetch"), P("sync")), ()) and x == pushes[0][1]
                            ck.judge(ok, "stream", label + ", the next request", loc, "a full chunk is not followed by one request for the next", o.st.trace)
                            ck.judge(("close",) not in ev, "stream", label + ", open", loc, "the stream is closed although there may be more rows", o.st.trace)
                        else:
                            ck.judge(x == NONE and not pushes and ("close",) in ev, "stream", label + ", the end", loc, "a short chunk does not end the stream", o.st.trace)
                        ck.judge((("finish",) in ev) == active, "stream", label + ", wait", loc, "the messages are taken before they are complete" if active else "another's transaction is completed", o.st.trace)
        # exhausted
        st = State(ts=()).hset((SELF, "_xact"), NONE)
        for o in Engine(p, Stream(T())).run(nxt, {}, self_class=cls.full, st=st, keep_defaults=True):
            ck.judge(o.kind == "raise" and "StopIteration" in str(o.val[1]) and not o.st.ts, "stream", "%s.__next__, after the end" % cls.name, nxt.loc(), "an exhausted stream goes on", o.st.trace)
        # failed elsewhere
        st = State(ts=()).hset((SELF, "_xact"), XA).hset((SELF, "chunksize"), C(2)).hset((PQ, "xact"), P("another")).hset((XA, "fatal"), FALSE).hset((SELF, "_process_chunk"), P("process"))
        for o in Engine(p, Stream(T(row(0)))).run(nxt, {}, self_class=cls.full, st=st, keep_defaults=True):
            ck.judge(o.kind == "raise" and ("raised",) in o.st.ts, "stream", "%s.__next__, failed by another request" % cls.name, nxt.loc(), "a failed request is read as the end of the rows", o.st.trace)
        init = p.find_method(cls, "_init")
        ck.func(init)
        st = State(ts=()).hset((SELF, "chunksize"), C(3)).hset((SELF, "_quoted_cursor_id"), C('"c"')).hset((SELF, "_pq_cursor_id"), P("cursor")).hset((SELF, "statement"), P("stmt"))

        class Init(Base):
            def inline(self, eng, func):
                return Base.inline(self, eng, func) or func.cls is not None and func.cls.full in {c.full for c in p.mro(cls) if not isinstance(c, str)} and func.name in ("_init", "_bind", "_fetch")

            def call(self, eng, node, f, args, kws, st, fr):
                recv, name = callee(f)
                if f[0] == "g" and f[1].startswith(E3 + "."):
                    return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
                if name == "encode":
                    return [Out("v", st, args[0])]
                return Base.call(self, eng, node, f, args, kws, st, fr)
        found = 0
        for o in Engine(p, Init()).run(init, {}, self_class=cls.full, st=st):
            if o.kind == "raise":
                continue
            found += 1
            pushes = [e for e in o.st.ts if e[0] == "push"]
            items = pushes[0][1][2] if len(pushes) == 1 and pushes[0][1][0] == "call" else ()
            eng = Engine(p, Init())
            cmd = eng.exact_items(o.st.heap.get((SELF, "_command"), NONE), o.st)
            tail = items[-len(cmd):] if cmd else ()
            ck.judge(cmd is not None and tuple(tail) == tuple(cmd) and len(items) > len(cmd), "stream", "%s, first request" % cls.name, init.loc(), "the first request is not the opening followed by the request that is repeated", o.st.trace)
            ck.judge(len(pushes) == 1 and o.st.heap.get((SELF, "_xact")) == pushes[0][1], "stream", "%s, request" % cls.name, init.loc(), "the stream does not wait for the request it sent", o.st.trace)
            if cmd:
                names = [callee(c[1])[1] if c[0] == "call" and "Sync" not in show(c) else "Synchronize" if "Sync" in show(c) else show(c) for c in cmd]
                ck.judge(names[-1] == "Synchronize" and ("Bind" not in names or "Parse" in names), "stream", "%s, what is repeated" % cls.name, init.loc(), "the repeated request is %s" % ", ".join(names), o.st.trace)
                limit(ck, cls, init, cmd, o)
        ck.judge(found, "stream", "%s._init" % cls.name, init.loc(), "no path opens the stream")


def limit(ck, cls, f, cmd, o):
    """the repeated request asks for exactly chunksize rows of the stream's own cursor"""
    sql = [c for c in cmd if c[0] == "call" and callee(c[1])[1] == "Parse"]
    ex = [c for c in cmd if c[0] == "call" and callee(c[1])[1] == "Execute"]
    if sql:
        t = sql[0][2][1] if len(sql[0][2]) > 1 else NONE
        text = t[2] if is_const(t) else "".join(str(x[1]) if x[0] == "lit" else "?" for x in pieces(t))
        ok = re.fullmatch(r'FETCH FORWARD 3 IN "c"', text) is not None and len(ex) == 1 and is_const(ex[0][2][1]) and ex[0][2][1][2] >= 3
        ck.judge(ok, "stream", "%s, rows per request" % cls.name, f.loc(), "asks with %r for a chunk of 3" % text, o.st.trace)
    else:
        ok = len(ex) == 1 and len(ex[0][2]) == 2 and ex[0][2][0] == P("cursor") and ex[0][2][1] == C(3)
        ck.judge(ok, "stream", "%s, rows per request" % cls.name, f.loc(), "asks with %s for a chunk of 3" % ", ".join(show(x) for x in ex), o.st.trace)


# ------------------------------------------------------------------ everything in one request
class All(Base):
    """what the next step of the transaction brings is chosen by the run"""
    def __init__(self, arrivals):
        self.arrivals = arrivals

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name == "_pq_step":
            k = sum(1 for e in st.ts if e[0] == "step")
            s = st.with_ts(st.ts + (("step",),))
            if k >= len(self.arrivals):
                return [Out("v", s.hset((XA, "state"), self.complete_state(eng)), NONE)]
            what = self.arrivals[k]
            if what == "fatal":
                return [Out("v", s.hset((XA, "fatal"), FALSE).hset((XA, "state"), self.complete_state(eng)), NONE)]
            if what == "nothing":
                return [Out("v", s, NONE)]
            if what == "end":
                return [Out("v", s.hset((XA, "state"), self.complete_state(eng)), NONE)]
            cont = s.heap.get((LIST, "$items"))
            return [Out("v", s.hset((LIST, "$items"), ("L", cont[1] + (T(P("number"), what),))), NONE)]
        if name == "messages_received":
            r = ()
            for b in st.heap.get((LIST, "$items"))[1]:
                r += tuple(b[2][1:])
            return [Out("v", st, T(*r))]
        return Base.call(self, eng, node, f, args, kws, st, fr)

    def complete(self, eng, st):
        # the rest arrives
        k = sum(1 for e in st.ts if e[0] == "step")
        cont = st.heap.get((LIST, "$items"))
        s = st
        for what in self.arrivals[k:]:
            if what == "fatal":
                s = s.hset((XA, "fatal"), FALSE)
            elif what not in ("end", "nothing") and cont is not None:
                cont = ("L", cont[1] + (T(P("number"), what),))
        if cont is not None:
            s = s.hset((LIST, "$items"), cont)
        return [Out("v", s.hset((XA, "state"), self.complete_state(eng)).with_ts(st.ts + (("finish",),)), NONE)]

    def complete_state(self, eng):
        return eng.global_value("postgresql.protocol.xact3.Complete") or G("postgresql.protocol.xact3.Complete")

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "==") and P("in progress") in t[2:4]:
            return False
        if t[0] == "cmp" and t[1] in ("is", "==") and all(x == self.complete_state(eng) or x == G("postgresql.protocol.xact3.Complete") for x in t[2:4]):
            return True
        return Base.decide(self, eng, t, st)


def whole(ck, p):
    cls = p.cls(PQ3 + ":FetchAll")
    nxt = p.find_method(cls, "__next__")
    ck.func(nxt)
    a, b = T(row(0), row(1)), T(msg("bind"), row(2), msg("complete"))
    e = T(msg("complete"))
    cases = [((a, b), ()), ((b,), ()), ((a,), (b,)), ((), (a,)), ((), (T(msg("bind")), b)), ((), ()), ((), ("end",)), ((), ("fatal",)), ((e,), ()), ((), (b, "end")), ((a, b, e), ()), ((), ("nothing", a)), ((), ("nothing", "nothing", "end")), ((), ("nothing", "fatal"))]
    for have, coming in cases:
        for state in ("in progress", "complete"):
            if state == "complete" and coming:
                continue
            rule = All(coming)
            eng = Engine(p, rule)
            done = rule.complete_state(eng)
            st = State(ts=()).hset((SELF, "_xact"), XA).hset((XA, "completed"), LIST).hset((LIST, "$items"), ("L", tuple(T(P("number"), x) for x in have)))
            st = st.hset((XA, "state"), done if state == "complete" else P("in progress")).hset((XA, "fatal"), NONE).hset((SELF, "_process_chunk"), P("process")).hset((SELF, "closed"), FALSE)
            label = "FetchAll.__next__, %d batches received, %d to come, %s" % (len(have), len(coming), state)
            outs = eng.run(nxt, {}, self_class=cls.full, st=st, keep_defaults=True)
            ck.count("batches")
            ck.judge(outs, "whole", label, nxt.loc(), "never returns")
            for o in outs:
                loc = nxt.loc(o.node) if hasattr(o.node, "lineno") else nxt.loc()
                batches = list(have) + [x for x in coming if isinstance(x, tuple)]
                if "fatal" in coming and not batches:
                    ck.judge(o.kind == "raise" and ("raised",) in o.st.ts, "whole", label + ", failed", loc, "a failure is read as the end of the rows", o.st.trace)
                elif not batches:
                    ck.judge(o.kind == "raise" and "StopIteration" in str(o.val[1]) and o.st.heap.get((SELF, "_xact")) == NONE, "whole", label, loc, "the end is not reported", o.st.trace)
                else:
                    rows = tuple(x for x in batches[0][1:] if x[0] == "tuple")
                    ok = o.kind == "return" and (o.val == ("call", P("process"), rows or (P("unknown"),), ()) or not rows and o.val[0] == "call")
                    ck.judge(ok, "whole", label, loc, "delivers %s instead of the rows of the first batch" % (show(o.val) if o.kind == "return" else "an exception"), o.st.trace)
                    left = o.st.heap.get((LIST, "$items"))[1]
                    n = sum(1 for x in o.st.ts if x[0] == "step")
                    got = list(have) + [x for x in coming[:n] if isinstance(x, tuple)]
                    ck.judge([x[2] for x in left] == got[1:], "whole", label + ", left", loc, "the batches left are not those after the first", o.st.trace)
                    ck.judge(o.st.heap.get((SELF, "_xact")) == XA, "whole", label + ", goes on", loc, "the stream ends although batches are left", o.st.trace)
                    if any(x[0] == "p" and "complete" in x[1] for x in batches[0][1:]):
                        ck.judge(o.st.heap.get((SELF, "_complete_message")) == msg("complete"), "whole", label + ", completion", loc, "the completion message is not kept", o.st.trace)
    st = State(ts=()).hset((SELF, "_xact"), NONE)
    for o in Engine(p, All(())).run(nxt, {}, self_class=cls.full, st=st, keep_defaults=True):
        ck.judge(o.kind == "raise" and "StopIteration" in str(o.val[1]) and not o.st.ts, "whole", "FetchAll.__next__, after the end", nxt.loc(), "an exhausted stream goes on", o.st.trace)
    opening(ck, p)


def opening(ck, p):
    init = p.find_method(p.cls(PQ3 + ":FetchAll"), "_init")
    ck.func(init)
    for cls, data in ((p.cls(PQ3 + ":SingleXactFetch"), row(0)), (p.cls(PQ3 + ":SingleXactCopy"), msg("copy"))):
        seqs = [((msg("bind"), data),), ((msg("bind"),), (data,)), ((msg("bind"), data, row(1)), (msg("complete", 1),)), ((msg("parse"),), (msg("bind"), msg("complete"))), ((msg("bind"), msg("null")),), ((), (msg("bind"),), (data, msg("complete"))),
                ((msg("bind"), data, msg("complete")),)]
        for seq in seqs:
            rule = All(tuple(T(*x) for x in seq))
            eng = Engine(p, rule)

            def call(eng_, node, f, args, kws, st, fr, rule=rule):
                recv, name = callee(f)
                if name in ("_ins", "Instruction"):
                    return [Out("v", st, XA)]
                if name == "_pq_xp_fetchall":
                    return [Out("v", st, T(P("bind"), P("execute")))]
                return All.call(rule, eng_, node, f, args, kws, st, fr)
            rule.call = call
            rule.inline = lambda eng_, func: False
            st = State(ts=()).hset((XA, "completed"), LIST).hset((LIST, "$items"), ("L", ())).hset((XA, "state"), P("in progress")).hset((XA, "fatal"), NONE)
            flat = [m for x in seq for m in x]
            has = any(m == data or m[0] == "tuple" for m in flat)
            label = "%s, opened by %s" % (cls.name, ", ".join("row" if m[0] == "tuple" else m[1][5:-2] for m in flat))
            outs = [o for o in eng.run(init, {}, self_class=cls.full, st=st, keep_defaults=True)]
            ck.count("openings")
            ck.judge(outs, "whole", label + ", ends", init.loc(), "never returns")
            for o in outs:
                loc = init.loc(o.node) if hasattr(o.node, "lineno") else init.loc()
                x = o.st.heap.get((SELF, "_xact"))
                if has:
                    ck.judge(o.kind != "raise" and x == XA, "whole", label, loc, "the rows received are given up", o.st.trace)
                    n = sum(len(b[2]) - 1 for b in o.st.heap[(LIST, "$items")][1])
                    arrived = sum(len(s) for s in seq[:sum(1 for e in o.st.ts if e[0] == "step")]) if ("finish",) not in o.st.ts else len(flat)
                    ck.judge(n == arrived, "whole", label + ", kept", loc, "rows received while opening are dropped", o.st.trace)
                else:
                    ck.judge(o.kind != "raise" and x == NONE and ("finish",) in o.st.ts, "whole", label, loc, "a result without rows is not finished", o.st.trace)
                    if any(m[0] == "p" and m[1].startswith("$msg complete") for m in flat):
                        ck.judge((o.st.heap.get((SELF, "_complete_message")) or NONE) != NONE, "whole", label + ", completion", loc, "the completion message is not kept", o.st.trace)


# ------------------------------------------------------------------ which stream
class Which(Base):
    def __init__(self, prog):
        self.outs = {c.full for c in [prog.cls(PQ3 + ":Output")] + prog.subclasses(PQ3 + ".Output")}

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.cls.name == "Statement" and func.name not in ("_fini", "_init")

    def call(self, eng, node, f, args, kws, st, fr):
        if f[0] == "g" and f[1] in self.outs:
            v = ("call", f, tuple(args), tuple(kws))
            return [Out("v", st.with_ts(st.ts + (("opened", f[1].split(".")[-1]) + tuple(args),)), v)]
        return Base.call(self, eng, node, f, args, kws, st, fr)


def strategy(ck, p):
    cls = p.cls(PQ3 + ":Statement")
    f = p.find_method(cls, "chunks")
    ck.func(f)
    va = f.node.args.vararg.arg
    used = set()
    for output, state, string in itertools.product((NONE, P("output")), (b"I", b"T", b"E"), (NONE, C("select"))):
        rule = Which(p)
        base = rule.decide
        rule.decide = lambda eng, t, st: True if t == P("output") else False if t[0] == "cmp" and P("output") in t[2:4] and NONE in t[2:4] else Base.decide(rule, eng, t, st)
        st = State(ts=()).hset((SELF, "closed"), FALSE).hset((SELF, "_input"), T()).hset((SELF, "_output"), output).hset((PQ, "state"), C(state)).hset((SELF, "string"), string)
        label = "chunks, %s, block %s, %s" % ("no columns" if output == NONE else "columns", state.decode(), "no text" if string == NONE else "text")
        outs = [o for o in Engine(p, rule).run(f, {va: T()}, self_class=cls.full, st=st) if o.kind != "raise"]
        ck.judge(outs, "strategy", label + ", opens", f.loc(), "no stream is opened")
        for o in outs:
            opened = [e for e in o.st.ts if e[0] == "opened"]
            want = {"SingleXactCopy"} if output == NONE else {"SingleXactFetch", "MultiXactOutsideBlock"} if state == b"I" and string != NONE else {"SingleXactFetch"} if state == b"I" else {"MultiXactInsideBlock", "SingleXactFetch"}
            ck.judge(len(opened) == 1 and opened[0][1] in want and opened[0][2:3] == (SELF,) and call_parts(o.val) is not None, "strategy", label, f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(),
                     "opens %s" % ", ".join(e[1] for e in opened), o.st.trace)
            used.update(e[1] for e in opened)
    for name in sorted(used):
        c = p.cls(PQ3 + ":" + name)
        ck.judge(mro_attr(p, c, "_process_chunk") is not None, "strategy", "%s has a processor" % name, f.loc(), "chunks() returns a stream that has no _process_chunk")
        ck.judge(mro_attr(p, c, "_expect") is not None or p.is_subclass(c.full, PQ3 + ".MultiXactStream"), "strategy", "%s knows what to expect" % name, f.loc(), "the stream does not know which message starts its data")
    d = p.func(PQ3 + ":declare_statement_string")
    ck.func(d)
    n = [a.arg for a in d.node.args.args]
    for o in Engine(p, Base()).run(d, {n[0]: C('"c"'), n[1]: C("select 1")}, st=State(ts=()), keep_defaults=True):
        t = o.val[2] if o.kind == "return" and is_const(o.val) else None
        ck.judge(t is not None and re.fullmatch(r'DECLARE "c" INSENSITIVE SCROLL CURSOR WITH HOLD FOR select 1', " ".join(t.split())) is not None, "strategy", "what is declared", d.loc(),
                 "a cursor read across transactions is declared by %r" % t, o.st.trace)
    for name, proc in (("rows", "_process_tuple_chunk_Row"), ("column", "_process_tuple_chunk_Column")):
        g = p.find_method(cls, name)
        ck.func(g)
        S = ("obj", "list", ("stream",), ("root", "stream"))

        class R(Base):
            def call(self, eng, node, f2, args, kws, st, fr):
                if callee(f2)[1] == "chunks":
                    return [Out("v", st, S)]
                return Base.call(self, eng, node, f2, args, kws, st, fr)

            def on_yield(self, eng, node, val, st, fr):
                return [Out("v", st.with_ts(st.ts + (("yield", val),)), NONE)]

            def inline(self, eng, func):
                return False
        st = State(ts=()).hset((S, "$items"), ("L", (T(P("a"), P("b")), T(P("c"))))).hset((S, "_output_io"), T(P("io")))
        eng = Engine(p, R())
        n = 0
        for o in eng.run(g, {}, self_class=cls.full, st=st):
            if o.kind == "raise":
                continue
            n += 1
            given = o.st.heap.get((S, "_process_chunk"), NONE)
            ok = given[0] == "attr" and given[2] == proc or given[0] == "bm" and given[2].endswith("." + proc)
            ck.judge(ok, "strategy", "%s(), processor" % name, g.loc(), "%s() is processed by %s" % (name, show(given)), o.st.trace)
            items = tuple(e[1] for e in o.st.ts if e[0] == "yield") or eng.exact_items(o.val, o.st)
            ck.judge(tuple(items or ()) == (P("a"), P("b"), P("c")), "strategy", "%s(), items" % name, g.loc(), "%s() does not produce the items of the chunks in order" % name, o.st.trace)
        ck.judge(n, "strategy", "%s()" % name, g.loc(), "no path produces rows")


# ------------------------------------------------------------------ scrollable cursors
class Cur(Base):
    def inline(self, eng, func):
        return func.module.name == PQ3 and not func.name.startswith(("_pq_complete", "_pq_push", "_pq_step", "_process", "raise_", "_raise", "_init", "encode"))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if f[0] == "g" and f[1].startswith(E3 + "."):
            return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        if name == "encode" and recv is not None and is_const(recv):
            return [Out("v", st, C(recv[2].encode()))]
        if name == "encode" and args and is_const(args[0]) and args[0][1] == "str":
            return [Out("v", st, C(args[0][2].encode()))]
        if name == "messages_received":
            return [Out("v", st, T(msg("parse"), row(0), msg("bind"), row(1), msg("complete")))]
        if name in ("_process_tuple", "_process_tuple_chunk_Row"):
            return [Out("v", st.with_ts(st.ts + (("process",),)), ("call", P("process"), tuple(eng.exact_items(args[0], st) or (P("unknown"),)), ()))]
        if name == "extract_count":
            return [Out("v", st, ("call", P("count"), (recv,), ()))]
        return Base.call(self, eng, node, f, args, kws, st, fr)


def statements(o):
    """the SQL texts sent, in order"""
    r = []
    for e in o.st.ts:
        if e[0] == "push" and len(e) > 1 and e[1][0] == "call":
            items = e[1][2]
            for c in items:
                if c[0] == "call" and callee(c[1])[1] == "Parse":
                    t = c[2][1] if len(c[2]) > 1 else NONE
                    x = "".join((y[1] if isinstance(y[1], str) else y[1].decode()) if y[0] == "lit" else "?" for y in pieces(t))
                    r.append(" ".join(x.split()))
    return r


def start(direction):
    st = State(ts=()).hset((SELF, "_quoted_cursor_id"), C('"c"')).hset((SELF, "direction"), direction)
    return st.hset((SELF, "_output_formats"), T())


def cursors(ck, p):
    cls = p.cls(PQ3 + ":Cursor")
    fetch, read, nxt, seek = [p.find_method(cls, n) for n in ("_fetch", "read", "__next__", "seek")]
    for f in (fetch, read, nxt, seek):
        ck.func(f)
    conv = p.func(PQ3 + ":direction_to_bool")
    for v, want in (("FORWARD", True), ("BACKWARD", False), ("forward", True), ("backward", False), (True, True), (False, False), ("UP", None), (1, None)):
        for o in Engine(p, Cur()).run(conv, {conv.node.args.args[0].arg: C(v)}, st=State(ts=())):
            ok = o.kind == "raise" if want is None else o.kind == "return" and o.val == C(want)
            ck.judge(ok, "cursor", "direction %r" % (v,), conv.loc(), "is taken as %s" % (show(o.val) if o.kind == "return" else "an error"), o.st.trace)
    for own, given, q in itertools.product((True, False), (None, True, False, "FORWARD", "BACKWARD"), (None, 0, 1, 5)):
        label = "read(%r, %r) of a cursor %s" % (q, given, "forward" if own else "backward")
        for o in Engine(p, Cur()).run(read, {"quantity": C(q), "direction": C(given)}, self_class=cls.full, st=start(C(own))):
            ck.count("reads")
            sql = statements(o)
            if q == 0:
                ck.judge(o.kind == "return" and Engine(p, Cur()).exact_items(o.val, o.st) == () and not o.st.ts, "cursor", label, read.loc(), "is not an empty list without a request", o.st.trace)
                continue
            g = {None: True, "FORWARD": True, "BACKWARD": False}.get(given, given)
            way = own == g
            want = 'FETCH %s %s IN "c"' % ("FORWARD" if way else "BACKWARD", "ALL" if q is None else q)
            ck.judge(o.kind == "return" and sql == [want], "cursor", label, read.loc(), "sends %s instead of %r" % (sql, want), o.st.trace)
            ok = o.kind == "return" and o.val == ("call", P("process"), (row(0), row(1)), ()) and ("finish",) in o.st.ts
            ck.judge(ok, "cursor", label + ", rows", fetch.loc(), "does not return the rows received in order", o.st.trace)
            last = [e for e in o.st.ts if e[0] == "push"]
            ok = len(last) == 1 and last[0][1][0] == "call" and last[0][1][2] and "Synchronize" in show(last[0][1][2][-1])
            ck.judge(ok, "cursor", label + ", one request", fetch.loc(), "is not one request ended by a synchronization", o.st.trace)
    for own in (True, False):
        class N(Cur):
            def call(self, eng, node, f, args, kws, st, fr):
                if callee(f)[1] in ("_process_tuple", "_process_tuple_chunk_Row"):
                    v = T(P("row"))
                    return [Out("v", st, v), Out("v", st.with_ts(st.ts + (("none",),)), T())]
                return Cur.call(self, eng, node, f, args, kws, st, fr)
        for o in Engine(p, N()).run(nxt, {}, self_class=cls.full, st=start(C(own))):
            label = "next() of a cursor %s" % ("forward" if own else "backward")
            sql = statements(o)
            ck.judge(sql == ['FETCH %s 1 IN "c"' % ("FORWARD" if own else "BACKWARD")], "cursor", label, nxt.loc(), "sends %s" % sql, o.st.trace)
            ok = o.kind == "raise" and "StopIteration" in str(o.val[1]) if ("none",) in o.st.ts else o.kind == "return" and o.val == P("row")
            ck.judge(ok, "cursor", label + (", no row" if ("none",) in o.st.ts else ", a row"), nxt.loc(), "gives %s" % (show(o.val) if o.kind == "return" else "an exception"), o.st.trace)
    seeks(ck, p, cls, seek)


WHENCE = {0: "ABSOLUTE", 1: "RELATIVE", 2: "FROM_END", 3: "FORWARD", 4: "BACKWARD"}


def documented(whence, offset, forward):
    """the documented move: (kind, distance)"""
    if offset == "ALL":
        return ("all", {"FORWARD": 1, "BACKWARD": -1}.get(whence, 1 if forward else -1))
    if whence == "FORWARD":
        return ("rel", offset)
    if whence == "BACKWARD":
        return ("rel", -offset)
    if whence == "RELATIVE":
        return ("rel", offset if forward else -offset)
    return ("abs" if (whence == "ABSOLUTE") == forward else "end", offset)


def effect(sql):
    """what a sequence of MOVE commands does"""
    ms = []
    for s in sql:
        m = re.fullmatch(r'MOVE (\w+)(?: (-?\w+))?(?: IN| FROM) "c"', s)
        if m is None:
            return None
        ms.append((m.group(1), m.group(2)))
    num = lambda x: int(x) if x is not None and re.fullmatch(r"-?\d+", x) else None
    if len(ms) == 1:
        k, n = ms[0]
        if n == "ALL":
            return {"FORWARD": ("all", 1), "BACKWARD": ("all", -1)}.get(k)
        if k == "ABSOLUTE" and num(n) is not None:
            return ("abs", num(n))
        if k in ("FORWARD", "RELATIVE") and num(n) is not None:
            return ("rel", num(n))
        if k == "BACKWARD" and num(n) is not None:
            return ("rel", -num(n))
    # behind the last row, then back
    if len(ms) >= 2 and (ms[:2] == [("LAST", None), ("NEXT", None)] or ms[:1] == [("FORWARD", "ALL")]):
        rest = ms[2:] if ms[0][0] == "LAST" else ms[1:]
        if len(rest) == 1 and rest[0][0] == "BACKWARD" and num(rest[0][1]) is not None:
            return ("end", num(rest[0][1]))
    return None


def seeks(ck, p, cls, seek):
    names = [a.arg for a in seek.node.args.args[1:]]
    m = mro_attr(p, cls, "_seek_whence_map")
    table = None
    for c in p.mro(cls):
        if not isinstance(c, str):
            for n in c.node.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_seek_whence_map" for t in n.targets):
                    try:
                        table = table or ast.literal_eval(n.value)
                    except ValueError:
                        pass
    ck.judge(table is None or table == WHENCE, "seek", "the numbers of whence", seek.loc(), "the numbers stand for %s" % table)
    for forward, w, off in itertools.product((True, False), [0, 1, 2, 3, 4, "ABSOLUTE", "RELATIVE", "FROM_END", "FORWARD", "BACKWARD", "relative", "from_end"], (-7, 0, 7, "ALL")):
        whence = WHENCE[w] if isinstance(w, int) else w.upper()
        want = documented(whence, off, forward)
        label = "seek(%r, %s) of a cursor %s" % (off, whence, "forward" if forward else "backward")
        n = 0
        for o in Engine(p, Cur()).run(seek, {names[0]: C(off), names[1]: C(w)}, self_class=cls.full, st=start(C(forward))):
            ck.count("seeks")
            n += 1
            sql = statements(o)
            got = effect(sql)
            same = got == want or got is not None and got[0] == want[0] == "rel" and got[1] == want[1]
            ck.judge(o.kind == "return" and same, "seek", label, seek.loc(), "sends %s" % "; ".join(sql) if o.kind == "return" else "raises %s" % show(o.val), o.st.trace)
            ck.judge(o.kind != "return" or ("finish",) in o.st.ts, "seek", label + ", done", seek.loc(), "the move is not waited for", o.st.trace)
            ck.judge(o.kind != "return" or o.val == ("call", P("count"), (msg("complete"),), ()), "seek", label + ", count", seek.loc(), "returns %s" % show(o.val), o.st.trace)
        ck.judge(n, "seek", label + ", returns", seek.loc(), "never returns")
    for w in ("SIDEWAYS",):
        for o in Engine(p, Cur()).run(seek, {names[0]: C(1), names[1]: C(w)}, self_class=cls.full, st=start(TRUE)):
            ck.judge(o.kind == "raise" and "TypeError" in str(o.val[1]), "seek", "an unknown whence", seek.loc(), "is accepted", o.st.trace)


# ------------------------------------------------------------------ the portals of DB-API
class Port(Base):
    """chunks still to come: ts"""
    max_depth = 8
    recursion = 4

    def inline(self, eng, func):
        return func.module.name == "postgresql.driver.dbapi20" and func.cls is not None and func.cls.name == "Portal"

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if (name == "next" and args and args[0] == P("chunks")) or (name == "__next__" and recv == P("chunks")):
            if st.ts:
                return [self.piece(eng, st, node)]
            if len(args) > 1:
                return [Out("v", st, args[1])]
            return [Out("raise", st, ("exc", "builtins.StopIteration", ("site", node.lineno)), node)]
        if name == "iter" and args and args[0] == P("chunks"):
            return [Out("v", st, P("chunks"))]
        if name == "next" and len(args) == 1 and args[0] == SELF:
            return eng.call_func(node, eng.prog.find_method(eng.prog.cls("postgresql.driver.dbapi20:Portal"), "__next__"), [SELF], (), st, fr)
        if name == "from_iterable" and list(args) == [P("chunks")]:
            return [Out("v", st.with_ts(()), T(*[x for c in st.ts for x in c]))]
        return None

    def iterate(self, eng, it, st):
        if it == P("chunks"):
            return tuple(T(*c) for c in st.ts), st.with_ts(())
        return None

    def piece(self, eng, st, node):
        # a list of its own: it may be kept and changed
        ob = ("obj", "list", ("chunk", len(st.ts)), ("root", "chunks"))
        return Out("v", st.with_ts(st.ts[1:]).hset((ob, "$items"), ("L", st.ts[0])), ob)

    def decide(self, eng, t, st):
        return None


def portal(ck, p):
    cls = p.cls("postgresql.driver.dbapi20:Portal")
    ops = {"next": p.find_method(cls, "__next__"), "read": p.find_method(cls, "read"), "readall": p.find_method(cls, "readall")}
    for f in ops.values():
        ck.func(f)
    init = p.find_method(cls, "__init__")
    layouts = [(), (("a",),), (("a", "b", "c"),), (("a",), ("b", "c")), ((), ("a", "b")), (("a", "b"), (), ("c", "d"))]
    calls = [("next",), ("read", 1), ("read", 2), ("read", 3), ("readall",)]
    for lay in layouts:
        chunks = tuple(tuple(P("row " + x) for x in c) for c in lay)
        rows = tuple(x for c in chunks for x in c)
        begin = [o.st for o in Engine(p, Port()).run(init, {init.node.args.args[1].arg: P("chunks")}, self_class=cls.full, st=State(ts=chunks)) if o.kind != "raise"]
        todo = [(s, 0, ()) for s in begin]
        for depth in range(3):
            nxt = []
            for s, at, hist in todo:
                for op in calls:
                    if depth == 2 and op[0] == "read" and op[1] != 2:
                        continue
                    f = ops[op[0]]
                    given = {f.node.args.args[1].arg: C(op[1])} if len(op) > 1 else {}
                    eng = Engine(p, Port())
                    label = "Portal over %s: %s" % ("|".join("".join(c) for c in lay) or "nothing", ", ".join("".join(map(str, h)) for h in hist + (op,)))
                    n = 0
                    for o in eng.run(f, given, self_class=cls.full, st=s):
                        n += 1
                        ck.count("portal reads")
                        loc = f.loc(o.node) if hasattr(o.node, "lineno") else f.loc()
                        if op[0] == "next":
                            if at < len(rows):
                                ok, took = o.kind == "return" and o.val == rows[at], 1
                            else:
                                ok, took = o.kind == "raise" and "StopIteration" in str(o.val[1]), 0
                        else:
                            want = rows[at:at + op[1]] if op[0] == "read" else rows[at:]
                            got = eng.exact_items(o.val, o.st) if o.kind == "return" else None
                            ok, took = got is not None and tuple(got) == want, len(want)
                        ck.judge(ok, "portal", label, loc, "gives %s" % (show(o.val) if o.kind != "return" or o.val[0] != "obj" else [show(x) for x in eng.exact_items(o.val, o.st) or ()]), o.st.trace)
                        if ok:
                            nxt.append((o.st, at + took, hist + (op,)))
                    ck.judge(n, "portal", label + ", returns", f.loc(), "never returns")
            todo = nxt


# ------------------------------------------------------------------ chunks of anything
def chunking(ck, p):
    f = p.func("postgresql.python.itertools:chunk")
    ck.func(f)
    names = [a.arg for a in f.node.args.args]

    class R(Base):
        """an iterator is a position in the items: ts = (position, (chunk, ...))"""
        initial = (0, ())

        def __init__(self, items):
            self.items = items

        def call(self, eng, node, f2, args, kws, st, fr):
            recv, name = callee(f2)
            if name == "iter" and len(args) == 1:
                return [Out("v", st, P("iterator"))]
            if name == "islice" and len(args) == 2 and args[0] == P("iterator") and is_const(args[1]):
                k = st.ts[0]
                n = args[1][2]
                return [Out("v", st.with_ts((min(k + n, len(self.items)), st.ts[1])), T(*self.items[k:k + n]))]
            if name == "next" and args and args[0] == P("iterator"):
                k = st.ts[0]
                if k < len(self.items):
                    return [Out("v", st.with_ts((k + 1, st.ts[1])), self.items[k])]
                if len(args) > 1:
                    return [Out("v", st, args[1])]
                return [Out("raise", st, ("exc", "builtins.StopIteration", ("site", node.lineno)), node)]
            return None

        def on_yield(self, eng, node, val, st, fr):
            return [Out("v", st.with_ts((st.ts[0], st.ts[1] + (eng.exact_items(val, st),))), NONE)]

        def decide(self, eng, t, st):
            return None
    for total, size in itertools.product(range(0, 6), (1, 2, 3)):
        items = tuple(P("i%d" % i) for i in range(total))
        n = 0
        for o in Engine(p, R(items)).run(f, {names[0]: T(*items), names[1]: C(size)}, st=State(ts=(0, ()))):
            if o.kind == "raise" and "widen" in show(o.val or NONE):
                continue
            n += 1
            ck.count("chunkings")
            got = o.st.ts[1]
            ok = o.kind != "raise" and None not in got and tuple(x for c in got for x in c) == items and all(len(c) <= size for c in got)
            ck.judge(ok, "chunk", "chunk(), %d items by %d" % (total, size), f.loc(), "gives %s" % (got,), o.st.trace)
        ck.judge(n, "chunk", "chunk(), %d items by %d, ends" % (total, size), f.loc(), "never ends")


def run(ck, p):
    wire(ck, p, "Tuple", "Execute", "Suspension")
    ck.rule("stream", "a full chunk is delivered and the next is asked for; a short one is delivered and ends the stream; every row once, in order; a failed request never looks like the end")
    ck.rule("whole", "each batch received is delivered once and in order, none is given up while opening, and the end is reported only when nothing is left")
    ck.rule("strategy", "a stream is read in the way that is possible in the current block, with the processor its method promises")
    ck.rule("cursor", "read and next fetch the given number of rows in the direction the cursor and the argument give together, and return them in order")
    ck.rule("seek", "a seek moves to the documented place for every whence, sign and direction")
    ck.rule("portal", "whatever the order of fetches, a portal gives the rows of its chunks once, in order, and ends after the last")
    ck.rule("chunk", "chunk() gives every item once, in order, in pieces no larger than asked")
    streams(ck, p)
    whole(ck, p)
    strategy(ck, p)
    cursors(ck, p)
    portal(ck, p)
    chunking(ck, p)
    ck.at_least("requests", 30)
    ck.at_least("batches", 10)
    ck.at_least("openings", 10)
    ck.at_least("reads", 30)
    ck.at_least("seeks", 90)
    ck.at_least("chunkings", 15)
    ck.assumptions.append("PostgreSQL answers an Execute or FETCH for n rows with fewer than n only at the end of the result")
