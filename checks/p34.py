"""P34: a cancel request names this connection's own backend and goes over a socket of its own.

interrupt() is interpreted with the socket it opens as typestate; connect() is interpreted for every outcome of the
startup conversation; every store to the identity in the program is enumerated."""
import ast
from sa.rules import *
from checks.p01 import wire

MOD = "postgresql.protocol.client3"
PQ3 = "postgresql.driver.pq3"
E3 = "postgresql.protocol.element3"
SELF = ("p", "self")
NEW = ("p", "$cancel_socket")
PID, KEY = ("attr", SELF, "backend_id"), ("attr", SELF, "key")
SENDERS = {"send", "sendall", "sendmsg", "sendto", "write"}
REQ = ("p", "$request")
NEG = ("p", "$neg")
COMPLETE = ("tuple", NONE, NONE)


class I(EventRule):
    """ts: (socket: none/open/closed, bytes: none/part/all)"""
    max_depth = 5
    widen_after = 24
    initial = ("none", "none")

    def __init__(self):
        self.bad, self.sites = [], set()

    def inline(self, eng, func):
        return func.module.name == MOD and func.cls is not None and func.name not in ("complete", "step", "push", "connect")

    def may_raise(self, eng, f, node, st):
        return False

    def note(self, rule, fr, node, msg, st):
        self.bad.append((rule, fr.func.loc(node), msg, st.trace))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        exc = lambda cls, s=st: Out("raise", s, ("exc", "?:builtins." + cls, ("excval", cls, node.lineno)), node)
        sock, sent = st.ts
        if f == ("attr", SELF, "socket_factory") or name == "__call__" and recv == ("attr", SELF, "socket_factory"):
            self.sites.add(fr.func.loc(node))
            if sock != "none":
                self.note("cancel", fr, node, "a second socket is opened", st)
            return [V(NEW, st.with_ts(("open", sent))), exc("OSError")]
        if f == G("contextlib.closing") and tuple(args) == (NEW,):
            return [V(NEW)]
        if f == G(E3 + ".CancelRequest"):
            self.sites.add(fr.func.loc(node))
            pid, key = arg(args, kws, 0, "pid", NONE), arg(args, kws, 1, "key", NONE)
            if (pid, key) != (PID, KEY):
                self.note("identity", fr, node, "the request is made of %s and %s" % (show(pid), show(key)), st)
            return [V(REQ)]
        if name == "bytes" and recv == REQ:
            return [V(("p", "$wire"))]
        if name in SENDERS and recv is not None and not (recv[0] == "p" and recv[1] == "$rest"):
            self.sites.add(fr.func.loc(node))
            a = args[0] if args else NONE
            if recv != NEW:
                self.note("own-socket", fr, node, "%s is written to %s" % (show(a), show(recv)), st)
            elif sock != "open":
                self.note("cancel", fr, node, "the request is sent on a closed socket", st)
            if name == "send":
                if sent == "all":       # what follows repeats the second part
                    return []
                if sent == "none" and a != ("p", "$wire") or sent == "part" and a != ("slice", ("p", "$wire"), ("p", "$n"), NONE, NONE):
                    self.note("cancel", fr, node, "%s is sent (%s sent before)" % (show(a), sent), st)
                    return []
                if sent == "none":
                    return [V(("p", "$n"), st.with_ts((sock, "part"))), exc("OSError")]
                return [V(("p", "$m"), st.with_ts((sock, "all"))), exc("OSError")]
            if a != ("p", "$wire") or sent != "none":
                self.note("cancel", fr, node, "%s is sent (%s sent before)" % (show(a), sent), st)
            return [V(NONE, st.with_ts((sock, "all"))), exc("OSError")]
        if name in ("close", "detach", "shutdown", "__exit__", "__enter__") and recv == NEW:
            self.sites.add(fr.func.loc(node))
            if name == "close":
                return [V(NONE, st.with_ts(("closed", sent)))]
            return [V(NONE)]
        if recv is not None and (recv == ("attr", SELF, "socket") or recv == SELF and name in ("push", "complete", "step", "write_messages", "send_message_data")):
            self.note("own-socket", fr, node, "%s is used for the cancel request" % show(f), st)
        return None


    def on_with(self, eng, node, ctx, st, fr):
        return [Out("v", st, NEW)] if ctx == NEW else None

    def on_with_exit(self, eng, node, ctx, kind, val, st, fr):
        if ctx != NEW:
            return None
        self.sites.add(fr.func.loc(node))
        return [Out(kind, st.with_ts(("closed", st.ts[1])), val, node)]


class K(EventRule):
    """connect(): ts: has the startup conversation run"""
    max_depth = 5
    widen_after = 24
    initial = ("before",)

    def inline(self, eng, func):
        return func.module.name == MOD and func.name not in ("complete", "step", "push", "negotiate_ssl")

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        exc = lambda cls, s=st: Out("raise", s, ("exc", "?:builtins." + cls, ("excval", cls, node.lineno)), node)
        if f == ("attr", SELF, "socket_factory"):
            return [V(("p", "$sock")), exc("OSError")]
        if name == "negotiate_ssl":
            return [V(TRUE), V(FALSE), V(NONE)]
        if name in ("complete", "step") and recv == SELF:
            outs = []
            for state in (COMPLETE, ("tuple", TRUE, ("p", "$op"))):
                for fatal in (NONE, TRUE):
                    good = state == COMPLETE and fatal == NONE
                    s = st.fact(("cmp", "is", state, COMPLETE), state == COMPLETE).fact(("cmp", "is", COMPLETE, state), state == COMPLETE)
                    s = s.with_ts(("ok" if good else "failed",)).hset((NEG, "state"), state).hset((NEG, "fatal"), fatal)
                    outs.append(V(NONE, s.hset((SELF, "xact"), NONE if good else NEG)))
            return outs
        if name in ("timed_out",):
            return [V(TRUE), V(FALSE)]
        return None


def run(ck, p):
    wire(ck, p, "CancelRequest", "KillInformation")
    ck.rule("cancel", "interrupt opens one socket, sends the whole request once, and closes the socket on every path")
    ck.rule("identity", "the request is made of this connection's process id and key")
    ck.rule("own-socket", "nothing is written to the session's socket and no state of the connection changes")
    ck.rule("issued", "process id and key are those the startup of this very connection delivered, stored only when it succeeded")
    ck.rule("stores", "the identity is stored nowhere else")
    ck.rule("driver", "the driver's interrupt reaches the protocol connection it is connected by, and publishes that connection's process id")
    cls = p.cls(MOD + ":Connection")
    f = p.find_method(cls, "interrupt")
    rule = I()
    eng = Engine(p, rule)
    outs = eng.run(f, {}, self_class=cls.full, st=State(ts=I.initial).fact(("p", "$wire"), True))
    ck.func(f)
    seen = set()
    for rn, where, msg, tr in rule.bad:
        if (where, msg) not in seen:
            seen.add((where, msg))
            ck.finding(rn, "interrupt", where, msg, tr)
    for o in outs:
        sock, sent = o.st.ts
        ck.ok("cancel", "%s %s %s" % (o.kind, sock, sent))
        msg = None
        if sock == "open":
            msg = "the socket is left open when interrupt %s" % ("raises" if o.kind == "raise" else "returns")
        elif o.kind != "raise" and sent != "all":
            # a send loop ends when nothing is left
            rest = ("slice", ("p", "$wire"), ("p", "$n"), NONE, NONE)
            if not (sent == "part" and (rest, False) in o.st.facts):
                msg = "interrupt returns although %s of the request was sent" % ("none" if sent == "none" else "perhaps only a part")
        if msg and msg not in seen:
            seen.add(msg)
            ck.finding("cancel", "interrupt", f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(), msg, o.st.trace)
        changed = sorted(k[1] for k in o.st.heap if k[0] == SELF)
        if changed and ("changed", changed[0]) not in seen:
            seen.add(("changed", changed[0]))
            ck.finding("own-socket", "interrupt", f.loc(), "the connection's %s is changed by the cancel request" % ", ".join(changed), o.st.trace)
        if sent == "all":
            ck.ok("identity", "sent")
            ck.ok("own-socket", "sent")
    ck.judge(any(o.st.ts == ("closed", "all") for o in outs), "cancel", "interrupt, a request is sent", f.loc(), "no path sends the request")
    ck.count("socket_sites", len(rule.sites))
    # ---- where the identity comes from
    g = p.find_method(cls, "connect")
    ck.func(g)
    startup = {g.full}
    for sec in (TRUE, FALSE, NONE):
        eng = Engine(p, K())
        st = State(ts=K.initial).hset((SELF, "xact"), NEG).hset((NEG, "fatal"), NONE).hset((NEG, "state"), ("tuple", FALSE, ("p", "$op")))
        st = st.fact(("call", G("builtins.hasattr"), (SELF, C("socket")), ()), False).hset((SELF, "key"), NONE).hset((SELF, "backend_id"), NONE)
        outs = eng.run(g, {"ssl": sec, "timeout": NONE}, self_class=cls.full, st=st)
        startup |= {x.full if hasattr(x, "full") else x for x in eng.inlined}
        for o in outs:
            if o.kind == "raise":
                continue
            k, b = o.st.heap.get((SELF, "key")), o.st.heap.get((SELF, "backend_id"))
            ki = ("attr", NEG, "killinfo")
            want = (("attr", ki, "key"), ("attr", ki, "pid")) if o.st.ts == ("ok",) else (NONE, NONE)
            ck.judge((k, b) == want, "issued", "connect, startup %s" % o.st.ts[0], g.loc(),
                     "key is %s and process id %s after the startup: %s" % (show(k), show(b), o.st.ts[0]), o.st.trace)
    # ---- every other store
    n = 0
    for fn in p.all_funcs():
        if fn.module.name not in (MOD, PQ3) or fn.cls is None:
            continue
        for node in ast.walk(fn.node):
            tg = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("key", "backend_id"):
                        n += 1
                        none = isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and node.value.value is None
                        ok = none or fn.full in startup or fn.module.name == PQ3 and x.attr == "backend_id"
                        ck.judge(ok, "stores", fn.full, fn.loc(node), "%s is stored outside of connect" % x.attr)
    ck.count("identity_stores", n)
    # ---- the driver
    pc = p.cls(PQ3 + ":Connection")
    d = p.find_method(pc, "interrupt")
    ck.func(d)

    class D(EventRule):
        initial = ()
        max_depth = 3

        def inline(self, eng, func):
            return func.module.name == PQ3 and not func.name.startswith("_pq")

        def may_raise(self, eng, f, node, st):
            return False

        def call(self, eng, node, f, args, kws, st, fr):
            return [Out("v", st.with_ts(st.ts + ((f, arg(args, kws, 0, "timeout", NONE)),)), NONE)]
    for o in Engine(p, D()).run(d, {"timeout": ("p", "$timeout")}, self_class=pc.full, st=State(ts=())):
        ck.judge(o.kind == "raise" or o.st.ts == ((("attr", ("attr", SELF, "pq"), "interrupt"), ("p", "$timeout")),), "driver", "Connection.interrupt", d.loc(),
                 "calls %s" % ", ".join(show(c[0]) for c in o.st.ts))
    # what is published as backend_id, and which protocol connection becomes self.pq
    est = 0
    for fn in p.all_funcs():
        if fn.module.name != PQ3 or fn.cls is None or fn.cls.full != pc.full:
            continue
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "backend_id":
                        est += 1
                        v = node.value
                        ok = isinstance(v, ast.Name) or isinstance(v, ast.Attribute) and v.attr == "backend_id" or isinstance(v, ast.Constant) and v.value is None
                        ck.judge(ok, "driver", "%s, backend_id" % fn.name, fn.loc(node),
                                 "publishes %s" % ast.unparse(node.value))
    ck.judge(est >= 1, "driver", "backend_id", d.loc(), "is never published")
    ck.at_least("socket_sites", 3)
    ck.assumptions.append("socket.sendall sends everything or raises; the byte form of CancelRequest is decided under P01")
